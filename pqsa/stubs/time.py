"""Model of time: sleeping calls the functions the client program registered."""
sleepers = []


def sleep(seconds):
    for function in sleepers:
        function(seconds)


def time():
    return 0.0
