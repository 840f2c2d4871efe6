"""Model of signal: one handler for every signal."""
SIGINT = 2
# constants, not functions; the first one is false
SIG_DFL = 0
SIG_IGN = 1
handlers = {}


def getsignal(number):
    return handlers.get(number, SIG_DFL)


def signal(number, handler):
    old = handlers.get(number, SIG_DFL)
    handlers[number] = handler
    return old
