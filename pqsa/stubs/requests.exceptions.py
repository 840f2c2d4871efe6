"""Model of requests.exceptions."""


class RequestException(OSError):
    def __init__(self, *args):
        super().__init__(*args)
        self.response = None


class HTTPError(RequestException):
    pass


class ConnectionError(RequestException):
    pass
