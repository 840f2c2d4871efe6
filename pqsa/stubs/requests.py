"""Model of the requests library: a session forwards every request to the server model the client program installed."""
from . import compat
from . import exceptions

installed = []


class Response:
    def __init__(self, body, error=None):
        self.body = body
        self.error = error
        self.status_code = 200

    def raise_for_status(self):
        if self.error is not None:
            raise self.error

    def json(self):
        return self.body


class Session:
    def __init__(self):
        self.headers = {}
        self.params = {}

    def get(self, url, **kwargs):
        return installed[-1].answer('get', url, kwargs, self)

    def post(self, url, **kwargs):
        return installed[-1].answer('post', url, kwargs, self)

    def put(self, url, **kwargs):
        return installed[-1].answer('put', url, kwargs, self)
