"""Model of botocore.exceptions."""


class ClientError(Exception):
    def __init__(self, response=None, operation=None):
        super().__init__('client error')
        self.response = response
