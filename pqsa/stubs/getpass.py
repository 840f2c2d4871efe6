"""Model of getpass."""


def getpass(prompt=''):
    return 'typed-secret'
