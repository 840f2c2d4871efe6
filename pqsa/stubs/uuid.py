"""Model of uuid."""


def uuid4():
    return 'some-unique-id'
