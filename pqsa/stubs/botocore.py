"""Model of botocore."""
from . import exceptions
