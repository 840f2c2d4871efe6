"""Model of the azure namespace package."""
from . import quantum
