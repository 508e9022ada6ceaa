"""The header-only parts as compiled without the C library."""
from .contracts_inline import *
from . import contracts_inline as B

CONFIG = "inline_nolibc"
SERVES = B.SERVES


def tasks(prop=None):
    return B.tasks(prop)
