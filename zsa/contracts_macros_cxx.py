"""The container macros as C++ programs see them."""
from .contracts_macros import *
from . import contracts_macros as B

CONFIG = "macros_cxx"
SERVES = B.SERVES


def tasks(prop=None):
    return B.tasks(prop)
