from . import generic_utils     # noqa: F401
