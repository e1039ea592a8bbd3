"""stand-in of the parts of Theano that hyperion/keras uses, on numpy arrays"""
from . import tensor    # noqa: F401
