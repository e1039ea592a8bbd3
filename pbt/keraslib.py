"""Makes hyperion.keras importable with the stand-ins of Keras and Theano (which are not installed)."""
import contextlib
import io
import os
import sys

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'standins_py')
if HERE not in sys.path:
    sys.path.insert(0, HERE)

import keras       # noqa: E402
import theano      # noqa: E402
for m in (keras, theano):
    assert m.__file__.startswith(HERE), m.__file__
K = keras.backend
with contextlib.redirect_stderr(io.StringIO()):      # the backend addons announce themselves
    import hyperion.keras.backend_addons      # noqa: E402,F401


@contextlib.contextmanager
def noise(fn):
    """normal noise given by fn(shape)"""
    old, K._random_normal = K._random_normal, fn
    try:
        yield
    finally:
        K._random_normal = old
