"""Stand-in of Keras 2.2 (Theano backend) on numpy arrays of double precision; see ../README."""
class NotInStandIn(NotImplementedError):
    """the code under test uses a part of Keras that the stand-in does not have: the case is not decided"""


def missing(module):
    def get(name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise NotInStandIn('%s.%s' % (module, name))
    return get


from . import backend, engine, activations, initializers, regularizers, constraints, objectives, optimizers, layers, models, callbacks, utils     # noqa: E402,F401
losses = objectives
__version__ = '2.2.4'
