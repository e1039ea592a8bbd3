from . import backend as K
from . import missing


def categorical_crossentropy(y_true, y_pred):
    return K.categorical_crossentropy(y_true, y_pred)


def binary_crossentropy(y_true, y_pred):
    return K.mean(K.binary_crossentropy(y_true, y_pred), axis=-1)


def mean_squared_error(y_true, y_pred):
    return K.mean(K.square(y_pred - y_true), axis=-1)


def get(identifier):
    if callable(identifier):
        return identifier
    if identifier not in ('categorical_crossentropy', 'binary_crossentropy', 'mean_squared_error'):
        raise ValueError('Unknown loss function: %s' % identifier)
    return globals()[identifier]


__getattr__ = missing('keras.objectives')
