"""the callbacks of Keras 2.2 as far as the checks use them (the module exports its imports, as there)"""
import os          # noqa: F401
import csv         # noqa: F401
import io          # noqa: F401
import sys         # noqa: F401
import time        # noqa: F401
import json        # noqa: F401
import warnings

import numpy as np
import six         # noqa: F401
from collections import deque, OrderedDict      # noqa: F401

from . import backend as K
from . import missing


class Callback(object):
    def __init__(self):
        self.validation_data = None
        self.model = None

    def set_params(self, params):
        self.params = params

    def set_model(self, model):
        self.model = model

    def on_epoch_begin(self, epoch, logs=None):
        pass

    def on_epoch_end(self, epoch, logs=None):
        pass

    def on_batch_begin(self, batch, logs=None):
        pass

    def on_batch_end(self, batch, logs=None):
        pass

    def on_train_begin(self, logs=None):
        pass

    def on_train_end(self, logs=None):
        pass


def _op(mode, monitor):
    if mode not in ('auto', 'min', 'max'):
        warnings.warn('mode %s is unknown, fallback to auto mode.' % mode, RuntimeWarning)
        mode = 'auto'
    if mode == 'max' or mode == 'auto' and 'acc' in monitor:
        return np.greater
    return np.less


class ModelCheckpoint(Callback):
    def __init__(self, filepath, monitor='val_loss', verbose=0, save_best_only=False, save_weights_only=False, mode='auto', period=1):
        super(ModelCheckpoint, self).__init__()
        self.monitor, self.verbose, self.filepath = monitor, verbose, filepath
        self.save_best_only, self.save_weights_only, self.period = save_best_only, save_weights_only, period
        self.epochs_since_last_save = 0
        self.monitor_op = _op(mode, monitor)
        self.best = np.Inf if self.monitor_op is np.less else -np.Inf


class EarlyStopping(Callback):
    def __init__(self, monitor='val_loss', min_delta=0, patience=0, verbose=0, mode='auto', baseline=None, restore_best_weights=False):
        super(EarlyStopping, self).__init__()
        self.monitor, self.patience, self.verbose, self.mode = monitor, patience, verbose, mode
        self.monitor_op = _op(mode, monitor)
        self.min_delta = min_delta if self.monitor_op is np.greater else -min_delta


class CSVLogger(Callback):
    def __init__(self, filename, separator=',', append=False):
        super(CSVLogger, self).__init__()
        self.filename, self.sep, self.append = filename, separator, append


class ReduceLROnPlateau(Callback):
    def __init__(self, monitor='val_loss', factor=0.1, patience=10, verbose=0, mode='auto', min_delta=1e-4, cooldown=0, min_lr=0, **kwargs):
        super(ReduceLROnPlateau, self).__init__()
        if factor >= 1.0:
            raise ValueError('ReduceLROnPlateau does not support a factor >= 1.0.')
        if 'epsilon' in kwargs:
            min_delta = kwargs.pop('epsilon')
        self.monitor, self.factor, self.patience, self.verbose, self.mode = monitor, factor, patience, verbose, mode
        self.min_delta, self.cooldown, self.min_lr = min_delta, cooldown, min_lr


class LearningRateScheduler(Callback):
    def __init__(self, schedule, verbose=0):
        super(LearningRateScheduler, self).__init__()
        self.schedule = schedule


__getattr__ = missing('keras.callbacks')
