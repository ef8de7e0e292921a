"""Components with closed-form gradients for the training loop."""
import logging

import numpy as np
import tensorflow as tf

from egenerator import misc
from egenerator.manager.component import BaseComponent, Configuration
from egenerator.model.source.base import Source
from vh import array_handler as ah


NAMES = ('a', 'b', 'c', 'unused')
LOG, MODELS, HOOK = [], [], [None]   # of the recorder


class TrainHandler(ah.ArrayHandler):
    """Serves the batches of a pool forever, one after the other."""

    def get_batch_generator(self, splits=None, key=None, input_data=None,
                            batch_size=None, **kwargs):
        if splits is not None:
            for batch in super(TrainHandler, self).get_batch_generator(
                    splits=splits, key=key):
                yield batch
            return
        pool = ah.STORE[input_data]
        i = 0
        while True:
            yield pool[i % len(pool)]
            i += 1

    def kill(self):
        pass


class TrainSource(Source):
    """config: names, start (dict of values), dtype, with_unused."""

    def _build_architecture(self, config, name=None):
        self.assert_configured(False)
        dt = config['dtype']
        for key, value in sorted(config['start'].items()):
            self._untracked_data[key] = tf.Variable(
                np.asarray(value, dt), dtype=dt, name='train_' + key,
                trainable=key != 'frozen')
        return list(config['names'])

    def get_tensors(self, data_batch_dict, is_training,
                    parameter_tensor_name='x_parameters'):
        self.assert_configured(True)
        out = {k: v for k, v in self._untracked_data.items()
               if k in ('a', 'b', 'c', 'frozen')}
        out['theta'] = data_batch_dict[parameter_tensor_name]
        out['training'] = tf.constant(1. if is_training else 0.,
                                      out['theta'].dtype)
        return out

    def values(self):
        return {k: self._untracked_data[k].numpy()
                for k in self.configuration.config['config']['start']}

    def set_values(self, values):
        for k, v in values.items():
            self._untracked_data[k].assign(v)


class TrainLoss(BaseComponent):
    """config: scale, root (weight of the term without a derivative at 0),
    training (constant added when training)."""

    def __init__(self, logger=None):
        super(TrainLoss, self).__init__(
            logger=logger or logging.getLogger(__name__))

    def _configure(self, config):
        return Configuration(
            class_string=misc.get_full_class_string_of_object(self),
            settings=dict(config=config)), {}, {}

    def get_loss(self, data_batch_dict, result_tensors, tensors, model,
                 parameter_tensor_name='x_parameters', factor=1., **kwargs):
        cfg, t = self.configuration.config['config'], result_tensors
        r = (t['theta'] * t['a'] + t['b'] + t['frozen'] -
             data_batch_dict['x_target']) / cfg['scale']
        loss = tf.reduce_sum(r**2) / 2.
        c = t['c']
        loss += cfg['root'] * tf.reduce_sum(
            tf.where(tf.equal(c, 0), tf.zeros_like(c),
                     tf.abs(c) * tf.math.log(tf.abs(c))))
        return factor * (loss + cfg['training'] * t['training'])


def reference(cfg, values, batch, names, opt, training=True, factor=1.):
    """(loss, {name: gradient}) of one model in double precision."""
    v = {k: np.asarray(x, float) for k, x in values.items()}
    theta = np.asarray(batch[names.index('x_parameters')], float)
    target = np.asarray(batch[names.index('x_target')], float)
    r = (theta * v['a'] + v['b'] + v['frozen'] - target) / cfg['scale']
    size = np.abs(np.where(v['c'] != 0, v['c'], 1.))
    loss = (r**2).sum() / 2. + cfg['root'] * (size * np.log(size)).sum() + \
        cfg['training'] * training
    g = dict(a=(r / cfg['scale'] * theta).sum(axis=0),
             b=(r / cfg['scale']).sum(),
             c=np.where(v['c'] != 0, cfg['root'] * np.sign(v['c']) *
                        (np.log(size) + 1), np.nan))
    loss, g = factor * loss, {k: factor * x for k, x in g.items()}
    g['unused'] = None
    l1, l2 = opt['l1_regularization'], opt['l2_regularization']
    for k in NAMES:
        if l1 > 0 or l2 > 0:
            loss += l1 * np.abs(v[k]).sum() + l2 * (v[k]**2).sum()
            g[k] = (0. if g[k] is None else g[k]) + l1 * np.sign(
                v[k]) + 2 * l2 * v[k]
    return loss, g


class Recorder(BaseComponent):
    """Evaluation module that keeps what it is given."""

    def __init__(self, logger=None):
        super(Recorder, self).__init__(
            logger=logger or logging.getLogger(__name__))

    def _configure(self, config):
        return Configuration(
            class_string=misc.get_full_class_string_of_object(self),
            settings=dict(config=config)), {}, {}

    def evaluate(self, data_batch, loss_module, tensors, step, writer):
        LOG.append(dict(
            step=int(step), steps=[int(m.step) for m in MODELS],
            values=[m.values() for m in MODELS],
            extra=HOOK[0]() if HOOK[0] else None,
            batch=[np.asarray(x) for x in data_batch]))
