"""Analytic likelihoods behind the real managers.

The toy source model hands its (weighted) hypothesis to the toy loss module,
whose negative log-likelihood has a known closed form: for an event e

    z_i = (u(theta_i) - u(target_ei)) / s_i     u = log(1 + .) or identity
    y   = A z,   term_k = y_k^2 / 2 + quartic y_k^4 + linear_k y_k

and per event a constant.  Everything between (data transformation, parameter
assembly, gradients, minimisers, reconstruction modules, ensembles) is the
repository's own code, so that its results are decided against numpy.
"""
import logging

import numpy as np
import tensorflow as tf

from egenerator import misc
from egenerator.manager.component import BaseComponent, Configuration
from egenerator.model.source.base import Source
from vh import models as md

NAMES = ['x', 'y', 'z', 'zenith', 'azimuth', 'energy', 'time', 'aux_a',
         'aux_b', 'aux_c', 'aux_d', 'aux_e', 'aux_f']
FLOOR = 1e-6
SCALE = {'zenith': 0.3, 'azimuth': 0.5, 'energy': 0.7, 'time': 50.}


class ToySource(Source):
    """config: names, weight (initial value of the trainable weight)."""

    def _build_architecture(self, config, name=None):
        self.assert_configured(False)
        self._untracked_data['weight'] = tf.Variable(
            np.asarray(config['weight'], config['dtype']),
            dtype=config['dtype'], name='toy_weight')
        return list(config['names'])

    def get_tensors(self, data_batch_dict, is_training,
                    parameter_tensor_name='x_parameters'):
        self.assert_configured(True)
        return {'theta': data_batch_dict[parameter_tensor_name],
                'weight': self._untracked_data['weight'],
                'is_training': is_training}


class ToyLoss(BaseComponent):
    """config: matrix [K, P], scale [P], log [P], quartic, linear [K],
    constant, target (name of the tensor), dtype."""

    def __init__(self, logger=None):
        super(ToyLoss, self).__init__(
            logger=logger or logging.getLogger(__name__))

    def _configure(self, config):
        return Configuration(
            class_string=misc.get_full_class_string_of_object(self),
            settings=dict(config=config)), {}, {}

    def terms(self, theta, target):
        c = self.configuration.config['config']
        log = np.array(c['log'])

        def u(v):
            # (defined for all values that minimisers may try)
            if not log.any():
                return v
            return tf.where(log, tf.math.log(tf.maximum(1. + v, FLOOR)), v)
        z = (u(theta) - u(target)) / np.array(c['scale'])
        y = tf.matmul(z, tf.constant(np.array(c['matrix']).T, z.dtype))
        out = y**2 / 2. + c['quartic'] * y**4
        return out + y * np.array(c['linear'])

    def get_loss(self, data_batch_dict, result_tensors, tensors, model,
                 parameter_tensor_name='x_parameters', reduce_to_scalar=True,
                 normalize_by_total_charge=False, sort_loss_terms=False,
                 **kwargs):
        c = self.configuration.config['config']
        terms = self.terms(result_tensors['theta'],
                           data_batch_dict[c['target']])
        terms = terms * result_tensors['weight']
        event = c['constant'] + 0. * terms[:, 0]
        if sort_loss_terms:
            return [tf.zeros([], terms.dtype), event,
                    tf.reshape(terms, [-1, len(c['matrix']), 1])]
        if reduce_to_scalar:
            return tf.reduce_sum(terms) + tf.reduce_sum(event)
        return [event, terms]


class Analytic(object):
    """The same likelihood in double precision."""

    def __init__(self, config, weights, target):
        self.c, self.weights = config, weights
        self.target = np.asarray(target, float)

    def u(self, theta):
        theta = np.array(theta, float)
        for i, log in enumerate(self.c['log']):
            if log:
                theta[:, i] = np.log(np.maximum(1 + theta[:, i], FLOOR))
        return theta

    def du(self, theta):
        theta = np.asarray(theta, float)
        d = np.ones_like(theta)
        for i, log in enumerate(self.c['log']):
            if log:
                d[:, i] = np.where(1 + theta[:, i] > FLOOR, 1. / np.maximum(
                    1. + theta[:, i], FLOOR), 0.)
        return d

    def y(self, theta):
        z = (self.u(theta) - self.u(self.target)) / np.array(self.c['scale'])
        return z @ np.array(self.c['matrix'], float).T

    def event_terms(self, theta):
        """Loss terms [n, K] (without the constants)."""
        y = self.y(theta)
        t = y**2 / 2 + self.c['quartic'] * y**4 + \
            np.array(self.c['linear']) * y
        return t * sum(self.weights)

    def events(self, theta):
        return self.event_terms(theta).sum(axis=1) + \
            self.c['constant'] * len(self.weights)

    def loss(self, theta):
        return self.events(theta).sum()

    def jac_u(self, theta):
        """d terms / d u: [n, K, P]."""
        y = self.y(theta)
        d = (y + 4 * self.c['quartic'] * y**3 + np.array(self.c['linear'])) \
            * sum(self.weights)
        B = np.array(self.c['matrix'], float) / np.array(self.c['scale'])
        return d[:, :, None] * B[None]

    def grad_u(self, theta):
        return self.jac_u(theta).sum(axis=1)

    def hess_u(self, theta):
        y = self.y(theta)
        dd = (1 + 12 * self.c['quartic'] * y**2) * sum(self.weights)
        B = np.array(self.c['matrix'], float) / np.array(self.c['scale'])
        return np.einsum('nk,kp,kq->npq', dd, B, B)


class Toy(object):
    """Handler, transformer, models, loss and manager around one likelihood.

    space: 'u' derivatives are converted with `chain` to transformed or
    original units.
    """

    def __init__(self, rng, n_params=7, n_events=1, dtype='float32',
                 n_models=1, seeds=('x_seed',), quartic=None, linear=True,
                 n_terms=None, log=None, weights=None, names=None,
                 norm_constant=1e-6, condition=0.3, loss_cls=None,
                 spread=1., scale=None):
        P = n_params
        self.names = list(names or NAMES[:P])
        if log is None:
            log = [name == 'energy' for name in self.names]
        self.log, self.dtype, self.n, self.P = list(log), dtype, n_events, P
        stat = self.draw(rng, 40)
        md._COUNTER[0] += 1
        key = 'toy{}'.format(md._COUNTER[0])
        all_seeds = ['x_target'] + list(seeds)
        tensors = md.tensor_list(
            P, time_exclusions=False, dom_exclusions=False, seeds=all_seeds,
            param_log=self.log if any(self.log) else None, dtype=dtype)
        self.handler = md.make_handler(key, tensors)
        arrays = self.cast(md.make_batch(
            rng, stat, time_exclusions=False, dom_exclusions=False,
            mean_pulses=3, seeds={s: stat for s in all_seeds}))
        arrays['x_parameters'] = stat.astype(dtype)
        self.trafo = md.make_trafo(self.handler, key, arrays,
                                   norm_constant=norm_constant,
                                   float_precision=dtype)
        K = n_terms or P + int(rng.randint(0, 4))
        A = np.zeros((K, P))
        A[:P] = np.eye(P)
        A += rng.uniform(-condition, condition, A.shape)
        if scale is None:
            scale = [SCALE.get(n, 30. if n in 'xyz' else 0.4)
                     for n in self.names]
        scale = [float(v) for v in scale]
        lin = np.zeros(K)
        if linear:
            # forces without a net force: the minimum stays at the target
            # (they make the products of gradients differ from zero)
            lin = rng.normal(size=K)
            lin -= A @ np.linalg.lstsq(A, lin, rcond=None)[0]
        self.loss_config = dict(
            matrix=[[float(v) for v in row] for row in A], scale=scale,
            log=[bool(v) for v in self.log],
            quartic=float(rng.uniform(0, 0.05) if quartic is None
                          else quartic),
            linear=[float(v) for v in lin],
            constant=float(rng.uniform(-20, 20)), target='x_target')
        self.loss = (loss_cls or ToyLoss)()
        self.loss.configure(config=self.loss_config)
        if weights is None:
            weights = [1.] if n_models == 1 else list(
                rng.uniform(0.3, 2., n_models))
        self.weights = [float(np.asarray(w, dtype)) for w in weights]
        self.models = []
        for w in self.weights:
            model = ToySource()
            model.configure(config=dict(names=self.names, weight=w,
                                        dtype=dtype), data_trafo=self.trafo)
            self.models.append(model)
        mapping = {k: k for k in ('x', 'y', 'z', 'zenith', 'azimuth',
                                  'energy', 'time') if k in self.names}
        mapping['length'] = None
        self.manager = md.make_manager(self.handler, self.models,
                                       I3ParticleMapping=mapping)
        self.spread = spread

    def cast(self, arrays):
        return {k: v.astype(self.dtype)
                if v.dtype.kind == 'f' else v for k, v in arrays.items()}

    def draw(self, rng, n):
        cols = []
        for name in self.names:
            cols.append({
                'zenith': lambda: rng.uniform(0.6, 2.4, n),
                'azimuth': lambda: rng.uniform(1.2, 5., n),
                'energy': lambda: 10**rng.uniform(2, 4, n),
                'time': lambda: rng.uniform(9500, 10000, n)}.get(
                    name, lambda: rng.uniform(-300, 300, n)
                    if name in 'xyz' else rng.uniform(0.5, 2., n))())
        return np.stack(cols, axis=1)

    def near(self, rng, theta, size=None):
        """Points around theta in units of the scale."""
        size = self.spread if size is None else size
        theta = np.array(theta, float)
        step = rng.normal(size=theta.shape) * size * np.array(
            self.loss_config['scale'])
        for i, log in enumerate(self.log):
            if log:
                theta[:, i] = np.expm1(np.maximum(
                    np.log1p(theta[:, i]) + step[:, i], 0.01))
            else:
                theta[:, i] += step[:, i]
        return theta.astype(self.dtype)

    def batch(self, rng, target=None, seeds=None, truth=None):
        """(tensors of the batch, Analytic likelihood, dict of arrays)."""
        if target is None:
            target = self.draw(rng, self.n)
        target = np.asarray(target, self.dtype)
        arrays = md.make_batch(rng, target, time_exclusions=False,
                               dom_exclusions=False, mean_pulses=4)
        arrays['x_target'] = target
        arrays['x_parameters'] = target if truth is None else truth
        for name in [t.name for t in self.handler.tensors.list]:
            if name.startswith('x_seed'):
                arrays[name] = self.near(rng, target) \
                    if seeds is None or name not in seeds else seeds[name]
        arrays = self.cast(arrays)
        tensors = md.batch_tuple(self.handler, arrays, as_tensor=True)
        return tensors, self.analytic(target), arrays

    def analytic(self, target):
        return Analytic(self.loss_config, self.weights, target)

    # ------------------------------------------------ spaces
    def width(self):
        """d u / d (transformed parameter): documented scaling."""
        return np.asarray(self.trafo.data['x_parameters_std'], float) + \
            self.trafo.data['norm_constant']

    def to_trafo(self, theta):
        """Transformed parameters in double precision."""
        u = np.array(theta, float)
        for i, log in enumerate(self.log):
            if log:
                u[:, i] = np.log(np.maximum(1 + u[:, i], 1e-30))
        return (u - np.asarray(self.trafo.data['x_parameters_mean'],
                               float)) / self.width()

    def from_trafo(self, x):
        u = np.asarray(x, float) * self.width() + np.asarray(
            self.trafo.data['x_parameters_mean'], float)
        for i, log in enumerate(self.log):
            if log:
                u[:, i] = np.expm1(u[:, i])
        return u

    def chain(self, analytic, theta, in_trafo):
        """d u / d (coordinate of the minimisation): [n, P]."""
        if in_trafo:
            return np.tile(self.width(), (len(theta), 1))
        return analytic.du(theta)

    def specs(self, fit=None):
        """Signatures (selected params, data batch, full params)."""
        n = self.P if fit is None else int(np.sum(fit))
        dt = getattr(tf, self.dtype)
        return (tf.TensorSpec([None, n], dt),
                self.handler.get_data_set_signature(),
                tf.TensorSpec([None, self.P], dt))

    def random_fit(self, rng, allow_all=True):
        while True:
            fit = [bool(v) for v in rng.rand(self.P) < rng.uniform(0.2, 1)]
            if allow_all and rng.rand() < 0.25:
                fit = [True] * self.P
            if any(fit) and (allow_all or not all(fit)):
                return fit
