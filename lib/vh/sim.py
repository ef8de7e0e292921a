"""Models of random weights and the distributions of their pulses."""
import os
import shutil

import numpy as np
from scipy import stats

from vh.core import scratch
from vh import models as md
from vh import pipeline as pl


def mixture_cdf(t, mu, sigma, r, scale):
    """CDF of asymmetric Gaussian mixtures; t in 1000 ns after the source"""
    z = (t[:, None] - mu) / sigma
    low = 2. / (1. + r) * stats.norm.cdf(np.minimum(z, 0.))
    high = (1. + r * (2 * stats.norm.cdf(np.maximum(z, 0.) / r) - 1.)) / (
        1. + r)
    return np.sum(scale * np.where(z <= 0, low, high), axis=1)


def expectation(model, handler, theta):
    n = len(theta)
    data = dict(
        x_parameters=np.asarray(theta, np.float32),
        x_pulses=np.ones((1, 2), np.float32),
        x_pulses_ids=np.zeros((1, 3), np.int32),
        x_dom_charge=np.ones((n, 86, 60, 1), np.float32),
        x_dom_exclusions=np.ones((n, 86, 60, 1), bool),
        x_time_window=np.tile(np.array([[9000., 11000.]], np.float32),
                              (n, 1)),
        x_time_exclusions=np.zeros((0, 2), np.float32),
        x_time_exclusions_ids=np.zeros((0, 3), np.int32))
    return md.evaluate(model, handler, data)


def diversify(model, rng, n_filters, negative_binomial):
    """Predictions that differ between DOMs and sources"""
    scale = rng.uniform(0.5, 2.)
    for v in model.variables:
        shape = v.shape.as_list()
        if 'bias' in v.name and shape == [n_filters]:
            value = rng.normal(size=shape)
            if negative_binomial:
                value[1] += rng.uniform(4., 9.)
        elif shape[:2] == [86, 60]:
            value = rng.normal(size=shape) * (2. if len(shape) == 3 else 1.)
        elif shape[:2] == [1, 1]:
            value = rng.normal(size=shape) * scale
        else:
            value = rng.uniform(0.5, 1.2, shape)
        v.assign(value.astype(np.float32))


def prepare(m, rng, charge=None):
    """Exported manager with a single cascade model"""
    base = os.path.join(scratch(), 'sim{}'.format(rng.randint(2**31)))
    p = pl.Project(rng, base, n_files=2, n_events=6, seeds=('SeedA',),
                   multi=False)
    p.model_config['estimate_charge_distribution'] = charge or [
        'negative_binomial', False][rng.randint(2)]
    p.model_config['num_latent_models'] = n = int(rng.choice([2, 3, 5]))
    p.model_config['num_filters_list'] = [6, 4 * n + (
        2 if p.model_config['estimate_charge_distribution'] else 1)]
    p.model_config['scale_charge'] = True
    dirs, handler, trafo = pl.write_managers(
        m, rng, p, [1], lambda model, rng: diversify(
            model, rng, p.model_config['num_filters_list'][-1], p.model_config[
                'estimate_charge_distribution'] == 'negative_binomial'))
    path, models = dirs[0]
    shutil.copy(p.write(p.config()), os.path.join(path, 'reco_config.yaml'))
    return p, path, models[0], handler


def bright(rng, model, handler, low, high):
    """Parameters of a cascade with a total expected charge in a range"""
    theta = np.array([[rng.uniform(-300, 300), rng.uniform(-300, 300),
                       rng.uniform(-300, 300), rng.uniform(0.1, 3.),
                       rng.uniform(0.1, 6.), 1e3, rng.uniform(9e3, 1e4)]])
    target = np.exp(rng.uniform(np.log(low), np.log(high)))
    for _ in range(12):
        out = expectation(model, handler, theta)
        total = float(out['dom_charges'].sum())
        if low <= total <= high and out['dom_charges'].max() < 300.:
            return theta[0]
        theta[0, 5] = np.clip(theta[0, 5] * target / total, 1e-3, 1e8)
        if theta[0, 5] in (1e-3, 1e8) or out['dom_charges'].max() >= 300.:
            target = max(low, target / 2.)
            theta[0, 0:3] = rng.uniform(-400, 400, 3)
    return None
