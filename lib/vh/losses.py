"""Synthetic model predictions and independent likelihoods for the losses."""
import numpy as np
from scipy import special

from vh import models as md

NAMES = ('unbinned_extended_pulse_llh', 'unbinned_pulse_time_llh',
         'unbinned_pulse_and_dom_charge_pdf', 'unbinned_charge_quantile_pdf',
         'dom_and_event_charge_pdf', 'negative_binomial_charge_pdf',
         'negative_binomial_event_charge_pdf', 'normalized_dom_charge_pdf')
WITH_NORM = NAMES[:3]


def handler_for(windows, excl, quantiles, dtype='float64', seeds=()):
    tensors = md.tensor_list(7, time_exclusions=windows, dom_exclusions=excl,
                             quantiles=quantiles, dtype=dtype, seeds=seeds)
    key = 'losses{}{}{}{}'.format(int(windows), int(excl), int(quantiles),
                                  dtype)
    return md.make_handler(key, tensors)


def make_data(rng, n, windows, excl, quantiles=True, dtype='float64',
              pulses=25):
    data = md.make_batch(rng, rng.normal(size=(n, 7)), mean_pulses=pulses,
                         time_exclusions=windows, dom_exclusions=excl,
                         quantiles=quantiles)
    return {k: v.astype(dtype) if v.dtype.kind == 'f' else v
            for k, v in data.items()}


def predictions(rng, data, windows, regime='typical', dtype='float64'):
    """Random result tensors of a model for a batch."""
    n, k = len(data['x_parameters']), len(data['x_pulses'])
    low, high = {'typical': (-4, 1.5), 'dark': (-7, -3),
                 'bright': (0, 4)}[regime]
    charge = 10**rng.uniform(low, high, (n, 86, 60, 1)) + 1e-7
    alpha = 10**rng.uniform(-3, 0, (n, 86, 60, 1))
    out = dict(dom_charges=charge,
               dom_charges_variance=charge + alpha * charge**2,
               dom_charges_log_pdf_values=-rng.exponential(
                   2., (n, 86, 60, 1)),
               pulse_pdf=10**rng.uniform(-9, 0.5, k),
               pulse_quantile_pdf=10**rng.uniform(-9, 0.5, k))
    if windows:
        out['dom_cdf_exclusion_sum'] = rng.rand(n, 86, 60, 1)
    return {key: v.astype(dtype) for key, v in out.items()}


def call(loss, data, results, handler, model=None, **kwargs):
    """Result of get_loss as NumPy arrays."""
    import tensorflow as tf
    batch = md.batch_dict(handler, data)
    result = {k: tf.constant(v) for k, v in results.items()}
    out = loss.get_loss(batch, result, handler.tensors, model=model,
                        **kwargs)
    if isinstance(out, (list, tuple)):
        return [v.numpy() for v in out]
    return out.numpy()


def log_faculty(x):
    """log(x!), constant below one (as in the code: no negative terms)."""
    return special.gammaln(np.maximum(x + 1., 2.))


def log_gauss(x, mu, sigma):
    return -0.5 * ((x - mu) / sigma)**2 - np.log(sigma) \
        - 0.5 * np.log(2 * np.pi)


def log_nb(x, mu, alpha):
    """Negative binomial without the hypothesis independent x! term."""
    inv = 1. / alpha
    return special.gammaln(x + inv) - special.gammaln(inv) \
        - inv * np.log1p(alpha * mu) + x * (
            np.log(alpha * mu) - np.log1p(alpha * mu))


def expected(name, data, results, excl, norm, low=None, high=None):
    """(per event, per DOM) parts of the negative log likelihood."""
    n = len(data['x_parameters'])
    event = np.zeros(n)
    true = data['x_dom_charge'][..., 0].astype(float)
    valid = data['x_dom_exclusions'][..., 0].astype(float) if excl else \
        np.ones_like(true)
    pred = results['dom_charges'][..., 0].astype(float) * valid
    var = results['dom_charges_variance'][..., 0].astype(float)
    log_pdf = results['dom_charges_log_pdf_values'][..., 0].astype(float)
    q = data['x_pulses'][:, 0].astype(float)
    ids = tuple(data['x_pulses_ids'].T)
    eps = 1e-7
    dom = np.zeros_like(true)

    def add_pulses(values):
        np.add.at(dom, ids, values)
    if name == 'unbinned_extended_pulse_llh':
        dom += pred - true * valid * np.log(pred + eps)
        add_pulses(-q * np.log(results['pulse_pdf'].astype(float) + eps))
        if norm:
            dom += log_faculty(true * valid)
            add_pulses(log_faculty(q))
    elif name == 'unbinned_pulse_time_llh':
        add_pulses(-q * np.log(results['pulse_pdf'].astype(float) + eps))
        if norm:
            add_pulses(log_faculty(q))
    elif name == 'unbinned_pulse_and_dom_charge_pdf':
        dom += -log_pdf * valid
        add_pulses(-q * np.log(results['pulse_pdf'].astype(float) + eps))
        if norm:
            dom += log_faculty(true * valid)
            add_pulses(log_faculty(q))
    elif name == 'unbinned_charge_quantile_pdf':
        values = -np.log(results['pulse_quantile_pdf'].astype(float) + eps)
        quant = data['x_pulses'][:, 2]
        if low is not None:
            values = np.where(quant < low, 0., values)
        if high is not None:
            values = np.where(quant > high, 0., values)
        add_pulses(values)
    elif name == 'dom_and_event_charge_pdf':
        dom += -log_pdf * valid
        event += -log_gauss((true * valid).sum(axis=(1, 2)),
                            pred.sum(axis=(1, 2)),
                            np.sqrt((var * valid).sum(axis=(1, 2))))
    elif name == 'negative_binomial_charge_pdf':
        raw = results['dom_charges'][..., 0].astype(float)
        alpha = np.maximum((var - raw) / (raw**2 + 5e-5), 5e-5)
        dom += -log_nb(true, raw, alpha) * valid
    elif name == 'negative_binomial_event_charge_pdf':
        total = pred.sum(axis=(1, 2))
        alpha = np.maximum(((var * valid).sum(axis=(1, 2)) - total)
                           / total**2, 5e-5)
        event += -log_nb((true * valid).sum(axis=(1, 2)), total, alpha)
    elif name == 'normalized_dom_charge_pdf':
        pdf = pred / pred.sum(axis=(1, 2), keepdims=True)
        dom += -true * valid * np.log(pdf + 5e-5)
    return event, dom
