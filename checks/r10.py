"""R10: Angular uncertainty and goodness of fit of reconstructed events."""
import contextlib
import io

import numpy as np
import tensorflow as tf
from scipy import optimize, stats

from egenerator.manager.reconstruction.modules.fit_quality import \
    GoodnessOfFit
from egenerator.manager.reconstruction.modules.opening_angle import \
    CircularizedAngularUncertainty
from egenerator.manager.reconstruction.tray import FunctionCache
from vh.core import Case
from vh import toy as ty

RULE = ('the modules run on likelihoods with known profile, dependence on '
        'the simulated pulses and minimum; a monitor records every '
        'simulated event, minimisation and evaluation, from which the '
        'reported losses, p-values, moments and uncertainties are '
        'recomputed; distinct = options of the module')
ASSUMPTIONS = ['the number of degrees of freedom of the uncertainty is the '
               'number of parameters minus two, as in the code']
WORKERS = {'quick': 4}
BUDGET = {'quick': 45, 'thorough': 500}
REQUIRE = {'fitted curves': 60, 'opening angles': 120,
           'simulated events': 200, 'p-values of events': 12,
           'p-values of DOMs': 10000, 'sampled hypotheses': 100,
           'reconstructed samples': 60, 'p-values': 300}


def plain(cls):
    """An object for methods that do not depend on the configuration"""
    return cls.__new__(cls)


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def estimate_at(psi, sigma):
    return 1. - np.exp(-0.5 * (np.asarray(psi) / sigma)**2)


def decide_estimate(m, label, psi, delta_loss, ddof, got):
    """The estimate has the smallest distance to the chi2 probabilities"""
    if not m.check(np.ndim(got) == 0 and np.isfinite(got) and got > 0.,
                   'angular uncertainty is not positive', label, got=got):
        return
    cdf = stats.chi2(ddof).cdf(2. * np.asarray(delta_loss, float))

    def distance(s):
        return np.sum((cdf - estimate_at(psi, s))**2)
    grid = np.geomspace(0.02, 90., 400)
    best = min(distance(s) for s in grid)
    m.check(distance(got) < best + 1e-4 + 0.01 * best, 'angular uncertainty '
            'does not describe the likelihood', label, got=distance(got),
            want=best, sigma=got)


def case_curves(m, rng):
    """Estimate of the uncertainty from a profile of the likelihood"""
    for _ in range(20):
        sigma = float(np.exp(rng.uniform(np.log(0.05), np.log(60.))))
        n, ddof = int(rng.randint(5, 30)), int(rng.randint(1, 12))
        psi = np.linspace(0., min(89.9, sigma * rng.uniform(1., 4.)), n)
        if psi[-1] < 0.5 * sigma:
            continue
        loss = stats.chi2(ddof).ppf(np.minimum(
            estimate_at(psi, sigma), 1. - 1e-9)) / 2.
        exact = bool(rng.rand() < 0.5)
        if not exact:
            loss = loss * rng.uniform(0.6, 1.6, n)
        label = 'exact' if exact else 'disturbed'
        got = m.call('estimate of the uncertainty raised',
                     plain(CircularizedAngularUncertainty)
                     .get_circularized_estimate, psi, loss, x0=5., ddof=ddof)
        m.event('fitted curves')
        m.saw('curves', (label, int(np.log10(sigma) * 2)))
        decide_estimate(m, label, psi, loss, ddof, got)
        if exact:
            m.check(abs(got / sigma - 1.) < 0.01, 'uncertainty of an exact '
                    'profile', label, got=got, want=sigma)


def opening_angle(a, b):
    """degrees between (zenith, azimuth) of double precision"""
    def vec(d):
        return np.array([np.sin(d[0]) * np.cos(d[1]),
                         np.sin(d[0]) * np.sin(d[1]), np.cos(d[0])])
    u, v = vec(a), vec(b)
    return np.rad2deg(np.arctan2(np.linalg.norm(np.cross(u, v)), u @ v))


class Spy(object):
    """Record minimisations of a manager"""

    def __init__(self, manager):
        self.calls, self.manager = [], manager
        self.function = manager.reconstruct_events
        manager.reconstruct_events = self

    def __call__(self, data_batch, *args, **kwargs):
        result = self.function(data_batch, *args, **kwargs)
        self.calls.append((
            data_batch, np.array(kwargs['seed'], float),
            list(kwargs['fit_paramater_list']), np.array(result[0], float)))
        return result


def profile(toy, analytic, theta, fixed):
    """Smallest loss if some parameters are fixed (quadratic likelihood)"""
    A = np.array(toy.loss_config['matrix'], float) / np.array(
        toy.loss_config['scale'])
    lin = np.array(toy.loss_config['linear'])
    z = (analytic.u(theta) - analytic.u(analytic.target))[0]
    free = ~np.asarray(fixed)
    z[free] = 0.
    y0 = A @ z
    step = np.linalg.lstsq(A[:, free], -(y0 + lin), rcond=None)[0]
    y = y0 + A[:, free] @ step
    return (y**2 / 2. + lin * y).sum() * sum(analytic.weights) + \
        toy.loss_config['constant'] * len(analytic.weights)


def case_circular(m, rng):
    n_params = int(rng.randint(4, 9))
    names = list(rng.permutation(ty.NAMES[:max(7, n_params)]))
    names = [n for n in names if n not in ('zenith', 'azimuth')][
        :n_params - 2] + ['zenith', 'azimuth']
    names = [str(n) for n in rng.permutation(names)]
    sigma = np.deg2rad(np.exp(rng.uniform(np.log(1.), np.log(20.))))
    scale = [{'energy': 0.5, 'zenith': sigma, 'azimuth': sigma * rng.uniform(
        0.7, 1.5)}.get(n, 30. if n in 'xyz' else 1.) for n in names]
    for i, n in enumerate(names):
        if n == 'time':
            scale[i] = 50.
    toy = ty.Toy(rng, n_params, names=names, quartic=0., n_models=int(
        rng.choice([1, 1, 2])), scale=scale, dtype='float64')
    # directions away from the poles and from the end of the azimuth
    target = toy.draw(rng, 1)
    z, a = names.index('zenith'), names.index('azimuth')
    target[0, z], target[0, a] = rng.uniform(0.9, 2.2), rng.uniform(2.2, 4.)
    batch, analytic, arrays = toy.batch(rng, target=target)
    theta = arrays['x_target'].astype(toy.dtype)
    if rng.rand() < 0.4:
        # not exactly at the minimum
        theta = toy.near(rng, theta, 0.3)
    trafo = bool(rng.rand() < 0.6)
    results = {'reco': {'result': theta, 'result_trafo': toy.to_trafo(
        theta).astype(toy.dtype) if trafo else theta}}
    kwargs = {}
    with_cov = bool(rng.rand() < 0.5)
    if with_cov:
        stds = np.exp(rng.uniform(-1, 1, n_params)) * np.array(scale)
        results['cov'] = {'cov_sand': np.diag(stds**2)}
        kwargs['covariance_key'] = 'cov'
    n = int(rng.randint(4, 14))
    seed = int(rng.randint(2**31))
    options = dict(method='L-BFGS-B', options={'ftol': 1e-12,
                                               'gtol': 1e-9,
                                               'maxiter': 2000})
    spy, cache = Spy(toy.manager), FunctionCache()

    def run():
        module = m.call(
            'building the module raised', CircularizedAngularUncertainty,
            toy.manager, toy.loss, cache, [True] * n_params, 'reco',
            minimize_in_trafo_space=trafo, num_fit_points=n,
            random_seed=seed, scipy_optimizer_settings=options, **kwargs)
        del spy.calls[:]
        with quiet():
            return m.call('angular uncertainty raised', module.execute,
                          batch, dict(results))
    out = run()
    m.saw('circular', (trafo, with_cov, n_params))
    label = 'circular {}'.format('covariance' if with_cov else 'search')
    psi = np.asarray(out['delta_psi'], float)
    loss = np.asarray(out['delta_loss'], float)
    ok = psi.shape == loss.shape == (n,) and np.isfinite(loss).all() and (
        np.diff(psi) > 0).all() and psi[0] >= 0 and psi[-1] <= 90.
    if not m.check(ok, 'opening angles', label, psi=psi, loss=loss):
        return
    calls = spy.calls[-n:]
    if not m.check(len(spy.calls) >= n and (with_cov or len(spy.calls) > n),
                   'number of minimisations', label, got=len(spy.calls)):
        return
    best = analytic.loss(theta)
    fixed = [name in ('zenith', 'azimuth') for name in names]
    for i, (_, seed_tensor, fit, got) in enumerate(calls):
        m.event('opening angles')
        m.check([not f for f in fit] == fixed, 'parameters fitted along '
                'with a direction', label)
        angle = opening_angle(theta[0, [z, a]], seed_tensor[0, [z, a]])
        m.check(abs(angle - psi[i]) < 1e-3 + 1e-4 * psi[i], 'direction does '
                'not have the opening angle', label, got=angle, want=psi[i])
        want = profile(toy, analytic, seed_tensor, fixed) - best
        scatter = 1e-4 * abs(want) + 2e-3 if toy.dtype == 'float64' else None
        m.check(abs(loss[i] - want) < scatter, 'difference of the loss to '
                'the best fit', label, got=loss[i], want=want)
    # circles are sampled, not a line
    decide_estimate(m, label, psi, loss, n_params - 2,
                    out['circular_unc_deg'])
    m.check(abs(np.deg2rad(out['circular_unc_deg']) - out['circular_unc'])
            < 1e-9, 'unit of the uncertainty', label)
    if with_cov:
        sz, sa = stds[z], stds[a] * np.sin(theta[0, z])
        want = min(89.9, 2 * np.rad2deg(np.sqrt((sz**2 + sa**2) / 2.)))
        m.check(abs(psi[-1] - want) < 1e-3 * want, 'range of the opening '
                'angles', label, got=psi[-1], want=want)
    again = run()
    m.check(np.array_equal(again['delta_psi'], psi) and np.allclose(
        again['delta_loss'], loss, atol=1e-3, rtol=1e-4),
        'same seed gives other results', label)


def case_range(m, rng):
    """Isotropic uncertainties are found for any size"""
    n_params = 7
    i_zen, i_azi = ty.NAMES.index('zenith'), ty.NAMES.index('azimuth')
    deg = float(np.exp(rng.uniform(np.log(0.5), np.log(12.))))
    ddof = n_params - 2
    zenith = rng.uniform(1.2, 1.9)
    scale = [1.] * n_params
    scale[i_zen], scale[i_azi] = np.deg2rad(deg), np.deg2rad(deg) / np.sin(
        zenith)
    scale[5], scale[6] = 0.5, 50.
    toy = ty.Toy(rng, n_params, quartic=0., linear=False, condition=0.,
                 n_terms=n_params, scale=scale, dtype='float64')
    target = toy.draw(rng, 1)
    target[0, [i_zen, i_azi]] = zenith, rng.uniform(2.2, 4.)
    batch, analytic, arrays = toy.batch(rng, target=target)
    theta = arrays['x_target'].astype(toy.dtype)
    results = {'reco': {'result': theta, 'result_trafo':
                        toy.to_trafo(theta).astype(toy.dtype)}}
    module = m.call(
        'building the module raised', CircularizedAngularUncertainty,
        toy.manager, toy.loss, FunctionCache(), [True] * n_params, 'reco',
        num_fit_points=12, random_seed=int(rng.randint(2**31)))
    with quiet():
        out = m.call('angular uncertainty raised', module.execute, batch,
                     results)
    # loss = psi^2 / (2 deg^2): the best Rayleigh distribution follows
    psi = np.asarray(out['delta_psi'])
    cdf = stats.chi2(ddof).cdf((psi / deg)**2)
    fit = optimize.minimize_scalar(
        lambda s: np.sum((cdf - estimate_at(psi, np.exp(s)))**2),
        bounds=(np.log(deg / 5), np.log(deg * 20)), method='bounded')
    want = np.exp(fit.x)
    m.saw('range', int(np.log(deg) * 3))
    # (small angles: the metric is flat)
    m.check(abs(out['circular_unc_deg'] / want - 1.) < 0.1, 'uncertainty of '
            'an isotropic likelihood', got=out['circular_unc_deg'],
            want=want)
    m.check(psi[-1] > deg / 2., 'opening angles do not cover the '
            'uncertainty', got=psi[-1], want=deg)


# --------------------------------------------------------------------------
# goodness of fit
# --------------------------------------------------------------------------
class PulseToy(ty.ToySource):
    """Toy model with predictions of charges and times"""

    def get_tensors(self, data_batch_dict, is_training,
                    parameter_tensor_name='x_parameters'):
        out = super(PulseToy, self).get_tensors(
            data_batch_dict, is_training, parameter_tensor_name)
        n = tf.shape(out['theta'])[0]
        dtype = out['theta'].dtype
        index = tf.reshape(tf.range(86 * 60), [1, 86, 60, 1])
        charge = tf.where(index % 97 == 3, 3.5, 0.02)
        charge = tf.cast(charge, dtype) + tf.zeros([n, 1, 1, 1], dtype)
        ones = tf.ones([n, 86, 60, 2], dtype)
        out.update({
            'dom_charges': charge, 'dom_charges_variance': 1.7 * charge,
            'latent_var_mu': 0.4 * ones, 'latent_var_sigma': 0.1 * ones,
            'latent_var_r': 1.5 * ones, 'latent_var_scale': 0.5 * ones})
        return out


class PulseLoss(ty.ToyLoss):
    """Toy loss with terms of the pulses and charges of every DOM"""

    def get_loss(self, data_batch_dict, result_tensors, tensors, model,
                 parameter_tensor_name='x_parameters', reduce_to_scalar=True,
                 normalize_by_total_charge=False, sort_loss_terms=False,
                 **kwargs):
        c = self.configuration.config['config']
        event = c['constant'] + tf.reduce_sum(self.terms(
            result_tensors['theta'], data_batch_dict[c['target']]), axis=1)
        pulses = data_batch_dict['x_pulses']
        dtype = event.dtype
        n = tf.shape(event)[0]
        term = pulses[:, 0] * tf.math.cos(pulses[:, 1] / 300.)
        dom = tf.scatter_nd(tf.cast(data_batch_dict['x_pulses_ids'],
                                    tf.int32), tf.cast(term, dtype),
                            tf.stack([n, 86, 60]))
        q = tf.cast(data_batch_dict['x_dom_charge'][..., 0], dtype)
        dom = dom + 0.3 * (q - 0.4)**2
        scalar = tf.convert_to_tensor(0.25, dtype)
        if sort_loss_terms:
            return [scalar, event, dom]
        if reduce_to_scalar:
            return scalar + tf.reduce_sum(event) + tf.reduce_sum(dom)
        return [scalar, event, dom]


def dom_terms(names, batch):
    """The same terms of the DOMs in double precision"""
    d = dict(zip(names, batch))
    pulses = np.asarray(d['x_pulses'], float)
    ids = np.asarray(d['x_pulses_ids'], int)
    out = np.zeros((86, 60))
    np.add.at(out, (ids[:, 1], ids[:, 2]),
              pulses[:, 0] * np.cos(pulses[:, 1] / 300.))
    q = np.asarray(d['x_dom_charge'], float)[0, ..., 0]
    return out + 0.3 * (q - 0.4)**2


def p_values(sample, data, scale):
    """Interval of both p-values (losses may be equal within errors)"""
    out = []
    n = len(sample)
    for shift in (-scale, scale):
        k = np.sum(sample < data + shift, axis=0)
        out.append(k)
    one = [1. - out[1] / n, 1. - out[0] / n]
    two = [2 * np.minimum(k, n - k) / n for k in out]
    return one, (np.minimum(*two), np.where(
        (out[0] <= n / 2.) & (out[1] >= n / 2.), 1., np.maximum(*two)))


class DataModule(object):
    class configuration(object):
        config = {'add_charge_quantiles': False}


class PulseToyProject(ty.Toy):
    def __init__(self, *args, **kwargs):
        source, ty.ToySource = ty.ToySource, PulseToy
        try:
            super(PulseToyProject, self).__init__(*args, **kwargs)
        finally:
            ty.ToySource = source


def case_goodness(m, rng):
    n_params = int(rng.randint(2, 8))
    names = [n for n in rng.permutation(ty.NAMES) if n != 'time'][
        :n_params - 1] + ['time']
    names = [str(n) for n in rng.permutation(names)]
    # a likelihood with linear terms has another constrained minimum
    toy = PulseToyProject(rng, n_params, names=names, quartic=0.,
                          linear=False, loss_cls=PulseLoss,
                          dtype=['float32', 'float64'][rng.randint(2)])
    handler = toy.handler
    handler.data_module = DataModule
    batch, analytic, arrays = toy.batch(rng)
    theta = toy.near(rng, arrays['x_target'], 0.5)
    trafo = bool(rng.rand() < 0.7)
    with_cov = bool(rng.rand() < 0.5)
    fit = [True] * n_params
    if not with_cov and n_params > 1 and rng.rand() < 0.6:
        fit = toy.random_fit(rng)
    sel = np.array(fit)
    reconstruct = bool(rng.rand() < 0.6)
    per_dom, normalize = bool(rng.rand() < 0.6), bool(rng.rand() < 0.5)
    n = int(rng.randint(20, 40))
    full = toy.to_trafo(theta) if trafo else np.array(theta, float)
    results = {'reco': {'result': theta,
                        'result_trafo': full[:, sel].astype(toy.dtype)}}
    kwargs = {}
    if with_cov:
        B = rng.normal(size=(n_params, n_params)) * 0.2
        cov = (B @ B.T + 0.05 * np.eye(n_params)) * np.outer(
            toy.loss_config['scale'], toy.loss_config['scale'])
        results['cov'] = {'cov_sand': cov}
        kwargs['covariance_key'] = 'cov'
    module = m.call(
        'building the module raised', GoodnessOfFit, toy.manager, toy.loss,
        FunctionCache(), fit_paramater_list=fit, reco_key='reco',
        minimize_in_trafo_space=trafo, num_samples=n,
        scipy_optimizer_settings={'method': 'L-BFGS-B'},
        reconstruct_samples=reconstruct, add_per_dom_calculation=per_dom,
        normalize_by_total_charge=normalize,
        random_seed=int(rng.randint(2**31)), **kwargs)
    spy, record = Spy(toy.manager), []
    function = module.loss_function

    def loss_function(**kw):
        record.append((kw['data_batch'], np.array(kw['parameters_trafo']),
                       np.array(kw['seed'])))
        return function(**kw)
    module.loss_function = loss_function
    with quiet():
        out = m.call('goodness of fit raised', module.execute, batch,
                     results)
    label = 'goodness'
    m.saw('goodness', (trafo, with_cov, all(fit), reconstruct, per_dom,
                       normalize))
    hyp = np.asarray(out['sampled_hypotheses'], float)
    if not m.check(hyp.shape == (n, n_params) and len(record) == n + 1,
                   'number of samples', label, got=hyp.shape):
        return
    m.event('simulated events', n)
    # hypotheses
    if with_cov:
        d = analytic.u(hyp) - analytic.u(np.tile(theta, (n, 1)))
        white = np.linalg.solve(np.linalg.cholesky(cov), d.T).T
        m.event('sampled hypotheses', n)
        z = np.abs(white.mean(axis=0)) * np.sqrt(n)
        m.check(z.max() < 6., 'mean of the sampled hypotheses', label,
                sigma=z.max())
        chi2 = (white**2).sum()
        dof = n * n_params
        p = 2 * min(stats.chi2(dof).cdf(chi2), stats.chi2(dof).sf(chi2))
        m.check(p > 1e-9, 'spread of the sampled hypotheses', label,
                p_value=p)
        # single parameters (order)
        for i in range(n_params):
            c = stats.chi2(n).cdf((d[:, i]**2).sum() / cov[i, i])
            m.check(1e-10 < c < 1 - 1e-10, 'spread of a parameter of the '
                    'sampled hypotheses', label, probability=c)
    else:
        m.check(np.allclose(hyp, theta, rtol=1e-6), 'hypotheses are not the '
                'result', label)
    tensors = [t.name for t in handler.tensors.list]

    def parameters(x, fixed_from):
        """Full hypothesis of fitted parameters"""
        base = np.array(fixed_from, float)
        if trafo:
            base = toy.to_trafo(base)
        base[:, sel] = x
        return toy.from_trafo(base) if trafo else base
    losses, doms, charges = [], [], []
    for i, (data, x, seed) in enumerate(record):
        if not m.check(x.shape == (1, sel.sum()), 'shape of the evaluated '
                       'parameters', label, got=x.shape, want=sel.sum()):
            return
        point = parameters(x, hyp[i:i + 1] if i < n else theta)
        dom = dom_terms(tensors, data)
        q = np.asarray(dict(zip(tensors, data))['x_dom_charge'], float).sum()
        pulses = np.asarray(dict(zip(tensors, data))['x_pulses'])
        m.check(abs(pulses[:, 0].sum() - q) < 1e-3 * (1 + q) or i == n,
                'charge of a simulated event', label)
        scale = 1. / (q + 1.) if normalize else 1.
        losses.append((analytic.loss(point) + 0.25 + dom.sum()) * scale)
        doms.append(dom * scale)
        charges.append(q)
        if i == n:
            m.check(all(a is b for a, b in zip(data, batch)) and np.allclose(
                x, results['reco']['result_trafo']), 'the fit of the data '
                'was not evaluated', label)
        elif reconstruct:
            m.event('reconstructed samples')
            call = spy.calls[i]
            m.check(np.allclose(call[1], hyp[i], rtol=1e-5) and
                    call[0] is data and call[2] == fit, 'minimisation of a '
                    'simulated event', label)
            # constrained minimum
            want = profile(toy, analytic, hyp[i:i + 1], ~sel)
            got = analytic.loss(point)
            start = analytic.loss(hyp[i:i + 1])
            # (single precision of the summed terms of all DOMs)
            # (nor are minimisers exact in badly scaled original units)
            m.check(got - want < (1e-3 if toy.dtype == 'float64' and trafo
                                  else 0.1 + start - want),
                    'simulated event is not reconstructed', label, got=got,
                    want=want, start=start)
        else:
            m.check(np.allclose(x, (toy.to_trafo(hyp[i:i + 1]) if trafo else
                                    hyp[i:i + 1])[:, sel], rtol=1e-4,
                                atol=1e-4), 'loss is not evaluated at the '
                    'simulated hypothesis', label)
    losses, doms = np.array(losses), np.array(doms)
    # losses of float32: summed over all DOMs
    tol = 1e-5 * (np.abs(doms).sum(axis=(1, 2)).max() + np.abs(
        losses).max() + abs(toy.loss_config['constant'])) + 1e-5
    sample, data_loss = losses[:-1], losses[-1]
    for key, want in [('loss_sample_min', sample.min()),
                      ('loss_sample_max', sample.max()),
                      ('loss_sample_mean', sample.mean()),
                      ('loss_sample_median', np.median(sample)),
                      ('loss_sample_std', sample.std()),
                      ('loss_data_fit', data_loss)]:
        m.check(np.ndim(out[key]) == 0 and abs(float(out[key]) - want)
                < 3 * tol, 'statistics of the losses', label, key=key,
                got=float(out[key]), want=want, tolerance=tol)
    m.check(out['num_samples'] == n, 'number of samples', label)
    m.event('p-values of events')
    (lo1, hi1), (lo2, hi2) = p_values(sample, data_loss, 2 * tol)
    one, two = out['event_p_value_1sided'], out['event_p_value_2sided']
    m.check(lo1 - 1e-9 <= one <= hi1 + 1e-9, 'one-sided p-value of the '
            'event', label, got=one, want=(lo1, hi1))
    m.check(lo2 - 1e-9 <= two <= hi2 + 1e-9, 'two-sided p-value of the '
            'event', label, got=two, want=(float(lo2), float(hi2)))
    if per_dom:
        m.event('p-values of DOMs', 86 * 60)
        (lo1, hi1), (lo2, hi2) = p_values(doms[:-1], doms[-1], 1e-4)
        one, two = np.asarray(out['dom_p_value1']), np.asarray(
            out['dom_p_value2'])
        for got, lo, hi, key in [(one, lo1, hi1, 'one-sided'),
                                 (two, lo2, hi2, 'two-sided')]:
            ok = got.shape == (86, 60) and (got >= lo - 1e-6).all() and (
                got <= hi + 1e-6).all()
            m.check(ok, '{} p-values of the DOMs'.format(key), label)
    else:
        m.check('dom_p_value1' not in out, 'p-values of the DOMs', label)
    if reconstruct:
        recos = np.asarray(out['sample_recos'], float)
        want = np.concatenate([
            parameters(r[1], hyp[i:i + 1])
            for i, r in enumerate(record[:-1])])
        size = np.maximum(np.abs(want), np.array(toy.loss_config['scale']))
        m.check(recos.shape == want.shape and (np.abs(recos - want) <
                                               1e-3 * size).all(),
                'reconstructed samples', label)
        diff = hyp - recos
        m.check(np.allclose(out['sample_reco_bias'], diff.mean(axis=0),
                            rtol=1e-3, atol=1e-3 * size.max(axis=0)),
                'bias of the reconstructed samples', label)
        want = np.atleast_2d(np.cov(diff.T))
        s = size.max(axis=0)
        m.check(np.allclose(np.atleast_2d(out['sample_reco_cov']), want,
                            rtol=1e-3, atol=1e-3 * np.outer(s, s)),
                'covariance of the reconstructed samples', label)


def case_p_values(m, rng):
    """p-values of a test statistic"""
    for _ in range(60):
        n = int(rng.randint(1, 60))
        sample = rng.normal(size=n) * np.exp(rng.uniform(-3, 3))
        data = [rng.normal(), sample.max() + 1., sample.min() - 1.,
                np.median(sample) + 1e-9][rng.randint(4)]
        keep = sample.copy()
        one, two = m.call('p-value raised', plain(
            GoodnessOfFit).compute_p_value, sample, data)
        m.event('p-values')
        m.check(np.array_equal(sample, keep), 'samples were modified')
        k = np.sum(sample >= data)
        m.check(abs(one - k / n) < 1e-12, 'one-sided p-value', got=one,
                want=k / n)
        want = 2 * min(k, n - k) / n
        m.check(abs(two - want) < 1e-12, 'two-sided p-value', got=two,
                want=want)
    m.saw('p-values', 'normal')


def cases(tier):
    return [Case('goodness', case_goodness, 12, 150),
            Case('circular', case_circular, 10, 120),
            Case('range', case_range, 4, 60),
            Case('curves', case_curves, 6, 60),
            Case('p_values', case_p_values, 6, 40)]
