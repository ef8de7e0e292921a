"""R08: MCMC samples follow the likelihood in the original space."""
import os
import sys

import numpy as np

from vh.core import Case
from vh import toy as ty
import r01
import r07

RULE = ('chains are run by the real module behind real trays on Gaussian '
        'and skewed likelihoods of known form; every reported sample is '
        're-evaluated in double precision, the first samples are located '
        'relative to the given result, and the moments of converged chains '
        'are compared with the analytic posterior of the fitted parameters '
        '(given the fixed ones); distinct = (method, space, fit, dtype)')
ASSUMPTIONS = ['flat prior in the space of the chain',
               'step sizes of the module suit the likelihood (chains are '
               'only compared with the posterior where they converge)',
               'logarithmic parameters only at the documented position',
               'one event per batch']
WORKERS = {'quick': 5}
BUDGET = {'quick': 30, 'thorough': 500}
REQUIRE = {'samples': 20000, 'chains': 40, 'starts': 20, 'moments': 12,
           'refusals': 3}
METHODS = ['HamiltonianMonteCarlo', 'RandomWalkMetropolis',
           'NoUTurnSampler']


class Given(object):
    """Module that hands a chosen result to the chain."""
    value = None

    def __init__(self, manager, loss_module, function_cache):
        pass

    def execute(self, data_batch, results):
        v = np.array(Given.value)
        return {'result': v, 'result_trafo': None, 'seed_tensor_name': 'x'}


def run_chain(m, toy, data, start, fit, method, space, **settings):
    Given.value = np.asarray(start, toy.dtype)
    with r07.probes({'GivenResult': Given}):
        tray = r01.make_tray(toy)
        tray.add_module('GivenResult', name='given')
        m.call('chain refused', tray.add_module, 'MarkovChainMonteCarlo',
               name='mcmc', fit_paramater_list=list(fit),
               seed_tensor_name='x_seed', reco_key='given',
               minimize_in_trafo_space=space, mcmc_method=method,
               **settings)
    results = m.call('chain raised', tray.execute, data)
    m.event('chains', settings['mcmc_num_chains'])
    return results['mcmc']


def assemble(toy, samples, fixed, fit):
    theta = np.repeat(np.asarray(fixed, float), len(samples), axis=0)
    theta[:, np.flatnonzero(fit)] = samples
    return theta


def check_samples(m, toy, an, label, out, arrays, fit, settings):
    """Shapes and likelihood values of all samples; returns them."""
    samples = np.asarray(out['samples'], float)
    logp = np.asarray(out['log_prob_values'], float)
    n = settings['mcmc_num_chains'] * settings['mcmc_num_results']
    if not m.check(samples.shape == (n, sum(fit)) and logp.shape == (n,),
                   'number of samples', label, got=(samples.shape,
                                                    logp.shape), want=n):
        return None
    m.event('samples', n)
    theta = assemble(toy, samples, arrays['x_seed'], fit)
    tiled = toy.analytic(np.repeat(arrays['x_target'], n, axis=0))
    want = -tiled.events(theta)
    # rounding of the returned samples and of the likelihood
    eps = np.finfo(toy.dtype).eps
    slope = np.abs(tiled.grad_u(theta) * tiled.du(theta) * theta).sum(axis=1)
    mean = np.abs(np.asarray(toy.trafo.data['x_parameters_mean'], float)) + \
        toy.width()
    slope += np.abs(tiled.grad_u(theta) * mean).sum(axis=1)
    tol = 30 * eps * (slope + np.abs(want) + np.abs(
        toy.loss_config['constant'] + 1)) + 300 * (
            eps * mean / np.array(toy.loss_config['scale'])).max()**2 + 1e-9
    bad = np.abs(logp - want) > tol
    m.check(not bad.any(), 'log probability of a sample is not its '
            'likelihood', label, worst=np.abs(logp - want).max(),
            tol=tol[np.argmax(np.abs(logp - want))], count=bad.sum())
    return samples, theta


def near_result(rng, toy, an, fit, size=2.):
    """Full hypothesis a few (conditional) deviations from the target."""
    start = np.array(an.target, float)
    step = rng.normal(size=toy.P) * size * np.array(toy.loss_config['scale'])
    for i in np.flatnonzero(fit):
        if toy.log[i]:
            start[0, i] = np.expm1(np.log1p(start[0, i]) + step[i])
        else:
            start[0, i] += step[i]
    return start


def case_any(m, rng, n_runs=3):
    """Any likelihood: samples, values and start."""
    dtype = ['float32', 'float64'][rng.randint(2)]
    P = int(rng.randint(1, 8))
    toy = ty.Toy(rng, n_params=P, dtype=dtype, n_models=int(rng.choice(
        [1, 2])), norm_constant=[1e-6, 0.01][rng.randint(2)])
    for i in range(n_runs):
        fit = toy.random_fit(rng)
        method = METHODS[rng.randint(2)]
        space = bool(rng.rand() < 0.6)
        settings = dict(mcmc_num_chains=int(rng.randint(1, 6)),
                        mcmc_num_results=int(rng.randint(3, 25)),
                        mcmc_num_burnin_steps=int(rng.randint(0, 10)),
                        mcmc_num_steps_between_results=int(rng.choice(
                            [0, 0, 1, 3])))
        tensors, an, arrays = toy.batch(rng)
        # fixed parameters take the values of the seed
        arrays['x_seed'] = np.where(fit, arrays['x_seed'],
                                    arrays['x_target']).astype(dtype)
        data = r01.as_input(rng, toy, arrays)
        before = r01.input_snapshot(data)
        start = near_result(rng, toy, an, fit)
        label = '{} in {} space, {} of {} parameters, {}'.format(
            method, 'transformed' if space else 'original', sum(fit), P,
            dtype)
        out = run_chain(m, toy, data, start, fit, method, space, **settings)
        r01.unchanged(m, data, before, label)
        m.saw('configuration', (method, space, tuple(fit), dtype))
        m.saw('settings', tuple(sorted(settings.items())))
        check_samples(m, toy, an, label, out, arrays, fit, settings)


def case_start(m, rng, n_runs=4):
    """The first samples surround the given result."""
    dtype = ['float32', 'float64'][rng.randint(2)]
    P = int(rng.randint(2, 8))
    toy = ty.Toy(rng, n_params=P, dtype=dtype,
                 norm_constant=[1e-6, 0.01][rng.randint(2)])
    for i in range(n_runs):
        fit = toy.random_fit(rng)
        space = bool(rng.rand() < 0.6)
        method = METHODS[(i + rng.randint(2)) % 2]
        settings = dict(mcmc_num_chains=3, mcmc_num_results=1,
                        mcmc_num_burnin_steps=0)
        tensors, an, arrays = toy.batch(rng)
        arrays['x_seed'] = np.where(fit, arrays['x_seed'],
                                    arrays['x_target']).astype(dtype)
        start = near_result(rng, toy, an, fit, 1.)
        label = '{} in {} space, {} of {} parameters, {}'.format(
            method, 'transformed' if space else 'original', sum(fit), P,
            dtype)
        out = run_chain(m, toy, r01.as_input(rng, toy, arrays), start, fit,
                        method, space, **settings)
        got = check_samples(m, toy, an, label, out, arrays, fit, settings)
        if got is None:
            continue
        m.event('starts', len(got[0]))
        m.saw('start', (method, space, tuple(fit), dtype))
        # largest single step of any supported setting, times three
        # leapfrog steps and six deviations, plus the pull of the likelihood
        u = an.u(got[1])
        u0 = an.u(np.where(fit, start, arrays['x_seed']))
        idx = np.flatnonzero(fit)
        for p in idx:
            step = {'x': 0.5, 'y': 0.5, 'z': 0.5, 'time': 1.}.get(
                toy.names[p], 0.1)
            if toy.log[p]:
                step = 0.01 if space else 10. / (1 + start[0, p])
            grad = np.abs(an.grad_u(u0 * 0 + np.where(
                fit, start, arrays['x_seed']))[0, p])
            reach = 3.5 * step * 7 + 3 * step**2 * grad * (
                1. if not toy.log[p] or space else 1.) * 3
            noise = 100 * np.finfo(dtype).eps * (np.abs(u0[0, p]) + np.abs(
                toy.trafo.data['x_parameters_mean'][p]) + toy.width()[p])
            worst = np.abs(u[:, p] - u0[0, p]).max()
            m.check(worst <= 3 * reach + noise, 'chain does not start at '
                    'the given result', label + ' ' + toy.names[p],
                    got=worst, reach=3 * reach)


def case_moments(m, rng):
    """Converged chains against the analytic posterior."""
    method = METHODS[int(rng.rand() < 0.6)]
    space = bool(rng.rand() < 0.6)
    with_log = space and rng.rand() < 0.5
    P = 6 if with_log else int(rng.randint(2, 6))
    dtype = 'float64' if with_log or rng.rand() < 0.5 else 'float32'
    # the steps of the chains are 0.1 (0.01 for logarithmic parameters)
    width = {'HamiltonianMonteCarlo': 0.2,
             'RandomWalkMetropolis': 0.08}[method]
    names = ty.NAMES[:P] if with_log else list(rng.permutation(
        ['zenith', 'azimuth', 'aux_a', 'aux_b', 'aux_c', 'aux_d'])[:P])
    log = [n == 'energy' for n in names]
    scale = [width * (0.1 if lg else 1.) * rng.uniform(0.8, 1.3)
             for lg in log]
    toy = ty.Toy(rng, n_params=P, names=names, log=log, dtype=dtype,
                 quartic=0., linear=False, n_terms=P, scale=scale,
                 condition=0.2)
    fit = toy.random_fit(rng)
    if method == 'RandomWalkMetropolis' and sum(fit) > 3:
        keep = np.flatnonzero(fit)[-3:]
        fit = [i in keep for i in range(P)]
    tensors, an, arrays = toy.batch(rng)
    seed = near_result(rng, toy, an, [True] * P, 0.7)
    arrays['x_seed'] = np.where(fit, arrays['x_seed'], seed).astype(dtype)
    start = np.where(fit, an.target, arrays['x_seed'])
    settings = dict(mcmc_num_chains=10, mcmc_num_results=2000,
                    mcmc_num_burnin_steps=200)
    label = '{} in {} space, {} of {} parameters, {}{}'.format(
        method, 'transformed' if space else 'original', sum(fit), P, dtype,
        ', logarithmic' if with_log else '')
    out = run_chain(m, toy, r01.as_input(rng, toy, arrays), start, fit,
                    method, space, **settings)
    got = check_samples(m, toy, an, label, out, arrays, fit, settings)
    if got is None:
        return
    idx = np.flatnonzero(fit)
    u = an.u(got[1])[:, idx]
    # conditional Gaussian of the fitted parameters
    H = an.hess_u(an.target)[0]
    cov = np.linalg.inv(H[np.ix_(idx, idx)])
    fixed = np.flatnonzero(~np.array(fit))
    delta = (an.u(arrays['x_seed']) - an.u(an.target))[0]
    mean = an.u(an.target)[0, idx] - cov @ H[np.ix_(idx, fixed)] @ \
        delta[fixed]
    m.saw('posterior', (method, space, tuple(fit), dtype, with_log))
    L = np.linalg.cholesky(cov)
    z = np.linalg.solve(L, (u - mean).T).T
    c = np.atleast_2d(np.cov(z.T))
    off = np.abs(c - np.eye(len(idx)))
    # statistical uncertainty from the scatter of the chains (a chain whose
    # trajectories resonate with the likelihood converges slowly)
    n = settings['mcmc_num_chains']
    error = 0.
    for chains in (z.reshape(-1, n, len(idx)).swapaxes(0, 1),
                   z.reshape(n, -1, len(idx))):
        for v in (chains.mean(axis=1), (chains**2).mean(axis=1)):
            error = max(error, (v.std(axis=0, ddof=1) / np.sqrt(n)).max())
    if os.environ.get('VERIF_VERBOSE'):
        print('   param', label, np.abs(z.mean(axis=0)).max(), off.max(),
              c.diagonal(), error, file=sys.stderr)
    if error > 0.06:
        m.event('not converged')
        return
    m.event('moments', 2 * len(idx))
    tol = max(0.16, 6 * error)
    m.check(np.abs(z.mean(axis=0)).max() < tol, 'mean of the chain '
            'is not that of the posterior', label, got=z.mean(axis=0),
            error=error)
    m.check(off.max() < tol, 'spread of the chain is not that of '
            'the posterior', label, got=c.diagonal(), worst=off.max(),
            error=error)


def case_nuts(m, rng):
    """Few steps of the sampler without turns."""
    space = bool(rng.rand() < 0.6)
    P = int(rng.randint(1, 5))
    dtype = ['float32', 'float64'][rng.randint(2)]
    names = ['zenith', 'azimuth', 'aux_a', 'aux_b'][:P]
    toy = ty.Toy(rng, n_params=P, names=names, dtype=dtype,
                 scale=rng.uniform(0.2, 0.3, P))
    fit = toy.random_fit(rng)
    settings = dict(mcmc_num_chains=2, mcmc_num_results=10,
                    mcmc_num_burnin_steps=2)
    tensors, an, arrays = toy.batch(rng)
    arrays['x_seed'] = np.where(fit, arrays['x_seed'],
                                arrays['x_target']).astype(dtype)
    start = near_result(rng, toy, an, fit, 1.)
    label = 'no turns in {} space, {} of {} parameters, {}'.format(
        'transformed' if space else 'original', sum(fit), P, dtype)
    out = run_chain(m, toy, r01.as_input(rng, toy, arrays), start, fit,
                    'NoUTurnSampler', space, **settings)
    m.saw('configuration', ('nuts', space, tuple(fit), dtype))
    got = check_samples(m, toy, an, label, out, arrays, fit, settings)
    if got is not None:
        z = (an.u(got[1]) - an.u(an.target)) / np.array(
            toy.loss_config['scale'])
        m.check(np.abs(z).max() < 12, 'samples far outside of the '
                'posterior', label, worst=np.abs(z).max())


def case_refused(m, rng):
    toy = ty.Toy(rng, n_params=7, dtype='float64')
    tensors, an, arrays = toy.batch(rng)
    settings = dict(mcmc_num_chains=2, mcmc_num_results=2,
                    mcmc_num_burnin_steps=1)
    m.event('refusals', 3)

    def run(method='RandomWalkMetropolis', log=None, start=None):
        Given.value = an.target if start is None else start
        other = toy if log is None else ty.Toy(
            rng, n_params=7, dtype='float64', log=log)
        with r07.probes({'GivenResult': Given}):
            tray = r01.make_tray(other)
            tray.add_module('GivenResult', name='given')
            tray.add_module('MarkovChainMonteCarlo', name='mcmc',
                            fit_paramater_list=[True] * 7,
                            seed_tensor_name='x_seed', reco_key='given',
                            mcmc_method=method, **settings)
        tray.execute(tensors)
    m.raises(lambda: run('Metropolis'), 'unknown method accepted')
    m.raises(lambda: run(log=[i == 2 for i in range(7)]), 'logarithmic '
             'parameter without a known step size accepted')
    m.raises(lambda: run(start=np.repeat(an.target, 2, axis=0)),
             'chain for several events accepted')


def cases(tier):
    return [
        Case('moments', case_moments, 6, 80),
        Case('nuts', case_nuts, 1, 10),
        Case('any', case_any, 3, 60),
        Case('start', case_start, 2, 40),
        Case('refused', case_refused, 1, 2),
    ]
