"""R01: a fit only moves the fitted parameters and never gets worse."""
import numpy as np

from vh.core import Case
from vh import models as md
from vh import toy as ty

RULE = ('likelihoods of known form are reconstructed with the real manager, '
        'transformer, modules and tray for random parameter subsets, '
        'spaces, minimisers, precisions, seeds (tensor names, previous '
        'results, randomised) and bounds; results, losses and histories of '
        'the fits are decided against the analytic likelihood and its '
        '(conditional, bounded) minimum; the same conservation rules are '
        'monitored on fits of real cascade models; distinct = (minimiser, '
        'space, subset, seed, precision)')
ASSUMPTIONS = ['bounds are given in original units, one pair per parameter '
               '(all parameters of the model)',
               'nearness to the minimum is only demanded for convex '
               'likelihoods in transformed space, with minimisers left at '
               'their default stopping criteria',
               'bounds of minimisers contain the seed']
WORKERS = {'quick': 5}
BUDGET = {'quick': 40, 'thorough': 600}
REQUIRE = {'fits': 40, 'partial fits': 16, 'bounded fits': 8,
           'unfitted values': 60, 'losses': 80, 'minima': 20,
           'refits': 4, 'real fits': 2}

METHODS = ['L-BFGS-B', 'BFGS', 'CG', 'Newton-CG', 'TNC', 'SLSQP',
           'Nelder-Mead', 'Powell', 'trust-constr']
BOUNDED = ['L-BFGS-B', 'TNC', 'SLSQP', 'Nelder-Mead', 'Powell']


def reference(toy, an, seed, fit, bounds=None):
    """Smallest loss of the fitted parameters with the others at the seed."""
    from scipy import optimize
    u0, idx = an.u(seed), np.flatnonzero(fit)
    s = np.array(an.c['scale'])
    ub = None
    if bounds is not None:
        ub = []
        for i in idx:
            pair = []
            for v, inf in zip(bounds[i], (-np.inf, np.inf)):
                v = inf if v is None else float(v)
                if an.c['log'][i] and np.isfinite(v):
                    v = np.log1p(v) if v > -1 else -np.inf
                pair.append(v / s[i])
            ub.append(pair)

    def back(x):
        u = np.array(u0)
        u[:, idx] = x.reshape(-1, len(idx)) * s[idx]
        theta = np.array(u)
        for i, log in enumerate(an.c['log']):
            if log:
                theta[:, i] = np.expm1(theta[:, i])
        return theta

    def func(x):
        theta = back(x)
        return an.loss(theta), (an.grad_u(theta)[:, idx]
                                * s[idx]).reshape(-1)
    x0 = (u0[:, idx] / s[idx]).reshape(-1)
    r = optimize.minimize(func, x0, jac=True, method='L-BFGS-B', bounds=ub,
                          options={'ftol': 1e-15, 'gtol': 1e-10,
                                   'maxiter': 5000})
    return r.fun


def decide(m, toy, an, label, res, seed, fit, space, bounds=None,
           minimum=True, spread=1.):
    """Rules every reconstruction result has to satisfy."""
    f32 = toy.dtype == 'float32'
    seed = np.asarray(seed)
    result = np.asarray(res['result'])
    m.event('fits')
    if not m.check(result.shape == seed.shape, 'shape of the result', label,
                   got=result.shape, want=seed.shape):
        return
    m.check(np.isfinite(result).all(), 'result of a fit not finite', label,
            result=result)
    fitted = np.array(fit)
    if not fitted.all():
        m.event('partial fits')
        m.event('unfitted values', int((~fitted).sum() * len(seed)))
        eps = 3e-5 if f32 else 1e-12
        scale = np.abs(seed[:, ~fitted]) + np.array(
            toy.width())[~fitted] * 1e-1
        d = np.abs(result[:, ~fitted].astype(float)
                   - seed[:, ~fitted]) / scale
        m.check(d.max() < eps, 'parameter that is not fitted was moved',
                label, seed=seed, result=result, fit=fit)
    # losses belong to the seed and the result
    scale = abs(an.loss(seed)) + abs(an.loss(result)) + 1.
    tol = (2e-4 if f32 else 1e-9) * scale
    m.event('losses', 2)
    loss_seed, loss_reco = float(res['loss_seed']), float(res['loss_reco'])
    m.check(abs(loss_seed - an.loss(seed)) < tol,
            'reported loss of the seed', label, got=loss_seed,
            want=an.loss(seed))
    m.check(abs(loss_reco - an.loss(result)) < tol,
            'reported loss of the result', label, got=loss_reco,
            want=an.loss(result))
    m.check(an.loss(result) <= an.loss(seed) + tol,
            'fit is worse than its seed', label, seed=an.loss(seed),
            reco=an.loss(result))
    # the point the minimiser reports is the result
    trafo = np.asarray(res['result_trafo'], float)
    if m.check(trafo.shape == (len(seed), int(fitted.sum())),
               'shape of the minimiser result', label, got=trafo.shape):
        own = (toy.to_trafo(result) if space else
               result.astype(float))[:, fitted]
        size = 1. if space else np.abs(own) + 1
        m.check((np.abs(own - trafo) / size).max() <
                (2e-3 if f32 else 1e-8), 'result of the fit does not '
                'belong to the point of the minimiser', label, result=own,
                minimiser=trafo)
    if bounds is not None:
        m.event('bounded fits')
        for i in np.flatnonzero(fitted):
            for v, sign in zip(bounds[i], (1, -1)):
                if v is None or not np.isfinite(v):
                    continue
                excess = sign * (result[:, i].astype(float) - v)
                m.check(excess.min() > -(1e-3 if f32 else 1e-6)
                        * (abs(v) + toy.width()[i] * (
                            1 + (abs(v) if toy.log[i] else 0))),
                        'fitted parameter outside of its bounds', label,
                        index=i, bounds=bounds, result=result)
    if minimum:
        m.event('minima')
        ref = reference(toy, an, seed, fit, bounds)
        gain = an.loss(seed) - ref
        m.check(an.loss(result) - ref < 0.02 * gain + 50 * tol
                + 0.02 * spread, 'fit did not reach the minimum', label,
                reached=an.loss(result), smallest=ref, seed=an.loss(seed))


def input_snapshot(tensors):
    return [np.array(t) for t in tensors]


def unchanged(m, tensors, before, label):
    m.check(all(np.array_equal(a, np.asarray(b), equal_nan=a.dtype.kind
                               == 'f') for a, b in zip(before, tensors)),
            'reconstruction changed its input', label)


def make_bounds(rng, toy, target, seed):
    """Bounds per parameter around the seed, some exclude the target."""
    out = []
    for i in range(toy.P):
        s = toy.loss_config['scale'][i]
        lo = min(seed[0, i], target[0, i])
        hi = max(seed[0, i], target[0, i])
        if toy.log[i]:
            lo, hi = np.log1p(lo), np.log1p(hi)
        a, b = lo - rng.uniform(0.5, 2) * s, hi + rng.uniform(0.5, 2) * s
        if rng.rand() < 0.4:
            # the seed is inside, the target outside
            x0 = np.log1p(seed[0, i]) if toy.log[i] else seed[0, i]
            x1 = np.log1p(target[0, i]) if toy.log[i] else target[0, i]
            cut = x0 + (x1 - x0) * rng.uniform(0.3, 0.7)
            if x1 > x0:
                b = cut
            else:
                a = cut
        if toy.log[i]:
            a, b = np.expm1(max(a, 0.01)), np.expm1(b)
        pair = [float(a), float(b)]
        for j, inf in enumerate((-np.inf, np.inf)):
            if rng.rand() < 0.25:
                pair[j] = None
            elif rng.rand() < 0.1:
                pair[j] = -1. if toy.log[i] and j == 0 else inf
        out.append(pair)
    return out


def make_tray(toy):
    from egenerator.manager.reconstruction.tray import ReconstructionTray
    return ReconstructionTray(toy.manager, toy.loss)


def as_input(rng, toy, arrays, numpy=None):
    """The batch as TF tensors or (as from the generators) numpy arrays."""
    if numpy is None:
        numpy = rng.rand() < 0.5
    return md.batch_tuple(toy.handler, arrays, as_tensor=not numpy)


def case_scipy(m, rng, n_fits=6):
    dtype = ['float32', 'float64'][rng.randint(2)]
    P = int(rng.randint(3, 9))
    names = list(np.array(ty.NAMES)[np.sort(rng.permutation(9)[:P])])
    toy = ty.Toy(rng, n_params=P, names=names, dtype=dtype,
                 n_models=int(rng.choice([1, 1, 3])),
                 n_events=int(rng.choice([1, 1, 2])),
                 norm_constant=[1e-6, 0.01][rng.randint(2)],
                 seeds=('x_seed', 'x_seed_b'))
    tensors, an, arrays = toy.batch(rng)
    fits = [toy.random_fit(rng, False), [True] * P]
    for space in (True, False):
        tray, names_, settings = make_tray(toy), [], []
        for i in range(n_fits // 2):
            fit = fits[int(rng.rand() < 0.4)]
            method = METHODS[rng.randint(len(METHODS))]
            if i and rng.rand() < 0.35:
                seed = names_[rng.randint(len(names_))]
                previous = True
            else:
                seed, previous = ['x_seed', 'x_seed_b'][
                    rng.randint(2)], False
            opts = {'method': method}
            tray.add_module('Reconstruction', name='r%d' % i,
                            fit_paramater_list=fit, seed_tensor_name=seed,
                            seed_from_previous_module=previous,
                            minimize_in_trafo_space=space,
                            scipy_optimizer_settings=opts)
            names_.append('r%d' % i)
            settings.append((fit, method, seed, previous))
        data = as_input(rng, toy, arrays)
        before = input_snapshot(data)
        results = m.call('reconstruction raised', tray.execute, data)
        unchanged(m, data, before, 'scipy')
        for name, (fit, method, seed, previous) in zip(names_, settings):
            label = '{} in {} space, {}, {} of {} parameters, {}'.format(
                method, 'transformed' if space else 'original', dtype,
                sum(fit), P, 'previous' if previous else 'tensor')
            m.saw('minimiser', method)
            m.saw('configuration', (method, space, tuple(fit), dtype,
                                    previous))
            seed_values = np.asarray(results[seed]['result']) if previous \
                else arrays[seed]
            if previous:
                m.event('refits')
            decide(m, toy, an, label, results[name], seed_values, fit,
                   space, minimum=space and method not in ('TNC', 'Powell')
                   and (dtype == 'float64' or method != 'Newton-CG'),
                   spread=toy.n * (3 if method in (
                       'Nelder-Mead', 'trust-constr') else 1))
            m.check(results[name]['seed_tensor_name'] == seed and
                    results[name]['seed_from_previous_module'] == previous,
                    'reported seed of the fit', label)


def case_bounds(m, rng, n_fits=4):
    dtype = ['float32', 'float64'][rng.randint(2)]
    P = int(rng.randint(4, 9))
    toy = ty.Toy(rng, n_params=P, dtype=dtype)
    fits = [toy.random_fit(rng, False), [True] * P]
    for i in range(n_fits):
        tensors, an, arrays = toy.batch(rng)
        space, fit = bool(i % 2), fits[rng.randint(2)]
        bounds = make_bounds(rng, toy, arrays['x_target'],
                             arrays['x_seed'])
        given = [list(b) for b in bounds]
        method = BOUNDED[rng.randint(len(BOUNDED))]
        if method == 'Powell' or (not space and method == 'SLSQP'):
            method = 'L-BFGS-B'
        if rng.rand() < 0.3 and all(v is not None for b in bounds
                                    for v in b):
            given = np.array(given)
        tray = make_tray(toy)
        tray.add_module('Reconstruction', name='r', fit_paramater_list=fit,
                        seed_tensor_name='x_seed',
                        minimize_in_trafo_space=space,
                        scipy_optimizer_settings={'method': method,
                                                  'bounds': given})
        label = '{} with bounds, {} space, {}, {} of {} parameters'.format(
            method, 'transformed' if space else 'original', dtype,
            sum(fit), P)
        m.saw('configuration', (method, space, tuple(fit), dtype, 'bounds'))
        data = as_input(rng, toy, arrays)
        results = m.call('reconstruction with bounds raised',
                             tray.execute, data)
        decide(m, toy, an, label, results['r'], arrays['x_seed'], fit,
               space, bounds=bounds, minimum=space and method != 'TNC')
        # the settings can be used again for the next event
        again = m.call('second reconstruction with bounds raised',
                           tray.execute, data)
        m.check(np.allclose(again['r']['result'], results['r']['result'],
                            rtol=1e-3, atol=1e-3), 'second fit of the same '
                'event differs', label, first=results['r']['result'],
                second=again['r']['result'])


def case_direct(m, rng):
    """reconstruct_events with a Hessian and seeds by name or value."""
    dtype = 'float64'
    P = int(rng.randint(3, 8))
    toy = ty.Toy(rng, n_params=P, dtype=dtype)
    fit = toy.random_fit(rng)
    for space in (True, False):
        tensors, an, arrays = toy.batch(rng)
        kw = dict(loss_module=toy.loss, input_signature=toy.specs(fit),
                  fit_paramater_list=fit, minimize_in_trafo_space=space)
        func = toy.manager.get_loss_and_gradients_function(**kw)
        hess = toy.manager.get_hessian_function(**kw) if sum(fit) > 1 \
            else None
        method = ['Newton-CG', 'trust-ncg', 'dogleg', 'trust-exact'][
            rng.randint(4)] if hess is not None else 'L-BFGS-B'
        if method == 'dogleg' and not space:
            method = 'trust-exact'
        for seed in ('x_seed', arrays['x_seed']):
            out = m.call('reconstruct_events raised',
                             toy.manager.reconstruct_events,
                             as_input(rng, toy, arrays), toy.loss, func,
                             fit, minimize_in_trafo_space=space, seed=seed,
                             method=method, hessian_function=hess)
            x, obj = out
            full = toy.to_trafo(arrays['x_seed']) if space else \
                arrays['x_seed'].astype(float)
            full[:, np.flatnonzero(fit)] = x
            result = toy.from_trafo(full) if space else full
            m.saw('configuration', (method, space, tuple(fit), 'direct'))
            # without transformation only the conservation rules
            decide(m, toy, an, 'direct ' + method, dict(
                result=result, result_trafo=x, loss_seed=an.loss(
                    arrays['x_seed']), loss_reco=obj.fun), arrays['x_seed'],
                fit, space, minimum=space)
    m.raises(lambda: toy.manager.reconstruct_events(
        tensors, toy.loss, func, fit + [True]),
        'wrong number of fitted flags accepted')


def case_tfp(m, rng):
    dtype = ['float32', 'float64'][rng.randint(2)]
    P = int(rng.randint(3, 8))
    toy = ty.Toy(rng, n_params=P, dtype=dtype)
    method = ['bfgs_minimize', 'lbfgs_minimize'][rng.randint(2)]
    for fit in [toy.random_fit(rng)]:
        tensors, an, arrays = toy.batch(rng)
        tray = make_tray(toy)
        tray.add_module('Reconstruction', name='r', fit_paramater_list=fit,
                        seed_tensor_name='x_seed',
                        reco_optimizer_interface='tfp',
                        tf_optimizer_settings={'method': method,
                                               'x_tolerance': 1e-4})
        results = m.call('tfp reconstruction raised', tray.execute,
                             as_input(rng, toy, arrays))
        m.saw('minimiser', method)
        m.saw('configuration', (method, True, tuple(fit), dtype))
        decide(m, toy, an, '{} {}, {} of {} parameters'.format(
            method, dtype, sum(fit), P), results['r'],
            arrays['x_seed'], fit, True, spread=3)


def case_global(m, rng):
    """shgo and the spherical optimiser."""
    import random
    random.seed(int(rng.randint(2**31)))
    np.random.seed(int(rng.randint(2**31)))
    dtype = ['float32', 'float64'][rng.randint(2)]
    P = int(rng.choice([3, 5, 7, 8]))
    toy = ty.Toy(rng, n_params=P, dtype=dtype, names=[
        n for n in ty.NAMES if n in ('zenith', 'azimuth')] + [
        n for n in ty.NAMES if n not in ('zenith', 'azimuth')][:P - 2])
    some = toy.random_fit(rng, False)
    for interface, fit, space in (
            ('spherical_opt', [True] * P, bool(rng.rand() < 0.5)),
            ('spherical_opt', some, bool(rng.rand() < 0.5)),
            ('shog', [True, True] + [False] * (P - 2), True),
            ('shog', some if sum(some) <= 3 else
             [False, True] + [False] * (P - 2), True)):
        tensors, an, arrays = toy.batch(rng)
        tray = make_tray(toy)
        settings = {'method': 'BFGS'}
        tray.add_module('Reconstruction', name='r', fit_paramater_list=fit,
                        seed_tensor_name='x_seed',
                        minimize_in_trafo_space=space,
                        reco_optimizer_interface=interface,
                        scipy_optimizer_settings=settings)
        data = as_input(rng, toy, arrays)
        before = input_snapshot(data)
        results = m.call(interface + ' reconstruction raised',
                             tray.execute, data)
        m.saw('minimiser', interface)
        m.saw('configuration', (interface, space, tuple(fit), dtype))
        decide(m, toy, an, '{} {}, {} of {} parameters'.format(
            interface, dtype, sum(fit), P), results['r'],
            arrays['x_seed'], fit, space, minimum=False)
        unchanged(m, data, before, interface)


def case_random_seed(m, rng):
    """Randomised seeds (13 parameters)."""
    np.random.seed(int(rng.randint(2**31)))
    toy = ty.Toy(rng, n_params=13, dtype='float64')
    tensors, an, arrays = toy.batch(rng)
    fit = toy.random_fit(rng, False)
    used = []
    tray = make_tray(toy)
    tray.add_module('Reconstruction', name='r', fit_paramater_list=fit,
                    seed_tensor_name='x_seed', randomize_seed=True,
                    scipy_optimizer_settings={'method': 'L-BFGS-B'})
    module = tray.modules[0]
    inner = module.reconstruction_method

    def record(data_batch, seed_tensor):
        used.append(np.array(seed_tensor))
        return inner(data_batch, seed_tensor)
    module.reconstruction_method = record
    data = as_input(rng, toy, arrays, numpy=False)
    before = input_snapshot(data)
    results = m.call('randomised reconstruction raised', tray.execute,
                         data)
    unchanged(m, data, before, 'randomised seed')
    decide(m, toy, an, 'randomised seed', results['r'], used[0], fit, True,
           minimum=True, spread=30)
    m.check(not np.allclose(used[0], arrays['x_seed']),
            'seed was not randomised', '')


def case_real(m, rng):
    """Fits of real cascade models (conservation rules only)."""
    import tensorflow as tf
    from egenerator.manager.reconstruction.tray import ReconstructionTray
    handler, model, sampler = md.build('cascade', rng, seeds=('x_seed',),
                                       time_exclusions=bool(rng.rand() < .5),
                                       randomized=0.05)
    manager = md.make_manager(handler, [model])
    loss = md.make_loss()
    truth = sampler(1)
    seed = np.array(truth)
    seed[:, :3] += rng.uniform(-30, 30, 3)
    seed[:, 6] += rng.uniform(-50, 50)
    arrays = md.make_batch(rng, truth, seeds={'x_seed': seed},
                           time_exclusions=handler.tensors[
                               'x_time_exclusions'].exists)
    P = truth.shape[1]
    full = manager.get_parameter_loss_function(
        loss, (tf.TensorSpec([None, P], tf.float32),
               handler.get_data_set_signature()), [True] * P,
        minimize_in_trafo_space=False)
    fit = [bool(v) for v in rng.rand(P) < 0.6]
    fit[0] = True
    tray = ReconstructionTray(manager, loss)
    tray.add_module('Reconstruction', name='a', fit_paramater_list=fit,
                    seed_tensor_name='x_seed', scipy_optimizer_settings={
                        'method': 'L-BFGS-B', 'options': {'maxiter': 15}})
    tray.add_module('Reconstruction', name='b', fit_paramater_list=fit,
                    seed_tensor_name='a', seed_from_previous_module=True,
                    scipy_optimizer_settings={
                        'method': 'BFGS', 'options': {'maxiter': 5}})
    data = md.batch_tuple(handler, arrays)
    results = m.call('reconstruction of a cascade raised', tray.execute,
                         data)

    def total(theta):
        return float(full(tf.convert_to_tensor(np.asarray(
            theta, np.float32)), md.batch_tuple(handler, arrays, True)))
    fitted = np.array(fit)
    for name, start in (('a', seed), ('b', np.asarray(
            results['a']['result']))):
        r = results[name]
        m.event('real fits')
        tol = 3e-4 * (abs(total(start)) + 10)
        m.check(abs(float(r['loss_seed']) - total(start)) < tol,
                'reported loss of the seed', 'cascade',
                got=float(r['loss_seed']), want=total(start))
        m.check(abs(float(r['loss_reco']) - total(r['result'])) < tol,
                'reported loss of the result', 'cascade',
                got=float(r['loss_reco']), want=total(r['result']))
        m.check(total(r['result']) <= total(start) + tol,
                'fit is worse than its seed', 'cascade',
                seed=total(start), reco=total(r['result']))
        res = np.asarray(r['result'])
        m.check(np.allclose(res[:, ~fitted], start[:, ~fitted], rtol=1e-4,
                            atol=1e-2), 'parameter that is not fitted was '
                'moved', 'cascade', seed=start, result=res, fit=fit)
        m.saw('configuration', ('cascade', tuple(fit), name))


def cases(tier):
    return [
        Case('cascade model', case_real, 1, 16),
        Case('tfp', case_tfp, 2, 24),
        Case('scipy minimisers', case_scipy, 5, 60),
        Case('bounds', case_bounds, 3, 60),
        Case('hessian', case_direct, 1, 20),
        Case('global minimisers', case_global, 1, 20),
        Case('randomised seeds', case_random_seed, 1, 6),
    ]
