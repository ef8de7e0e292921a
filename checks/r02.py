"""R02: gradients, Hessians and covariances match the likelihood."""
import numpy as np

from vh.core import Case
from vh import models as md
from vh import toy as ty
import r01

RULE = ('the loss, gradient, Hessian and gradient-product functions of the '
        'manager are evaluated for random hypotheses, parameter subsets, '
        'spaces, precisions and ensembles of likelihoods with known '
        'derivatives; covariance matrices of the module are compared with '
        'the inverses of the known derivatives at the reconstructed point; '
        'on real cascade, track and multi-source models gradients and '
        'Hessians are compared with central differences and between spaces; '
        'distinct = (function, space, subset, precision)')
ASSUMPTIONS = ['for logarithmic parameters, original-space covariances are '
               'given in log space (documented)',
               'Hessians, gradient products and covariances are evaluated '
               'for one event at a time']
WORKERS = {'quick': 5}
BUDGET = {'quick': 45, 'thorough': 500}
REQUIRE = {'gradients': 40, 'hessians': 20, 'gradient products': 20,
           'covariances': 6, 'fit covariances': 3, 'singular': 1,
           'real gradients': 6, 'real hessians': 1, 'partial': 20}


def functions(toy, fit, space, seed=None):
    kw = dict(loss_module=toy.loss, fit_paramater_list=fit,
              minimize_in_trafo_space=space, seed=seed)
    specs = toy.specs(fit)
    if seed is not None:
        specs = specs[:2]
    man = toy.manager
    return dict(
        loss=man.get_parameter_loss_function(input_signature=specs, **kw),
        grad=man.get_loss_and_gradients_function(input_signature=specs,
                                                 **kw),
        hess=man.get_hessian_function(input_signature=specs, **kw),
        opg=man.get_opg_estimate_function(input_signature=specs, **kw))


def case_derivatives(m, rng, n_points=4):
    import tensorflow as tf
    dtype = ['float64', 'float64', 'float32'][rng.randint(3)]
    rtol = 2e-3 if dtype == 'float32' else 1e-7
    P = int(rng.randint(2, 8))
    toy = ty.Toy(rng, n_params=P, dtype=dtype,
                 n_models=int(rng.choice([1, 1, 2, 3])),
                 norm_constant=[1e-6, 0.02][rng.randint(2)])
    many = ty.Toy.__new__(ty.Toy)
    many.__dict__.update(toy.__dict__)
    for fit in (toy.random_fit(rng, False), [True] * P):
        idx = np.flatnonzero(fit)
        by_name = rng.rand() < 0.3 and not all(fit)
        for space in (True, False):
            funcs = functions(toy, fit, space,
                              'x_seed' if by_name else None)
            for k in range(n_points):
                toy.n = 1 if k else int(rng.randint(1, 4))
                tensors, an, arrays = toy.batch(rng)
                seed = arrays['x_seed']
                theta = toy.near(rng, arrays['x_target'])
                theta[:, [i for i in range(P) if i not in idx]] = seed[
                    :, [i for i in range(P) if i not in idx]]
                x = toy.to_trafo(theta) if space else theta.astype(float)
                args = [tf.convert_to_tensor(x[:, idx].astype(dtype)),
                        tensors]
                if not by_name:
                    args.append(tf.convert_to_tensor(seed))
                label = '{} space, {}, {} of {} parameters'.format(
                    'transformed' if space else 'original', dtype,
                    len(idx), P)
                chain = toy.chain(an, theta, space)
                m.saw('configuration', (space, dtype, tuple(fit), toy.n))
                if len(idx) < P:
                    m.event('partial')
                loss = float(m.call('loss raised', funcs['loss'], *args))
                total = an.loss(theta)
                size = np.abs(an.event_terms(theta)).sum() + abs(
                    an.c['constant']) * toy.n * len(toy.weights)
                m.check(abs(loss - total) < rtol * (size + 1),
                        'loss of the manager', label, got=loss, want=total)
                # gradient
                value, grad = m.call('gradient raised', funcs['grad'],
                                     *args)
                m.event('gradients')
                jac = an.jac_u(theta) * chain[:, None, :]
                want = jac.sum(axis=1)[:, idx]
                scale = np.abs(jac).sum(axis=1)[:, idx] + 1e-3 * np.abs(
                    jac).sum() / P
                grad = np.asarray(grad, float)
                m.check(grad.shape == want.shape and (
                    np.abs(grad - want) / (scale + 1e-12)).max() < rtol,
                    'gradient does not match the likelihood', label,
                    got=grad, want=want, fit=fit)
                m.check(float(value) == loss or abs(float(value) - loss)
                        < rtol * (size + 1), 'loss of the gradient '
                        'function', label)
                if toy.n > 1:
                    continue
                m.event('hessians')
                hess = np.asarray(m.call('hessian raised', funcs['hess'],
                                         *args), float)
                H = an.hess_u(theta)[0] * chain[0][:, None] * chain[0]
                if not space:
                    # second derivative of the logarithm
                    second = -an.du(theta)[0]**2 * np.array(toy.log)
                    H = H + np.diag(an.grad_u(theta)[0] * second)
                want = H[np.ix_(idx, idx)]
                d = np.sqrt(np.abs(np.diag(H)) + np.abs(
                    np.diag(an.hess_u(theta)[0] * chain[0][:, None]
                            * chain[0])))[idx]
                m.check(hess.shape == want.shape and (
                    np.abs(hess - want) / d / d[:, None]).max() < rtol,
                    'Hessian does not match the likelihood', label,
                    got=hess, want=want, fit=fit)
                m.event('gradient products')
                opg = np.asarray(m.call('gradient products raised',
                                        funcs['opg'], *args), float)
                J = jac[0][:, idx]
                want = J.T @ J
                d = np.sqrt((J**2).sum(axis=0)) + 1e-4 * np.abs(J).max()
                m.check(opg.shape == want.shape and (
                    np.abs(opg - want) / d / d[:, None]).max() < rtol * 4,
                    'gradient products do not match the likelihood terms',
                    label, got=opg, want=want, fit=fit)


def rel(a, b, d):
    return (np.abs(np.asarray(a, float) - b) / d / d[:, None]).max()


def case_covariance(m, rng):
    from scipy.optimize import LbfgsInvHessProduct
    P = int(rng.randint(3, 8))
    dtype = ['float32', 'float64'][rng.randint(2)]
    rtol = 0.01 if dtype == 'float32' else 1e-6
    toy = ty.Toy(rng, n_params=P, dtype=dtype,
                 n_models=int(rng.choice([1, 2])))
    fit = [True] * P
    for space in (True, False):
        tray = r01.make_tray(toy)
        methods = ['BFGS', 'L-BFGS-B', 'Nelder-Mead']
        if not space:
            methods = ['BFGS', 'TNC']
        for method in methods:
            tray.add_module('Reconstruction', name='r' + method,
                            fit_paramater_list=fit,
                            seed_tensor_name='x_seed',
                            minimize_in_trafo_space=space,
                            scipy_optimizer_settings={'method': method})
            tray.add_module('CovarianceMatrix', name='c' + method,
                            fit_paramater_list=fit, reco_key='r' + method,
                            minimize_in_trafo_space=space)
        tensors, an, arrays = toy.batch(rng)
        results = m.call('covariance raised', tray.execute,
                         r01.as_input(rng, toy, arrays))
        for method in methods:
            r, c = results['r' + method], results['c' + method]
            theta = np.asarray(r['result'], float)
            m.event('covariances')
            label = '{} {} {}'.format(method, 'transformed' if space else
                                      'original', dtype)
            m.saw('covariance', (method, space, dtype, P))
            chain = toy.chain(an, theta, space)[0]
            hu = an.hess_u(theta)[0]
            H = hu * chain * chain[:, None]
            if not space:
                H = H + np.diag(an.grad_u(theta)[0] * -an.du(theta)[0]**2
                                * np.array(toy.log))
            J = an.jac_u(theta)[0] * chain
            opg, cov = J.T @ J, np.linalg.inv(H)
            sand = cov @ opg @ cov
            if not (np.diag(cov) > 0).all():
                continue
            d = np.sqrt(np.diag(cov))
            ds = np.sqrt(np.diag(sand)) + 0.01 * d
            width = toy.width() if space else np.ones(P)
            keys = ['cov', 'cov_sand'] + (
                ['cov_trafo', 'cov_sand_trafo'] if space else [])
            if not m.check(all(k in c for k in keys),
                           'covariance missing', label, got=list(c)):
                continue
            if space:
                m.check(rel(c['cov_trafo'], cov, d) < rtol,
                        'covariance in transformed space', label,
                        got=c['cov_trafo'], want=cov)
                m.check(rel(c['cov_sand_trafo'], sand, ds) < rtol * 5,
                        'robust covariance in transformed space', label,
                        got=c['cov_sand_trafo'], want=sand)
            W = width * width[:, None]
            m.check(rel(c['cov'], cov * W, d * width) < rtol,
                    'covariance in original space', label, got=c['cov'],
                    want=cov * W)
            m.check(rel(c['cov_sand'], sand * W, ds * width) < rtol * 5,
                    'robust covariance in original space', label,
                    got=c['cov_sand'], want=sand * W)
            m.check(np.allclose(c['cov'], np.asarray(c['cov']).T,
                                rtol=1e-3), 'covariance not symmetric',
                    label)
            inv = getattr(r['result_object'], 'hess_inv', None)
            if inv is None:
                m.check('cov_fit' not in c, 'covariance of a minimiser '
                        'that provides none', label)
                continue
            m.event('fit covariances')
            if isinstance(inv, LbfgsInvHessProduct):
                inv = inv.todense()
            inv = np.asarray(inv)
            fs = inv @ opg @ inv
            df = np.sqrt(np.abs(np.diag(inv)))
            dfs = np.sqrt(np.abs(np.diag(fs))) + 0.01 * df
            want = [('cov_fit', inv * W, df * width),
                    ('cov_sand_fit', fs * W, dfs * width)]
            if space:
                want += [('cov_fit_trafo', inv, df),
                         ('cov_sand_fit_trafo', fs, dfs)]
            for key, value, size in want:
                m.check(key in c and rel(c[key], value, size) < rtol * 5,
                        'covariance of the minimiser', key + ' ' + label,
                        got=c.get(key), want=value)


def case_singular(m, rng):
    """Parameters without influence: no covariance, but no crash."""
    from vh.toy import ToyLoss
    P = 4
    toy = ty.Toy(rng, n_params=P, dtype='float64', linear=False)
    config = dict(toy.loss_config)
    config['matrix'] = [[v if i != 2 else 0. for i, v in enumerate(row)]
                        for row in config['matrix']]
    toy.loss = ToyLoss()
    toy.loss.configure(config=config)
    tray = r01.make_tray(toy)
    tray.add_module('Reconstruction', name='r', fit_paramater_list=[
        True] * P, seed_tensor_name='x_seed')
    tray.add_module('CovarianceMatrix', name='c', reco_key='r',
                    fit_paramater_list=[True] * P)
    tensors, an, arrays = toy.batch(rng)
    results = m.call('covariance raised', tray.execute, tensors)
    m.event('singular')
    cov = np.asarray(results['c']['cov'])
    m.check(cov.shape == (P, P) and (not np.isfinite(cov[2, 2])
                                     or cov[2, 2] > 1e8),
            'finite uncertainty of an unconstrained parameter', cov=cov)


def case_real(m, rng, kind, hessian=True):
    """Derivatives of the likelihoods of real models."""
    import tensorflow as tf
    # time windows are clipped at their edges, where derivatives jump
    handler, model, sampler = md.any_model(kind, rng, randomized=0.1,
                                           seeds=('x_seed',))
    manager = md.make_manager(handler, [model], I3ParticleMapping={})
    loss = md.make_loss()
    theta = np.asarray(sampler(1), np.float32)
    P = theta.shape[1]
    arrays = md.make_batch(
        rng, theta, seeds={'x_seed': theta},
        time_exclusions=handler.tensors['x_time_exclusions'].exists,
        quantiles=handler.tensors['x_pulses'].shape[1] == 3, mean_pulses=12)
    data = md.batch_tuple(handler, arrays, as_tensor=True)
    fit = [bool(v) for v in rng.rand(P) < 0.7]
    fit[int(rng.randint(P))] = True
    idx = np.flatnonzero(fit)
    spec = (tf.TensorSpec([None, len(idx)], tf.float32),
            handler.get_data_set_signature(),
            tf.TensorSpec([None, P], tf.float32))
    trafo = manager.data_trafo
    xt = np.asarray(trafo.transform(theta, 'x_parameters'))
    seed = tf.convert_to_tensor(theta)
    log = trafo.data['tensors']['x_parameters'].trafo_log or [False] * P
    width = np.asarray(trafo.data['x_parameters_std'], float) \
        + trafo.data['norm_constant']
    grads = {}
    for space in (True, False):
        func = manager.get_loss_and_gradients_function(
            loss, spec, fit, minimize_in_trafo_space=space)
        x = (xt if space else theta)[:, idx]

        def evaluate(v):
            a, b = func(tf.convert_to_tensor(v.astype(np.float32)), data,
                        seed)
            return float(a), np.asarray(b, float)[0]
        value, grad = m.call('gradient raised', evaluate, x)
        m.event('real gradients')
        m.saw('real', (kind, space, tuple(fit)))
        if not m.check(np.isfinite(grad).all() and np.isfinite(value),
                       'gradient not finite', kind, grad=grad):
            return
        grads[space] = (value, grad)
    jac = width[idx] * np.array(
        [1 + float(theta[0, i]) if log[i] else 1. for i in idx])
    a, b = grads[True][1], grads[False][1] * jac
    scale = np.abs(a) + 1e-3 * np.abs(a).max() + 1e-3
    m.check((np.abs(a - b) / scale).max() < 0.05, 'gradients of the two '
            'spaces belong to different functions', kind, transformed=a,
            original=b)
    m.check(abs(grads[True][0] - grads[False][0]) < 1e-3 * (
        abs(grads[True][0]) + 10), 'losses of the two spaces differ', kind,
        transformed=grads[True][0], original=grads[False][0])
    # central differences of the loss along random directions
    func = manager.get_loss_and_gradients_function(loss, spec, fit)

    def f(v):
        a, b = func(tf.convert_to_tensor(v.astype(np.float32)), data, seed)
        return float(a), np.asarray(b, float)[0]
    x = xt[:, idx].astype(float)
    agree = []
    for _ in range(3):
        direction = rng.normal(size=len(idx))
        direction /= np.linalg.norm(direction)
        best = np.inf
        for h in (0.003, 0.01, 0.03):
            up, down = f(x + h * direction), f(x - h * direction)
            num = (up[0] - down[0]) / (2 * h)
            exact = grads[True][1] @ direction
            noise = 4e-7 * abs(up[0]) / h * 10
            # mean slope of the two ends bounds the curvature
            mean = (up[1] + down[1]) @ direction / 2
            tol = 0.05 * np.abs(grads[True][1]).max() + noise + abs(
                mean - exact) * 2
            best = min(best, abs(num - exact) / tol)
        agree.append(best)
    m.check(np.median(agree) < 1, 'gradient of a model does not match '
            'differences of its likelihood', kind, ratio=agree)
    if not hessian:
        return
    hess = manager.get_hessian_function(loss, spec, fit)
    H = np.asarray(m.call('hessian raised', hess, tf.convert_to_tensor(
        x.astype(np.float32)), data, seed), float)
    m.event('real hessians')
    H = H.reshape(len(idx), len(idx))
    m.check(np.abs(H - H.T).max() < 0.02 * np.abs(H).max() + 1e-3,
            'Hessian not symmetric', kind)
    ratio = []
    for _ in range(3):
        direction = rng.normal(size=len(idx))
        direction /= np.linalg.norm(direction)
        best = np.inf
        for h in (0.003, 0.01):
            d = (f(x + h * direction)[1] - f(x - h * direction)[1]) / (2*h)
            tol = 0.08 * np.abs(H).max() + 1e-3 * np.abs(
                grads[True][1]).max() / h
            best = min(best, np.abs(d - H @ direction).max() / tol)
        ratio.append(best)
    m.check(np.median(ratio) < 1, 'Hessian of a model does not match '
            'differences of its gradient', kind, ratio=ratio)


def cases(tier):
    return [Case('model ' + k, case_real, 1, 10, kind=k,
                 hessian=k == 'cascade' or tier != 'quick')
            for k in ('independent', 'cascade', 'segment')] + [
        Case('derivatives', case_derivatives, 2, 60),
        Case('covariances', case_covariance, 1, 30),
        Case('singular', case_singular, 1, 4)]
