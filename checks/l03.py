"""L03: snowstorm priors penalise exactly the configured parameters."""
import numpy as np

from vh.core import Case, scratch
from vh import losses as ls
from l01 import Params

RULE = ('snowstorm priors with random numbers of Fourier modes, widths and '
        'uniform ranges (and the default ones) are evaluated for parameters '
        'in random column orders: values, event parts, monotony outside of '
        'the ranges, dependence on every single parameter, before and after '
        'saving and loading; distinct = (number of modes, number of ranges, '
        'reduction)')
ASSUMPTIONS = ['the modes IceWavePlusModes_%02d are contiguous columns']
BUDGET = {'quick': 12, 'thorough': 300}
REQUIRE = {'priors': 30, 'parameters': 300, 'ranges': 60, 'loaded': 5,
           'refused': 8}

DEFAULT_SIGMAS = [
    0.005001, 0.0390078, 0.045009, 0.17903581, 0.0710142, 0.30306061,
    0.14502901, 0.095019, 0.16103221, 0.13302661, 0.15703141, 0.13302661,
    1e-08, 0.01664937, 0.02708014, 0.43171273, 0.02351273, 2.33565571,
    0.16767628, 0.05414841, 0.31355088, 0.04227052, 0.27955606, 4.02237848]
DEFAULT_RANGES = {
    'Absorption': [0.9, 1.1], 'AnisotropyScale': [0.0, 2.0],
    'DOMEfficiency': [0.9, 1.1], 'Scattering': [0.9, 1.1],
    'HoleIceForward_Unified_00': [-2.0, 1.0],
    'HoleIceForward_Unified_01': [-0.2, 0.2]}


def make_prior(config):
    from egenerator.loss.snowstorm import SnowstormPriorLossModule
    prior = SnowstormPriorLossModule()
    prior.configure(config=config)
    return prior


def evaluate(prior, names, params, **kw):
    data = dict(x_parameters=params.astype(np.float32),
                x_dom_charge=np.zeros((len(params), 86, 60, 1), np.float32))
    import tensorflow as tf
    batch = {k: tf.constant(v) for k, v in data.items()}
    tensor = kw.pop('tensor', 'x_parameters')
    if tensor != 'x_parameters':
        batch[tensor] = batch.pop('x_parameters')
        batch['x_parameters'] = batch[tensor] * 0 - 99
    out = prior.get_loss(batch, {}, None, Params(names),
                         parameter_tensor_name=tensor, **kw)
    if isinstance(out, (list, tuple)):
        return [v.numpy() for v in out]
    return out.numpy()


def oracle(names, params, sigmas, ranges):
    """Loss per event."""
    params = params.astype(np.float32).astype(float)
    out = np.zeros(len(params))
    for i, s in enumerate(sigmas):
        x = params[:, names.index('IceWavePlusModes_{:02d}'.format(i))]
        out += 0.5 * (x / s)**2 + np.log(s) + 0.5 * np.log(2 * np.pi)
    for name, (low, high) in ranges.items():
        x = params[:, names.index(name)]
        excess = np.maximum(np.maximum(x - high, low - x), 0) / (high - low)
        out += np.where(excess > 0, np.exp((excess + 1) * 10) - np.exp(10),
                        0.)
    return out


def random_setting(rng):
    k = int(rng.randint(0, 8))
    sigmas = [float(v) for v in 10**rng.uniform(-1.5, 0.7, k)]
    ranges = {}
    pool = ['Absorption', 'Scattering', 'DOMEfficiency', 'Anisotropy',
            'HoleIce_00', 'HoleIce_01']
    for name in [pool[i] for i in rng.permutation(6)[:rng.randint(0, 5)]]:
        low = float(rng.uniform(-2, 2))
        ranges[name] = [low, low + float(10**rng.uniform(-1, 0.5))]
    if not sigmas and not ranges:
        ranges['Absorption'] = [0.5, 1.5]
    names = ['x', 'y', 'energy', 'time'] + sorted(ranges)
    names = [names[i] for i in rng.permutation(len(names))]
    modes = ['IceWavePlusModes_{:02d}'.format(i) for i in range(k)]
    cut = rng.randint(len(names) + 1)
    return names[:cut] + modes + names[cut:], sigmas, ranges


def nominal(rng, names, sigmas, ranges, n):
    """Parameters inside of all ranges."""
    params = rng.normal(size=(n, len(names))) * 50
    for name, (low, high) in ranges.items():
        params[:, names.index(name)] = low + (high - low) * rng.uniform(
            0.02, 0.98, n)
    for i, s in enumerate(sigmas):
        params[:, names.index('IceWavePlusModes_{:02d}'.format(i))] = \
            rng.normal(0, s, n)
    return params.astype(np.float32)


def check_prior(m, rng, prior, names, sigmas, ranges, n=3):
    params = nominal(rng, names, sigmas, ranges, n)
    # some values outside of their ranges
    for name, (low, high) in ranges.items():
        if rng.rand() < 0.5:
            i = rng.randint(n)
            side = rng.rand() < 0.5
            step = (high - low) * rng.uniform(0.01, 0.8)
            params[i, names.index(name)] = high + step if side else \
                low - step
    want = oracle(names, params, sigmas, ranges)
    m.event('priors')
    m.saw('priors', (len(sigmas), len(ranges), n))
    tol = dict(rtol=2e-3, atol=2e-3 * (1 + np.abs(want).sum() * 1e-2))
    tensor = ['x_parameters', 'seed'][rng.randint(2)]
    m.close(evaluate(prior, names, params, tensor=tensor), want.sum(),
            'value', 'prior loss', **tol)
    parts = evaluate(prior, names, params, reduce_to_scalar=False,
                     sort_loss_terms=True, tensor=tensor)
    m.equal([p.shape for p in parts], [(), (n,), (n, 86, 60)],
            'part-shapes', 'sorted parts of the prior')
    m.close(parts[1], want, 'event-parts', 'event parts of the prior', **tol)
    m.check(parts[0] == 0 and not np.any(parts[2]), 'event-parts',
            'priors of events are no property of DOMs')
    terms = evaluate(prior, names, params, reduce_to_scalar=False)
    m.close(sum(np.sum(t, dtype=float) for t in terms), want.sum(), 'terms',
            'terms of the prior', **tol)
    return params


def case_random(m, rng):
    names, sigmas, ranges = random_setting(rng)
    prior = make_prior({'sigmas': sigmas, 'uniform_parameters': ranges})
    check_prior(m, rng, prior, names, sigmas, ranges,
                int(rng.randint(1, 5)))
    # dependence on every single parameter
    base = nominal(rng, names, sigmas, ranges, 1)
    for i, s in enumerate(sigmas):
        base[:, names.index('IceWavePlusModes_{:02d}'.format(i))] = 0.
    lowest = float(evaluate(prior, names, base))
    const = float(sum(np.log(s) + 0.5 * np.log(2 * np.pi) for s in sigmas))
    m.close(lowest, const, 'nominal', 'loss of the nominal values',
            rtol=1e-4, atol=1e-3)
    for c, name in enumerate(names):
        m.event('parameters')
        moved = base.copy()
        if name.startswith('Ice'):
            s = sigmas[int(name[-2:])]
            want = []
            for f in (-2., 1., 3.):
                moved[0, c] = f * s
                want.append(0.5 * f**2)
                m.close(float(evaluate(prior, names, moved)) - lowest,
                        want[-1], 'mode', 'penalty of {} sigma of '
                        '{}'.format(f, name), rtol=2e-3, atol=2e-3)
        elif name in ranges:
            low, high = ranges[name]
            m.event('ranges')
            last = -1.
            for f in (1e-3, 0.02, 0.2, 0.6):
                moved[0, c] = high + f * (high - low)
                up = float(evaluate(prior, names, moved)) - lowest
                moved[0, c] = low - f * (high - low)
                down = float(evaluate(prior, names, moved)) - lowest
                m.check(up > last and down > 0, 'range-outside', 'penalty '
                        'outside of the range of {} does not grow'.format(
                            name), observed=(f, down, up, last))
                m.close(up, down, 'range-symmetry', 'penalty on both sides',
                        rtol=5e-2, atol=1. if f < 0.1 else 0)
                last = up
            for f in (0.01, 0.5, 0.99):
                moved[0, c] = low + f * (high - low)
                m.close(float(evaluate(prior, names, moved)), lowest,
                        'range-inside', 'penalty inside of the range of ' +
                        name, rtol=1e-6, atol=1e-5)
        else:
            moved[0, c] += rng.normal() * 1e3
            m.close(float(evaluate(prior, names, moved)), lowest,
                    'other', 'prior depends on ' + name, rtol=0, atol=0)


def case_default(m, rng):
    modes = ['IceWavePlusModes_{:02d}'.format(i) for i in range(24)]
    names = ['x', 'y'] + sorted(DEFAULT_RANGES) + modes + ['time']
    prior = make_prior({})
    base = nominal(rng, names, DEFAULT_SIGMAS, DEFAULT_RANGES, 2)
    base[:, names.index(modes[12])] = 0.    # width 1e-8
    want = oracle(names, base, DEFAULT_SIGMAS, DEFAULT_RANGES)
    m.event('priors')
    m.saw('priors', ('default',))
    m.close(evaluate(prior, names, base), want.sum(), 'value', 'default '
            'prior', rtol=2e-3, atol=1e-2)
    # tensor without a mode: refused
    cut = [n for n in names if n != modes[int(rng.randint(24))]]
    m.event('refused')
    m.raises(lambda: evaluate(prior, cut, base[:, :-1]), 'refused',
             'missing mode')
    order = list(names)
    i, j = [names.index(modes[k]) for k in rng.choice(24, 2, replace=False)]
    order[i], order[j] = order[j], order[i]
    m.event('refused')
    m.raises(lambda: evaluate(prior, order, base), 'refused', 'modes in '
             'another order')


def case_missing(m, rng):
    names, sigmas, ranges = random_setting(rng)
    prior = make_prior({'sigmas': sigmas, 'uniform_parameters': ranges})
    if ranges:
        gone = sorted(ranges)[rng.randint(len(ranges))]
        cut = [n for n in names if n != gone]
        m.event('refused')
        m.raises(lambda: evaluate(prior, cut, np.zeros((1, len(cut)))),
                 'refused', 'missing parameter ' + gone)


def case_loaded(m, rng):
    from egenerator.loss.multi_loss import MultiLossModule
    from egenerator.loss.snowstorm import SnowstormPriorLossModule
    names, sigmas, ranges = random_setting(rng)
    prior = make_prior({'sigmas': sigmas, 'uniform_parameters': ranges})
    params = nominal(rng, names, sigmas, ranges, 2) * 1.5
    want = evaluate(prior, names, params)
    tmp = scratch()
    prior.save(tmp + '/prior', overwrite=True)
    other = SnowstormPriorLossModule()
    other.load(tmp + '/prior')
    m.event('loaded')
    m.close(evaluate(other, names, params), want, 'loaded', 'prior '
            'after loading', rtol=1e-6)
    check_prior(m, rng, other, names, sigmas, ranges)
    multi = MultiLossModule()
    multi.configure(loss_modules=[prior])
    multi.save(tmp + '/multi', overwrite=True)
    again = MultiLossModule()
    again.load(tmp + '/multi')
    m.event('loaded')
    m.close(evaluate(again, names, params), want, 'loaded', 'prior in a '
            'combined loss after loading', rtol=1e-6)


def cases(tier):
    return [Case('random', case_random, reps=12, reps_thorough=400),
            Case('default', case_default, reps=3, reps_thorough=50),
            Case('missing', case_missing, reps=6, reps_thorough=100),
            Case('loaded', case_loaded, reps=4, reps_thorough=100)]
