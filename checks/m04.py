"""M04: noise is uniform in time and follows the rates of the DOMs."""
import numpy as np

from vh.core import Case
from vh import models as md

RULE = ('the noise model (alone and as base of a multi source) is evaluated '
        'with random weights, time windows, exclusion windows (inside, '
        'across, outside of the time window, touching, covering it) and '
        'pulses; charges, variance, exclusion and PDF are compared DOM by '
        'DOM and pulse by pulse with the definition; pulses, charges and '
        'parameters are varied to watch for other dependencies; distinct = '
        '(kind of window, number of windows, mode)')
ASSUMPTIONS = ['one trainable factor common to all DOMs scales the rates',
               'exclusion windows of a DOM do not overlap each other']
BUDGET = {'quick': 9, 'thorough': 300}
REQUIRE = {'events': 60, 'pulses': 400, 'windows': 60, 'variations': 20}


def random_case(rng, n, windows):
    """Time windows, exclusions, pulses and the excluded fraction."""
    t0 = rng.uniform(-5000, 12000, n)
    tw = np.stack([t0, t0 + 10**rng.uniform(1.5, 5, n)], 1).astype(
        np.float32)
    charge = np.where(rng.rand(n, 86, 60, 1) < 0.02,
                      rng.exponential(2., (n, 86, 60, 1)), 0.)
    rows, ids, hows = [], [], []
    for i in range(n):
        a, b = [float(v) for v in tw[i]]
        length = b - a
        if not windows:
            continue
        for _ in range(rng.randint(0, 6)):
            dom = [i, rng.randint(86), rng.randint(60)]
            if dom in ids:
                continue
            how = ['inside', 'across-start', 'across-stop', 'outside',
                   'touching', 'all', 'several', 'empty'][rng.randint(8)]
            u = np.sort(rng.uniform(a, b, 6))
            new = {'inside': [u[:2]], 'across-start': [[a - length, u[0]]],
                   'across-stop': [[u[0], b + 3 * length]],
                   'outside': [[a - 2 * length, a - length],
                               [b + length, b + 2 * length]],
                   'touching': [[u[0], u[1]], [u[1], u[2]]],
                   'all': [[a - 1, b + 1]], 'empty': [[u[0], u[0]]],
                   'several': [u[0:2], u[2:4], u[4:6]]}[how]
            for w in new:
                rows.append(list(w))
                ids.append(dom)
            hows.append((how, len(new)))
    perm = rng.permutation(len(rows))
    rows = np.array(rows, np.float32).reshape(-1, 2)[perm]
    ids = np.array(ids, np.int32).reshape(-1, 3)[perm]
    k = int(rng.randint(0, 60)) + 3
    ev = rng.randint(n, size=k)
    times = tw[ev, 0] + rng.rand(k) * (tw[ev, 1] - tw[ev, 0])
    doms = np.stack([ev, rng.randint(86, size=k), rng.randint(60, size=k)], 1)
    if len(ids):
        # pulses at DOMs with excluded windows
        use = rng.rand(k) < 0.5
        doms[use] = ids[rng.randint(len(ids), size=use.sum())]
    data = dict(
        x_dom_charge=charge.astype(np.float32),
        x_dom_exclusions=np.ones((n, 86, 60, 1), bool),
        x_pulses=np.stack([rng.exponential(1., k), times], 1).astype(
            np.float32),
        x_pulses_ids=doms.astype(np.int32), x_time_window=tw,
        x_time_exclusions=rows, x_time_exclusions_ids=ids,
        x_parameters=rng.normal(size=(n, 1)).astype(np.float32))
    return data, hows


def oracle(data, windows):
    from egenerator.utils import detector
    tw = data['x_time_window'].astype(float)
    n = len(tw)
    length = tw[:, 1] - tw[:, 0]
    excluded = np.zeros((n, 86, 60))
    if windows:
        for (a, b), (i, s, o) in zip(data['x_time_exclusions'].astype(float),
                                     data['x_time_exclusions_ids']):
            lo, hi = max(a, tw[i, 0]), min(b, tw[i, 1])
            excluded[i, s, o] += max(0., hi - lo) / length[i]
    allowed = 1 - excluded + (1e-3 if windows else 0)
    rate = np.asarray(detector.dom_noise_rates, float).reshape(86, 60)
    charge = rate[None] * length[:, None, None] * allowed
    i, s, o = data['x_pulses_ids'].T
    pdf = 1. / (length[i] * 1e-3) / allowed[i, s, o]
    return charge, excluded, pdf, length


def case_definition(m, rng, windows, graph=False):
    handler, model, _ = md.build('noise', rng, time_exclusions=windows,
                                 randomized=[0, 0.5, 2.][rng.randint(3)])
    n = int(rng.randint(1, 7))
    data, hows = random_case(rng, n, windows)
    out = md.evaluate(model, handler, data, graph=graph)
    charge, excluded, pdf, length = oracle(data, windows)
    m.event('events', n)
    m.event('pulses', len(pdf))
    m.event('windows', len(data['x_time_exclusions']))
    for how in hows:
        m.saw('windows', how + (graph,))
    m.saw('batches', (n, windows, graph))
    got = out['dom_charges'][..., 0].astype(float)
    m.equal(got.shape, charge.shape, 'shape', 'shape of the charges')
    bright = charge > 0.1 * charge.max()
    ratio = (got[bright] - 1e-7) / charge[bright]
    factor = np.median(ratio)
    m.check(np.isfinite(factor) and factor > 0, 'rate-factor',
            'common factor of the noise rates', observed=factor)
    m.close(got, factor * charge + 1e-7, 'rate', 'expected noise charge is '
            'not rate times (allowed) length', rtol=2e-3, atol=3e-7)
    m.close(out['pulse_pdf'], pdf, 'pdf', 'noise PDF of the pulses',
            rtol=2e-3 if not windows else 3e-2)
    m.close(out['pulse_pdf'][pdf < 30 * 1e3 / np.min(length)],
            pdf[pdf < 30 * 1e3 / np.min(length)], 'pdf', 'noise PDF of '
            'the pulses', rtol=5e-3)
    if windows:
        m.close(out['dom_cdf_exclusion_sum'][..., 0], excluded, 'exclusion',
                'excluded fraction', rtol=1e-3, atol=1e-3)
    alpha = out['dom_charges_alpha'].astype(float)
    m.check(alpha.size == 1 and alpha.ravel()[0] > 0, 'alpha',
            'over-dispersion of the noise')
    var = got + alpha.ravel()[0] * got**2
    m.close(out['dom_charges_variance'][..., 0], var, 'variance',
            'variance of the noise charge', rtol=1e-4, atol=1e-9)
    # nothing else matters
    other = dict(data)
    other['x_parameters'] = rng.normal(size=(n, 1)).astype(
        np.float32) * 100
    other['x_dom_charge'] = data['x_dom_charge'][::-1] * 3 + 1
    times = data['x_pulses'].copy()
    times[:, 0] = rng.exponential(5, len(times))
    i = data['x_pulses_ids'][:, 0]
    tw = data['x_time_window']
    times[:, 1] = tw[i, 0] + rng.rand(len(i)) * (tw[i, 1] - tw[i, 0])
    other['x_pulses'] = times
    again = md.evaluate(model, handler, other)
    m.event('variations')
    for key in out:
        m.close(again[key], out[key], 'dependence', '{} of the noise depends '
                'on pulses, charges or parameters'.format(key),
                rtol=1e-5 if not graph else 1e-3)
    # shifting everything in time changes nothing
    shift = np.float32(2**int(rng.randint(6, 12)))
    moved = dict(data)
    for key in ('x_time_window', 'x_time_exclusions'):
        moved[key] = data[key] + shift
    moved['x_pulses'] = data['x_pulses'] + np.array([0, shift], np.float32)
    again = md.evaluate(model, handler, moved)
    m.event('variations')
    ok = length > 1000
    m.close(again['dom_charges'][ok], out['dom_charges'][ok], 'shift',
            'noise charge depends on the absolute time', rtol=2e-2,
            atol=1e-6)


def case_multi(m, rng):
    """Noise as one source of several: contributes the same charges."""
    from egenerator.utils import detector
    windows = bool(rng.rand() < 0.5)
    handler, model, sampler = md.build_multi('independent', rng, n_sources=2,
                                             time_exclusions=windows)
    base = model.sub_components.get('noise')
    if base is None:
        return
    data = md.make_batch(rng, sampler(2), time_exclusions=windows)
    own = dict(data, x_parameters=np.zeros((2, 0), np.float32))
    out = md.evaluate(base, handler, own)
    charge, excluded, pdf, length = oracle(data, windows)
    m.event('events', 2)
    m.event('pulses', len(pdf))
    m.saw('batches', ('multi', windows))
    m.close(out['pulse_pdf'], pdf, 'pdf', 'noise PDF as part of a multi '
            'source', rtol=5e-3)
    got = out['dom_charges'][..., 0]
    bright = charge > 0.1 * charge.max()
    factor = np.median((got[bright] - 1e-7) / charge[bright])
    m.close(got, factor * charge + 1e-7, 'rate', 'noise charge as part of a '
            'multi source', rtol=5e-3, atol=3e-7)
    rates = np.asarray(detector.dom_noise_rates, float)
    m.check(np.all(rates >= 0) and np.median(rates) > 1e-8
            and np.max(rates) < 1e-4, 'units', 'noise rates are not in '
            'units of 1/ns')


def cases(tier):
    return [
        Case('windows', case_definition, reps=14, reps_thorough=300,
             windows=True),
        Case('plain', case_definition, reps=6, reps_thorough=100,
             windows=False),
        Case('graph', case_definition, reps=2, reps_thorough=20,
             windows=True, graph=True),
        Case('multi', case_multi, reps=2, reps_thorough=30),
    ]
