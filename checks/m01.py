"""M01: event hypotheses are evaluated independently of each other."""
import numpy as np

from vh.core import Case
from vh import models as md

RULE = ('every kind of source model evaluates a batch; the same events are '
        'evaluated alone, in other batches, in permuted order and with '
        'permuted pulses, eagerly and as a graph; all result tensors and the '
        'likelihood are compared event by event and pulse by pulse; special '
        'hypotheses (at a DOM, vertical, no energy, far away, extreme times, '
        'no pulses) are watched for values which are not finite or negative; '
        'distinct = (model, arrangement, result tensor)')
ASSUMPTIONS = ['results of the same event in different batches agree within '
               'the rounding of single precision']
BUDGET = {'quick': 16, 'thorough': 500}
REQUIRE = {'comparisons': 200, 'finite_checks': 150, 'special': 12,
           'arrangements': 24, 'likelihoods': 20}

TOL = dict(rtol=3e-4, atol=2e-6)
LOG_TOL = dict(rtol=2e-3, atol=1e-3)    # tails amplify the rounding


def finite(m, out, kind, how):
    for key, value in out.items():
        if value.dtype.kind != 'f':
            continue
        m.event('finite_checks')
        if key.endswith('log_pdf_values'):
            m.check(not np.any(np.isnan(value)), 'finite',
                    '{} of {} is not a number ({})'.format(key, kind, how))
            continue
        m.check(np.all(np.isfinite(value)), 'finite',
                '{} of {} is not finite ({})'.format(key, kind, how),
                where=np.argwhere(~np.isfinite(value))[:3])
        if key in ('dom_charges', 'dom_charges_variance', 'dom_charges_unc',
                   'pulse_pdf', 'pulse_quantile_pdf', 'dom_cdf_exclusion',
                   'dom_cdf_exclusion_sum', 'latent_var_scale',
                   'latent_var_sigma', 'latent_var_r'):
            m.check(np.all(value >= 0), 'negative',
                    '{} of {} is negative ({})'.format(key, kind, how),
                    minimum=value.min() if value.size else 0)


def compare(m, a, b, kind, how, events, rows):
    """a: full batch; b: rearranged batch (events/rows: origin)."""
    m.saw('arrangements', (kind, how))
    m.equal(sorted(b), sorted(a), 'result-names', model=kind)
    for key in a:
        want = a[key]
        index = rows['x_pulses'] if md.is_vector_result(key) else events
        if want.ndim == 0:
            continue
        m.event('comparisons')
        m.saw('tensors', (kind, how, key))
        if len(want) == 1 and not md.is_vector_result(key):
            index = np.array([0])       # the same for all events
        m.check(len(b[key]) == len(index), 'result-length', key, model=kind)
        m.close(b[key], want[index], 'batch-dependence',
                '{} of {} depends on the batch ({})'.format(key, kind, how),
                **(LOG_TOL if 'log' in key else TOL))


def case_batches(m, rng, kind, graphs=()):
    handler, model, sampler = md.any_model(kind, rng)
    n = 3 if m.tier == 'quick' else int(rng.randint(3, 7))
    data = md.make_batch(rng, sampler(n), quantiles=kind == 'quantile',
                         time_exclusions=md.has_windows(handler),
                         mean_pulses=15)
    full = md.evaluate(model, handler, data)
    finite(m, full, kind, 'random')
    loss = md.make_loss('unbinned_extended_pulse_llh') \
        if kind != 'quantile' else md.make_loss(
            'unbinned_charge_quantile_pdf', min_charge_quantile=0.,
            max_charge_quantile=1.)
    total = md.event_loss(loss, model, handler, data)
    same = (np.arange(n), {'x_pulses': np.arange(len(data['x_pulses']))})

    if m.tier == 'thorough' or kind in graphs:
        graph = md.evaluate(model, handler, data, graph=True)
        compare(m, full, graph, kind, 'graph', *same)

    perm = rng.permutation(n)
    moved, rows = md.select_events(data, perm)
    compare(m, full, md.evaluate(model, handler, moved), kind,
            'permuted events', perm, rows)
    m.event('likelihoods')
    scale = abs(total) + 1
    m.close(md.event_loss(loss, model, handler, moved), total, 'likelihood',
            'permuted events, ' + kind, rtol=1e-4, atol=1e-4 * scale)
    mixed, rows = md.shuffle_rows(rng, data)
    compare(m, full, md.evaluate(model, handler, mixed), kind,
            'permuted pulses', np.arange(n), rows)
    m.event('likelihoods')
    m.close(md.event_loss(loss, model, handler, mixed), total, 'likelihood',
            'permuted pulses, ' + kind, rtol=1e-4, atol=1e-4 * scale)
    parts = []
    for i in (range(n) if m.tier == 'thorough' else [rng.randint(n)]):
        single, rows = md.select_events(data, np.array([i]))
        out = md.evaluate(model, handler, single)
        compare(m, full, out, kind, 'single event', np.array([i]), rows)
        parts.append(md.event_loss(loss, model, handler, single))
    if len(parts) == n:
        m.event('likelihoods')
        m.close(sum(parts), total, 'likelihood', 'sum over events, ' + kind,
                rtol=1e-4, atol=1e-4 * scale)
    # other companions: repeat one event next to different ones
    twice = np.array([rng.randint(n), rng.randint(n), 0, n - 1])
    double, rows = md.select_events(data, twice)
    compare(m, full, md.evaluate(model, handler, double), kind,
            'repeated events', twice, rows)


def special_values(rng, names, n):
    """Hypotheses at the borders of the parameter space."""
    from egenerator.utils import detector
    base = md.stack_columns(rng, n, names)
    labels = []
    for i in range(n):
        how = ['at-dom', 'vertical', 'no-energy', 'far', 'below-dom',
               'short', 'azimuth'][i % 7]
        labels.append(how)
        s, o = rng.randint(86), rng.randint(60)
        for j, name in enumerate(names):
            axis = name[-1] if name[-2:-1] in ('', '_') else ''
            if how in ('at-dom', 'below-dom') and axis in ('x', 'y', 'z') \
                    and axis:
                base[i, j] = detector.x_coords[s, o]['xyz'.index(axis)]
                if how == 'below-dom' and axis == 'z':
                    base[i, j] -= 1e-3
            if how in ('vertical', 'below-dom') and name.endswith('zenith'):
                base[i, j] = [0., np.pi][rng.randint(2)]
            if how == 'azimuth' and name.endswith('azimuth'):
                base[i, j] = [0., 2 * np.pi, np.pi][rng.randint(3)]
            if how == 'no-energy' and name.endswith('energy'):
                base[i, j] = 0.
            if how == 'far' and axis in ('x', 'y', 'z') and axis:
                base[i, j] = [-1500., 1500.][rng.randint(2)]
            if how == 'short' and name.endswith('length'):
                base[i, j] = 0.
            if how == 'short' and name.endswith('distance'):
                base[i, j] = 0.
    return base, labels


def case_special(m, rng, kind):
    handler, model, sampler = md.any_model(kind, rng, randomized=0.1)
    names = list(model.parameter_names)
    n = 7
    params, labels = special_values(rng, names, n)
    data = md.make_batch(rng, params, quantiles=kind == 'quantile',
                         time_exclusions=md.has_windows(handler),
                         n_pulses=[12] * n)
    for how in labels:
        m.event('special')
        m.saw('special-hypotheses', (kind, how))
    finite(m, md.evaluate(model, handler, data), kind, 'special')
    # pulses at extreme times
    odd = dict(data, x_pulses=data['x_pulses'].copy())
    times = odd['x_pulses'][:, 1]
    times[rng.rand(len(times)) < 0.5] += np.float32(
        10**rng.uniform(4, 6) * (1 if rng.rand() < 0.5 else -1))
    m.event('special')
    m.saw('special-hypotheses', (kind, 'times'))
    finite(m, md.evaluate(model, handler, odd), kind, 'extreme times')
    # no pulses at all
    none, _ = md.select_events(data, np.arange(1))
    for key, ids in md.VECTOR_KEYS:
        none[key], none[ids] = none[key][:0], none[ids][:0]
    none['x_dom_charge'] = none['x_dom_charge'] * 0
    m.event('special')
    m.saw('special-hypotheses', (kind, 'no pulses'))
    finite(m, md.evaluate(model, handler, none), kind, 'no pulses')


def cases(tier):
    out = []
    for kind in md.KINDS:
        out.append(Case('batches_' + kind, case_batches, reps=1,
                        reps_thorough=20, kind=kind,
                        graphs=('cascade', 'noise', 'independent')))
        out.append(Case('special_' + kind, case_special, reps=1,
                        reps_thorough=20, kind=kind))
    return out
