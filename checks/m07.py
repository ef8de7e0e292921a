"""M07: light emission only depends on times relative to the source."""
import numpy as np

from vh.core import Case
from vh import models as md

RULE = ('every kind of model is evaluated before and after shifting source '
        'times, pulses, time windows and exclusion windows of every event '
        'by its own offset, and after adding, removing and changing pulses, '
        'excluding DOMs and adding windows at other DOMs; expected charges '
        'and PDFs are compared DOM by DOM and pulse by pulse; distinct = '
        '(model, variation)')
ASSUMPTIONS = ['single precision times: offsets of 2^k ns up to 4096 ns']
BUDGET = {'quick': 16, 'thorough': 400}
REQUIRE = {'shifts': 12, 'pulse_variations': 24, 'exclusion_variations': 12}


def time_columns(names):
    return [i for i, n in enumerate(names) if n == 'time'
            or n.endswith('_time')]


def shifted(data, dt, columns):
    out = {k: v.copy() for k, v in data.items()}
    out['x_time_window'] += dt[:, None]
    out['x_pulses'][:, 1] += dt[data['x_pulses_ids'][:, 0]]
    if len(data['x_time_exclusions']):
        out['x_time_exclusions'] += dt[
            data['x_time_exclusions_ids'][:, 0]][:, None]
    for c in columns:
        out['x_parameters'][:, c] += dt
    return out


def case_shift(m, rng, kind):
    handler, model, sampler = md.any_model(kind, rng)
    names = list(model.parameter_names)
    n = 2
    data = md.make_batch(rng, sampler(n), quantiles=kind == 'quantile',
                         time_exclusions=md.has_windows(handler),
                         mean_pulses=30)
    columns = time_columns(names)
    m.check(bool(columns) or kind == 'noise', 'time-parameter',
            'no time among the parameters of ' + kind)
    before = md.evaluate(model, handler, data)
    for _ in range(2):
        dt = (rng.choice([-1, 1], n) * 2.**rng.randint(4, 13, n)).astype(
            np.float32)
        after = md.evaluate(model, handler, shifted(data, dt, columns))
        m.event('shifts')
        m.saw('variations', (kind, 'shift', tuple(np.sign(dt))))
        for key in before:
            if key == 'pdf_time_window':
                continue
            m.close(after[key], before[key], 'shift', '{} of {} depends on '
                    'the absolute time'.format(key, kind), rtol=5e-3,
                    atol=2e-3 if 'log' in key else 2e-5, shift=dt)
        # moving only the source is no symmetry: the pulses move relative
    if kind == 'noise' or not len(data['x_pulses']):
        return
    other = dict(data, x_parameters=data['x_parameters'].copy())
    other['x_parameters'][:, columns] += np.float32(700.)
    after = md.evaluate(model, handler, other)
    key = 'pulse_quantile_pdf' if kind == 'quantile' else 'pulse_pdf'
    base = before[key]
    used = base > 1e-3 * base.max()
    m.check(not np.allclose(after[key][used], base[used], rtol=1e-3),
            'time-ignored', 'the PDF of {} ignores the source time'.format(
                kind))


def same_charges(m, a, b, mask, kind, what, keys=('dom_charges',)):
    for key in keys:
        m.close(b[key][mask], a[key][mask], 'charges', '{} of {} depends on '
                '{}'.format(key, kind, what), rtol=2e-5, atol=1e-9)


def case_pulses(m, rng, kind):
    handler, model, sampler = md.any_model(kind, rng)
    n = 2
    windows = md.has_windows(handler)
    quant = kind == 'quantile'
    data = md.make_batch(rng, sampler(n), quantiles=quant,
                         time_exclusions=windows, mean_pulses=30)
    before = md.evaluate(model, handler, data)
    everywhere = np.ones((n, 86, 60, 1), bool)

    def vary(name, keys=('dom_charges',), **new):
        m.event('pulse_variations')
        m.saw('variations', (kind, name))
        after = md.evaluate(model, handler, dict(data, **new))
        same_charges(m, before, after, everywhere, kind, name, keys)
        return after
    # no pulses, some pulses, more pulses, other pulses
    vary('removed pulses', x_pulses=data['x_pulses'][:0],
         x_pulses_ids=data['x_pulses_ids'][:0])
    keep = rng.rand(len(data['x_pulses'])) < 0.5
    half = vary('removed pulses', x_pulses=data['x_pulses'][keep],
                x_pulses_ids=data['x_pulses_ids'][keep])
    for key in ('pulse_pdf', 'pulse_quantile_pdf'):
        if key in before:
            m.close(half[key], before[key][keep], 'pulse-pdf', 'PDF of a '
                    'pulse depends on other pulses', rtol=2e-4, atol=1e-8)
    vary('repeated pulses', x_pulses=np.repeat(data['x_pulses'], 2, axis=0),
         x_pulses_ids=np.repeat(data['x_pulses_ids'], 2, axis=0))
    if not quant:
        later = data['x_pulses'].copy()
        later[:, 1] += rng.uniform(-500, 500, len(later))
        later[:, 0] *= 3
        vary('pulse times', x_pulses=later.astype(np.float32))
        charge = data['x_dom_charge'] * 4 + (rng.rand(n, 86, 60, 1) < 0.3)
        vary('measured charges', x_dom_charge=charge.astype(np.float32))
    vary('time window', x_time_window=data['x_time_window']) \
        if kind in ('noise', 'independent') else \
        vary('time window', x_time_window=(
            data['x_time_window'] + np.array([-50, 400])).astype(np.float32))


def case_exclusions(m, rng, kind):
    handler, model, sampler = md.any_model(kind, rng)
    n = 2
    windows = md.has_windows(handler)
    data = md.make_batch(rng, sampler(n), quantiles=kind == 'quantile',
                         time_exclusions=windows, mean_pulses=20)
    before = md.evaluate(model, handler, data)
    excl = data['x_dom_exclusions'].copy()
    hit = rng.rand(*excl.shape) < 0.3
    excl[hit] = ~excl[hit]
    after = md.evaluate(model, handler, dict(data, x_dom_exclusions=excl))
    m.event('exclusion_variations')
    m.saw('variations', (kind, 'excluded DOMs'))
    same_charges(m, before, after, excl == data['x_dom_exclusions'], kind,
                 'the exclusion of other DOMs')
    if not windows:
        return
    doms = [(int(rng.randint(n)), int(rng.randint(86)), int(rng.randint(60)))
            for _ in range(12)]
    taken = set(tuple(i) for i in data['x_time_exclusions_ids'])
    doms = [d for d in sorted(set(doms)) if d not in taken]
    tw = data['x_time_window']
    rows = [[tw[d[0], 0] + 100, tw[d[0], 0] + 2000] for d in doms]
    more = dict(data, x_time_exclusions=np.concatenate(
        [data['x_time_exclusions'], np.array(rows, np.float32).reshape(
            -1, 2)]), x_time_exclusions_ids=np.concatenate(
                [data['x_time_exclusions_ids'],
                 np.array(doms, np.int32).reshape(-1, 3)]))
    after = md.evaluate(model, handler, more)
    m.event('exclusion_variations')
    m.saw('variations', (kind, 'windows elsewhere'))
    others = np.ones((n, 86, 60, 1), bool)
    for d in doms:
        others[d] = False
    same_charges(m, before, after, others, kind, 'windows of other DOMs',
                 ('dom_charges', 'dom_cdf_exclusion_sum'))
    for d in doms:
        # windows can only reduce the expected charge
        m.check(after['dom_charges'][d][0] <= before['dom_charges'][d][0]
                * 1.002 + 1e-9, 'window-charge', 'an exclusion window '
                'increases the expected charge',
                observed=after['dom_charges'][d][0],
                expected=before['dom_charges'][d][0])


def cases(tier):
    out = []
    for kind in md.KINDS:
        out.append(Case('shift_' + kind, case_shift, reps=1,
                        reps_thorough=20, kind=kind))
        out.append(Case('pulses_' + kind, case_pulses, reps=1,
                        reps_thorough=20, kind=kind))
        out.append(Case('exclusions_' + kind, case_exclusions, reps=1,
                        reps_thorough=20, kind=kind))
    return out
