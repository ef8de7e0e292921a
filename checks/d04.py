import os

import numpy as np

from vh.core import Case, scratch
from vh import events as ev

RULE = ('a case is one synthetic HDF file (1-12 events with 0-120 pulses, '
        'IceTop rows, DOM and time exclusions, missing tables) read with one '
        'reader configuration and compared row by row with the event records '
        'it was written from; memory is pre-filled with a pattern so that '
        'uninitialised values are recognised')
ASSUMPTIONS = ['events of a file are unique in (Run, Event, SubEvent, '
               'SubEventStream); tables have the column layout of the IceCube '
               'table writer']
BUDGET = {'quick': 14, 'thorough': 400}
REQUIRE = {'pulses_compared': 1000, 'icetop_rows_skipped': 20,
           'time_exclusions_compared': 20, 'excluded_doms_compared': 50,
           'discarded_pulses': 5, 'files_without_time_exclusions': 1,
           'files_without_dom_exclusions': 1, 'empty_events': 5}


def poison():
    """Make recycled memory recognisable (np.empty shows garbage)."""
    keep = [np.full(n, 7.77e7, dtype=np.float32)
            for n in (16, 64, 256, 1024, 4096, 16384, 65536) for _ in
            range(4)]
    del keep


def bad_doms():
    from egenerator.utils import detector
    return np.asarray(detector.bad_doms_mask).astype(bool).reshape(86, 60)


def expected_exclusions(event, use_list):
    mask = bad_doms().copy()
    if use_list:
        for s, o in event['dom_exclusions']:
            if o <= 60:
                mask[s - 1, o - 1] = False
    return mask


def expected_pulses(event, discard_mask=None):
    out = []
    totals = {}
    cums = []
    for s, o, t, q in event['pulses']:
        if o > 60:
            continue
        totals[(s, o)] = totals.get((s, o), 0.) + q
        cums.append(totals[(s, o)])
        out.append((s - 1, o - 1, q, t))
    rows = []
    for (s, o, q, t), cum in zip(out, cums):
        if discard_mask is not None and not discard_mask[s, o]:
            continue
        rows.append((s, o, q, t, cum / totals[(s + 1, o + 1)]))
    return rows, totals


def verify(m, tag, events, settings, num, data, tensors, has_doms=True,
           has_tws=True, first=0):
    """Compare tensors of a batch with the event records."""
    get = {n: data[i] for i, n in enumerate(tensors.names)}
    dtype = np.dtype(settings['float_precision'])
    m.equal(int(num), len(events), 'num-events', tag=tag)
    dim = 3 if settings['add_charge_quantiles'] else 2
    pulses, ids = np.asarray(get['x_pulses']), np.asarray(get['x_pulses_ids'])
    ok = m.check(pulses.ndim == 2 and pulses.shape[1] == dim
                 and ids.shape == (len(pulses), 3), 'pulse-shape',
                 'x_pulses {} x_pulses_ids {}'.format(pulses.shape,
                                                      ids.shape), tag=tag)
    if not ok:
        return
    m.equal(str(pulses.dtype), str(dtype), 'pulse-dtype', tag=tag)
    m.equal(str(ids.dtype), 'int32', 'pulse-ids-dtype', tag=tag)
    use_doms = settings['dom_exclusions_key'] is not None
    use_tws = settings['time_exclusions_key'] is not None
    discard = settings['discard_pulses_from_excluded_doms'] and use_doms
    n_seen = 0
    for i, e in enumerate(events):
        mask = expected_exclusions(e, has_doms) if use_doms else None
        rows, totals = expected_pulses(e, mask if discard else None)
        all_rows, _ = expected_pulses(e)
        m.event('icetop_rows_skipped', len(e['pulses']) - len(all_rows))
        m.event('discarded_pulses', len(all_rows) - len(rows))
        m.event('pulses_compared', len(rows))
        m.event('empty_events', int(len(all_rows) == 0))
        sel = ids[:, 0] == i
        n_seen += int(sel.sum())
        got = [(int(a[1]), int(a[2])) + tuple(float(v) for v in p)
               for a, p in zip(ids[sel], pulses[sel])]
        want = [(s, o, float(dtype.type(q)), float(dtype.type(t)), qu)
                for s, o, q, t, qu in rows]
        m.equal([g[:4] for g in got], [w[:4] for w in want], 'pulses',
                tag=tag, event=i, settings=settings)
        if dim == 3 and len(got) == len(want):
            m.close([g[4] for g in got], [w[4] for w in want], 'quantiles',
                    rtol=2e-5, atol=2e-6, tag=tag, event=i)
        charge = np.zeros((86, 60, 1))
        for (s, o), q in totals.items():
            charge[s - 1, o - 1, 0] = q
        m.close(get['x_dom_charge'][i], charge, 'dom-charge', rtol=1e-5,
                atol=1e-6, tag=tag, event=i)
        if all_rows:
            t = [r[3] for r in all_rows]
            m.close(get['x_time_window'][i],
                    np.array([min(t), max(t)], dtype=dtype), 'time-window',
                    rtol=1e-7, atol=0, tag=tag, event=i)
        if use_doms:
            m.event('excluded_doms_compared',
                    int((~mask & bad_doms()).sum()))
            m.array_equal(get['x_dom_exclusions'][i][..., 0], mask,
                          'dom-exclusions', tag=tag, event=i)
        if use_tws:
            tws = [(s - 1, o - 1, float(dtype.type(a)), float(dtype.type(b)))
                   for s, o, a, b in e['time_exclusions'] if o <= 60] \
                if has_tws else []
            tid = np.asarray(get['x_time_exclusions_ids'])
            tv = np.asarray(get['x_time_exclusions'])
            if not m.check(tid.ndim == 2 and tid.shape[1] == 3
                           and tv.shape == (len(tid), 2),
                           'time-exclusion-shape', tag=tag,
                           observed=(tv.shape, tid.shape)):
                continue
            s2 = tid[:, 0] == i
            m.event('time_exclusions_compared', len(tws))
            m.equal([(int(a[1]), int(a[2]), float(v[0]), float(v[1]))
                     for a, v in zip(tid[s2], tv[s2])], tws,
                    'time-exclusions', tag=tag, event=i)
    m.equal(n_seen, len(pulses), 'unassigned-pulses', 'pulse rows that belong '
            'to no event', tag=tag)
    if use_tws:
        tid = np.asarray(get['x_time_exclusions_ids'])
        if tid.ndim == 2 and tid.shape[1:] == (3,):
            m.check(len(tid) == 0 or (tid[:, 0].min() >= 0 and
                                      tid[:, 0].max() < len(events)),
                    'unassigned-time-exclusions', observed=tid[:, 0], tag=tag)
    if not use_doms:
        m.check(get['x_dom_exclusions'] is None
                or np.ndim(get['x_dom_exclusions']) == 0,
                'exclusions-without-key', tag=tag)
    else:
        m.equal(str(np.asarray(get['x_dom_exclusions']).dtype), 'bool',
                'dom-exclusions-dtype', tag=tag)
    m.check(bool(np.all(np.isfinite(pulses))), 'uninitialised',
            'non-finite pulse data', tag=tag, observed=pulses)
    m.saw('layout', (tag, len(events), len(pulses), tuple(
        len(e['pulses']) for e in events)))
    m.sample(tag=tag, settings=settings, n_events=len(events),
             n_pulses=len(pulses))


def random_settings(rng):
    return ev.data_settings(
        float_precision=str(rng.choice(['float32', 'float64'])),
        add_charge_quantiles=bool(rng.rand() < 0.4),
        discard_pulses_from_excluded_doms=bool(rng.rand() < 0.4),
        dom_exclusions_key='BadDomsList' if rng.rand() < 0.8 else None,
        time_exclusions_key='TimeExclusions' if rng.rand() < 0.7 else None)


def random_events(rng, max_events=12):
    n = int(rng.choice([1, 2, 5, max_events]))
    return ev.make_events(rng, n, icetop=float(rng.choice([0., 0.15, 0.5])),
                          dyadic=bool(rng.rand() < 0.7))


def run_file(m, rng, settings, events, has_doms=True, has_tws=True, tag=''):
    path = os.path.join(scratch(), 'd04_{}.hdf5'.format(rng.randint(2**31)))
    ev.write_hdf(path, events, write_doms=has_doms, write_tws=has_tws)
    handler = ev.make_handler(ev.handler_config(data=settings))
    poison()
    num, data = m.call('read-hdf', handler.get_data_from_hdf, path)
    if m.check(num is not None, 'file-declined', 'valid file was skipped',
               settings=settings, tag=tag):
        verify(m, tag, events, settings, num, data, handler.tensors,
               has_doms, has_tws)
    m.event('files')
    os.remove(path)


def case_random(m, rng, n):
    for _ in range(n):
        run_file(m, rng, random_settings(rng), random_events(rng),
                 tag='random')


def case_missing_tables(m, rng):
    for has_doms, has_tws in [(True, False), (False, True), (False, False)]:
        m.event('files_without_time_exclusions', int(not has_tws))
        m.event('files_without_dom_exclusions', int(not has_doms))
        for discard in [False, True]:
            settings = ev.data_settings(
                discard_pulses_from_excluded_doms=discard)
            # pulses at bad DOMs exist
            events = random_events(rng)
            bad = np.argwhere(~bad_doms())
            for e in events:
                for _ in range(3):
                    s, o = bad[rng.randint(len(bad))]
                    e['pulses'].append((int(s) + 1, int(o) + 1, 9999.5, 0.5))
                e['pulses'].sort(key=lambda p: p[:3])
            run_file(m, rng, settings, events, has_doms, has_tws,
                     tag='missing-tables')


def case_hostile(m, rng):
    # only IceTop pulses, only empty events but one, many pulses at one DOM,
    # all rows of the exclusion tables above DOM 60
    base = dict(dom_exclusions=[], time_exclusions=[])
    for kind in ['icetop-first', 'one-dom', 'late-event', 'icetop-exclusions',
                 'event-order']:
        events = ev.make_events(rng, 4, icetop=0., exclusions=True)
        for e in events:
            if kind == 'icetop-first':
                e['pulses'] = [(1, 61, 5., 3.), (1, 64, 6., 2.)] + \
                    e['pulses']
            elif kind == 'one-dom':
                e['pulses'] = [(17, 23, 10000. + k, 0.125 * (k % 5 + 1))
                               for k in range(200)]
            elif kind == 'late-event':
                e['pulses'] = []
            elif kind == 'icetop-exclusions':
                e['dom_exclusions'] = [(5, 61), (6, 64)]
                e['time_exclusions'] = [(5, 61, 1., 2.), (7, 3, 4., 5.)]
        if kind == 'late-event':
            events[-1]['pulses'] = [(86, 60, 1.5, 2.5)]
        if kind == 'event-order':
            events = events[::-1]
        for quant in [False, True]:
            run_file(m, rng, ev.data_settings(add_charge_quantiles=quant),
                     events, tag='hostile:' + kind)
        del base
        base = None


def case_keys(m, rng):
    """Pulses of the requested key are loaded, not those of another one."""
    events = random_events(rng)
    other = ev.make_events(rng, len(events))
    for e, o in zip(events, other):
        o['key'] = e['key']
    path = os.path.join(scratch(), 'd04_keys.hdf5')
    ev.write_hdf(path, other, pulse_key='Other', dom_key='OtherDoms',
                 tw_key='OtherTws')
    import pandas as pd
    p2 = os.path.join(scratch(), 'd04_keys2.hdf5')
    ev.write_hdf(p2, events, pulse_key='Mine', dom_key='MyDoms',
                 tw_key='MyTws')
    with pd.HDFStore(path, 'a') as dst, pd.HDFStore(p2, 'r') as src:
        for k in ['Mine', 'MyDoms', 'MyTws', 'LabelsDeepLearning']:
            dst[k] = src[k]
    settings = ev.data_settings(pulse_key='Mine', dom_exclusions_key='MyDoms',
                                time_exclusions_key='MyTws')
    handler = ev.make_handler(ev.handler_config(data=settings))
    num, data = m.call('read-hdf', handler.get_data_from_hdf, path)
    if m.check(num is not None, 'file-declined'):
        verify(m, 'keys', events, settings, num, data, handler.tensors)
    # a file without the pulse key is declined as a whole
    num, data = m.call('read-hdf', ev.make_handler(ev.handler_config(
        data=ev.data_settings(pulse_key='Nope'))).get_data_from_hdf, path)
    m.check(num is None and data is None, 'missing-pulses-not-declined',
            observed=(num, data))


def cases(tier):
    return [
        Case('hostile', case_hostile, reps=1, reps_thorough=10),
        Case('missing_tables', case_missing_tables, reps=1,
             reps_thorough=10),
        Case('keys', case_keys, reps=1, reps_thorough=10),
        Case('random', case_random, reps=6, reps_thorough=200, n=6),
    ]
