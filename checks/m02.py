"""M02: time PDFs are normalised outside of the excluded windows."""
import numpy as np
from scipy import special

from vh.core import Case
from vh import models as md

RULE = ('the real models are evaluated with pulses on a dense time grid at '
        'some DOMs of every event, once without and once with excluded '
        'windows (none, one, several, touching, covering nothing, covering '
        'everything); the integral of the PDF over time, the integral over '
        'the windows and the shape given by the reported latent variables '
        'are compared with an independent asymmetric Gaussian mixture; '
        'distinct = (model, number of windows, kind of window)')
ASSUMPTIONS = ['exclusion windows of a DOM do not overlap each other',
               'every mixture component is renormalised by its own allowed '
               'fraction plus 0.001, as documented in the code']
BUDGET = {'quick': 14, 'thorough': 500}
REQUIRE = {'integrals': 80, 'windows': 40, 'shapes': 30, 'multi': 16}

STEP = 10.          # ns
KINDS = ('cascade', 'systematic', 'segment', 'quantile')


def ag_cdf(x, mu, sigma, r):
    x, mu, sigma, r = np.broadcast_arrays(x, mu, sigma, r)
    left = (1 + special.erf((x - mu) / np.sqrt(2) / sigma)) / (1 + r)
    right = (1 + r * special.erf((x - mu) / np.sqrt(2) / sigma / r)) / (1 + r)
    return np.where(x < mu, left, right)


def ag_pdf(x, mu, sigma, r):
    width = np.where(x < mu, sigma, sigma * r)
    return np.exp(-0.5 * ((x - mu) / width)**2) * np.sqrt(2 / np.pi) / (
        sigma * (1 + r))


def grid_batch(data, doms, grids, quantile=None):
    """Batch with pulses at the times of the grid of every (event, DOM)."""
    pulses, ids = [], []
    for (i, s, o), grid in zip(doms, grids):
        for k, t in enumerate(grid):
            row = [1., t]
            if quantile is not None:
                row.append(quantile)
            pulses.append(row)
            ids.append([i, s, o])
    charge = data['x_dom_charge'].copy()
    for dom in doms:
        charge[dom] = 7.        # there are pulses at these DOMs
    return dict(data, x_dom_charge=charge,
                x_pulses=np.array(pulses, np.float32),
                x_pulses_ids=np.array(ids, np.int32))


def trapz(y, x):
    return np.sum((y[1:] + y[:-1]) * np.diff(x)) / 2


def integrate(pdf, t, windows=()):
    """Integral of a function sampled at t outside and inside of windows."""
    inside = np.zeros(len(t) - 1, bool)
    mid = (t[1:] + t[:-1]) / 2
    for a, b in windows:
        inside |= (mid > a) & (mid < b)
    steps = np.diff(t) * 1e-3 * (pdf[1:] + pdf[:-1]) / 2
    return steps[~inside].sum(), steps[inside].sum()


def pick_doms(rng, n, per_event):
    return [(i, int(rng.randint(86)), int(rng.randint(60)))
            for i in range(n) for _ in range(per_event)]


def random_windows(rng, lo, hi, how):
    """Non-overlapping windows in the region [lo, hi] of the light."""
    if how == 'none':
        return []
    if how == 'all':
        return [[lo - 20000, hi + 20000]]
    if how == 'before':
        return [[lo - 9000, lo - 8000]]
    if how == 'touching':
        a, b, c = np.sort(rng.uniform(lo, hi, 3))
        return [[a, b], [b, c]]
    if how == 'open':
        return [[lo - 20000, rng.uniform(lo, hi)]]
    k = {'one': 1, 'many': int(rng.randint(3, 6)), 'two': 2}[how]
    edges = np.sort(rng.uniform(lo, hi, 2 * k))
    return [[edges[2 * j], edges[2 * j + 1]] for j in range(k)]


def with_windows(data, doms, windows):
    rows, ids = [], []
    for dom, wins in zip(doms, windows):
        for w in wins:
            rows.append(w)
            ids.append(dom)
    return dict(data,
                x_time_exclusions=np.array(rows, np.float32).reshape(-1, 2),
                x_time_exclusions_ids=np.array(ids, np.int32).reshape(-1, 3))


def support(model, handler, data, doms, rng, key='pulse_pdf', quantile=None):
    """Region with the light of every DOM from a coarse scan."""
    coarse = np.arange(-30000., 60000., 100.)
    base = with_windows(data, doms, [[] for _ in doms])
    out = md.evaluate(model, handler, grid_batch(
        base, doms, [coarse] * len(doms), quantile))[key]
    out = out.reshape(len(doms), len(coarse))
    grids = []
    for row in out:
        used = coarse[row > 1e-6 * max(row.max(), 1e-30)]
        grids.append((used.min() - 300, used.max() + 300))
    return grids


def case_single(m, rng, kind):
    windows_on = {'cascade': True}.get(kind)
    handler, model, sampler = md.build(
        kind, rng, randomized=rng.uniform(0.05, 0.3),
        time_exclusions=windows_on)
    quantile = float(rng.uniform(0.05, 1.)) if kind == 'quantile' else None
    key = 'pulse_quantile_pdf' if kind == 'quantile' else 'pulse_pdf'
    n = 2
    data = md.make_batch(rng, sampler(n), quantiles=kind == 'quantile',
                         time_exclusions=bool(windows_on))
    doms = pick_doms(rng, n, 3)
    regions = support(model, handler, data, doms, rng, key, quantile)
    if windows_on:
        hows = [['none', 'one', 'two', 'many', 'touching', 'open', 'all',
                 'before'][j] for j in rng.permutation(8)[:len(doms)]]
    else:
        hows = ['none'] * len(doms)
    wins = [random_windows(rng, lo, hi, how)
            for (lo, hi), how in zip(regions, hows)]
    grids = []
    for (lo, hi), win in zip(regions, wins):
        edges = np.array([e for w in win for e in w
                          if lo - 1 <= e <= hi + 1])
        # the model sees single precision numbers
        grids.append(np.unique(np.concatenate(
            [np.arange(lo, hi, STEP), edges]).astype(np.float32)).astype(
                float))
    wins = [[[float(np.float32(a)), float(np.float32(b))] for a, b in w]
            for w in wins]
    free = with_windows(data, doms, [[] for _ in doms])
    f0 = md.evaluate(model, handler, grid_batch(free, doms, grids, quantile))
    cut = with_windows(data, doms, wins)
    f1 = md.evaluate(model, handler, grid_batch(cut, doms, grids, quantile)) \
        if windows_on else f0
    pos = 0
    for dom, grid, win, how in zip(doms, grids, wins, hows):
        sl = slice(pos, pos + len(grid))
        pos += len(grid)
        pdf0, pdf1 = f0[key][sl].astype(float), f1[key][sl].astype(float)
        m.event('integrals')
        total, _ = integrate(pdf0, grid)
        m.close(total, 1., 'normalization', 'integral of the PDF at DOM {} '
                'without windows ({})'.format(dom, kind), rtol=5e-3)
        if kind == 'quantile':
            m.saw('doms', (kind, how))
            continue
        # the mixture described by the reported latent variables
        mu, sigma, r, w = [f0['latent_var_' + v][dom].astype(float) for v in
                           ('mu', 'sigma', 'r', 'scale')]
        m.close(w.sum(), 1., 'scale-sum', 'weights of the mixture', rtol=1e-4)
        mean = np.sum(w * (mu + np.sqrt(2 / np.pi) * sigma * (r - 1)))
        offset = trapz(pdf0 * grid, grid) * 1e-6 / total - mean
        x = grid[:, None] * 1e-3 - offset
        want = ag_pdf(x, mu, sigma, r) @ w
        m.event('shapes')
        m.close(pdf0, want, 'shape', 'PDF at DOM {} differs from its latent '
                'variables'.format(dom), rtol=2e-2,
                atol=5e-3 * want.max())
        if not windows_on:
            m.saw('doms', (kind, how))
            continue
        m.event('windows', max(1, len(win)))
        m.saw('doms', (kind, how, len(win)))
        e = np.zeros_like(mu)
        for a, b in win:
            e += ag_cdf(b * 1e-3 - offset, mu, sigma, r) - ag_cdf(
                a * 1e-3 - offset, mu, sigma, r)
        m.close(f1['dom_cdf_exclusion_sum'][dom][0], np.sum(w * e),
                'exclusion', 'excluded fraction of DOM {} ({})'.format(
                    dom, how), rtol=2e-3, atol=3e-3)
        outside, inside = integrate(pdf0, grid, win)
        m.close(inside, f1['dom_cdf_exclusion_sum'][dom][0],
                'exclusion-integral', 'integral over the windows ({})'.format(
                    how), rtol=5e-3, atol=5e-3)
        outside, _ = integrate(pdf1, grid, win)
        reported = np.clip(e, 0, 1)
        expected = np.sum(w * (1 - reported) / (1 - reported + 0.001))
        slack = 4e-3 + np.sum(w * np.minimum(
            1, 2e-4 / (1 - reported + 0.001)))
        m.close(outside, expected, 'normalization-windows',
                'integral of the PDF outside of {} windows ({}) at DOM '
                '{}'.format(len(win), how, dom), rtol=0, atol=slack)
        m.check(outside < 1 + slack, 'normalization-above', 'PDF with '
                'windows integrates to more than one', observed=outside)
    # the rest of the detector is not affected
    others = np.ones(f0['dom_cdf_exclusion_sum'].shape, bool) \
        if windows_on else None
    if windows_on:
        for dom in doms:
            others[dom] = False
        m.check(np.all(f1['dom_cdf_exclusion_sum'][others] == 0),
                'exclusion-elsewhere', 'DOMs without windows have an '
                'excluded fraction')


def case_noise(m, rng):
    handler, model, sampler = md.build('noise', rng, time_exclusions=True)
    n = 2
    data = md.make_batch(rng, sampler(n))
    doms = pick_doms(rng, n, 4)
    tw = data['x_time_window'].astype(float)
    wins, hows, grids = [], [], []
    for i, s, o in doms:
        how = ['none', 'one', 'two', 'many', 'touching', 'open', 'all',
               'before'][rng.randint(8)]
        win = random_windows(rng, tw[i, 0], tw[i, 1], how)
        wins.append([[float(np.float32(a)), float(np.float32(b))]
                     for a, b in win])
        hows.append(how)
        edges = [e for w in wins[-1] for e in w
                 if tw[i, 0] <= e <= tw[i, 1]]
        grids.append(np.unique(np.concatenate(
            [np.linspace(tw[i, 0], tw[i, 1], 50), edges])))
    cut = with_windows(data, doms, wins)
    out = md.evaluate(model, handler, grid_batch(cut, doms, grids))
    pos = 0
    for dom, grid, win, how in zip(doms, grids, wins, hows):
        pdf = out['pulse_pdf'][pos:pos + len(grid)].astype(float)
        pos += len(grid)
        m.event('integrals')
        m.event('windows', max(1, len(win)))
        m.saw('doms', ('noise', how, len(win)))
        t0, t1 = tw[dom[0]]
        e = sum(max(0, min(b, t1) - max(a, t0)) for a, b in win) / (t1 - t0)
        m.close(out['dom_cdf_exclusion_sum'][dom][0], e, 'exclusion',
                'excluded fraction of the noise ({})'.format(how), rtol=1e-3,
                atol=1e-3)
        outside, _ = integrate(pdf, grid, win)
        m.close(outside, (1 - e) / (1 - e + 0.001), 'normalization-windows',
                'integral of the noise PDF ({})'.format(how), rtol=0,
                atol=3e-3 + 2e-4 / (1 - e + 0.001))


def case_multi(m, rng, kind):
    """Superpositions are normalised as well."""
    handler, model, sampler = md.build_multi(
        kind, rng, n_sources=int(rng.randint(2, 4)),
        time_exclusions=kind != 'stochastic')
    n = 2
    data = md.make_batch(rng, sampler(n),
                         time_exclusions=kind != 'stochastic')
    noise = kind == 'independent' and 'noise' in str(
        model.configuration.config.get('config', ''))
    doms = pick_doms(rng, n, 4)
    free = with_windows(data, doms, [[] for _ in doms])
    tw = data['x_time_window'].astype(float)
    if noise:
        # long enough to contain all light
        free['x_time_window'] = np.array([[-30000, 60000]] * n, np.float32)
        regions = [(-30000., 60000.)] * len(doms)
        step = 30.
    else:
        regions = support(model, handler, free, doms, rng)
        step = STEP
    grids = [np.arange(lo, hi + step, step) for lo, hi in regions]
    out = md.evaluate(model, handler, grid_batch(free, doms, grids))
    pos = 0
    for dom, grid in zip(doms, grids):
        pdf = out['pulse_pdf'][pos:pos + len(grid)].astype(float)
        pos += len(grid)
        m.event('multi')
        m.saw('doms', (kind, 'none'))
        total, _ = integrate(pdf, grid)
        charge = float(out['dom_charges'][dom][0])
        m.close(total, charge / (charge + 1e-6), 'normalization',
                'integral of the PDF of several sources ({}) at {}'.format(
                    kind, dom), rtol=5e-3, atol=1e-3, charge=charge)
    if kind == 'stochastic' or noise:
        return
    # windows: reported fraction = integral over the windows
    wins = [random_windows(rng, lo, hi, ['one', 'two', 'many', 'touching'][
        rng.randint(4)]) for lo, hi in regions]
    wins = [[[float(np.float32(a)), float(np.float32(b))] for a, b in w]
            for w in wins]
    grids = [np.unique(np.concatenate([g, np.ravel(w)])) for g, w in
             zip(grids, wins)]
    cut = md.evaluate(model, handler, grid_batch(
        with_windows(data, doms, wins), doms, grids))
    pos = 0
    for dom, grid, win in zip(doms, grids, wins):
        pdf = cut['pulse_pdf'][pos:pos + len(grid)].astype(float)
        pos += len(grid)
        m.event('multi')
        m.event('windows', len(win))
        m.saw('doms', (kind, 'windows', len(win)))
        outside, _ = integrate(pdf, grid, win)
        e = float(cut['dom_cdf_exclusion_sum'][dom][0])
        m.check(outside < 1.005, 'normalization-above', 'PDF of several '
                'sources with windows integrates to more than one',
                observed=outside)
        if e < 0.5:
            m.check(outside > 0.98 - 0.2 * e, 'normalization-windows',
                    'PDF of several sources with windows',
                    observed=outside, excluded=e)


def cases(tier):
    out = [Case('single_' + k, case_single, reps=6 if k == 'cascade' else 2,
                reps_thorough=40, kind=k) for k in KINDS]
    out.append(Case('noise', case_noise, reps=3, reps_thorough=40))
    for k in md.MULTI:
        out.append(Case('multi_' + k, case_multi, reps=3, reps_thorough=30,
                        kind=k))
    return out
