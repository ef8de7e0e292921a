"""R04: the spherical minimiser returns the best point it has evaluated."""
import numpy as np

from vh.core import Case

RULE = ('random smooth objectives with random numbers of directions and '
        'further coordinates are minimised by both methods with random '
        'batch sizes, thresholds and limits; every evaluation is recorded '
        'and the returned point, value, counters, spreads and stopping '
        'reason are decided on the recorded history; helpers are compared '
        'with vector geometry in double precision; distinct = (method, '
        'directions, other coordinates, batch size, stopping reason)')
ASSUMPTIONS = ['starting points are given in double precision; angles are '
               'kept in single precision by the minimiser',
               'the objective is a function of the direction only (periodic '
               'in the azimuth) and returns finite values']
BUDGET = {'quick': 14, 'thorough': 300}
REQUIRE = {'runs': 40, 'simplex': 20, 'evaluations': 4000, 'converged': 8, 'helpers': 200,
           'stop_0': 3, 'stop_1': 5, 'stop_2': 1, 'stop_3': 5}


def unit(az, zen):
    return np.stack([np.sin(zen) * np.cos(az), np.sin(zen) * np.sin(az),
                     np.cos(zen)], axis=-1)


def angle(a, b):
    return 2 * np.arctan2(np.linalg.norm(a - b, axis=-1),
                          np.linalg.norm(a + b, axis=-1))


class Objective:
    """smooth function with a known minimum which records its evaluations"""

    def __init__(self, rng, n_sph, n_cart, vector):
        n = 2 * n_sph + n_cart
        order = rng.permutation(n)
        self.pairs = [[int(order[2 * i]), int(order[2 * i + 1])]
                      for i in range(n_sph)]
        self.carts = sorted(int(i) for i in order[2 * n_sph:])
        special = [(0., 0.), (0., np.pi), (0., 1.), (2 * np.pi - 1e-3, 2.)]
        self.targets = []
        for _ in range(n_sph):
            if rng.rand() < 0.6:
                self.targets.append(unit(*special[rng.randint(4)]))
            else:
                v = rng.normal(size=3)
                self.targets.append(v / np.linalg.norm(v))
        self.center = rng.normal(0, 3, n_cart)
        self.scale = 10**rng.uniform(-1, 1, n_cart)
        self.weight = rng.uniform(2., 20, n_sph)
        self.offset = rng.normal(0, 5)
        self.vector = vector
        self.n = n
        self.x = []
        self.f = []

    def value(self, x):
        out = np.full(len(x), self.offset)
        for (a, z), t, w in zip(self.pairs, self.targets, self.weight):
            out += w * (1 - unit(x[:, a], x[:, z]) @ t)
        for i, c, s in zip(self.carts, self.center, self.scale):
            out += 0.5 * ((x[:, i] - c) / s)**2
        return out

    def __call__(self, x):
        x = np.array(x, dtype=np.float64)
        y = np.atleast_2d(x)
        f = self.value(y)
        self.x.extend(y)
        self.f.extend(f)
        return f if x.ndim == 2 else f[0]

    def start(self, rng, k, spread=3.):
        x = np.empty([k, self.n])
        for a, z in self.pairs:
            x[:, a] = rng.uniform(0, 2 * np.pi, k)
            x[:, z] = np.arccos(rng.uniform(-1, 1, k))
        for i, c, s in zip(self.carts, self.center, self.scale):
            x[:, i] = rng.normal(c + s, spread * s, k)
        return x


def spreads(obj, simplex):
    """spread of the points about their mean direction, and of the rest"""
    out = []
    for a, z in obj.pairs:
        v = unit(simplex[:, a], simplex[:, z])
        c = v.mean(axis=0)
        c /= np.linalg.norm(c)
        d = angle(v, c[None])
        out.append(np.sqrt((d**2).sum() / (len(d) - 1)))
    return np.array(out), simplex[:, obj.carts].std(axis=0)


def run(m, rng, method, n_sph, n_cart, batch_size=1, **kw):
    from egenerator.utils.spherical_opt import spherical_opt
    obj = Objective(rng, n_sph, n_cart, batch_size > 1)
    if method == 'CRS2':
        k = max(int(rng.choice([10, 12]) * obj.n), batch_size * obj.n + 1)
    else:
        k = obj.n + 1
    x0 = obj.start(rng, k)
    keep = x0.copy()
    seed = int(rng.randint(1 << 30))
    settings = dict(method=method, initial_points=x0, meta=True,
                    spherical_indices=obj.pairs, batch_size=batch_size, **kw)
    res = m.call('run', spherical_opt, obj,
                 rand=np.random.default_rng(seed), **settings)
    x, f = np.array(obj.x), np.array(obj.f)
    m.event('runs')
    m.event('evaluations', len(f))
    stop = res['stopping_flag']
    m.event('stop_{}'.format(stop))
    m.saw('runs', (method, n_sph, n_cart, batch_size, stop))
    what = '{} {}+{} b{} {}'.format(method, n_sph, n_cart, batch_size, kw)
    m.array_equal(x0, keep, 'input', 'starting points ' + what)
    m.array_equal(x[:k], keep, 'start', 'first evaluations ' + what)
    m.equal(int(res['n_calls']), len(f), 'calls', 'number of calls ' + what)
    # proposed points
    m.check(np.isfinite(x).all(), 'proposal', 'points which are not finite '
            + what)
    for a, z in obj.pairs:
        new = x[k:]
        m.check((new[:, z] >= 0).all() and (new[:, z] <= np.pi + 1e-6).all()
                and (new[:, a] >= 0).all()
                and (new[:, a] <= 2 * np.pi + 1e-6).all(), 'proposal',
                'angles outside of their range ' + what)
    # result
    m.equal(float(res['fun']), float(f.min()), 'best', 'value ' + what)
    m.equal(float(obj.value(np.atleast_2d(res['x']))[0]), float(res['fun']),
            'best', 'function at the returned point ' + what)
    m.check((x == res['x']).all(axis=1).any(), 'best',
            'returned point was never evaluated ' + what)
    sx, sf = res['final_simplex']
    m.array_equal(obj.value(sx), sf, 'simplex', 'values of the final points '
                  + what)
    m.equal(float(np.min(sf)), float(f.min()), 'simplex', 'best of the final '
            'points ' + what)
    m.equal(bool(res['success']), stop > 0, 'flag', 'success ' + what)
    # limits and reasons
    max_calls = kw.get('max_calls')
    per_step = 2 * batch_size if method == 'CRS2' else k + 1
    if max_calls:
        m.check(len(f) < max(max_calls, k + 1) + per_step, 'limit',
                'too many calls ' + what, calls=len(f))
    m.check(res['nit'] <= kw.get('max_iter', 10000), 'limit',
            'too many iterations ' + what)
    sph, cart = spreads(obj, sx)
    meta = res['meta']
    m.close(meta['fstd'], np.std(sf), 'spread', 'of values ' + what,
            rtol=1e-9, atol=1e-12)
    m.close(meta['cstd'], cart, 'spread', 'of coordinates ' + what,
            rtol=1e-6, atol=1e-12)
    m.close(meta['sstd'], sph, 'spread', 'of directions ' + what,
            rtol=2e-3, atol=2e-3)
    fthr = kw.get('fstdthresh', 1e-1)
    if stop == 1:
        m.check(np.std(sf) < fthr, 'reason', 'spread of values ' + what)
    elif stop == 2:
        m.check(meta['no_improvement_counter'] > kw['max_noimprovement'],
                'reason', 'improvement ' + what)
    elif stop == 3:
        for thr, have, tol in [(kw.get('cstdthresh'), cart, 1e-9),
                               (kw.get('sstdthresh'), sph, 2e-3)]:
            for t, h in zip(thr if thr is not None else [], have):
                m.check(t <= 0 or h < t + tol, 'reason', 'stopped at a '
                        'spread {} above the threshold {} {}'.format(
                            h, t, what))
    elif stop == 0:
        m.check(max_calls is not None and len(f) >= max_calls, 'reason',
                'calls ' + what)
    else:
        m.equal(int(res['nit']), kw.get('max_iter', 10000), 'reason',
                'iterations ' + what)
    # the same random numbers give the same result
    if rng.rand() < 0.3:
        again = Objective.__new__(Objective)
        again.__dict__.update(obj.__dict__)
        again.x, again.f = [], []
        settings['initial_points'] = keep.copy()
        res2 = m.call('rerun', spherical_opt, again,
                      rand=np.random.default_rng(seed), **settings)
        m.check(np.isfinite(res2['fun']), 'repeat', what)
        # (trigonometric functions in single precision are only reproducible
        # up to rounding)
        steps = min(k + 20, len(x), len(again.x))
        m.close(np.array(again.x)[:steps], x[:steps], 'repeat', what,
                rtol=1e-4, atol=1e-3)
    m.sample(what=what, stop=int(stop), calls=len(f), best=float(res['fun']))
    return obj, res, x, f, k


def case_limits(m, rng, method):
    """random limits: the bookkeeping holds however the search ends"""
    for _ in range(3):
        n_sph = int(rng.randint(0, 3))
        n_cart = int(rng.randint(0 if n_sph else 1, 4))
        batch = 1
        if method == 'CRS2' and rng.rand() < 0.5:
            batch = int(rng.randint(2, 6))
        kw = {'fstdthresh': 1e-12}
        which = rng.randint(4)
        if which == 0:
            kw['max_iter'] = int(rng.randint(0, 60))
        elif which == 1:
            kw['max_calls'] = int(rng.randint(20, 300))
            kw['max_iter'] = 2000
        elif which == 2:
            kw['max_noimprovement'] = int(rng.randint(1, 12))
            kw['max_iter'] = 3000
        else:
            kw['fstdthresh'] = float(10**rng.uniform(-3, 0.5))
            kw['max_iter'] = 3000
        run(m, rng, method, n_sph, n_cart, batch, **kw)


def case_spread(m, rng, method):
    """stop at the spread of the coordinates or directions"""
    for _ in range(2):
        n_sph = int(rng.randint(0, 3))
        n_cart = int(rng.randint(0 if n_sph else 1, 3))
        kw = {'fstdthresh': 1e-13, 'max_iter': 4000}
        cart = bool(n_cart) and (not n_sph or rng.rand() < 0.7)
        if cart:
            kw['cstdthresh'] = [float(v) for v in 10**rng.uniform(
                -2, 0, n_cart)]
            if n_cart > 1 and rng.rand() < 0.4:
                kw['cstdthresh'][rng.randint(n_cart)] = -1.
        if n_sph and (not cart or rng.rand() < 0.6):
            kw['sstdthresh'] = [float(v) for v in 10**rng.uniform(
                -1.3, -0.3, n_sph)]
            if n_sph > 1 and rng.rand() < 0.4:
                kw['sstdthresh'][rng.randint(n_sph)] = -1.
        run(m, rng, method, n_sph, n_cart,
            int(rng.choice([1, 3])) if method == 'CRS2' else 1, **kw)


def case_converge(m, rng, n_sph, n_cart):
    """a smooth function: the minimum is found wherever it is"""
    batch = int(rng.choice([1, 1, 4]))
    obj, res, x, f, k = run(m, rng, 'CRS2', n_sph, n_cart, batch,
                            fstdthresh=1e-6, max_iter=20000)
    m.event('converged')
    m.equal(int(res['stopping_flag']), 1, 'converge', 'stopping reason')
    m.check(res['fun'] - obj.offset < 1e-4, 'converge', 'minimum missed by '
            '{}'.format(res['fun'] - obj.offset))
    for (a, z), t in zip(obj.pairs, obj.targets):
        m.check(angle(unit(res['x'][a], res['x'][z]), t) < 0.02, 'converge',
                'direction missed')
    # the population moves towards the minimum
    m.check(np.mean(f[-k:]) <= np.mean(f[:k]), 'converge', 'no progress')


def case_simplex(m, rng):
    """Nelder-Mead finds the minimum of low-dimensional smooth functions"""
    for n_sph, n_cart in [(0, 1), (0, 2), (0, 3), (1, 0), (1, 1), (1, 2),
                          (2, 0)]:
        obj, res, x, f, k = run(m, rng, 'Nelder-Mead', n_sph, n_cart, 1,
                                fstdthresh=1e-7, max_iter=5000)
        m.event('simplex')
        m.check(res['fun'] - obj.offset < 1e-3 and len(f) < 1500, 'converge',
                'minimum missed by {} after {} calls'.format(
                    res['fun'] - obj.offset, len(f)), dims=[n_sph, n_cart])


def case_helpers(m, rng):
    from egenerator.utils import spherical_opt as so
    n = 40
    az = rng.uniform(-np.pi, 3 * np.pi, [n, 2])
    zen = np.arccos(rng.uniform(-1, 1, [n, 2]))
    zen[:4] = [[0, 1], [np.pi, 2], [0, np.pi], [0.5, 0.5]]
    az[3] = 1.3
    s = np.zeros([n, 2], dtype=so.SPHER_T)
    s['az'], s['zen'] = az, zen
    so.fill_from_spher(s)
    m.event('helpers', n)
    v = unit(az, zen)
    have = np.stack([s['x'], s['y'], s['z']], axis=-1)
    m.close(have, v, 'helpers', 'vector of angles', atol=2e-6)
    d = so.angular_dist(s[:, 0], s[:, 1])
    m.check(np.isfinite(d).all(), 'helpers', 'angular distance')
    m.close(d, angle(v[:, 0], v[:, 1]), 'helpers', 'angular distance',
            atol=2e-3)
    m.close(so.angular_dist(s[:, 0], s[:, 0]), np.zeros(n), 'helpers',
            'distance to itself', atol=2e-3)
    new = np.zeros(n, dtype=so.SPHER_T)
    so.reflect(s[:, 0], s[:, 1], new)
    c = v[:, 1]
    want = 2 * (v[:, 0] * c).sum(-1, keepdims=True) * c - v[:, 0]
    m.close(np.stack([new['x'], new['y'], new['z']], -1), want, 'helpers',
            'reflection', atol=5e-6)
    m.close(unit(new['az'].astype(float), new['zen'].astype(float)), want,
            'helpers', 'angles of the reflection', atol=2e-3)
    for key, func, arg in [('sinzen', np.sin, 'zen'), ('coszen', np.cos,
                                                       'zen'),
                           ('sinaz', np.sin, 'az'), ('cosaz', np.cos, 'az')]:
        m.close(new[key], func(new[arg].astype(float)), 'helpers', key,
                atol=1e-3)
    cart = rng.normal(size=[n, 3])
    mean_cart, mean = so.centroid(cart, s)
    m.close(mean_cart, cart.mean(axis=0), 'helpers', 'centroid', rtol=1e-9)
    c = v.mean(axis=0)
    c /= np.linalg.norm(c, axis=-1, keepdims=True)
    m.close(np.stack([mean['x'], mean['y'], mean['z']], -1), c, 'helpers',
            'centroid of directions', atol=1e-4)
    pair = s.copy()[:, :1]
    pair['zen'], pair['az'] = [[np.pi / 2]], az[:, :1]
    so.fill_from_spher(pair)
    opposite = np.stack([pair, pair], axis=1)
    for key in ['x', 'y', 'z']:
        opposite[key][:, 1] *= -1
        opposite[key] *= opposite[key].dtype.type(1)
    _, zero = so.centroid(np.zeros([n, 2, 0]), opposite, axis=1)
    for key in ['zen', 'az', 'coszen', 'sinzen']:
        m.check(np.isfinite(zero[key]).all(), 'helpers', 'centroid of '
                'opposite directions: ' + key)
    for _ in range(60):
        k = int(rng.randint(1, 9))
        old = rng.normal(size=int(k + rng.randint(0, 5))).round(1)
        new = rng.normal(rng.choice([-2, 0, 2]), size=k).round(1)
        pairs = so.find_replacements(old, new)
        m.event('helpers')
        m.check(all(new[j] < old[i] for i, j in pairs), 'replace',
                'replaced by a larger value', old=list(old), new=list(new))
        m.check(len({i for i, _ in pairs}) == len(pairs) == len(
            {j for _, j in pairs}), 'replace', 'point used twice')
        # best: pair smallest new with largest old values
        best = max(r for r in range(k + 1) if all(
            a < b for a, b in zip(np.sort(new)[:r],
                                  np.sort(old)[len(old) - r:])))
        m.equal(len(pairs), best, 'replace', 'number of replacements')
        after = old.copy()
        for i, j in pairs:
            after[i] = new[j]
        m.check(after.min() == min(old.min(), new.min()), 'replace',
                'best value lost')


def case_misuse(m, rng):
    from egenerator.utils.spherical_opt import spherical_opt
    f = lambda x: float(np.sum(np.square(x)))  # noqa: E731
    m.raises(lambda: spherical_opt(f, 'BFGS', np.zeros([5, 2])), 'misuse')
    m.raises(lambda: spherical_opt(f, 'Nelder-Mead', np.zeros([5, 2])),
             'misuse')
    m.raises(lambda: spherical_opt(f, 'Nelder-Mead', np.zeros([3, 2]),
                                   batch_size=2), 'misuse')
    m.raises(lambda: spherical_opt(f, 'CRS2', np.zeros([2, 2])), 'misuse')
    m.raises(lambda: spherical_opt(f, 'CRS2', np.zeros([7, 2]),
                                   batch_size=4), 'misuse')
    m.raises(lambda: spherical_opt(f, 'CRS2', np.zeros([20, 2]),
                                   cstdthresh=[1.]), 'misuse')
    m.raises(lambda: spherical_opt(
        f, 'CRS2', np.zeros([20, 2]), spherical_indices=[[0, 1]],
        sstdthresh=[1., 1.]), 'misuse')


def cases(tier):
    out = [Case('misuse', case_misuse),
           Case('helpers', case_helpers, reps=4, reps_thorough=200)]
    out.append(Case('simplex', case_simplex, reps=6, reps_thorough=40))
    for method in ['CRS2', 'Nelder-Mead']:
        out.append(Case('limits_' + method, case_limits, reps=10,
                        reps_thorough=300, method=method))
        out.append(Case('spread_' + method, case_spread, reps=5,
                        reps_thorough=200, method=method))
    for n_sph, n_cart in [(1, 0), (1, 1), (1, 3), (2, 1)]:
        out.append(Case('converge_{}_{}'.format(n_sph, n_cart),
                        case_converge, reps=3, reps_thorough=60,
                        n_sph=n_sph, n_cart=n_cart))
    return out
