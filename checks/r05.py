"""R05: angular helpers agree with vector geometry."""
import numpy as np

from vh.core import Case

RULE = ('directions over the whole sphere (with poles, antipodes, equal and '
        'nearly equal pairs, periodic images and unnormalised vectors) are '
        'handed to every angular helper in single and double precision, '
        'eagerly and in graphs; the results are compared with three-'
        'dimensional geometry in double precision; distinct = (helper, '
        'shape, precision, special directions)')
ASSUMPTIONS = ['angles derived from a cosine are accurate to the square root '
               'of the machine precision near zero and pi',
               'the random vector used to tilt a direction is not parallel '
               'to the direction (probability zero)']
BUDGET = {'quick': 12, 'thorough': 200}
REQUIRE = {'angles': 2000, 'deviations': 2000, 'tilted': 1000,
           'special': 150}


def unit(zen, azi):
    return np.stack([np.sin(zen) * np.cos(azi), np.sin(zen) * np.sin(azi),
                     np.cos(zen)], axis=-1)


def angle(a, b):
    a = a / np.linalg.norm(a, axis=-1, keepdims=True)
    b = b / np.linalg.norm(b, axis=-1, keepdims=True)
    return 2 * np.arctan2(np.linalg.norm(a - b, axis=-1),
                          np.linalg.norm(a + b, axis=-1))


def directions(rng, n):
    zen = np.arccos(rng.uniform(-1, 1, n))
    azi = rng.uniform(0, 2 * np.pi, n)
    k = max(1, n // 4)
    zen[:k] = rng.choice([0., np.pi, np.pi / 2, 1e-4, np.pi - 1e-4], k)
    azi[:k] = rng.choice([0., np.pi, 2 * np.pi, np.pi / 2, 1e-5], k)
    order = rng.permutation(n)
    return zen[order], azi[order]


def pairs(rng, n):
    z1, a1 = directions(rng, n)
    z2, a2 = directions(rng, n)
    k = n // 6
    kind = ['random'] * n
    for i in range(k):
        z2[i], a2[i], kind[i] = z1[i], a1[i], 'equal'
        j = k + i
        z2[j], a2[j], kind[j] = np.pi - z1[j], a1[j] + np.pi, 'opposite'
        j = 2 * k + i
        z2[j] = z1[j] + rng.normal(0, 1e-5)
        a2[j], kind[j] = a1[j] + rng.normal(0, 1e-5), 'close'
        j = 3 * k + i
        z2[j], a2[j] = z1[j], a1[j] + 2 * np.pi * rng.randint(-2, 3)
        kind[j] = 'image'
    return z1, a1, z2, a2, kind


def case_angle(m, rng, dtype, graph):
    import tensorflow as tf
    from egenerator.utils import angles
    n = 60
    z1, a1, z2, a2, kind = pairs(rng, n)
    length = 10**rng.uniform(-2, 3, [2, n, 1])
    v1 = (unit(z1, a1) * length[0]).astype(dtype)
    v2 = (unit(z2, a2) * length[1]).astype(dtype)
    func = tf.function(angles.get_angle) if graph else angles.get_angle
    got = np.asarray(m.call('angle', func, tf.constant(v1), tf.constant(v2)))
    m.event('angles', n)
    m.event('special', sum(k != 'random' for k in kind))
    m.saw('angles', ('get_angle', dtype, graph, tuple(sorted(set(kind)))))
    want = angle(v1.astype(float), v2.astype(float))
    atol = 2e-6 if dtype == 'float32' else 1e-14
    m.equal(got.dtype, np.dtype(dtype), 'dtype', 'angle')
    m.close(got, want, 'angle', 'angle between vectors', rtol=1e-5 if
            dtype == 'float32' else 1e-12, atol=atol)
    back = np.asarray(func(tf.constant(v2), tf.constant(v1)))
    m.close(back, got, 'symmetry', 'angle', rtol=1e-6, atol=atol)
    other = np.asarray(func(tf.constant(v1), tf.constant(-v2)))
    m.close(other + got, np.full(n, np.pi), 'supplement', 'angle',
            rtol=2e-6, atol=atol)
    single = np.asarray(func(tf.constant(v1[0]), tf.constant(v2)))
    m.close(single, angle(v1[:1].astype(float), v2.astype(float)), 'angle',
            'one vector with many', rtol=1e-5, atol=atol)
    one = np.asarray(func(tf.constant(v1[1]), tf.constant(v2[1])))
    m.close(one, want[1], 'angle', 'two single vectors', rtol=1e-5, atol=atol)
    m.raises(lambda: func(tf.constant(v1[:, :2]), tf.constant(v2[:, :2])),
             'misuse')
    m.sample(kind=kind[:5], want=want[:5], got=got[:5])


def case_deviation(m, rng, dtype, graph):
    import tensorflow as tf
    from egenerator.utils import angles
    n = 60
    z1, a1, z2, a2, kind = pairs(rng, n)
    z1, a1, z2, a2 = [v.astype(dtype) for v in (z1, a1, z2, a2)]
    func = tf.function(angles.get_angle_deviation) if graph else \
        angles.get_angle_deviation

    def call(*args):
        return np.asarray(m.call('deviation', func,
                                 *[tf.constant(a) for a in args]))
    got = call(a1, z1, a2, z2)
    m.event('deviations', n)
    m.event('special', sum(k != 'random' for k in kind))
    m.saw('angles', ('get_angle_deviation', dtype, graph))
    want = angle(unit(z1.astype(float), a1.astype(float)),
                 unit(z2.astype(float), a2.astype(float)))
    eps = np.finfo(dtype).eps
    tol = 8 * np.sqrt(eps)
    m.equal(got.dtype, np.dtype(dtype), 'dtype', 'deviation')
    m.check(np.isfinite(got).all(), 'deviation', 'not finite')
    m.check((got >= 0).all() and (got <= np.pi + 1e-6).all(), 'deviation',
            'out of range')
    m.close(got, want, 'deviation', 'angles between directions', atol=tol)
    # away from the poles of the arccos the full precision is reached
    safe = (want > 0.1) & (want < np.pi - 0.1)
    m.close(got[safe], want[safe], 'deviation', 'angles between directions',
            atol=400 * eps)
    m.close(call(a2, z2, a1, z1), got, 'symmetry', 'deviation', atol=tol)
    shift = rng.uniform(0, 6)
    m.close(call(a1 + a1.dtype.type(shift), z1, a2 + a1.dtype.type(shift),
                 z2), got, 'rotation', 'deviation', atol=tol)
    grads = []
    with tf.GradientTape() as tape:
        args = [tf.constant(v) for v in (a1, z1, a2, z2)]
        tape.watch(args)
        out = func(*args)
    grads = tape.gradient(out, args)
    for g in grads:
        m.check(np.isfinite(np.asarray(g)[safe]).all(), 'gradient',
                'deviation')


class Service:
    """random number service which counts how it is used"""

    def __init__(self, seed):
        self.rng = np.random.RandomState(seed)
        self.calls = 0

    def uniform(self, *args, **kwargs):
        self.calls += 1
        return self.rng.uniform(*args, **kwargs)


def case_tilt(m, rng):
    from egenerator.utils import angles
    for _ in range(20):
        n = int(rng.choice([1, 1, 4, 30]))
        zen, azi = directions(rng, n)
        scalar = n == 1 and rng.rand() < 0.5
        k = n if n > 1 else int(rng.choice([1, 1, 7]))
        deg = bool(rng.rand() < 0.5)
        psi = np.rad2deg(np.arccos(rng.uniform(0.001, 1, k)))
        special = rng.rand(k) < 0.3
        psi[special] = rng.choice([0., 1e-5, 1e-2, 89.9, 45.], special.sum())
        shared = n > 1 and rng.rand() < 0.3 or k == 1 and rng.rand() < 0.3
        psi_in = psi if deg else np.deg2rad(psi)
        if shared:
            psi = np.full(max(k, n), psi[0])
            psi_in = psi_in[:1]
        each = bool(rng.rand() < 0.5)
        seed = int(rng.randint(1 << 30))
        service = Service(seed)
        z_in, a_in = (zen[0], azi[0]) if scalar else (zen.copy(), azi.copy())
        psi_keep = np.array(psi_in)
        args = dict(delta_psi=psi_in, random_service=service, is_degree=deg,
                    randomize_for_each_delta_psi=each)
        out = m.call('tilt', angles.get_delta_psi_vector, z_in, a_in, **args)
        m.event('tilted', max(n, k))
        m.saw('angles', ('tilt', n, k, scalar, deg, each, bool(shared)))
        m.check(service.calls > 0, 'service', 'random service not used')
        m.array_equal(psi_keep, psi_in, 'input', 'opening angles')
        m.equal(len(out), 2, 'tilt', 'returns zenith and azimuth')
        m.equal(out[0].shape, (max(n, k),), 'shape', 'zenith')
        m.equal(out[1].shape, (max(n, k),), 'shape', 'azimuth')
        m.check((out[0] >= 0).all() and (out[0] <= np.pi).all() and
                (out[1] >= 0).all() and (out[1] <= 2 * np.pi).all(),
                'tilt', 'angles out of range')
        v = unit(zen, azi)
        new = unit(out[0], out[1])
        m.close(angle(np.broadcast_to(v, new.shape), new),
                np.deg2rad(psi), 'tilt', 'opening angle', atol=1e-7)
        args['random_service'] = Service(seed)
        vec = m.call('tilt', angles.get_delta_psi_vector, z_in, a_in,
                     return_angles=False, **args)
        m.close(vec, new, 'tilt', 'vector and angles', atol=1e-7)
        m.close(np.linalg.norm(vec, axis=-1), np.ones(len(vec)), 'tilt',
                'normalised', atol=1e-12)
        if not each and n == 1 and k > 1:
            # all on the same geodesic: coplanar with the direction
            good = psi > 1
            if good.sum() > 1:
                normal = np.cross(v[0], vec[good][0])
                normal /= np.linalg.norm(normal)
                m.check(np.abs(vec @ normal).max() < 1e-9, 'geodesic',
                        'not on one geodesic')
                side = np.cross(v[0], vec[good])
                m.check((side @ normal > 0).all(), 'geodesic',
                        'on both sides')
        elif each and k > 3 and (psi > 1).sum() > 3 and n == 1:
            good = psi > 1
            side = np.cross(np.broadcast_to(v[0], vec[good].shape),
                            vec[good])
            side /= np.linalg.norm(side, axis=-1, keepdims=True)
            m.check(np.abs(side @ side[0])[1:].min() < 1 - 1e-9, 'geodesic',
                    'not randomised')
    for bad, deg in [(90., True), (np.pi / 2, False), ([10., 120.], True)]:
        m.raises(lambda: angles.get_delta_psi_vector(
            [0.3], [0.2], delta_psi=np.atleast_1d(bad), is_degree=deg),
            'misuse')
    # no preferred side: tilted directions are balanced around the axis
    z, a = float(np.arccos(rng.uniform(-1, 1))), float(rng.uniform(0, 6))
    count = 3000
    new = angles.get_delta_psi_vector(
        z, a, delta_psi=np.full(count, 30.), return_angles=False,
        random_service=np.random.RandomState(rng.randint(1 << 30)))
    mean = new.mean(axis=0)
    m.check(np.linalg.norm(mean - np.cos(np.deg2rad(30.)) * unit(z, a)) <
            6 * 0.5 / np.sqrt(count), 'balance', 'preferred side')


def cases(tier):
    out = [Case('tilt', case_tilt, reps=6, reps_thorough=300)]
    for dtype in ['float32', 'float64']:
        for graph in [False, True]:
            suffix = '_{}_{}'.format(dtype, 'graph' if graph else 'eager')
            out.append(Case('angle' + suffix, case_angle, reps=10,
                            reps_thorough=200, dtype=dtype, graph=graph))
            out.append(Case('deviation' + suffix, case_deviation, reps=10,
                            reps_thorough=200, dtype=dtype, graph=graph))
    return out
