"""R06: Simulated pulses follow the predicted charges and times."""
import contextlib
import io
import os
import shutil

import numpy as np
from scipy import stats

from vh.core import Case
from vh import pipeline as pl
from vh import events as ev
from vh.sim import mixture_cdf, expectation, prepare, bright

RULE = ('frames with random particle trees are simulated many times with '
        'models of random weights, and events are drawn by the goodness of '
        'fit module; a monitor at every simulated event decides labels, '
        'order and charges, and pooled counts and times are compared with '
        'the charge and time distributions of the model; distinct = '
        '(kind of model, number of sources, options)')
ASSUMPTIONS = ['pooled counts agree within 6 standard deviations, times '
               'within a Kolmogorov distance of 3 / sqrt(n)']
WORKERS = {'quick': 4}
BUDGET = {'quick': 45, 'thorough': 500}
REQUIRE = {'simulated frames': 60, 'simulated pulses': 3000,
           'trees': 20, 'groups of DOMs with decided times': 12,
           'groups of DOMs with decided charges': 40,
           'decided charge probabilities': 8, 'sampled events': 40}


def decide_statistics(m, rng, label, counts, mean, var, pulses, out):
    """Pooled counts and times of events of one source

    counts [N, 86, 60]; pulses (time relative to the source, string, dom)
    """
    n = len(counts)
    var = np.maximum(var, mean + 1e-6)
    total, seen = n * mean, counts.sum(axis=0)
    # sums of groups of DOMs
    order = np.argsort(mean.ravel())
    groups = {'all': np.ones((86, 60), bool)}
    groups['dimmer half'] = (np.argsort(order) < 2580).reshape(86, 60)
    groups['brighter half'] = ~groups['dimmer half']
    groups['brightest'] = (np.argsort(order) >= 5160 - 50).reshape(86, 60)
    for axis, size in [(0, 86), (1, 60)]:
        for i in range(4):
            g = np.zeros((86, 60), bool)
            which = rng.permutation(size)[:size // 8]
            g[(which,) if axis == 0 else (slice(None), which)] = True
            groups['random {} {}'.format(axis, i)] = g
    for s, o in zip(*np.where(total > 100)):
        g = np.zeros((86, 60), bool)
        g[s, o] = True
        groups['DOM {} {}'.format(s, o)] = g
    for name, g in groups.items():
        want = total[g].sum()
        if want < 100:
            continue
        m.event('groups of DOMs with decided charges')
        z = (seen[g].sum() - want) / np.sqrt(n * var[g].sum())
        m.check(-6 < z < 8, 'number of pulses does not follow the '
                'predicted charge', label, sigma=z, group=name,
                got=seen[g].sum() / n, want=want / n)
    # distribution of the charge of single DOMs
    p = np.clip(mean / var, 1e-9, 1 - 1e-9)
    r = mean * p / (1. - p)
    for k in range(4):
        prob = stats.nbinom.pmf(k, r, p)
        want = n * prob.sum()
        error = np.sqrt(n * np.sum(prob * (1. - prob)))
        got = (counts == k).sum()
        if error > 3.:
            m.event('decided charge probabilities')
            m.check(abs(got - want) < 6 * error, 'distribution of the number '
                    'of pulses', label, pulses=k, got=got, want=want,
                    error=error)
    d2 = (counts - mean)**2 / var
    if total.sum() > 300:
        # kurtosis of a negative binomial distribution
        spread = np.sqrt(2. + 6. / r + p**2 / ((1. - p) * r))
        weight = mean / mean.sum()
        got = np.sum(d2.mean(axis=0) * weight)
        error = np.sqrt(np.sum((weight * spread)**2) / n)
        m.check(abs(got - 1.) < 8 * error, 'spread of the number of pulses',
                label, got=got, error=error)
    # pulses of DOMs without expectation
    m.check(counts[:, mean * n < 1e-9].sum() == 0, 'pulses at dark DOMs',
            label)
    # times
    t, s, o = pulses
    if len(t) < 50:
        return
    u = mixture_cdf(np.asarray(t) / 1000., out['mu'][s, o],
                    out['sigma'][s, o], out['r'][s, o], out['scale'][s, o])
    center = np.sum(out['mu'] * out['scale'], axis=-1)[s, o]
    middle = np.median(center)
    for name, g in [('all', np.ones(len(t), bool)),
                    ('early DOMs', center <= middle),
                    ('late DOMs', center > middle)]:
        k = int(g.sum())
        if k < 30:
            continue
        m.event('groups of DOMs with decided times')
        x = np.sort(u[g])
        d = max(np.max(np.arange(1, k + 1) / k - x),
                np.max(x - np.arange(k) / k))
        m.check(d * np.sqrt(k) < 3., 'times do not follow the predicted '
                'distribution', label, distance=d, n=k, group=name)


def latent(out, i):
    return {k: out['latent_var_' + k][i]
            for k in ('mu', 'sigma', 'r', 'scale')}


# --------------------------------------------------------------------------
# simulation of frames
# --------------------------------------------------------------------------
def decide_series(m, series, label):
    """Monitor of a simulated pulse series"""
    from icecube import dataclasses, icetray
    m.check(isinstance(series, dataclasses.I3RecoPulseSeriesMap),
            'type of the pulses', label)
    counts = np.zeros((86, 60), int)
    for key, pulses in series.items():
        ok = isinstance(key, icetray.OMKey) and 1 <= key.string <= 86 and \
            1 <= key.om <= 60 and len(pulses) > 0
        if not m.check(ok, 'label of a DOM', label, key=repr(key)):
            continue
        t = np.array([p.time for p in pulses])
        q = np.array([p.charge for p in pulses])
        m.check(np.isfinite(t).all() and (np.diff(t) >= 0).all(),
                'pulses are not in order of time', label)
        m.check((q > 0).all() and abs(q.sum() - len(q)) < 1e-6 * len(q),
                'charge of a DOM is not the sampled charge', label,
                got=q.sum(), want=len(q))
        counts[key.string - 1, key.om - 1] = len(q)
    m.event('simulated frames')
    m.event('simulated pulses', int(counts.sum()))
    return counts


def make_module(m, path, **kwargs):
    from egenerator.ic3.simulation import EventGeneratorSimulation
    module = EventGeneratorSimulation(None)
    module.SetParameters(model_name=os.path.basename(path),
                         model_base_dir=os.path.dirname(path),
                         output_key='Sim', **kwargs)
    with contextlib.redirect_stdout(io.StringIO()):
        m.call('configuring the simulation raised', module.Configure)
    return module


def particle(kind, theta=None, energy=None, length=0.):
    from icecube import dataclasses
    p = dataclasses.I3Particle()
    p.type = getattr(dataclasses.I3Particle, kind)
    p.length = length
    if theta is not None:
        p.pos = dataclasses.I3Position(*[float(v) for v in theta[:3]])
        p.dir = dataclasses.I3Direction(float(theta[3]), float(theta[4]))
        p.energy, p.time = float(theta[5]), float(theta[6])
    if energy is not None:
        p.energy = float(energy)
    return p


EM = ['Pi0', 'Gamma', 'PairProd', 'Brems', 'DeltaE', 'EMinus', 'EPlus']
PARENTS = ['NuE', 'NuMu', 'NuTau', 'NuEBar', 'NuMuBar', 'NuTauBar',
           'Hadrons']


def simulate(m, module, frame):
    with contextlib.redirect_stdout(io.StringIO()):
        m.call('simulation of a frame raised', module.DAQ, frame)
    return frame['Sim']


def case_statistics(m, rng):
    from icecube import dataclasses, icetray
    p, path, model, handler = prepare(m, rng, 'negative_binomial'
                                      if rng.rand() < 0.75 else None)
    # any model with a variance of the charge can be sampled
    charge = p.model_config['estimate_charge_distribution']
    k = int(rng.choice([1, 1, 2, 3]))
    high = [600., 6000.][rng.randint(2)]
    thetas = [bright(rng, model, handler, 50., high / k) for _ in range(k)]
    thetas = [t for t in thetas if t is not None]
    if not thetas:
        return
    # sources at different times can be told apart
    for i, t in enumerate(thetas):
        t[6] = 1e4 + 1e6 * i
    thetas = np.array(thetas)
    seed = int(rng.randint(2**31))
    module = make_module(m, path, default_values={}, random_service=seed,
                         min_simulation_energy=0.)
    m.saw('simulation', (str(charge), len(thetas)))
    tree = dataclasses.I3MCTree()
    root = particle('NuE', thetas[0], 1e9, 1e4)
    tree.add_primary(root)
    for t in thetas:
        tree.append_child(root, particle(EM[rng.randint(len(EM))], t))
    out = expectation(model, handler, thetas)
    n = int(np.clip(1e4 / out['dom_charges'].sum(), 8, 60))
    counts = np.zeros((len(thetas), n, 86, 60), int)
    pulses_of = [([], [], []) for _ in thetas]
    mean = out['dom_charges'][..., 0].astype(float)
    var = out['dom_charges_variance'][..., 0].astype(float)
    first = None
    label = '{} {} sources'.format(charge, len(thetas))
    for j in range(n):
        frame = icetray.I3Frame({'I3MCTree': tree})
        series = simulate(m, module, frame)
        total = decide_series(m, series, label)
        found = np.zeros((86, 60), int)
        for key, pulses in series.items():
            s, o = key.string - 1, key.om - 1
            t = np.array([x.time for x in pulses])
            source = np.clip(np.round((t - 1e4) / 1e6), 0,
                             len(thetas) - 1).astype(int)
            for i in range(len(thetas)):
                sel = source == i
                counts[i, j, s, o] = sel.sum()
                found[s, o] += sel.sum()
                pulses_of[i][0].extend(t[sel] - thetas[i][6])
                pulses_of[i][1].extend([s] * sel.sum())
                pulses_of[i][2].extend([o] * sel.sum())
        m.check(np.array_equal(found, total), 'pulses of the sources', label)
        if first is None:
            first = series
    m.check(len(module.pushed) == n, 'frames pushed', label)
    for i in range(len(thetas)):
        decide_statistics(
            m, rng, label, counts[i], mean[i], var[i], pulses_of[i],
            latent(out, i))

    def flat(series):
        return [(repr(key), [(x.time, x.charge) for x in pulses])
                for key, pulses in series.items()]
    frame = icetray.I3Frame({'I3MCTree': tree})
    again = make_module(m, path, default_values={}, random_service=seed,
                        min_simulation_energy=0.)
    m.check(flat(simulate(m, again, frame)) == flat(first),
            'same seed gives other pulses', label)
    frame = icetray.I3Frame({'I3MCTree': tree})
    other = make_module(m, path, default_values={},
                        random_service=seed ^ 1, min_simulation_energy=0.)
    m.check(flat(simulate(m, other, frame)) != flat(first),
            'other seed gives the same pulses', label)
    shutil.rmtree(p.base)


def case_trees(m, rng):
    """Which particles are simulated, with which parameters"""
    from icecube import dataclasses, icetray
    p, path, model, handler = prepare(m, rng, 'negative_binomial')
    names = list(pl.PARAMS)
    theta = bright(rng, model, handler, 20., 200.)
    energy = 100. if theta is None else theta[5]
    for _ in range(3):
        m_energy = float(energy * rng.uniform(0.2, 0.8))
        distance = float(rng.uniform(300, 900))
        defaults, keys = {}, {}
        for name in names:
            if rng.rand() < 0.2 and name != 'energy':
                defaults[name] = float(rng.uniform(0.1, 3.))
                if rng.rand() < 0.5:
                    keys['Key_' + name] = defaults[name]
        given = {n: ('Key_' + n if 'Key_' + n in keys else v)
                 for n, v in defaults.items()}
        module = make_module(
            m, path, default_values=given, min_simulation_energy=m_energy,
            max_simulation_distance=distance, mc_tree_name='Tree',
            random_service=int(rng.randint(2**31)))
        function, record = module.get_model_tensors, []

        def spy(theta, **kwargs):
            record.append(np.array(theta))
            return function(theta, **kwargs)
        module.get_model_tensors = spy
        for _ in range(4):
            tree, want, track = random_tree(rng, energy, m_energy, distance)
            m.event('trees')
            m.saw('trees', (len(want), track, len(given)))
            frame = icetray.I3Frame({'Tree': tree})
            for key, v in keys.items():
                frame[key] = dataclasses.I3Double(v)
            del record[:]
            if track:
                m.raises(lambda: module.DAQ(frame), 'particle that cannot '
                         'be simulated was accepted',
                         exceptions=(NotImplementedError, ValueError))
                continue
            series = simulate(m, module, frame)
            counts = decide_series(m, series, 'trees')
            if not want:
                m.check(counts.sum() == 0, 'light without sources', 'trees')
                continue
            expected = np.array(want)
            for n, v in defaults.items():
                expected[:, names.index(n)] = v
            if not m.check(len(record) == 1 and record[0].shape ==
                           expected.shape, 'number of sources', 'trees',
                           got=[len(r) for r in record],
                           want=len(expected)):
                continue
            m.check(np.allclose(record[0], expected, rtol=1e-6),
                    'parameters of the sources', 'trees', got=record[0],
                    want=expected)
    shutil.rmtree(p.base)


def random_tree(rng, energy, threshold, distance):
    """Tree, parameters of its cascades and whether it has other particles"""
    from icecube import dataclasses
    tree, want, track = dataclasses.I3MCTree(), [], [False]

    def values(e):
        u = rng.normal(size=3)
        u *= distance * [0.5, 0.9, 1.3][rng.randint(3)] / np.linalg.norm(u)
        return np.array(list(u) + [rng.uniform(0.1, 3.), rng.uniform(
            0.1, 6.), e, rng.uniform(9e3, 1e4)])

    def grow(parent, depth, visible):
        for _ in range(rng.randint(1, 4)):
            above = rng.rand() < 0.75
            e = threshold * (rng.uniform(1.01, 3.) if above
                             else rng.uniform(0.1, 0.99))
            v = values(e)
            v[5] = e
            kind = rng.rand()
            far = np.linalg.norm(v[:3]) > distance
            if kind < 0.6 or depth > 2:
                length = [0., 0., float('nan')][rng.randint(3)]
                x = particle(EM[rng.randint(len(EM))], v, length=length)
                tree.append_child(parent, x)
                if visible and above and not far:
                    want.append(v)
            elif kind < 0.9:
                length = [0., 1e4][rng.randint(2)]
                x = particle(PARENTS[rng.randint(len(PARENTS))], v,
                             length=length)
                tree.append_child(parent, x)
                grow(x, depth + 1, visible and above and (
                    not far or length > 0))
            elif kind < 0.94 or kind >= 0.97:
                # a neutrino that leaves does not emit light
                tree.append_child(parent, particle(
                    PARENTS[rng.randint(6)], v))
            else:
                x = particle(['MuMinus', 'TauPlus', 'Hadrons'][
                    rng.randint(3)], v)
                tree.append_child(parent, x)
                if visible and above and not far:
                    track[0] = True
    for _ in range(rng.randint(1, 3)):
        above = rng.rand() < 0.9
        root = particle(PARENTS[rng.randint(len(PARENTS))], values(1.),
                        threshold * (10. if above else 0.5), 1e5)
        tree.add_primary(root)
        grow(root, 0, above)
    return tree, want, track[0]


# --------------------------------------------------------------------------
# events of the goodness of fit
# --------------------------------------------------------------------------
def case_samples(m, rng):
    """Events simulated by the goodness of fit module"""
    from egenerator.manager.reconstruction.tray import FunctionCache
    from egenerator.manager.reconstruction.modules.fit_quality import \
        GoodnessOfFit
    p, path, model, handler = prepare(m, rng, 'negative_binomial')
    from egenerator.manager.source import SourceManager
    from egenerator.utils.build_components import build_loss_module
    manager = SourceManager()
    manager.load(path)
    loss = build_loss_module(p.config())
    dim = bool(rng.rand() < 0.3)
    theta = bright(rng, model, handler, *((0.5, 2.) if dim else (20., 300.)))
    if theta is None:
        return
    n = int(rng.choice([20, 40]))
    seed = int(rng.randint(2**31))
    per_dom = bool(rng.rand() < 0.5)
    data = ev_batch(manager.data_handler, p, rng)
    trafo = manager.data_trafo.transform(
        theta[None].astype(np.float32), tensor_name='x_parameters')
    results = {'reco': {'result': theta[None].astype(np.float32),
                        'result_trafo': np.asarray(trafo)}}

    def build(seed):
        return m.call(
            'building the module raised', GoodnessOfFit, manager, loss,
            FunctionCache(), fit_paramater_list=[True] * 7, reco_key='reco',
            num_samples=n, reconstruct_samples=False,
            add_per_dom_calculation=per_dom, random_seed=seed,
            normalize_by_total_charge=bool(rng.rand() < 0.5))
    module = build(seed)
    function, record = module.loss_function, []

    def spy(**kwargs):
        record.append(kwargs['data_batch'])
        return function(**kwargs)
    module.loss_function = spy
    with contextlib.redirect_stdout(io.StringIO()):
        m.call('goodness of fit raised', module.execute, data, results)
    names = handler.tensors.names
    m.saw('samples', (per_dom, dim))
    label = 'samples'
    if not m.check(len(record) == n + 1, 'number of simulated events', label,
                   got=len(record) - 1, want=n):
        return
    counts = np.zeros((n, 86, 60), int)
    every = []
    for i, batch in enumerate(record[:-1]):
        m.event('sampled events')
        d = dict(zip(names, batch))
        pulses = np.asarray(d['x_pulses'])
        ids = np.asarray(d['x_pulses_ids'])
        ok = pulses.ndim == 2 and ids.shape == (len(pulses), 3) and (
            ids[:, 0] == 0).all() and (ids[:, 1] >= 0).all() and (
            ids[:, 1] < 86).all() and (ids[:, 2] >= 0).all() and (
            ids[:, 2] < 60).all()
        if not m.check(ok, 'labels of the simulated pulses', label):
            return
        np.add.at(counts[i], (ids[:, 1], ids[:, 2]), 1)
        charge = np.zeros((86, 60))
        np.add.at(charge, (ids[:, 1], ids[:, 2]), pulses[:, 0])
        m.check(np.abs(charge - counts[i]).max() < 1e-4 * (
            1 + counts[i].max()), 'charge of a DOM is not the sampled '
            'charge', label)
        got = np.asarray(d['x_dom_charge'])
        m.check(got.shape == (1, 86, 60, 1) and np.allclose(
            got[0, ..., 0], charge, atol=1e-4 * (1 + charge.max())),
            'charges of the DOMs are not those of the simulated pulses',
            label, got=got.sum(), want=charge.sum())
        for (s, o) in set(map(tuple, ids[:, 1:])):
            t = pulses[(ids[:, 1] == s) & (ids[:, 2] == o), 1]
            m.check((np.diff(t) >= 0).all(), 'pulses are not in order of '
                    'time', label)
        every.append((pulses[:, 1] - theta[6], ids[:, 1], ids[:, 2]))
        # the other tensors are those of the data
        for key, a, b in zip(names, batch, data):
            if key not in ('x_pulses', 'x_pulses_ids', 'x_dom_charge'):
                m.check(a is b or np.array_equal(a, b), 'other tensors of '
                        'the event', label, tensor=key)
    m.check(all(a is b or np.array_equal(a, b)
                for a, b in zip(record[-1], data)),
            'the data was not evaluated', label)
    out = expectation(model, handler, theta[None])
    decide_statistics(
        m, rng, label, counts, out['dom_charges'][0, ..., 0].astype(float),
        out['dom_charges_variance'][0, ..., 0].astype(float),
        [np.concatenate(x) for x in zip(*every)], latent(out, 0))
    # same seed
    other = build(seed)
    function2, record2 = other.loss_function, []

    def spy2(**kwargs):
        record2.append(kwargs['data_batch'])
        return function2(**kwargs)
    other.loss_function = spy2
    with contextlib.redirect_stdout(io.StringIO()):
        m.call('goodness of fit raised', other.execute, data, results)
    index = names.index('x_pulses')
    m.check(len(record2) == len(record) and all(
        np.array_equal(a[index], b[index]) for a, b in zip(record, record2)),
        'same seed gives other pulses', label)
    shutil.rmtree(p.base)


def ev_batch(handler, p, rng):
    """A random event of the project as a batch"""
    frame = ev.make_frame(p.events[0][0], 0, tables={
        s: (pl.PARAMS, p.seed_values[s][0].tolist()) for s in p.seeds})
    return handler.get_data_from_frame(frame)[1]


def cases(tier):
    return [Case('statistics', case_statistics, 4, 40),
            Case('samples', case_samples, 4, 40),
            Case('trees', case_trees, 3, 30)]
