"""R07: reconstruction trays run modules in order on the right inputs."""
import contextlib
import copy
import os
import time

import numpy as np

from vh.core import Case, scratch
from vh import array_handler as ah
from vh import models as md
from vh import toy as ty
import r01

RULE = ('probe modules added to the real tray record every call, its batch '
        'and the results they are given, for random chains, names, refused '
        'additions and repeated executions; function caches are driven '
        'through random histories against a model; the functions that real '
        'modules request are counted against their distinct settings; the '
        'test-data reconstruction is run on likelihoods of known form and '
        'its output file is decided row by row; distinct = (chain, names, '
        'settings, columns)')
ASSUMPTIONS = ['settings are not modified after they were handed over',
               'one event per batch in the reconstruction of test data']
WORKERS = {'quick': 4}
BUDGET = {'quick': 20, 'thorough': 300}
REQUIRE = {'executions': 40, 'probe calls': 150, 'refusals': 15,
           'cache lookups': 500, 'cache hits': 100, 'shared functions': 4,
           'scans': 4, 'rows': 10, 'runtimes': 60}


# --------------------------------------------------------------------------
# chains of probes
# --------------------------------------------------------------------------
@contextlib.contextmanager
def probes(classes):
    """Make probe classes available as reconstruction modules."""
    import egenerator.manager.reconstruction.modules as package
    for name, cls in classes.items():
        setattr(package, name, cls)
    try:
        yield
    finally:
        for name in classes:
            delattr(package, name)


def make_probe(log):
    class Probe(object):
        def __init__(self, manager, loss_module, function_cache, **settings):
            self.given = (manager, loss_module, function_cache)
            self.settings = settings
            log.append(('init', self))

        def execute(self, data_batch, results):
            log.append(('run', self, data_batch, {
                k: dict(v) for k, v in results.items()}, results))
            delay = self.settings.get('delay', 0)
            if delay:
                time.sleep(delay)
            if self.settings.get('fail'):
                raise RuntimeError('probe')
            out = {'tag': self.settings.get('tag'),
                   'value': np.array([self.settings.get('tag', 0)])}
            if self.settings.get('uses'):
                out['sum'] = sum(results[u]['tag'] for u in
                                 self.settings['uses'])
            if self.settings.get('illegal'):
                out['runtime'] = 1.
            return out
    return Probe


def case_chain(m, rng, n=25):
    from egenerator.manager.reconstruction.tray import ReconstructionTray
    for _ in range(n):
        log = []
        manager, loss = object(), object()
        with probes({'ProbeModule': make_probe(log)}):
            tray = ReconstructionTray(manager, loss)
            chain = []
            for i in range(int(rng.randint(1, 8))):
                # explicit names do not follow the order of the modules
                name = None if rng.rand() < 0.3 else 'mod_{}'.format(
                    rng.randint(1000))
                if rng.rand() < 0.1:
                    name = 'module_{:04d}'.format(len(chain) +
                                                  rng.randint(0, 3))
                settings = dict(tag=int(rng.randint(1000)))
                if rng.rand() < 0.2:
                    settings['delay'] = 0.004
                if chain and rng.rand() < 0.6:
                    settings['uses'] = [chain[j][0] for j in rng.randint(
                        len(chain), size=rng.randint(1, 4))]
                actual = name or 'module_{:04d}'.format(len(chain))
                known = [c[0] for c in chain]
                if actual in known:
                    m.event('refusals')
                    m.raises(lambda: tray.add_module(
                        'ProbeModule', name=name, **settings),
                        'second module of the same name accepted', actual)
                    # (the refused probe may have been created)
                    continue
                before = len(log)
                m.call('module refused', tray.add_module, 'ProbeModule',
                       name=name, **settings)
                created = [e[1] for e in log[before:] if e[0] == 'init']
                if not m.check(len(created) == 1, 'modules created per '
                               'call', '', got=len(created)):
                    return
                probe = created[0]
                m.check(probe.settings == settings and probe.given[0] is
                        manager and probe.given[1] is loss and
                        probe.given[2] is tray.function_cache,
                        'settings of the module', '', got=probe.settings,
                        want=settings)
                chain.append((actual, settings, probe))
            if not chain:
                continue
            for k in range(int(rng.randint(1, 4))):
                batch = (np.array([k]), 'batch %d' % k)
                del log[:]
                t0 = time.time()
                results = m.call('tray raised', tray.execute, batch)
                total = time.time() - t0
                m.event('executions')
                runs = [e for e in log if e[0] == 'run']
                m.event('probe calls', len(runs))
                m.check([e[1] for e in runs] == [c[2] for c in chain],
                        'modules not executed in the order added', '',
                        got=len(runs), want=len(chain))
                m.check(list(results) == [c[0] for c in chain],
                        'names of the results', '', got=list(results),
                        want=[c[0] for c in chain])
                spent = 0.
                for i, e in enumerate(runs):
                    name, settings, probe = chain[i]
                    m.check(e[2] is batch, 'module given another batch', '')
                    m.check(list(e[3]) == [c[0] for c in chain[:i]],
                            'module given results of other modules than '
                            'the previous ones', '', got=list(e[3]),
                            want=[c[0] for c in chain[:i]])
                    for c in chain[:i]:
                        got = e[3].get(c[0], {})
                        m.check(got.get('tag') == c[1]['tag'] and
                                set(got) == set(results[c[0]]),
                                'result handed on differs from the '
                                'reported one', c[0])
                    r = results.get(name, {})
                    m.check(r.get('tag') == settings['tag'],
                            'result of another module under this name',
                            name, got=r.get('tag'), want=settings['tag'])
                    if 'uses' in settings:
                        want = sum({c[0]: c[1]['tag'] for c in chain}[u]
                                   for u in settings['uses'])
                        m.check(r.get('sum') == want, 'module did not '
                                'receive the results it names', name)
                    run = r.get('runtime')
                    m.event('runtimes')
                    m.check(run is not None and
                            settings.get('delay', 0) * 0.9 <= run <= total,
                            'run time of a module', name, got=run,
                            total=total, delay=settings.get('delay', 0))
                    spent += run or 0
                m.check(spent <= total, 'sum of the run times', '',
                        got=spent, total=total)
                m.saw('chain', tuple((c[0], tuple(sorted(c[1])))
                                     for c in chain))
        # no module keeps its name when it fails or breaks the rules
        with probes({'ProbeModule': make_probe(log)}):
            bad = ReconstructionTray(manager, loss)
            bad.add_module('ProbeModule', tag=1)
            bad.add_module('ProbeModule', tag=2, illegal=True)
            m.event('refusals')
            m.raises(lambda: bad.execute(('x',)), 'result that hides its '
                     'run time accepted')


# --------------------------------------------------------------------------
# function cache
# --------------------------------------------------------------------------
def case_cache(m, rng, n=12):
    import tensorflow as tf
    from egenerator.manager.reconstruction.tray import FunctionCache

    def draw():
        s = dict(
            input_signature=(tf.TensorSpec([None, int(rng.randint(1, 4))],
                                           tf.float32),),
            fit_paramater_list=[bool(v) for v in rng.rand(3) < 0.5],
            minimize_in_trafo_space=bool(rng.rand() < 0.5),
            seed=[None, 'x_seed', 'x_parameters'][rng.randint(3)])
        if rng.rand() < 0.3:
            s['reduce_to_scalar'] = bool(rng.rand() < 0.5)
        return s
    for _ in range(n):
        cache, model = FunctionCache(), []
        pool = [draw() for _ in range(6)]
        for _ in range(60):
            settings = copy.copy(pool[rng.randint(len(pool))])
            if rng.rand() < 0.3:
                # equal settings in another order
                keys = list(settings)
                settings = {k: settings[k] for k in
                            [keys[i] for i in rng.permutation(len(keys))]}
            name = ['f_loss', 'f_grad', 'f_hess'][rng.randint(3)]
            known = [f for a, b, f in model if a == name and b == settings]
            m.event('cache lookups')
            got = m.call('lookup raised', cache.get, name, settings)
            if known:
                m.event('cache hits')
            m.check(got is (known[0] if known else None), 'cached function '
                    'does not belong to the settings', name,
                    settings=settings, known=len(known))
            if rng.rand() < 0.5:
                def func():
                    pass
                func.__name__ = name
                if known:
                    m.event('refusals')
                    m.raises(lambda: cache.add(func, settings),
                             'function added twice')
                else:
                    m.call('function refused', cache.add, func, settings)
                    model.append((name, settings, func))
        m.saw('cache', tuple(sorted((a, repr(sorted(
            b.items(), key=str))) for a, b, f in model)))


def case_shared(m, rng):
    """Real modules build one function per distinct settings."""
    toy = ty.Toy(rng, n_params=int(rng.randint(3, 6)), dtype='float64')
    built = {}

    def spy(name):
        inner = getattr(toy.manager, name)

        def wrapped(*args, **kwargs):
            built.setdefault(name, []).append(dict(kwargs))
            return inner(*args, **kwargs)
        return wrapped
    for name in ('get_parameter_loss_function',
                 'get_loss_and_gradients_function'):
        setattr(toy.manager, name, spy(name))
    tray = r01.make_tray(toy)
    fits = [toy.random_fit(rng), toy.random_fit(rng)]
    modules = []
    for i in range(6):
        fit = list(fits[rng.randint(2)])
        space = bool(rng.rand() < 0.6)
        tray.add_module('Reconstruction', name='r%d' % i,
                        fit_paramater_list=fit, seed_tensor_name='x_seed',
                        minimize_in_trafo_space=space,
                        scipy_optimizer_settings={
                            'method': ['BFGS', 'CG', 'L-BFGS-B'][
                                rng.randint(3)], 'options': {
                                'maxiter': 30}})
        modules.append((fit, space))
    m.event('shared functions')
    distinct = []
    for pair in modules:
        if pair not in distinct:
            distinct.append(pair)
    got = built.get('get_loss_and_gradients_function', [])
    keys = [(k['fit_paramater_list'], k['minimize_in_trafo_space'])
            for k in got]
    m.check(all(keys.count(k) == 1 for k in keys),
            'function built twice for the same settings', '', built=keys)
    m.check(all(p in keys for p in distinct), 'function reused for other '
            'settings', '', built=keys, needed=distinct)
    tensors, an, arrays = toy.batch(rng)
    results = m.call('tray raised', tray.execute, tensors)
    for i, (fit, space) in enumerate(modules):
        m.event('shared functions')
        m.saw('module', (tuple(fit), space))
        r01.decide(m, toy, an, 'module %d' % i, results['r%d' % i],
                   arrays['x_seed'], fit, space, minimum=False)


# --------------------------------------------------------------------------
# likelihood scans
# --------------------------------------------------------------------------
def case_scan(m, rng):
    import matplotlib.axes
    toy = ty.Toy(rng, n_params=2, dtype='float64', names=['x', 'energy'])
    base = os.path.join(scratch(), 'scan{}'.format(rng.randint(10**6)))
    os.makedirs(base)
    tray = r01.make_tray(toy)
    fit = [True] * 2
    tray.add_module('Reconstruction', name='reco', fit_paramater_list=fit,
                    seed_tensor_name='x_seed')
    tray.add_module(
        'Visualize1DLikelihoodScan', name='scan', fit_paramater_list=fit,
        seed_tensor_name='x_seed', reco_key='reco', plot_file_template=
        os.path.join(base, 'p_{event_counter:04d}_{parameter}.png'))
    with probes({'ProbeModule': make_probe([])}):
        tray.add_module('ProbeModule', name='after', tag=3)
    drawn, inner = [], matplotlib.axes.Axes.plot

    def plot(self, *args, **kwargs):
        drawn.append((args, kwargs.get('label')))
        return inner(self, *args, **kwargs)
    matplotlib.axes.Axes.plot = plot
    try:
        tensors, an, arrays = toy.batch(rng)
        results = m.call('likelihood scan raised', tray.execute, tensors)
    finally:
        matplotlib.axes.Axes.plot = inner
    m.event('scans', 2)
    m.check(list(results) == ['reco', 'scan', 'after'],
            'results of a tray with a scan', '', got=list(results))
    m.check(isinstance(results['scan'], dict) and 'runtime' in
            results['scan'], 'run time of the scan missing', '')
    files = sorted(os.listdir(base))
    m.check(files == ['p_0000_energy.png', 'p_0000_x.png'],
            'files of the scan', '', got=files)
    curves = [d for d in drawn if d[1] and d[1].startswith('LLh')]
    m.check(len(curves) == 4, 'curves of the scan', '', got=len(curves))
    for k, (args, label) in enumerate(curves):
        m.event('scans')
        values, llh = np.asarray(args[0], float), np.asarray(args[1], float)
        centre = np.asarray(results['reco']['result'] if 'Reco' in label
                            else arrays['x_parameters'], float)
        theta = np.repeat(centre, len(values), axis=0)
        theta[:, k // 2] = values
        an.target = np.repeat(arrays['x_target'].astype(float),
                              len(values), axis=0)
        want = an.events(theta)
        # distance of 2e-9 where the scan leaves the defined range
        near = theta[:, k // 2] > -0.9 if toy.log[k // 2] else want == want
        scale = np.abs(want).max() * 1e-9 + 1e-7
        m.check(len(values) > 10 and np.abs(llh - want)[near].max() < scale
                * 10, 'scanned likelihood', label, worst=np.abs(
                    llh - want).max())
        m.saw('scan', (label, k))


# --------------------------------------------------------------------------
# reconstruction of test data
# --------------------------------------------------------------------------
def run_testdata(m, rng, toy, n_events, seed, fit, options, extra=()):
    """Run reconstruct_testdata; returns (frame, arrays, config)."""
    import pandas as pd
    md._COUNTER[0] += 1
    key = 'testdata{}'.format(md._COUNTER[0])
    parts = []
    for _ in range(n_events):
        truth = toy.draw(rng, 1)
        target = toy.near(rng, truth, 0.3)
        _, _, arrays = toy.batch(rng, target=target, truth=truth)
        parts.append(arrays)
    joined = {k: np.concatenate([p[k] for p in parts]) for k in parts[0]}
    ah.STORE[key] = joined
    for t in toy.handler.tensors.list:
        if not t.exists:
            ah.STORE[key][t.name] = None
    # pulses are per event in batches of one
    base = os.path.join(scratch(), key, 'sub')
    out = os.path.join(base, 'reco.hdf5')
    config = {
        'reconstruction_settings': dict({
            'minimize_in_trafo_space': True,
            'minimize_parameter_default_value': bool(fit[0]),
            'minimize_parameter_dict': {
                n: bool(f) for n, f in zip(toy.names, fit) if f != fit[0]},
            'reco_output_file': out, 'parameter_tensor_name': 'x_parameters',
            'calculate_covariance_matrix': False,
            'calculate_goodness_of_fit': False,
            'estimate_angular_uncertainty': False, 'run_mcmc': False,
            'make_1d_llh_scans': False, 'seed': seed,
            'reco_optimizer_interface': 'scipy',
            'scipy_optimizer_settings': {'method': 'BFGS'},
            'tf_optimizer_settings': {'method': 'bfgs_minimize'}},
            **options),
        'data_iterator_settings': {'test': {
            'splits': [1] * n_events, 'key': key}}}
    # fresh copies of the single-event arrays (ids restart in every batch)
    inner = toy.handler.get_batch_generator

    def generator(**kwargs):
        for p in parts:
            yield md.batch_tuple(toy.handler, p, as_tensor=bool(
                rng.rand() < 0.5) and not options.get('make_1d_llh_scans'))
    toy.handler.get_batch_generator = generator
    try:
        m.call('reconstruction of test data raised',
               toy.manager.reconstruct_testdata, config, toy.loss)
    finally:
        toy.handler.get_batch_generator = inner
    frame = pd.read_hdf(out, key='Variables')
    return frame, parts, config, base


def case_testdata(m, rng):
    P = 7
    toy = ty.Toy(rng, n_params=P, dtype='float64', linear=False,
                 quartic=0., seeds=('x_seed', 'x_seed_b'))
    n = int(rng.randint(3, 6))
    fit = [True] * P
    seed = [['x_seed', 'x_seed_b'], ['x_seed'], 'x_seed_b'][rng.randint(3)]
    frame, parts, config, base = run_testdata(
        m, rng, toy, n, seed, fit,
        dict(calculate_covariance_matrix=True,
             estimate_angular_uncertainty=True))
    m.check(len(frame) == n, 'rows of the output file', '', got=len(frame),
            want=n)
    names = [seed] if isinstance(seed, str) else seed
    for i, arrays in enumerate(parts):
        m.event('rows')
        an = toy.analytic(arrays['x_target'])
        row = frame.iloc[i]
        truth = arrays['x_parameters'][0].astype(float)
        reco = np.array([row[p + '_reco'] for p in toy.names])
        seeds = np.array([row[p + '_seed'] for p in toy.names])
        m.check(np.allclose([row[p] for p in toy.names], truth),
                'true parameters of the output', '')
        m.check(any(np.allclose(seeds, arrays[s][0]) for s in names),
                'seed of the output', '', got=seeds)
        for column, theta in (('loss_true', truth), ('loss_reco', reco),
                              ('loss_seed', seeds)):
            want = an.loss(theta[None])
            m.check(abs(row[column] - want) < 1e-6 * (abs(want) + 1),
                    'loss column of the output', column, got=row[column],
                    want=want)
        low = an.loss(arrays['x_target'].astype(float))
        m.check(row['loss_reco'] - low < 1e-3, 'reconstruction in the '
                'output is not the best fit', '', got=row['loss_reco'],
                want=low)
        width = toy.width()
        u = an.u(reco[None])
        cov = np.linalg.inv(an.hess_u(reco[None])[0])
        std = np.sqrt(np.diag(cov))
        m.check(np.allclose([row[p + '_unc'] for p in toy.names], std,
                            rtol=1e-4), 'uncertainty column of the output',
                '', got=[row[p + '_unc'] for p in toy.names], want=std)
        zen, azi = toy.names.index('zenith'), toy.names.index('azimuth')
        m.check(np.isclose(row['cov_zenith_azimuth'], cov[zen, azi],
                           rtol=1e-3, atol=1e-4 * std[zen] * std[azi]),
                'covariance column of the output', '')
        m.check(np.isfinite(row['circular_unc']) and 0 <= abs(
            row['circular_unc']) < np.pi, 'angular uncertainty of the '
            'output', '', got=row['circular_unc'])
        m.saw('row', (i, str(seed)))
    m.saw('columns', tuple(frame.columns))


def case_partial_testdata(m, rng):
    P = int(rng.randint(3, 8))
    toy = ty.Toy(rng, n_params=P, dtype='float64', linear=False)
    fit = toy.random_fit(rng, False)
    frame, parts, config, base = run_testdata(m, rng, toy, 3, 'x_seed', fit,
                                              {})
    for i, arrays in enumerate(parts):
        m.event('rows')
        row = frame.iloc[i]
        an = toy.analytic(arrays['x_target'])
        reco = np.array([[row[p + '_reco'] for p in toy.names]])
        r01.decide(m, toy, an, 'test data', dict(
            result=reco, result_trafo=toy.to_trafo(reco)[
                :, np.flatnonzero(fit)], loss_seed=row['loss_seed'],
            loss_reco=row['loss_reco']), arrays['x_seed'], fit, True)


def case_random_testdata(m, rng):
    """Randomised seeds (13 parameters) within the tray of the manager."""
    toy = ty.Toy(rng, n_params=13, dtype='float64', linear=False,
                 quartic=0., seeds=('x_seed', 'x_seed_b'))
    seed = ['x_seed_b', ['x_seed', 'x_seed_b'], ['x_seed_b', 'x_seed']][
        rng.randint(3)]
    names = [seed] if isinstance(seed, str) else seed
    frame, parts, config, base = run_testdata(
        m, rng, toy, 2, seed, [True] * 13, dict(num_random_seeds=2))
    for i, arrays in enumerate(parts):
        m.event('rows')
        row = frame.iloc[i]
        an = toy.analytic(arrays['x_target'])
        reco = np.array([[row[p + '_reco'] for p in toy.names]])
        want = an.loss(reco)
        m.check(abs(row['loss_reco'] - want) < 1e-6 * (abs(want) + 1),
                'loss column of the output', 'random', got=row['loss_reco'],
                want=want)
        for s in names:
            m.check(row['loss_reco'] <= an.loss(arrays[s]) + 1e-6,
                    'selected fit is worse than the seed', 'random')
        m.check(any(np.allclose([row[p + '_seed'] for p in toy.names],
                                arrays[s][0]) for s in names),
                'seed of the output', 'random')


def case_mcmc_testdata(m, rng):
    """Output files of the chain."""
    import glob
    import pandas as pd
    toy = ty.Toy(rng, n_params=7, dtype='float64', linear=False, quartic=0.)
    frame, parts, config, base = run_testdata(
        m, rng, toy, 2, 'x_seed', [True] * 7, dict(run_mcmc=True))
    files = sorted(glob.glob(os.path.join(base, '*mcmc*')))
    m.check(len(files) == 2, 'files of the chain', '', got=files)
    for path, arrays in zip(files, parts):
        m.event('rows')
        df = pd.read_hdf(path, key='Variables')
        an = toy.analytic(np.repeat(arrays['x_target'], len(df), axis=0))
        theta = df[['samples_' + p for p in toy.names]].values
        m.check(np.allclose(-an.events(theta), df['log_prob'].values,
                            rtol=1e-6, atol=1e-6), 'probabilities in the '
                'file of the chain', '')
        m.check((np.diff(df['log_prob'].values) >= 0).all(),
                'samples in the file are not sorted', '')


def cases(tier):
    return [
        Case('mcmc test data', case_mcmc_testdata, 1, 4),
        Case('test data', case_testdata, 1, 16),
        Case('random seeds', case_random_testdata, 1, 6),
        Case('scan', case_scan, 1, 4),
        Case('shared functions', case_shared, 2, 20),
        Case('partial test data', case_partial_testdata, 1, 16),
        Case('chains', case_chain, 2, 40),
        Case('cache', case_cache, 2, 40),
    ]
