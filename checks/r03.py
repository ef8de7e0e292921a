"""R03: the best reconstruction is the one with the smallest loss."""
import itertools

import numpy as np

from vh.core import Case
from vh import toy as ty
import r01

RULE = ('sets of reconstruction results with random numbers, losses (ties, '
        'infinities, undefined values, arrays and scalars) and orders are '
        'handed to the selection module; the selected result is compared '
        'item by item with the reconstruction of smallest loss; real fits '
        'from several seeds are selected in a tray and every selection is '
        'decided on the analytic likelihood; distinct = (number, position '
        'of the best, kind of losses)')
ASSUMPTIONS = ['among equal losses any of them may be selected',
               'a reconstruction with undefined loss is only selected if '
               'there is no other']
WORKERS = {'quick': 2}
BUDGET = {'quick': 10, 'thorough': 200}
REQUIRE = {'selections': 300, 'fallbacks': 10, 'tray selections': 4,
           'ties': 20, 'undefined': 40}


def make_selection(names):
    from egenerator.manager.reconstruction.modules.reconstruction import \
        SelectBestReconstruction
    return SelectBestReconstruction(manager=None, loss_module=None,
                                    function_cache=None, reco_names=names)


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)
    return a is b or a == b or (a != a and b != b)


def complete(selected, reco):
    """Every item of the reconstruction, its run time under a new name."""
    want = {k: v for k, v in reco.items() if k != 'runtime'}
    if 'runtime' in selected or set(selected) != set(want) | {
            'reco_runtime'}:
        return False
    return all(same(selected[k], v) for k, v in want.items()) and \
        selected['reco_runtime'] == reco['runtime']


def case_synthetic(m, rng, n=150):
    for _ in range(n):
        k = int(rng.randint(1, 7))
        kind = ['plain', 'ties', 'negative', 'nan', 'inf', 'close',
                'allnan'][rng.choice(7, p=[.3, .15, .15, .15, .1, .1, .05])]
        loss = rng.uniform(0, 1e4, k)
        if kind == 'negative':
            loss = rng.uniform(-1e4, -10, k)
        elif kind == 'ties':
            loss = rng.randint(0, 3, k).astype(float)
        elif kind == 'close':
            loss = 1e4 + rng.permutation(k) * 0.01
        elif kind == 'nan':
            loss[rng.rand(k) < 0.5] = np.nan
        elif kind == 'inf':
            loss[rng.rand(k) < 0.5] = rng.choice([np.inf])
        elif kind == 'allnan':
            loss[:] = np.nan
        form = rng.randint(3)
        names = ['reco_{}'.format(c) for c in rng.permutation(20)[:k]]
        results = {}
        for name, value in zip(names, loss):
            v = [float(value), np.float32(value), np.array(
                value, np.float64)][form]
            results[name] = {
                'result': rng.normal(size=(1, 7)),
                'result_trafo': rng.normal(size=(1, 5)),
                'result_object': object(), 'loss_seed': float(rng.rand()),
                'loss_reco': v, 'seed_tensor_name': 'seed_' + name,
                'seed_from_previous_module': bool(rng.rand() < .5),
                'runtime': float(rng.rand())}
            if rng.rand() < 0.3:
                results[name]['extra'] = int(rng.randint(100))
        # results of other modules take no part in the selection
        results['other'] = dict(results[names[0]], loss_reco=-1e9)
        before = {a: dict(b) for a, b in results.items()}
        order = [names[i] for i in rng.permutation(k)]
        values = np.array([float(results[o]['loss_reco']) for o in order])
        selection = make_selection(list(order))
        picked = m.call('selection raised', selection.execute, None,
                        results)
        m.event('selections')
        if not m.check(isinstance(picked, dict), 'no selection', kind):
            continue
        usable = values[np.isfinite(values)]
        if len(usable):
            ok = [o for o, v in zip(order, values) if v == usable.min()]
            if len(ok) > 1:
                m.event('ties')
            if len(usable) < k:
                m.event('undefined')
        else:
            ok = list(order)
            if np.isinf(values).any() and np.isnan(values).any():
                # an infinite loss is not worse than an undefined one
                pass
            m.event('fallbacks')
        m.saw('selection', (k, kind, form, order.index(ok[0])))
        m.check(any(complete(picked, before[o]) for o in ok),
                'selection is not the complete result of the '
                'reconstruction with the smallest loss', kind,
                losses=list(zip(order, values)),
                picked=picked.get('seed_tensor_name'))
        m.check(set(results) == set(before) and all(
            set(results[a]) == set(b) and all(
                results[a][x] is y for x, y in b.items())
            for a, b in before.items()), 'selection changed the results of '
            'other modules', kind)
        # the same selection for every order
        if kind in ('plain', 'negative', 'close') and k <= 4:
            for perm in itertools.permutations(order):
                again = make_selection(list(perm)).execute(None, results)
                m.event('selections')
                m.check(complete(again, before[ok[0]]), 'selection depends '
                        'on the order', kind)


def case_tray(m, rng):
    P = int(rng.randint(3, 7))
    toy = ty.Toy(rng, n_params=P, dtype='float64',
                 seeds=('x_seed_a', 'x_seed_b', 'x_seed_c'))
    fits = {}
    tray = r01.make_tray(toy)
    names = []
    for i in range(4):
        name = 'fit_%d' % i
        seed = ['x_seed_a', 'x_seed_b', 'x_seed_c'][rng.randint(3)]
        fits[name] = toy.random_fit(rng)
        tray.add_module('Reconstruction', name=name, seed_tensor_name=seed,
                        fit_paramater_list=fits[name],
                        scipy_optimizer_settings={
                            'method': 'BFGS', 'options': {
                                'maxiter': int(rng.randint(1, 6))}})
        names.append(name)
    order = [names[i] for i in rng.permutation(4)]
    tray.add_module('SelectBestReconstruction', name='best',
                    reco_names=order)
    tray.add_module('SelectBestReconstruction', name='some',
                    reco_names=order[:2])
    tray.add_module('Reconstruction', name='again', seed_tensor_name='best',
                    fit_paramater_list=fits['fit_0'],
                    seed_from_previous_module=True,
                    scipy_optimizer_settings={'method': 'BFGS'})
    for _ in range(2):
        tensors, an, arrays = toy.batch(rng)
        results = m.call('tray raised', tray.execute, tensors)
        for name, among in (('best', order), ('some', order[:2])):
            m.event('tray selections')
            losses = {o: an.loss(results[o]['result']) for o in among}
            low = min(losses.values())
            got = an.loss(results[name]['result'])
            m.check(got <= low + 1e-9 * (abs(low) + 1), 'selected '
                    'reconstruction does not have the smallest likelihood',
                    name, losses=losses, got=got)
            m.check(abs(float(results[name]['loss_reco']) - got) < 1e-8 * (
                abs(got) + 1), 'loss of the selection does not belong to '
                'its result', name)
            m.saw('tray', (name, len(among)))
        m.check(abs(float(results['again']['loss_seed']) - float(
            results['best']['loss_reco'])) < 1e-8 * (abs(float(
                results['best']['loss_reco'])) + 1),
            'fit does not start at the selected reconstruction', '')


def cases(tier):
    return [Case('results', case_synthetic, 2, 40),
            Case('tray', case_tray, 1, 16)]
