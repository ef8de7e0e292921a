"""M03: multi-source hypotheses are superpositions of their sources."""
import numpy as np

from vh.core import Case
from vh import models as md

RULE = ('multi-source models (independent sources with shared and distinct '
        'bases and noise, multi-cascade muons, stochastic tracks) are '
        'evaluated eagerly and as graphs with several parameter tensors; '
        'every base model is evaluated on its own with parameters computed '
        'by an independent oracle from the parameter names, and the '
        'superposition is recomputed in double precision; distinct = (kind, '
        'number of sources, mode, parameter tensor)')
ASSUMPTIONS = ['tolerance of single precision arithmetic']
BUDGET = {'quick': 18, 'thorough': 500}
REQUIRE = {'superpositions': 16, 'sources': 40, 'tensors': 50,
           'source_parameters': 20}
C = 0.299792458


def direction(zen, azi):
    return -np.stack([np.sin(zen) * np.cos(azi), np.sin(zen) * np.sin(azi),
                      np.cos(zen)], axis=-1)


def oracle_sources(kind, model, params):
    """[(source name, base name, parameter matrix)] by parameter name."""
    names = list(model.parameter_names)
    col = {n: params[:, i].astype(float) for i, n in enumerate(names)}
    config = model.configuration.config['config']
    out = []
    if kind == 'independent':
        for source, base in config['sources'].items():
            wanted = model.sub_components[base].parameter_names
            cols = [col[source + '_' + w] for w in wanted]
            out.append((source, base, np.stack(cols, 1) if cols else
                        np.zeros((len(params), 0))))
        return out
    d = direction(col['zenith'], col['azimuth'])
    if kind == 'muon':
        pos = np.stack([col[k] for k in 'xyz'], 1)
        s = -np.sum(d * pos, axis=1)
        centre = pos + s[:, None] * d
        t = col['time'] + s / C
        k = config['num_cascades']
        for i in range(k):
            # k points from -500 m to 500 m (np.linspace(-500, 500, 1) = -500)
            dist = -500. + (1000. * i / (k - 1) if k > 1 else 0.)
            p = centre + dist * d
            energy = np.exp(col['cascade_{:04d}_log_energy'.format(i)])
            energy = np.where(np.any(np.abs(p) > 700, axis=1), 0., energy)
            out.append(('cascade_{:04d}'.format(i), 'cascade', np.stack(
                [p[:, 0], p[:, 1], p[:, 2], col['zenith'], col['azimuth'],
                 energy, t + dist / C], 1)))
        return out
    snow = []
    for name, k in config.get('snowstorm_parameter_names', []):
        snow += [col[name.format(i)] for i in range(k)]
    anchor = np.stack([col['track_anchor_' + k] for k in 'xyz'], 1)
    t = col['track_anchor_time']
    start = col['track_distance_start']
    p = anchor + start[:, None] * d
    out.append(('track', 'track', np.stack(
        [p[:, 0], p[:, 1], p[:, 2], col['zenith'], col['azimuth'],
         col['track_energy'], t + start / C,
         col['track_distance_end'] - start, col['track_stochasticity']]
        + snow, 1)))
    for i in range(config['num_cascades']):
        name = 'cascade_{:04d}'.format(i)
        dist = col[name + '_distance'] if i else np.zeros(len(params))
        p = anchor + dist[:, None] * d
        out.append((name, 'cascade', np.stack(
            [p[:, 0], p[:, 1], p[:, 2], col['zenith'], col['azimuth'],
             col[name + '_energy'], t + dist / C] + snow, 1)))
    return out


def superposition(results, ids):
    charge = sum(r['dom_charges'].astype(float) for r in results)
    out = {'dom_charges': charge,
           'dom_charges_variance': sum(
               r['dom_charges_variance'].astype(float) for r in results)}
    ids = tuple(ids.T)
    weight = [r['dom_charges'][..., 0][ids].astype(float) for r in results]
    out['pulse_pdf'] = sum(w * r['pulse_pdf'] for w, r in zip(
        weight, results)) / (sum(weight) + 1e-6)
    if all('dom_cdf_exclusion_sum' in r for r in results):
        out['dom_cdf_exclusion_sum'] = sum(
            r['dom_charges'].astype(float) * r['dom_cdf_exclusion_sum']
            for r in results) / charge
    return out


def check_model(m, rng, kind, handler, model, sampler, seeds=(), graph=False,
                n=3):
    windows = md.has_windows(handler)
    params = sampler(n)
    tensor = seeds[rng.randint(len(seeds))] if seeds and rng.rand() < 0.6 \
        else 'x_parameters'
    values = {s: sampler(n) for s in seeds}
    data = md.make_batch(rng, params, time_exclusions=windows,
                         mean_pulses=30, seeds=values)
    used = data[tensor]
    sources = oracle_sources(kind, model, used)
    m.event('superpositions')
    m.saw('models', (kind, len(sources), graph, tensor, windows))
    got = md.evaluate(model, handler, data, graph=graph,
                      parameter_tensor_name=tensor)
    # parameters handed to every source
    import tensorflow as tf
    with md.eager():
        indexed = model.add_parameter_indexing(tf.constant(used))
        handed = model.get_source_parameters(indexed)
    m.equal(sorted(handed), sorted(s[0] for s in sources), 'source-names',
            'names of the sources')
    results = []
    for name, base, own in sources:
        m.event('sources')
        m.event('source_parameters')
        m.saw('sources', (kind, name, base))
        m.close(handed[name].numpy(), own, 'source-parameters',
                'parameters of source {} ({})'.format(name, kind),
                rtol=2e-5, atol=2e-2 if kind != 'independent' else 0)
        single = dict(data, x_parameters=own.astype(np.float32))
        # exactly what the source has been handed (no rounding differences)
        single['x_parameters'] = handed[name].numpy()
        results.append(md.evaluate(model.sub_components[base], handler,
                                   single))
    want = superposition(results, data['x_pulses_ids'])
    m.equal(sorted(got), sorted(want), 'result-names', 'names of the result '
            'tensors', model=kind)
    for key in want:
        m.event('tensors')
        m.close(got[key], want[key], 'superposition',
                '{} of {} with {} sources ({}, {})'.format(
                    key, kind, len(sources), 'graph' if graph else 'eager',
                    tensor), rtol=2e-3 if graph else 2e-4, atol=1e-7)


def case_random(m, rng, kind, graph=False):
    seeds = ['seed_a', 'seed_b'][:rng.randint(0, 3)]
    handler, model, sampler = md.build_multi(kind, rng, seeds=seeds)
    check_model(m, rng, kind, handler, model, sampler, seeds, graph)


def case_bases(m, rng):
    """Very different bases: mixing them up cannot go unnoticed."""
    from vh.models import setup, cascade_values, make_cascade, make_noise, \
        cascade_config, randomize, independent, stack_columns
    windows = bool(rng.rand() < 0.5)
    values = cascade_values(rng, 24)
    names = ['b', 'a', 'noise', 'c', 'd'][:rng.randint(3, 6)]
    names = [names[i] for i in rng.permutation(len(names))]
    charge = [True, 'negative_binomial', False][rng.randint(3)]
    bases, base_of = {}, {}
    for i in range(3):
        _, trafo = setup(rng, values, time_exclusions=windows,
                         param_log=[j == 5 for j in range(7)])
        bases['base{}'.format(i)] = make_cascade(trafo, cascade_config(
            charge=charge, n_models=2 + i % 2, scale=bool(i % 2)))
        randomize(bases['base{}'.format(i)], rng, 0.1 + 0.2 * i)
    _, trafo = setup(rng, np.zeros((24, 1), np.float32),
                     time_exclusions=windows)
    bases['zz_noise'] = make_noise(trafo)
    randomize(bases['zz_noise'], rng, 0.3)
    for name in names:
        base_of[name] = 'zz_noise' if name == 'noise' else \
            'base{}'.format(rng.randint(3))
    bases = {b: bases[b] for b in bases if b in base_of.values()}
    columns = [n + '_' + p for n in sorted(names) if n != 'noise'
               for p in md.CASCADE]
    handler, trafo = setup(rng, stack_columns(rng, 24, columns),
                           time_exclusions=windows)
    model = independent(trafo, base_of, bases)
    m.equal(list(model.parameter_names), columns, 'parameter-names',
            'parameter names of the multi source')

    def sampler(k):
        return stack_columns(rng, k, columns)
    check_model(m, rng, 'independent', handler, model, sampler, n=2)
    # the order of the configured sources is irrelevant
    order = [names[i] for i in rng.permutation(len(names))]
    other = independent(trafo, {k: base_of[k] for k in order}, bases)
    data = md.make_batch(rng, sampler(2), time_exclusions=windows)
    a = md.evaluate(model, handler, data)
    b = md.evaluate(other, handler, data)
    m.event('superpositions')
    for key in a:
        m.close(b[key], a[key], 'source-order', '{} depends on the order of '
                'the configured sources'.format(key), rtol=2e-4, atol=1e-7)


def cases(tier):
    out = []
    for kind in md.MULTI:
        out.append(Case('eager_' + kind, case_random, reps=2,
                        reps_thorough=40, kind=kind))
    out.append(Case('bases', case_bases, reps=3, reps_thorough=40))
    for kind in md.MULTI if tier == 'thorough' else ('independent', 'muon'):
        out.append(Case('graph_' + kind, case_random, reps=1,
                        reps_thorough=8, kind=kind, graph=True))
    return out
