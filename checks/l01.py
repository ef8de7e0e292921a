"""L01: totals are the sums of the event and DOM parts."""
import numpy as np

from vh.core import Case
from vh import losses as ls
from vh import models as md

RULE = ('every loss function and combinations of them (with and without '
        'snowstorm priors) are evaluated for random predictions: scalar, '
        'list of terms, sorted parts, normalised, event by event, in '
        'permuted and split batches, with changed values at excluded DOMs; '
        'all totals are compared; distinct = (loss, norm, exclusions, '
        'reduction)')
ASSUMPTIONS = ['pulses of excluded DOMs have been removed']
BUDGET = {'quick': 15, 'thorough': 400}
REQUIRE = {'totals': 100, 'splits': 30, 'excluded': 10, 'combined': 20}


class Params(object):
    """Parameters of a model without the model (snowstorm priors)."""

    def __init__(self, names):
        from egenerator.model.source.base import InputTensorIndexer
        self.names = list(names)
        self.indexer = InputTensorIndexer

    def get_index(self, name):
        return self.names.index(name)

    def add_parameter_indexing(self, tensor):
        setattr(tensor, 'params', self.indexer(tensor, self.names))
        return tensor


def make_loss(name, norm, rng, dtype='float64', **kw):
    from egenerator.loss.default import DefaultLossModule
    config = dict(float_precision=dtype, add_normalization_term=norm,
                  loss_function_name=name)
    if name == 'unbinned_charge_quantile_pdf':
        config.update(min_charge_quantile=[None, 0.2][rng.randint(2)],
                      max_charge_quantile=[None, 0.9][rng.randint(2)])
    config.update(kw)
    loss = DefaultLossModule()
    loss.configure(config=config)
    return loss


def rows_of(results, data, events, rows):
    """Predictions of a selection of events."""
    return {k: v[rows['x_pulses']] if md.is_vector_result(k) else v[events]
            for k, v in results.items()}


def check_reductions(m, loss, data, results, handler, model, what, sort=True,
                     scale=1.):
    total = float(ls.call(loss, data, results, handler, model))
    tol = dict(rtol=1e-9, atol=1e-9 * (abs(total) + scale))
    terms = ls.call(loss, data, results, handler, model,
                    reduce_to_scalar=False)
    m.event('totals')
    m.close(sum(float(np.sum(t)) for t in terms), total, 'terms', 'sum of '
            'the loss terms of {}'.format(what), **tol)
    if sort:
        parts = ls.call(loss, data, results, handler, model,
                        reduce_to_scalar=False, sort_loss_terms=True)
        m.event('totals')
        n = len(data['x_parameters'])
        m.equal([p.shape for p in parts], [(), (n,), (n, 86, 60)],
                'part-shapes', what)
        m.close(sum(float(np.sum(p)) for p in parts), total, 'sorted',
                'sum of the sorted parts of {}'.format(what), **tol)
        # per event: own parts
        per_event = parts[1] + parts[2].sum(axis=(1, 2)) + parts[0] / n
    else:
        per_event = None
    return total, tol, per_event


def case_single(m, rng, loss_name):
    name = loss_name
    quant = name == 'unbinned_charge_quantile_pdf'
    windows, excl = bool(rng.rand() < 0.5), bool(rng.rand() < 0.7)
    norm = bool(rng.rand() < 0.6)
    n = int(rng.randint(2, 5))
    handler = ls.handler_for(windows, excl, quant)
    data = ls.make_data(rng, n, windows, excl, quantiles=quant)
    results = ls.predictions(rng, data, windows, ['typical', 'dark',
                                                  'bright'][rng.randint(3)])
    loss = make_loss(name, norm, rng)
    what = (name, norm, windows, excl)
    m.saw('losses', what)
    total, tol, per_event = check_reductions(m, loss, data, results, handler,
                                             None, what)
    m.raises(lambda: ls.call(loss, data, results, handler,
                             sort_loss_terms=True), 'refused',
             'sorting and reducing at once')
    # normalised by the number of terms
    number = data['x_pulses'][:, 0].sum() + 5160 * n
    m.event('totals')
    m.close(ls.call(loss, data, results, handler,
                    normalize_by_total_charge=True), total / number,
            'normalized', 'normalised loss of {}'.format(what), rtol=1e-8,
            atol=1e-12)
    m.close(sum(np.sum(t) for t in ls.call(
        loss, data, results, handler, normalize_by_total_charge=True,
        reduce_to_scalar=False, sort_loss_terms=True)), total / number,
        'normalized', 'normalised parts of {}'.format(what), rtol=1e-8,
        atol=1e-12)
    # the batch is the sum of its events
    single = []
    for i in range(n):
        events = np.array([i])
        part, rows = md.select_events(data, events)
        m.event('splits')
        single.append(float(ls.call(loss, part, rows_of(
            results, data, events, rows), handler)))
    m.close(sum(single), total, 'batch', 'loss of the batch of {}'.format(
        what), **tol)
    m.close(per_event, np.array(single), 'event-parts', 'event parts of '
            '{}'.format(what), rtol=1e-9, atol=tol['atol'])
    # order of the events
    perm = rng.permutation(n)
    part, rows = md.select_events(data, perm)
    m.event('splits')
    m.close(ls.call(loss, part, rows_of(results, data, perm, rows), handler),
            total, 'order', 'permuted events of {}'.format(what), **tol)
    # excluded DOMs
    if excl:
        out = ~data['x_dom_exclusions']
        other = dict(data, x_dom_charge=data['x_dom_charge'].copy())
        changed = {k: v.copy() for k, v in results.items()}
        k = int(out.sum())
        other['x_dom_charge'][out] = rng.exponential(20, k)
        changed['dom_charges'][out] = 10**rng.uniform(-5, 3, k)
        changed['dom_charges_variance'][out] = changed['dom_charges'][out] \
            + 10**rng.uniform(-3, 4, k)
        changed['dom_charges_log_pdf_values'][out] = -rng.exponential(9, k)
        if windows:
            changed['dom_cdf_exclusion_sum'][out] = rng.rand(k)
        m.event('excluded', k)
        m.close(ls.call(loss, other, changed, handler), total, 'excluded',
                'excluded DOMs contribute to {}'.format(what), **tol)
        parts = ls.call(loss, other, changed, handler,
                        reduce_to_scalar=False, sort_loss_terms=True)
        m.check(np.all(parts[2][out[..., 0]] == 0), 'excluded-parts',
                'DOM parts of excluded DOMs of {}'.format(what),
                observed=parts[2][out[..., 0]])
    # DOMs which are included do contribute
    if name not in ('unbinned_pulse_time_llh', 'unbinned_charge_quantile_pdf',
                    'unbinned_extended_pulse_llh'):
        return
    if not len(data['x_pulses']):
        return
    key = 'pulse_quantile_pdf' if quant else 'pulse_pdf'
    changed = dict(results)
    changed[key] = results[key] * 3 + 1e-3
    if quant and loss.configuration.config['config'].get(
            'min_charge_quantile') is not None:
        return
    m.check(abs(float(ls.call(loss, data, changed, handler)) - total) > 1e-9,
            'ignored', 'pulses do not contribute to {}'.format(what))


def case_combined(m, rng):
    from egenerator.loss.multi_loss import MultiLossModule
    from egenerator.loss.snowstorm import SnowstormPriorLossModule
    windows, excl = bool(rng.rand() < 0.5), bool(rng.rand() < 0.7)
    n = int(rng.randint(1, 4))
    handler = ls.handler_for(windows, excl, True)
    data = ls.make_data(rng, n, windows, excl, quantiles=True)
    results = ls.predictions(rng, data, windows)
    names = ['p{}'.format(i) for i in range(7)]
    k = int(rng.randint(0, 4))
    names[2:2 + k] = ['IceWavePlusModes_{:02d}'.format(i) for i in range(k)]
    model = Params(names)
    members = [make_loss(ls.NAMES[i], bool(rng.rand() < 0.5), rng)
               for i in rng.choice(len(ls.NAMES), rng.randint(1, 4),
                                   replace=False)]
    if rng.rand() < 0.7:
        prior = SnowstormPriorLossModule()
        prior.configure(config={
            'sigmas': [float(v) for v in rng.uniform(0.1, 2, k)],
            'uniform_parameters': {'p0': [-1., 1.], 'p6': [0., .5]}})
        members.insert(rng.randint(len(members) + 1), prior)
    data['x_parameters'] = rng.normal(size=(n, 7))
    # priors are evaluated in single precision (their sigmas)
    if any(isinstance(x, SnowstormPriorLossModule) for x in members):
        data = {k: v.astype('float32') if v.dtype.kind == 'f' else v
                for k, v in data.items()}
        results = {k: v.astype('float32') for k, v in results.items()}
        members = [x if isinstance(x, SnowstormPriorLossModule) else
                   make_loss(x.configuration.config['config'][
                       'loss_function_name'], bool(rng.rand() < 0.5), rng,
                       dtype='float32') for x in members]
        handler = ls.handler_for(windows, excl, True, 'float32')
        tol = dict(rtol=1e-4)
    else:
        tol = dict(rtol=1e-9)
    multi = MultiLossModule()
    multi.configure(loss_modules=members)
    m.event('combined')
    kinds = tuple(x.configuration.config.get('config', {}).get(
        'loss_function_name', 'prior') for x in members)
    m.saw('combinations', (kinds, windows, excl))
    single = [float(ls.call(x, data, results, handler, model))
              for x in members]
    total = float(ls.call(multi, data, results, handler, model))
    scale = sum(abs(s) for s in single) + 1
    tol['atol'] = tol['rtol'] * scale * 10
    m.close(total, sum(single), 'combined', 'scalar of {}'.format(kinds),
            **tol)
    m.event('totals', 3)
    parts = ls.call(multi, data, results, handler, model,
                    reduce_to_scalar=False, sort_loss_terms=True)
    own = [ls.call(x, data, results, handler, model, reduce_to_scalar=False,
                   sort_loss_terms=True) for x in members]
    m.equal(len(parts), 3, 'part-shapes', 'sorted parts')
    for i in range(3):
        m.close(parts[i], sum(p[i] for p in own), 'combined-parts',
                'sorted part {} of {}'.format(i, kinds), **tol)
    terms = ls.call(multi, data, results, handler, model,
                    reduce_to_scalar=False)
    m.close(sum(float(np.sum(t)) for t in terms), total, 'terms',
            'terms of {}'.format(kinds), **tol)
    order = [members[i] for i in rng.permutation(len(members))]
    other = MultiLossModule()
    other.configure(loss_modules=order)
    m.event('combined')
    m.close(ls.call(other, data, results, handler, model), total, 'order',
            'order of the members', **tol)
    # settings are handed on to the members
    norm = [float(ls.call(x, data, results, handler, model,
                          normalize_by_total_charge=True)) for x in members]
    m.close(ls.call(multi, data, results, handler, model,
                    normalize_by_total_charge=True), sum(norm), 'combined',
            'normalised {}'.format(kinds), rtol=tol['rtol'],
            atol=tol['rtol'] * sum(abs(v) for v in norm) * 10 + 1e-12)


def case_graph(m, rng):
    """The same inside of a compiled function, with gradients."""
    import tensorflow as tf
    name = ls.NAMES[rng.randint(3)]
    handler = ls.handler_for(True, True, False)
    data = ls.make_data(rng, 2, True, True, quantiles=False)
    results = ls.predictions(rng, data, True)
    loss = make_loss(name, True, rng)
    batch = md.batch_dict(handler, data)
    result = {k: tf.constant(v) for k, v in results.items()}

    @tf.function
    def func():
        scalar = loss.get_loss(batch, result, handler.tensors, model=None)
        parts = loss.get_loss(batch, result, handler.tensors, model=None,
                              reduce_to_scalar=False, sort_loss_terms=True)
        return scalar, parts
    scalar, parts = func()
    total = float(ls.call(loss, data, results, handler))
    m.event('totals', 2)
    m.saw('losses', (name, 'graph'))
    m.close(scalar.numpy(), total, 'graph', 'graph of ' + name, rtol=1e-9)
    m.close(sum(float(np.sum(p.numpy())) for p in parts), total, 'graph',
            'sorted parts, graph of ' + name, rtol=1e-9)


def cases(tier):
    out = [Case(name, case_single, reps=3, reps_thorough=100, loss_name=name)
           for name in ls.NAMES]
    out.append(Case('combined', case_combined, reps=10, reps_thorough=200))
    out.append(Case('graph', case_graph, reps=2, reps_thorough=20))
    return out
