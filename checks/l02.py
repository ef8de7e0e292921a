"""L02: losses are the documented negative log likelihoods."""
import numpy as np

from vh.core import Case
from vh import losses as ls
from vh import models as md

RULE = ('every loss function is evaluated for random predictions (dark, '
        'typical, bright), charges (zero included), exclusions and pulses '
        'in double and single precision and compared event by event and DOM '
        'by DOM with an independent NumPy/SciPy likelihood; the effect of '
        'the normalisation term is compared between hypotheses; the same '
        'with predictions of real models; distinct = (loss, norm, '
        'exclusions, regime, precision)')
ASSUMPTIONS = ['the continuous factorial is constant below one, the small '
               'constants (1e-7, 5e-5) of the code are part of the '
               'definition',
               'pulses in excluded windows and DOMs have been removed']
BUDGET = {'quick': 14, 'thorough': 400}
REQUIRE = {'losses': 60, 'parts': 60, 'norm_shifts': 10, 'models': 4}


def setting(rng, name):
    return dict(windows=bool(rng.rand() < 0.5), excl=bool(rng.rand() < 0.6),
                norm=bool(rng.rand() < 0.5),
                regime=['typical', 'dark', 'bright'][rng.randint(3)])


def limits(rng):
    low = [None, 0., 0.3, float(rng.uniform(0, 0.5))][rng.randint(4)]
    high = [None, 1., 0.7, float(rng.uniform(0.5, 1))][rng.randint(4)]
    return low, high


def case_value(m, rng, loss_name, dtype):
    name = loss_name
    s = setting(rng, name)
    low, high = limits(rng)
    quant = name == 'unbinned_charge_quantile_pdf'
    n = int(rng.randint(1, 4))
    handler = ls.handler_for(s['windows'], s['excl'], quant, dtype)
    data = ls.make_data(rng, n, s['windows'], s['excl'], quantiles=quant,
                        dtype=dtype, pulses=[0.3, 25, 60][rng.randint(3)])
    if quant and len(data['x_pulses']) > 1 and rng.rand() < 0.6:
        # limits which coincide with the quantiles of pulses: inclusive
        values = np.sort(data['x_pulses'][:, 2])
        cut = int(rng.randint(1, len(values)))
        low = float(values[rng.randint(cut)])
        high = float(values[rng.randint(cut, len(values))])
        m.event('limits_at_pulses')
    # without the mask pulses of excluded DOMs are part of the data
    results = ls.predictions(rng, data, s['windows'], s['regime'], dtype)
    extra = dict(min_charge_quantile=low, max_charge_quantile=high) \
        if quant else {}
    loss = md.make_loss(name, norm=s['norm'], **extra)
    loss_config = dict(loss.configuration.config['config'])
    if dtype != 'float32':
        from egenerator.loss.default import DefaultLossModule
        loss = DefaultLossModule()
        loss_config['float_precision'] = dtype
        loss.configure(config=loss_config)
    event, dom = ls.expected(name, data, results, s['excl'], s['norm'],
                             low, high)
    total = event.sum() + dom.sum()
    m.event('losses')
    m.saw('losses', (name, s['norm'], s['windows'], s['excl'], s['regime'],
                     dtype))
    double = dtype == 'float64'
    # small probabilities are resolved by the single precision logarithm
    scale = np.abs(event).sum() + np.abs(dom).sum() + 1
    tol = dict(rtol=1e-9 if double else 1e-4,
               atol=(1e-10 if double else 3e-6) * scale)
    got = ls.call(loss, data, results, handler)
    m.close(got, total, 'value', 'scalar of {} {}'.format(name, s), **tol)
    parts = ls.call(loss, data, results, handler, reduce_to_scalar=False,
                    sort_loss_terms=True)
    m.event('parts')
    m.equal(len(parts), 3, 'parts', 'number of sorted terms')
    m.close(parts[1], event + 0 * data['x_dom_charge'][:, 0, 0, 0], 'event',
            'event part of ' + name, **tol)
    m.close(parts[0], 0., 'scalar-part', 'scalar part of ' + name, atol=1e-12)
    m.equal(parts[2].shape, dom.shape, 'shape', 'DOM part of ' + name)
    dom_tol = dict(tol)
    if double:
        dom_tol['atol'] = 1e-8 * (1 + np.abs(dom).max())
    m.close(parts[2], dom, 'dom', 'DOM part of ' + name, **dom_tol)


def case_norm(m, rng, loss_name):
    """The normalisation does not depend on the hypothesis."""
    name = loss_name
    s = setting(rng, name)
    quant = name == 'unbinned_charge_quantile_pdf'
    extra = dict(min_charge_quantile=None, max_charge_quantile=0.8) \
        if quant else {}
    handler = ls.handler_for(s['windows'], s['excl'], quant)
    data = ls.make_data(rng, 2, s['windows'], s['excl'], quantiles=quant)
    shift = []
    for regime in ('typical', 'dark', 'bright'):
        results = ls.predictions(rng, data, s['windows'], regime)
        value = []
        for norm in (False, True):
            from egenerator.loss.default import DefaultLossModule
            loss = DefaultLossModule()
            loss.configure(config=dict(float_precision='float64',
                                       add_normalization_term=norm,
                                       loss_function_name=name, **extra))
            value.append(ls.call(loss, data, results, handler))
        shift.append(value[1] - value[0])
        m.event('norm_shifts')
    m.saw('norms', name)
    m.close(np.array(shift), np.full(3, shift[0]), 'norm-shift', 'the '
            'normalisation of {} depends on the hypothesis'.format(name),
            rtol=1e-7, atol=1e-6)
    if name in ls.WITH_NORM and len(data['x_pulses']):
        q = data['x_pulses'][:, 0]
        want = ls.log_faculty(q).sum()
        if name != 'unbinned_pulse_time_llh':
            valid = data['x_dom_exclusions'] if s['excl'] else 1.
            want += ls.log_faculty(data['x_dom_charge'] * valid).sum()
        m.close(shift[0], want, 'norm-value', 'normalisation of ' + name,
                rtol=1e-7, atol=1e-6)


def case_model(m, rng, kind):
    """Predictions of real models."""
    kw = {} if kind in ('noise', 'quantile') else {
        'charge': [True, 'negative_binomial'][rng.randint(2)]}
    handler, model, sampler = md.any_model(kind, rng, **kw)
    windows = md.has_windows(handler)
    data = md.make_batch(rng, sampler(2), quantiles=kind == 'quantile',
                         time_exclusions=windows, mean_pulses=40)
    results = md.evaluate(model, handler, data)
    m.event('models')
    if kind == 'quantile':
        names = ['unbinned_charge_quantile_pdf']
    else:
        names = ['unbinned_extended_pulse_llh', 'unbinned_pulse_time_llh',
                 'normalized_dom_charge_pdf',
                 'negative_binomial_event_charge_pdf']
        if 'dom_charges_log_pdf_values' in results:
            names += ['unbinned_pulse_and_dom_charge_pdf',
                      'dom_and_event_charge_pdf']
    for name in names:
        extra = dict(min_charge_quantile=0.1, max_charge_quantile=None) \
            if kind == 'quantile' else {}
        loss = md.make_loss(name, norm=True, **extra)
        got = ls.call(loss, data, results, handler, model=model)
        fill = dict(results)
        for key in ('dom_charges_log_pdf_values', 'pulse_pdf'):
            fill.setdefault(key, results['dom_charges'])
        event, dom = ls.expected(name, data, fill, True, True,
                                 extra.get('min_charge_quantile'), None)
        scale = np.abs(event).sum() + np.abs(dom).sum() + 1
        factor = 30 if name.startswith('negative') else 1
        m.event('losses')
        m.saw('losses', (name, kind))
        m.close(got, event.sum() + dom.sum(), 'value', '{} of a {} '
                'model'.format(name, kind), rtol=1e-3,
                atol=3e-5 * scale * factor)


def case_missing(m, rng):
    """Models which ignore time exclusions are refused."""
    for name in ls.NAMES:
        quant = name == 'unbinned_charge_quantile_pdf'
        handler = ls.handler_for(True, True, quant)
        data = ls.make_data(rng, 1, True, True, quantiles=quant)
        results = ls.predictions(rng, data, False)
        loss = md.make_loss(name, **(dict(min_charge_quantile=None,
                                          max_charge_quantile=None)
                                     if quant else {}))
        m.event('refusals')
        m.raises(lambda: ls.call(loss, data, results, handler),
                 'exclusions-refused', name + ' with a model that ignores '
                 'time exclusions')


def cases(tier):
    out = []
    for name in ls.NAMES:
        out.append(Case('double_' + name, case_value, reps=5,
                        reps_thorough=200, loss_name=name, dtype='float64'))
        # (differences of huge lgamma values are not resolved in single)
        if not name.startswith('negative_binomial'):
            out.append(Case('single_' + name, case_value, reps=2,
                            reps_thorough=50, loss_name=name,
                            dtype='float32'))
        out.append(Case('norm_' + name, case_norm, reps=1, reps_thorough=30,
                        loss_name=name))
    for kind in ('cascade', 'independent', 'noise', 'quantile', 'muon'):
        out.append(Case('model_' + kind, case_model, reps=1,
                        reps_thorough=20, kind=kind))
    out.append(Case('missing', case_missing, reps=1))
    return out
