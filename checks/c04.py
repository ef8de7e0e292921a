"""C04: tensor lists keep names, order and properties consistently."""
import copy
import pickle

import numpy as np
import ruamel.yaml as yaml

from vh.core import Case
from vh import comps

RULE = ('random tensor definitions (all properties, extra specifications, '
        'permuted orders, single properties changed) go through the real '
        'DataTensor / DataTensorList; every lookup, comparison and serialised '
        'copy is compared with the plain definitions; each documented '
        'malformation has to be refused; distinct = (property changed, '
        'malformation)')
ASSUMPTIONS = []
BUDGET = {'quick': 10, 'thorough': 200}
REQUIRE = {'lists': 100, 'lookups': 400, 'comparisons': 400,
           'serialised': 200, 'malformed': 200, 'aspects': 12,
           'malformations': 10}

DTYPES = ['float32', 'float64', 'int32', 'int64', 'bool', 'uint8', 'float16']
TYPES = ['data', 'label', 'weight', 'misc', 'prediction']
NAMES = ['x_pulses', 'x_pulses_ids', 'b', 'B', 'a', u'\u00e4', 'x_1', 'x_10',
         'x_2', 'x-2', 'tensor with space', '', '_', 'zz']


def definition(rng, name):
    rank = rng.randint(1, 5)
    shape = [None] + [int(rng.randint(1, 5)) for _ in range(rank - 1)]
    d = dict(name=name, shape=shape, tensor_type=TYPES[rng.randint(5)],
             dtype=DTYPES[rng.randint(len(DTYPES))])
    if rng.rand() < 0.5:
        d['exists'] = bool(rng.rand() < 0.5)
    if rng.rand() < 0.5:
        d['vector_info'] = {'type': ['index', 'value'][rng.randint(2)],
                            'reference': NAMES[rng.randint(len(NAMES))]}
        if rng.rand() < 0.3:
            d['vector_info']['additional'] = comps.random_value(rng)
    if rng.rand() < 0.6:
        d['trafo'] = bool(rng.rand() < 0.7)
        d['trafo_reduce_axes'] = tuple(
            int(v) for v in range(1, rank) if rng.rand() < 0.5)
        if rank > 1:
            d['trafo_log_axis'] = int([-1, rank - 1, 1][rng.randint(3)])
            d['trafo_log'] = [None, True, False, [
                bool(rng.rand() < 0.5) for _ in range(
                    shape[d['trafo_log_axis']])]][rng.randint(4)]
        d['trafo_batch_axis'] = 0
    for _ in range(rng.randint(0, 3)):
        d[['cache', 'spec', 'note', 'type', 'list'][rng.randint(5)]] = \
            comps.random_value(rng)
    return d


EXPLICIT = {'name', 'shape', 'tensor_type', 'dtype', 'exists', 'vector_info',
            'trafo', 'trafo_reduce_axes', 'trafo_log', 'trafo_log_axis',
            'trafo_batch_axis'}
DEFAULTS = dict(exists=True, vector_info=None, trafo=False,
                trafo_reduce_axes=(), trafo_log=None, trafo_log_axis=-1,
                trafo_batch_axis=0)


def expected(d):
    out = dict(DEFAULTS)
    out.update({k: v for k, v in d.items() if k in EXPLICIT})
    if isinstance(out['trafo_log'], bool):
        out['trafo_log'] = [out['trafo_log']] * out['shape'][
            out['trafo_log_axis']]
    out['specs'] = {k: v for k, v in d.items() if k not in EXPLICIT}
    return out


def observed(t):
    return dict(name=t.name, shape=t.shape, tensor_type=t.type, dtype=t.dtype,
                exists=t.exists, vector_info=t.vector_info, trafo=t.trafo,
                trafo_reduce_axes=t.trafo_reduce_axes, trafo_log=t.trafo_log,
                trafo_log_axis=t.trafo_log_axis,
                trafo_batch_axis=t.trafo_batch_axis, specs=t.specs)


def check_list(m, lst, defs, where):
    """All views on the list agree with the definitions."""
    want = {d['name']: expected(d) for d in defs}
    m.equal(sorted(lst.names), sorted(want), 'names', **where)
    m.equal(lst.len, len(want), 'length', **where)
    m.equal(len(lst.list), len(want), 'length', **where)
    for i, name in enumerate(lst.names):
        m.event('lookups')
        tensor = lst.list[i]
        m.equal(tensor.name, name, 'index-of-name', **where)
        m.equal(lst.get_index(name), i, 'get-index', **where)
        m.equal(lst.get_name(i), name, 'get-name', **where)
        m.check(lst[name] is tensor, 'get-item', **where)
        m.equal(lst.shapes[i], tensor.shape, 'shapes', **where)
        m.equal(lst.types[i], tensor.type, 'types', **where)
        m.equal(lst.exists[i], tensor.exists, 'exists', **where)
        m.check(comps.freeze(observed(tensor)) == comps.freeze(want[name]),
                'properties', 'properties of {!r} changed'.format(name),
                observed=observed(tensor), expected=want[name], **where)
    m.raises(lambda: lst['not there'], 'found-unknown-name')
    m.raises(lambda: lst.get_index('not there'), 'found-unknown-name')
    m.raises(lambda: lst.get_name(len(want)), 'found-unknown-index')


def make(defs):
    from egenerator.data.tensor import DataTensor, DataTensorList
    return DataTensorList([DataTensor(**copy.deepcopy(d)) for d in defs])


def case_lists(m, rng, n):
    from egenerator.data.tensor import DataTensor, DataTensorList
    for _ in range(n):
        k = rng.randint(0, 8)
        names = [NAMES[i] for i in rng.permutation(len(NAMES))[:k]]
        defs = [definition(rng, name) for name in names]
        frozen = comps.freeze(defs)
        tensors = [m.call('define', DataTensor, **copy.deepcopy(d))
                   for d in defs]
        lst = m.call('list', DataTensorList, tensors)
        m.event('lists')
        m.saw('list-length', k)
        check_list(m, lst, defs, dict(how='original'))
        m.check(comps.freeze(defs) == frozen, 'arguments-modified')

        # copies through all serialised forms
        serial = m.call('serialize', lst.serialize)
        text = yaml.dump(serial)
        copies = {
            'deserialize': lst.deserialize(serial),
            'from-list': DataTensorList(lst),
            'from-serial': DataTensorList(serial),
            'pickle': pickle.loads(pickle.dumps(lst, protocol=2)),
            'deepcopy': copy.deepcopy(lst),
            'yaml': DataTensorList(yaml.load(text, Loader=yaml.Loader)),
            'twice': DataTensorList(DataTensorList(serial).serialize()),
        }
        again = comps.freeze(lst.serialize())
        for how, other in copies.items():
            m.event('serialised')
            m.check(lst == other and other == lst and not lst != other,
                    'copy-not-equal', how, defs=defs)
            m.equal(other.names, lst.names, 'order', how)
            check_list(m, other, defs, dict(how=how))
        m.check(comps.freeze(lst.serialize()) == again, 'serial-changed')

        # order of definition does not matter
        shuffled = make([defs[i] for i in rng.permutation(k)])
        m.equal(shuffled.names, lst.names, 'order', 'shuffled')
        m.check(shuffled == lst, 'permutation-not-equal')

        # the list is independent of the objects it was made from
        if k:
            t = tensors[rng.randint(k)]
            t.shape.append(99)
            t.specs['new'] = 1
            t.exists = not t.exists
            serial[0]['shape'].append(99)
            check_list(m, lst, defs, dict(how='after changing inputs'))

        # any difference in any property makes lists unequal
        if not k:
            continue
        for _ in range(4):
            i = rng.randint(k)
            aspect, changed = change(rng, defs[i], names)
            if changed is None:
                continue
            m.event('comparisons')
            m.saw('aspects', aspect)
            other = make(defs[:i] + [changed] + defs[i + 1:])
            m.check(lst != other and other != lst and not lst == other,
                    'different-but-equal', 'lists which differ in {} compare '
                    'equal'.format(aspect), a=defs[i], b=changed)
            m.check(DataTensor(**defs[i]) != DataTensor(**changed),
                    'different-but-equal', aspect)
        m.check(make(defs[:-1]) != lst and lst != make(defs[:-1]),
                'different-but-equal', 'number of tensors')
        m.check(lst != serial and tensors[0] != 3 and lst != 'x',
                'different-but-equal', 'other classes')


def change(rng, d, names):
    new = copy.deepcopy(d)
    aspect = ['name', 'shape', 'rank', 'tensor_type', 'dtype', 'exists',
              'vector_type', 'vector_reference', 'vector_none', 'trafo',
              'trafo_reduce_axes', 'trafo_log', 'trafo_log_axis',
              'trafo_batch_axis', 'spec', 'spec_value'][rng.randint(16)]
    full = expected(d)
    if aspect == 'name':
        free = [x for x in NAMES + ['other'] if x not in names]
        new['name'] = free[rng.randint(len(free))]
    elif aspect == 'shape':
        new['shape'] = list(d['shape'])
        new['shape'][0] = 17
    elif aspect == 'rank':
        new['shape'] = [3] + list(d['shape'])
        if d.get('trafo_log_axis', -1) != -1:
            return aspect, None
    elif aspect == 'tensor_type':
        new[aspect] = [t for t in TYPES if t != d[aspect]][rng.randint(4)]
    elif aspect == 'dtype':
        new[aspect] = [t for t in DTYPES if t != d[aspect]][rng.randint(6)]
    elif aspect in ('exists', 'trafo'):
        new[aspect] = not full[aspect]
    elif aspect.startswith('vector'):
        if full['vector_info'] is None:
            new['vector_info'] = {'type': 'index', 'reference': 'b'}
        elif aspect == 'vector_none':
            new['vector_info'] = None
        elif aspect == 'vector_type':
            new['vector_info']['type'] = {'index': 'value', 'value': 'index'}[
                full['vector_info']['type']]
        else:
            new['vector_info']['reference'] += 'x'
    elif aspect == 'trafo_reduce_axes':
        new[aspect] = tuple(full[aspect]) + (7,)
    elif aspect == 'trafo_log':
        if len(d['shape']) < 2:
            return aspect, None
        size = d['shape'][full['trafo_log_axis']]
        log = full['trafo_log'] or [False] * size
        log = list(log)
        j = rng.randint(size)
        log[j] = not log[j]
        new['trafo_log'] = log
    elif aspect == 'trafo_log_axis':
        new['trafo_log'] = full['trafo_log']
        new[aspect] = full[aspect] + 5
    elif aspect == 'trafo_batch_axis':
        new[aspect] = 1
    elif aspect == 'spec':
        new['another_spec'] = None
    else:
        if not full['specs']:
            return aspect, None
        key = sorted(full['specs'])[rng.randint(len(full['specs']))]
        new[key] = [new[key], 'changed']
    return aspect, new


def case_malformed(m, rng, n):
    from egenerator.data.tensor import DataTensor, DataTensorList
    for _ in range(n):
        good = definition(rng, 'x')
        bad = {
            'no-shape': dict(shape=None),
            'type': dict(tensor_type=['Data', 'labels', None, 1, '',
                                      'x'][rng.randint(6)]),
            'dtype-object': dict(dtype=[np.float32, None, 4, np.dtype(
                'int32')][rng.randint(4)]),
            'dtype-name': dict(dtype=['float33', 'flot32', 'double precision',
                                      'x'][rng.randint(4)]),
            'log-axis': dict(trafo_log_axis=[None, '1', 1.0, (1,)][
                rng.randint(4)]),
            'vector-type': dict(vector_info={
                'type': ['Index', 'values', None, ''][rng.randint(4)],
                'reference': 'b'}),
            'vector-without-type': dict(vector_info={'reference': 'b'}),
            'log-of-unknown-axis': dict(
                shape=[None, None] + list(good['shape'][1:]),
                trafo_log=bool(rng.rand() < 0.5), trafo_log_axis=int(
                    rng.randint(2))),
        }
        for name, kw in bad.items():
            args = dict(copy.deepcopy(good), **kw)
            m.event('malformed')
            m.saw('malformations', name)
            m.raises(lambda: DataTensor(**args), 'accepted-' + name,
                     repr(args))
        for key in ['name', 'shape', 'tensor_type', 'dtype']:
            args = {k: v for k, v in good.items() if k != key}
            m.event('malformed')
            m.saw('malformations', 'without-' + key)
            m.raises(lambda: DataTensor(**args), 'accepted-without-' + key)
        m.call('define', DataTensor, **good)
        # duplicate names in any position
        names = [NAMES[i] for i in rng.permutation(len(NAMES))[:4]]
        defs = [definition(rng, x) for x in names]
        twice = definition(rng, names[rng.randint(4)])
        defs.insert(rng.randint(5), twice)
        m.event('malformed')
        m.saw('malformations', 'duplicate')
        m.raises(lambda: make(defs), 'accepted-duplicate', repr(names))


def cases(tier):
    return [Case('lists', case_lists, reps=4, reps_thorough=100, n=30),
            Case('malformed', case_malformed, reps=2, reps_thorough=30,
                 n=15)]
