"""Generic components (derived from the repository's BaseComponent) and
generators for random component trees."""
import datetime
import numpy as np

from egenerator import misc
from egenerator.manager.component import BaseComponent, Configuration


class Node(BaseComponent):
    """Keeps settings in the configuration and a payload as data."""

    def _configure(self, settings, mutable=None, payload=None, check=None,
                   mutable_names=(), **components):
        flat = {}
        for key, value in components.items():
            if isinstance(value, dict):
                flat.update(value)
            elif isinstance(value, (list, tuple)):
                for i, comp in enumerate(value):
                    flat[key + '_{:04d}'.format(i)] = comp
            else:
                flat[key] = value
        configuration = Configuration(
            class_string=misc.get_full_class_string_of_object(self),
            settings={'settings': settings, 'check': check,
                      'mutable_names': mutable_names},
            mutable_settings={'mutable': mutable, 'payload': None},
            check_values={'check': check},
            mutable_sub_components=list(mutable_names),
            # sub components are registered by configure(), which checks
            # the names only at its end
            )
        configuration.update_mutable_settings({'payload': payload})
        return configuration, {'payload': payload, 'twice': [payload] * 2}, \
            flat

    def _update_sub_components(self, names):
        self._data['updated'] = sorted(names)

    def answer(self):
        """Observable behaviour which depends on all parts."""
        config = self.configuration.config
        return (type(self).__name__, _freeze(config['settings']),
                _freeze(config['mutable']), _freeze(self.data['payload']),
                tuple((k, c.answer()) for k, c in
                      sorted(self.sub_components.items())))


class OtherNode(Node):
    pass


class DataNode(Node):
    """Payload (arbitrary Python/NumPy objects) only kept as data."""

    def _configure(self, settings, payload_key=0, mutable=None,
                   mutable_names=(), **components):
        configuration, data, flat = super(DataNode, self)._configure(
            settings=settings, mutable=mutable,
            mutable_names=mutable_names, **components)
        conf = configuration.dict
        configuration = Configuration(
            class_string=conf['class_string'],
            settings={'settings': settings, 'payload_key': payload_key,
                      'mutable_names': mutable_names},
            mutable_settings={'mutable': mutable},
            mutable_sub_components=list(mutable_names))
        return configuration, {'payload': payload_data(payload_key)}, flat


def payload_data(key):
    rng = np.random.RandomState(key)
    return {
        'array': rng.normal(size=(rng.randint(1, 5), 3)).astype(
            str(rng.choice(['float32', 'float64']))),
        'ints': rng.randint(0, 9, size=3).astype('int32'),
        'empty': np.zeros((0, 2)), 'special': [np.nan, np.inf, -0.0],
        'text': u'\u00e4\u2211 "quoted"\n', 'none': None,
        'nested': {1: (2, [3, {'x': True}])}, 'scalar': np.float32(rng.rand()),
    }


def _freeze(value):
    if isinstance(value, np.ndarray):
        return ('array', value.dtype.str, value.shape, value.tobytes())
    if isinstance(value, dict):
        return tuple((repr(k), _freeze(value[k])) for k in
                     sorted(value, key=repr))
    if isinstance(value, (list, tuple)):
        return (type(value).__name__,) + tuple(_freeze(v) for v in value)
    if isinstance(value, np.generic):
        return (value.dtype.str, value.tobytes())
    return (type(value).__name__, repr(value))


freeze = _freeze


SCALARS = [None, True, False, 0, -7, 2**40, 1e-6, 1e22, -0.5, 3.0, 1.0,
           'yes', 'no', 'on', 'null', '~', '1e5', '0o7', '0x1F', '12',
           '2020-01-01', '', ' lead', 'trail ', 'a: b', '# no comment',
           '- item', '{x}', '[1]', "it's", '"q"', 'multi\nline\n',
           u'\u00e4\u00f6\u2211', '%tag', '@at', '&a', '*b', '!tag', '|', '>',
           '=', '<<', '.5', '1_000', 'tab\there', 'x' * 200,
           float('inf'), float('-inf')]


def random_value(rng, depth=0):
    r = rng.rand()
    if depth > 2 or r < 0.55:
        v = SCALARS[rng.randint(len(SCALARS))]
        if rng.rand() < 0.2:
            v = float(rng.normal()) if rng.rand() < 0.5 else \
                float(np.float32(rng.rand()) * 10**rng.randint(-20, 20))
        return v
    if r < 0.75:
        return [random_value(rng, depth + 1)
                for _ in range(rng.randint(1, 4))]
    if r < 0.8:
        return tuple(random_value(rng, depth + 1)
                     for _ in range(rng.randint(1, 4)))
    return {random_key(rng): random_value(rng, depth + 1)
            for _ in range(rng.randint(1, 4))}


def random_key(rng):
    return [lambda: 'key{}'.format(rng.randint(50)), lambda: int(
        rng.randint(5)), lambda: 'with space', lambda: 'yes',
        lambda: 'a.b/c', lambda: u'\u00e4'][rng.randint(6)]()


NAMES = ['alpha', 'beta', 'gamma', 'with space', 'v1.2', 'v1.3', u'n\u00e4me',
         'x_0000', 'data_handler', 'UPPER', 'a-b', 'under_score']


def random_tree(rng, depth=0, max_depth=3, cls=None):
    """Returns (component, number of components, depth reached)."""
    flat = {}
    count, deepest = 1, depth
    kwargs = {}
    if depth < max_depth:
        names = [NAMES[i] for i in rng.permutation(len(NAMES))]
        style = rng.randint(4)
        n = rng.randint(0, 4) if depth else rng.randint(1, 4)
        subs = []
        for _ in range(n):
            sub, c, d = random_tree(rng, depth + 1, max_depth)
            subs.append(sub)
            count += c
            deepest = max(deepest, d)
        if style == 0 and n:
            kwargs['parts'] = list(subs)
            flat = {'parts_{:04d}'.format(i): s
                    for i, s in enumerate(subs)}
        elif style == 1 and n:
            kwargs['group'] = {names[i]: s for i, s in enumerate(subs)}
            flat = dict(kwargs['group'])
        else:
            for i, s in enumerate(subs):
                kwargs['sub{}'.format(names[i])] = s
            flat = dict(kwargs)
    mutable_names = [k for k in sorted(flat) if rng.rand() < 0.3]
    cls = cls or [Node, OtherNode, DataNode][rng.randint(3)]
    comp = cls()
    if cls is DataNode:
        comp.configure(settings=random_value(rng),
                       payload_key=int(rng.randint(1000)),
                       mutable=random_value(rng),
                       mutable_names=mutable_names, **kwargs)
    else:
        comp.configure(settings=random_value(rng),
                       mutable=random_value(rng), check=random_value(rng),
                       payload=random_value(rng),
                       mutable_names=mutable_names, **kwargs)
    return comp, count, deepest
