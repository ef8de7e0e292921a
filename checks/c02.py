"""C02: incompatible, unconfigured or overwriting use is refused."""
import hashlib
import os
import shutil

import numpy as np

from vh.core import Case, Abort, scratch
from vh import comps
from vh import models as md

RULE = ('random component trees described by plain specifications are '
        'saved; one component (at any depth) is replaced while loading by a '
        'variant which differs in one aspect; an independent compatibility '
        'rule on the specifications decides whether the real code has to '
        'accept or refuse; life-cycle operations (configure, load, save, '
        'overwrite) are executed in random order against a reference state '
        'machine; before and after each refused operation all files and '
        'passed objects are compared; distinct = (operation, aspect, depth, '
        'decision)')
ASSUMPTIONS = ['a replacement is compatible if class, settings, check values '
               'and names of sub components agree and all its sub components '
               'are compatible or declared as exchangeable']
BUDGET = {'quick': 16, 'thorough': 400}
REQUIRE = {'replacements': 60, 'accepted': 20, 'refused': 20,
           'lifecycle_operations': 150, 'refused_overwrites': 8,
           'decisions': 12, 'manager_decisions': 6, 'misuse': 8}


def new_dir(rng):
    base = os.path.join(scratch(), 'c02_{}'.format(rng.randint(2**31)))
    os.makedirs(base)
    return base


def digest(path):
    """Content of all files below a path."""
    out = {}
    for root, _, files in os.walk(path):
        for name in files:
            full = os.path.join(root, name)
            with open(full, 'rb') as f:
                out[os.path.relpath(full, path)] = hashlib.sha1(
                    f.read()).hexdigest()
    return out


def picture(comp):
    conf = comp.configuration
    return (id(comp), type(comp), comp.is_configured,
            comps.freeze(conf.dict) if conf is not None else None,
            comps.freeze({k: v for k, v in (comp.data or {}).items()}),
            tuple((k, picture(c)) for k, c in
                  sorted(comp.sub_components.items())),
            tuple(sorted(comp.untracked_data)))


# --------------------------------------------------------------------------
# trees from plain specifications
# --------------------------------------------------------------------------
def random_spec(rng, depth=0):
    subs = {}
    for i in range(rng.randint(1, 3) if depth == 0 else
                   rng.randint(0, 3) if depth < 3 else 0):
        subs['part{}'.format(i)] = random_spec(rng, depth + 1)
    return dict(cls=int(rng.randint(2)), settings=comps.random_value(rng),
                mutable=comps.random_value(rng),
                check=comps.random_value(rng),
                payload=comps.random_value(rng),
                mutable_names=[n for n in sorted(subs)
                               if rng.rand() < 0.35],
                subs=subs)


def build(spec):
    comp = [comps.Node, comps.OtherNode][spec['cls']]()
    comp.configure(settings=spec['settings'], mutable=spec['mutable'],
                   check=spec['check'], payload=spec['payload'],
                   mutable_names=list(spec['mutable_names']),
                   **{k: build(v) for k, v in spec['subs'].items()})
    return comp


def copy_spec(spec):
    out = dict(spec)
    out['subs'] = {k: copy_spec(v) for k, v in spec['subs'].items()}
    return out


def compatible(a, b):
    """The documented rule, decided on the specifications."""
    if a['cls'] != b['cls'] or a['settings'] != b['settings'] \
            or a['check'] != b['check'] \
            or a['mutable_names'] != b['mutable_names'] \
            or set(a['subs']) != set(b['subs']):
        return False
    return all(k in a['mutable_names'] or compatible(v, b['subs'][k])
               for k, v in a['subs'].items())


def paths(spec, prefix=()):
    out = []
    for k, v in spec['subs'].items():
        out.append(prefix + (k,))
        out += paths(v, prefix + (k,))
    return out


def node(spec, path):
    for k in path:
        spec = spec['subs'][k]
    return spec


ASPECTS = ['same', 'mutable', 'payload', 'settings', 'check', 'class',
           'add_sub', 'remove_sub', 'rename_sub', 'deep', 'deep_mutable']


def other_value(rng, value):
    while True:
        new = comps.random_value(rng)
        try:
            if new != value:
                return new
        except ValueError:
            return new


def variant(rng, spec, aspect):
    """Copy of spec changed in one aspect (None if not possible)."""
    out = copy_spec(spec)
    if aspect in ('mutable', 'payload', 'settings', 'check'):
        out[aspect] = other_value(rng, spec[aspect])
    elif aspect == 'class':
        out['cls'] = 1 - spec['cls']
    elif aspect == 'add_sub':
        out['subs']['extra'] = random_spec(rng, 4)
    elif aspect in ('remove_sub', 'rename_sub'):
        if not out['subs']:
            return None
        name = sorted(out['subs'])[rng.randint(len(out['subs']))]
        sub = out['subs'].pop(name)
        out['mutable_names'] = [n for n in out['mutable_names']
                                if n != name]
        if aspect == 'rename_sub':
            out['subs']['renamed'] = sub
    elif aspect.startswith('deep'):
        below = paths(out)
        if not below:
            return None
        target = node(out, below[rng.randint(len(below))])
        key = 'mutable' if aspect == 'deep_mutable' else \
            ['settings', 'check'][rng.randint(2)]
        target[key] = other_value(rng, target[key])
    return out


def expected_answer(spec):
    return (['Node', 'OtherNode'][spec['cls']],
            comps.freeze(spec['settings']), comps.freeze(spec['mutable']),
            comps.freeze(spec['payload']),
            tuple((k, expected_answer(v)) for k, v in
                  sorted(spec['subs'].items())))


def nested(path, value):
    out = value
    for k in reversed(path):
        out = {k: out}
    return out


def check_recorded(m, comp, where):
    """Configuration of every component describes its sub components."""
    conf = comp.configuration
    m.equal(sorted(conf.sub_component_configurations),
            sorted(comp.sub_components), 'recorded-names', **where)
    for name, sub in comp.sub_components.items():
        m.check(comps.freeze(conf.sub_component_configurations[name]) ==
                comps.freeze(sub.configuration.dict), 'recorded',
                'configuration does not describe the sub component in use',
                name=name, **where)
        check_recorded(m, sub, where)


def case_replace(m, rng, n):
    for _ in range(n):
        spec = random_spec(rng)
        comp = build(spec)
        base = new_dir(rng)
        try:
            path = os.path.join(base, 'tree')
            m.call('save', comp.save, path)
            files = digest(path)
            for aspect in rng.permutation(ASPECTS)[:5]:
                replace_once(m, rng, spec, path, str(aspect), files, base)
        finally:
            shutil.rmtree(base, ignore_errors=True)


def replace_once(m, rng, spec, path, aspect, files, base):
    places = paths(spec)
    place = places[rng.randint(len(places))]
    new_spec = variant(rng, node(spec, place), aspect)
    if new_spec is None:
        return
    replacement = build(new_spec)
    parent = node(spec, place[:-1])
    accept = place[-1] in parent['mutable_names'] or compatible(
        node(spec, place), new_spec)
    passed = nested(place, replacement)
    top = passed if len(place) == 1 else dict(passed)
    before = picture(replacement)
    loaded = [comps.Node, comps.OtherNode][spec['cls']]()
    where = dict(aspect=aspect, path='/'.join(place),
                 exchangeable=place[-1] in parent['mutable_names'])
    m.event('replacements')
    m.saw('decisions', (aspect, len(place), accept))

    def load():
        loaded.load(path, modified_sub_components=passed)
    if accept:
        try:
            load()
        except Exception as e:
            m.violation('refused-compatible', 'a compatible replacement was '
                        'refused: {!r}'.format(e)[:400], **where)
            return
        m.event('accepted')
        target = loaded
        for k in place:
            target = target.sub_components[k]
        m.check(target is replacement, 'takes-effect', **where)
        new_tree = copy_spec(spec)
        node(new_tree, place[:-1])['subs'][place[-1]] = new_spec
        m.check(loaded.answer() == expected_answer(new_tree),
                'loaded-tree', 'tree after the replacement is not the tree '
                'with exactly that part exchanged', **where)
        check_recorded(m, loaded, where)
        again = os.path.join(base, 'again')
        m.call('save-after-replacement', loaded.save, again)
        copy = type(loaded)()
        m.call('load-after-replacement', copy.load, again)
        m.check(copy.answer() == expected_answer(new_tree),
                'replacement-persists', **where)
        shutil.rmtree(again)
    else:
        m.event('refused')
        m.raises(load, 'accepted-incompatible', str(where))
        m.check(not loaded.is_configured, 'configured-after-refusal',
                **where)
    m.check(picture(replacement) == before, 'replacement-modified', **where)
    m.check(passed == top and (len(place) == 1 or list(
        passed) == list(top)), 'argument-modified', **where)
    inner = passed
    for k in place[:-1]:
        m.check(list(inner) == [k], 'argument-modified', **where)
        inner = inner[k]
    m.check(inner.get(place[-1]) is replacement, 'argument-modified',
            'passed dictionary was changed', **where)
    m.check(digest(path) == files, 'files-changed', **where)


def case_wrong_replacements(m, rng):
    """Unknown names, unconfigured or foreign objects."""
    spec = random_spec(rng)
    base = new_dir(rng)
    try:
        path = os.path.join(base, 'tree')
        build(spec).save(path)
        files = digest(path)
        places = paths(spec)
        place = places[rng.randint(len(places))]
        good = build(node(spec, place))
        wrong = [
            ('unknown', {'nobody': good}),
            ('unknown-and-known', {'nobody': good, place[0]: build(
                spec['subs'][place[0]])}),
            ('unknown-nested', nested(place[:1], {'nobody': good})),
            ('unconfigured', nested(place, type(good)())),
        ]
        for name, arg in wrong:
            keys = {k: (sorted(v) if isinstance(v, dict) else id(v))
                    for k, v in arg.items()}
            loaded = [comps.Node, comps.OtherNode][spec['cls']]()
            m.event('misuse')
            m.saw('misuse-kinds', name)
            m.raises(lambda: loaded.load(path, modified_sub_components=arg),
                     'accepted-' + name)
            m.check(not loaded.is_configured, 'configured-after-refusal',
                    aspect=name)
            m.check(digest(path) == files, 'files-changed', aspect=name)
            m.check({k: (sorted(v) if isinstance(v, dict) else id(v))
                     for k, v in arg.items()} == keys, 'argument-modified',
                    'passed dictionary was changed', aspect=name)
        # the default of the argument is not polluted by earlier calls
        loaded = [comps.Node, comps.OtherNode][spec['cls']]()
        m.call('load-after-refusals', loaded.load, path)
        m.check(loaded.answer() == expected_answer(spec), 'loaded-tree')
    finally:
        shutil.rmtree(base, ignore_errors=True)


# --------------------------------------------------------------------------
# life cycle
# --------------------------------------------------------------------------
def case_lifecycle(m, rng, n_ops):
    """Random histories against a reference state machine."""
    base = new_dir(rng)
    specs = [random_spec(rng, 1) for _ in range(3)]
    dirs = [os.path.join(base, d) for d in ('a', 'b', 'c/d')]
    on_disk = {}          # directory -> spec
    objects = []          # [component, spec or None]
    try:
        for _ in range(n_ops):
            if not objects or rng.rand() < 0.2:
                k = rng.randint(3)
                objects.append([[comps.Node, comps.OtherNode][
                    specs[k]['cls']](), None, specs[k]['cls']])
            obj = objects[rng.randint(len(objects))]
            comp, state, cls = obj
            op = ['configure', 'load', 'save', 'overwrite', 'untracked'][
                rng.choice(5, p=[.25, .25, .2, .2, .1])]
            path = dirs[rng.randint(len(dirs))]
            files = digest(base)
            before = picture(comp)
            m.event('lifecycle_operations')

            def refused(func, kind):
                m.saw('decisions', (op, kind, 'refused'))
                m.raises(func, 'accepted-' + kind)
                m.check(picture(comp) == before, 'object-changed',
                        kind + ' changed the component')
                m.check(digest(base) == files, 'files-changed',
                        kind + ' changed files')

            if op == 'configure':
                same = [s for s in specs if s['cls'] == cls]
                spec = same[rng.randint(len(same))]

                def func():
                    comp.configure(
                        settings=spec['settings'], mutable=spec['mutable'],
                        check=spec['check'], payload=spec['payload'],
                        mutable_names=list(spec['mutable_names']),
                        **{k: build(v) for k, v in spec['subs'].items()})
                if state is not None:
                    refused(func, 'second-configure')
                else:
                    m.call('configure', func)
                    obj[1] = spec
            elif op == 'load':
                def func():
                    comp.load(path)
                if state is not None:
                    refused(func, 'load-when-configured')
                elif path not in on_disk:
                    refused(func, 'load-missing')
                elif on_disk[path]['cls'] != cls:
                    m.saw('decisions', (op, 'class', 'refused'))
                    m.raises(func, 'accepted-wrong-class')
                    m.check(not comp.is_configured,
                            'configured-after-refusal')
                    m.check(digest(base) == files, 'files-changed')
                    objects.remove(obj)
                else:
                    m.call('load', func)
                    obj[1] = on_disk[path]
            elif op in ('save', 'overwrite'):
                def func():
                    comp.save(path, overwrite=op == 'overwrite')
                if state is None:
                    refused(func, 'save-unconfigured')
                elif path in on_disk and op == 'save':
                    m.event('refused_overwrites')
                    refused(func, 'overwriting')
                else:
                    if path in on_disk and rng.rand() < 0.3:
                        shutil.rmtree(path)
                    m.call(op, func)
                    on_disk[path] = state
                    m.check(picture(comp) == before, 'object-changed',
                            op + ' changed the component')
            elif state is not None:
                comp.something = 1
                before = picture(comp)
                target = os.path.join(base, 'untracked')
                m.raises(lambda: comp.save(target), 'accepted-untracked')
                m.check(digest(base) == files, 'files-changed',
                        'refused save of untracked attributes')
                m.call('allow-untracked', comp.save, target,
                       allow_untracked_attributes=True)
                copy = type(comp)()
                m.call('load-untracked', copy.load, target)
                m.check(copy.answer() == expected_answer(state),
                        'loaded-tree')
                shutil.rmtree(target)
                del comp.something
                m.saw('decisions', ('save', 'untracked', 'refused'))
            else:
                comp.something = 1
                before = picture(comp)
                refused(lambda: comp.configure(settings=1, payload=2),
                        'configure-untracked')
                if path in on_disk and on_disk[path]['cls'] == cls:
                    refused(lambda: comp.load(path), 'load-untracked')
                del comp.something
            if obj[1] is not None and obj in objects:
                m.check(comp.is_configured, 'not-configured')
                m.check(comp.answer() == expected_answer(obj[1]), 'content',
                        'content of the component is not what was '
                        'configured or loaded')
                check_recorded(m, comp, {})
        for path, spec in on_disk.items():
            comp = [comps.Node, comps.OtherNode][spec['cls']]()
            m.call('load', comp.load, path)
            m.check(comp.answer() == expected_answer(spec), 'disk-content',
                    'directory does not hold what was last saved to it')
    finally:
        shutil.rmtree(base, ignore_errors=True)


def case_partial_overwrite(m, rng):
    """Any existing file of the tree refuses the save and stays intact."""
    spec = random_spec(rng)
    comp = build(spec)
    base = new_dir(rng)
    try:
        path = os.path.join(base, 'tree')
        comp.save(path)
        files = sorted(digest(path))
        for keep in files:
            shutil.rmtree(path)
            full = os.path.join(path, keep)
            os.makedirs(os.path.dirname(full))
            with open(full, 'w') as f:
                f.write('do not touch')
            m.event('refused_overwrites')
            m.raises(lambda: comp.save(path), 'accepted-overwriting',
                     'existing file {} was overwritten'.format(keep))
            with open(full) as f:
                m.equal(f.read(), 'do not touch', 'files-changed', keep)
    finally:
        shutil.rmtree(base, ignore_errors=True)


# --------------------------------------------------------------------------
# components which violate the protocol
# --------------------------------------------------------------------------
def case_protocol(m, rng):
    from egenerator import misc
    from egenerator.manager.component import BaseComponent, Configuration

    current = []

    class Misbehaving(BaseComponent):
        def _configure(self, **kwargs):
            return current[-1](self, **kwargs)

    def conf(self, settings, **kw):
        return Configuration(
            class_string=misc.get_full_class_string_of_object(self),
            settings=settings, **kw)
    value = comps.random_value(rng)
    other = other_value(rng, value)
    sub = build(random_spec(rng, 4))
    loose = comps.Node()
    bad = {
        'setting-not-tracked': lambda s, a: (conf(s, {}), {}, {}),
        'setting-changed': lambda s, a: (conf(s, {'a': other}), {}, {}),
        'duplicate-setting': lambda s, a: (
            conf(s, {'a': a}, mutable_settings={'a': a}), {}, {}),
        'data-no-dict': lambda s, a: (conf(s, {'a': a}), [1, 2], {}),
        'subs-no-dict': lambda s, a: (conf(s, {'a': a}), {}, [sub]),
        'unknown-sub': lambda s, a: (conf(s, {'a': a}), {}, {'b': sub}),
        'unknown-mutable-sub': lambda s, a: (
            conf(s, {'a': a}, mutable_sub_components=['b']), {}, {}),
    }
    for name, behaviour in bad.items():
        comp = Misbehaving()
        current.append(behaviour)
        m.event('misuse')
        m.saw('misuse-kinds', name)
        m.raises(lambda: comp.configure(a=value), 'accepted-' + name)
        m.check(not comp.is_configured, 'configured-after-refusal',
                aspect=name)
    for name, kwargs in {
            'unconfigured-sub': dict(a=value, b=loose),
            'unconfigured-sub-in-dict': dict(a=value, b={'x': sub,
                                                         'y': loose}),
            'unconfigured-sub-in-list': dict(a=value, b=[sub, loose])
            }.items():
        comp = Misbehaving()

        def fine(s, a, b):
            subs = {'b': b}
            if isinstance(b, dict):
                subs = b
            elif isinstance(b, list):
                subs = {'b_{:04d}'.format(i): c for i, c in enumerate(b)}
            return conf(s, {'a': a}), {}, subs
        current.append(fine)
        m.event('misuse')
        m.saw('misuse-kinds', name)
        m.raises(lambda: comp.configure(**kwargs), 'accepted-' + name)
        m.check(not comp.is_configured, 'configured-after-refusal',
                aspect=name)
        good = {'b': {'x': sub}} if 'dict' in name else \
            {'b': [sub]} if 'list' in name else {'b': sub}
        comp = Misbehaving()
        m.call('configure-good', comp.configure, a=value, **good)
        m.equal(list(comp.sub_components.values()), [sub],
                'configured-subs', aspect=name)
        check_recorded(m, comp, dict(aspect=name))


def case_version(m, rng):
    """A different version is a warning, not a refusal."""
    import ruamel.yaml as yaml
    spec = random_spec(rng, 2)
    base = new_dir(rng)
    try:
        path = os.path.join(base, 'tree')
        build(spec).save(path)
        file = os.path.join(path, 'configuration.yaml')
        with open(file) as f:
            config = yaml.load(f, Loader=yaml.Loader)
        config['event_generator_version'] = '0.0.1'
        with open(file, 'w') as f:
            yaml.dump(config, f)
        comp = [comps.Node, comps.OtherNode][spec['cls']]()
        m.call('load-other-version', comp.load, path)
        m.check(comp.answer() == expected_answer(spec), 'loaded-tree')
    finally:
        shutil.rmtree(base, ignore_errors=True)


# --------------------------------------------------------------------------
# models, transformers and managers
# --------------------------------------------------------------------------
def case_models(m, rng):
    import tensorflow as tf
    from egenerator.manager.source import SourceManager
    from egenerator.data.trafo import DataTransformer
    params = md.cascade_values(rng, 20)
    log = [i == 5 for i in range(7)]
    handler, trafo = md.setup(rng, params, param_log=log)
    config = md.cascade_config(n_models=2)
    model = md.make_cascade(trafo, config)
    batch = md.batch_dict(handler, md.make_batch(rng, params[:1]))

    # unconfigured use
    cls = type(model)
    fresh = cls()
    m.raises(lambda: fresh.get_tensors(batch, is_training=False),
             'accepted-unconfigured-evaluation')
    m.raises(lambda: fresh.get_index('x'), 'accepted-unconfigured-lookup')
    m.raises(lambda: DataTransformer().transform(params, 'x_parameters'),
             'accepted-unconfigured-transform')
    m.raises(lambda: cls().configure(config=config,
                                     data_trafo=DataTransformer()),
             'accepted-unconfigured-trafo')
    m.raises(lambda: SourceManager().train({}, None, 1),
             'accepted-unconfigured-training')
    m.raises(lambda: model.configure(config=config, data_trafo=trafo),
             'accepted-second-configure')
    m.event('misuse', 6)

    # ensembles and data handlers
    def manager_of(handler, models):
        return md.make_manager(handler, models)

    def decide(name, ok, func):
        m.event('manager_decisions')
        m.saw('decisions', ('manager', name, ok))
        if ok:
            return m.call('refused-' + name, func)
        m.raises(func, 'accepted-' + name)

    twin = md.make_cascade(trafo, md.cascade_config(n_models=3), name='twin')
    decide('ensemble', True, lambda: manager_of(handler, [model, twin]))
    position = rng.randint(2)

    def ensemble(other):
        return [other, model][::1 if position else -1]
    extended, wide = md.setup(
        rng, md.cascade_values(rng, 20, [(-1., 1.)]), param_log=log + [False])
    odd = md.make_cascade(wide, md.cascade_config(n_models=2,
                                                  extra=['aux']))
    decide('other-parameters', False,
           lambda: manager_of(handler, ensemble(odd)))
    # the same settings but other statistics
    other_trafo = DataTransformer()
    from vh import array_handler as ah
    key = handler.configuration.config['config']['key']
    arrays = md.make_batch(rng, params * np.float32(1.5))
    ah.STORE[key] = dict(arrays)
    other_trafo.configure(data_handler=handler, data_iterator_settings=dict(
        splits=[len(params)], key=key), num_batches=1,
        float_precision='float32', norm_constant=1e-6)
    shifted = md.make_cascade(other_trafo, config)
    decide('other-statistics', False,
           lambda: manager_of(handler, ensemble(shifted)))
    other_handler = md.make_handler(key, md.tensor_list(
        8, param_log=log + [False]))
    decide('other-handler', False,
           lambda: manager_of(other_handler, [model]))

    # replacement of the data handler of a saved manager
    base = new_dir(rng)
    try:
        path = os.path.join(base, 'manager')
        manager = manager_of(handler, [model, twin])
        m.call('save-manager', manager.save, path)
        files = digest(path)
        same = md.make_handler(key, md.tensor_list(7, param_log=log))

        def load(**subs):
            new = SourceManager()
            new.load(path, modified_sub_components=subs)
            return new
        loaded = decide('compatible-handler', True,
                        lambda: load(data_handler=same))
        m.check(loaded.data_handler is same, 'takes-effect',
                'data handler was not replaced')
        decide('incompatible-handler', False,
               lambda: load(data_handler=other_handler))
        decide('replaced-model', False, lambda: load(models_0000=model))
        decide('unknown-part', False, lambda: load(models_0007=model))
        m.check(digest(path) == files, 'files-changed',
                'refused replacements changed files')
        m.raises(lambda: manager.save(path), 'accepted-overwriting')
        m.event('refused_overwrites')
        m.check(digest(path) == files, 'files-changed',
                'refused save of the manager')

        # a model that was altered after it was configured
        model.extra_weight = tf.Variable(1., name='extra')
        m.raises(lambda: model.save_weights(
            os.path.join(path, 'models_0000')), 'accepted-altered-model')
        m.raises(lambda: model.save(os.path.join(base, 'altered')),
                 'accepted-altered-model')
        m.event('misuse', 2)
        m.check(digest(path) == files, 'files-changed',
                'refused save of an altered model')
    finally:
        shutil.rmtree(base, ignore_errors=True)


def cases(tier):
    return [
        Case('replace', case_replace, reps=2, reps_thorough=60, n=7),
        Case('wrong_replacements', case_wrong_replacements, reps=3,
             reps_thorough=40),
        Case('lifecycle', case_lifecycle, reps=3, reps_thorough=60,
             n_ops=60),
        Case('partial_overwrite', case_partial_overwrite, reps=2,
             reps_thorough=20),
        Case('protocol', case_protocol, reps=3, reps_thorough=30),
        Case('version', case_version, reps=1, reps_thorough=5),
        Case('models', case_models, reps=1, reps_thorough=10),
    ]
