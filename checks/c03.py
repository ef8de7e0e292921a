"""C03: model checkpoints survive saving, pruning and crashes."""
import os
import shutil
import sys

import numpy as np
import ruamel.yaml as yaml

from vh.core import Case, Abort, scratch
from vh import comps
from vh import models as md

RULE = ('random histories of weight changes, saves (protected or not, '
        'several max_keep), loads of arbitrary retained checkpoints and '
        'restarts from disk are compared with a reference list of '
        'checkpoints; for crash points, an audit hook takes a copy of the '
        'directory before every file-system operation of a save (open for '
        'writing, rename, remove, mkdir, checkpoint write) and adds torn '
        'variants (file empty, half written, checkpoint index missing); '
        'every copy is loaded by a fresh object and has to give the previous '
        'or the new weights; distinct = (kind of history step) and crash '
        'states')
ASSUMPTIONS = ['directory names do not contain the pattern characters [ ] * '
               'and ? (TensorFlow itself cannot restore from these)',
               'a rename within one directory is atomic',
               'files which are not being written at the crash keep their '
               'content']
BUDGET = {'quick': 16, 'thorough': 400}
REQUIRE = {'saves': 60, 'loads': 120, 'checkpoints_pruned': 10,
           'crash_states': 120, 'crash_loads': 120, 'old_recovered': 20,
           'new_recovered': 10, 'members': 4}


def tiny_class():
    """A small real Model (own variables, a nested tf.Module)."""
    import tensorflow as tf
    from egenerator import misc
    from egenerator.manager.component import Configuration
    from egenerator.model.base import Model

    if 'cls' in _TINY:
        return _TINY['cls']

    class Inner(tf.Module):
        def __init__(self, n):
            super(Inner, self).__init__()
            self.b = tf.Variable(np.zeros((n,), 'float64'), name='b')

    class TinyModel(Model):
        def _configure_derived_class(self, size):
            self._untracked_data['size'] = size
            u = self._untracked_data
            u['a'] = tf.Variable(np.zeros((size, 2), 'float32'), name='a')
            u['frozen'] = tf.Variable(np.zeros((1,), 'float32'),
                                      trainable=False, name='frozen')
            u['inner'] = Inner(size)
            return Configuration(
                class_string='tiny_model.TinyModel',
                settings=dict(size=size)), {}, {}

    # the configuration refers to the class by its module and name
    import types
    module = types.ModuleType('tiny_model')
    module.TinyModel = TinyModel
    TinyModel.__module__ = 'tiny_model'
    TinyModel.__qualname__ = 'TinyModel'
    sys.modules['tiny_model'] = module
    _TINY['cls'] = TinyModel
    return TinyModel


_TINY = {}


def weights(model):
    out = {}
    for v in model.variables:
        out[v.name] = v.numpy().copy()
    if model.step is not None:
        out['__step'] = model.step.numpy()
    return out


def same(a, b):
    return sorted(a) == sorted(b) and all(
        np.array_equal(a[k], b[k]) for k in a)


def change(rng, model):
    for v in model.variables:
        if v.dtype.is_floating:
            v.assign(rng.normal(size=v.shape.as_list()).astype(
                v.dtype.as_numpy_dtype))
    model.step.assign(int(rng.randint(1, 10**6)))


def read_meta(path):
    with open(os.path.join(path, 'model_checkpoint.yaml')) as f:
        return yaml.YAML(typ='safe', pure=True).load(f)


def flat_meta(meta):
    out = {}
    for key, protected in [('unprotected_checkpoints', False),
                           ('protected_checkpoints', True)]:
        for number, info in meta[key].items():
            out[number] = dict(info, protected=protected)
    return out


# --------------------------------------------------------------------------
# histories
# --------------------------------------------------------------------------
def new_model(rng):
    cls = tiny_class()
    model = cls()
    model.configure(size=int(rng.randint(1, 4)))
    change(rng, model)
    return model


DIRS = ['model', 'a b', 'x(1)', 'v1.0', 'q{}', u'\u00e4']


def case_history(m, rng, n_ops):
    base = os.path.join(scratch(), 'c03_{}'.format(rng.randint(2**31)))
    path = os.path.join(base, DIRS[rng.randint(len(DIRS))])
    model = new_model(rng)
    history = []      # [number, weights, protected, description, meta]
    steps = {}        # training index -> number of steps
    try:
        m.call('save', model.save, path)
        history.append([1, weights(model), False, None, None])
        for _ in range(n_ops):
            op = ['change', 'save', 'load', 'latest', 'restart', 'overwrite',
                  'training'][rng.choice(7, p=[.2, .35, .15, .08, .07, .08,
                                               .07])]
            m.saw('steps', op)
            if op == 'change':
                change(rng, model)
            elif op in ('save', 'overwrite', 'training'):
                protected = bool(rng.rand() < 0.3)
                max_keep = int(rng.randint(1, 5))
                desc = None if rng.rand() < 0.4 else 'text {}: "{}"'.format(
                    len(history), comps.SCALARS[rng.randint(
                        len(comps.SCALARS))])
                kwargs = dict(max_keep=max_keep, protected=protected,
                              description=desc)
                before = weights(model)
                if op == 'overwrite':
                    m.call('save', model.save, path, overwrite=True, **kwargs)
                elif op == 'training':
                    settings = dict(
                        config={'rate': float(rng.rand()), 'name': 'x'},
                        components={'part': comps.random_tree(
                            rng, max_depth=0)[0]})
                    m.call('save', model.save, path, overwrite=True,
                           new_training_settings=settings, **kwargs)
                    steps[max(steps or [0]) + 1] = 0
                else:
                    if steps and rng.rand() < 0.6:
                        kwargs['num_training_steps'] = int(rng.randint(
                            1, 10**6))
                        steps[max(steps)] = kwargs['num_training_steps']
                    m.call('save', model.save_weights, path, **kwargs)
                m.check(same(weights(model), before), 'save-changes-weights')
                m.event('saves')
                history.append([history[-1][0] + 1, before, protected, desc,
                                None])
                check_saved(m, path, history, max_keep, protected, steps)
            elif op == 'restart':
                cls = type(model)
                model = cls()
                number = None
                want = history[-1]
                if rng.rand() < 0.5:
                    kept = sorted(flat_meta(read_meta(path)))
                    number = int(kept[rng.randint(len(kept))])
                    want = [h for h in history if h[0] == number][0]
                m.call('load', model.load, path, **(
                    {} if number is None
                    else {'checkpoint_number': number}))
                m.event('loads')
                m.check(same(weights(model), want[1]), 'weights-of-restart',
                        number=number)
            elif op in ('load', 'latest'):
                kept = sorted(flat_meta(read_meta(path)))
                if op == 'latest':
                    want = history[-1]
                    m.call('load', model.load_weights, path)
                else:
                    number = int(kept[rng.randint(len(kept))])
                    want = [h for h in history if h[0] == number][0]
                    m.call('load', model.load_weights, path,
                           checkpoint_number=number)
                m.event('loads')
                m.check(same(weights(model), want[1]),
                        'weights-of-checkpoint', number=want[0])
        # every retained checkpoint still restores its own weights
        kept = flat_meta(read_meta(path))
        for number in kept:
            copy = type(model)()
            m.call('load', copy.load, path, checkpoint_number=number)
            m.event('loads')
            want = [h for h in history if h[0] == number][0]
            m.check(same(weights(copy), want[1]), 'weights-of-checkpoint',
                    number=number)
        gone = [h[0] for h in history if h[0] not in kept]
        m.event('checkpoints_pruned', len(gone))
        for number in gone[:3]:
            m.raises(lambda: type(model)().load(
                path, checkpoint_number=number), 'loaded-pruned-checkpoint')
        m.raises(lambda: type(model)().load(path, checkpoint_number=10**6),
                 'loaded-unknown-checkpoint')
    finally:
        shutil.rmtree(base, ignore_errors=True)


def check_saved(m, path, history, max_keep, protected, steps):
    meta = read_meta(path)
    kept = flat_meta(meta)
    m.equal(meta['latest_checkpoint'], history[-1][0], 'latest-checkpoint')
    m.check(history[-1][0] in kept, 'newest-missing', kept=sorted(kept))
    for number, _, prot, desc, old in history:
        if number not in kept:
            m.check(not prot, 'protected-pruned', number=number)
            continue
        info = kept[number]
        m.equal(info['protected'], prot, 'protection', number=number)
        m.equal(info['description'], desc, 'description', number=number)
        if old is not None:
            m.equal(info, old, 'metadata-changed', number=number)
    for entry in history:
        if entry[0] in kept and entry[4] is None:
            entry[4] = dict(kept[entry[0]])
    if not protected:
        newest = [h[0] for h in history if not h[2]][-max_keep:]
        # what an earlier save with smaller max_keep pruned is gone
        for number in newest:
            entry = [h for h in history if h[0] == number][0]
            if number in kept:
                continue
            m.check(entry[-1] == 'pruned', 'newest-pruned',
                    'checkpoint among the newest max_keep was removed',
                    number=number, kept=sorted(kept), max_keep=max_keep)
    else:
        for entry in history:
            m.check(entry[0] in kept or entry[-1] == 'pruned',
                    'pruned-by-protected-save', number=entry[0])
    for entry in history:
        if entry[0] not in kept:
            entry[-1] = 'pruned'
    # all files of the retained checkpoints exist
    for number, info in kept.items():
        m.check(os.path.exists(os.path.join(
            path, info['file_basename'] + '.index')), 'files-missing',
            number=number)
    if steps:
        with open(os.path.join(path, 'training', 'training_steps.yaml')) as f:
            train = yaml.YAML(typ='safe', pure=True).load(f)
        m.equal({k: v['num_training_steps'] for k, v in
                 train['training_steps'].items()}, steps, 'training-steps')
        m.equal(train['latest_step'], max(steps), 'latest-training-step')


# --------------------------------------------------------------------------
# crash points
# --------------------------------------------------------------------------
class CrashRecorder(object):
    """Copies a directory before each file-system operation on it.

    An audit hook sees every open / rename / remove / mkdir of the
    interpreter, however the code is written; native checkpoint writes are
    observed by wrapping tf.train.Checkpoint.write."""

    active = None
    installed = False

    def __init__(self, path, target):
        self.path = os.path.abspath(path)
        self.target = target
        self.states = []      # (label, directory)
        self.open_files = []  # (index of state, relative path)
        self.busy = False

    @classmethod
    def hook(cls, event, args):
        self = cls.active
        if self is None or self.busy:
            return
        if event == 'open':
            name, mode, flags = args
            writing = (isinstance(mode, str) and any(
                c in mode for c in 'wax+')) or (
                mode is None and isinstance(flags, int) and flags & (
                    os.O_WRONLY | os.O_RDWR))
            if not writing:
                return
        elif event in ('os.rename', 'os.remove', 'os.mkdir', 'os.rmdir',
                       'os.truncate', 'shutil.move', 'shutil.rmtree',
                       'shutil.copyfile', 'os.link', 'os.symlink'):
            name = args[0]
        else:
            return
        if not isinstance(name, (str, bytes)):
            return
        name = os.path.abspath(os.fsdecode(name))
        if not name.startswith(self.path):
            return
        label = '{} {}'.format(event, os.path.relpath(name, self.path))
        index = self.snapshot(label)
        if event == 'open':
            self.open_files.append((index, os.path.relpath(name, self.path)))

    def snapshot(self, label):
        self.busy = True
        try:
            index = len(self.states)
            copy = os.path.join(self.target, 'state_{:03d}'.format(index))
            if os.path.isdir(self.path):
                shutil.copytree(self.path, copy)
            else:
                os.makedirs(copy)
            self.states.append((label, copy))
            return index
        finally:
            self.busy = False

    def derived(self, index, label, changes):
        """Copy of a state with some files replaced (None: removed)."""
        copy = os.path.join(self.target, 'state_{:03d}'.format(
            len(self.states)))
        shutil.copytree(self.states[index][1], copy)
        for name, content in changes.items():
            full = os.path.join(copy, name)
            if content is None:
                if os.path.exists(full):
                    os.remove(full)
            else:
                os.makedirs(os.path.dirname(full), exist_ok=True)
                with open(full, 'wb') as f:
                    f.write(content)
        self.states.append((label, copy))

    def __enter__(self):
        import tensorflow as tf
        if not CrashRecorder.installed:
            sys.addaudithook(CrashRecorder.hook)
            CrashRecorder.installed = True
        self.original = tf.train.Checkpoint.write
        recorder = self

        def write(checkpoint, file_prefix, *args, **kwargs):
            index = recorder.snapshot('checkpoint write begins')
            out = recorder.original(checkpoint, file_prefix, *args, **kwargs)
            recorder.busy = True
            try:
                rel = os.path.relpath(os.path.dirname(file_prefix),
                                      recorder.path)
                stem = os.path.basename(file_prefix) + '.'
                new = {}
                for name in sorted(os.listdir(os.path.dirname(file_prefix))):
                    if name.startswith(stem):
                        with open(os.path.join(os.path.dirname(
                                file_prefix), name), 'rb') as f:
                            new[os.path.normpath(os.path.join(
                                rel, name))] = f.read()
                data = {k: v for k, v in new.items()
                        if not k.endswith('.index')}
                recorder.derived(index, 'checkpoint data half written',
                                 {k: v[:len(v) // 2]
                                  for k, v in data.items()})
                recorder.derived(index, 'checkpoint index missing', data)
                recorder.derived(index, 'checkpoint index half written', {
                    k: v if k in data else v[:len(v) // 2]
                    for k, v in new.items()})
            finally:
                recorder.busy = False
            recorder.snapshot('checkpoint written')
            return out
        tf.train.Checkpoint.write = write
        CrashRecorder.active = self
        return self

    def __exit__(self, *args):
        import tensorflow as tf
        tf.train.Checkpoint.write = self.original
        self.busy = True
        CrashRecorder.active = None
        # torn writes: the file is created empty, then written in pieces
        for index, name in self.open_files:
            later = [s for s in self.states[index + 1:]] + [
                ('end', self.path)]
            content = b''
            for _, state in later:
                full = os.path.join(state, name)
                if os.path.isfile(full):
                    with open(full, 'rb') as f:
                        content = f.read()
                    if content:
                        break
            self.derived(index, 'empty ' + name, {name: b''})
            if content:
                self.derived(index, 'half written ' + name,
                             {name: content[:len(content) // 2]})
        final = os.path.join(self.target, 'final')
        shutil.copytree(self.path, final)
        self.states.append(('completed', final))
        self.busy = False


def case_crash(m, rng, how):
    base = os.path.join(scratch(), 'c03c_{}'.format(rng.randint(2**31)))
    path = os.path.join(base, 'live', DIRS[rng.randint(len(DIRS))])
    os.makedirs(os.path.join(base, 'states'))
    model = new_model(rng)
    cls = type(model)
    try:
        model.save(path)
        settings = dict(config={'rate': 0.1}, components={})
        protected = {}
        old = weights(model)
        if how in ('training', 'steps'):
            model.save(path, overwrite=True, new_training_settings=settings,
                       protected=True)
            protected[2] = old
        for _ in range(rng.randint(0, 5)):
            change(rng, model)
            keep = bool(rng.rand() < 0.3)
            model.save_weights(path, protected=keep, max_keep=2)
            old = weights(model)
            if keep:
                protected[read_meta(path)['latest_checkpoint']] = old
        kwargs = dict(max_keep=int(rng.randint(1, 3)),
                      protected=bool(rng.rand() < 0.3), description='new')
        if how == 'steps':
            kwargs['num_training_steps'] = int(rng.randint(1, 1000))
        change(rng, model)
        new = weights(model)
        with CrashRecorder(path, os.path.join(base, 'states')) as recorder:
            if how == 'weights' or how == 'steps':
                m.call('save', model.save_weights, path, **kwargs)
            elif how == 'overwrite':
                m.call('save', model.save, path, overwrite=True, **kwargs)
            else:
                m.call('save', model.save, path, overwrite=True,
                       new_training_settings=settings, **kwargs)
        for label, state in recorder.states:
            m.event('crash_states')
            m.saw('crash-points', label.replace(os.path.basename(path), ''))
            where = dict(crash=label, operation=how)
            copy = cls()
            try:
                copy.load(state)
            except Exception as e:
                m.violation('crash-unloadable', 'after a crash neither the '
                            'previous nor the new weights can be loaded: '
                            '{!r}'.format(e)[:500], **where)
                continue
            m.event('crash_loads')
            got = weights(copy)
            is_old, is_new = same(got, old), same(got, new)
            m.event('old_recovered', int(is_old))
            m.event('new_recovered', int(is_new))
            m.check(is_old or is_new, 'crash-wrong-weights',
                    'weights are neither the previous nor the new ones',
                    **where)
            if label == 'completed':
                m.check(is_new, 'completed-save', **where)
            for number, want in protected.items():
                copy = cls()
                m.call('crash-protected', copy.load, state,
                       checkpoint_number=number)
                m.check(same(weights(copy), want), 'crash-protected',
                        number=number, **where)
            if how in ('training', 'steps'):
                # the book keeping of training steps is still readable
                with open(os.path.join(state, 'training',
                                       'training_steps.yaml')) as f:
                    train = yaml.YAML(typ='safe', pure=True).load(f)
                m.check(isinstance(train, dict) and train.get(
                    'latest_step', 0) >= 1 and train['latest_step'] in
                    train['training_steps'], 'crash-training-steps', **where)
    finally:
        CrashRecorder.active = None
        shutil.rmtree(base, ignore_errors=True)


# --------------------------------------------------------------------------
# nested models (managers, multi sources) and real source models
# --------------------------------------------------------------------------
def leaves(comp, out=None, path=''):
    """All models with own weights below a component."""
    from egenerator.model.base import Model
    out = {} if out is None else out
    subs = {k: c for k, c in comp.sub_components.items()
            if isinstance(c, Model)}
    for k, c in subs.items():
        leaves(c, out, path + '/' + k)
    if not subs and comp.variables:
        out[path] = comp
    return out


def case_nested(m, rng, kind):
    from egenerator.manager.source import SourceManager
    base = os.path.join(scratch(), 'c03n_{}'.format(rng.randint(2**31)))
    path = os.path.join(base, DIRS[rng.randint(len(DIRS))])
    if kind == 'multi':
        handler, model, _ = md.build_multi('independent', rng, n_sources=3)
        comp = model
        if rng.rand() < 0.5:
            comp = md.make_manager(handler, [model])
    else:
        handler, model, _ = md.build('cascade', rng)
        models = [model]
        for i in range(rng.randint(1, 3)):
            other = type(model)()
            other.configure(config=model.configuration.config['config'],
                            data_trafo=model.data_trafo, name='m{}'.format(i))
            models.append(other)
        comp = md.make_manager(handler, models)
    cls = type(comp)

    def shuffle():
        for leaf in leaves(comp).values():
            change(rng, leaf)

    def picture(c):
        return {k: weights(v) for k, v in leaves(c).items()}

    def check(c, want, kind, **where):
        got = picture(c)
        m.equal(sorted(got), sorted(want), 'members', **where)
        for k in want:
            m.event('members')
            m.check(same(got[k], want[k]), kind, member=k, **where)
    try:
        shuffle()
        m.call('save', comp.save, path)
        saved = {1: picture(comp)}
        for number in range(2, 5):
            shuffle()
            m.call('save', comp.save_weights, path, max_keep=2,
                   protected=number == 2, description='d{}'.format(number))
            saved[number] = picture(comp)
        copy = cls()
        m.call('load', copy.load, path)
        m.event('loads')
        check(copy, saved[4], 'nested-latest')
        for number in (3, 2):
            copy = cls()
            m.call('load', copy.load, path, checkpoint_number=number)
            m.event('loads')
            check(copy, saved[number], 'nested-checkpoint', number=number)
        m.call('load', comp.load_weights, path, checkpoint_number=3)
        check(comp, saved[3], 'nested-checkpoint', number=3, how='in place')
        m.call('load', comp.load_weights, path)
        check(comp, saved[4], 'nested-latest', how='in place')
    finally:
        shutil.rmtree(base, ignore_errors=True)


def cases(tier):
    out = [Case('history', case_history, reps=3, reps_thorough=60,
                n_ops=50 if tier == 'quick' else 120)]
    for how in ['weights', 'steps', 'overwrite', 'training']:
        out.append(Case('crash_' + how, case_crash, reps=1,
                        reps_thorough=20, how=how))
    for kind in ['ensemble', 'multi']:
        out.append(Case('nested_' + kind, case_nested, reps=1,
                        reps_thorough=10, kind=kind))
    return out
