"""N02: A training step moves the weights down the reported loss."""
import glob
import os

import numpy as np
from ruamel.yaml import YAML

from vh.core import Case, scratch
from vh import array_handler as ah
from vh import models as md
from vh import train as tr

RULE = ('the real training loop trains models of known gradients (several '
        'variables, frozen and unused ones, gradients that are not a '
        'number) with random optimisers, clipping, regularisation, '
        'schedules and frequencies; an evaluation module records the '
        'weights after every step, and each change is decided against an '
        'independent optimiser on closed-form gradients; checkpoints are '
        'counted while training runs and loaded afterwards, in resumed '
        'trainings too; distinct = (optimiser, clipping, regularisation, '
        'frequencies, resumes)')
ASSUMPTIONS = ['the optimisers of keras are right',
               'the evaluation module is called after the step it names',
               'every training step uses one of the training batches']
WORKERS = {'quick': 4}
BUDGET = {'quick': 40, 'thorough': 500}
REQUIRE = {'steps': 150, 'losses': 60, 'checkpoints': 20, 'trainings': 14,
           'aborts': 2, 'resumes': 3, 'real steps': 6}
OPTIMIZERS = {
    'SGD': dict(learning_rate=0.01), 'Adam': dict(learning_rate=0.02),
    'RMSprop': dict(learning_rate=0.005), 'Adagrad': dict(
        learning_rate=0.05)}
MULTI = 'egenerator.utils.learning_rate.MultiLearningRateScheduler'
POLY = 'tensorflow.keras.optimizers.schedules.PolynomialDecay'


class Setup(object):
    def __init__(self, rng, n_models=1, nan=False, unused=True, pool=5,
                 P=None, n_events=5, dtype='float64'):
        P = P or int(rng.randint(1, 5))
        self.P, self.n_models, self.dtype = P, n_models, dtype
        md._COUNTER[0] += 1
        key = 'train{}'.format(md._COUNTER[0])
        tensors = md.tensor_list(P, time_exclusions=False,
                                 dom_exclusions=False, seeds=['x_target'],
                                 dtype=dtype)
        self.handler = tr.TrainHandler()
        self.handler.configure(config=dict(key=key, tensors=tensors))
        stat = self.arrays(rng, 30)
        self.trafo = md.make_trafo(self.handler, key, stat,
                                   norm_constant=1e-6,
                                   float_precision=dtype)
        self.names = [t.name for t in self.handler.tensors.list]
        self.pools = {}
        for kind, n in (('training', pool), ('validation', 2)):
            batches = [md.batch_tuple(self.handler, self.arrays(
                rng, n_events)) for _ in range(n)]
            ah.STORE[key + kind] = batches
            self.pools[kind] = (key + kind, batches)
        self.loss_config = dict(scale=float(rng.uniform(0.5, 3.)),
                                root=float(rng.uniform(0.1, 1.)),
                                training=float(rng.uniform(1, 5)))
        self.loss = tr.TrainLoss()
        self.loss.configure(config=self.loss_config)
        md._COUNTER[0] += 1
        self.dir = os.path.join(scratch(), 'manager{}'.format(
            md._COUNTER[0]))
        self.models = []
        for _ in range(n_models):
            c = rng.uniform(0.5, 2., 2)
            if nan:
                c[rng.randint(2)] = 0.
            start = dict(a=rng.normal(size=P), b=rng.normal(), c=c,
                         frozen=rng.normal(size=P))
            if unused:
                start['unused'] = rng.normal(size=3)
            start = {k: np.asarray(v).tolist() for k, v in start.items()}
            model = tr.TrainSource()
            model.configure(config=dict(
                names=['p%d' % i for i in range(P)], start=start,
                dtype=dtype), data_trafo=self.trafo)
            self.models.append(model)
        self.manager = md.make_manager(self.handler, self.models,
                                       manager_dir=self.dir)

    def arrays(self, rng, n):
        theta = rng.normal(size=(n, self.P))
        a = md.make_batch(rng, theta, time_exclusions=False,
                          dom_exclusions=False, mean_pulses=2)
        a['x_target'] = theta * 2 - 1 + rng.normal(size=(n, self.P)) * 0.3
        a['x_parameters'] = theta
        return {k: v.astype(self.dtype) if v.dtype.kind == 'f' else v
                for k, v in a.items()}

    def config(self, optimizer, settings, opt, **frequencies):
        it = {k: dict(input_data=self.pools[k][0], batch_size=5)
              for k in self.pools}
        training = dict(optimizer_name=optimizer,
                        optimizer_settings=settings,
                        additional_loss_module_kwargs={},
                        validation_frequency=1000,
                        evaluation_frequency=1, save_frequency=1000)
        training.update(opt)
        training.update(frequencies)
        return {'training_settings': training, 'data_iterator_settings': it}


def draw_options(rng, nan=False):
    opt = {'l1_regularization': 0., 'l2_regularization': 0.}
    if rng.rand() < 0.4:
        opt['l1_regularization'] = float(10**rng.uniform(-3, 0.5))
    if rng.rand() < 0.4:
        opt['l2_regularization'] = float(10**rng.uniform(-3, 0.5))
    if rng.rand() < 0.6:
        opt['clip_gradients_value'] = float(10**rng.uniform(-2, 2)) \
            if rng.rand() < 0.8 else None
    if nan or rng.rand() < 0.3:
        opt['remove_nan_gradients'] = bool(nan or rng.rand() < 0.5)
    return opt


def draw_optimizer(rng):
    """(name, settings for the loop, settings for the reference)"""
    name = sorted(OPTIMIZERS)[rng.randint(len(OPTIMIZERS))]
    settings = dict(OPTIMIZERS[name])
    mine = dict(settings)
    if rng.rand() < 0.4:
        import tensorflow as tf
        r = settings['learning_rate']
        n = int(rng.randint(2, 6))
        parts = [dict(full_class_string=POLY, settings=dict(
            initial_learning_rate=r * f, end_learning_rate=r * f,
            decay_steps=n)) for f in (1., 0.25, 2.)]
        settings['learning_rate'] = {
            'full_class_string': MULTI, 'settings': {
                'boundaries': [n, 2 * n], 'scheduler_settings': parts}}
        mine['learning_rate'] = tf.keras.optimizers.schedules.\
            PiecewiseConstantDecay([n, 2 * n], [r, r * 0.25, r * 2.])
        name_seen = name + ' scheduled'
    else:
        name_seen = name
    return name, settings, mine, name_seen


class Follower(object):
    """Independent optimiser that is advanced along accepted steps."""

    def __init__(self, setup, name, settings, opt, values, factor=1.):
        import tensorflow as tf
        self.tf, self.s, self.opt, self.factor = tf, setup, opt, factor
        self.optimizer = getattr(tf.optimizers, name)(**settings)
        self.values = values
        self.vars = [{k: tf.Variable(v[k]) for k in tr.NAMES
                      if k in v and self.moves(k)} for v in values]
        flat = [d[k] for d in self.vars for k in d]
        self.optimizer.build(flat)

    def moves(self, key):
        return key != 'unused' or self.opt['l1_regularization'] > 0 or \
            self.opt['l2_regularization'] > 0

    def gradients(self, values, batch):
        loss, grads = 0., []
        for v in values:
            v = dict(v)
            v.setdefault('unused', np.zeros(1))
            part, g = tr.reference(self.s.loss_config, v, batch,
                                   self.s.names, self.opt,
                                   factor=self.factor)
            loss += part
            grads.append(g)
        if self.opt.get('remove_nan_gradients'):
            grads = [{k: None if x is None else np.where(np.isnan(x), 0., x)
                      for k, x in g.items()} for g in grads]
        clip = self.opt.get('clip_gradients_value')
        if clip is not None:
            norm = np.sqrt(sum((x**2).sum() for g, d in zip(
                grads, self.vars) for k, x in g.items() if k in d))
            f = min(1., clip / norm) if norm > 0 else 1.
            grads = [{k: None if x is None else x * f
                      for k, x in g.items()} for g in grads]
        return loss, grads

    def state(self):
        return [v.numpy() for v in self.optimizer.variables]

    def restore(self, state, values):
        for v, x in zip(self.optimizer.variables, state):
            v.assign(x)
        for d, v in zip(self.vars, values):
            for k in d:
                d[k].assign(v[k])

    def advance(self, values, batch):
        """Weights after a step from values with this batch."""
        _, grads = self.gradients(values, batch)
        pairs = [(self.tf.constant(np.asarray(g[k], self.s.dtype)), d[k])
                 for g, d in zip(grads, self.vars) for k in d]
        self.optimizer.apply_gradients(pairs)
        out = []
        for d, v in zip(self.vars, values):
            new = dict(v)
            new.update({k: x.numpy() for k, x in d.items()})
            out.append(new)
        return out

    def match(self, before, after, pool):
        """Index of the batch that explains the step (or None, distance)"""
        state = self.state()
        best = (np.inf, None)
        for i, batch in enumerate(pool):
            self.restore(state, before)
            want = self.advance(before, batch)
            d = max(np.abs(np.asarray(w[k]) - a[k]).max() /
                    (1 + np.abs(np.asarray(w[k])).max())
                    for w, a in zip(want, after) for k in w)
            if not np.isfinite(d):
                d = np.inf
            if d < best[0]:
                best = (d, i)
                if d < 1e-7:
                    return best
        return best


def latest_checkpoint(path):
    files = glob.glob(os.path.join(glob.escape(path),
                                   'model_checkpoint_*.index'))
    return max([int(os.path.basename(f).split('_')[2].split('.')[0])
                for f in files] or [0])


def run_training(m, s, manager, models, config, n):
    """Run the loop; returns the log of the recorder."""
    tr.LOG[:] = []
    tr.MODELS[:] = models
    tr.HOOK[0] = lambda: [latest_checkpoint(os.path.join(
        s.dir, 'models_%04d' % i)) for i in range(len(models))]
    recorder = tr.Recorder()
    recorder.configure(config={})
    m.event('trainings')
    m.call('training raised', manager.train, config=config,
           loss_module=s.loss, num_training_iterations=n,
           evaluation_module=recorder)
    return list(tr.LOG)


def decide_steps(m, s, follower, start, log, first_step, label):
    """Weights and counters after every step."""
    pool = s.pools['training'][1]
    before, used = start, []
    for k, entry in enumerate(log):
        m.event('steps')
        m.check(any(all(np.array_equal(x, y) for x, y in zip(
            entry['batch'], b)) for b in s.pools['validation'][1]),
            'evaluation does not use validation data', label)
        m.check(entry['step'] == k, 'evaluated step', label,
                got=entry['step'], want=k)
        m.check(all(x == first_step + k + 1 for x in entry['steps']),
                'number of completed steps', label, got=entry['steps'],
                want=first_step + k + 1)
        for v, w in zip(before, entry['values']):
            m.check(np.array_equal(v['frozen'], w['frozen']) and (
                'unused' not in v or follower.moves('unused') or
                np.array_equal(v['unused'], w['unused'])),
                'weights without a gradient were changed', label)
        d, i = follower.match(before, entry['values'], pool)
        used.append(i)
        if not m.check(d < 1e-7, 'change of the weights is not one step of '
                       'the optimiser', label, step=k, distance=d):
            return False
        before = entry['values']
    if len(log) >= 6 and len(pool) > 1:
        m.check(len(set(used)) > 1, 'training does not use new batches',
                label, used=used)
    return True


def case_train(m, rng):
    """Steps of complete trainings."""
    nan = rng.rand() < 0.3
    s = Setup(rng, n_models=int(rng.choice([1, 1, 2, 3])), nan=nan,
              unused=bool(rng.rand() < 0.6), pool=int(rng.choice([1, 5])))
    name, settings, mine, seen = draw_optimizer(rng)
    opt = draw_options(rng, nan)
    factor = 1.
    if rng.rand() < 0.3:
        factor = 0.3
        opt['additional_loss_module_kwargs'] = {'factor': factor}
    label = '{} {}'.format(seen, sorted(opt.items(), key=str))
    m.saw('training', (seen, tuple(sorted((k, v is None or v != 0)
                                          for k, v in opt.items())),
                       s.n_models, nan))
    start = [x.values() for x in s.models]
    config = s.config(name, settings, opt, validation_frequency=int(
        rng.choice([1, 2, 1000])))
    follower = Follower(s, name, mine, opt, start, factor)
    n = int(rng.randint(6, 12))
    log = run_training(m, s, s.manager, s.models, config, n)
    m.check(len(log) == n, 'number of training steps', label, got=len(log),
            want=n)
    decide_steps(m, s, follower, start, log, 1, label)
    m.check(all(int(x.step) == n + 1 for x in s.models),
            'number of completed steps', label)
    end = [x.values() for x in s.models]
    m.check(all(np.array_equal(a[k], b[k]) for a, b in zip(
        end, log[-1]['values']) for k in a), 'weights changed after the '
        'last step', label)


def case_loss(m, rng, n=8):
    """Reported losses and steps of single calls."""
    import tensorflow as tf
    nan = rng.rand() < 0.3
    s = Setup(rng, n_models=int(rng.choice([1, 2])), nan=nan,
              unused=bool(rng.rand() < 0.5))
    opt = draw_options(rng, nan)
    name, settings, mine, seen = draw_optimizer(rng)
    config = s.config(name, settings, opt)
    start = [x.values() for x in s.models]
    follower = Follower(s, name, mine, opt, start)
    log = run_training(m, s, s.manager, s.models, config, 1)
    if not decide_steps(m, s, follower, start, log, 1, seen):
        return
    m.saw('single steps', (seen, s.n_models, nan, tuple(sorted(
        (k, v is None or v != 0) for k, v in opt.items()))))
    signature = s.handler.get_data_set_signature()
    step = s.manager.get_concrete_function(
        function=s.manager.perform_training_step,
        input_signature=(signature,), loss_module=s.loss, opt_config=opt)
    get = [s.manager.get_concrete_function(
        function=s.manager.get_loss, input_signature=(signature,),
        loss_module=s.loss, opt_config=opt, is_training=t)
        for t in (False, True)]
    for k in range(n):
        arrays = md.batch_tuple(s.handler, s.arrays(rng, int(
            rng.randint(1, 9))))
        batch = tuple(tf.convert_to_tensor(v) for v in arrays)
        before = [x.values() for x in s.models]
        want, _ = follower.gradients(before, arrays)
        tol = 1e-9 * (abs(want) + 1)
        const = s.n_models * s.loss_config['training']
        for t, f in enumerate(get):
            m.event('losses')
            got = float(m.call('loss raised', f, batch))
            m.check(abs(got - (want - (0 if t else const))) < tol,
                    'reported loss', 'training' if t else 'evaluation',
                    got=got, want=want - (0 if t else const))
        m.check(all(np.array_equal(a[q], b[q]) for a, b in zip(
            before, [x.values() for x in s.models]) for q in a),
            'computing the loss changed weights', '')
        m.event('losses')
        m.event('steps')
        got = float(m.call('training step raised', step, batch))
        m.check(abs(got - want) < tol, 'reported loss of a training step',
                '', got=got, want=want)
        d, _ = follower.match(before, [x.values() for x in s.models],
                              [arrays])
        if not m.check(d < 1e-7, 'change of the weights is not one step of '
                       'the optimiser', 'single', distance=d):
            return


def case_save(m, rng):
    """Checkpoints, resumed trainings."""
    from egenerator.manager.source import SourceManager
    s = Setup(rng, n_models=int(rng.choice([1, 2])), unused=bool(
        rng.rand() < 0.4))
    manager, models = s.manager, s.models
    done = 0
    for session in range(3 if rng.rand() < 0.5 else 2):
        if session:
            m.event('resumes')
            manager = SourceManager()
            m.call('loading raised', manager.load, s.dir)
            models = manager.models
            m.check(all(np.array_equal(a.values()[k], b[k]) for a, b in zip(
                models, end) for k in b), 'weights of the resumed training',
                '')
            m.check(all(int(x.step) == done + 1 for x in models),
                    'completed steps were not preserved', '',
                    got=[int(x.step) for x in models], want=done + 1)
        freq = int(rng.choice([1, 2, 3, 5, 50]))
        n = int(rng.randint(1, 11))
        name, settings, mine, seen = draw_optimizer(rng)
        opt = draw_options(rng)
        config = s.config(name, settings, opt, save_frequency=freq,
                          validation_frequency=int(rng.choice([1, 3, 7])))
        start = [x.values() for x in models]
        follower = Follower(s, name, mine, opt, start)
        paths = [os.path.join(s.dir, 'models_%04d' % i)
                 for i in range(len(models))]
        before = [latest_checkpoint(p) for p in paths]
        log = run_training(m, s, manager, models, config, n)
        label = 'session {} of {} steps'.format(session, n)
        m.check(len(log) == n, 'number of training steps', label,
                got=len(log), want=n)
        m.saw('session', (session, freq, n))
        if not decide_steps(m, s, follower, start, log, done + 1, label):
            return
        # the start is stored before the first step
        number = [log[0]['extra'][i] for i in range(len(paths))]
        m.check(all(a > b for a, b in zip(number, before)),
                'start of the training is not stored', label, got=number,
                before=before)
        want = list(number)
        stored = {number[0]: start[0]}
        for k in range(n):
            m.event('checkpoints')
            m.check(log[k]['extra'] == want, 'checkpoints stored during the '
                    'training', label, step=k, got=log[k]['extra'],
                    want=want, frequency=freq)
            if k % freq == 0 and k:
                want = [w + 1 for w in want]
                stored[want[0]] = log[k]['values'][0]
        want = [w + 1 for w in want]
        stored[want[0]] = log[-1]['values'][0]
        m.check([latest_checkpoint(p) for p in paths] == want, 'checkpoint '
                'of the end of the training', label,
                got=[latest_checkpoint(p) for p in paths], want=want)
        end = [x.values() for x in models]
        # all checkpoints that are left hold the weights of their step
        probe = SourceManager()
        m.call('loading raised', probe.load, s.dir)
        for number, values in stored.items():
            left = os.path.exists(os.path.join(
                paths[0], 'model_checkpoint_%08d.index' % number))
            if number in (min(stored), max(stored)):
                m.check(left, 'first or last checkpoint of the training '
                        'was removed', label, number=number)
            if left:
                m.event('checkpoints')
                m.call('loading raised', probe.models[0].load_weights,
                       paths[0], checkpoint_number=number)
                m.check(all(np.array_equal(probe.models[0].values()[k],
                                           values[k]) for k in values),
                        'weights of a checkpoint', label, number=number)
        done += n
        with open(os.path.join(paths[0], 'training',
                               'training_steps.yaml')) as f:
            meta = YAML(typ='safe').load(f)
        entry = meta['training_steps'][meta['latest_step']]
        m.check(len(meta['training_steps']) == session + 1,
                'trainings on record', label,
                got=len(meta['training_steps']), want=session + 1)
        m.check(entry['num_training_steps'] == n, 'recorded number of '
                'training steps', label, got=entry['num_training_steps'],
                want=n)


def case_abort(m, rng):
    """Invalid gradients and losses stop the training."""
    s = Setup(rng, nan=True)
    opt = {'l1_regularization': 0., 'l2_regularization': 0.,
           'remove_nan_gradients': False}
    if rng.rand() < 0.5:
        opt['clip_gradients_value'] = 1.
    m.event('aborts')
    before = s.models[0].values()
    config = s.config('SGD', dict(learning_rate=0.1), opt)
    m.raises(lambda: s.manager.train(
        config=config, loss_module=s.loss, num_training_iterations=3),
        'training with invalid gradients continues')
    after = s.models[0].values()
    m.check(all(np.array_equal(before[k], after[k]) for k in before),
            'invalid gradients changed the weights', '')
    s = Setup(rng)
    key, batches = s.pools['validation']
    for i, b in enumerate(batches):
        b = list(b)
        j = s.names.index('x_target')
        b[j] = b[j] * np.nan
        ah.STORE[key][i] = tuple(b)
    m.event('aborts')
    opt = {'l1_regularization': 0., 'l2_regularization': 0.}
    config = s.config('SGD', dict(learning_rate=0.1), opt,
                      validation_frequency=2)
    m.raises(lambda: s.manager.train(
        config=config, loss_module=s.loss, num_training_iterations=3),
        'training with invalid validation loss continues')


def case_real(m, rng):
    """A real model and loss: every step follows the gradient."""
    import tensorflow as tf
    handler, model, sampler = md.build('cascade', rng, randomized=0.2)
    data = md.make_batch(rng, sampler(4),
                         time_exclusions=md.has_windows(handler))
    base = os.path.join(scratch(), 'real{}'.format(md._COUNTER[0]))
    manager = md.make_manager(handler, [model], manager_dir=base)
    loss = md.make_loss('unbinned_extended_pulse_llh')
    clip = float(10**rng.uniform(-1, 6))
    opt = {'l1_regularization': 0., 'l2_regularization': float(
        rng.choice([0., 0.01])), 'clip_gradients_value': clip}
    optimizer = tf.optimizers.SGD(1e-3)
    manager._untracked_data['optimizer'] = optimizer
    signature = md.signature(handler)
    step = manager.get_concrete_function(
        function=manager.perform_training_step,
        input_signature=(signature,), loss_module=loss, opt_config=opt)
    value = manager.get_concrete_function(
        function=manager.get_loss, input_signature=(signature,),
        loss_module=loss, opt_config=opt, is_training=True)
    batch = md.batch_tuple(handler, data, as_tensor=True)
    variables = list(model.trainable_variables)
    for k in range(3):
        # a learning rate that moves the weights by a small distance
        with tf.GradientTape() as tape:
            current = value(batch)
        norm = tf.linalg.global_norm(tape.gradient(current, variables))
        lr = 3e-3 / min(float(norm) + 1e-6, clip)
        optimizer.learning_rate.assign(lr)
        before = [v.numpy().astype(float) for v in variables]
        reported = float(m.call('training step raised', step, batch))
        delta = [(v.numpy() - b) / -lr for v, b in zip(variables, before)]
        after = [v.numpy() for v in variables]
        norm = np.sqrt(sum((d**2).sum() for d in delta))
        for v, b in zip(variables, before):
            v.assign(b)
        at = float(value(batch))
        m.event('real steps')
        m.check(abs(at - reported) <= 1e-4 * (abs(at) + 1), 'reported loss '
                'of a training step', 'real', got=reported, want=at)
        if norm < 1e-6:
            continue
        # slope of the reported loss along the (unclipped) direction
        h = 1e-3
        ends = []
        for sign in (1, -1):
            for v, b, d in zip(variables, before, delta):
                v.assign(b + sign * h * d / norm)
            ends.append(float(value(batch)))
        slope = (ends[0] - ends[1]) / (2 * h)
        clipped = norm > 0.99 * clip
        noise = 3e-6 * abs(at) / h + 0.02 * abs(slope)
        m.saw('slope', (k, clipped))
        if clipped:
            m.check(abs(norm - clip) < 0.02 * clip and slope > norm - noise,
                    'clipped step does not follow the gradient', '',
                    norm=norm, clip=clip, slope=slope)
        else:
            m.check(abs(slope - norm) < noise + 0.02 * norm, 'step does not '
                    'follow the gradient', '', norm=norm, slope=slope)
        for v, a in zip(variables, after):
            v.assign(a)


def cases(tier):
    return [
        Case('real', case_real, 2, 12),
        Case('save', case_save, 3, 40),
        Case('train', case_train, 6, 80),
        Case('loss', case_loss, 4, 60),
        Case('abort', case_abort, 1, 4),
    ]
