"""N01: Learning-rate schedules switch where configured."""
import copy
import json

import numpy as np

from vh.core import Case

RULE = ('random combined schedules (0 to 6 boundaries, five kinds of '
        'schedules, nested ones) are evaluated at every step around each '
        'boundary and at random steps, as Python numbers, tensors of '
        'several types, variables, inside of graphs and by a real '
        'optimiser; every rate is compared with a closed form; distinct = '
        '(boundaries, kinds)')
ASSUMPTIONS = ['boundaries are strictly increasing whole numbers']
WORKERS = {'quick': 4}
BUDGET = {'quick': 25, 'thorough': 300}
REQUIRE = {'rates': 1500, 'boundary rates': 300, 'optimiser steps': 60,
           'round trips': 10, 'refusals': 8}
BASE = 'tensorflow.keras.optimizers.schedules.'
MULTI = 'egenerator.utils.learning_rate.MultiLearningRateScheduler'


def draw(rng, depth=0):
    """(settings of a schedule, closed form, kind)"""
    kind = rng.randint(6 if depth == 0 else 5)
    r = float(10**rng.uniform(-3, 0))
    n = int(rng.randint(2, 60))
    if kind == 0:
        end = float(r * rng.uniform(0, 1.5))
        power = float(rng.choice([1, 1, 2, 0.5]))
        cycle = False
        s = dict(initial_learning_rate=r, end_learning_rate=end,
                 decay_steps=n, power=power, cycle=cycle)

        def f(k):
            k = min(k, n)
            return (r - end) * (1 - k / n)**power + end
        name = 'PolynomialDecay'
    elif kind == 1:
        rate, stair = float(rng.uniform(0.5, 1.1)), bool(rng.rand() < 0.5)
        s = dict(initial_learning_rate=r, decay_rate=rate, decay_steps=n,
                 staircase=stair)

        def f(k):
            return r * rate**(np.floor(k / n) if stair else k / n)
        name = 'ExponentialDecay'
    elif kind == 2:
        rate = float(rng.uniform(0.1, 2.))
        s = dict(initial_learning_rate=r, decay_rate=rate, decay_steps=n)

        def f(k):
            return r / (1 + rate * k / n)
        name = 'InverseTimeDecay'
    elif kind == 3:
        alpha = float(rng.uniform(0, 0.5))
        s = dict(initial_learning_rate=r, decay_steps=n, alpha=alpha)

        def f(k):
            c = 0.5 * (1 + np.cos(np.pi * min(k, n) / n))
            return r * ((1 - alpha) * c + alpha)
        name = 'CosineDecay'
    elif kind == 4:
        s = dict(initial_learning_rate=r, end_learning_rate=r,
                 decay_steps=n)

        def f(k):
            return r
        name = 'PolynomialDecay'
    else:
        settings, f, _, _ = multi(rng, 1)
        return {'full_class_string': MULTI, 'settings': settings}, f, 'multi'
    return {'full_class_string': BASE + name, 'settings': s}, f, name


def multi(rng, depth=0):
    """(settings, closed form, boundaries, kinds)"""
    n = int(rng.randint(1 if depth else 0, 7))
    bounds = [int(b) for b in np.cumsum(rng.choice(
        [1, 2, 3, 5, 17, 40], size=n))]
    parts = [draw(rng, depth) for _ in range(n + 1)]

    def f(step):
        i = int(np.searchsorted(bounds, step, side='left'))
        low = bounds[i - 1] if i else 0
        return parts[i][1](step - low)
    settings = {'boundaries': bounds,
                'scheduler_settings': [p[0] for p in parts]}
    return settings, f, bounds, tuple(p[2] for p in parts)


def build(m, settings):
    from egenerator.utils.learning_rate import MultiLearningRateScheduler
    given = copy.deepcopy(settings)
    s = m.call('schedule refused', MultiLearningRateScheduler, **settings)
    m.check(settings == given, 'settings of the schedule were changed', '')
    return s


def steps_of(rng, bounds):
    out = {0, 1, 2, 1000}
    for b in bounds:
        out |= {b - 1, b, b + 1, b + 2}
    out |= set(int(v) for v in rng.randint(
        0, (bounds[-1] if bounds else 20) + 30, size=4))
    return sorted(v for v in out if v >= 0)


def compare(m, schedule, f, steps, bounds, label):
    for step, value in steps:
        got = float(np.asarray(m.call('schedule raised', schedule, value)))
        want = f(step)
        m.event('rates')
        if any(abs(step - b) <= 1 for b in bounds):
            m.event('boundary rates')
        if not m.check(abs(got - want) <= 2e-5 * abs(want) + 1e-7,
                       'learning rate', label, step=step, got=got,
                       want=want, boundaries=bounds):
            return False
    return True


def case_values(m, rng, n=3):
    import tensorflow as tf
    for _ in range(n):
        settings, f, bounds, kinds = multi(rng)
        schedule = build(m, settings)
        m.saw('schedule', (tuple(bounds), kinds))
        steps = steps_of(rng, bounds)
        dtype = [tf.int64, tf.int32, tf.float32, tf.float64][rng.randint(4)]
        if not compare(m, schedule, f, [(s, tf.constant(s, dtype))
                                        for s in steps], bounds,
                       str(dtype)):
            continue
        few = [steps[i] for i in rng.permutation(len(steps))[:4]]
        compare(m, schedule, f, [(s, s) for s in few[:1]], bounds, 'number')
        var = tf.Variable(0, dtype=tf.int64)
        for s in few:
            var.assign(s)
            compare(m, schedule, f, [(s, var)], bounds, 'variable')

        @tf.function
        def graph(k):
            return schedule(k)
        compare(m, graph, f, [(s, tf.constant(s, tf.int64)) for s in few],
                bounds, 'graph')
        # the configuration reproduces the schedule
        m.event('round trips')
        config = m.call('configuration raised', schedule.get_config)
        text = m.call('configuration is not plain data', json.dumps, config)
        for other in (type(schedule)(**config),
                      type(schedule).from_config(json.loads(text))):
            compare(m, other, f, [(s, tf.constant(s, dtype)) for s in few],
                    bounds, 'reproduced')
            m.check(json.dumps(other.get_config()) == text,
                    'configuration of the reproduced schedule', '')
        compare(m, schedule, f, [(s, tf.constant(s, dtype))
                                for s in few[:2]], bounds, 'repeated')


def case_optimizer(m, rng):
    """The rates reach the weights during an optimisation."""
    import tensorflow as tf
    settings, f, bounds, kinds = multi(rng)
    schedule = build(m, settings)
    m.saw('optimiser', (tuple(bounds), kinds))
    opt = tf.optimizers.SGD(learning_rate=schedule)
    w = tf.Variable(np.zeros(2), dtype=tf.float64)

    @tf.function
    def step():
        opt.apply_gradients([(tf.ones_like(w), w)])
    total = min(40, (bounds[-1] if bounds else 10) + 8)
    for k in range(total):
        before = w.numpy()
        m.call('optimiser raised', step)
        got, want = before - w.numpy(), f(k)
        m.event('optimiser steps')
        if not m.check(np.abs(got - want).max() <= 2e-5 * abs(want) + 1e-7,
                       'learning rate of the optimiser', '', step=k,
                       got=got, want=want, boundaries=bounds):
            return


def case_refused(m, rng):
    from egenerator.utils.learning_rate import MultiLearningRateScheduler
    for _ in range(4):
        settings, f, bounds, kinds = multi(rng, 1)
        m.event('refusals', 2)
        more = dict(settings, boundaries=bounds + [bounds[-1] + 5])
        m.raises(lambda: MultiLearningRateScheduler(**more),
                 'too many boundaries accepted')
        less = dict(settings, boundaries=bounds[:-1])
        m.raises(lambda: MultiLearningRateScheduler(**less),
                 'too few boundaries accepted')


def cases(tier):
    return [Case('values', case_values, 8, 60),
            Case('optimizer', case_optimizer, 3, 30),
            Case('refused', case_refused, 1, 4)]
