"""P01: The command-line programs and the tray module do what they document."""
import contextlib
import copy
import io
import os
import shutil

import numpy as np

from vh.core import Case, scratch
from vh import models as md
from vh import pipeline as pl
from vh import train as tr
from vh import events as ev

RULE = ('random small projects (data files, models, losses, settings) are '
        'taken through the command-line programs in random histories (new, '
        'again with confirmation or refusal, resumed, exported, '
        'reconstructed); after every program the directories, weights, '
        'training records and tables are compared with what the program '
        'documents; frames are reconstructed with the tray module; distinct '
        '= (program, situation, options)')
ASSUMPTIONS = ['events hold pulses at different times',
               'reconstructions of test data with one event per batch']
WORKERS = {'quick': 4}
BUDGET = {'quick': 60, 'thorough': 500}
REQUIRE = {'programs': 24, 'refusals': 6, 'unchanged directories': 8,
           'training runs': 6, 'reconstructed events': 12,
           'restored members': 4, 'frames': 4}


def weights(model):
    return [v.numpy() for v in model.variables]


def same_weights(a, b):
    return len(a) == len(b) and all(np.array_equal(x, y)
                                    for x, y in zip(a, b))


def load_manager(path):
    from egenerator.manager.source import SourceManager
    manager = SourceManager()
    manager.load(path)
    return manager


def checkpoint_files(path):
    """Directories with checkpoints and their descriptions"""
    out = {}
    for base, _, files in sorted(os.walk(path)):
        if 'model_checkpoint.yaml' in files:
            out[os.path.relpath(base, path)] = pl.read_yaml(
                os.path.join(base, 'model_checkpoint.yaml'))
    return out


def training_records(path):
    out = {}
    for base, _, files in sorted(os.walk(path)):
        if 'training_steps.yaml' in files:
            meta = pl.read_yaml(os.path.join(base, 'training_steps.yaml'))
            configs = {
                i: pl.read_yaml(os.path.join(
                    base, 'step_{:04d}'.format(i), 'training_config.yaml'))
                for i in meta['training_steps']}
            out[os.path.relpath(base, path)] = (meta, configs)
    return out


def program(m, task, args, situation, answer=None, ok=True):
    m.event('programs')
    m.saw('program', (task, situation))
    with contextlib.redirect_stdout(io.StringIO()):
        result = pl.run(task, args, answer)
    if ok:
        text = '' if result.exception is None else repr(result.exception)
        if not m.check(result.exit_code == 0, task + ' failed', situation,
                       error=text[-500:]):
            import traceback
            from vh.core import Abort
            if os.environ.get('VERIF_VERBOSE'):
                traceback.print_exception(*result.exc_info)
            raise Abort()
    else:
        m.event('refusals')
        m.check(result.exit_code != 0 and not isinstance(
            result.exception, (AttributeError, NameError, UnboundLocalError)),
            task + ' did not refuse', situation,
            error=repr(result.exception)[-300:])
    return result


def unchanged(m, path, before, what):
    m.event('unchanged directories')
    now = pl.tree_hash(path)
    m.check(now == before, 'files were changed', what, changed=sorted(
        k for k in set(now) | set(before) if now.get(k) != before.get(k)
        )[:5])


def member_loss(loss_module, models, handler, data):
    return sum(md.event_loss(loss_module, x, handler, data) for x in models)


def event_data(handler, path):
    """Arrays of all events in a file, exclusions never missing."""
    _, data = handler.get_data_from_hdf(path)
    out = {}
    for t, v in zip(handler.tensors.list, data):
        if v is None:
            v = np.zeros((0, 2) if t.name == 'x_time_exclusions'
                         else (0, 3), t.dtype)
        out[t.name] = np.asarray(v)
    return out


# --------------------------------------------------------------------------
def make_trafo(m, rng, p, config):
    """create_trafo_model in all its situations"""
    from egenerator.data.trafo import DataTransformer
    path = p.path('trafo_' + p.name)
    program(m, 'create_trafo_model', [config], 'new')

    def decide(situation):
        trafo = DataTransformer()
        m.call('loading of the transformation raised', trafo.load, path)
        x = p.labels().astype(np.float32).astype(np.float64)
        log = np.array(p.trafo_log)
        x[:, log] = np.log(1. + x[:, log])
        m.close(np.asarray(trafo.data['x_parameters_mean']).ravel(),
                x.mean(axis=0), 'mean of the parameters', situation,
                rtol=1e-4, atol=1e-3)
        m.close(np.asarray(trafo.data['x_parameters_std']).ravel(),
                x.std(axis=0), 'standard deviation of the parameters',
                situation, rtol=1e-3, atol=1e-3)
        return trafo
    trafo = decide('new')
    if rng.rand() < 0.6:
        before = pl.tree_hash(path)
        program(m, 'create_trafo_model', [config], 'refused',
                answer=['n\n', '\n', ''][rng.randint(3)], ok=False)
        unchanged(m, path, before, 'transformation')
    if rng.rand() < 0.5:
        # a stale transformation is replaced
        stale = os.path.join(path, 'data.pickle')
        with open(stale, 'wb') as f:
            f.write(b'stale')
        program(m, 'create_trafo_model', [config], 'confirmed', answer='y\n')
        trafo = decide('confirmed')
    return trafo


def train(m, rng, p, settings, name, situation, answer=None, before=None):
    """A run of train_model; returns weights at the end."""
    path = settings['model_manager_settings']['config']['manager_dir']
    path = path.format(base_dir=p.base)
    n = settings['training_settings']['num_training_iterations']
    config = p.write(settings, name)
    records = training_records(path)
    del tr.LOG[:]
    program(m, 'train_model', [config], situation, answer=answer)
    m.event('training runs')
    manager = m.call('loading of the trained model raised', load_manager,
                     path)
    last = [weights(x) for x in manager.models]
    # models start counting at one; the counter of models with several
    # sources is not part of the checkpoints
    start = 1 if before is None else before[1]
    steps = [int(x.step) for x in manager.models]
    if not p.multi:
        m.check(all(s == start + n for s in steps),
                'number of steps of the model', situation, got=steps,
                want=start + n)
    # training records
    now = training_records(path)
    m.check(len(now) >= 1, 'no training record', situation)
    for key, (meta, configs) in now.items():
        index = 1 if before is None else records[key][0]['latest_step'] + 1
        m.check(meta['latest_step'] == index and sorted(configs) == list(
            range(1, index + 1)), 'index of the training step', situation,
            got=meta['latest_step'], want=index)
        m.check(meta['training_steps'][index]['num_training_steps'] == n,
                'recorded number of training steps', situation,
                got=meta['training_steps'][index]['num_training_steps'],
                want=n)
        if before is not None:
            m.check(all(configs[i] == records[key][1][i] and
                        meta['training_steps'][i] ==
                        records[key][0]['training_steps'][i]
                        for i in range(1, index)),
                    'records of previous trainings', situation)
        got = configs[index]
        want = p.expected(settings)
        for k in ('training_settings', 'loss_module_settings',
                  'data_iterator_settings', 'model_settings'):
            m.check(got[k] == want[k], 'recorded training configuration',
                    situation, key=k, got=str(got[k])[:300],
                    want=str(want[k])[:300])
    # checkpoints: the first of this run holds the weights it started with
    numbers = None
    for key, meta in checkpoint_files(path).items():
        found = dict(meta['unprotected_checkpoints'])
        found.update(meta['protected_checkpoints'])
        first = [k for k, v in meta['protected_checkpoints'].items()
                 if v['description'] == 'Starting Training']
        runs = 1 if before is None else before[2] + 1
        m.check(len(first) == runs, 'checkpoints at the start of trainings',
                situation, got=len(first), want=runs)
        m.check(meta['latest_checkpoint'] == max(found),
                'latest checkpoint', situation)
        if key.count(os.sep) == 0 and first:
            numbers = max(first)
    if numbers is not None:
        other = m.call('loading of the trained model raised', load_manager,
                       path)
        m.call('loading of a checkpoint raised', other.load_weights, path,
               checkpoint_number=int(numbers))
        initial = [weights(x) for x in other.models]
        if before is not None:
            m.check(all(same_weights(a, b) for a, b in zip(
                initial, before[0])), 'resumed training does not start from '
                'the stored weights', situation)
        m.check(not all(same_weights(a, b) for a, b in zip(initial, last)),
                'weights did not change', situation)
    # evaluation: batches of the validation data
    every = settings['training_settings']['evaluation_frequency']
    m.check([e['step'] for e in tr.LOG] == list(range(0, n, every)),
            'steps of the evaluation module', situation,
            got=[e['step'] for e in tr.LOG])
    index = manager.data_handler.tensors.get_index('x_parameters')
    labels = p.labels()[-len(p.events[-1]):].astype(np.float32)
    for e in tr.LOG:
        d = np.abs(e['batch'][index][:, None] - labels[None]).max(axis=2)
        m.check((d.min(axis=1) < 1e-3).all(), 'evaluation on other data '
                'than the validation data', situation)
    return last, start + n, (1 if before is None else before[2] + 1)


def reconstruct(m, rng, p, members, configs, loss_name):
    """reconstruct_test_data with one or several models"""
    settings = copy.deepcopy(members[0]['settings'])
    use = 'r' if rng.rand() < 0.5 else 'first'
    seeds = list(p.seeds)
    rng.shuffle(seeds)
    seeds = seeds[:int(rng.randint(1, len(seeds) + 1))]
    if rng.rand() < 0.2:
        seeds = seeds + ['x_parameters']
    reco = settings['reconstruction_settings']
    reco['seed'] = seeds[0] if len(seeds) == 1 and rng.rand() < 0.5 \
        else seeds
    fixed = {}
    if rng.rand() < 0.5:
        fixed = {n: False for n in members[0]['names'] if rng.rand() < 0.3}
    reco['minimize_parameter_dict'] = fixed
    reco['minimize_in_trafo_space'] = bool(rng.rand() < 0.7)
    reco['reco_output_file'] = p.path('out', 'sub', 'reco.hdf5')
    settings['loss_module_settings']['config']['loss_function_name'] = \
        loss_name
    files = [p.files[i] for i in rng.permutation(len(p.files))][
        :int(rng.randint(1, 3))]
    settings['data_iterator_settings']['test']['input_data'] = files
    path = p.write(settings, 'reco.yaml')
    situation = '{} members, seeds {}, {}'.format(len(configs), reco['seed'],
                                                  use)
    import pandas as pd
    before = {x['dir']: pl.tree_hash(x['dir']) for x in members}
    args = list(configs)
    if use == 'r':
        args += ['-r', path]
    else:
        args[0] = path
    program(m, 'reconstruct_test_data', args, situation)
    for key, value in before.items():
        unchanged(m, key, value, 'models of the reconstruction')
    if not m.check(os.path.exists(reco['reco_output_file']),
                   'no result of the reconstruction', situation):
        return
    table = pd.read_hdf(reco['reco_output_file'], key='Variables')
    index = [p.files.index(f) for f in files]
    labels = np.concatenate([[[e['labels'][pl.LABELS[n]]
                               for n in pl.PARAMS] for e in p.events[i]]
                             for i in index])
    m.event('reconstructed events', len(labels))
    if not m.check(len(table) == len(labels), 'number of reconstructed '
                   'events', situation, got=len(table), want=len(labels)):
        return
    names = members[0]['names']
    truth = table[names].to_numpy()
    m.close(truth, labels, 'true parameters', situation, rtol=1e-5,
            atol=1e-3)
    seed = table[[n + '_seed' for n in names]].to_numpy()
    best = table[[n + '_reco' for n in names]].to_numpy()
    options = {s: np.concatenate([p.seed_values[s][i] for i in index])
               if s != 'x_parameters' else labels for s in seeds}
    models = [x for y in members for x in y['models']]
    handler = members[0]['handler']
    from egenerator.utils.build_components import build_loss_module
    loss = build_loss_module(settings)
    rows = 0
    for f in files:
        data = event_data(handler, f)
        for i in range(len(data['x_parameters'])):
            one, _ = md.select_events(data, [i])

            def value(theta):
                return member_loss(loss, models, handler, dict(
                    one, x_parameters=np.asarray(
                        theta, np.float32)[None]))
            row = table.iloc[rows]
            tol = 2e-4 * abs(row.loss_true) + 0.05
            m.check(abs(value(truth[rows]) - row.loss_true) < tol,
                    'loss of the true parameters', situation,
                    got=row.loss_true, want=value(truth[rows]))
            tol = 2e-4 * abs(row.loss_reco) + 0.05
            m.check(abs(value(best[rows]) - row.loss_reco) < tol,
                    'loss of the reconstructed parameters', situation,
                    got=row.loss_reco, want=value(best[rows]))
            match = [s for s in seeds if np.allclose(
                options[s][rows], seed[rows], rtol=1e-5, atol=1e-3)]
            m.check(len(match) > 0, 'seed of the reconstruction is none of '
                    'the seeds of the event', situation, got=seed[rows])
            for s in seeds:
                want = value(options[s][rows])
                m.check(row.loss_reco < want + 2e-4 * abs(want) + 0.05,
                        'reconstruction is worse than a seed', situation,
                        seed=s, got=row.loss_reco, want=want)
                if s in match:
                    m.check(abs(row.loss_seed - want) < 2e-4 * abs(want) +
                            0.05, 'loss of the seed', situation,
                            got=row.loss_seed, want=want)
            for k, n in enumerate(names):
                if n in fixed:
                    m.check(abs(best[rows, k] - seed[rows, k]) <= 2e-4 * abs(
                        seed[rows, k]) + 1e-2, 'fixed parameter was changed',
                        situation, parameter=n, got=best[rows, k],
                        want=seed[rows, k])
            rows += 1


def case_commands(m, rng):
    base = os.path.join(scratch(), 'project{}'.format(rng.randint(2**31)))
    seeds = [['SeedA'], ['SeedA', 'SeedB']][rng.randint(2)]
    n_events = int(rng.choice([4, 4, 8]))
    p = Project(rng, base, n_files=2, n_events=n_events, seeds=seeds)
    settings = p.config()
    make_trafo(m, rng, p, p.write(settings))
    n_members = int(rng.choice([1, 2]))
    members = []
    for k in range(n_members):
        settings = p.config(n_steps=int(rng.choice([1, 2, 3])),
                            manager_dir='{base_dir}/manager%d' % k)
        settings['training_settings']['evaluation_frequency'] = int(
            rng.choice([1, 2]))
        settings['evaluation_module_settings']['evaluation_module'] = \
            'vh.train.Recorder'
        manager = settings['model_manager_settings']
        manager['restore_model'] = bool(rng.rand() < 0.5)
        name = 'train%d.yaml' % k
        path = p.path('manager%d' % k)
        state = train(m, rng, p, settings, name, 'new, restore {}'.format(
            manager['restore_model']))
        for action in [a for a in ('refused', 'resumed', 'confirmed')
                       if rng.rand() < 0.45]:
            if action == 'refused':
                manager['restore_model'] = False
                before = pl.tree_hash(path)
                program(m, 'train_model', [p.write(settings, name)],
                        'refused', answer=['n\n', ''][rng.randint(2)],
                        ok=False)
                unchanged(m, path, before, 'trained model')
            else:
                settings['training_settings']['num_training_iterations'] = \
                    int(rng.choice([1, 2]))
                manager['restore_model'] = action == 'resumed'
                state = train(
                    m, rng, p, settings, name, action,
                    answer='y\n' if action == 'confirmed' else None,
                    before=state if action == 'resumed' else None)
        manager['restore_model'] = True
        config = p.write(settings, name)
        loaded = load_manager(path)
        members.append(dict(
            dir=path, config=config, settings=settings, weights=state[0],
            models=list(loaded.models), handler=loaded.data_handler,
            manager=loaded, names=list(loaded.models[0].parameter_names)))
    # export
    out = p.path('exports', 'all')
    os.makedirs(os.path.dirname(out))
    order = [int(i) for i in rng.permutation(n_members)]
    configs = [members[i]['config'] for i in order]
    args = ['-o', out]
    reco = configs[0]
    if rng.rand() < 0.4:
        other = copy.deepcopy(members[order[0]]['settings'])
        other['reconstruction_settings']['seed_missing_value'] = 3.
        reco = p.write(other, 'other_reco.yaml')
        args += ['-r', reco]
    before = {x['dir']: pl.tree_hash(x['dir']) for x in members}

    def exported(situation):
        for key, value in before.items():
            unchanged(m, key, value, 'exported models')
        manager = m.call('loading of the export raised', load_manager, out)
        want = [w for i in order for w in members[i]['weights']]
        got = [weights(x) for x in manager.models]
        m.event('restored members', len(want))
        m.check(len(got) == len(want) and all(
            same_weights(a, b) for a, b in zip(got, want)),
            'weights of the exported models', situation)
        with open(os.path.join(out, 'reco_config.yaml')) as f:
            got = f.read()
        with open(reco) as f:
            m.check(got == f.read(), 'reconstruction settings of the export',
                    situation)
    program(m, 'export_manager', args + configs, 'new %d' % n_members)
    exported('new')
    if rng.rand() < 0.6:
        content = pl.tree_hash(out)
        program(m, 'export_manager', args + configs, 'refused',
                answer=['n\n', ''][rng.randint(2)], ok=False)
        unchanged(m, out, content, 'export')
    if rng.rand() < 0.5:
        stale = os.path.join(out, 'models_0007')
        os.makedirs(stale)
        with open(os.path.join(out, 'reco_config.yaml'), 'w') as f:
            f.write('stale')
        program(m, 'export_manager', args + configs, 'confirmed',
                answer='y\n')
        m.check(not os.path.exists(stale), 'files of the previous export '
                'are left', 'confirmed')
        exported('confirmed')
    # missing models are refused
    if rng.rand() < 0.5:
        missing = p.config(manager_dir='{base_dir}/nothing')
        program(m, 'reconstruct_test_data', [p.write(missing, 'none.yaml')],
                'missing model', ok=False)
    reconstruct(m, rng, p, [members[i] for i in order], configs,
                'unbinned_extended_pulse_llh')
    shutil.rmtree(base)


class Project(pl.Project):
    def expected(self, settings):
        """Configuration after the strings are expanded"""
        def expand(x, values):
            if isinstance(x, str):
                return x.replace('{base_dir}', self.base).replace(
                    '{unique_name}', self.name)
            if isinstance(x, dict):
                return {k: expand(v, values) for k, v in x.items()}
            if isinstance(x, list):
                return [expand(v, values) for v in x]
            return x
        return expand(settings, settings)


# --------------------------------------------------------------------------
# module of trays
# --------------------------------------------------------------------------
def case_frames(m, rng):
    from icecube import dataclasses
    from egenerator.ic3.reconstruction import EventGeneratorReconstruction
    base = os.path.join(scratch(), 'frames{}'.format(rng.randint(2**31)))
    p = Project(rng, base, n_files=2, n_events=4, seeds=('SeedA', 'SeedB'),
                multi=True)
    p.trafo_log = [False] * 5 + [bool(rng.rand() < 0.7), False]
    sizes = [int(v) for v in rng.choice([1, 2], size=int(
        rng.randint(1, 3)))]
    dirs, handler, _ = pl.write_managers(m, rng, p, sizes)
    for path, _ in dirs:
        shutil.copy(p.write(p.config()), os.path.join(path,
                                                      'reco_config.yaml'))
    names = ['cascade_' + n for n in pl.PARAMS]
    seeds = [['SeedA'], ['SeedB'], ['SeedB', 'SeedA']][rng.randint(3)]
    covariances = bool(rng.rand() < 0.5)
    fixed = {}
    if rng.rand() < 0.5 and not covariances:
        fixed = {n: False for n in names if rng.rand() < 0.3}
    parameters = dict(
        seed_keys=seeds[0] if len(seeds) == 1 else seeds,
        model_names=[os.path.basename(d) for d, _ in dirs],
        model_base_dir=base, output_key='Out', pulse_key='FramePulses',
        dom_exclusions_key='FrameDoms',
        time_exclusions_key='FrameWindows' if p.time_windows else None,
        add_covariances=covariances, minimize_parameter_dict=fixed,
        minimize_in_trafo_space=bool(rng.rand() < 0.7),
        scipy_optimizer_settings={'method': 'L-BFGS-B',
                                  'options': {'maxiter': 3},
                                  'bounds': copy.deepcopy(pl.BOUNDS)})
    if rng.rand() < 0.3:
        parameters.update(model_base_dir=None, model_names=[
            d for d, _ in dirs])
    if len(dirs) == 1:
        parameters['model_names'] = parameters['model_names'][0]
    module = EventGeneratorReconstruction(None)
    module.SetParameters(**parameters)
    with contextlib.redirect_stdout(io.StringIO()):
        m.call('configuring the module raised', module.Configure)
    models = [x for _, y in dirs for x in y]
    m.check(len(module.manager.models) == len(models), 'members', '',
            got=len(module.manager.models), want=len(models))
    situation = '{} {} cov {}'.format(sizes, seeds, covariances)
    m.saw('frames', (tuple(sizes), tuple(seeds), covariances, len(fixed)))
    execute, record = module.reco_tray.execute, []

    def spy(*args, **kwargs):
        record.append(execute(*args, **kwargs))
        return record[-1]
    module.reco_tray.execute = spy
    for k, event in enumerate(p.events[0][:2]):
        tables = {s: (pl.PARAMS, p.seed_values[s][0].tolist())
                  for s in p.seeds}
        frame = ev.make_frame(event, k, pulse_key='FramePulses',
                              dom_key='FrameDoms', tw_key='FrameWindows',
                              tables=tables)
        keys = set(frame.keys())
        m.event('frames')
        with contextlib.redirect_stdout(io.StringIO()):
            m.call('reconstruction of a frame raised', module.Physics, frame)
        m.check(len(module.pushed) == k + 1 and module.pushed[-1] is frame,
                'frame was not pushed once', situation)
        results = record[-1]
        out = frame['Out']
        m.check(keys < set(frame.keys()), 'keys of the frame', situation)
        theta = np.array([out[n] for n in names])
        m.check(np.array_equal(theta, np.asarray(
            results['reco']['result'][0], float)), 'parameters in the frame',
            situation)
        # losses
        _, data = handler.get_data_from_hdf(p.files[0])
        data = event_data(handler, p.files[0])
        one, _ = md.select_events(data, [k])

        def value(x):
            return member_loss(
                module.loss_module, models, handler, dict(
                    one, x_parameters=np.asarray(x, np.float32)[None]))
        want = value(theta)
        m.check(abs(want - out['loss_reco']) < 2e-4 * abs(want) + 0.05,
                'loss of the reconstruction', situation,
                got=out['loss_reco'], want=want)
        losses = {s: value(p.seed_values[s][0][k]) for s in seeds}
        for s, v in losses.items():
            m.check(out['loss_reco'] < v + 2e-4 * abs(v) + 0.05,
                    'reconstruction is worse than a seed', situation,
                    seed=s, got=out['loss_reco'], want=v)
        m.check(min(abs(out['loss_seed'] - v) / (2e-4 * abs(v) + 0.05)
                    for v in losses.values()) < 1, 'loss of the seed',
                situation, got=out['loss_seed'], want=losses)
        for n in fixed:
            i = names.index(n)
            m.check(min(abs(theta[i] - p.seed_values[s][0][k][i])
                        for s in seeds) <= 2e-4 * abs(theta[i]) + 1e-2,
                    'fixed parameter was changed', situation, parameter=n)
        m.check(out['minimization_success'] == bool(
            results['reco']['result_object'].success), 'success', situation)
        for n in module.reco_tray.module_names:
            m.check(out['runtime_' + n] == results[n]['runtime'] and
                    out['runtime_' + n] >= 0, 'runtime', situation, name=n)
        particle = frame['Out_I3Particle']
        m.check(isinstance(particle, dataclasses.I3Particle) and (
            particle.pos.x, particle.pos.y, particle.pos.z, particle.energy,
            particle.time) == tuple(theta[[0, 1, 2, 5, 6]]) and
            particle.dir.zenith == theta[3] and abs(np.angle(np.exp(1j * (
                particle.dir.azimuth - theta[4])))) < 1e-6,
            'particle does not have the reconstructed parameters', situation)
        if covariances:
            found = [x for x in frame.keys() if x.startswith(
                'Out_cov_matrix_')]
            m.check(sorted(found) == sorted(
                'Out_cov_matrix_' + x for x in results['covariance']
                if x != 'runtime'), 'covariance matrices', situation,
                got=found)
            m.event('covariance matrices', len(found))
            label = [('log_' if p.trafo_log[i] else '') + n
                     for i, n in enumerate(names)]
            for x in found:
                matrix = results['covariance'][x[len('Out_cov_matrix_'):]]
                want = {label[i] + '_' + label[j]: float(matrix[i, j])
                        for i in range(7) for j in range(i, 7)}
                m.check(set(want) == set(frame[x].keys()) and all(
                    np.array_equal(frame[x][key], v, equal_nan=True)
                    for key, v in want.items()), 'covariance matrix in the '
                    'frame', situation, matrix=x)
    shutil.rmtree(base)


def cases(tier):
    return [Case('commands', case_commands, 6, 40),
            Case('frames', case_frames, 2, 20)]
