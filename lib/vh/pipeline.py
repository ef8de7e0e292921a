"""Small projects for the command-line programs.

A Project holds synthetic data files and a directory; it writes configuration
files for the programs of the repository and runs them in this process.
"""
import copy
import hashlib
import io
import os
import re

import numpy as np
import tensorflow as tf
from ruamel.yaml import YAML

from vh import events as ev
from vh import models as md

# the configurator sets these (before tensorflow is used for the first time)
tf.config.threading.set_intra_op_parallelism_threads(0)
tf.config.threading.set_inter_op_parallelism_threads(0)

PARAMS = ['x', 'y', 'z', 'zenith', 'azimuth', 'energy', 'time']
LABELS = {p: 'cascade_' + {'time': 't'}.get(p, p) for p in PARAMS}
# such that models with random weights are only evaluated where they are finite
BOUNDS = [[-700., 700.]] * 3 + [[-1., 4.], [-1., 8.], [0.01, 1e7],
                                [8000., 12500.]]
LOSSES = ['unbinned_extended_pulse_llh', 'unbinned_pulse_time_llh',
          'unbinned_charge_quantile_pdf']
TASKS = ('create_trafo_model', 'train_model', 'export_manager',
         'reconstruct_test_data')


def tree_hash(path):
    """{relative path: digest} of everything below a directory."""
    out = {}
    for base, dirs, files in os.walk(path):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(base, f)
            with open(p, 'rb') as handle:
                out[os.path.relpath(p, path)] = hashlib.sha1(
                    handle.read()).hexdigest()
    return out


def extended(rng, event):
    """An event with pulses at different times (time window of the noise)"""
    def times(e):
        excluded = set(e['dom_exclusions'])
        return set(p[2] for p in e['pulses'] if p[1] <= 60 and
                   (p[0], p[1]) not in excluded)
    while len(times(event)) < 2:
        event = ev.make_event(rng, event['key'])
    return event


class Project(object):
    def __init__(self, rng, base, n_files=3, n_events=8, seeds=('SeedA',),
                 name='tiny', multi=None, exclusions=True):
        self.rng, self.base, self.name = rng, base, name
        os.makedirs(base)
        self.seeds = list(seeds)
        self.events, self.files, self.seed_values = [], [], {
            s: [] for s in seeds}
        self.trafo_log = [False] * 5 + [True, False]
        for i in range(n_files):
            events = [extended(rng, e) for e in ev.make_events(
                rng, n_events)]
            tables = {}
            for s in seeds:
                values = [[e['labels'][LABELS[p]]
                           for p in PARAMS] for e in events]
                values = np.array(values) * (1 + 0.01 * rng.normal(
                    size=(n_events, 7)))
                tables[s] = (PARAMS, values.tolist())
                self.seed_values[s].append(values)
            path = os.path.join(base, 'data_%04d.hdf5' % i)
            ev.write_hdf(path, events, tables=tables)
            self.events.append(events)
            self.files.append(path)
        self.multi = bool(rng.rand() < 0.5) if multi is None else multi
        self.model_config = md.cascade_config(
            n_models=2, charge=['negative_binomial', True, False][
                rng.randint(3)], opening=bool(rng.rand() < 0.5),
            rel_eff=bool(rng.rand() < 0.5))
        self.loss = 'unbinned_extended_pulse_llh'
        self.time_windows = bool(rng.rand() < 0.5)
        self.tf_float = 'float32'

    def path(self, *parts):
        return os.path.join(self.base, *parts)

    def labels(self):
        """Parameters of all events in the order of the files."""
        return np.array([[e['labels'][LABELS[p]] for p in PARAMS]
                         for events in self.events for e in events])

    def config(self, **updates):
        """Complete configuration; updates replace top-level keys."""
        manager = updates.pop('manager_dir', '{base_dir}/manager')
        n = updates.pop('n_steps', 4)
        cascade = {
            'model_class': 'egenerator.model.source.cascade.default.'
                           'DefaultCascadeModel',
            'config': copy.deepcopy(self.model_config)}
        if self.multi:
            model = {
                'model_class': 'egenerator.model.multi_source.independent.'
                               'IndependentMultiSource',
                'config': {'sources': {'noise': 'noise',
                                       'cascade': 'cascade'}},
                'multi_source_bases': {
                    'noise': {'model_class': 'egenerator.model.source.noise.'
                                             'default.DefaultNoiseModel',
                              'config': {}},
                    'cascade': cascade}}
        else:
            model = dict(cascade)
        names = ['cascade_' + p for p in PARAMS] if self.multi else PARAMS
        iterator = dict(batch_size=4, num_splits=None, file_capacity=2,
                        batch_capacity=4, num_jobs=1, num_add_files=1,
                        num_repetitions=1)
        config = {
            'unique_name': self.name, 'base_dir': self.base,
            'training_settings': {
                'optimizer_name': 'Adam',
                'optimizer_settings': {'learning_rate': 0.001},
                'l1_regularization': 0., 'l2_regularization': 0.,
                'clip_gradients_value': None, 'remove_nan_gradients': True,
                'validation_frequency': 2, 'evaluation_frequency': 1,
                'save_frequency': 100, 'num_training_iterations': n,
                'additional_loss_module_kwargs': {
                    'normalize_by_total_charge': False}},
            'reconstruction_settings': {
                'reco_output_file': '{base_dir}/reco/reco_{unique_name}'
                                    '.hdf5',
                'calculate_covariance_matrix': False,
                'calculate_goodness_of_fit': False,
                'estimate_angular_uncertainty': False, 'run_mcmc': False,
                'make_1d_llh_scans': False,
                'parameter_tensor_name': 'x_parameters',
                'seed': self.seeds[0], 'seed_parameter_names': PARAMS,
                'seed_missing_value': 1., 'seed_missing_value_dict': {},
                'seed_float_precision': 'float32',
                'reco_optimizer_interface': 'scipy',
                'scipy_optimizer_settings': {
                    'method': 'L-BFGS-B', 'options': {'maxiter': 3},
                    'bounds': copy.deepcopy(BOUNDS)},
                'tf_optimizer_settings': {'method': 'bfgs_minimize',
                                          'x_tolerance': 0.001},
                'minimize_in_trafo_space': True,
                'minimize_parameter_default_value': True,
                'minimize_parameter_dict': {}},
            'model_manager_settings': {
                'model_manager_class':
                    'egenerator.manager.source.SourceManager',
                'restore_model': True,
                'config': {
                    'manager_dir': manager,
                    'I3ParticleMapping': dict(zip(PARAMS, names))}},
            'data_iterator_settings': {
                'training': dict(iterator, dataset_capacity=2, input_data=[
                    '{0}/data_*.hdf5'.format(self.base)]),
                'validation': dict(iterator, dataset_capacity=2, pick_random_files_forever=True,
                                   input_data=[self.files[-1]]),
                'trafo': dict(iterator, pick_random_files_forever=False,
                              input_data=['{0}/data_*.hdf5'.format(
                                  self.base)]),
                'test': dict(iterator, batch_size=1, num_add_files=0,
                             sample_randomly=False,
                             pick_random_files_forever=False,
                             input_data=self.files[:1])},
            'loss_module_settings': {
                'loss_module': 'egenerator.loss.default.DefaultLossModule',
                'config': {'float_precision': self.tf_float,
                           'add_normalization_term': True,
                           'loss_function_name': self.loss}},
            'evaluation_module_settings': {
                'evaluation_module': None, 'config': {}},
            'data_trafo_settings': {
                'float_precision': 'float64', 'norm_constant': 1e-6,
                'num_batches': sum(len(e) for e in self.events) // 4,
                'model_dir': '{base_dir}/trafo_{unique_name}'},
            'data_handler_settings': ev.handler_config(
                data=ev.data_settings(
                    time_exclusions_key='TimeExclusions'
                    if self.time_windows else None),
                label=ev.label_settings(trafo_log=self.trafo_log)),
            'model_settings': model}
        config.update(updates)
        return config

    def write(self, config, name='config.yaml'):
        path = self.path(name)
        with open(path, 'w') as f:
            YAML(typ='safe').dump(config, f)
        return path


def run(task, args, answer=None):
    """Run a program; returns the result of click's runner."""
    import importlib
    from click.testing import CliRunner
    main = importlib.import_module('egenerator.' + task).main
    return CliRunner().invoke(main, [str(a) for a in args], input=answer,
                              catch_exceptions=True)


def read_yaml(path):
    with open(path) as f:
        # types of numpy are recorded as names of python
        text = re.sub(r'!!python/\S+', '', f.read())
    return YAML(typ='safe').load(text)


def dump(data):
    s = io.StringIO()
    YAML(typ='safe').dump(data, s)
    return s.getvalue()


def write_managers(m, rng, project, sizes, adjust=None):
    """Manager directories with random models; [(dir, models)]"""
    from egenerator.utils import build_components as bc
    from egenerator.settings.setup_manager import SetupManager
    from egenerator.data.trafo import DataTransformer
    config_path = project.write(project.config())
    config = SetupManager([config_path]).get_config()
    handler = bc.build_data_handler(config)
    trafo = DataTransformer()
    trafo.configure(
        data_handler=handler,
        data_iterator_settings=config['data_iterator_settings']['trafo'],
        num_batches=config['data_trafo_settings']['num_batches'],
        float_precision='float64', norm_constant=1e-6)
    handler.kill()
    out = []
    for i, size in enumerate(sizes):
        models = []
        for _ in range(size):
            model = bc.build_model(config, trafo,
                                   allow_rebuild_base_sources=True)
            md.randomize(model, rng, 0.2)
            if adjust is not None:
                adjust(model, rng)
            models.append(model)
        path = project.path('export%d' % i)
        manager = m.call('building the manager raised', bc.build_manager,
                         config, restore=False, data_handler=handler,
                         data_transformer=trafo, models=models)[0]
        m.call('saving raised', manager.save, path)
        out.append((path, models))
    return out, handler, trafo
