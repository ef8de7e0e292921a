"""A data handler over synthetic event files (no HDF needed)."""
import json
import os
import time

import numpy as np

from egenerator import misc
from egenerator.data.handler.base import BaseDataHandler
from egenerator.data.tensor import DataTensor, DataTensorList
from egenerator.manager.component import Configuration

LOG = {'beat': None, 'log': None}


def make_tensors(layout, exists_second=True):
    params = DataTensor(name='x_parameters', shape=[None, 3],
                        tensor_type='label', dtype='float32')
    image = DataTensor(name='x_image', shape=[None, 2, 3, 1],
                       tensor_type='data', dtype='float64')
    flag = DataTensor(name='x_flag', shape=[None, 1], tensor_type='misc',
                      dtype='bool')
    missing = DataTensor(name='x_missing', shape=[None, 2],
                         tensor_type='data', dtype='float32', exists=False)
    v = DataTensor(name='x_pulses', shape=[None, 2], tensor_type='data',
                   vector_info={'type': 'value', 'reference': 'x_pulses_ids'},
                   dtype='float32')
    i = DataTensor(name='x_pulses_ids', shape=[None, 3], tensor_type='data',
                   vector_info={'type': 'index', 'reference': 'x_pulses'},
                   dtype='int32')
    v2 = DataTensor(name='x_wins', shape=[None, 2], tensor_type='data',
                    vector_info={'type': 'value', 'reference': 'x_wins_ids'},
                    dtype='float64', exists=exists_second)
    i2 = DataTensor(name='x_wins_ids', shape=[None, 3], tensor_type='data',
                    vector_info={'type': 'index', 'reference': 'x_wins'},
                    dtype='int32', exists=exists_second)
    all_tensors = [params, image, flag, missing, v, i, v2, i2]
    orders = [
        [0, 1, 2, 3, 4, 5, 6, 7],
        [5, 4, 7, 6, 0, 3, 2, 1],
        [4, 0, 5, 6, 2, 7, 1, 3],
    ]
    return DataTensorList([all_tensors[k] for k in orders[layout]])


def event_content(eid, n_pulses, n_wins):
    """The content of one event, independent of the code under test."""
    k = np.arange(n_pulses)
    pulses = np.stack([np.full(n_pulses, eid) + 0.25, k + eid * 0.5], axis=1)
    ids = np.stack([k % 86, (k * 7 + eid) % 60], axis=1)
    w = np.arange(n_wins)
    wins = np.stack([w + eid * 1000., w + eid * 1000. + 0.5], axis=1)
    wids = np.stack([(w + eid) % 86, w % 60], axis=1)
    return {
        'x_parameters': np.array([eid, -2. * eid, 0.5 + eid]),
        'x_image': (np.arange(6).reshape(2, 3, 1) + 10. * eid),
        'x_flag': np.array([eid % 3 == 0]),
        'x_pulses': pulses.reshape(-1, 2), 'x_pulses_ids': ids.reshape(-1, 2),
        'x_wins': wins.reshape(-1, 2), 'x_wins_ids': wids.reshape(-1, 2),
    }


def write_file(path, events, delay=0., decline=False):
    with open(path, 'w') as f:
        json.dump({'events': events, 'delay': delay, 'decline': decline}, f)


class SynthHandler(BaseDataHandler):

    def _configure_derived_class(self, config, config_data=None):
        tensors = make_tensors(config['layout'], config['exists_second'])
        configuration = Configuration(
            class_string=misc.get_full_class_string_of_object(self),
            settings={}, mutable_settings={'config': config})
        return configuration, {'tensors': tensors}, {}

    def _get_data_from_hdf(self, file, *args, **kwargs):
        with open(file) as f:
            spec = json.load(f)
        if LOG['log'] is not None:
            os.write(LOG['log'], ('S ' + os.path.basename(file) + '\n')
                     .encode())
        if spec['delay']:
            time.sleep(spec['delay'])
        if LOG['beat'] is not None:
            LOG['beat'](b'l')
        if LOG['log'] is not None:
            os.write(LOG['log'], ('E ' + os.path.basename(file) + '\n')
                     .encode())
        if spec['decline']:
            return None, None
        events = spec['events']
        n = len(events)
        data = {name: [] for name in self.tensors.names}
        for index, (eid, n_pulses, n_wins) in enumerate(events):
            content = event_content(eid, n_pulses, n_wins)
            for name in ['x_parameters', 'x_image', 'x_flag']:
                data[name].append(content[name])
            for name in ['x_pulses', 'x_wins']:
                data[name].append(content[name])
                ids = content[name + '_ids']
                data[name + '_ids'].append(np.concatenate(
                    [np.full((len(ids), 1), index), ids], axis=1))
        # a file may interleave the vector rows of its events
        rng = np.random.RandomState(sum(e[0] for e in events) % 2**31)
        out = []
        order = {}
        for name in ['x_pulses', 'x_wins']:
            ids = np.concatenate(data[name + '_ids'], axis=0)
            # stable within an event, interleaved between events
            keys = rng.rand(len(ids))
            perm = np.argsort(keys, kind='stable')
            fixed = np.empty(len(ids), dtype=int)
            slots = {}
            for pos, row in enumerate(ids[perm][:, 0]):
                slots.setdefault(int(row), []).append(pos)
            for e in slots:
                rows = np.flatnonzero(ids[:, 0] == e)
                for pos, r in zip(slots[e], rows):
                    fixed[pos] = r
            order[name] = fixed
        for tensor in self.tensors.list:
            name = tensor.name
            if not tensor.exists:
                out.append(None)
            elif name in ('x_parameters', 'x_image', 'x_flag'):
                out.append(np.stack(data[name], axis=0).astype(
                    bool if name == 'x_flag' else np.float64))
            else:
                base = name.replace('_ids', '')
                arr = np.concatenate(data[name], axis=0)[order[base]]
                arr = arr.astype(np.int64 if name.endswith('_ids')
                                 else np.float64)
                out.append(arr)
        return n, out
