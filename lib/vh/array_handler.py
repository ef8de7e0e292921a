"""A data handler that serves given arrays in given batches."""
import numpy as np

from egenerator import misc
from egenerator.data.handler.base import BaseDataHandler
from egenerator.data.tensor import DataTensor, DataTensorList
from egenerator.manager.component import Configuration

STORE = {}


class ArrayHandler(BaseDataHandler):
    """config: {'key': name in STORE, 'tensors': list of DataTensor kwargs}"""

    def _configure_derived_class(self, config, config_data=None):
        tensors = DataTensorList([DataTensor(**dict(
            t, shape=list(t['shape']),
            trafo_reduce_axes=tuple(t.get('trafo_reduce_axes', ()))))
            for t in config['tensors']])
        configuration = Configuration(
            class_string=misc.get_full_class_string_of_object(self),
            settings={'config': config})
        return configuration, {'tensors': tensors}, {}

    def get_batch_generator(self, splits=None, key=None):
        key = key or self.configuration.config['config']['key']
        arrays = STORE[key]
        names = self.tensors.names
        start = 0
        for n in splits:
            yield tuple(arrays[name][start:start + n]
                        if arrays.get(name) is not None else
                        np.float32(0.) for name in names)
            start += n
