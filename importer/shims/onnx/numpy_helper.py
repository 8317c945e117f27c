import numpy as np
from . import mapping
from ._pb import TensorProto


def to_array(tensor):
    if tensor.HasField('segment'):
        raise ValueError('Currently not supporting loading segments.')
    if tensor.data_type == TensorProto.UNDEFINED:
        raise TypeError('The element type in the input tensor is not defined.')
    if tensor.data_type not in mapping.TENSOR_TYPE_TO_NP_TYPE:
        raise TypeError('unsupported element type %d' % tensor.data_type)
    dt = mapping.TENSOR_TYPE_TO_NP_TYPE[tensor.data_type]
    dims = tuple(tensor.dims)
    if tensor.HasField('raw_data'):
        return np.frombuffer(tensor.raw_data, dtype=dt).reshape(dims)
    data = getattr(tensor, mapping.STORAGE_FIELD.get(tensor.data_type, 'int32_data'))
    if tensor.data_type == TensorProto.FLOAT16:
        return np.asarray(list(data), dtype=np.uint16).view(np.float16).reshape(dims)
    return np.asarray(list(data), dtype=dt).astype(dt).reshape(dims)


def from_array(arr, name=None):
    arr = np.asarray(arr)
    t = TensorProto()
    t.dims.extend(arr.shape)
    if name:
        t.name = name
    t.data_type = mapping.NP_TYPE_TO_TENSOR_TYPE[arr.dtype]
    t.raw_data = arr.tobytes()
    return t
