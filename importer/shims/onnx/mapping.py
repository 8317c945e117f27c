import numpy as np
from ._pb import TensorProto as T
TENSOR_TYPE_TO_NP_TYPE = {
    T.FLOAT: np.dtype('float32'), T.UINT8: np.dtype('uint8'), T.INT8: np.dtype('int8'), T.UINT16: np.dtype('uint16'),
    T.INT16: np.dtype('int16'), T.INT32: np.dtype('int32'), T.INT64: np.dtype('int64'), T.BOOL: np.dtype('bool'),
    T.FLOAT16: np.dtype('float16'), T.DOUBLE: np.dtype('float64'), T.UINT32: np.dtype('uint32'), T.UINT64: np.dtype('uint64')}
NP_TYPE_TO_TENSOR_TYPE = {v: k for k, v in TENSOR_TYPE_TO_NP_TYPE.items()}
STORAGE_FIELD = {T.FLOAT: 'float_data', T.INT64: 'int64_data', T.DOUBLE: 'double_data', T.UINT32: 'uint64_data', T.UINT64: 'uint64_data'}
