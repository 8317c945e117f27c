"""Stand-in for the onnx package (1.5) with what pico-cnn's tools use. Built from the ONNX
specification; nothing here looks at pico-cnn."""
import numpy as np
if not hasattr(np, 'float'):          # the importer was written for a numpy that had it
    np.float = float
from ._pb import (AttributeProto, GraphProto, ModelProto, NodeProto, OperatorSetIdProto,  # noqa
                  StringStringEntryProto, TensorProto, TensorShapeProto, TypeProto, ValueInfoProto)
__version__ = '1.5.0'


def load_model(f, format=None, load_external_data=True):
    data = f.read() if hasattr(f, 'read') else open(f, 'rb').read()
    m = ModelProto()
    m.ParseFromString(data)
    return m


def load_model_from_string(s, format=None):
    m = ModelProto()
    m.ParseFromString(s)
    return m


def save_model(proto, f, format=None):
    data = proto if isinstance(proto, bytes) else proto.SerializeToString()
    if hasattr(f, 'write'):
        f.write(data)
    else:
        with open(f, 'wb') as g:
            g.write(data)


def load_tensor(f, format=None):
    t = TensorProto()
    t.ParseFromString(f.read() if hasattr(f, 'read') else open(f, 'rb').read())
    return t


load, save, load_from_string = load_model, save_model, load_model_from_string
from . import mapping, numpy_helper, helper, checker, shape_inference, optimizer, utils, backend, defs  # noqa
