"""Structural checks onnx.checker makes: graph is in topological order with unique names,
tensors carry as much data as their shape says, attributes are typed."""
import numpy as np
from . import mapping
from ._pb import AttributeProto


class ValidationError(Exception):
    pass


def check_tensor(t):
    n = 1
    for d in t.dims:
        if d < 0:
            raise ValidationError('negative dimension in tensor ' + t.name)
        n *= d
    if t.data_type not in mapping.TENSOR_TYPE_TO_NP_TYPE:
        raise ValidationError('tensor %s: unknown type' % t.name)
    if t.HasField('raw_data'):
        if len(t.raw_data) != n * mapping.TENSOR_TYPE_TO_NP_TYPE[t.data_type].itemsize:
            raise ValidationError('tensor %s: data size does not match' % t.name)
    elif len(getattr(t, mapping.STORAGE_FIELD.get(t.data_type, 'int32_data'))) != n:
        raise ValidationError('tensor %s: data size does not match' % t.name)


_ATTR = {AttributeProto.FLOAT: 'f', AttributeProto.INT: 'i', AttributeProto.STRING: 's', AttributeProto.TENSOR: 't'}


def check_model(model):
    if not model.HasField('ir_version'):
        raise ValidationError('no ir_version')
    if not len(model.opset_import):
        raise ValidationError('no opset_import')
    g = model.graph
    if not g.name:
        raise ValidationError('graph has no name')
    seen = set()
    for i in g.input:
        if not i.name or i.name in seen:
            raise ValidationError('graph input names must be unique and not empty')
        seen.add(i.name)
    for t in g.initializer:
        check_tensor(t)
        if model.ir_version <= 3 and t.name not in seen:
            raise ValidationError(t.name + ' in initializer but not in graph input')
    seen |= {t.name for t in g.initializer}
    for n in g.node:
        if not n.op_type:
            raise ValidationError('node without op_type')
        for i in n.input:
            if i and i not in seen:
                raise ValidationError('Nodes in a graph must be topologically sorted, however input %r of node %r is not output of any previous nodes.' % (i, n.name))
        for a in n.attribute:
            f = _ATTR.get(a.type)
            if f and not a.HasField(f):
                raise ValidationError('attribute %s lacks its value' % a.name)
        for o in n.output:
            if o and o in seen:
                raise ValidationError('Graph must be in single static assignment (SSA) form')
            seen.add(o)
    for o in g.output:
        if o.name not in seen:
            raise ValidationError('graph output %s is not produced' % o.name)


def check_graph(g):
    pass


def check_node(n):
    pass
