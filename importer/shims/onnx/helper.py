import numpy as np
from . import mapping
from ._pb import (AttributeProto, GraphProto, ModelProto, NodeProto, OperatorSetIdProto, TensorProto, ValueInfoProto)


def make_attribute(key, value, doc_string=None):
    a = AttributeProto()
    a.name = key
    if isinstance(value, float):
        a.f, a.type = value, AttributeProto.FLOAT
    elif isinstance(value, (int, np.integer)):
        a.i, a.type = int(value), AttributeProto.INT
    elif isinstance(value, (str, bytes)):
        a.s, a.type = (value.encode('utf-8') if isinstance(value, str) else value), AttributeProto.STRING
    elif isinstance(value, TensorProto):
        a.t.CopyFrom(value)
        a.type = AttributeProto.TENSOR
    elif all(isinstance(v, (int, np.integer)) for v in value):
        a.ints.extend(value)
        a.type = AttributeProto.INTS
    elif all(isinstance(v, (int, float, np.floating)) for v in value):
        a.floats.extend(value)
        a.type = AttributeProto.FLOATS
    else:
        a.strings.extend(v.encode('utf-8') if isinstance(v, str) else v for v in value)
        a.type = AttributeProto.STRINGS
    return a


def get_attribute_value(a):
    if a.HasField('f'):
        return a.f
    if a.HasField('i'):
        return a.i
    if a.HasField('s'):
        return a.s
    if a.HasField('t'):
        return a.t
    return list(a.floats) or list(a.ints) or list(a.strings) or list(a.tensors)


def make_node(op_type, inputs, outputs, name=None, doc_string=None, domain=None, **kw):
    n = NodeProto()
    n.op_type = op_type
    n.input.extend(inputs)
    n.output.extend(outputs)
    if name:
        n.name = name
    n.attribute.extend(make_attribute(k, v) for k, v in sorted(kw.items()) if v is not None)
    return n


def make_tensor(name, data_type, dims, vals, raw=False):
    t = TensorProto()
    t.data_type, t.name = data_type, name
    t.dims.extend(dims)
    if raw:
        t.raw_data = vals
    else:
        getattr(t, mapping.STORAGE_FIELD.get(data_type, 'int32_data')).extend(vals)
    return t


def make_tensor_value_info(name, elem_type, shape, doc_string='', shape_denotation=None):
    v = ValueInfoProto()
    v.name = name
    v.type.tensor_type.elem_type = elem_type
    v.type.tensor_type._touch()
    if shape is not None:
        v.type.tensor_type.shape._touch()
        for d in shape:
            x = v.type.tensor_type.shape.dim.add()
            if isinstance(d, (int, np.integer)):
                x.dim_value = d
            elif d is not None:
                x.dim_param = d
    return v


def make_graph(nodes, name, inputs, outputs, initializer=None, doc_string=None, value_info=()):
    g = GraphProto()
    g.node.extend(nodes)
    g.name = name
    g.input.extend(inputs)
    g.output.extend(outputs)
    g.initializer.extend(initializer or ())
    g.value_info.extend(value_info)
    return g


def make_opsetid(domain, version):
    o = OperatorSetIdProto()
    o.domain, o.version = domain, version
    return o


make_operatorsetid = make_opsetid


def make_model(graph, **kw):
    m = ModelProto()
    m.ir_version = 4
    m.graph.CopyFrom(graph)
    m.opset_import.extend(kw.pop('opset_imports', None) or [make_opsetid('', 9)])
    for k, v in kw.items():
        setattr(m, k, v)
    return m


def strip_doc_string(proto):
    if 'doc_string' in proto.FIELDS:
        proto.ClearField('doc_string')
    for _, v in proto.ListFields():
        for x in (v if isinstance(v, list) else [v]):
            if hasattr(x, 'ListFields'):
                strip_doc_string(x)


def printable_graph(graph, prefix=''):
    lines = [prefix + 'graph %s (' % graph.name + ', '.join('%%%s' % i.name for i in graph.input) + ') {']
    for n in graph.node:
        lines.append(prefix + '  %s = %s(%s)' % (', '.join('%' + o for o in n.output), n.op_type, ', '.join('%' + i for i in n.input)))
    return '\n'.join(lines + [prefix + '  return ' + ', '.join('%' + o.name for o in graph.output), prefix + '}'])
