"""Shape inference for the operators of this subset, from the operator specification. Like
onnx 1.5 it knows the values of initializers and of Constant nodes only."""
import numpy as np
from . import numpy_helper
from ._pb import ModelProto, TensorProto


def _attrs(node):
    from .helper import get_attribute_value
    return {a.name: get_attribute_value(a) for a in node.attribute}


def _prod(s):
    r = 1
    for d in s:
        r *= d
    return r


def _broadcast(a, b):
    n = max(len(a), len(b))
    a, b = (1,) * (n - len(a)) + tuple(a), (1,) * (n - len(b)) + tuple(b)
    out = []
    for x, y in zip(a, b):
        if x != y and 1 not in (x, y):
            raise ValueError('shapes do not broadcast')
        out.append(y if x == 1 else x)
    return tuple(out)


def _window(x, k, at):
    n = len(x) - 2
    s = at.get('strides') or [1] * n
    d = at.get('dilations') or [1] * n
    p = at.get('pads') or [0] * (2 * n)
    auto = at.get('auto_pad', b'NOTSET')
    out = []
    for i in range(n):
        eff = (k[i] - 1) * d[i] + 1
        if auto in (b'SAME_UPPER', b'SAME_LOWER'):
            out.append(-(-x[2 + i] // s[i]))
            continue
        room = x[2 + i] + (0 if auto == b'VALID' else p[i] + p[i + n]) - eff
        if room < 0:
            raise ValueError('window larger than its input')
        out.append((-(-room // s[i]) if at.get('ceil_mode') else room // s[i]) + 1)
    return tuple(out)


def _infer(op, at, sh, val, nout):
    """Output shapes (None: unknown)."""
    x = sh[0] if sh else None
    if op == 'Constant':
        return [tuple(at['value'].dims)]
    if op == 'Shape':
        return [None if x is None else (len(x),)]
    if any(s is None for s in sh) and op not in ('Reshape',):
        if op in ('Conv', 'Gemm', 'BatchNormalization') and x is not None and sh[1] is not None:
            pass
        else:
            return [None] * nout
    if op in ('Relu', 'Clip', 'LRN', 'Softmax', 'Cast', 'Identity', 'Sigmoid', 'Tanh', 'LeakyRelu', 'Elu', 'Abs', 'Neg', 'Exp',
              'Log', 'Sqrt', 'LogSoftmax', 'Selu', 'HardSigmoid', 'Softplus', 'InstanceNormalization', 'PRelu'):
        return [x]
    if op in ('BatchNormalization', 'Dropout'):
        return [x] + ([x] * (nout - 1) if op == 'Dropout' else [None] * (nout - 1))
    if op in ('Add', 'Mul', 'Sub', 'Div', 'Max', 'Min', 'Sum', 'Mean', 'Pow'):
        r = x
        for s in sh[1:]:
            r = _broadcast(r, s)
        return [r]
    if op == 'Conv':
        k = at.get('kernel_shape') or list(sh[1][2:])
        return [(x[0], sh[1][0]) + _window(x, k, at)]
    if op in ('MaxPool', 'AveragePool', 'LpPool'):
        r = (x[0], x[1]) + _window(x, at['kernel_shape'], at)
        return [r] * nout
    if op in ('GlobalMaxPool', 'GlobalAveragePool'):
        return [tuple(x[:2]) + (1,) * (len(x) - 2)]
    if op == 'Gemm':
        a = x[::-1] if at.get('transA') else x
        b = sh[1][::-1] if at.get('transB') else sh[1]
        return [(a[0], b[1])]
    if op == 'MatMul':
        a, b = tuple(x), tuple(sh[1])
        pa, pb = len(a) == 1, len(b) == 1
        a, b = ((1,) + a if pa else a), (b + (1,) if pb else b)
        if a[-1] != b[-2]:
            raise ValueError('MatMul shapes')
        r = _broadcast(a[:-2], b[:-2]) + (() if pa else (a[-2],)) + (() if pb else (b[-1],))
        return [r]
    if op == 'Flatten':
        ax = at.get('axis', 1)
        return [(_prod(x[:ax]), _prod(x[ax:]))]
    if op == 'Reshape':
        if x is None or val[1] is None:
            return [None]
        t = [int(v) for v in val[1].reshape(-1)]
        t = [x[i] if v == 0 else v for i, v in enumerate(t)]
        if -1 in t:
            t[t.index(-1)] = _prod(x) // max(1, -_prod(t))
        if _prod(t) != _prod(x):
            raise ValueError('Reshape sizes')
        return [tuple(t)]
    if op == 'Transpose':
        p = at.get('perm') or list(range(len(x)))[::-1]
        return [tuple(x[i] for i in p)]
    if op == 'Concat':
        ax = at['axis'] % len(x)
        return [tuple(x[:ax]) + (sum(s[ax] for s in sh),) + tuple(x[ax + 1:])]
    if op == 'Squeeze':
        ax = [a % len(x) for a in at['axes']] if at.get('axes') else [i for i, d in enumerate(x) if d == 1]
        return [tuple(d for i, d in enumerate(x) if i not in ax)]
    if op == 'Unsqueeze':
        n = len(x) + len(at['axes'])
        ax = [a % n for a in at['axes']]
        it = iter(x)
        return [tuple(1 if i in ax else next(it) for i in range(n))]
    if op == 'Pad':
        n = len(x)
        p = at['pads']
        return [tuple(x[i] + p[i] + p[i + n] for i in range(n))]
    if op == 'Gather':
        ax = at.get('axis', 0) % len(x)
        return [tuple(x[:ax]) + tuple(sh[1]) + tuple(x[ax + 1:])]
    return [None] * nout


def _shape_of(vi):
    if not vi.type.HasField('tensor_type') or not vi.type.tensor_type.HasField('shape'):
        return None
    dims = vi.type.tensor_type.shape.dim
    if any(not d.HasField('dim_value') for d in dims):
        return None
    return tuple(d.dim_value for d in dims)


def infer_shapes(model):
    m = ModelProto()
    m.CopyFrom(model)
    g = m.graph
    shapes, types, values = {}, {}, {}
    for i in list(g.value_info) + list(g.input):
        shapes[i.name] = _shape_of(i)
        types[i.name] = i.type.tensor_type.elem_type
    for t in g.initializer:
        shapes[t.name] = tuple(t.dims)
        types[t.name] = t.data_type
        values[t.name] = numpy_helper.to_array(t)
    known = {v.name: v for v in g.value_info}
    outs = {v.name: v for v in g.output}
    for n in g.node:
        at = _attrs(n)
        ins = [i for i in n.input if i]
        try:
            res = _infer(n.op_type, at, [shapes.get(i) for i in n.input], [values.get(i) for i in n.input], len(n.output))
        except (ValueError, IndexError, KeyError, TypeError):
            res = [None] * len(n.output)
        if n.op_type == 'Constant':
            values[n.output[0]] = numpy_helper.to_array(at['value'])
            ty = at['value'].data_type
        elif n.op_type == 'Cast':
            ty = at['to']
        elif n.op_type == 'Shape':
            ty = TensorProto.INT64
        else:
            ty = types.get(ins[0], TensorProto.FLOAT) if ins else TensorProto.FLOAT
        for o, s in zip(n.output, res):
            if not o or s is None:
                if o in known:
                    shapes[o] = _shape_of(known[o])
                continue
            shapes[o], types[o] = tuple(s), ty
            if o in outs or o in known:
                v = outs.get(o) or known[o]
                tt = v.type.tensor_type
                if not tt.HasField('elem_type'):
                    tt.elem_type = ty
                dims = tt.shape.dim
                if not tt.HasField('shape') or not len(dims):
                    tt.shape._touch()
                    for d in s:
                        tt.shape.dim.add(dim_value=d)
                else:
                    for d, w in zip(dims, s):
                        if not d.HasField('dim_value'):
                            d.dim_value = w
            else:
                v = g.value_info.add()
                v.name = o
                v.type.tensor_type.elem_type = ty
                v.type.tensor_type.shape._touch()
                for d in s:
                    v.type.tensor_type.shape.dim.add(dim_value=d)
                known[o] = v
    return m
