"""Models as plain data, their ONNX encoding, and the reference executor.

The executor computes every operator in double precision from the ONNX operator definitions and
carries a rounding-error bound per element, so the comparison tolerance follows from the model."""
import copy
import numpy as np
import onnx
from onnx import helper, numpy_helper, TensorProto

EPS = 2.0 ** -23


class Node(object):
    def __init__(self, op, inputs, outputs, attrs=None, name=''):
        self.op, self.inputs, self.outputs, self.attrs, self.name = op, list(inputs), list(outputs), dict(attrs or {}), name

    def __repr__(self):
        a = ''.join(' %s=%s' % (k, v if not isinstance(v, np.ndarray) else 'tensor' + str(v.tolist())) for k, v in sorted(self.attrs.items()))
        return '%s(%s)->%s%s%s' % (self.op, ','.join(self.inputs), ','.join(self.outputs), a, ' name=%r' % self.name if self.name else '')


class Model(object):
    def __init__(self):
        self.inputs = []          # (name, shape)
        self.output = None        # (name, shape)
        self.nodes = []
        self.inits = {}           # name -> array, in listing order
        self.list_inits = True    # initializers also among the graph inputs
        self.raw = True           # tensor data as raw bytes or as typed fields
        self.batch_param = False  # batch dimension of the input symbolic
        self.opset = 9
        self.inits_first = False  # order inside graph.input: the data input first or last
        self.value_info = {}      # name -> shape of intermediate values to list
        self.doc = ''
        self.names = ('g', '')    # graph name, producer
        self.file_name = 'net.onnx'

    def clone(self):
        return copy.deepcopy(self)

    def describe(self):
        out = ['input ' + ', '.join('%s%s' % i for i in self.inputs)]
        out += [repr(n) for n in self.nodes]
        out.append('inits ' + ', '.join('%s%s%s' % (k, tuple(v.shape), '' if v.dtype == np.float32 else str(v.dtype)) for k, v in self.inits.items()))
        out.append('output %s' % (self.output,))
        return '; '.join(out)

    def to_onnx(self):
        g_in = []
        for n, s in self.inputs:
            shp = list(s)
            if self.batch_param:
                shp[0] = 'N'
            g_in.append(helper.make_tensor_value_info(n, TensorProto.FLOAT, shp))
        inits = []
        for n, a in self.inits.items():
            if self.raw.get(n, True) if isinstance(self.raw, dict) else self.raw:
                t = numpy_helper.from_array(a, n)
            else:
                ty = {'float32': TensorProto.FLOAT, 'int64': TensorProto.INT64, 'int32': TensorProto.INT32}[str(a.dtype)]
                t = helper.make_tensor(n, ty, a.shape, [x for x in a.reshape(-1).tolist()])
            inits.append(t)
        if self.list_inits:
            lst = [helper.make_tensor_value_info(n, onnx.mapping.NP_TYPE_TO_TENSOR_TYPE[a.dtype], a.shape) for n, a in self.inits.items()]
            g_in = lst + g_in if self.inits_first else g_in + lst
        nodes = []
        for n in self.nodes:
            at = {k: (numpy_helper.from_array(v, 'value') if isinstance(v, np.ndarray) else v) for k, v in n.attrs.items()}
            nodes.append(helper.make_node(n.op, n.inputs, n.outputs, name=n.name, **at))
            if self.doc:
                nodes[-1].doc_string = self.doc
        oshape = list(self.output[1])
        if self.batch_param and oshape:
            oshape[0] = 'N'
        g = helper.make_graph(nodes, self.names[0], g_in, [helper.make_tensor_value_info(self.output[0], TensorProto.FLOAT, oshape)], inits)
        for n, (ty, sh) in self.value_info.items():
            g.value_info.append(helper.make_tensor_value_info(n, ty, sh))
        if self.doc:
            g.doc_string = self.doc
        m = helper.make_model(g, opset_imports=[helper.make_opsetid('', self.opset)])
        if self.names[1]:
            m.producer_name = self.names[1]
        return m.SerializeToString()


def from_onnx(data):
    """A Model from the bytes of a file (used for the networks shipped with the project)."""
    p = onnx.ModelProto.FromString(data)
    m = Model()
    m.opset = p.opset_import[0].version
    for t in p.graph.initializer:
        m.inits[t.name] = numpy_helper.to_array(t)
    for i in p.graph.input:
        if i.name not in m.inits:
            m.inputs.append((i.name, (1,) + tuple(d.dim_value for d in i.type.tensor_type.shape.dim)[1:]))
    o = p.graph.output[0]
    m.output = (o.name, (1,) + tuple(d.dim_value for d in o.type.tensor_type.shape.dim)[1:])
    for n in p.graph.node:
        at = {}
        for a in n.attribute:
            v = helper.get_attribute_value(a)
            at[a.name] = numpy_helper.to_array(v) if isinstance(v, TensorProto) else v
        m.nodes.append(Node(n.op_type, n.input, n.output, at, n.name))
    return m


# ------------------------------------------------------------------ executor
class Unsupported(Exception):
    """The model is not one the executor (or ONNX) gives a meaning to."""


class V(object):
    """A value with an error bound (None: exact, integers)."""

    def __init__(self, x, e=None):
        self.x = np.asarray(x)
        self.e = np.zeros(self.x.shape) if e is None else np.broadcast_to(np.asarray(e, dtype=np.float64), self.x.shape)

    @property
    def shape(self):
        return self.x.shape


def _windows(x, k, s, d, n):
    """View of x (N,C,spatial...) as (N,C,out...,k...)."""
    out = [(x.shape[2 + i] - ((k[i] - 1) * d[i] + 1)) // s[i] + 1 for i in range(n)]
    if min(out) < 1:
        raise Unsupported('window larger than its input')
    st = x.strides
    return np.lib.stride_tricks.as_strided(
        x, x.shape[:2] + tuple(out) + tuple(k), st[:2] + tuple(st[2 + i] * s[i] for i in range(n)) + tuple(st[2 + i] * d[i] for i in range(n)), writeable=False)


def _pads(shape, k, s, d, at, n):
    auto = at.get('auto_pad', b'NOTSET')
    auto = auto if isinstance(auto, bytes) else auto.encode()
    if auto in (b'SAME_UPPER', b'SAME_LOWER'):
        lo, hi = [], []
        for i in range(n):
            o = -(-shape[2 + i] // s[i])
            t = max(0, (o - 1) * s[i] + (k[i] - 1) * d[i] + 1 - shape[2 + i])
            a, b = t // 2, t - t // 2
            lo.append(a if auto == b'SAME_UPPER' else b)
            hi.append(b if auto == b'SAME_UPPER' else a)
        return lo, hi
    if auto == b'VALID':
        return [0] * n, [0] * n
    p = list(at.get('pads') or [0] * (2 * n))
    return p[:n], p[n:]


def _padded(a, lo, hi, fill):
    return np.ascontiguousarray(np.pad(a, [(0, 0), (0, 0)] + list(zip(lo, hi)), constant_values=fill))


def conv(x, w, b, at):
    n = x.x.ndim - 2
    k = list(w.shape[2:])
    s = list(at.get('strides') or [1] * n)
    d = list(at.get('dilations') or [1] * n)
    g = at.get('group', 1)
    if w.x.ndim != x.x.ndim or x.shape[1] != w.shape[1] * g or w.shape[0] % g or list(at.get('kernel_shape', k)) != k:
        raise Unsupported('Conv shapes')
    lo, hi = _pads(x.shape, k, s, d, at, n)
    X, A, E = [_windows(_padded(v, lo, hi, 0.0), k, s, d, n) for v in (x.x, np.abs(x.x), x.e)]
    oc = w.shape[0] // g
    ic = w.shape[1]
    ax = ([1] + list(range(2 + n, 2 + 2 * n)), [1] + list(range(2, 2 + n)))

    def apply(X, W):
        r = [np.tensordot(X[:, i * ic:(i + 1) * ic], W[i * oc:(i + 1) * oc], ax) for i in range(g)]
        return np.moveaxis(np.concatenate(r, -1), -1, 1)
    aw = np.abs(w.x)
    y = apply(X, w.x)
    e = apply(E, aw) + EPS * (ic * int(np.prod(k)) + 4) * apply(A, aw)
    if b is not None:
        if b.shape != (w.shape[0],):
            raise Unsupported('Conv bias')
        bb = b.x.reshape((1, -1) + (1,) * n)
        y = y + bb
        e = e + EPS * 4 * np.abs(bb)
    return V(y, e)


def pool(x, at, avg):
    n = x.x.ndim - 2
    k = list(at['kernel_shape'])
    if len(k) != n:
        raise Unsupported('kernel rank')
    s = list(at.get('strides') or [1] * n)
    d = list(at.get('dilations') or [1] * n)
    lo, hi = _pads(x.shape, k, s, d, at, n)
    real_hi = list(hi)
    if at.get('ceil_mode'):
        for i in range(n):
            room = x.shape[2 + i] + lo[i] + hi[i] - ((k[i] - 1) * d[i] + 1)
            extra = -room % s[i]
            if extra and -(-room // s[i]) * s[i] >= x.shape[2 + i] + lo[i]:
                raise Unsupported('ceil mode window outside the input')
            hi[i] += extra
    E = _windows(_padded(x.e, lo, hi, 0.0), k, s, d, n)
    ax = tuple(range(2 + n, 2 + 2 * n))
    if not avg:
        X = _windows(_padded(x.x, lo, hi, -np.inf), k, s, d, n)
        y = X.max(ax)
        if not np.isfinite(y).all():
            raise Unsupported('window of padding only')
        return V(y, E.max(ax))
    X, A = [_windows(_padded(v, lo, hi, 0.0), k, s, d, n) for v in (x.x, np.abs(x.x))]
    one = _padded(np.ones(x.shape), lo, hi, 0.0)
    if at.get('count_include_pad'):
        one = _padded(_padded(np.ones(x.shape), lo, real_hi, 1.0), [0] * n, [h - r for h, r in zip(hi, real_hi)], 0.0)
    cnt = _windows(one, k, s, d, n).sum(ax)
    if (cnt == 0).any():
        raise Unsupported('window of padding only')
    K = int(np.prod(k))
    return V(X.sum(ax) / cnt, E.sum(ax) / cnt + EPS * (K + 4) * A.sum(ax) / cnt)


def lrn(x, at):
    c, size = x.shape[1], at['size']
    alpha, beta, bias = f32(at.get('alpha', 1e-4)), f32(at.get('beta', 0.75)), f32(at.get('bias', 1.0))
    S, dS = np.zeros(x.shape), np.zeros(x.shape)
    lo, hi = (size - 1) // 2, size - 1 - (size - 1) // 2       # floor and ceil of (size-1)/2
    sq, dsq = x.x ** 2, 2 * np.abs(x.x) * x.e + x.e ** 2
    for i in range(c):
        a, b = max(0, i - lo), min(c - 1, i + hi)
        S[:, i] = sq[:, a:b + 1].sum(1)
        dS[:, i] = dsq[:, a:b + 1].sum(1)
    B = bias + alpha / size * S
    dB = abs(alpha) / size * (dS + EPS * (size + 6) * S) + EPS * 4 * abs(bias)
    if (B - dB <= 1e-6).any():
        raise Unsupported('LRN base near zero')
    f = B ** -beta
    y = x.x * f
    rel = np.abs(beta) * dB / (B - dB) * (1 + np.abs(beta))
    return V(y, x.e * f * (1 + rel) + np.abs(y) * rel + EPS * (16 + 4 * abs(beta) * np.abs(np.log(B))) * np.abs(y))


def f32(v):
    return float(np.float32(v))


def softmax(x, axis):
    axis = axis % x.x.ndim if x.x.ndim else 0
    m = x.x.reshape(int(np.prod(x.shape[:axis])), -1)
    e = x.e.reshape(m.shape)
    z = m - m.max(1, keepdims=True)
    p = np.exp(z)
    p = p / p.sum(1, keepdims=True)
    rel = np.expm1(np.minimum(2 * e.max(1, keepdims=True) + EPS * (4 * np.abs(z) + 4 * np.abs(m).max(1, keepdims=True) + m.shape[1] + 16), 50))
    return V(p.reshape(x.shape), (p * rel + 1e-37).reshape(x.shape))


def matmul(a, b):
    try:
        y = np.matmul(a.x, b.x)
    except ValueError:
        raise Unsupported('MatMul shapes')
    A, B = np.abs(a.x), np.abs(b.x)
    return V(y, np.matmul(a.e, B) + np.matmul(A, b.e) + np.matmul(a.e, b.e) + EPS * (a.shape[-1] + 4) * np.matmul(A, B))


def _bcast(op, a, b, e):
    try:
        return V(op(a.x, b.x), e(a, b))
    except ValueError:
        raise Unsupported('broadcast')


def run_node(n, ins, opset):
    at, op = n.attrs, n.op
    x = ins[0] if ins else None
    if op == 'Constant':
        return V(at['value'] if at['value'].dtype.kind in 'iu' else at['value'].astype(np.float64))
    if op in ('Relu', 'Identity', 'Dropout'):
        return V(np.maximum(x.x, 0), x.e) if op == 'Relu' else x
    if op == 'Clip':
        return V(np.minimum(np.maximum(x.x, f32(at.get('min', -3.4e38))), f32(at.get('max', 3.4e38))), x.e)
    if op == 'Conv':
        return conv(x, ins[1], ins[2] if len(ins) > 2 else None, at)
    if op == 'MaxPool':
        return pool(x, at, False)
    if op == 'AveragePool':
        return pool(x, at, True)
    if op in ('GlobalMaxPool', 'GlobalAveragePool'):
        ax = tuple(range(2, x.x.ndim))
        if op == 'GlobalMaxPool':
            return V(x.x.max(ax, keepdims=True), x.e.max(ax, keepdims=True))
        k = int(np.prod(x.shape[2:]))
        return V(x.x.mean(ax, keepdims=True), x.e.mean(ax, keepdims=True) + EPS * (k + 4) * np.abs(x.x).mean(ax, keepdims=True))
    if op == 'BatchNormalization':
        if at.get('spatial', 1) != 1:
            raise Unsupported('spatial')
        sh = (1, -1) + (1,) * (x.x.ndim - 2)
        g, b, m, v = [i.x.reshape(sh) for i in ins[1:5]]
        f = g / np.sqrt(v + f32(at.get('epsilon', 1e-5)))
        return V((x.x - m) * f + b, np.abs(f) * x.e + EPS * 10 * (np.abs(f) * (np.abs(x.x) + np.abs(m)) + np.abs(b)))
    if op == 'LRN':
        return lrn(x, at)
    if op == 'Softmax':
        return softmax(x, at.get('axis', 1))
    if op == 'Gemm':
        a = V(x.x.T, x.e.T) if at.get('transA') else x
        b = V(ins[1].x.T, ins[1].e.T) if at.get('transB') else ins[1]
        if a.x.ndim != 2 or b.x.ndim != 2:
            raise Unsupported('Gemm rank')
        r = matmul(a, b)
        al, be = f32(at.get('alpha', 1.0)), f32(at.get('beta', 1.0))
        r = V(r.x * al, r.e * abs(al) + (EPS * np.abs(r.x * al) if al != 1 else 0))
        if len(ins) > 2:
            c = ins[2]
            if np.broadcast_shapes(c.shape, r.shape) != r.shape:
                raise Unsupported('Gemm C')
            r = V(r.x + be * c.x, r.e + abs(be) * c.e + EPS * 4 * (np.abs(r.x) + np.abs(be * c.x)))
        return r
    if op == 'MatMul':
        return matmul(x, ins[1])
    if op in ('Add', 'Sub'):
        f = np.add if op == 'Add' else np.subtract
        return _bcast(f, x, ins[1], lambda a, b: a.e + b.e + EPS * (np.abs(a.x) + np.abs(b.x)))
    if op == 'Sum':
        r = x
        for o in ins[1:]:
            r = _bcast(np.add, r, o, lambda a, b: a.e + b.e + EPS * (np.abs(a.x) + np.abs(b.x)))
        return r
    if op == 'Mul':
        return _bcast(np.multiply, x, ins[1], lambda a, b: a.e * np.abs(b.x) + b.e * np.abs(a.x) + a.e * b.e + 2 * EPS * np.abs(a.x * b.x) + 1e-44)
    if op == 'Div':
        if (np.abs(ins[1].x) < 1e-3).any() or ins[1].e.any():
            raise Unsupported('Div')
        return _bcast(np.divide, x, ins[1], lambda a, b: a.e / np.abs(b.x) + 2 * EPS * np.abs(a.x / b.x))
    if op == 'Neg':
        return V(-x.x, x.e)
    if op == 'Abs':
        return V(np.abs(x.x), x.e)
    if op == 'Sigmoid':
        return V(1 / (1 + np.exp(-x.x)), x.e + EPS * 8)
    if op == 'Tanh':
        return V(np.tanh(x.x), x.e + EPS * 8)
    if op == 'LeakyRelu':
        a = f32(at.get('alpha', 0.01))
        return V(np.where(x.x < 0, a * x.x, x.x), x.e * max(1, abs(a)) + EPS * np.abs(x.x))
    if op == 'Flatten':
        ax = at.get('axis', 1)
        ax = ax + x.x.ndim if ax < 0 else ax
        sh = (int(np.prod(x.shape[:ax])), int(np.prod(x.shape[ax:])))
        return V(x.x.reshape(sh), x.e.reshape(sh))
    if op == 'Reshape':
        t = [int(v) for v in ins[1].x.reshape(-1)]
        t = [x.shape[i] if v == 0 else v for i, v in enumerate(t)]
        try:
            return V(x.x.reshape(t), x.e.reshape(t))
        except ValueError:
            raise Unsupported('Reshape')
    if op == 'Transpose':
        p = at.get('perm') or list(range(x.x.ndim))[::-1]
        return V(np.ascontiguousarray(x.x.transpose(p)), np.ascontiguousarray(x.e.transpose(p)))
    if op == 'Concat':
        try:
            return V(np.concatenate([i.x for i in ins], at['axis']), np.concatenate([i.e for i in ins], at['axis']))
        except ValueError:
            raise Unsupported('Concat')
    if op == 'Squeeze':
        ax = tuple(at['axes']) if at.get('axes') else None
        return V(np.squeeze(x.x, ax), np.squeeze(x.e, ax))
    if op == 'Unsqueeze':
        r = x.x.ndim + len(at['axes'])
        ax = tuple(a % r for a in at['axes'])
        return V(np.expand_dims(x.x, ax), np.expand_dims(x.e, ax))
    if op == 'Pad':
        n_ = x.x.ndim
        w = list(zip(at['pads'][:n_], at['pads'][n_:]))
        mode = at.get('mode', 'constant')
        mode = mode.decode() if isinstance(mode, bytes) else mode
        kw = {'constant_values': f32(at.get('value', 0.0))} if mode == 'constant' else {}
        if min(at['pads']) < 0:
            if mode != 'constant':
                raise Unsupported('negative pad')
            cut = tuple(slice(max(0, -a), d - max(0, -b)) for (a, b), d in zip(w, x.x.shape))   # takes elements away
            x = V(x.x[cut], x.e[cut])
            w = [(max(0, a), max(0, b)) for a, b in w]
        return V(np.pad(x.x, w, mode, **kw), np.pad(x.e, w, mode if mode != 'constant' else 'constant'))
    if op == 'Shape':
        return V(np.array(x.shape, dtype=np.int64))
    if op == 'Gather':
        ax = at.get('axis', 0)
        i = ins[1].x.astype(np.int64)
        return V(np.take(x.x, i, ax), np.take(x.e, i, ax))
    if op == 'Cast':
        return x
    raise Unsupported(op)


def execute(m, inputs):
    """Output (values, error bounds) of the model for {input name: array}."""
    env = {}
    for k, a in m.inits.items():
        env[k] = V(a.astype(np.float64) if a.dtype.kind == 'f' else a)
    for n, s in m.inputs:
        env[n] = V(inputs[n].astype(np.float64))
    with np.errstate(all='ignore'):
        for n in m.nodes:
            r = run_node(n, [env[i] for i in n.inputs if i], m.opset)
            env[n.outputs[0]] = r
    o = env[m.output[0]]
    return o.x, o.e, env
