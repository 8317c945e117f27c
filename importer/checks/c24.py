RULE = 'the model has at least one construct outside the supported set and was either refused or generated, run and compared on two inputs'
QUICK, THOROUGH = 3000, 40000
import numpy as np
import e2e
import gen
from model import V, Node, Unsupported, run_node


class Wild(gen.Dag):
    """Graphs in which some nodes leave the supported set. Shapes come from running the executor."""

    def __init__(self, c):
        gen.Dag.__init__(self, c)
        self.odd = []
        self.mild = c.flip()

    def value(self, t):
        return self.vals[t[0] if isinstance(t, tuple) else t]

    def node(self, op, inputs, out_shape, **attrs):
        r = gen.Dag.node(self, op, inputs, out_shape, **attrs)
        n = self.m.nodes[-1]
        try:
            y = run_node(n, [self.value_of(i) for i in n.inputs if i], self.m.opset)
        except Unsupported:
            self.m.nodes.pop()
            raise
        except Exception as e:                      # numpy refuses: not a valid model
            self.m.nodes.pop()
            raise Unsupported(str(e))
        if y.x.size == 0 or y.x.size > 4 * self.max_elems:
            self.m.nodes.pop()
            raise Unsupported('size')
        self.env[r[0]] = y
        return (r[0], tuple(y.shape))

    def value_of(self, name):
        if name in self.env:
            return self.env[name]
        a = self.m.inits[name]
        self.env[name] = V(a.astype(np.float64) if a.dtype.kind == 'f' else a)
        return self.env[name]

    def start(self, x):
        s = self.c.seed() & 0xffff
        self.env = {x[0]: V(np.random.RandomState(s).normal(0, 1, x[1]))}
        return x

    def data(self, *shape):
        return self.init(gen.rnd(self.c, tuple(shape)), 'w')

    # an otherwise ordinary node with exactly one unusual attribute
    def single(self, x):
        c, s = self.c, x[1]
        r, n = len(s), len(s) - 2
        ops = [o for o in ('Conv', 'Conv', 'Pool', 'Pool', 'LRN') if n in (1, 2) and not (o == 'LRN' and n == 1)] + (['Gemm', 'Gemm', 'Gemm'] if r == 2 else []) + ['Softmax', 'Unary', 'Shape']
        op = c.pick(ops)
        if op == 'Gemm':
            k = c.int(1, 5)
            w = self.data(k, s[1])
            at, b = dict(transB=1), (k,)
            what = c.n(6)
            if what == 0:
                at['alpha'] = c.pick([1.5, 1.25, 1.75, -1.0, 0.999, 0.5, 2.0, 1e-3])
            elif what == 1:
                at['beta'] = c.pick([1.5, 1.25, 1.75, -1.0, 0.999, 0.5, 2.0, 0.0])
            elif what == 2:
                w, at = self.data(s[1], k), {}
            elif what == 3:
                b = c.pick([(1, k), (1,), (), (s[0], k)])
            elif what == 4:
                at.update(alpha=1.0, beta=1.0, transA=0)
            else:
                b = None
            self.tag('single: Gemm %s' % ['alpha', 'beta', 'transB 0', 'bias shape', 'all defaults', 'no bias'][what])
            return self.node('Gemm', [x, w] + ([self.init(gen.rnd(c, b), 'b')] if b is not None else []), (), **at)
        if op == 'Conv':
            g = c.pick([1, 1, s[1]])
            oc = g * c.int(1, 2)
            kk = [c.pick([3, 1, 5]) for _ in range(n)]
            at = dict(kernel_shape=kk, strides=[c.pick([1, 2, 2, 3])] * n, pads=[q // 2 for q in kk] * 2, group=g, dilations=[1] * n)
            what = c.n(8)
            if what < 3:
                del at['pads']
                at['auto_pad'] = c.pick(['SAME_UPPER', 'SAME_LOWER', 'VALID'])
            elif what == 3:
                at['dilations'][c.n(n)] = 2
            elif what == 4:
                kk[c.n(n)] = c.pick([2, 4])
            elif what == 5:
                del at[c.pick(['strides', 'pads', 'kernel_shape', 'dilations'])]
            elif what == 6:
                at['pads'] = [c.n(3) for _ in at['pads']]
            else:
                at['strides'] = [c.int(1, 3) for _ in range(n)]
            self.tag('single: Conv %s' % (['auto_pad'] * 3 + ['dilations', 'even kernel', 'missing attribute', 'pads', 'strides'])[what])
            return self.node('Conv', [x, self.data(oc, s[1] // g, *kk)] + ([self.data(oc)] if c.flip() else []), (), **at)
        if op == 'Pool':
            o = c.pick(['MaxPool', 'AveragePool'])
            kk = [c.pick([2, 3])] * n
            at = dict(kernel_shape=kk, strides=[c.pick([1, 2, 2, 3])] * n, pads=[0] * 2 * n)
            what = c.n(8)
            if what < 2:
                del at['pads']
                at['auto_pad'] = c.pick(['SAME_UPPER', 'SAME_LOWER', 'VALID'])
            elif what < 4:
                self.m.opset, at['ceil_mode'] = 10, 1
            elif what == 4:
                self.m.opset, o, at['dilations'] = 10, 'MaxPool', [2] + [1] * (n - 1)
            elif what == 5:
                del at[c.pick(['strides', 'pads'])]
            elif what == 6:
                o, at['pads'] = 'AveragePool', [c.n(2) for _ in at['pads']]
                if c.flip():
                    at['count_include_pad'] = c.n(2)
            else:
                o, at['storage_order'] = 'MaxPool', 1
            self.tag('single: pool %s' % ['auto_pad', 'auto_pad', 'ceil_mode', 'ceil_mode', 'dilations', 'missing attribute', 'pads', 'storage_order'][what])
            return self.node(o, [x], (), **at)
        if op == 'LRN':
            at = dict(size=c.pick([1, 3, 5]), alpha=0.5, beta=0.6, bias=1.5)
            what = c.n(3)
            if what == 0:
                at['size'] = c.pick([2, 4])
            elif what == 1:
                del at[c.pick(['alpha', 'beta', 'bias'])]
            self.tag('single: LRN %s' % ['even size', 'missing attribute', 'plain'][what])
            return self.node('LRN', [x], (), **at)
        if op == 'Softmax':
            at = c.pick([{}, {'axis': c.n(r)}, {'axis': 1}, {'axis': r - 1}])
            self.tag('single: Softmax rank %d %s' % (r, at))
            return self.node('Softmax', [x], (), **at)
        if op == 'Unary':
            o, at = c.pick([('LeakyRelu', {}), ('LeakyRelu', {'alpha': 0.0}), ('LeakyRelu', {'alpha': 1.5}), ('LeakyRelu', {'alpha': -0.5}), ('Clip', {'min': 0.0, 'max': 6.0}), ('Clip', {'min': -0.25}), ('Clip', {'max': 0.25}), ('Clip', {'min': 0.1, 'max': 0.2}), ('Neg', {})])
            self.tag('single: %s %s' % (o, sorted(at)))
            return self.node(o, [x], (), **at)
        what = c.n(4)
        if what == 0:
            ax = c.n(r + 1)
            self.tag('single: Flatten axis %d of rank %d' % (ax, r))
            return self.node('Flatten', [x], (), axis=ax)
        if what == 1:
            ax = c.n(r)
            self.tag('single: Concat axis %d of rank %d' % (ax, r))
            return self.node('Concat', [x, x], (), axis=ax)
        if what == 2:
            p = [0] * 2 * r
            p[c.n(2 * r)] = c.pick([1, 2, 1, 2, -1])
            self.tag('single: Pad of one side')
            return self.node('Pad', [x], (), pads=p, mode=c.pick(['constant', 'constant', 'edge', 'reflect']), value=c.pick([0.0, 0.0, 1.0]))
        p = list(range(r))
        i, j = c.n(r), c.n(r)
        p[i], p[j] = p[j], p[i]
        self.tag('single: Transpose of two axes')
        return self.node('Transpose', [x], (), perm=p)

    # each odd_* emits one node outside the supported set
    def odd_conv(self, x):
        c, n = self.c, len(x[1]) - 2
        if n < 1:
            return None
        k = [c.pick([3, 1, 2, 4]) for _ in range(n)]
        g = c.pick([1, 1, x[1][1]])
        oc = g * c.int(1, 3)
        at = dict(kernel_shape=k, strides=[c.int(1, 2) for _ in range(n)], pads=[c.n(2) for _ in range(2 * n)], group=g)
        what = c.pick([0, 1, 6, 4, 2, 3, 5, 0, 1, 6, 6, 4])
        if what == 0:
            k[:] = [3] * n
            at['dilations'] = [c.int(1, 2) for _ in range(n)]
            at['pads'] = [1] * 2 * n
        elif what == 1:
            at['auto_pad'] = c.pick(['SAME_UPPER', 'SAME_LOWER', 'VALID', 'NOTSET'])
            if c.flip():
                at['strides'] = [1] * n
            if at['auto_pad'] != 'NOTSET':
                del at['pads']
            k[:] = [c.pick([3, 1]) for _ in range(n)]
        elif what == 2:
            k[:] = [c.pick([3, 1]) for _ in range(n)]
            del at['strides']
        elif what == 3:
            k[:] = [c.pick([3, 1]) for _ in range(n)]
            del at['kernel_shape']
        elif what == 4:
            k[c.n(n)] = 2
        elif what == 5:
            # the kernel is not a trained tensor
            k[:] = [1] * n
            w = self.node('Constant', [], (oc, x[1][1] // g) + tuple(k), value=gen.rnd(c, (oc, x[1][1] // g) + tuple(k)))
            self.tag('Conv kernel from Constant')
            return self.node('Conv', [x, w] + ([self.data(oc)] if c.flip() else []), (), **at)
        elif what == 6:
            k[:] = [c.pick([3, 1, 5]) for _ in range(n)]
            at['pads'] = [c.n(7) for _ in range(2 * n)]
            at['strides'] = [c.int(1, 4) for _ in range(n)]
        self.tag('Conv %s' % ['dilations', 'auto_pad', 'no strides', 'no kernel_shape', 'even kernel', '', 'wide padding'][what])
        ins = [x, self.data(oc, x[1][1] // g, *k)]
        if c.flip():
            ins.append(self.data(oc))
        return self.node('Conv', ins, (), **at)

    def odd_pool(self, x):
        c, n = self.c, len(x[1]) - 2
        if n < 1:
            return None
        op = c.pick(['MaxPool', 'AveragePool'])
        k = [c.pick([2, 3, 1]) for _ in range(n)]
        at = dict(kernel_shape=k, strides=[c.int(1, 3) for _ in range(n)])
        what = c.pick([0, 1, 2, 4, 5, 3, 0, 1, 2, 4, 4])
        if what == 0:
            op = 'MaxPool'
            self.m.opset = 10
            at['dilations'] = [c.int(1, 2) for _ in range(n)]
        elif what == 1:
            self.m.opset = 10
            at['ceil_mode'] = c.n(2)
        elif what == 2:
            at['auto_pad'] = c.pick(['SAME_UPPER', 'SAME_LOWER', 'VALID', 'NOTSET'])
        elif what == 3:
            del at['strides']
        elif what == 4:
            at['pads'] = [c.n(max(1, q)) for q in k] + [c.n(max(1, q)) for q in k]
            if op == 'AveragePool':
                at['count_include_pad'] = c.n(2)
        else:
            op, at['storage_order'] = 'MaxPool', 1
        self.tag('%s %s' % (op, ['dilations', 'ceil_mode', 'auto_pad', 'no strides', 'pads', 'storage_order'][what]))
        return self.node(op, [x], (), **at)

    def odd_gemm(self, x):
        c = self.c
        if len(x[1]) != 2:
            return None
        n = c.int(1, 5)
        ta, tb = c.n(2), c.n(2)
        inner, rows = (x[1][0], x[1][1]) if ta else (x[1][1], x[1][0])
        w = self.data(n, inner) if tb else self.data(inner, n)
        at = {}
        if ta or c.flip():
            at['transA'] = ta
        if tb or c.flip():
            at['transB'] = tb
        if c.chance(1, 3):
            at['alpha'] = c.pick([1.0, 0.5, 2.0])
        if c.chance(1, 3):
            at['beta'] = c.pick([1.0, 0.5, 0.0])
        ins = [x, w]
        k = c.n(7)
        if k:
            b = [(n,), (1, n), (1,), (), (rows, n), (rows, 1)][k - 1]
            ins.append(self.init(gen.rnd(c, b), 'b'))
        dyn = self.some(lambda t: t[1] == ((n, inner) if tb else (inner, n)))
        if dyn and c.flip():
            ins[1] = dyn
        if c.chance(1, 8):
            ins[0] = self.data(*x[1])
        self.tag('Gemm transA %d transB %d alpha %s beta %s bias %s' % (ta, tb, at.get('alpha', '-'), at.get('beta', '-'), k))
        return self.node('Gemm', ins, (), **at)

    def odd_matmul(self, x):
        c, r = self.c, len(x[1])
        k = c.n(5)
        n = c.int(1, 4)
        self.tag('MatMul %s rank %d' % (['plain', 'vector', 'batched', 'constant left', 'two values'][k], r))
        if k == 0:
            return self.node('MatMul', [x, self.data(x[1][-1], n)], ())
        if k == 1:
            return self.node('MatMul', [x, self.data(x[1][-1])], ())
        if k == 2:
            return self.node('MatMul', [x, self.data(*(x[1][:-2] + (x[1][-1], n)))], ())
        if k == 3:
            return self.node('MatMul', [self.data(n, x[1][-2] if r > 1 else x[1][0]), x], ())
        y = self.some(lambda t: len(t[1]) == r and r > 1 and t[1][-2] == x[1][-1])
        return y and self.node('MatMul', [x, y], ())

    def odd_elementwise(self, x):
        c, s = self.c, x[1]
        op = c.pick(['Add', 'Mul', 'Add', 'Mul', 'Add', 'Mul', 'Add', 'Sub', 'Div', 'Sum'])
        shapes = [s, (), (1,), s[-1:], s[1:], (1,) * len(s), (1,) + s[1:], s[:1]]
        if len(s) > 1:
            shapes += [(s[1],) + (1,) * (len(s) - 2), (1, s[1]) + (1,) * (len(s) - 2), s[:-1] + (1,), (c.int(2, 3),) + s[1:], (1,) + s]
        if c.chance(1, 3):
            y = self.some(lambda t: t[1] != s and len(t[1]) <= len(s) and all(a == b or a == 1 or b == 1 for a, b in zip(t[1][::-1], s[::-1])))
            y = y or c.pick(self.pool_)
            self.tag('%s of values %s and %s' % (op, 'of the same shape' if y[1] == s else 'of other shapes', ''))
        else:
            k = c.n(len(shapes))
            a = gen.rnd(c, shapes[k])
            y = self.init(np.where(np.abs(a) < 0.1, np.float32(0.5), a).astype(np.float32), 'k')
            self.tag('%s by a constant, variant %d of rank %d' % (op, k, len(s)))
        ins = [x, y] if c.chance(2, 3) or op == 'Div' else [y, x]
        return self.node(op, ins, ())

    def odd_unary(self, x):
        c = self.c
        op = c.pick(['Sigmoid', 'Tanh', 'LeakyRelu', 'Neg', 'Abs', 'Identity', 'Clip', 'Clip', 'Dropout', 'Cast'])
        at = {}
        if op == 'Clip':
            if c.flip():
                at = c.pick([{'min': -0.5}, {'max': 0.5}])
        elif op == 'LeakyRelu':
            at['alpha'] = 0.25
        elif op == 'Cast':
            at['to'] = 1
        self.tag('%s %s' % (op, sorted(at)))
        return self.node(op, [x], (), **at)

    def odd_norm(self, x):
        c = self.c
        k = c.n(3)
        if k == 0:
            at = dict(size=c.pick([2, 4, 3, 1, 5]))
            for q, v in (('alpha', 0.5), ('beta', 0.6), ('bias', 1.5)):
                if c.chance(5, 6):
                    at[q] = v
            if len(x[1]) < 2:
                return None
            self.tag('LRN size %d rank %d' % (at['size'], len(x[1])))
            return self.node('LRN', [x], (), **at)
        if k == 1:
            at = {} if c.chance(1, 5) else {'axis': c.n(len(x[1]))}
            self.tag('Softmax %s rank %d' % (at, len(x[1])))
            return self.node('Softmax', [x], (), **at)
        if len(x[1]) < 2:
            return None
        ch = x[1][1]
        ins = [x, self.data(ch), self.data(ch), self.data(ch), self.init(np.abs(gen.rnd(c, (ch,))) + np.float32(0.5), 'v')]
        if c.chance(1, 4):
            i = c.int(1, 3)
            ins[i] = self.node('Constant', [], (ch,), value=gen.rnd(c, (ch,)))
        at = {} if c.chance(1, 4) else {'epsilon': 1e-3, 'momentum': 0.8}
        self.tag('BatchNormalization rank %d %s' % (len(x[1]), sorted(at)))
        return self.node('BatchNormalization', ins, (), **at)

    def odd_shape(self, x):
        c, r = self.c, len(x[1])
        k = c.n(8)
        if k == 0:
            p = list(range(r))
            for i in range(r - 1):
                j = c.int(i, r - 1)
                p[i], p[j] = p[j], p[i]
            self.tag('Transpose rank %d' % r)
            return self.node('Transpose', [x], (), **({'perm': p} if c.chance(2, 3) else {}))
        if k == 1:
            ax = c.n(r)
            l = [t for t in self.pool_ if len(t[1]) == r and all(a == b for i, (a, b) in enumerate(zip(t[1], x[1])) if i != ax)]
            ins = [x] + [c.pick(l) for _ in range(c.n(3))]
            if c.chance(1, 3):
                ins.insert(c.n(len(ins) + 1), self.data(*x[1]))
            self.tag('Concat axis %d of %d, rank %d' % (ax, len(ins), r))
            return self.node('Concat', ins, (), axis=ax)
        if k == 2:
            p = [c.n(3) if c.flip() else 0 for _ in range(2 * r)]
            if c.chance(1, 10):   # takes elements away
                i = c.n(2 * r)
                p[i] = -c.n(x[1][i % r])
            at = {'pads': p}
            m = c.pick(['constant', 'reflect', 'edge', None])
            if m:
                at['mode'] = m
            if c.flip():
                at['value'] = 0.5
            self.tag('Pad %s rank %d %s' % (m, r, sorted(at)))
            return self.node('Pad', [x], (), **at)
        if k == 3:
            self.tag('Squeeze without axes')
            return self.node('Squeeze', [x], ())
        if k == 4:
            ax = c.n(r + 1)
            self.tag('Flatten axis %d rank %d' % (ax, r))
            return self.node('Flatten', [x], (), axis=ax)
        if k == 5:
            ax = c.n(r)
            idx = c.pick([np.array(c.n(x[1][ax])), np.array([c.n(x[1][ax])]), np.array([c.n(x[1][ax]) for _ in range(3)])]).astype(np.int64)
            self.tag('Gather of data')
            return self.node('Gather', [x, self.const(idx)], (), axis=ax)
        if k == 6:
            # a parameter computed from a trained tensor
            if r != 2:
                return None
            n = c.int(1, 4)
            w = self.data(n, x[1][1])
            t = c.n(3)
            self.tag('parameter through %s' % ['Transpose', 'Identity', 'Reshape'][t])
            if t == 0:
                w = self.node('Transpose', [w], (), perm=[1, 0])
                return self.node('MatMul', [x, w], ())
            if t == 1:
                w = self.node('Identity', [w], ())
                return self.node('Gemm', [x, w], (), transB=1)
            w = self.node('Reshape', [w, self.init(np.array([x[1][1], n], dtype=np.int64), 's')], ())
            return self.node('MatMul', [x, w], ())
        op = c.pick(['GlobalMaxPool', 'GlobalAveragePool'])
        if r < 2:
            return None
        self.tag('%s rank %d' % (op, r))
        return self.node(op, [x], ())

    def tag(self, s):
        self.now = s

    def odd_step(self):
        c = self.c
        x = c.pick(self.pool_[::-1])
        C, P, G, M, E, U, N, S = (self.odd_conv, self.odd_pool, self.odd_gemm, self.odd_matmul, self.odd_elementwise, self.odd_unary, self.odd_norm, self.odd_shape)
        r = len(x[1])
        if r == 0:
            return None
        f = self.single if self.mild else c.pick([G, G, G, M, E, N, S, S, U, P, C] if r == 2 else [C, C, C, P, P, P, N, N, S, S, E, E, M, U])
        count = len(self.m.nodes)
        inits = set(self.m.inits)
        try:
            t = f(x)
        except Unsupported:
            t = None
        if t is None:
            del self.m.nodes[count:]
            for i in set(self.m.inits) - inits:
                del self.m.inits[i]
            return None
        self.odd.append(self.now)
        self.pool_.append(t)
        return t


def build_model(c):
    b = Wild(c)
    x = b.input()
    if c.chance(1, 20):
        s = list(x[1])
        k = c.n(2)
        if k == 0:
            s = [s[-1]]
        elif len(s) == 4:
            s = s + [c.int(1, 3)]
        x = (x[0], tuple(s))
        b.m.inputs = [x]
        b.odd.append('input of shape like %s' % ['vector', 'rank 5'][k])
    b.start(x)
    b.pool_.append(x)
    want = 2 if not b.mild and c.chance(1, 4) else 1
    for _ in range(c.int(1, 3 if b.mild else 5)):
        if want and c.flip():
            if b.odd_step():
                want -= 1
        else:
            count = len(b.m.nodes)
            try:
                if len(b.pool_[0][1]) == 5 or len(b.pool_[0][1]) == 1:
                    b.odd_step()
                else:
                    b.step()
            except (Unsupported, IndexError, ValueError):
                del b.m.nodes[count:]
    for _ in range(3):
        if want:
            want -= bool(b.odd_step())
    if not b.m.nodes:
        return None, b
    # keep what was computed last; join the other ends sometimes
    have = {i for n in b.m.nodes for i in n.outputs}
    read = {i for n in b.m.nodes for i in n.inputs}
    ends = [t for t in b.pool_ if t[0] in have and t[0] not in read] or [b.pool_[-1]]
    if ends[-1][0] not in have:
        return None, b
    c2 = c.n(8)
    try:
        if c2 == 0 or len(ends[-1][1]) == 2 and len(ends) == 1 and ends[-1][1][0] == 1:
            x = ends[-1]
        else:
            flat = [t if len(t[1]) == 2 and t[1][0] == 1 else b.to2d_any(t) for t in ends]
            x = b.node('Concat', flat, (), axis=1) if len(flat) > 1 else flat[0]
    except Unsupported:
        return None, b
    # axes counted from the end: part of the format from opset 11 on, where Clip and Pad take inputs
    if not any(n.op in ('Clip', 'Pad') for n in b.m.nodes) and c.chance(1, 5):
        for n in b.m.nodes:
            r = len(b.value_of(n.inputs[0]).shape) if n.inputs else 0
            if n.op in ('Softmax', 'Flatten', 'Concat') and 0 <= n.attrs.get('axis', 1) < r:
                n.attrs['axis'] = n.attrs.get('axis', 1) - r
            elif n.op in ('Squeeze',) and n.attrs.get('axes'):
                n.attrs['axes'] = [a - r for a in n.attrs['axes']]
            else:
                continue
            b.m.opset = 11
            b.odd.append('%s with an axis counted from the end' % n.op)
    opset = b.m.opset
    if c.chance(1, 60):   # an output that is no result of the input at all
        v = gen.rnd(c, x[1])
        b.odd.append('output is constant')
        x = b.node('Constant', [], x[1], value=v)
    m = b.finish(x)
    if 'output is constant' in b.odd and c.flip():
        m.inits['a fixed output'] = v
        m.output = ('a fixed output', m.output[1])
    if m.inputs[0][1][0] != 1:
        m.batch_param = False
    m.opset = max(9, opset)
    return m, b


def prop(c):
    m, b = build_model(c)
    if m is None:
        return
    c.text(m.describe())
    for o in b.odd:
        c.label(o.split(' rank')[0].split(', variant')[0])
    used = bool(b.odd)
    inputs = [gen.net_input(c, m) for _ in range(2)]
    refs = e2e.references(m, inputs)
    c.nontriv = False
    r = e2e.pipeline(c, m, inputs, strict=False, refs=refs)
    c.nontriv = used and (r is None or c.nontriv)
