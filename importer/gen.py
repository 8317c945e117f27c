"""Generators of ONNX models in the supported domain."""
import numpy as np
from model import Model, Node, Unsupported, execute


def rnd(c, shape, style=None):
    """Float data from one draw: mixtures of scales, signs and special values."""
    s = c.seed()
    r = np.random.RandomState(s & 0x7fffffff)
    style = s % 5 if style is None else style
    if style == 0:
        a = r.randint(-8, 9, shape) / 8.0
    elif style == 1:
        a = r.uniform(-1, 1, shape)
    elif style == 2:
        a = r.normal(0, 1, shape)
    elif style == 3:
        a = r.randint(-3, 4, shape) * 0.5
    else:
        a = r.uniform(0, 1, shape) * r.choice([-1.0, 1.0], shape)
    return np.asarray(a, dtype=np.float32)


class B(object):
    """Builds a model; tensors are (name, shape)."""

    def __init__(self, c, max_elems=600):
        self.c, self.m, self.count, self.max_elems = c, Model(), 0, max_elems
        self.style = c.n(4)
        self.named = c.n(3)        # 0: no node names, 1: all, 2: some
        self.big = 0               # elements a value may have in networks with a large dimension
        self.params = []           # initializers usable for sharing: (name, shape, role)

    def new(self, hint='t'):
        self.count += 1
        k = self.count
        return ['%d' % k, '%s%d' % (hint, k), 'net/%s_%d:0' % (hint, k), 'mod.%s.%d' % (hint, k)][self.style]

    def init(self, arr, hint='w'):
        n = self.new(hint)
        self.m.inits[n] = arr
        return n

    def node(self, op, inputs, out_shape, **attrs):
        o = self.new(op.lower())
        name = ''
        if self.named == 1 or (self.named == 2 and self.c.flip()):
            self.count += 1
            name = ['%s_%d', 'n%s%d', 'blk/%s_%d', 'm.%s.%d'][self.style] % (op, self.count)
        self.m.nodes.append(Node(op, [i[0] if isinstance(i, tuple) else i for i in inputs], [o], attrs, name))
        return (o, tuple(out_shape))

    # --- layers -------------------------------------------------------
    def window(self, x, n, odd):
        """kernel, strides, pads that fit x's spatial size; returns (k, s, p, out)."""
        c = self.c
        k, s, lo, hi, out = [], [], [], [], []
        padded = c.flip()
        square = c.chance(1, 3)
        for i in range(n):
            d = x[1][2 + i]
            if square and i:
                kk, ss = k[0], s[0]
            else:
                kk = c.pick([3, 1, 5] if odd else [2, 3, 1, 4])
                ss = c.pick([1, 2, 3])
            a = c.int(0, kk - 1) if padded else 0
            b = c.int(0, kk - 1) if padded else 0
            while d + a + b < kk:
                kk -= 2 if odd else 1
                if kk < 1:
                    kk = 1
                a, b = min(a, kk - 1), min(b, kk - 1)
            k.append(kk), s.append(ss), lo.append(a), hi.append(b)
            out.append((d + a + b - kk) // ss + 1)
        return k, s, lo + hi, out

    def pool_ok(self, x, k, s, p, out):
        """Every window sees at least one real element."""
        n = len(k)
        for i in range(n):
            for o in range(out[i]):
                a = o * s[i] - p[i]
                if a + k[i] <= 0 or a >= x[1][2 + i]:
                    return False
        return True

    def share(self, shape, role):
        """An initializer of that shape: new or, sometimes, one already used in the same role."""
        old = [n for n, s, r in self.params if s == tuple(shape) and r == role]
        if old and self.c.chance(1, 2):
            self.c.label('shared parameter')
            return self.c.pick(old)
        if role == 'var':
            a = np.abs(rnd(self.c, shape)) + np.float32(0.25)
        elif role == 'var0':        # small enough for epsilon to matter
            a = (np.abs(rnd(self.c, shape)) * 10.0 ** -self.c.n(7)).astype(np.float32)
        elif role == 'w':
            a = rnd(self.c, shape)
            fan = max(1, int(np.prod(shape[1:])))
            a = (a * np.float32(1.0 / np.sqrt(fan))).astype(np.float32)
        else:
            a = rnd(self.c, shape)
        n = self.init(a, role)
        self.params.append((n, tuple(shape), role))
        return n

    def conv(self, x):
        c, n = self.c, len(x[1]) - 2
        k, s, p, out = self.window(x, n, True)
        ic = x[1][1]
        g = c.pick([d for d in range(1, ic + 1) if ic % d == 0]) if c.chance(1, 3) else 1
        oc = g * c.int(1, max(1, 6 // g))
        if c.chance(1, 40) and ic // g * int(np.prod(out)) * int(np.prod(k)) < 2000:
            oc = g * c.int(1, 300 // g + 1)
            c.label('many channels')
        if c.chance(1, 6):
            # same shape as an earlier convolution so that parameters can be shared
            cand = [q[1] for q in self.params if q[2] == 'w' and len(q[1]) == n + 2 and q[1][1] * g == ic and q[1][0] % g == 0
                    and all(x[1][2 + i] + p[i] + p[i + n] >= q[1][2 + i] for i in range(n))]
            if cand:
                sh = c.pick(cand)
                oc, k = sh[0], list(sh[2:])
                out = [(x[1][2 + i] + p[i] + p[i + n] - k[i]) // s[i] + 1 for i in range(n)]
        if oc * (ic // g) * int(np.prod(k)) > 100000:
            k, oc = [1] * n, oc if oc * (ic // g) <= 100000 else g
            p = [min(q, 1) for q in p]
            out = [(x[1][2 + i] + p[i] + p[i + n] - 1) // s[i] + 1 for i in range(n)]
        w = self.share((oc, ic // g) + tuple(k), 'w')
        ins = [x, w]
        if c.chance(2, 3):
            ins.append(self.share((oc,), 'b'))
        at = dict(kernel_shape=k, strides=s)
        if any(p) or c.flip():
            at['pads'] = p
        if g != 1 or c.flip():
            at['group'] = g
        if c.flip():
            at['dilations'] = [1] * n
        c.label('Conv%dD%s%s' % (n, ' grouped' if g > 1 else '', ' asym pads' if p[:n] != p[n:] else ''))
        return self.node('Conv', ins, (1, oc) + tuple(out), **at)

    def pool(self, x):
        c, n = self.c, len(x[1]) - 2
        avg = c.flip()
        for _ in range(4):
            k, s, p, out = self.window(x, n, False)
            if self.pool_ok(x, k, s, p, out):
                break
        else:
            k, s, p, out = [1] * n, [1] * n, [0] * (2 * n), list(x[1][2:])
        at = dict(kernel_shape=k, strides=s)
        if any(p) or c.flip():
            at['pads'] = p
        if avg and c.flip():
            at['count_include_pad'] = c.n(2)
        op = 'AveragePool' if avg else 'MaxPool'
        c.label('%s%dD%s' % (op, n, ' padded' if any(p) else ''))
        return self.node(op, [x], x[1][:2] + tuple(out), **at)

    def global_pool(self, x):
        op = self.c.pick(['GlobalAveragePool', 'GlobalMaxPool'])
        self.c.label(op)
        return self.node(op, [x], x[1][:2] + (1,) * (len(x[1]) - 2))

    def bn(self, x):
        ch = x[1][1]
        roles = ('b', 'b', 'b', 'var') if self.c.chance(1, 4) else ('g', 'b', 'mean', 'var')
        if self.c.chance(1, 4):
            roles = roles[:3] + ('var0',)
        ins = [x] + [self.share((ch,), r) for r in roles]
        if len(set(ins[1:])) < 4:
            self.c.label('BN with one tensor twice')
        self.c.label('BatchNormalization')
        return self.node('BatchNormalization', ins, x[1], epsilon=self.c.pick([1e-5, 1e-3, 0.25, 1e-7, 2e-6, 3.1415e-4, 0.00390625, 1e-8, self.real(1e-8, 1)]))

    def real(self, lo, hi):
        """A number with all its digits, evenly distributed or (lo > 0) over the magnitudes."""
        u = (self.c.n(1 << 22) + 0.5) / (1 << 22)
        return float(np.float32(lo * (hi / lo) ** u if lo > 0 else lo + (hi - lo) * u))

    def act(self, x):
        c = self.c
        k = c.n(5 if len(x[1]) == 4 else 4)
        if k == 0:
            r = self.node('Relu', [x], x[1])
        elif k == 1:
            lo = c.pick([0.0, -1.0, -0.3, 0.1])
            hi = lo + c.pick([6.0, 0.5, 1.0, 0.1])
            if c.chance(1, 3):
                lo = self.real(-3, 3)
                hi = lo + self.real(1e-4, 4)
            r = self.node('Clip', [x], x[1], min=lo, max=hi)
        elif k == 2:
            r = self.node('Dropout', [x], x[1], ratio=c.pick([0.5, 0.0, 0.9]))
        elif k == 3:
            r = self.mul(x)
        else:
            at = dict(alpha=c.pick([1e-4, 0.5, 1.0, 2.0]), beta=c.pick([0.75, 0.5, 1.0, 0.3]), size=c.pick([3, 1, 5, 7]))
            if c.flip():
                at['bias'] = c.pick([1.0, 2.0, 0.5])
            if c.chance(1, 3):
                at.update(alpha=self.real(1e-5, 2), beta=self.real(0.2, 1.2), size=c.pick([3, 5, 9, 11, 21]))
                if 'bias' in at:
                    at['bias'] = self.real(0.5, 3)
            r = self.node('LRN', [x], x[1], **at)
        c.label(self.m.nodes[-1].op)
        return r

    def mul(self, x):
        c = self.c
        f = np.float32(c.pick([0.5, 2.0, -1.0, 0.1, 1.0 / 255, 3.7]))
        f = np.float32([f, f * np.float32(1.0 + c.n(100) / 977.0)][c.n(2)])
        sh = c.pick([(), (1,), (1,) * len(x[1])])
        return self.node('Mul', [x, self.init(np.full(sh, f, dtype=np.float32), 'factor')], x[1])

    def softmax(self, x):
        c = self.c
        at = {}
        if c.flip() or len(x[1]) > 2:
            at['axis'] = 1
        c.label('Softmax rank %d' % len(x[1]))
        return self.node('Softmax', [x], x[1], **at)

    def columns(self, x):
        c = self.c
        if c.chance(1, 40) and x[1][1] <= 2000:
            self.max_elems = max(self.max_elems, 4200)
            c.label('wide layer')
            return c.int(10, 4200 if x[1][1] < 40 else max(10, 100000 // x[1][1]))
        return c.int(1, max(1, min(9, 100000 // x[1][1])))

    def gemm(self, x):
        c = self.c
        n = self.columns(x)
        ins = [x, self.share((n, x[1][1]), 'w')]
        at = dict(transB=1)
        if c.chance(3, 4):
            ins.append(self.share((n,), 'b'))
        else:
            c.label('Gemm without bias')
        if c.flip():
            at['transA'] = 0
        if c.flip():
            at.update(alpha=1.0, beta=1.0)
        c.label('Gemm')
        return self.node('Gemm', ins, (1, n), **at)

    def matmul(self, x):
        c = self.c
        n = self.columns(x)
        y = self.node('MatMul', [x, self.share((x[1][1], n), 'w')], (1, n))
        c.label('MatMul')
        return self.bias_add(y) if c.flip() else y

    def bias_add(self, x):
        self.c.label('Add of a bias')
        return self.node('Add', [x, self.share((x[1][1],), 'b')], x[1])

    def to2d(self, x):
        """Flatten or reshape to (1, n)."""
        c = self.c
        n = int(np.prod(x[1]))
        k = c.n(4)
        if k == 0:
            at = {} if c.flip() else {'axis': 1}
            return self.node('Flatten', [x], (1, n), **at)
        t = [[1, n], [1, -1], [0, -1]][k - 1]
        self.c.label('Reshape')
        return self.node('Reshape', [x, self.init(np.array(t, dtype=np.int64), 'shape')], (1, n))

    def to2d_any(self, x):
        """(1, n) of a value of any shape."""
        n = int(np.prod(x[1]))
        if len(x[1]) > 1 and x[1][0] == 1:
            return self.to2d(x)
        if self.c.flip():
            return self.node('Flatten', [x], (1, n), axis=0)
        return self.node('Reshape', [x, self.init(np.array([1, n], dtype=np.int64), 'shape')], (1, n))

    def reshape(self, x):
        """Another factorisation of the same elements, batch 1 (rank 3 or 4, or the same shape)."""
        c = self.c
        n = int(np.prod(x[1]))
        k = c.n(5)
        if k == 0 and len(x[1]) > 2:
            t = list(x[1])
        else:
            divs = [d for d in range(1, n + 1) if n % d == 0]
            a = c.pick(divs)
            rest = n // a
            if k == 1:
                t = [1, a, rest]
            elif k == 2:
                t = list(x[1][:2]) + [n // x[1][1]]              # begins like the input
            else:
                b = c.pick([d for d in range(1, rest + 1) if rest % d == 0])
                t = [1, a, b, rest // b]
        sp = list(t)
        if c.flip():
            i = c.n(len(t))
            sp[i] = -1
        for i in range(min(len(t), len(x[1]))):
            if sp[i] == x[1][i] and c.chance(1, 4):
                sp[i] = 0
        c.label('Reshape')
        return self.node('Reshape', [x, self.init(np.array(sp, dtype=np.int64), 'shape')], t)

    def layer(self, x, reshape=True):
        """One random layer that fits x."""
        c, r = self.c, len(x[1])
        if r == 2:
            k = c.n(9)
            if k <= 2:
                return self.gemm(x)
            if k == 3:
                return self.matmul(x)
            if k == 4:
                return self.bias_add(x)
            if k == 5:
                return self.softmax(x)
            if k == 6 and reshape:
                return self.reshape(x)
            return self.act(x)
        k = c.n(12)
        if k <= 3:
            return self.conv(x)
        if k <= 5:
            return self.pool(x)
        if k == 6:
            return self.bn(x)
        if k == 7 and (c.chance(1, 2)):
            return self.global_pool(x)
        if k == 8:
            return self.softmax(x)
        if k == 9 and reshape:
            return self.reshape(x)
        if k == 10 and c.chance(1, 3):
            return self.to2d(x)
        return self.act(x)

    def input(self, rank=None):
        c = self.c
        r = rank or c.pick([4, 3, 2, 4])
        sh = {4: lambda: (1, c.int(1, 5), c.int(1, 9), c.int(1, 9)), 3: lambda: (1, c.int(1, 5), c.int(1, 14)), 2: lambda: (1, c.int(1, 20))}[r]()
        if c.chance(1, 30):
            d = [c.int(60, 300), c.int(250, 1100), c.int(1000, 4200), c.int(65530, 66300)][c.pick([0, 1, 2, 1, 0, 3, 2])]
            sh = [1 if d > 5000 else min(q, 3) for q in sh]
            sh[c.int(1, r - 1)] = d
            sh = tuple(sh)
            self.big = self.max_elems = 300000
            c.label('large input')
        n = c.pick(['data', 'input.1', 'in/x:0', '0'])
        self.m.inputs = [(n, sh)]
        return (n, sh)

    def options(self):
        c, m = self.c, self.m
        m.list_inits = not c.chance(1, 3)
        m.raw = c.flip()
        m.batch_param = c.chance(1, 4)
        m.inits_first = False
        m.opset = 9

    def rename(self, new):
        """Other names for values; new: old name -> new name."""
        g = lambda i: new.get(i, i)
        for n in self.m.nodes:
            n.inputs, n.outputs = [g(i) for i in n.inputs], [g(o) for o in n.outputs]
        self.m.inits = type(self.m.inits)((g(k), v) for k, v in self.m.inits.items())

    def related(self, output):
        """Some values get names that begin with the name of the output, of the input or of each other, or differ in case only."""
        c = self.c
        taken = set(self.m.inits) | {i for i, _ in self.m.inputs} | {o for n in self.m.nodes for o in n.outputs}
        stems = [output, output, self.m.inputs[0][0]]
        new = {}
        for v in [o for n in self.m.nodes for o in n.outputs if o != output] + list(self.m.inits):
            if c.flip():
                n = c.pick(stems) + c.pick(['1', '0', 'x', '_', '_2'])
                if c.chance(1, 3):
                    n = (c.pick(list(self.m.inits)) if v in self.m.inits else c.pick(stems)).swapcase()
                if n not in taken:
                    taken.add(n)
                    stems.append(n)
                    new[v] = n
        self.rename(new)
        c.label('related names')

    def loose_ends(self, x):
        """Nodes nothing depends on, among them such that need no more than the shape of a value."""
        c = self.c
        v = x if c.chance(2, 3) else c.pick((getattr(self, 'pool_', None) or [x])[::-1])
        w = self.node('Shape', [v], (len(v[1]),))
        k = c.n(4)
        if k == 1:
            w = self.node('Gather', [w, self.init(np.array(c.n(len(v[1])), dtype=np.int64), 'c')], (), axis=0)
        elif k == 2 and len(v[1]) >= 2:
            y = self.node('Reshape', [v, w], v[1])
            self.node('Relu', [y], v[1])
        elif k == 3 and len(v[1]) >= 2:
            self.node('Relu', [v], v[1])
        c.label('loose end')

    def finish(self, x):
        if self.c.chance(1, 10) and len(x[1]):
            self.loose_ends(x)
        if self.c.chance(1, 6):
            self.related(x[0])
        self.m.output = (x[0], x[1])
        self.options()
        return self.m


def chain(c, lo=1, hi=6):
    b = B(c)
    x = b.input()
    n = c.int(lo, hi)
    if c.chance(1, 50):
        n = c.int(hi, 16 * hi)
        c.label('long chain')
    for _ in range(n):
        x = b.layer(x)
        if np.prod(x[1]) > b.max_elems:
            break
    if len(x[1]) != 2:
        x = b.to2d(x)
        if c.flip():
            x = b.gemm(x)
    if all(n.op == 'Dropout' for n in b.m.nodes):
        x = b.gemm(x)
    return b.finish(x)


def net_input(c, m):
    return {n: rnd(c, s) for n, s in m.inputs}


class Dag(B):
    """Branching graphs over a pool of values."""

    def __init__(self, c):
        B.__init__(self, c)
        self.pool_ = []
        self.turned = set()        # values a Gemm must not read (their transpose would be fused into it)
        self.used = set()

    def some(self, pred):
        l = [t for t in self.pool_ if pred(t)]
        return self.c.pick(l[::-1]) if l else None

    def add(self, t):
        if np.prod(t[1]) <= self.max_elems:
            self.pool_.append(t)
        return t

    def transpose(self, x):
        p = list(range(len(x[1])))
        for i in range(len(p) - 1):
            j = self.c.int(i, len(p) - 1)
            p[i], p[j] = p[j], p[i]
        r = self.node('Transpose', [x], [x[1][i] for i in p], perm=p)
        self.turned.add(r[0])
        self.c.label('Transpose rank %d' % len(p))
        return r

    def squeeze(self, x):
        ones = [i for i, d in enumerate(x[1]) if d == 1]
        keep = [i for i in ones if self.c.flip()] or ones[-1:]
        while len(x[1]) - len(keep) < 1:
            keep = keep[1:]
        if not keep:
            return self.act(x)
        self.c.label('Squeeze')
        return self.node('Squeeze', [x], [d for i, d in enumerate(x[1]) if i not in keep], axes=keep)

    def unsqueeze(self, x):
        k = self.c.int(1, min(2, 4 - len(x[1])))
        n = len(x[1]) + k
        ax = sorted(set(self.c.n(n) for _ in range(k)))
        n = len(x[1]) + len(ax)
        ax = [a for a in ax if a < n]
        if not ax or len(x[1]) + len(ax) != n:
            ax, n = [0], len(x[1]) + 1
        it = iter(x[1])
        self.c.label('Unsqueeze')
        return self.node('Unsqueeze', [x], [1 if i in ax else next(it) for i in range(n)], axes=ax)

    def pad(self, x):
        c, r = self.c, len(x[1])
        p = [0] * (2 * r)
        for i in (range(2, r) if r > 2 else range(r)):
            p[i], p[i + r] = c.n(3), c.n(3)
        c.label('Pad rank %d' % r)
        return self.node('Pad', [x], [x[1][i] + p[i] + p[i + r] for i in range(r)], pads=p, mode='constant', value=c.pick([0.0, 1.5, -2.25]))

    def flatten(self, x):
        ax = self.c.int(0, len(x[1]))
        self.c.label('Flatten axis %d' % ax)
        return self.node('Flatten', [x], (int(np.prod(x[1][:ax])), int(np.prod(x[1][ax:]))), axis=ax)

    def const(self, arr):
        """A small integer tensor as an initializer or as a Constant node."""
        if self.c.flip():
            return self.init(arr, 'c')
        return self.node('Constant', [], arr.shape, value=arr)[0]

    def dyn_reshape(self, x):
        """A reshape whose target is computed from shapes by other nodes."""
        c = self.c
        n = int(np.prod(x[1]))
        r = c.int(2, 4)
        t, rest = [1], n
        for i in range(r - 2):
            d = c.pick([d for d in range(1, rest + 1) if rest % d == 0])
            t.append(d)
            rest //= d
        t.append(rest)
        like = [y for y in self.pool_ if int(np.prod(y[1])) == n and len(y[1]) > 1]
        if like and c.chance(1, 6):
            y = c.pick(like)
            c.label('Reshape to the shape of another value')
            return self.node('Reshape', [x, self.node('Shape', [y], (len(y[1]),))], y[1])
        wild = c.n(r + 1) - 1
        parts = []
        for i, d in enumerate(t):
            src = [(y, q) for y in self.pool_ for q, dd in enumerate(y[1]) if dd == d]
            k = c.n(5)
            if i != wild and k <= 2 and (src or k == 2):
                if k == 2:
                    # out of a table of numbers
                    tab = [c.int(1, 9) for _ in range(c.int(1, 4))]
                    q = c.n(len(tab))
                    tab[q] = d
                    s, m = self.const(np.array(tab, dtype=np.int64)), len(tab)
                    c.label('reshape target from a table')
                else:
                    y, q = c.pick(src)
                    s, m = self.node('Shape', [y], (len(y[1]),)), len(y[1])
                    c.label('reshape target from a shape')
                if c.chance(1, 3):
                    s = self.node('Cast', [s], (m,), to=c.pick([6, 7]))
                vec = c.chance(1, 3)
                if c.chance(1, 4):
                    q -= m
                    c.label('index from the end')
                idx = self.const(np.array([q] if vec else q, dtype=np.int64))
                g = self.node('Gather', [s, idx], (1,) if vec else (), **({'axis': 0} if c.chance(2, 3) else {}))
                p = g if vec else self.node('Unsqueeze', [g], (1,), axes=[0])
                if c.chance(1, 4):
                    p = self.node('Cast', [p], (1,), to=7)
                parts.append(p[0])
            elif parts and c.flip() and isinstance(parts[-1], list):
                parts[-1].append(-1 if i == wild else d)
            elif i != wild and k == 4 and c.flip():
                parts.append(self.node('Unsqueeze', [self.node('Constant', [], (), value=np.array(d, dtype=np.int64))], (1,), axes=[0])[0])
            else:
                parts.append([-1 if i == wild else d])
        if len(parts) > 2 and c.chance(1, 4):
            # joined in two steps
            k = c.int(1, len(parts) - 2)
            a = [p if isinstance(p, str) else self.const(np.array(p, dtype=np.int64)) for p in parts[k:]]
            parts = parts[:k] + [self.node('Concat', a, (0,), axis=0)[0]]
        parts = [p if isinstance(p, str) else self.const(np.array(p, dtype=np.int64)) for p in parts]
        if len(parts) == 1:
            tgt = parts[0]
        else:
            tgt = self.node('Concat', parts, (r,), axis=0)[0]
        c.label('Reshape by computed shape')
        return self.node('Reshape', [x, tgt], t)

    def rows(self, x):
        """Layers for matrices with several rows."""
        k = self.c.n(5)
        if k == 0 and x[0] not in self.turned:
            n = self.c.int(1, 6)
            w = self.share((n, x[1][1]), 'w')
            return self.node('Gemm', [x, w, self.share((n,), 'b')] if self.c.flip() else [x, w], (x[1][0], n), transB=1)
        if k == 1:
            n = self.c.int(1, 6)
            return self.node('MatMul', [x, self.share((x[1][1], n), 'w')], (x[1][0], n))
        if k == 2:
            return self.mul(x)
        if k == 3:
            return self.transpose(x)
        return self.node('Relu', [x], x[1])

    def gemm(self, x):
        return self.matmul(x) if x[0] in self.turned else B.gemm(self, x)

    def act(self, x):
        r = B.act(self, x)
        if self.m.nodes[-1].op == 'Dropout' and x[0] in self.turned:
            self.turned.add(r[0])
        return r

    def step(self):
        c = self.c
        k = c.n(14)
        x = c.pick(self.pool_[::-1])
        batch1 = x[1][0] == 1
        r = len(x[1])
        if k <= 1:
            # values of one shape added up
            y = self.some(lambda t: t[1] == x[1] and t[0] != x[0]) or x
            if len(x[1]) == 1:
                return
            c.label('Add of two values')
            return self.add(self.node('Add', [x, y], x[1]))
        if k <= 3 and r >= 2:
            l = [t for t in self.pool_ if len(t[1]) == r and all(a == b for i, (a, b) in enumerate(zip(t[1], x[1])) if i != 1)]
            ins = [x] + [c.pick(l) for _ in range(c.int(1, 3))]
            if c.flip():
                ins = ins[1:] + ins[:1]
            sh = list(x[1])
            sh[1] = sum(t[1][1] for t in ins)
            c.label('Concat of %d rank %d' % (len(ins), r))
            return self.add(self.node('Concat', ins, sh, axis=1))
        if k == 4 and r in (2, 4):
            return self.add(self.transpose(x))
        if k == 5 and 1 in x[1] and r > 1:
            return self.add(self.squeeze(x))
        if k == 6 and r < 4:
            return self.add(self.unsqueeze(x))
        if k == 7 and r >= 2 and batch1:
            return self.add(self.pad(x))
        if k == 8 and r >= 2:
            return self.add(self.flatten(x))
        if k == 9:
            return self.add(self.dyn_reshape(x))
        if r == 2 and not batch1:
            return self.add(self.rows(x))
        if not batch1 or r == 1:
            return self.add(self.dyn_reshape(x))
        if k == 10 and r >= 3 and x[1][1] <= 100:
            # residual block
            y = x
            for _ in range(c.int(1, 2)):
                kk = [1, 1] if c.flip() else [3, 3]
                kk = kk[:r - 2]
                ch = x[1][1]
                w = self.share((ch, ch) + tuple(kk), 'w')
                y = self.node('Conv', [y, w, self.share((ch,), 'b')], x[1], kernel_shape=kk, strides=[1] * (r - 2), pads=[q // 2 for q in kk] * 2)
                if c.flip():
                    y = self.node('Relu', [y], y[1])
            c.label('residual block')
            return self.add(self.node('Add', [x, y] if c.flip() else [y, x], x[1]))
        if r >= 3 and min(x[1]) < 1:
            return
        return self.add(self.layer(x, reshape=c.flip()))


def dag(c, lo=2, hi=9):
    b = Dag(c)
    b.add(b.input())
    n = c.int(lo, hi)
    if c.chance(1, 40):
        n = c.int(hi, 10 * hi)
        c.label('large graph')
    for _ in range(n):
        b.step()
    # join what nobody reads, so that every branch shows in the output
    read = {i for n in b.m.nodes for i in n.inputs}
    loose = [t for t in b.pool_ if t[0] not in read]
    if not loose:
        loose = [b.pool_[-1]]
    if c.chance(1, 8) and len(loose) > 1:
        loose = loose[:c.int(1, len(loose) - 1)]
        c.label('unused branch')
    flat = [t if len(t[1]) == 2 and t[1][0] == 1 and t[0] not in [i[0] for i in b.m.inputs] else b.to2d_any(t) for t in loose]
    if len(flat) > 1:
        x = b.node('Concat', flat, (1, sum(t[1][1] for t in flat)), axis=1)
    else:
        x = flat[0]
    if c.chance(1, 3):
        x = b.layer(x, reshape=False)
    if all(n.op in ('Dropout', 'Transpose', 'Pad') for n in b.m.nodes):
        x = b.gemm(x)
    return b.finish(x)
