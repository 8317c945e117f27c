RULE = 'the network was imported, compiled and loaded, and it has at least two parameter tensors read back and compared'
QUICK, THOROUGH = 1000, 8000
import numpy as np
import arch
import build
import e2e
import gen

PARAM_OPS = ('Conv', 'Gemm', 'MatMul', 'BatchNormalization', 'Add')


class Heavy(gen.B):
    """Chains that consist mostly of layers with parameters, shared more often."""

    def layer(self, x, reshape=True):
        c, r = self.c, len(x[1])
        k = c.n(8)
        if r == 2:
            if k <= 2:
                return self.gemm(x)
            if k <= 4:
                return self.matmul(x)
            if k <= 6:
                return self.bias_add(x)
            return self.mul(x)
        if k <= 3:
            return self.conv(x)
        if k <= 5:
            return self.bn(x)
        if k == 6:
            return gen.B.layer(self, x)
        return self.to2d(x)

    def conv(self, x):
        c = self.c
        if c.flip() or x[1][1] > 100:
            return gen.B.conv(self, x)
        # the same shape all along, so that kernels can be shared
        n, ch = len(x[1]) - 2, x[1][1]
        k = c.pick([1, 3])
        w = self.share((ch, ch) + (k,) * n, 'w')
        ins = [x, w] + ([self.share((ch,), 'b')] if c.flip() else [])
        return self.node('Conv', ins, x[1], kernel_shape=[k] * n, strides=[1] * n, pads=[k // 2] * (2 * n))

    def gemm(self, x):
        c = self.c
        if c.flip() or x[1][1] > 12:
            return gen.B.gemm(self, x)
        n = x[1][1]
        ins = [x, self.share((n, n), c.pick(['w', 'mm']))] + ([self.share((n,), 'b')] if c.flip() else [])
        return self.node('Gemm', ins, (1, n), transB=1)

    def matmul(self, x):
        c = self.c
        if c.flip() or x[1][1] > 12:
            return gen.B.matmul(self, x)
        n = x[1][1]
        return self.node('MatMul', [x, self.share((n, n), c.pick(['mm', 'w']))], (1, n))


def build_model(c):
    b = Heavy(c)
    x = b.input()
    for _ in range(c.int(1, 9)):
        x = b.layer(x)
        if np.prod(x[1]) > b.max_elems:
            break
    if len(x[1]) != 2:
        x = b.to2d(x)
    x = b.gemm(x)
    return b.finish(x)


def wild(c, shape):
    """Any float bit pattern but those of NaN."""
    r = np.random.RandomState(c.seed() & 0x7fffffff)
    u = r.randint(0, 1 << 32, size=shape, dtype=np.uint64).astype(np.uint32)
    k = r.randint(0, 8, size=shape)
    special = np.array([0x80000000, 0x7f800000, 0xff800000, 1, 0x807fffff, 0x7f7fffff, 0x00800000, 0x3f800001], dtype=np.uint32)
    u = np.where(k == 0, special[r.randint(0, 8, size=shape)], u)
    u = np.where((u & 0x7f800000) == 0x7f800000, u & np.uint32(0xff800000), u).astype(np.uint32)
    return u.view(np.float32)


def prop(c):
    m = arch.build(c) if c.chance(1, 6) else build_model(c)
    bits = c.flip()
    if bits:
        for n in list(m.inits):
            if m.inits[n].dtype == np.float32 and m.inits[n].ndim and not any(n in q.inputs for q in m.nodes if q.op == 'Mul'):
                m.inits[n] = wild(c, m.inits[n].shape)
        c.label('any bit patterns')
    c.text(m.describe())
    kernels, biases = [], []
    for n in m.nodes:
        if n.op in PARAM_OPS:
            for i in n.inputs:
                if i in m.inits and i not in kernels and i not in biases:
                    (biases if m.inits[i].ndim == 1 else kernels).append(i)
    uses = [i for n in m.nodes if n.op in PARAM_OPS for i in n.inputs if i in m.inits]
    if len(uses) > len(set(uses)):
        c.label('a tensor used more than once')
    inputs = [gen.net_input(c, m)]
    refs = None if bits else e2e.references(m, inputs)
    data = m.to_onnx()
    e2e.save_model(c, m, data)
    o = build.import_model(c.work, data, m.file_name)
    if o.kind != 'generated':
        c.fail('supported model refused', o.detail)
    msg = build.compile_network(o.dir)
    if msg:
        c.fail('generated code does not compile', msg)
    lines = e2e.write_inputs(o.dir, m, inputs)
    lines += ['new 0', 'weights 0 ' + o.weights, 'params 0 %d %d' % (len(kernels), len(biases))]
    if not bits:
        lines += ['fresh 0 ' + build.dims(m.output[1]), 'run 0 0 0', 'params 0 %d %d' % (len(kernels), len(biases))]
    rc, res, msg = build.run_host(o.dir, lines)
    if rc != 0:
        c.fail('generated weights file refused' if rc == 7 else 'network crashes', 'exit %d\n%s' % (rc, msg[-2500:]))
    want = [('kernel', i) for i in kernels] + [('bias', i) for i in biases]
    got = [l.split(' ') for l in res if l.startswith('kernel') or l.startswith('bias')]
    times = len(got) // max(1, len(want))
    c.check(len(got) == len(want) * times and (times or not want), 'parameter tensors missing', '%d of %d' % (len(got), len(want)))
    for t in range(times):
        for (kind, i), g in zip(want, got[t * len(want):]):
            a = m.inits[i].reshape(-1).view(np.uint32)
            b = build.floats(g[1] if len(g) > 1 else '').view(np.uint32)
            c.check(g[0] == kind and a.size == b.size, 'parameter tensor of another size', '%s: %d values, %d in the model' % (i, b.size, a.size))
            if not (a == b).all():
                k = int(np.argmax(a != b))
                c.fail('parameter differs', '%s: element %d is %08x, %08x in the model (read %d)' % (i, k, b[k], a[k], t))
    if refs:
        outs = [build.floats(l.split(' ')[1]) for l in res if l.startswith('out')]
        for y in outs:
            e2e.compare(c, y, refs[0][0], refs[0][1], 'output')
    # each tensor once in the file
    f = open(o.weights, 'rb').read()
    for i in kernels + biases:
        raw = m.inits[i].tobytes()
        same = sum(m.inits[j].tobytes().count(raw) for j in kernels + biases)
        if len(raw) >= 12 and same == 1 and len(set(m.inits[i].reshape(-1).tolist())) > 2:
            c.check(f.count(raw) == 1, 'tensor not stored exactly once', '%s: %d times' % (i, f.count(raw)))
    if len(want) > 1:
        c.nontrivial()
