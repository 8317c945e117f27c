"""Scaled-down versions of the architectures people import: structure as published, sizes and details drawn."""
import numpy as np
import gen


class Arch(gen.Dag):
    def __init__(self, c):
        gen.Dag.__init__(self, c)
        self.density = c.pick([0.3, 1.0, 0.15])
        self.clip6 = c.chance(1, 3)
        self.with_bn = c.flip()
        self.eps = c.pick([1e-3, 1e-5])

    def weights(self, *shape):
        r = np.random.RandomState(self.c.seed() & 0x7fffffff)
        fan = max(1, int(np.prod(shape[1:])))
        a = r.normal(0, 1, shape) * (r.uniform(0, 1, shape) < self.density)
        flat = a.reshape(shape[0], -1)
        for i in range(shape[0]):
            flat[i, r.randint(fan)] += 0.7
        return self.init((a / np.sqrt(1 + fan * self.density)).astype(np.float32), 'w')

    def vec(self, n, lo=-0.5, hi=0.5):
        r = np.random.RandomState(self.c.seed() & 0x7fffffff)
        return self.init(r.uniform(lo, hi, n).astype(np.float32), 'b')

    def cv(self, x, oc, k, s=1, p=None, g=1, act=True, bn=None, bias=None):
        n = len(x[1]) - 2
        k = list(k) if isinstance(k, (list, tuple)) else [k] * n
        s = list(s) if isinstance(s, (list, tuple)) else [s] * n
        p = [q // 2 for q in k] * 2 if p is None else [p] * 2 * n if isinstance(p, int) else p
        out = [(x[1][2 + i] + p[i] + p[i + n] - k[i]) // s[i] + 1 for i in range(n)]
        bn = self.with_bn if bn is None else bn
        ins = [x, self.weights(oc, x[1][1] // g, *k)]
        if (not bn if bias is None else bias):
            ins.append(self.vec(oc))
        y = self.node('Conv', ins, [1, oc] + out, kernel_shape=k, strides=s, pads=p, group=g, dilations=[1] * n)
        if bn:
            y = self.node('BatchNormalization', [y, self.vec(oc, 0.5, 1.5), self.vec(oc), self.vec(oc), self.vec(oc, 0.3, 1.5)], y[1], epsilon=self.eps, momentum=0.9)
        return self.relu(y) if act else y

    def relu(self, x):
        if self.clip6:
            return self.node('Clip', [x], x[1], min=0.0, max=6.0)
        return self.node('Relu', [x], x[1])

    def mp(self, x, k, s, p=0, op='MaxPool'):
        n = len(x[1]) - 2
        out = [(d + 2 * p - k) // s + 1 for d in x[1][2:]]
        at = {'count_include_pad': self.c.n(2)} if op == 'AveragePool' and self.c.flip() else {}
        return self.node(op, [x], list(x[1][:2]) + out, kernel_shape=[k] * n, strides=[s] * n, pads=[p] * 2 * n, **at)

    def cat(self, xs):
        return self.node('Concat', xs, [1, sum(t[1][1] for t in xs)] + list(xs[0][1][2:]), axis=1)

    def plus(self, x, y):
        return self.node('Add', [x, y] if self.c.flip() else [y, x], x[1])

    def fc(self, x, n, act=False):
        if self.c.chance(1, 4):
            y = self.node('MatMul', [x, self.wt(x[1][1], n)], (1, n))
            y = self.node('Add', [y, self.vec(n)], y[1])
        else:
            y = self.node('Gemm', [x, self.weights(n, x[1][1]), self.vec(n)], (1, n), transB=1, alpha=1.0, beta=1.0)
        return self.relu(y) if act else y

    def wt(self, a, b):
        n = self.weights(b, a)
        self.m.inits[n] = np.ascontiguousarray(self.m.inits[n].T)
        return n

    def flat(self, x):
        c, n = self.c, int(np.prod(x[1]))
        if c.chance(1, 3):             # x.view(x.size(0), -1)
            s = self.node('Shape', [x], (len(x[1]),))
            g = self.node('Gather', [s, self.const(np.array(0, dtype=np.int64))], (), axis=0)
            u = self.node('Unsqueeze', [g], (1,), axes=[0])
            t = self.node('Concat', [u, self.const(np.array([-1], dtype=np.int64))], (2,), axis=0)
            self.c.label('Reshape by computed shape')
            return self.node('Reshape', [x, t], (1, n))
        return self.to2d(x)

    def head(self, x, k):
        """Global pooling, classifier."""
        c = self.c
        h = c.n(4)
        if h == 0:                     # squeezenet: class scores by 1x1 convolution
            x = self.cv(x, k, 1, bn=False)
            x = self.flat(self.node('GlobalAveragePool', [x], list(x[1][:2]) + [1] * (len(x[1]) - 2)))
        else:
            if h == 1 and len(set(x[1][2:])) == 1:
                x = self.mp(x, x[1][2], x[1][2], 0, 'AveragePool')
            else:
                x = self.node('GlobalAveragePool', [x], list(x[1][:2]) + [1] * (len(x[1]) - 2))
            x = self.flat(x)
            if c.chance(1, 4):
                x = self.node('Dropout', [x], x[1], ratio=0.2)
            x = self.fc(x, k)
        return self.node('Softmax', [x], x[1], axis=1) if c.flip() else x


def lenet(b, c):
    x = b.image(c.pick([1, 3]), c.int(12, 20))
    x = b.mp(b.cv(x, c.int(2, 6), 5, 1, c.pick([0, 2]), bn=False), 2, 2)
    if c.flip():
        x = b.mp(b.cv(x, c.int(2, 8), 3, 1, c.pick([0, 1]), bn=False), 2, 2)
    x = b.fc(b.flat(x), c.int(8, 30), True)
    return b.fc(x, c.int(2, 10))


def alexnet(b, c):
    x = b.image(3, c.int(19, 31))
    x = b.cv(x, 4, c.pick([5, 7]), c.pick([2, 3]), c.n(3), bn=False)
    lrn = c.flip()
    if lrn:
        x = b.node('LRN', [x], x[1], size=c.pick([3, 5]), alpha=c.pick([1e-4, 0.3]), beta=0.75, bias=c.pick([1.0, 2.0]))
    x = b.mp(x, 3, 2)
    x = b.cv(x, c.pick([4, 6, 8]), 3, g=2, bn=False)
    x = b.cv(x, 4, 3, g=c.pick([1, 2]), bn=False)
    if min(x[1][2:]) >= 3:
        x = b.mp(x, 3, 2)
    x = b.flat(x)
    for _ in range(c.int(0, 2)):
        if c.flip():
            x = b.node('Dropout', [x], x[1], ratio=0.5)
        x = b.fc(x, c.int(6, 20), True)
    x = b.fc(x, c.int(2, 10))
    return b.node('Softmax', [x], x[1], axis=1) if c.flip() else x


def vgg(b, c):
    x = b.image(3, c.pick([8, 9, 12, 16]))
    for i in range(c.int(1, 3)):
        for _ in range(c.int(1, 2)):
            x = b.cv(x, 3 + i, 3)
        x = b.mp(x, 2, 2)
    x = b.fc(b.flat(x), c.int(4, 16), True)
    return b.fc(x, c.int(2, 10))


def resnet(b, c):
    x = b.cv(b.image(c.pick([1, 3]), c.int(9, 17)), 4, 3, c.int(1, 2))
    for i in range(c.int(1, 3)):
        s = c.pick([1, 2]) if min(x[1][2:]) > 2 else 1
        oc = x[1][1] if s == 1 and c.flip() else c.int(2, 6)
        y = b.cv(x, oc, 3, s)
        if c.flip():
            y = b.cv(y, oc, 3, act=False)
        sc = x if s == 1 and oc == x[1][1] else b.cv(x, oc, 1, s, act=False)
        x = b.plus(y, sc)
        if c.flip():
            x = b.relu(x)
    return b.head(x, c.int(2, 10))


def mobilenet(b, c):
    x = b.cv(b.image(3, c.int(9, 17)), 3, 3, 2)
    for _ in range(c.int(1, 3)):
        e = c.int(1, 3)
        s = c.pick([1, 1, 2]) if min(x[1][2:]) > 1 else 1
        oc = x[1][1] if s == 1 and c.chance(2, 3) else c.int(2, 5)
        y = b.cv(x, x[1][1] * e, 1) if e > 1 else x
        y = b.cv(y, y[1][1], 3, s, g=y[1][1])
        y = b.cv(y, oc, 1, act=False)
        x = b.plus(x, y) if s == 1 and oc == x[1][1] else y
    return b.head(x, c.int(2, 10))


def inception(b, c):
    x = b.cv(b.image(3, c.int(7, 12)), 4, 3, c.int(1, 2))
    for _ in range(c.int(1, 2)):
        br = [b.cv(x, c.int(1, 3), 1), b.cv(b.cv(x, 2, 1), c.int(1, 3), 3)]
        if c.flip():
            br.append(b.cv(b.cv(b.cv(x, 2, 1), 3, [1, c.pick([3, 5])]), c.int(1, 3), [c.pick([3, 5]), 1]))
        if c.flip():
            br.append(b.cv(b.mp(x, 3, 1, 1, c.pick(['MaxPool', 'AveragePool'])), c.int(1, 2), 1))
        if c.flip():                   # two outputs of one stem
            t = b.cv(x, 2, 1)
            br += [b.cv(t, 2, [1, 3]), b.cv(t, 2, [3, 1])]
        x = b.cat(br)
    if c.flip() and min(x[1][2:]) >= 3:
        x = b.cat([b.mp(x, 3, 2), b.cv(x, 3, 3, 2, 0)])
    return b.head(x, c.int(2, 8))


def inception_resnet(b, c):
    x = b.cv(b.image(3, c.int(6, 10)), 4, 3, c.int(1, 2))
    f = np.float32(c.pick([0.17, 0.1, 0.2]))
    for _ in range(c.int(1, 3)):
        y = b.cat([b.cv(x, 2, 1), b.cv(b.cv(x, 2, 1), 2, c.pick([3, [1, 3]]))])
        y = b.cv(y, x[1][1], 1, act=False, bn=False)
        y = b.node('Mul', [y, b.init(np.full(c.pick([(), (1,)]), f, dtype=np.float32), 'f')], y[1])
        x = b.plus(x, y)
        if c.flip():
            x = b.relu(x)
    return b.head(x, c.int(2, 8))


def densenet(b, c):
    x = b.cv(b.image(c.pick([1, 3]), c.int(5, 9)), 3, 3)
    for _ in range(c.int(1, 4)):
        x = b.cat([x, b.cv(x, 2, 3)])
    x = b.mp(b.cv(x, 3, 1), 2, 2, 0, 'AveragePool')
    return b.head(x, c.int(2, 8))


def squeezenet(b, c):
    x = b.mp(b.cv(b.image(3, c.int(11, 17)), 4, 3, 2, 0, bn=False), 3, 2)
    for _ in range(c.int(1, 2)):
        s = b.cv(x, c.int(1, 3), 1, bn=False)
        x = b.cat([b.cv(s, c.int(2, 4), 1, bn=False), b.cv(s, c.int(2, 4), 3, bn=False)])
    if c.flip():
        x = b.node('Dropout', [x], x[1], ratio=0.5)
    return b.head(x, c.int(2, 8))


def tcresnet(b, c):
    x = b.signal(c.pick([1, 4, 8]), c.int(16, 40))
    x = b.cv(x, 4, 3, 1, bn=False)
    for _ in range(c.int(1, 3)):
        s = c.pick([1, 2])
        oc = x[1][1] if s == 1 else c.int(3, 6)
        k = c.pick([3, 5, 9])
        y = b.cv(b.cv(x, oc, k, s), oc, k, 1, act=False) if c.flip() else b.cv(x, oc, k, s, act=False)
        x = b.plus(y, x if s == 1 else b.cv(x, oc, 1, s, act=c.flip()))
        x = b.relu(x)
    h = c.n(3)
    if h == 0:
        return b.head(x, c.int(2, 12))
    x = b.mp(x, x[1][2], 1, 0, 'AveragePool')
    if h == 1:
        x = b.node('Dropout', [x], x[1], ratio=0.5)
        x = b.cv(x, c.int(2, 12), 1, bn=False, act=False)
        x = b.flat(x)
        return b.node('Softmax', [x], x[1], axis=1) if c.flip() else x
    return b.fc(b.flat(x), c.int(2, 12))


def mlp(b, c):
    x = b.image(1, c.int(4, 8)) if c.flip() else b.row(c.int(5, 60))
    if len(x[1]) == 4:
        x = b.flat(x)
    for _ in range(c.int(0, 3)):
        x = b.fc(x, c.int(4, 40), True)
    x = b.fc(x, c.int(2, 10))
    return b.node('Softmax', [x], x[1], axis=1) if c.flip() else x


NETS = [lenet, resnet, mobilenet, inception, tcresnet, alexnet, vgg, squeezenet, inception_resnet, densenet, mlp]


def build(c):
    b = Arch(c)

    def start(shape):
        n = c.pick(['data', 'input.1', 'x:0', '0'])
        b.m.inputs = [(n, shape)]
        return (n, shape)
    b.image = lambda ch, d: start((1, ch, d, d if c.chance(3, 4) else d + c.int(1, 3)))
    b.signal = lambda ch, d: start((1, ch, d))
    b.row = lambda d: start((1, d))
    f = c.pick(NETS)
    c.label('architecture: ' + f.__name__)
    x = f(b, c)
    return b.finish(x)
