RULE = 'the program evaluated at least two pictures with two different predictions (MNIST), or printed ten different scores (ImageNet)'
QUICK, THOROUGH = 100, 1600
import os
import re
import struct
import subprocess
import numpy as np
import arch
import build
import e2e
import gen
import model
import pbt
from c26 import stats

EX = build.REPO + '/examples/'
KINDS = [('mnist_simple_perceptron', (1, 784)), ('mnist_mlp', (1, 784)), ('lenet', (1, 1, 28, 28)), ('alexnet', (1, 3, 224, 224)), ('vgg', (1, 3, 224, 224))]


def network(c, shape, classes):
    if classes == 10 and c.chance(1, 5) and (len(shape) == 2 or c.chance(1, 8)):
        f = {2: 'mnist_simple_perceptron/mnist_simple_perceptron.onnx', 4: 'lenet/lenet.onnx'}[len(shape)]
        data = open(build.REPO + '/data/' + f, 'rb').read()
        c.text('shipped ' + f)
        c.label('shipped network')
        return model.from_onnx(data), data
    b = arch.Arch(c)
    b.m.inputs = [('data', shape)]
    x = ('data', shape)
    if classes == 1000:
        x = b.mp(x, c.pick([56, 112, 37]), c.pick([56, 40]), 0, c.pick(['AveragePool', 'MaxPool']))
        if c.flip():
            x = b.cv(x, c.int(2, 4), c.pick([1, 3]), p=0)
    elif len(shape) == 4:
        for _ in range(c.int(0, 2)):
            x = b.cv(x, c.int(1, 4), c.pick([3, 5, 1]), c.int(1, 2))
            if c.flip() and x[1][2] > 4:
                x = b.mp(x, 2, 2)
    if len(x[1]) == 4:
        x = b.flat(x)
    for _ in range(c.int(0, 1)):
        x = b.fc(x, c.int(4, 20), True)
    x = b.fc(x, classes)
    if c.flip():
        x = b.node('Softmax', [x], x[1], axis=1)
    m = b.finish(x)
    c.text(m.describe())
    return m, m.to_onnx()


def put(path, data):
    with open(path, 'wb') as f:
        f.write(data)
    return path


def outputs(c, m, o, inputs):
    L, step = [], 100
    ys = []
    for k in range(0, len(inputs), step):
        L = e2e.write_inputs(o.dir, m, [{m.inputs[0][0]: x} for x in inputs[k:k + step]])
        L += ['new 0', 'weights 0 ' + o.weights]
        for i in range(len(inputs[k:k + step])):
            L += ['fresh %d ' % i + build.dims(m.output[1]), 'run 0 %d %d' % (i, i)]
        rc, res, msg = build.run_host(o.dir, L)
        c.check(rc == 0, 'network crashes', 'exit %d\n%s' % (rc, msg[-2500:]))
        ys += [build.floats(l.split(' ')[1]) for l in res if l.startswith('out')][:len(inputs[k:k + step])]
    return ys


# The example programs have defects that are listed in KNOWN_FINDINGS (they count as tests of the repository, which
# are not to be changed).  A case is plain, and avoids all of them, or is in the domain of one of them.
MODES = {3: ['plain'] * 6 + ['paths', 'few', 'digits'], 2: ['plain'] * 5 + ['paths', 'size']}
# Arrays of variable length are padded to 16 bytes; plain cases only use paths for which the padding is enough.
NO_VLA = ['-mllvm', '-asan-instrument-dynamic-allocas=0']


def longer(c, path, mode):
    if not c.chance(1, 5):
        return path
    c.label('long paths')
    k = c.pick([8, 104, 304, 704])
    if mode != 'paths' and len(path) + 2 * k > 1000:
        k = 104
    return os.path.join(os.path.dirname(path), './' * k, os.path.basename(path))


def sane(c, rc, out, what, mode):
    bad = 'Sanitizer' in out or 'runtime error' in out or rc < 0 or rc == 66
    if bad and mode == 'paths' and re.search(r'(dynamic-)?stack-buffer-overflow', out) and re.search(r'#1 \S+ in main ', out) and re.search(r'#0 \S+ in (__interceptor_)?str(cat|cpy)', out):
        c.fail('path buffer overflow', out[-2500:])
    c.check(not bad, 'program crashes', lambda: 'exit %d %s\n%s' % (rc, what, out[-2500:]))


def mnist(c, prog, m, o, mode):
    ds = o.dir + '/' + c.pick(['m', 'MNIST', 'a directory with a longer name'])
    while not 1 <= (len(ds) + 20) % 16 <= 12:
        ds += '_'
    os.makedirs(ds)
    rs = np.random.RandomState(c.seed() & 0x7fffffff)
    if mode == 'few':
        n = c.pick([1, 2, c.int(3, 40), c.int(3, 40), 999])
    else:
        n = c.pick([1000, 1000, 1001, 1100])
    px = rs.randint(0, 256, (n, 28, 28))
    style = c.n(3)
    if style:
        px = px * (rs.uniform(0, 1, (n, 28, 28)) < (0.2 if style == 1 else rs.uniform(0, 1, (n, 1, 1))))
    px = px.astype(np.uint8)
    more = c.chance(1, 6)
    labels = rs.randint(0, 10, n).astype(np.uint8)
    imgs = struct.pack('>4I', 2051, n, 28, 28) + px.tobytes()
    x = (px.astype(np.float32) / np.float32(255)).reshape([n] + list(m.inputs[0][1]))
    ys = outputs(c, m, o, list(x[:1000]))
    pred = [int(np.argmax(y)) for y in ys]
    c.check(len(pred) == min(n, 1000), 'network crashes')
    if c.flip():                       # a good classifier
        for i, p in enumerate(pred):
            if rs.randint(4):
                labels[i] = p
    labs = struct.pack('>2I', 2049, n) + labels.tobytes()
    damage = c.n(4) if c.chance(1, 5) else -1
    weights = o.weights
    what = ''
    if damage == 0:
        weights, what = o.dir + '/nosuchfile', 'missing weights'
    elif damage == 1:
        data = open(weights, 'rb').read()
        weights, what = put(o.dir + '/cut', data[:c.n(len(data))]), 'cut weights'
    elif damage == 2:
        k = c.n(3)
        if k == 0:
            labs = struct.pack('>2I', 2049, n + (n < 1000)) + labs[8:] + b'\1' if n < 1000 else labs[:-n + 5]
        elif k == 1:
            labs = labs[:8 + n // 2] if n <= 1000 else labs[:108]
        else:
            imgs = imgs[:16 + 784 * (min(n, 1000) - 1) + c.n(784)]
        what = ['more labels', 'fewer labels', 'a picture is cut'][k]
    elif damage == 3:
        k = c.n(2)
        imgs, labs = (None, labs) if k == 0 else (imgs, None)
        what = ['no pictures', 'no labels'][k]
    if imgs is not None:
        put(ds + '/t10k-images.idx3-ubyte', imgs)
    if labs is not None:
        put(ds + '/t10k-labels.idx1-ubyte', labs)
    c.text('%s, mode %s, %d pictures %s' % (prog, mode, n, what))
    rc, out = build.run_program(o.dir, prog, [longer(c, weights, mode), longer(c, ds, mode)])
    sane(c, rc, out, what, mode)
    if what:
        c.label(what)
        c.check(rc != 0, 'unusable files accepted', '%s\n%s' % (what, out[-1500:]))
        c.check('Error rate' not in out, 'result in spite of unusable files', '%s\n%s' % (what, out[-1500:]))
        c.nontrivial()
        return
    c.check(rc == 0, 'program fails', 'exit %d\n%s' % (rc, out[-1500:]))
    n = len(pred)
    c.check(stats(c, out, 'program')[0] == n, 'network run another number of times', out[-600:])
    right = sum(p == l for p, l in zip(pred, labels))
    q = re.search(r'Error rate: (\S+) \((\d+)/(\d+)\)', out)
    c.check(q is not None, 'no error rate', out[-1500:])
    c.check((int(q.group(2)), int(q.group(3))) == (right, n), 'wrong number of correct predictions', '%s instead of %d/%d' % (q.group(0), right, n))
    rate = 1 - right / n
    near = abs(float(q.group(1)) - rate) < 1e-4
    rounded = abs(float(q.group(1)) - rate) <= 0.051 * 10 ** np.floor(np.log10(max(rate, 1e-9)) + 1)
    c.check(near or rounded, 'wrong error rate', '%s instead of %g' % (q.group(0), rate))
    c.check(near or mode != 'digits', 'one digit of the error rate', '%s instead of %g' % (q.group(0), rate))
    want = np.zeros((10, 10), int)
    for p, l in zip(pred, labels):
        want[p, l] += 1
    rows = re.findall(r'^(\d)\t((?:\d+\t){10})', out, re.M)
    got = {int(r): [int(v) for v in s.split()] for r, s in rows}
    c.check(sorted(got) == list(range(10)), 'no confusion matrix', out[-1500:])
    got = np.array([got[i] for i in range(10)])
    c.check((got == want).all(), 'wrong confusion matrix', lambda: 'counts\n%s\ninstead of\n%s' % (got, want))
    if n > 1 and len(set(pred)) > 1:
        c.nontrivial()


def imagenet(c, prog, m, o, mode):
    rs = np.random.RandomState(c.seed() & 0x7fffffff)
    w, h = (224, 224) if mode != 'size' else c.pick([(224, 223), (223, 224), (225, 224), (256, 256), (16, 9), (1, 1), (300, 200), (100, 500), (448, 112)])
    comps = 1 if c.chance(1, 6) else 3
    px = rs.randint(0, 256, (h, w, comps))
    if c.flip():
        px = np.broadcast_to(rs.randint(0, 256, (1, 1, comps)) + (np.arange(w)[None, :, None] * rs.uniform(-1, 1) + np.arange(h)[:, None, None] * rs.uniform(-1, 1)), (h, w, comps)).clip(0, 255)
    raw = put(o.dir + '/raw', px.astype(np.uint8).tobytes())
    jpg = o.dir + '/' + c.pick(['a.jpg', 'ILSVRC2012_val_00000001.JPEG'])
    subprocess.run([build.TC['jpeg'], str(w), str(h), str(comps), str(c.pick([95, 50, 100])), raw, jpg, o.dir + '/decoded'], check=True, timeout=200)
    means = rs.uniform(0, 255, 3).astype(np.float32)
    mf = put(o.dir + '/means', b'FD\n' + b''.join(b'%s\n' % float(v).hex().encode() for v in means))
    names = ['n%08d %s' % (rs.randint(10 ** 8), ''.join(chr(97 + rs.randint(26)) for _ in range(rs.choice([1, 5, 40, 150])))) + ' %d' % i for i in range(1000)]
    lf = put(o.dir + '/labels', '\n'.join(names).encode() + (b'\n' if c.flip() else b''))
    args = [o.weights, mf, lf, jpg]
    what = '' if (w, h) == (224, 224) else 'picture of %dx%d' % (w, h)
    if not what and c.chance(1, 5):
        k = c.n(4)
        what = ['weights', 'means', 'labels', 'picture'][k] + ' missing'
        if k < 3 and c.flip():
            data = open(args[k], 'rb').read()
            data, what = (data[:c.n(len(data))], 'weights cut') if k == 0 else (data[:c.int(0, 5)], 'means cut') if k == 1 else ('\n'.join(names[:c.n(1000)]).encode(), 'labels cut')
            args[k] = put(o.dir + '/damaged', data)
        else:
            args[k] = o.dir + '/nosuchfile'
    c.text('%s, mode %s, %dx%d, %d components %s' % (prog, mode, w, h, comps, what))
    rc, out = build.run_program(o.dir, prog, [longer(c, a, mode) for a in args])
    sane(c, rc, out, what, mode)
    if what:
        c.label(what)
        c.check(rc != 0, 'unusable files accepted', '%s\n%s' % (what, out[-1500:]))
        c.check('Prediction' not in out, 'result in spite of unusable files', '%s\n%s' % (what, out[-1500:]))
        c.nontrivial()
        return
    c.check(rc == 0, 'program fails', 'exit %d\n%s' % (rc, out[-1500:]))
    c.check(stats(c, out, 'program')[0] == 1, 'network not run once', out[-600:])
    d = np.frombuffer(open(o.dir + '/decoded', 'rb').read(), np.uint8).reshape(224, 224, 3)
    # planes blue, green, red as the networks of the model zoo were trained
    x = (d.transpose(2, 0, 1)[::-1].astype(np.float32) / np.float32(255)) * np.float32(255) - means[:, None, None]
    y = outputs(c, m, o, [x.reshape(1, 3, 224, 224).astype(np.float32)])[0].astype(np.float64)
    top = re.findall(r'^\[INFO\] (\d+):\t(\S+)\t(.*)$', out, re.M)
    c.check([int(t[0]) for t in top] == list(range(1, 11)), 'no list of ten predictions', out[-1500:])
    best = np.sort(y)[::-1][:10]
    index = {n: i for i, n in enumerate(names)}
    for (_, v, name), b in zip(top, best):
        c.check(abs(float(v) - b) <= 2e-5 * abs(b) + 1e-30, 'wrong score', lambda: 'printed %s, network %s' % ([t[1] for t in top], best))
        c.check(name in index, 'unknown label', name)
        c.check(abs(float(v) - y[index[name]]) <= 2e-5 * abs(y[index[name]]) + 1e-30, 'score of another label', '%s is %s instead of %g' % (name, v, y[index[name]]))
    c.check(len({t[2] for t in top}) == 10, 'a label is listed twice', out[-1500:])
    if len(set(best)) == 10:
        c.nontrivial()


def prop(c):
    k = c.pick([0, 1, 2, 0, 1, 2, 3, 4])
    prog, shape = KINDS[k]
    c.label(prog)
    m, data = network(c, shape, 10 if k < 3 else 1000)
    e2e.save_model(c, m, data)
    o = build.import_model(c.work, data, prog + '.onnx')
    c.check(o.kind == 'generated', 'supported model refused', o.detail)
    mode = c.pick(MODES[3 if k < 3 else 2])
    c.label('mode ' + mode)
    msg = build.compile_network(o.dir) or build.compile_example(o.dir, EX + prog + '.cpp', () if mode == 'paths' else NO_VLA)
    c.check(not msg, 'program does not compile', msg)
    try:
        (mnist if k < 3 else imagenet)(c, prog, m, o, mode)
    except pbt.Violation as v:
        if mode in ('few', 'size') and v.label != 'network crashes':
            raise pbt.Violation({'few': 'fewer than 1000 pictures', 'size': 'picture of another size'}[mode], '%s\n%s' % (v.label, v.detail))
        raise

