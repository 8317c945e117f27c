RULE = 'input and output files were written and read back, both with more than two different values, or an unsupported request was refused'
QUICK, THOROUGH = 2000, 25000
import os
import re
import struct
import numpy as np
import build
import e2e
import gen
from c26 import sane, stats
from c28 import read_back, values
import caffe2.python.onnx.backend as backend
import imageio

SCRIPT = build.REPO + '/util/generate_reference_data.py'


def pgm(c, a):
    h, w = a.shape
    return b'P5\n' + (b'# made by a test\n' if c.flip() else b'') + b'%d %d\n255\n' % (w, h) + a.tobytes()


def wav(c, a, rate):
    n = a.nbytes
    bits = a.itemsize * 8
    return (b'RIFF' + struct.pack('<I', 36 + n) + b'WAVEfmt ' + struct.pack('<IHHIIHH', 16, 1, 1, rate, rate * a.itemsize, a.itemsize, bits) +
            b'data' + struct.pack('<I', n) + a.tobytes())


def size(c, big):
    return c.pick([1, 2, 3, 5, 8, 16, c.int(1, 28), c.int(1, big)])


def source(c, d):
    """(arguments, shape, what the network is to be given or None, file name or None)"""
    kind = c.n(6)
    rs = np.random.RandomState(c.seed() & 0x7fffffff)
    if kind < 3:
        rank = c.pick([4, 4, 3, 2])
        shape = (1,) + {4: lambda: (c.int(1, 4), size(c, 60), size(c, 60)), 3: lambda: (c.int(1, 6), size(c, 400)), 2: lambda: (size(c, 2000),)}[rank]()
        args = []
        lo, hi = 0, 1
        if c.flip():
            lo = c.pick([0, -1, -255, c.int(-1000, 1000)])
            hi = lo + c.pick([1, 2, 255, c.int(1, 2000)])
            args += ['--range', str(lo), str(hi)]
        c.label('random, rank %d' % rank)
        return args, shape, (lo, hi), None
    name = c.pick(['in', 'a.b', 'five words', '9'])
    if kind == 3:
        h, w = size(c, 200), size(c, 200)
        a = rs.randint(0, c.pick([256, 2, 256]), (h, w)).astype(np.uint8)
        data, name, shape = pgm(c, a), name + '.pgm', (1, 1, h, w)
        want = (a.astype(np.float64) / 255.0).astype(np.float32)
        c.label('grey map')
    elif kind == 4:
        h, w, ch = size(c, 120), size(c, 120), c.pick([3, 3, 1])
        a = rs.randint(0, 256, (h, w, ch)).astype(np.uint8)
        if ch == 1:
            a = a[:, :, 0]
        data, name, shape = b'\xff\xd8\xff\xe0' + bytes(rs.randint(0, 256, 40).tolist()), name + c.pick(['.jpg', '.JPEG']), (1, ch, h, w)
        imageio.pictures[name] = a
        want = (a if ch == 1 else a.transpose(2, 0, 1)).astype(np.float32)
        c.label('JPEG, %d channels' % ch)
    else:
        n = c.pick([c.int(1, 40), c.int(2, 4000), 16000])
        a = rs.randint(-32768, 32768, n).astype(np.int16) if c.flip() else rs.randint(0, 256, n).astype(np.uint8)
        if a.max() <= 0:
            a[0] = 1
        data, name = wav(c, a, c.pick([8000, 16000, 44100])), name + '.wav'
        shape = [(1, 1, 1, n), (1, 1, n), (1, n)][c.n(3)]
        f = a.astype(np.float64)
        want = (f / f.max()).astype(np.float32)
        c.label('audio, rank %d' % len(shape))
    with open(d + '/' + name, 'wb') as f:
        f.write(data)
    c.files[name] = data
    return ['--file', c.pick([name, d + '/' + name])], shape, want.reshape(shape), name


def tensor_shape(shape):
    return {2: lambda d: (1, 1, 1, d[1]), 3: lambda d: (d[0], d[1], 1, d[2]), 4: lambda d: d}[len(shape)](shape)


def written(c, dirs):
    got = {}
    for d in set(dirs):
        for f in sorted(os.listdir(d)):
            p = os.path.join(d, f)
            if os.path.isfile(p) and f.endswith('.data'):
                kind = {b'FCI\n': 'input', b'FCO\n': 'output'}.get(open(p, 'rb').read(4))
                c.check(kind is not None, 'file of unknown kind', f)
                c.check(kind not in got, 'two %s files' % kind, f)
                got[kind] = p
    return got


def model_file(c):
    """The model only names the files; what it computes is up to the backend."""
    m = gen.chain(c, 1, 2)
    return m, m.to_onnx()


def refused(c, m, data, d):
    kind = c.n(4)
    args = []
    shape = [1, 1, c.int(1, 9), c.int(1, 9)]
    if kind == 0:
        shape[0] = c.pick([2, 0, 5])
        what = 'batch of %d' % shape[0]
    elif kind == 1:
        shape = c.pick([[1], [1, 1, 1, 2, 2], [1, 1, 2, 1, 1, 1]])
        what = 'rank %d' % len(shape)
    elif kind == 2:
        name, content = c.pick([('a.png', b'\x89PNG\r\n\x1a\n' + b'\0' * 40), ('a.pgm', b'hello world\n'), ('a.wav', b'\0\1\2\3' * 9), ('x.jpg', b'GIF89a..........')])
        with open(d + '/' + name, 'wb') as f:
            f.write(content)
        args = ['--file', name]
        what = 'file %s' % name
    else:
        args = ['--file', 'nosuch.pgm']
        what = 'missing file'
    c.text('refused: ' + what)
    c.label('refused: ' + what.split(' ')[0])

    def run(model, inputs):
        return [np.zeros((1, 3), np.float32)]
    backend.run = run
    with open(d + '/' + m.file_name, 'wb') as f:
        f.write(data)
    log = c.work + '/log'
    rc = build.run_script(SCRIPT, ['--model', m.file_name, '--shape'] + [str(s) for s in shape] + args, d, log)
    out = open(log, errors='replace').read()
    c.check(rc != 0, 'unsupported request accepted', '%s\n%s' % (what, out[-1500:]))
    c.check(not written(c, [d]), 'reference data for an unsupported request', '%s\n%s' % (what, out[-1500:]))
    c.nontrivial()


def workflow(c, d):
    """Model, reference data of it, and the generated reference program agree."""
    m = gen.chain(c, 1, 4)
    shape = m.inputs[0][1]
    c.text(m.describe())
    c.label('whole workflow')
    data = m.to_onnx()
    e2e.save_model(c, m, data)
    given = []

    def run(model, inputs):
        x = np.array(inputs[0])
        x.tofile(c.work + '/given')
        y = e2e.references(m, [{m.inputs[0][0]: x}])[0]
        np.save(c.work + '/errors.npy', y[1])
        return [y[0].astype(np.float32)]
    backend.run = run
    o = build.import_model(c.work, data, m.file_name)
    c.check(o.kind == 'generated', 'supported model refused', o.detail)
    with open(d + '/' + m.file_name, 'wb') as f:
        f.write(data)
    log = c.work + '/log'
    rc = build.run_script(SCRIPT, ['--model', m.file_name, '--seed', str(c.n(1000)), '--range', '-1', '1', '--shape'] + [str(s) for s in shape], d, log)
    out = open(log, errors='replace').read()
    if 'pbt.Discard' in out:
        return
    c.check(rc == 0, 'utility fails', 'exit %d\n%s' % (rc, out[-1500:]))
    got = written(c, [d])
    c.check(set(got) == {'input', 'output'}, 'files missing', '%s\n%s' % (sorted(got), out[-800:]))
    e = np.load(c.work + '/errors.npy')
    msg = build.compile_network(o.dir) or build.compile_program(o.dir, 'reference_input')
    c.check(not msg, 'generated code does not compile', msg)
    rc, out = build.run_program(o.dir, 'reference_input', [o.weights, got['input'], got['output']])
    sane(c, rc, out, 'reference program')
    c.check(stats(c, out, 'reference program')[0] == 1, 'reference program does not run the network', out[-1500:])
    if 4 * e.max() < 0.0004:
        c.check('is almost equal' in out and rc == 0, 'reference data do not fit the network', out[-1500:])
        c.nontrivial()


def prop(c):
    d = c.work + '/' + c.pick(['net', 'models', 'a.b'])
    os.makedirs(d)
    if c.chance(1, 40):
        return workflow(c, d)
    m, data = model_file(c)
    if c.chance(1, 8):
        return refused(c, m, data, d)
    src = c.work + '/src'
    os.makedirs(src)
    args, shape, want, name = source(c, src)
    y, style = values(c, (1, c.pick([2, 10, c.int(1, 60), 1000])))
    c.text('%s %s shape %s, %d outputs (%s), %s' % (m.file_name, ' '.join(a if not a.startswith('/') else a.rsplit('/', 1)[1] for a in args), shape, y.shape[1], style,
                                          'file' if name else 'random'))
    calls = c.work + '/calls'

    def run(model, inputs):
        with open(calls, 'a') as f:
            f.write('%d %s %d\n' % (len(inputs), inputs[0].dtype, model.SerializeToString() == data))
        np.save(c.work + '/given.npy', np.asarray(inputs[0]))
        return [y]
    backend.run = run
    with open(d + '/' + m.file_name, 'wb') as f:
        f.write(data)
    if c.flip():
        args += ['--seed', str(c.pick([0, 1, c.n(100000), c.n(100000), 2 ** 32 - 1]))]
    cwd, mpath = (d, m.file_name) if name is None and c.flip() else (src, c.pick([d + '/' + m.file_name, '../' + os.path.basename(d) + '/' + m.file_name]))
    args = ['--model', mpath, '--shape'] + [str(s) for s in shape] + args
    log = c.work + '/log'
    prev = None
    for again in range(2 if '--seed' in args else 1):
        if os.path.exists(calls):
            os.unlink(calls)
        rc = build.run_script(SCRIPT, args, cwd, log)
        out = open(log, errors='replace').read()
        c.check(rc == 0, 'utility fails', 'exit %d\n%s' % (rc, out[-1500:]))
        c.check(os.path.exists(calls), 'model not run', out[-800:])
        told = open(calls).read().split('\n')[:-1]
        c.check(len(told) == 1, 'model run several times', told)
        k, dtype, same = told[0].split(' ')
        c.check(k == '1' and dtype == 'float32' and same == '1', 'model not run on one float32 input', told)
        given = np.load(c.work + '/given.npy')
        c.check(given.shape == tuple(shape), 'input of another shape', '%s instead of %s' % (given.shape, shape))
        if name is None:
            c.check((given >= want[0]).all() and (given <= want[1]).all(), 'random values outside the range', '%s..%s instead of %s..%s' % (given.min(), given.max(), want[0], want[1]))
            c.check(given.size < 8 or len(np.unique(given)) > 2, 'random values are not random', given.reshape(-1)[:10])
        else:
            bad = ~(np.abs(given.astype(np.float64) - want) <= 1e-6 * np.abs(want))
            c.check(not bad.any(), 'the network is not given the content of the file', lambda: 'element %s is %r instead of %r' % (
                np.argwhere(bad)[0], given[bad][0], want[bad][0]))
        got = written(c, [src, d])
        c.check(set(got) == {'input', 'output'}, 'files missing', '%s\n%s' % (sorted(got), out[-800:]))
        for kind, a, s in (('input', given, tensor_shape(shape)), ('output', y, y.shape)):
            b, msg = read_back(got[kind], kind, s)
            c.check(b is not None, '%s file is not accepted' % kind, '%s\n%s' % (s, msg[-1200:]))
            p, q = np.ascontiguousarray(a).reshape(-1).view(np.uint32), b.view(np.uint32)
            if p.size != q.size or (p != q).any():
                i = int(np.argmax(p != q)) if p.size == q.size else -1
                c.fail('%s file differs' % kind, 'element %d of %s: file %s, network %s' % (i, s, b[max(0, i):][:8], a.reshape(-1)[max(0, i):][:8]))
        now = [open(got[k], 'rb').read() for k in ('input', 'output')]
        c.check(prev is None or prev == now, 'another result with the same seed')
        prev = now
    if len(np.unique(given)) > 2 and len(set(y.reshape(-1).view(np.uint32).tolist())) > 2:
        c.nontrivial()
