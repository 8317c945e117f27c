RULE = 'the reference program was run at least twice and reported both agreement and differing positions, or the dummy program ran the network at least twice'
QUICK, THOROUGH = 700, 6000
import os
import re
import struct
import numpy as np
import build
import e2e
import arch
import gen
from c22 import shapes_known

POS = re.compile(r'row:?\s*(\d+)\D+?col:?\s*(\d+)')


def fci(shape, a):
    s = {2: lambda d: (1, 1, d[0], d[1]), 3: lambda d: (d[0], d[1], 1, d[2]), 4: lambda d: d}[len(shape)](tuple(shape))
    return b'FCI\n' + struct.pack('<4i', *s) + a.astype('<f4').tobytes() + b'end\n'


def fco(a):
    a = np.asarray(a, dtype='<f4')
    return b'FCO\n' + struct.pack('<2i', 1, a.size) + a.tobytes() + b'end\n'


def put(path, data):
    with open(path, 'wb') as f:
        f.write(data)
    return path


def stats(c, out, what):
    m = re.search(r'PROG runs (\d+) outside (\d+) changed (\d+) kept (-?\d+)', out)
    c.check(m is not None, what + ' crashes', out[-2500:])
    return [int(v) for v in m.groups()]


def sane(c, rc, out, what):
    c.check('Sanitizer' not in out and 'runtime error' not in out and rc >= 0 and rc != 66, what + ' crashes', lambda: 'exit %d\n%s' % (rc, out[-2500:]))


def perturbed(c, o):
    """A reference for the output o and the positions where it is away from it."""
    r, away = o.astype(np.float64), set()
    style = c.n(4)
    label = ['everything', 'one element', 'some elements', 'same bits'][style]
    if style == 3:
        c.label('reference: the output itself')
        return o.copy(), away
    rs = np.random.RandomState(c.seed() & 0x7fffffff)
    idx = range(o.size) if style == 0 else [c.n(o.size)] if style == 1 else [i for i in range(o.size) if rs.randint(2)]
    kind = c.n(5)
    for i in idx:
        k = kind if kind < 4 else rs.randint(0, 4)
        sign = rs.choice([-1, 1])
        d = [0.0002, 0.00095, 0.0011, 0.004][k] if kind < 4 or rs.randint(3) else 10.0 ** rs.uniform(-5, 4)
        if style == 1 and c.chance(1, 6):
            r[i] = [np.nan, np.inf, -np.inf][c.n(3)]
        else:
            r[i] += sign * d
    r = r.astype(np.float32)
    for i in range(o.size):
        with np.errstate(all='ignore'):
            d = abs(float(o[i]) - float(r[i]))
        if 0.00098 < d < 0.00102:
            r[i] = o[i]
        elif not d <= 0.001:
            away.add(i)
    c.label('reference: %s %s' % (label, 'away' if away else 'near'))
    return r, away


def ruin(c, data, kind):
    """A damaged file."""
    k = c.n(5)
    if k == 0:
        return None, 'missing'
    if k == 1:
        n = c.n(len(data))
        return data[:n], 'cut to %d of %d bytes' % (n, len(data))
    if k == 2:
        i = c.n(4)
        return data[:i] + bytes([data[i] ^ (1 << c.n(8))]) + data[i + 1:], 'other magic'
    if k == 3:
        return b'FCO\n' + data[4:] if kind == 'input' else b'FCI\n' + data[4:], 'the other kind of file'
    i = 4 + 4 * c.n(4 if kind == 'input' else 2)
    v = struct.unpack_from('<i', data, i)[0]
    w = max(0, v + c.pick([1, -1, 2]))
    if kind == 'input' and i > 4:
        # a complete file for another shape
        s = list(struct.unpack_from('<4i', data, 4))
        s[(i - 4) // 4] = w
        return b'FCI\n' + struct.pack('<4i', *s) + b'\0' * (4 * int(np.prod(s))) + b'end\n', 'shape %s' % s
    if kind == 'output' and i == 8:
        return fco(np.zeros(w)), '%d outputs' % w
    return data[:i] + struct.pack('<i', w) + data[i + 4:], 'size %d instead of %d' % (w, v)


def reference(c, m, o, kin, y, outs):
    """Runs the reference program on one input with several references."""
    saw = set()
    ip = put(o.dir + '/ref_in.data', fci(m.inputs[0][1], kin))
    cols = m.output[1][1]
    for _ in range(c.int(2, 3)):
        r, away = perturbed(c, y)
        rp = put(o.dir + '/ref_out.data', fco(r))
        c.text('reference with %d of %d away' % (len(away), y.size))
        args = [o.weights, ip, rp]
        if c.chance(1, 5):
            # the same files by long paths
            args = [os.path.join(os.path.dirname(a), './' * c.pick([300, 700]), os.path.basename(a)) for a in args]
            c.label('long paths')
        rc, out = build.run_program(o.dir, 'reference_input', args)
        sane(c, rc, out, 'reference program')
        runs, _, _, kept = stats(c, out, 'reference program')
        good, bad = 'is almost equal' in out, 'is not almost equal' in out
        c.check(runs == 1, 'reference program does not run the network once', '%d runs\n%s' % (runs, out[-1500:]))
        c.check(good != bad, 'no verdict', out[-1500:])
        c.check(good == (not away), 'wrong verdict', lambda: 'reports %s, %d positions away: %s\noutput %s\nreference %s\n%s' % (
            'agreement' if good else 'difference', len(away), sorted(away)[:6], y[sorted(away) or slice(0, 8)][:8], r[sorted(away) or slice(0, 8)][:8], out[-800:]))
        named = {int(a) * cols + int(b) for a, b in POS.findall(out)}
        c.check(named == away, 'wrong positions named', lambda: 'named %s, away %s\n%s' % (sorted(named)[:12], sorted(away)[:12], out[-800:]))
        if good:
            c.check(rc == 0, 'agreement reported with failure status', 'exit %d' % rc)
        c.check(kept == 0, 'reference program does not release its memory', '%d bytes' % kept)
        saw.add(good)
    # damaged files
    for _ in range(c.int(1, 2)):
        which = c.n(3)
        args, data = [o.weights, ip, put(o.dir + '/ref_out.data', fco(y))], None
        src = open(args[which], 'rb').read()
        if which == 0:
            n = c.n(len(src))
            data, how = (None, 'missing') if c.flip() else (src[:n], 'cut to %d of %d bytes' % (n, len(src)))
            if not any(n.op in ('Conv', 'Gemm', 'MatMul', 'BatchNormalization') for n in m.nodes) and data is not None:
                continue
        else:
            data, how = ruin(c, src, ['', 'input', 'output'][which])
        p = o.dir + '/damaged'
        if os.path.exists(p):
            os.unlink(p)
        if data is not None:
            put(p, data)
        args[which] = p
        what = '%s file %s' % (['weights', 'input', 'output'][which], how)
        c.text(what)
        c.label('damaged %s file' % ['weights', 'input', 'output'][which])
        rc, out = build.run_program(o.dir, 'reference_input', args)
        sane(c, rc, out, 'reference program')
        c.check(rc != 0, 'damaged file accepted', '%s: exit 0\n%s' % (what, out[-1500:]))
        c.check('almost equal' not in out, 'verdict in spite of a damaged file', '%s\n%s' % (what, out[-1500:]))
    return len(saw) == 2


def dummy(c, m, o):
    runs, once = c.int(0, 6), c.n(2)
    c.text('dummy program %d %d' % (runs, once))
    w = o.weights
    if c.chance(1, 5):
        w = os.path.join(os.path.dirname(w), './' * 700, os.path.basename(w))
        c.label('long paths')
    rc, out = build.run_program(o.dir, 'dummy_input', [w, str(runs), str(once)])
    sane(c, rc, out, 'dummy program')
    c.check(rc == 0, 'dummy program fails', 'exit %d\n%s' % (rc, out[-1500:]))
    n, outside, changed, kept = stats(c, out, 'dummy program')
    c.check(n == runs, 'another number of runs', '%d instead of %d' % (n, runs))
    c.check(outside == 0, 'inputs outside [0, 1]', '%d values' % outside)
    c.check(not once or changed == 0, 'input changes although generated once', '%d values' % changed)
    c.check(kept == 0, 'dummy program does not release its memory', '%d bytes' % kept)
    if c.chance(1, 3):
        src = open(o.weights, 'rb').read()
        k = c.n(3)
        if k == 0:
            args = [o.dir + '/nosuchfile', '1', '0']
        elif k == 1:
            if not any(n.op in ('Conv', 'Gemm', 'MatMul', 'BatchNormalization') for n in m.nodes):
                return runs >= 2
            args = [put(o.dir + '/cut', src[:c.n(len(src))]), '1', '0']
        else:
            args = [o.weights, '1', '0', 'x'][:c.pick([0, 1, 2, 4])]
        rc, out = build.run_program(o.dir, 'dummy_input', args)
        sane(c, rc, out, 'dummy program')
        c.check(rc != 0, 'dummy program accepts wrong arguments', '%s\n%s' % (k, out[-1500:]))
        c.check(stats(c, out, 'dummy program')[0] == 0, 'network run without weights')
    return runs >= 2


TREE = None


def prepare():
    global TREE
    TREE = build.project_tree()


def by_makefile(c, m, o, kin, y, err):
    """Built with optimisation by the generated Makefile, as documented: same verdicts."""
    d, msg = build.make_program(TREE, c.work, o.dir, 'reference_input')
    c.check(not msg, 'generated Makefile does not build the reference program', msg)
    c.label('built by the generated Makefile')
    ip = put(d + '/ref_in.data', fci(m.inputs[0][1], kin))
    if 8 * err.max() > 0.0009:
        return
    for k in range(2):
        r = y.astype(np.float64)
        if k:
            i = c.n(y.size)
            r[i] += c.pick([0.01, -0.01, 5.0])
        r = r.astype(np.float32)
        away = not np.abs(r.astype(np.float64) - y).max() <= 0.003
        if not away and (r != y).any():
            continue
        rp = put(d + '/ref_out.data', fco(r))
        rc, out = build.run_program(d, 'reference_input', ['network.weights.bin', ip, rp])
        c.check(('is almost equal' in out) == (not away) and ('is not almost equal' in out) == away and (away or rc == 0),
                'wrong verdict of the optimised program', lambda: 'away: %s, exit %d\n%s' % (away, rc, out[-1200:]))


def prop(c):
    strict = True
    if c.chance(1, 10):
        m = arch.build(c)
    elif c.n(3) == 2:
        m = gen.dag(c, 2, 6)
        strict = shapes_known(m)
    else:
        m = gen.chain(c, 1, 5)
    c.text(m.describe())
    inputs = [gen.net_input(c, m)]
    refs = e2e.references(m, inputs)
    data = m.to_onnx()
    e2e.save_model(c, m, data)
    o = build.import_model(c.work, data, m.file_name)
    if o.kind != 'generated':
        if strict:
            c.fail('supported model refused', o.detail)
        return
    if c.n(5) < 3:
        msg = build.compile_network(o.dir) or build.compile_program(o.dir, 'reference_input')
        c.check(not msg, 'generated code does not compile', msg)
        L = e2e.write_inputs(o.dir, m, inputs)
        L += ['new 0', 'weights 0 ' + o.weights, 'fresh 0 ' + build.dims(m.output[1]), 'run 0 0 0']
        rc, res, msg = build.run_host(o.dir, L)
        c.check(rc == 0, 'network crashes', 'exit %d\n%s' % (rc, msg[-2500:]))
        y = [build.floats(l.split(' ')[1]) for l in res if l.startswith('out')][0]
        e2e.compare(c, y, refs[0][0], refs[0][1], 'output')
        if TREE and c.chance(1, 15):
            by_makefile(c, m, o, inputs[0][m.inputs[0][0]].reshape(-1), y, refs[0][1])
        ok = reference(c, m, o, inputs[0][m.inputs[0][0]].reshape(-1), y, refs)
    else:
        msg = build.compile_program(o.dir, 'dummy_input')
        c.check(not msg, 'generated code does not compile', msg)
        ok = dummy(c, m, o)
    if ok:
        c.nontrivial()
