RULE = 'at least two kinds of rewriting were applied, both models were imported, compiled, loaded and run, and some output varies by more than 50 tolerances'
QUICK, THOROUGH = 700, 6000
import os
import subprocess
import sys
import numpy as np
import build
import e2e
import arch
import gen
import model
from c21 import shipped
from c22 import shapes_known
from onnx import TensorProto

FIRST = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
REST = FIRST + '0123456789_./:'


def names(c, count, digits):
    """Names which stay distinct when the importer turns them into identifiers."""
    out, seen = [], set()
    style = c.n(4)
    while len(out) < count:
        k = len(out)
        if style == 0:
            n = ''.join(c.pick(REST) if i else c.pick(FIRST + '0123456789' if digits else FIRST) for i in range(c.int(1, 6)))
        elif style == 1:
            n = 'scope_%d/sub.%d/x:%d' % (k % 3, k % 7, k)
        elif style == 2:
            n = ('1' if digits else 'n') + '%d' % (1000 - k)
        else:
            n = 'v' * c.pick([1, 40, 120, 300]) + '.%d' % k
        ident = n.replace('.', '_').replace('/', '_').replace(':', '_')
        if ident in seen or ident.startswith(('input_', 'output_', 'buffer_', 'kernel_', 'bias_', 'inputs_')):
            n, ident = n + 'z%d' % k, ident + 'z%d' % k
        if ident in seen:
            continue
        seen.add(ident)
        out.append(n)
    return out


def rename(c, m):
    ts = [i[0] for i in m.inputs] + list(m.inits) + [o for n in m.nodes for o in n.outputs]
    new = dict(zip(ts, names(c, len(ts), True)))
    m.inputs = [(new[n], s) for n, s in m.inputs]
    m.inits = {new[k]: v for k, v in m.inits.items()}
    m.output = (new[m.output[0]], m.output[1])
    m.value_info = {new[k]: v for k, v in m.value_info.items()}
    if isinstance(m.raw, dict):
        m.raw = {new[k]: v for k, v in m.raw.items()}
    for n in m.nodes:
        n.inputs, n.outputs = [new.get(i, i) for i in n.inputs], [new[o] for o in n.outputs]


def rename_nodes(c, m):
    kind = c.n(3)
    nn = names(c, len(m.nodes), False)
    used = {n.op + '_'.join(n.outputs) for n in m.nodes}
    for n, a in zip(m.nodes, nn):
        n.name = '' if kind == 0 or (kind == 1 and c.flip()) else a
        if n.name in used:
            n.name += 'q'


def reorder_inits(c, m):
    k = list(m.inits)
    for i in range(len(k) - 1):
        j = c.int(i, len(k) - 1)
        k[i], k[j] = k[j], k[i]
    m.inits = {n: m.inits[n] for n in k}


def listing(c, m):
    m.list_inits = not m.list_inits
    m.inits_first = c.flip()


def listing_first(c, m):
    m.list_inits = m.inits_first = True


def node_order(c, m):
    """Another order in which every node comes after what it reads."""
    done = {i[0] for i in m.inputs} | set(m.inits) | {''}
    todo, out = list(m.nodes), []
    late = c.flip()
    while todo:
        ready = [n for n in todo if all(i in done for i in n.inputs)]
        n = ready[-1] if late else c.pick(ready)
        todo.remove(n)
        out.append(n)
        done.update(n.outputs)
    m.nodes = out


def encoding(c, m):
    m.raw = {n: c.flip() for n in m.inits}


def infos(c, m, env):
    for n in m.nodes:
        for o in n.outputs:
            if o != m.output[0] and o in env and c.flip():
                v = env[o].x
                ty = TensorProto.FLOAT if v.dtype.kind == 'f' else TensorProto.INT64
                if v.ndim:
                    m.value_info[o] = (ty, v.shape)


def texts(c, m):
    m.doc = c.pick(['', 'This network', 'a "quoted" // text\nwith \\ lines */'])
    m.names = (c.pick(['g', 'torch-jit-export', 'main graph']), c.pick(['', 'pytorch', 'tf2onnx']))


def batch(c, m):
    m.batch_param = not m.batch_param


def files(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, d)] = open(p, 'rb').read()
    return out


def again(c, data, name, o):
    """A second import, in a process of its own."""
    d = os.path.join(c.work, 'again')
    os.makedirs(d)
    with open(d + '/' + name, 'wb') as f:
        f.write(data)
    env = dict(os.environ, PYTHONHASHSEED=str(c.int(1, 4000000)), PYTHONPATH=build.HERE + '/shims', PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([sys.executable, '-B', build.REPO + '/onnx_import/onnx_to_pico_cnn.py', '--input', name], cwd=d, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    c.check(p.returncode == 0, 'second import fails', p.stdout[-1500:].decode(errors='replace'))
    c.label('imported twice')
    return files(d + '/generated_code')


def prop(c):
    strict, data = True, None
    k = c.n(12)
    if k == 11 and c.chance(1, 4):
        m, data = shipped(c)
    elif k == 8:
        m = arch.build(c)
    elif k >= 5:
        m = gen.dag(c, 2, 8)
        strict = shapes_known(m)
    else:
        m = gen.chain(c)
    c.text(m.describe())
    inputs = [gen.net_input(c, m) for _ in range(2)]
    env = model.execute(m, inputs[0])[2]
    v = m.clone()
    data = m.to_onnx() if data is None else data
    e2e.save_model(c, m, data)
    r = e2e.pipeline(c, m, inputs, strict=strict, sub='a', data=data)
    if r is None:
        return
    outs, o = r[0], r[1]
    if c.chance(1, 4):
        a, b = files(o.dir), again(c, data, m.file_name, o)
        b = {os.path.relpath(n, os.path.basename(o.dir)): x for n, x in b.items()}
        for n in b:
            c.check(n in a and a[n] == b[n], 'second import generates another file', n)
    done = set()
    for _ in range(c.int(1, 4)):
        f = c.pick([rename, rename_nodes, reorder_inits, listing, node_order, encoding, infos, texts, batch, listing_first])
        if f in done:
            continue
        done.add(f)
        if f is infos:
            infos(c, v, env if rename not in done else {})
        else:
            f(c, v)
        c.label('rewrite: ' + f.__name__)
    c.text('rewritten (%s): %s%s%s%s' % (', '.join(sorted(f.__name__ for f in done)), v.describe(), ' inits listed' if v.list_inits else '',
                                       ' first' if v.inits_first else '', ' infos %s' % v.value_info if v.value_info else ''))
    vin = [{v.inputs[0][0]: i[m.inputs[0][0]]} for i in inputs]
    vdata = v.to_onnx()
    c.files['rewritten.onnx'] = vdata
    was = c.nontriv
    c.nontriv = False
    r = e2e.pipeline(c, v, vin, strict=True, sub='b', data=vdata)
    for k, (a, b) in enumerate(zip(outs, r[0])):
        if a.tobytes() != b.tobytes():
            c.fail('rewritten model computes something else', 'input %d\n%s\n%s' % (k, a[:16], b[:16]))
    c.nontriv = was and len(done) >= 2
