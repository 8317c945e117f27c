RULE = 'outputs with a difference and without one were told apart, or at least two values with several different elements were saved'
QUICK, THOROUGH = 3000, 25000
import os
import numpy as np
import onnx
from onnx import numpy_helper
import build
import gen
import caffe2.python.onnx.backend as caffe
import onnx_tf.backend as tf
from model import Model, Node

CHECK = build.REPO + '/util/check_onnx_model.py'
SAVE = build.REPO + '/util/save_intermediate_outputs.py'


def arr(c, shape):
    r = np.random.RandomState(c.seed() & 0x7fffffff)
    return (r.uniform(-1, 1, shape) * 10.0 ** c.int(-3, 3)).astype(np.float32)


def shape(c):
    return tuple(c.pick([1, 2, 3, c.int(1, 12)]) for _ in range(c.pick([2, 4, 1, 3])))


def some_model(c, names):
    m = Model()
    m.inputs = [('data', (1, 3))]
    prev = 'data'
    for n in names:
        m.nodes.append(Node('Relu', [prev], [n]))
        prev = n
    m.output = (prev, (1, 3))
    return m.to_onnx()


def put(path, a):
    with open(path, 'wb') as f:
        f.write(numpy_helper.from_array(a, 't').SerializeToString())


def verdict(c):
    """The verdict on reference data follows from every element of every output."""
    ni, no = c.pick([1, 1, 2, 11]), c.pick([1, 1, 2, 3, 11])
    ins = [arr(c, shape(c)) for _ in range(ni)]
    outs = [arr(c, shape(c)) for _ in range(no)]
    d = c.work + '/' + c.pick(['net', 'a b'])
    t = d + '/test_data_set_0'
    os.makedirs(t)
    data = some_model(c, ['y'])
    with open(d + '/model.onnx', 'wb') as f:
        f.write(data)
    for i, a in enumerate(ins):
        put(t + '/input_%d.pb' % i, a)
    seen = []
    for again in range(2):
        given = [o.astype(np.float64) for o in outs]
        away = False
        what = 'same bits'
        if again:
            k, at = c.n(no), c.n(10 ** 6)
            e = c.pick([1e-4, 3e-4, 1.0, -2e-4, -1e-5, np.nan])
            g = given[k].reshape(-1)
            i = at % g.size
            if c.chance(1, 5):
                g += e
                what = 'output %d all by %g' % (k, e)
            else:
                g[i] += e
                what = 'output %d element %d by %g' % (k, i, e)
            given[k] = g.reshape(outs[k].shape)
        refs = [g.astype(np.float32) for g in given]
        with np.errstate(all='ignore'):
            diff = max(float(np.abs(r.astype(np.float64) - o).max()) if not np.isnan(r).any() else np.inf for r, o in zip(refs, outs))
        if 1.2e-4 < diff < 1.8e-4:
            continue                   # at the limit
        away = diff > 1.5e-4
        for i, a in enumerate(refs):
            put(t + '/output_%d.pb' % i, a)

        def run(model, inputs):
            ok = len(inputs) == len(ins) and all(x.shape == y.shape and x.tobytes() == y.tobytes() for x, y in zip(inputs, ins))
            print('GIVEN %d MODEL %d' % (ok, model.SerializeToString() == data))
            return tuple(outs)
        caffe.run = run
        log = c.work + '/log'
        rel = c.flip()
        rc = build.run_script(CHECK, ['--input', 'model.onnx' if rel else d + '/model.onnx'], d if rel else c.work, log)
        out = open(log, errors='replace').read()
        c.text('%d inputs, outputs %s: %s' % (ni, [o.shape for o in outs], what))
        c.label('away' if away else 'near')
        c.check('GIVEN 1 MODEL 1' in out and out.count('GIVEN') == 1, 'model not run on the inputs of the data set', out[-1200:])
        c.check(('output matches' in out) == (not away) and (rc == 0) == (not away), 'wrong verdict', '%s: largest difference %g, exit %d\n%s' % (what, diff, rc, out[-1200:]))
        seen.append(away)
    if len(set(seen)) == 2:
        c.nontrivial()


def save(c):
    names = ['y%d' % i for i in range(c.int(1, 5))]
    style = c.n(4)
    names = [[n, 'block/' + n, 'net.' + n, n + ':0'][style if i % 2 else 0] for i, n in enumerate(names)]
    k = c.int(1, len(names))
    chosen = [n for n in names if c.flip()][:k] or names[:1]
    vals = {n: arr(c, shape(c)) for n in names}
    ishape = (1,) + tuple(c.int(1, 6) for _ in range(c.int(1, 3)))
    data = some_model(c, names)
    fn = c.pick(['model.onnx', 'net.onnx'])
    with open(c.work + '/' + fn, 'wb') as f:
        f.write(data)

    def run(model, inputs):
        x = np.asarray(inputs[0])
        print('INPUT %d %s %s' % (len(inputs), x.shape == ishape and x.dtype == np.float32, bool((x == 1).all())))
        return {o.name: vals[o.name] for o in model.graph.output}
    tf.run = run
    log = c.work + '/log'
    args = ['--input', fn, '--input_shape'] + [str(v) for v in ishape] + ['--out_to_check'] + [','.join([n] + [str(v) for v in vals[n].shape]) for n in chosen]
    c.text(' '.join(args))
    c.label('intermediate values')
    rc = build.run_script(SAVE, args, c.work, log)
    out = open(log, errors='replace').read()
    c.check(rc == 0, 'utility fails', 'exit %d\n%s' % (rc, out[-1500:]))
    c.check('INPUT 1 True True' in out, 'model not run on ones of the shape', out[-800:])
    made = sorted(f for f in os.listdir(c.work) if f.endswith('.tf'))
    c.check(len(made) == len(chosen), 'not one file for every value', '%s for %s' % (made, chosen))
    told = 0
    for n in chosen:
        base = n.replace('/', '_').replace('.', '_').replace(':', '_')
        fit = [f for f in made if f[:-3].endswith('_' + base)]
        c.check(len(fit) == 1, 'not one file for every value', '%s: %s' % (n, made))
        got = np.loadtxt(c.work + '/' + fit[0], ndmin=1)
        want = vals[n].reshape(-1).astype(np.float64)
        c.check(got.shape == want.shape and (got == want).all(), 'values differ', lambda: '%s: %s instead of %s' % (n, got[:8], want[:8]))
        told += len(np.unique(want)) > 2
    if told >= 2:
        c.nontrivial()


def prop(c):
    (save if c.chance(1, 3) else verdict)(c)
