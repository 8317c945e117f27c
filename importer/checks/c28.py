RULE = 'at least two tensors with several different values were converted and read back, or a refused tensor was among at least two'
QUICK, THOROUGH = 5000, 40000
import os
import subprocess
import numpy as np
import onnx
from onnx import TensorProto, helper, numpy_helper
import build


def values(c, shape):
    r = np.random.RandomState(c.seed() & 0x7fffffff)
    k = c.n(3)
    if k == 0:
        return r.uniform(-1, 1, shape).astype(np.float32), 'uniform'
    if k == 1:
        return (r.randint(-300, 300, shape) / np.float32(4)).astype(np.float32), 'quarters'
    u = r.randint(0, 1 << 32, size=shape, dtype=np.uint64).astype(np.uint32)
    sp = np.array([0x80000000, 0x7f800000, 0xff800000, 1, 0x807fffff, 0x7f7fffff, 0x0a0d0a0d, 0x0a646e65], dtype=np.uint32)
    u = np.where(r.randint(0, 6, size=shape) == 0, sp[r.randint(0, 8, size=shape)], u)
    u = np.where((u & 0x7f800000) == 0x7f800000, u & np.uint32(0xff800000), u).astype(np.uint32)
    return u.view(np.float32), 'any bits'


def good_shape(c, kind):
    if kind == 'output':
        return (1, c.pick([1, 2, 10, c.int(1, 60)]))
    k = c.n(4)
    if k == 0:
        return (1, 1, 1, c.int(1, 40))
    if k == 1:
        return (1, c.int(1, 5), 1, c.int(1, 20))
    return (1, c.int(1, 5), c.int(1, 9), c.int(1, 9))


def bad_shape(c, kind):
    if kind == 'output':
        return c.pick([(2, 3), (3, 1), (4,), (1, 2, 3), (1, 3, 1, 1), (1, 1, 1, 5), ()])
    return c.pick([(2, 1, 3, 3), (3, 2, 1, 4), (1, 7), (5,), (1, 2, 6), (2, 2, 2), (1, 1, 2, 2, 2), ()])


def write(c, path, a):
    if c.flip():
        t = numpy_helper.from_array(a, c.pick(['', 'data', 'gpu_0/softmax:0']))
        how = 'raw'
    else:
        t = helper.make_tensor('x', TensorProto.FLOAT, a.shape, a.reshape(-1).tolist())
        how = 'typed'
    data = t.SerializeToString()
    with open(path, 'wb') as f:
        f.write(data)
    c.files[os.path.basename(path)] = data
    return how


def read_back(path, kind, shape):
    p = subprocess.run([build.TC['tensors'], kind, path] + [str(d) for d in shape], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       env=build.SANENV, timeout=200)
    out = p.stdout.decode(errors='replace')
    if p.returncode or 'values ' not in out or 'runtime error' in out:
        return None, out
    if 'status 0' not in out:
        return None, out
    return build.floats(out[out.index('values ') + 7:].split('\n')[0]), out


def prop(c):
    d = c.work + '/' + c.pick(['ref', 'test_data_set_0', 'a.b/c d'])
    os.makedirs(d)
    want, refused, told = {}, False, 0
    kinds = {'input': c.pick([1, 1, 2, 3, 12]) if not c.chance(1, 12) else 0, 'output': c.pick([1, 1, 2, 3, 11]) if not c.chance(1, 12) else 0}
    plan = []
    for kind in ('input', 'output'):
        bad_at = c.n(kinds[kind]) if kinds[kind] and c.chance(1, 8) else -1
        for i in range(kinds[kind]):
            shape = bad_shape(c, kind) if i == bad_at else good_shape(c, kind)
            a, style = values(c, shape)
            how = write(c, '%s/%s_%d.pb' % (d, kind, i), a)
            plan.append((kind, i, a, i == bad_at))
            c.text('%s_%d %s %s %s%s' % (kind, i, shape, style, how, ' (unsupported)' if i == bad_at else ''))
            c.label('%s %s' % (kind, 'unsupported' if i == bad_at else style))
    if c.chance(1, 4):
        with open(d + '/' + c.pick(['readme.txt', 'model.onnx', 'inputs.pb', 'old_input_0.pb']), 'w') as f:
            f.write('x')
    log = c.work + '/log'
    arg = d + c.pick(['', '/'])
    rc = build.run_script(build.REPO + '/util/parse_onnx_reference_files.py', ['--input', arg], c.work, log)
    out = open(log, errors='replace').read()
    c.check('Traceback' not in out, 'utility stops', out[-1500:])
    fresh = {f for f in os.listdir(d) if f.endswith('.data')}
    expect_some = True
    seen_bad = False
    if not kinds['input'] or not kinds['output']:
        c.label('no reference files')
        c.check('ERROR' in out, 'missing reference files are not reported', 'exit %d\n%s' % (rc, out))
        c.check(rc != 0 or any(b for _, _, _, b in plan), 'missing reference files are not reported by the exit status', 'exit %d\n%s' % (rc, out))
    for kind, i, a, bad in plan:
        name = '%s_%d.data' % (kind, i)
        if bad:
            c.check(name not in fresh, 'tensor of unsupported shape converted', '%s %s' % (name, a.shape))
            c.check('ERROR' in out, 'unsupported shape is not reported', out)
            seen_bad = True
            continue
        if name not in fresh:
            # nothing is promised behind a tensor that was refused or without files of one kind
            c.check(seen_bad or not kinds['input'], 'data file missing', '%s\n%s' % (name, out[-800:]))
            continue
        b, msg = read_back(d + '/' + name, kind, a.shape)
        c.check(b is not None, 'data file is not accepted', '%s %s\n%s' % (name, a.shape, msg[-1200:]))
        x, y = a.reshape(-1).view(np.uint32), b.view(np.uint32)
        if x.size != y.size or (x != y).any():
            k = int(np.argmax(x != y)) if x.size == y.size else -1
            c.fail('values differ', '%s: element %d: %s, %s in the tensor file' % (name, k, b[:12], a.reshape(-1)[:12]))
        told += len(set(x.tolist())) > 2
        size = (20 if kind == 'input' else 12) + 4 * a.size + 4
        c.check(os.path.getsize(d + '/' + name) == size, 'data file of another size', '%s: %d bytes' % (name, os.path.getsize(d + '/' + name)))
    for f in fresh:
        c.check(any(f == '%s_%d.data' % (k, i) for k, i, _, _ in plan), 'file for no tensor', f)
    if told >= 2 or (seen_bad and len(plan) >= 2):
        c.nontrivial()
