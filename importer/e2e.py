"""Import, compile, run and compare one model with the executor."""
import os
import numpy as np
import build
from model import Unsupported, execute
from pbt import Discard, Violation


def save_model(c, m, data):
    c.files['model.onnx'] = data


def compare(c, got, ref, err, what):
    if got.shape != (ref.size,):
        raise Violation('wrong number of outputs', '%s: %d elements, expected %d' % (what, got.size, ref.size))
    ref, err = ref.reshape(-1), err.reshape(-1)
    g = got.astype(np.float64)
    tol = 4 * err + 1e-30
    bad = ~(np.abs(g - ref) <= tol)
    if bad.any():
        i = int(np.argmax(bad))
        raise Violation('wrong output', '%s: element %d is %r, the model gives %r +- %.3g (%d of %d differ)\ngot %s\nref %s' % (
            what, i, float(g[i]), float(ref[i]), tol[i], bad.sum(), bad.size, g[:12], ref[:12]))


def references(m, inputs):
    out = []
    for i in inputs:
        try:
            with np.errstate(all='ignore'):
                y, e, env = execute(m, i)
        except Unsupported as u:
            raise Discard(str(u))
        if any(v.x.dtype.kind == 'f' and v.x.size and not np.abs(v.x).max() <= 1e30 for v in env.values()):
            raise Discard('overflow')
        if not np.isfinite(y).all() or np.abs(y).max(initial=0) > 1e30 or not np.isfinite(e).all():
            raise Discard('overflow')
        out.append((y, e))
    return out


def telling(refs):
    """Outputs vary and the tolerance is small against them."""
    y, e = refs[0]
    span = max(float(y.max() - y.min()), float(np.abs(y).max())) if y.size else 0.0
    return y.size > 0 and span > 0 and float(e.max()) * 4 < 0.02 * span


def write_inputs(gen, m, inputs):
    lines = []
    for k, i in enumerate(inputs):
        f = gen + '/in%d.bin' % k
        i[m.inputs[0][0]].astype('<f4').tofile(f)
        lines.append('in %d %s %s' % (k, f, build.dims(m.inputs[0][1])))
    return lines


def pipeline(c, m, inputs, strict=True, sub='a', data=None, refs=None):
    """Runs the model on the inputs. strict: refusals are violations. Returns the outputs or None (refused)."""
    data = m.to_onnx() if data is None else data
    save_model(c, m, data)
    if refs is None:
        refs = references(m, inputs)
    o = build.import_model(c.work, data, m.file_name, sub)
    if o.kind == 'hang':
        raise Violation('importer does not end', o.detail)
    if o.kind == 'refused':
        if strict:
            raise Violation('supported model refused', o.detail)
        c.label('refused by the importer')
        return None
    msg = build.compile_network(o.dir)
    if msg:
        if strict:
            raise Violation('generated code does not compile', msg)
        c.label('refused by the compiler')
        return None
    lines = write_inputs(o.dir, m, inputs)
    lines += ['new 0', 'weights 0 ' + o.weights]
    for k in range(len(inputs)):
        lines += ['fresh %d %s' % (k, build.dims(m.output[1])), 'run 0 %d %d' % (k, k)]
    lines += ['run 0 0 %d' % (len(inputs) - 1)]
    rc, res, msg = build.run_host(o.dir, lines)
    outs = [build.floats(l.split(' ')[1] if ' ' in l else '') for l in res if l.startswith('out')]
    if rc != 0:
        loud = rc in (1, 7) and 'Sanitizer' not in msg and 'runtime error' not in msg
        if loud and not strict and not outs:
            c.label('refused when loading or running')
            return None
        raise Violation('network stops' if loud else 'network crashes', 'exit %d\n%s' % (rc, msg[-2500:]))
    n = len(inputs) + 1
    if len(outs) != 2 * n:
        raise Violation('network crashes', 'only %d of %d runs' % (len(outs), 2 * n))
    want = list(refs) + [refs[0]]
    for r in range(2):
        for k in range(n):
            compare(c, outs[r * n + k], want[k][0], want[k][1], 'run %d input %d' % (r * n + k, k % len(inputs)))
            if telling([want[k]]):
                c.nontrivial()
    c.label('ran')
    return outs[:len(inputs)], o, res
