RULE = 'the history has at least two instances or two inputs alive, at least four runs, and outputs differ between inputs'
QUICK, THOROUGH = 1000, 8000
import os
import numpy as np
import build
import e2e
import arch
import gen
import model
from c21 import shipped
from c22 import shapes_known

PARAM_OPS = ('Conv', 'Gemm', 'MatMul', 'BatchNormalization', 'Add')
SLOTS, NETS = 3, 3


def history(c, m, o, k, nk, nb):
    """Script lines and what each result line must be."""
    L, want = e2e.write_inputs(o.dir, m, k), []
    L.append('in %d %s %s' % (len(k), o.dir + '/in0.bin', build.dims(m.inputs[0][1])))      # a second tensor of the same values
    nin = len(k) + 1
    shape = build.dims(m.output[1])

    def fresh(j):
        L.append('fresh %d %s' % (j, shape))
    # what fresh networks give
    for i in range(len(k)):
        L.extend(['new 90', 'weights 90 ' + o.weights])
        want.append(('weights',))
        fresh(90)
        L.extend(['run 90 %d 90' % i, 'del 90'])
        want.append(('base', i))
    live, slots, loaded, runs = {}, set(), {}, 0
    for _ in range(c.int(3, 24)):
        op = c.n(10)
        if op <= 1 or not live:
            f = [i for i in range(NETS) if i not in live]
            if not f:
                continue
            i = f[0]
            L.append('new %d' % i)
            live[i] = False
            if c.chance(3, 4):
                L.append('weights %d %s' % (i, o.weights))
                want.append(('weights',))
                live[i] = True
            elif c.flip():
                # an unloaded network may run, nothing is promised about its output
                fresh(91)
                L.append('run %d %d 91' % (i, c.n(nin)))
                want.append(('any',))
                c.label('run before loading')
        elif op == 2:
            i = c.pick(sorted(live))
            L.append('weights %d %s' % (i, o.weights))
            want.append(('weights',))
            if live[i]:
                c.label('weights loaded again')
            live[i] = True
        elif op == 3:
            i = c.pick(sorted(live))
            L.append('del %d' % i)
            del live[i]
            c.label('destroyed in between')
        elif op == 4:
            L.append('keep %d' % c.n(nin))
            want.append(('keep',))
        elif op == 5 and any(live.values()):
            i = c.pick([q for q in sorted(live) if live[q]])
            L.append('params %d %d %d' % (i, nk, nb))
            want += [('param', q) for q in range(nk + nb)]
        else:
            i = c.pick(sorted(live))
            if not live[i]:
                continue
            j, a = c.n(SLOTS), c.n(nin)
            if j not in slots or c.chance(1, 4):
                fresh(j)
                slots.add(j)
            else:
                c.label('output tensor reused')
            L.append('run %d %d %d' % (i, a, j))
            want.append(('run', a % len(k) if a == len(k) else a))
            runs += 1
    for q in range(nin):
        L.append('keep %d' % q)
        want.append(('keep',))
    for i in sorted(live):
        if live[i]:
            L.append('params %d %d %d' % (i, nk, nb))
            want += [('param', q) for q in range(nk + nb)]
    if c.flip():
        for i in sorted(live):
            L.append('del %d' % i)
    return L, want, runs


def prop(c):
    strict = True
    k = c.n(10)
    data = None
    if k == 9 and c.chance(1, 4):
        m, data = shipped(c)
    elif k == 8:
        m = arch.build(c)
    elif k >= 5:
        m = gen.dag(c)
        strict = shapes_known(m)
    else:
        m = gen.chain(c)
    c.text(m.describe())
    data = m.to_onnx() if data is None else data
    e2e.save_model(c, m, data)
    inputs = [gen.net_input(c, m) for _ in range(c.int(2, 4))]
    refs = e2e.references(m, inputs)
    o = build.import_model(c.work, data, m.file_name)
    if o.kind != 'generated':
        if strict:
            c.fail('supported model refused', o.detail)
        return
    msg = build.compile_network(o.dir)
    c.check(not msg, 'generated code does not compile', msg)
    # whether layers nobody needs are kept is up to the importer: their parameters are not looked at
    live, ps = {m.output[0]}, []
    for n in reversed(m.nodes):
        if live & set(n.outputs) and n.op != 'Shape':
            live |= set(n.inputs)
    all_live = all(live & set(n.outputs) for n in m.nodes if n.op in PARAM_OPS)
    for n in m.nodes if all_live else []:
        if n.op in PARAM_OPS:
            for i in n.inputs:
                if i in m.inits and i not in ps:
                    ps.append(i)
    kern, bias = [i for i in ps if m.inits[i].ndim != 1], [i for i in ps if m.inits[i].ndim == 1]
    L, want, runs = history(c, m, o, inputs, len(kern), len(bias))
    c.text('history: ' + '; '.join(l if not l.startswith(('in ', 'weights')) else l.split(' /')[0] for l in L[len(inputs) + 1:]))
    rc, res, msg = build.run_host(o.dir, L)
    if rc != 0:
        c.fail('network crashes', 'exit %d\n%s' % (rc, msg[-2500:]))
    cut = res.index('again')
    base = {}
    for rnd, part in enumerate((res[:cut], res[cut + 1:])):
        part = [p for p in part if p and not p.startswith(('leak', 'done'))]
        c.check(len(part) == len(want), 'results missing', '%d of %d' % (len(part), len(want)))
        for w, p in zip(want, part):
            v = p.split(' ')[1] if ' ' in p else ''
            if w[0] == 'weights':
                c.check(v == '0', 'weights refused', p)
            elif w[0] == 'keep':
                c.check(v == '1', 'input modified')
            elif w[0] == 'param':
                a = m.inits[(kern + bias)[w[1]]].astype(np.float32).tobytes()
                c.check(build.floats(v).tobytes() == a, 'parameter modified or not loaded', (kern + bias)[w[1]])
            elif w[0] == 'base':
                if w[1] in base:
                    c.check(base[w[1]] == v, 'two fresh networks differ', 'input %d, round %d' % (w[1], rnd))
                base[w[1]] = v
                e2e.compare(c, build.floats(v), refs[w[1]][0], refs[w[1]][1], 'fresh network, input %d' % w[1])
            elif w[0] == 'run':
                if base[w[1]] != v:
                    a, b = build.floats(base[w[1]]), build.floats(v)
                    c.fail('run differs from a fresh network', 'input %d round %d\nfresh %s\nhere  %s' % (w[1], rnd, a[:16], b[:16]))
    leak = [l for l in res if l.startswith('leak')]
    c.check(leak and int(leak[0].split(' ')[1]) == 0, 'memory not released', str(leak))
    if runs >= 4 and len(set(base.values())) > 1:
        c.nontrivial()
