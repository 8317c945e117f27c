RULE = 'at least two imports of the history generated a network, and either a name was imported twice or two names were imported'
QUICK, THOROUGH = 400, 6000
import os
import build
import gen

NAMES = ['net', 'net2', 'n', 'lenet', 'a_b', 'net.v1', 'net.v2', 'x' * 60, 'my-net', 'my net', 'Net', '0']
GARBAGE = [b'', b'\0', b'#error left over\n', b'int main() { return 1; }\n' * 4000, bytes(range(256)) * 40]


def tree(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, d)] = open(p, 'rb').read()
    return out


def run(c, cwd, path):
    log = c.work + '/import.log'
    rc = build.run_script(build.REPO + '/onnx_import/onnx_to_pico_cnn.py', ['--input', path], cwd, log)
    return rc, build.tail(log)


def broken(c, data):
    """Not a model that can be imported."""
    k = c.n(4)
    if k == 0:
        return data[:c.int(0, len(data) - 1)]
    if k == 1:
        return b''
    if k == 2:
        return None
    return bytes(c.int(0, 255) for _ in range(c.int(1, 40)))


def prop(c):
    """A history of imports in one working directory; after each one the tree is what it has to be."""
    models = []
    for i in range(c.int(1, 3)):
        m = gen.dag(c, 1, 4) if c.chance(1, 4) else gen.chain(c)
        models.append(m)
        c.text('model %d: %s' % (i, m.describe()))
    if c.flip():                                # the same network after more training
        m = models[c.n(len(models))].clone()
        f = [n for n in m.inits if m.inits[n].dtype.kind == 'f' and m.inits[n].size]
        for n in f:
            if n == f[0] or c.flip():
                a = m.inits[n].copy()
                a.reshape(-1)[c.n(a.size)] += a.dtype.type(c.pick([1, -0.5, 8]))
                m.inits[n] = a
        if f:
            models.append(m)
            c.text('model %d: other values' % (len(models) - 1))
            c.label('retrained model')
    data = [m.to_onnx() for m in models]
    stems = [c.pick(NAMES) for _ in range(c.int(1, 3))]
    fresh = {}

    def expected(i, stem):
        """What an import into an empty directory gives (None: refused)."""
        if (i, stem) not in fresh:
            d = os.path.join(c.work, 'fresh%d' % len(fresh))
            os.makedirs(d)
            with open('%s/%s.onnx' % (d, stem), 'wb') as f:
                f.write(data[i])
            rc, log = run(c, d, stem + '.onnx')
            t = tree(d)
            del t[stem + '.onnx']
            fresh[i, stem] = None if rc else t
        return fresh[i, stem]

    cwd = os.path.join(c.work, c.pick(['w', 'some where', 'a/b/c', 'generated_code']))
    os.makedirs(cwd)
    want = {}
    places = ['', './', 'models/', 'models/../models/', cwd + '/', cwd + '/models/', '../', 'models//']
    ok, stems_done, again = 0, set(), False
    for step in range(c.int(2, 6)):
        i, stem, place = c.n(len(models)), c.pick(stems), c.pick(places)
        base = stem.split('.')[0]
        what = c.pick(['import'] * 8 + ['left over'] * 2 + ['broken'] * 2 + ['user file'])
        c.text('%d: %s model %d as %s%s.onnx' % (step, what, i, place, stem))
        c.label(what)
        full = os.path.normpath(os.path.join(cwd, place + stem + '.onnx'))
        os.makedirs(os.path.dirname(full), exist_ok=True)
        if place.startswith(('models', cwd + '/models')):
            c.label('model in a directory')
        old = 'generated_code/%s/' % base
        if what == 'user file':                 # of somebody else: stays
            p = c.pick([old + 'input.data', old + 'network.o', 'generated_code/notes.txt', 'polished_models/x', 'network.cpp', 'data/weights.bin'])
            b = c.pick(GARBAGE)
            os.makedirs(os.path.dirname(os.path.join(cwd, p)), exist_ok=True)
            with open(os.path.join(cwd, p), 'wb') as f:
                f.write(b)
            want[p] = b
            continue
        if what == 'left over':                 # what an interrupted import may have left
            e = expected(i, stem)
            if e is None:
                continue
            for p in sorted(e):
                if c.flip():
                    k = c.n(4)
                    b = [c.pick(GARBAGE), e[p][:c.int(0, len(e[p]))], e[p] + c.pick(GARBAGE), bytes(len(e[p]))][k]
                    os.makedirs(os.path.dirname(os.path.join(cwd, p)), exist_ok=True)
                    with open(os.path.join(cwd, p), 'wb') as f:
                        f.write(b)
                    want[p] = b
        b = data[i]
        if what == 'broken':
            b = broken(c, b)
        rel = os.path.relpath(full, cwd)
        if b is None:
            if os.path.exists(full):
                os.unlink(full)
            want.pop(rel, None)
        else:
            with open(full, 'wb') as f:
                f.write(b)
            if not rel.startswith('..'):
                want[rel] = b
        rc, log = run(c, cwd, place + stem + '.onnx')
        own = {'polished_models/%s_polished.onnx' % base} | {old + n for n in ('network.cpp', 'network.h', 'network.weights.bin', 'Makefile', 'dummy_input.cpp', 'reference_input.cpp')}
        got = tree(cwd)
        if what == 'broken':
            # a prefix of a model may be a model; all that counts is what does not belong to it
            c.check(b or rc, 'no error for a missing or empty model', log)
            for p in own:
                want.pop(p, None)
                if p in got:
                    want[p] = got[p]
            c.label('refused' if rc else 'prefix imported')
        else:
            e = expected(i, stem)
            c.check((e is None) == (rc != 0), 'the same import ends in another way after other imports', '%s\n%s' % (rc, log))
            if e is None:
                c.label('refused')
                for p in own:
                    want.pop(p, None)
                    if p in got:
                        want[p] = got[p]
            else:
                for p in e:
                    if p in want and p in own and want[p] != e[p]:
                        c.label('replaces other content')
                want.update(e)
                ok += 1
                again = again or base in stems_done
                stems_done.add(base)
        if b is not None:
            c.check(os.path.exists(full) and open(full, 'rb').read() == b, 'the model file was changed', full)
        for p in sorted(set(want) | set(got)):
            if p not in got:
                c.fail('a file is missing after an import', '%s (step %d)' % (p, step))
            if p not in want:
                c.fail('an import writes another file', '%s (step %d)' % (p, step))
            if want[p] != got[p]:
                c.fail('a file does not belong to the last import' if p in own else 'an import changes a file that is not its own', '%s (step %d)' % (p, step))
    c.nontriv = ok >= 2 and (again or len(stems_done) > 1)
