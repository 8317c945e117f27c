"""Confirms a planted change and stores it under /verif/seeded.

  python3-vt plant.py SPECFILE [ID..]     confirm (builds, 38 tests pass, demo passes without and fails with it) and store
  python3-vt plant.py --detect [ID..] [--also C10,C25] run the property's check (and others) against stored changes

A SPECFILE defines SPECS, a list of dicts: id, property, edits [(file, old, new)], needs, breaks, and either
cpp (text of demo.cpp) or model (callable returning (Model, inputs)) or files {name: text} incl. demo.sh."""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
REPO = os.environ.get('VERIF_REPO', '/repo')
SEEDED = VERIF + '/seeded'

CPP_SH = '''#!/bin/bash
# Runs in the repository after the build; exits non-zero if the behaviour is broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
g++ -std=c++11 -O1 -g -w -I"$repo" -I"$repo/pico-cnn" "$here/demo.cpp" "$repo/_build/libpico-cnn.a" -ljpeg -lm -o "$work/demo" || exit 2
cd "$work" && timeout 60 ./demo >"$work/log" 2>&1
rc=$?
tail -n 5 "$work/log"
exit $rc
'''

MODEL_SH = '''#!/bin/bash
# Imports net.onnx (with the stand-ins for onnx and jinja2 beside this file), compiles the generated network
# and compares its output with the values in expected.bin.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
cp "$here/net.onnx" "$work/" && cd "$work" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here/shims"
timeout 60 python3-vt "$repo/onnx_import/onnx_to_pico_cnn.py" --input net.onnx >import.log 2>&1 || { tail -n 3 import.log; echo "import failed"; exit %(refused)d; }
gen=$work/generated_code/net
[ -f "$gen/network.cpp" ] || exit %(refused)d
g++ -std=c++11 -O1 -w -DINFO=0 -I"$repo" -I"$gen" "$here/run.cpp" "$gen/network.cpp" "$repo/_build/libpico-cnn.a" -ljpeg -lm -o run 2>cc.log || { tail -n 3 cc.log; echo "does not compile"; exit %(refused)d; }
timeout 60 ./run "$gen/network.weights.bin" "$here/input.bin" "$here/expected.bin" %(inshape)s / %(outshape)s >log 2>&1
rc=$?
tail -n 5 log
exit $rc
'''

RUN_CPP = r'''#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cstring>
#include <vector>
#include "pico-cnn/pico-cnn.h"
#include "network.h"
using pico_cnn::naive::Tensor;
static Tensor *make(const std::vector<uint32_t> &d) {
    if (d.size() == 2) return new Tensor(d[0], d[1]);
    if (d.size() == 3) return new Tensor(d[0], d[1], d[2]);
    return new Tensor(d[0], d[1], d[2], d[3]);
}
static void load(const char *p, float *x, size_t n) {
    FILE *f = fopen(p, "rb");
    if (!f || fread(x, 4, n, f) != n) exit(2);
    fclose(f);
}
int main(int argc, char **argv) {
    std::vector<uint32_t> d[2];
    int w = 0;
    for (int i = 4; i < argc; i++) if (!strcmp(argv[i], "/")) w = 1; else d[w].push_back(atoi(argv[i]));
    Tensor *in = make(d[0]), *out = make(d[1]);
    std::vector<float> want(2 * out->num_elements());
    load(argv[2], in->data_, in->num_elements());
    load(argv[3], want.data(), want.size());
    Network *net = new Network();
    if (read_binary_weights(argv[1], &net->kernels, &net->biases)) { printf("weights not read\n"); return 1; }
    for (int r = 0; r < 2; r++) {
        net->run(in, out);
        for (uint32_t i = 0; i < out->num_elements(); i++) {
            float g = out->data_[i], e = want[i], t = want[out->num_elements() + i];
            if (!(std::fabs(g - e) <= t)) { printf("run %d, output %u is %g instead of %g\n", r, i, g, e); return 1; }
        }
    }
    delete net;
    printf("as expected\n");
    return 0;
}
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def clean():
    sh('git -C %s checkout -- .' % REPO)
    sh('git -C %s clean -fdq -e _build' % REPO)


def write_demo(s, d):
    if 'cpp' in s:
        open(d + '/demo.cpp', 'w').write(s['cpp'])
        open(d + '/demo.sh', 'w').write(CPP_SH)
    elif 'model' in s:
        sys.path[:0] = [VERIF + '/importer', VERIF + '/importer/shims']
        import numpy as np
        from model import execute
        m, inp = s['model']()
        y, e, _ = execute(m, inp)
        open(d + '/net.onnx', 'wb').write(m.to_onnx())
        inp[m.inputs[0][0]].astype('<f4').tofile(d + '/input.bin')
        tol = 8 * e + 1e-6 * (1 + np.abs(y))
        np.concatenate([y.reshape(-1), tol.reshape(-1)]).astype('<f4').tofile(d + '/expected.bin')
        open(d + '/run.cpp', 'w').write(RUN_CPP)
        shutil.copytree(VERIF + '/importer/shims', d + '/shims', ignore=shutil.ignore_patterns('__pycache__'))
        open(d + '/demo.sh', 'w').write(MODEL_SH % {'refused': 0 if s.get('may_refuse') else 1,
                                                    'inshape': ' '.join(map(str, m.inputs[0][1])), 'outshape': ' '.join(map(str, m.output[1]))})
    else:
        for n, t in (s['files']() if callable(s['files']) else s['files']).items():
            open(d + '/' + n, 'wb' if isinstance(t, bytes) else 'w').write(t)
        if s.get('shims'):
            shutil.copytree(VERIF + '/importer/shims', d + '/shims', ignore=shutil.ignore_patterns('__pycache__'))
    os.chmod(d + '/demo.sh', 0o755)


def demo(d):
    tmp = '/tmp/plant_demo'
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(d, tmp)
    for n in ('patch.diff', 'meta.json'):
        if os.path.exists(tmp + '/' + n):
            os.remove(tmp + '/' + n)
    r = sh('bash %s/demo.sh' % tmp, cwd=REPO)
    shutil.rmtree(tmp)
    return r.returncode, r.stdout


def tests():
    r = sh('bash /opt/vp/test.sh /tmp/plant_test.json')
    j = json.load(open('/tmp/plant_test.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = base.get('passed') or base.get('stable') or base.get('tests') or []
    return len(j['passed']), [t for t in stable if t not in j['passed']], r.stdout[-800:]


def plant(s):
    clean()
    d = SEEDED + '/' + s['id']
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    write_demo(s, d)
    sh('bash /opt/vp/build.sh')
    rc, out = demo(d)
    if rc != 0:
        print(s['id'], 'DEMO FAILS ON CLEAN TREE', rc, out)
        return False
    try:
        for f, old, new in s['edits']:
            t = open(REPO + '/' + f).read()
            if t.count(old) != 1:
                print(s['id'], 'EDIT', f, 'matches', t.count(old), repr(old[:60]))
                return False
            open(REPO + '/' + f, 'w').write(t.replace(old, new))
        open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % REPO).stdout)
        n, lost, log = tests()
        rc2, out2 = demo(d)
    finally:
        clean()
    # lines of the original repository: blame the removed lines
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    ok = not lost and n >= 38 and rc2 not in (0, 2, 126, 127)
    print(s['id'], s['property'], 'OK' if ok else 'REJECTED', 'tests', n, lost, 'demo', rc2, out2.strip()[-200:], '' if n >= 38 else log)
    if not ok:
        shutil.rmtree(d)
    return ok


def detect(ids, also):
    res = {}
    for i in ids:
        d = SEEDED + '/' + i
        prop = json.load(open(d + '/meta.json'))['property']
        clean()
        r = sh('git -C %s apply %s/patch.diff' % (REPO, d))
        if r.returncode:
            print(i, 'DOES NOT APPLY', r.stdout)
            continue
        try:
            for p in [prop] + [a for a in also if a != prop]:
                r = sh('python3 check.py %s' % p, cwd=VERIF, env=dict(os.environ, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick'))
                v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
                res[i, p] = r.returncode
                print(i, p, 'CAUGHT' if r.returncode == 1 and v else 'missed (exit %d)' % r.returncode, flush=True)
        finally:
            clean()
    return res


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == '--detect':
        also = []
        if '--also' in a:
            k = a.index('--also')
            also = a[k + 1].split(',')
            a = a[:k]
        detect(a[1:] or sorted(os.listdir(SEEDED)), also)
    else:
        g = {}
        sys.path.insert(0, HERE)
        exec(compile(open(a[0]).read(), a[0], 'exec'), g)
        for s in g['SPECS']:
            if (len(a) == 1 and not s.get('skip')) or s['id'] in a[1:]:
                plant(s)
