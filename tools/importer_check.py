"""Runs an importer check (Python, in the tool environment) and writes its evidence."""
import json, os, shutil, subprocess, tempfile, time
import runner

PY = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python3'
MAIN = runner.VERIF + '/importer/main.py'
ASSUME = ['onnx, jinja2 and protobuf are stand-ins in importer/shims written from their specifications',
          'the executor in importer/model.py gives the ONNX meaning of a model, with a rounding error bound per element',
          'clang 18 with AddressSanitizer (network) and UndefinedBehaviorSanitizer (library)']


def replay(pid, f):
    return subprocess.run([PY, '-B', MAIN, pid, '--replay', f]).returncode


def run(pid, tier, seed):
    t0 = time.time()
    fd, js = tempfile.mkstemp(prefix='pvjson.')
    os.close(fd)
    p = subprocess.run([PY, '-B', MAIN, pid, '--tier', tier, '--seed', str(seed), '--json', js])
    if p.returncode or not os.path.getsize(js):
        return 2
    res = json.load(open(js))
    os.unlink(js)
    viol, f = 0, res['failure']
    for what in sorted(res['known']):
        print('KNOWN-FINDING: property=%s %s' % (pid, what))
    if f:
        if f['label'] == 'harness':
            print(f['detail'])
            return 2
        viol = 1
        print('%s\n%s\n%s' % (f['label'], f['detail'], f['case']))
        print('VIOLATION property=%s replay=%s' % (pid, f['replay']))
    cov = {k: res[k] for k in ('evaluations', 'discarded', 'distinct_nontrivial', 'rule', 'samples', 'classes', 'time_cap_hit')}
    if not cov['samples']:
        cov['samples'] = [f['case'] if f else 'none']
    if viol:
        cov['failure'] = f
    if res['known']:
        cov['known_findings'] = res['known']
    runner.write_evidence(pid, tier, seed, cov, time.time() - t0, viol, ASSUME + res['assumptions'])
    return 1 if viol else 0
