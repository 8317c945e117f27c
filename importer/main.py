"""python3-vt main.py ID --tier T --seed N | --replay FILE"""
import base64
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
os.environ['OMP_NUM_THREADS'] = os.environ['OPENBLAS_NUM_THREADS'] = '1'
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, HERE + '/shims', HERE + '/checks']
import build  # noqa
import pbt    # noqa
sys.path.append(build.VERIF + '/tools')
import runner  # noqa


def main(a):
    pid = a[0]
    ck = importlib.import_module(pid.lower())
    build.prepare()
    if hasattr(ck, 'prepare'):
        ck.prepare()
    if '--replay' in a:
        j = json.load(open(a[a.index('--replay') + 1]))
        for _ in range(5):
            r = pbt.replay(ck.prop, j['draws'])
            if not r['ok']:
                break
        print(r['case'])
        print('%s: %s\n%s' % ('holds' if r['ok'] else 'VIOLATION', r['label'], r['detail']))
        return 0 if r['ok'] else 1
    tier, seed, out = a[a.index('--tier') + 1], int(a[a.index('--seed') + 1]), a[a.index('--json') + 1]
    quick = tier == 'quick'
    cases = int(os.environ.get('PV_CASES') or (ck.QUICK if quick else ck.THOROUGH))
    fail, st = pbt.search(ck.prop, cases, seed, getattr(ck, 'CAP', 240) if quick else 2400, 60 if quick else 240, runner.known_findings(pid))
    res = {'evaluations': st['evaluations'], 'discarded': st['discarded'], 'distinct_nontrivial': len(st['nontrivial']), 'rule': ck.RULE,
           'samples': st['samples'], 'classes': st['classes'], 'time_cap_hit': st['capped'], 'known': st['known'], 'wall': st['wall'], 'failure': None,
           'assumptions': getattr(ck, 'ASSUMPTIONS', [])}
    if fail:
        rep = build.VERIF + '/replays/%s-seed%d.json' % (pid, seed)
        os.makedirs(os.path.dirname(rep), exist_ok=True)
        for n, d in fail['files'].items():
            with open(build.VERIF + '/replays/%s-seed%d.%s' % (pid, seed, n), 'wb') as f:
                f.write(d)
        json.dump({'property': pid, 'draws': fail['draws'], 'label': fail['label'], 'detail': fail['detail'], 'case': fail['case']}, open(rep, 'w'), indent=1)
        res['failure'] = {k: fail[k] for k in ('label', 'detail', 'case')}
        res['failure']['replay'] = rep
        res['failure']['confirmed'] = st.get('confirmed', 0)
    json.dump(res, open(out, 'w'))
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
