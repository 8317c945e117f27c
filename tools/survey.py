"""Development aid: all failures of a Python check grouped. survey.py ID CASES [SEED] [LABEL-FILTER]"""
import time, sys, os, collections, multiprocessing, json
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'importer')
os.environ['OMP_NUM_THREADS'] = os.environ['OPENBLAS_NUM_THREADS'] = '1'
sys.dont_write_bytecode = True
sys.path[:0] = [H, H + '/shims', H + '/checks']
import importlib, build, pbt
ck = importlib.import_module(sys.argv[1].lower())
build.prepare()
if hasattr(ck, 'prepare'): ck.prepare()
pbt._PROP = ck.prop
def timed(job):
    t = time.time()
    r = pbt.one(job)
    r['t'] = time.time() - t
    return r
slow = []
seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
groups, ok, disc, labels = collections.defaultdict(list), 0, 0, collections.Counter()
with multiprocessing.get_context('fork').Pool(8) as pool:
    for r in pool.imap(timed, (((seed << 32) + i, None) for i in range(int(sys.argv[2]))), chunksize=1):
        labels.update(r['labels'])
        slow.append((r['t'], r['case'][:300]))
        if r['discard']: disc += 1
        elif r['ok']: ok += 1
        else: groups[(r['label'], tuple(sorted(set(r['labels']))) if len(sys.argv) <= 4 else ())].append(r)
print('ok', ok, 'discarded', disc, 'failing', sum(map(len, groups.values())))
shown = collections.Counter()
for k, v in sorted(groups.items(), key=lambda kv: -len(kv[1])):
    v.sort(key=lambda r: len(r['case']))
    shown[k[0]] += 1
    print('-----', len(v), k)
    print(v[0]['case'][:700])
    d = v[0]['detail']
    print('   ', (d[-400:] if 'Sanitizer' not in d else d[d.index('Sanitizer'):][:200]).replace('\n', '\n    '))
print(dict(labels.most_common(80)))

for t, k in sorted(slow)[-2:]:
    print('%.1f s: %s' % (t, k))
