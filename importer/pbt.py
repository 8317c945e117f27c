"""Choice-sequence generator, parallel search, shrinking and replay files for the Python checks."""
import hashlib
import json
import multiprocessing
import os
import random
import re
import shutil
import sys
import tempfile
import time
import traceback


class Violation(Exception):
    def __init__(self, label, detail=''):
        Exception.__init__(self, label)
        self.label, self.detail = label, detail


class Discard(Exception):
    """The generated case is outside the property's domain."""


class Case(object):
    def __init__(self, seed=None, draws=None, work=None):
        self.rng = random.Random(seed) if draws is None else None
        self.given, self.draws = list(draws or ()), []
        self.work, self.texts, self.labels, self.nontriv, self.key = work, [], [], False, []
        self.files = {}

    def n(self, bound):
        """An integer in [0, bound)."""
        if bound <= 1:
            return 0
        if self.rng is not None:
            v = self.rng.randrange(bound)
        else:
            i = len(self.draws)
            v = self.given[i] % bound if i < len(self.given) else 0
        self.draws.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.n(hi - lo + 1)

    def flip(self):
        return bool(self.n(2))

    def chance(self, k, of):
        """True in k of `of` cases; 0 (False) is the simple choice."""
        return self.n(of) >= of - k

    def pick(self, seq):
        return seq[self.n(len(seq))]

    def seed(self):
        return self.n(1 << 30)

    def text(self, s):
        self.texts.append(s)

    def label(self, s):
        self.labels.append(s)

    def nontrivial(self):
        self.nontriv = True

    def fail(self, label, detail=''):
        raise Violation(label, detail)

    def check(self, ok, label, detail=''):
        if not ok:
            raise Violation(label, detail() if callable(detail) else detail)


_PROP = None
_KNOWN = []                # (failure label, regular expression on the case, what fails)


def known(r):
    for lab, rx, what in _KNOWN:
        if lab == r['label'] and re.search(rx, r['case'], re.S):
            return what
    return None


def one(job):
    """Runs one case in a scratch directory; job = (seed, draws)."""
    seed, draws = job
    work = tempfile.mkdtemp(prefix='pvimp.')
    c = Case(seed, draws, work)
    r = {'ok': True, 'label': '', 'detail': '', 'discard': False}
    try:
        _PROP(c)
    except Violation as v:
        r.update(ok=False, label=v.label, detail=str(v.detail)[:4000])
    except Discard as d:
        r.update(discard=True)
    except Exception:
        r.update(ok=False, label='harness', detail=traceback.format_exc()[-4000:])
    finally:
        shutil.rmtree(work, ignore_errors=True)
    r.update(draws=c.draws, case='\n'.join(c.texts), labels=c.labels, nontrivial=c.nontriv,
             key=hashlib.sha1('\n'.join(c.texts).encode()).hexdigest(), files=c.files if not r['ok'] else {})
    return r


def _pool():
    return multiprocessing.get_context('fork').Pool(8)


def shrink(pool, fail, budget):
    """Shorter, smaller choice sequences with the same failure label."""
    best, end = fail, time.time() + budget
    step = max(1, len(best['draws']) // 2)

    def better(cands):
        cands = [d for d in cands if d != best['draws']]
        for i in range(0, len(cands), 8):
            if time.time() > end:
                return None
            for r in pool.map(one, [(None, d) for d in cands[i:i + 8]], chunksize=1):
                if not r['ok'] and r['label'] == best['label'] and not known(r) and \
                        (len(r['draws']), r['draws']) < (len(best['draws']), best['draws']):
                    return r
        return None
    while time.time() < end:
        d = best['draws']
        cands = []
        if step >= 1:
            cands = [d[:i] + d[i + step:] for i in range(0, len(d), step)]
        r = better(cands)
        if r:
            best = r
            step = min(step, max(1, len(best['draws']) // 2))
            continue
        if step > 1:
            step //= 2
            continue
        d = best['draws']
        cands = []
        for i, v in enumerate(d):
            if v:
                cands.append(d[:i] + [0] + d[i + 1:])
                if v > 1:
                    cands.append(d[:i] + [v // 2] + d[i + 1:])
                    cands.append(d[:i] + [v - 1] + d[i + 1:])
        r = better(cands)
        if not r:
            break
        best = r
    return best


def search(prop, cases, seed, cap, shrink_budget=60, findings=()):
    """(failure or None, statistics); failures listed in findings are counted and passed over"""
    global _PROP
    _PROP = prop
    _KNOWN[:] = findings
    t0 = time.time()
    st = {'evaluations': 0, 'discarded': 0, 'nontrivial': set(), 'classes': {}, 'samples': [], 'capped': False, 'known': {}}
    fail = None
    with _pool() as pool:
        jobs = (((seed << 32) + i, None) for i in range(cases))
        it = pool.imap(one, jobs, chunksize=1)
        for r in it:
            if r['discard']:
                st['discarded'] += 1
            else:
                st['evaluations'] += 1
                for l in r['labels']:
                    st['classes'][l] = st['classes'].get(l, 0) + 1
                if r['nontrivial'] and r['ok']:
                    st['nontrivial'].add(r['key'])
                    if len(st['samples']) < 6:
                        st['samples'].append(r['case'][:1500])
            if not r['ok']:
                what = known(r)
                if what is None:
                    fail = r
                    break
                st['known'][what] = st['known'].get(what, 0) + 1
            if time.time() - t0 > cap:
                st['capped'] = True
                break
        pool.terminate()
    if fail:
        with _pool() as pool:
            again = pool.map(one, [(None, fail['draws'])] * 3, chunksize=1)
            hits = [r for r in again if not r['ok'] and not known(r)]
            st['confirmed'] = len(hits)
            if hits:
                fail = shrink(pool, hits[0], shrink_budget)
            pool.terminate()
    st['wall'] = time.time() - t0
    return fail, st


def replay(prop, draws):
    global _PROP
    _PROP = prop
    return one((None, draws))
