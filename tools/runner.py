"""Builds and runs one property's check and writes its evidence file."""
import concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
REPLAYS = os.path.join(VERIF, 'replays')
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all']
TSAN = {'C33'}          # threads: ThreadSanitizer in place of the two above
BASE = ['clang++', '-std=c++17', '-g', '-O1', '-fno-omit-frame-pointer', '-w', '-DDEBUG=0', '-DINFO=1']
IMPORTER = {'C21', 'C22', 'C23', 'C24', 'C25', 'C26', 'C27', 'C28', 'C29', 'C30', 'C31', 'C32', 'C34'}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def file_hash(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def lib_sources():
    return sorted(glob.glob(REPO + '/pico-cnn/**/*.cpp', recursive=True))


def lib_files():
    return [p for e in ('cpp', 'h', 'hpp', 'c', 'inc') for p in glob.glob(REPO + '/pico-cnn/**/*.' + e, recursive=True)]


def compile_all(jobs):
    """jobs: list of command lines; raises on the first failure."""
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for cmd, r in zip(jobs, ex.map(sh, jobs)):
            if r.returncode:
                sys.stderr.write(' '.join(cmd) + '\n' + r.stdout)
                raise SystemExit(2)


def lib_archive(flags, tag):
    """The library from /repo's current tree, compiled with the given flags (cached by content)."""
    os.makedirs(BUILD, exist_ok=True)
    key = file_hash(lib_files(), ' '.join(flags))
    out = os.path.join(BUILD, 'lib-%s-%s' % (tag, key), 'libpico.a')
    if os.path.exists(out):
        return out
    tmp = tempfile.mkdtemp(dir=BUILD)
    jobs, objs = [], []
    for i, s in enumerate(lib_sources()):
        o = os.path.join(tmp, '%d.o' % i)
        objs.append(o)
        jobs.append(flags + ['-I', REPO, '-c', s, '-o', o])
    compile_all(jobs)
    r = sh(['ar', 'rcs', os.path.join(tmp, 'libpico.a')] + objs)
    if r.returncode:
        raise SystemExit(r.stdout)
    for o in objs:
        os.unlink(o)
    try:
        os.rename(tmp, os.path.dirname(out))
    except OSError:
        shutil.rmtree(tmp)
    return out


def harness(pid, fuzz=False, plain=False):
    extra = ['-fsanitize=fuzzer-no-link'] if fuzz else []
    tsan = pid in TSAN and not plain
    san = ['-fsanitize=thread'] if tsan else SAN
    lib = lib_archive(BASE + san + extra, 'fz' if fuzz else 'tsan' if tsan else 'asan')
    eng = VERIF + '/engine'
    srcs = [eng + '/driver.cpp', eng + '/%s.cpp' % pid.lower()]
    key = file_hash(srcs + glob.glob(eng + '/*.h'), lib + str(fuzz))
    exe = os.path.join(BUILD, '%s-%s-%s' % (pid, 'fz' if fuzz else 'pbt', key))
    if os.path.exists(exe):
        return exe if not tsan or starts(exe) else harness(pid, fuzz, True)
    tmp = tempfile.mkdtemp(dir=BUILD)
    flags = BASE + san + extra + (['-DFUZZ_BUILD'] if fuzz else [])
    objs = [os.path.join(tmp, '%d.o' % i) for i in range(len(srcs))]
    compile_all([flags + ['-I', REPO, '-I', eng, '-c', s, '-o', o] for s, o in zip(srcs, objs)])
    link = BASE + (['-fsanitize=fuzzer,address,undefined'] if fuzz else san) + objs + [lib, '-ljpeg', '-lm', '-o', tmp + '/exe']
    r = sh(link)
    if r.returncode:
        sys.stderr.write(r.stdout)
        raise SystemExit(2)
    os.rename(tmp + '/exe', exe)
    shutil.rmtree(tmp)
    return exe if not tsan or starts(exe) else harness(pid, fuzz, True)


def starts(exe):
    """ThreadSanitizer needs a memory layout that not every system grants."""
    return sh([exe, '--replay', '/dev/null']).returncode in (0, 1)


def known_findings(pid):
    """Lines 'finding: property=<id> label=<failure label> case~<regex> :: <what fails>'."""
    out = []
    p = VERIF + '/KNOWN_FINDINGS'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) label=(.*?) case~(.*?) :: (.*)', l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def write_evidence(pid, tier, seed, cov, wall, violations, assumptions=()):
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': list(assumptions), 'wall_s': round(wall, 2), 'violations': violations}
    with open(VERIF + '/evidence/%s.json' % pid, 'w') as f:
        json.dump(ev, f, indent=1)


def fuzz_stage(pid, runs, seed, tier, res):
    """libFuzzer over the same decoder and oracle; returns a candidate file or None."""
    exe = harness(pid, fuzz=True)
    jobs = 8
    work = tempfile.mkdtemp(prefix='pbtfz.')
    procs = []
    try:
        for j in range(jobs):
            d = '%s/%d' % (work, j)
            os.makedirs(d + '/corpus'), os.makedirs(d + '/scratch')
            env = dict(os.environ, PBT_SCRATCH=d + '/scratch',
                       ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4096')
            procs.append((d, subprocess.Popen(
                [exe, '-runs=%d' % runs, '-seed=%d' % ((seed * 8 + j) % 2**31 + 1), '-max_len=4096', '-use_value_profile=%d' % (j % 2),
                 '-artifact_prefix=' + d + '/', '-timeout=60', '-rss_limit_mb=3500', '-print_final_stats=1',
                 '-max_total_time=%d' % (45 if tier == 'quick' else 900), d + '/corpus'],
                stdout=subprocess.DEVNULL, stderr=open(d + '/log', 'w'), env=env)))
        cand, execs, edges = None, 0, 0
        for d, p in procs:
            p.wait()
            log = open(d + '/log', errors='replace').read()
            m = re.findall(r'stat::number_of_executed_units:\s*(\d+)', log)
            execs += int(m[-1]) if m else 0
            m = re.findall(r'cov: (\d+)', log)
            edges = max(edges, int(m[-1]) if m else 0)
            a = [x for x in glob.glob(d + '/crash-*')]
            if a and not cand:
                os.makedirs(REPLAYS, exist_ok=True)
                cand = REPLAYS + '/%s-fuzz-candidate.bin' % pid
                shutil.copy(a[0], cand)
        res['libfuzzer_executions'] = execs
        res['libfuzzer_edges'] = edges
        return cand
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run_cpp(pid, tier, seed):
    t0 = time.time()
    exe = harness(pid)
    js = tempfile.mktemp(prefix='pbtjson.')
    cmd = [exe, '--tier', tier, '--seed', str(seed), '--out', REPLAYS, '--json', js]
    p = subprocess.run(cmd)
    if p.returncode not in (0, 1) or not os.path.exists(js):
        return 2
    res = json.load(open(js))
    fz = {}
    runs = res['fuzz_quick'] if tier == 'quick' else res['fuzz_thorough']
    if p.returncode == 0 and runs:
        cand = fuzz_stage(pid, runs, seed, tier, fz)
        if cand:
            p = subprocess.run([exe, '--tier', tier, '--seed', str(seed), '--cases', '0', '--candidate', cand, '--out', REPLAYS, '--json', js])
            r2 = json.load(open(js))
            for k in ('rc', 'replay', 'label', 'detail', 'case'):
                res[k] = r2[k]
    os.unlink(js)
    viol = 0
    if res['rc'] == 1:
        for lab, rx, what in known_findings(pid):
            if lab == res['label'] and re.search(rx, res['case'], re.S):
                print('KNOWN-FINDING: property=%s %s' % (pid, what))
                break
        else:
            viol = 1
            print('VIOLATION property=%s replay=%s' % (pid, res['replay']))
    cov = {'evaluations': res['evaluations'], 'distinct_nontrivial': res['distinct_nontrivial'], 'rule': res['rule'],
           'samples': res['samples'] or [res['case']], 'classes': res['labels'], 'time_cap_hit': res['capped']}
    cov.update(fz)
    if viol:
        cov['failure'] = {'label': res['label'], 'detail': res['detail'], 'case': res['case'], 'replay': res['replay']}
    write_evidence(pid, tier, seed, cov, time.time() - t0, viol,
                   ['clang 18 with ' + ('ThreadSanitizer' if pid in TSAN else 'AddressSanitizer and UndefinedBehaviorSanitizer'), 'reference model in double precision in engine/'])
    sys.stdout.flush()
    return 1 if viol else 0


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    if '--seed' in argv:
        seed = int(argv[argv.index('--seed') + 1])
    if '--replay' in argv:
        f = argv[argv.index('--replay') + 1]
        if pid in IMPORTER:
            import importer_check
            return importer_check.replay(pid, f)
        return subprocess.run([harness(pid), '--replay', f]).returncode
    if pid in IMPORTER:
        import importer_check
        return importer_check.run(pid, tier, seed)
    return run_cpp(pid, tier, seed)
