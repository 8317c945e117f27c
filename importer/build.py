"""Importing a model with the code under test, compiling what it generates, and running it."""
import os
import resource
import shutil
import signal
import struct
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
RUN = '_ZN7Network3runEPN8pico_cnn5naive6TensorES3_'
TC = {}          # set by prepare()
SANENV = dict(os.environ,
              ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4096:exitcode=66:abort_on_error=0',
              UBSAN_OPTIONS='halt_on_error=1:exitcode=66')
NETFLAGS = ['clang++', '-std=c++17', '-g1', '-O0', '-fno-omit-frame-pointer', '-w', '-DDEBUG=0', '-DINFO=1', '-fPIC', '-fsanitize=address']


def prepare():
    """Library, host program and precompiled header for /repo's current tree."""
    sys.path.insert(0, VERIF + '/tools')
    import runner
    lib = runner.lib_archive(runner.BASE + runner.SAN, 'asan')
    src = [HERE + '/host.cpp', HERE + '/wrapper.cpp', HERE + '/prog.cpp', HERE + '/tensors.cpp', HERE + '/jpeg.cpp']
    key = runner.file_hash(src + runner.lib_files(), lib + ' '.join(NETFLAGS))
    d = os.path.join(runner.BUILD, 'imp-' + key)
    if not os.path.exists(d + '/ok'):
        tmp = d + '.%d' % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        runner.compile_all([
            runner.BASE + runner.SAN + ['-I', REPO, src[0], '-rdynamic', '-Wl,--whole-archive', lib, '-Wl,--no-whole-archive', '-ljpeg', '-lm', '-ldl', '-o', tmp + '/host'],
            NETFLAGS + ['-Xclang', '-fno-pch-timestamp', '-I', REPO, '-x', 'c++-header', REPO + '/pico-cnn/pico-cnn.h', '-o', tmp + '/pico.pch'],
            NETFLAGS + ['-I', REPO, '-c', src[2], '-o', tmp + '/prog.o'],
            runner.BASE + runner.SAN + ['-I', REPO, src[3], lib, '-ljpeg', '-lm', '-o', tmp + '/tensors'],
            ['g++', '-O1', '-w', src[4], '-ljpeg', '-o', tmp + '/jpeg']])
        open(tmp + '/ok', 'w').close()
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    TC.update(lib=lib, host=d + '/host', pch=d + '/pico.pch', prog=d + '/prog.o', tensors=d + '/tensors', jpeg=d + '/jpeg')


def in_fork(fn, log, timeout=200):
    """Runs fn in a child with output to a file; returns its exit status (-9: too slow)."""
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
            os.dup2(fd, 1), os.dup2(fd, 2)
            sys.stdout = os.fdopen(1, 'w', closefd=False)
            sys.stderr = os.fdopen(2, 'w', closefd=False)
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            try:
                fn()
                code = 0
            except SystemExit as e:
                code = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
            except BaseException:
                traceback.print_exc()
                code = 1
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(code & 0xff)
    end = time.time() + timeout
    delay = 0.002
    while True:
        p, s = os.waitpid(pid, os.WNOHANG)
        if p:
            return os.WEXITSTATUS(s) if os.WIFEXITED(s) else -os.WTERMSIG(s)
        if time.time() > end:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            return -9
        time.sleep(delay)
        delay = min(0.02, delay * 1.3)


def run_script(path, argv, cwd, log, extra_path=(), timeout=200):
    def go():
        import runpy
        os.chdir(cwd)
        sys.dont_write_bytecode = True
        sys.argv = [path] + list(argv)
        sys.path[:0] = [HERE + '/shims', os.path.dirname(path)] + list(extra_path)
        runpy.run_path(path, run_name='__main__')
    return in_fork(go, log, timeout)


class Outcome(object):
    def __init__(self, kind, detail=''):
        self.kind, self.detail, self.dir = kind, detail, None

    def __repr__(self):
        return '%s: %s' % (self.kind, self.detail)


def tail(path, n=1500):
    try:
        return open(path, errors='replace').read()[-n:]
    except OSError:
        return ''


def import_model(work, data, name='net.onnx', sub='a'):
    """Outcome 'generated' (with .dir) or 'refused' or 'hang'."""
    d = os.path.join(work, sub)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, name), 'wb') as f:
        f.write(data)
    log = d + '/import.log'
    rc = run_script(REPO + '/onnx_import/onnx_to_pico_cnn.py', ['--input', name], d, log)
    if rc == -9:
        return Outcome('hang', tail(log))
    gen = os.path.join(d, 'generated_code', name.split('.')[0])
    if rc != 0 or not os.path.exists(gen + '/network.cpp'):
        return Outcome('refused', 'exit %d\n%s' % (rc, tail(log)))
    o = Outcome('generated', tail(log))
    o.dir = gen
    o.weights = gen + '/network.weights.bin'
    return o


def cc(args, log, timeout=300):
    with open(log, 'w') as f:
        try:
            return subprocess.run(args, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            return -9


def compile_network(gen):
    """None, or the compiler's messages."""
    log = gen + '/cc.log'
    rc = cc(NETFLAGS + ['-include-pch', TC['pch'], '-I', gen, '-I', REPO, '-shared', HERE + '/wrapper.cpp', '-o', gen + '/net.so'], log)
    return None if rc == 0 else tail(log, 2500)


def compile_program(gen, which):
    log = gen + '/cc_%s.log' % which
    rc = cc(NETFLAGS + ['-include-pch', TC['pch'], '-I', gen, '-I', REPO, gen + '/%s.cpp' % which, gen + '/network.cpp', TC['prog'], '-Wl,--wrap=' + RUN, TC['lib'],
                        '-fsanitize=undefined', '-ljpeg', '-lm', '-o', gen + '/' + which], log)
    return None if rc == 0 else tail(log, 2500)


def project_tree():
    """A copy of the library built by its own Makefile, or None if that fails."""
    sys.path.insert(0, VERIF + '/tools')
    import runner
    d = os.path.join(runner.BUILD, 'tree-' + runner.file_hash(runner.lib_files() + [REPO + '/pico-cnn/Makefile'], ''))
    if not os.path.exists(d + '/ok') and not os.path.exists(d + '/failed'):
        tmp = d + '.%d' % os.getpid()
        shutil.copytree(REPO + '/pico-cnn', tmp + '/pico-cnn', ignore=shutil.ignore_patterns('*.o', '*.a'))
        with open(tmp + '/log', 'w') as f:
            r = subprocess.run(['make', '-j8', '-C', tmp + '/pico-cnn'], stdout=f, stderr=subprocess.STDOUT, timeout=600).returncode
        open(tmp + ('/ok' if r == 0 else '/failed'), 'w').close()
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return d if os.path.exists(d + '/ok') else None


def make_program(tree, work, gen, which):
    """Builds a generated program the documented way: in onnx_import/generated_code, by the generated Makefile. (directory, messages)"""
    t = os.path.join(work, 'tree')
    os.makedirs(t + '/onnx_import/generated_code', exist_ok=True)
    if not os.path.exists(t + '/pico-cnn'):
        shutil.copytree(tree + '/pico-cnn', t + '/pico-cnn')
    d = t + '/onnx_import/generated_code/' + os.path.basename(gen)
    if not os.path.exists(d):
        os.makedirs(d)
        for f in os.listdir(gen):
            if f.endswith(('.cpp', '.h', '.bin')) or f == 'Makefile':
                shutil.copy(gen + '/' + f, d + '/' + f)
    log = d + '/make.log'
    with open(log, 'w') as f:
        try:
            rc = subprocess.run(['make', which], cwd=d, stdout=f, stderr=subprocess.STDOUT, timeout=300).returncode
        except subprocess.TimeoutExpired:
            rc = -9
    return d, None if rc == 0 else tail(log, 2500)


def compile_example(gen, source, flags=()):
    """A program of /repo/examples, copied next to the network and built with the flags of the generated Makefile that matter."""
    name = os.path.basename(source)
    shutil.copy(source, gen + '/' + name)
    log = gen + '/cc_example.log'
    flags = [f for f in NETFLAGS if f != '-DDEBUG=0'] + list(flags)
    rc = cc(flags + ['-I', gen, '-I', REPO, gen + '/' + name, gen + '/network.cpp', TC['prog'], '-Wl,--wrap=' + RUN, TC['lib'],
                     '-fsanitize=undefined', '-ljpeg', '-lm', '-o', gen + '/' + name[:-4]], log)
    return None if rc == 0 else tail(log, 2500)


def run_host(gen, lines, tag='s', timeout=300):
    """(exit status, [result lines], messages)"""
    sc, out, log = gen + '/%s.script' % tag, gen + '/%s.out' % tag, gen + '/%s.log' % tag
    with open(sc, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    with open(log, 'w') as f:
        try:
            rc = subprocess.run([TC['host'], gen + '/net.so', sc, out], stdout=f, stderr=subprocess.STDOUT, env=SANENV, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            rc = -9
    res = open(out).read().split('\n') if os.path.exists(out) else []
    return rc, res, tail(log, 3000)


def run_program(gen, which, args, timeout=300):
    log = gen + '/%s.out' % which
    with open(log, 'w') as f:
        try:
            rc = subprocess.run([gen + '/' + which] + args, stdout=f, stderr=subprocess.STDOUT, env=SANENV, timeout=timeout, cwd=gen).returncode
        except subprocess.TimeoutExpired:
            rc = -9
    return rc, open(log, errors='replace').read()


def floats(hexs):
    import numpy as np
    return np.array([int(hexs[i:i + 8], 16) for i in range(0, len(hexs), 8)], dtype=np.uint32).view(np.float32)


def dims(s):
    return ' '.join(str(v) for v in s)
