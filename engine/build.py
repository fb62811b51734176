"""Regenerates the encoding's input from /repo's working tree: LLVM IR of every library source file, and the replay
driver (the real code, with sanitizers)."""
import glob
import hashlib
import os
import re
import subprocess
import sys
import threading
from concurrent.futures import ThreadPoolExecutor
from . import ir, core

REPO = os.environ.get('EANTIC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))


class BuildError(Exception):
    pass


def gen_headers():
    d = os.path.join(BUILD, 'include', 'e-antic')
    os.makedirs(d, exist_ok=True)
    src = open(os.path.join(REPO, 'libeantic/e-antic/local.h.in')).read()
    src = re.sub(r'@\w+@', '/usr/local/lib', src)
    _write(os.path.join(d, 'local.h'), src)
    cfg = os.path.join(VERIF, 'engine', 'config.generated.h')
    _write(os.path.join(d, 'config.generated.h'), open(cfg).read())
    return os.path.join(BUILD, 'include')


def _write(path, s):
    if os.path.exists(path) and open(path).read() == s:
        return
    tmp = path + '.%d.%d' % (os.getpid(), threading.get_ident())
    with open(tmp, 'w') as f:
        f.write(s)
    os.replace(tmp, path)


def sources():
    c = sorted(glob.glob(os.path.join(REPO, 'libeantic/src/**/*.c'), recursive=True))
    cxx = sorted(glob.glob(os.path.join(REPO, 'libeantic/srcxx/**/*.cpp'), recursive=True))
    return c, cxx


def tree_hash():
    h = hashlib.sha256()
    for sub in ('src', 'srcxx', 'e-antic'):
        for root, ds, fs in os.walk(os.path.join(REPO, 'libeantic', sub)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.c', '.h', '.cpp', '.hpp', '.in', '.ipp', '.inc')):
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    return r


def incs():
    i = gen_headers()
    return ['-I', os.path.join(i, 'e-antic'), '-I', i, '-I', os.path.join(i, 'e-antic', '..'), '-I', os.path.join(REPO, 'libeantic')]


def compile_ir(src, out, cxx, defs=()):
    cc = ['clang++-18', '-std=c++17'] if cxx else ['clang-18']
    cmd = cc + ['-S', '-emit-llvm', '-O0', '-Xclang', '-disable-O0-optnone', '-gline-tables-only',
                '-fno-discard-value-names', '-DBUILD_LIBEANTIC', '-w'] + list(defs) + incs() + [src, '-o', out + '.raw']
    r = run(cmd)
    if r.returncode:
        raise BuildError('%s: %s' % (src, r.stderr.decode()[:2000]))
    r = run(['opt-18', '-S', '-passes=mem2reg', out + '.raw', '-o', out])
    if r.returncode:
        raise BuildError(r.stderr.decode()[:2000])
    os.remove(out + '.raw')


def ir_dir():
    d = os.path.join(BUILD, 'ir-' + tree_hash())
    return d


def build_ir(which=('c', 'cxx')):
    """compile; returns list of .ll paths"""
    d = ir_dir()
    os.makedirs(d, exist_ok=True)
    c, cxx = sources()
    jobs = []
    for s in (c if 'c' in which else []):
        jobs.append((s, os.path.join(d, os.path.relpath(s, REPO).replace('/', '_') + '.ll'), False))
    for s in (cxx if 'cxx' in which else []):
        jobs.append((s, os.path.join(d, os.path.relpath(s, REPO).replace('/', '_') + '.ll'), True))
    if 'cxx' in which:
        s = os.path.join(VERIF, 'cxx', 'ops.cpp')
        py = 'cppyy' in which
        jobs.append((s, os.path.join(d, '%s_%s.ll' % ('pyops' if py else 'ops', hashlib.sha256(open(s, 'rb').read()).hexdigest()[:10])), True) + ((['-DVP_CPPYY'],) if py else ()))
    if 'archive' in which:
        s = os.path.join(VERIF, 'cxx', 'archive.cpp')
        jobs.append((s, os.path.join(d, 'archive_%s.ll' % hashlib.sha256(open(s, 'rb').read()).hexdigest()[:10]), True))
    todo = [j for j in jobs if not os.path.exists(j[1])]
    todo.sort(key=lambda j: not j[2])

    def go(j):
        tmp = j[1] + '.%d.tmp' % os.getpid()
        compile_ir(j[0], tmp, j[2], *j[3:])
        os.replace(tmp, j[1])
    if todo:
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(go, todo))
    return [j[1] for j in jobs]


def load_program(which=('c',)):
    p = core.Program()
    p.repo_prefix = REPO.rstrip('/') + '/'
    for f in build_ir(which):
        p.add(ir.Module(f, open(f).read()))
    return p


# ---------------------------------------------------------------- replay driver
WRAPS = ['arb_set_fmpq', 'arb_set_round', 'arb_sqrt_ui', 'arb_add', 'arb_sub', 'arb_mul', 'arb_div', 'arb_add_fmpz', 'arb_sub_fmpz', 'arb_mul_fmpz',
         'arb_div_fmpz', 'arb_fmpz_div_fmpz', 'arb_add_si', 'arb_sub_si', 'arb_mul_si', 'arb_pow_ui', 'arb_root_ui']


def driver_hash(which):
    h = hashlib.sha256()
    h.update(tree_hash().encode())
    for f in sorted(glob.glob(os.path.join(VERIF, 'replay', '*')) + glob.glob(os.path.join(VERIF, 'cxx', '*'))):
        h.update(open(f, 'rb').read())
    h.update(repr(which).encode())
    h.update(open(__file__, 'rb').read())
    return h.hexdigest()[:16]


def build_python():
    """the libraries as shared objects, and a script that runs the replays with pyeantic of the working tree"""
    d = os.path.join(BUILD, 'replay-py-%s' % driver_hash('py'))
    exe = os.path.join(d, 'driver')
    if os.path.exists(exe):
        return exe
    os.makedirs(d, exist_ok=True)
    c, cxx = sources()
    flags = ['-g0', '-O1', '-fPIC', '-DBUILD_LIBEANTIC', '-w']

    def go(j):
        s, xx = j
        o = os.path.join(d, re.sub(r'[^A-Za-z0-9]', '_', s) + '.o')
        r = run((['g++', '-std=c++17'] if xx else ['gcc']) + flags + incs() + ['-c', s, '-o', o])
        if r.returncode:
            raise BuildError('%s: %s' % (s, r.stderr.decode()[:3000]))
        return o
    with ThreadPoolExecutor(8) as ex:
        co = list(ex.map(go, [(s, False) for s in c]))
        xo = list(ex.map(go, [(s, True) for s in cxx]))
    for name, objs, libs in (('libeantic.so', co, ['-lflint', '-lmpfr', '-lgmp']), ('libeanticxx.so', xo, ['-L' + d, '-leantic', '-lflint', '-lmpfr', '-lgmpxx', '-lgmp'])):
        r = run(['g++', '-shared', '-Wl,-soname,' + name, '-o', os.path.join(d, name)] + objs + libs)
        if r.returncode:
            raise BuildError(r.stderr.decode()[:3000])
    for o in co + xo:
        os.remove(o)
    src = os.path.join(REPO, 'libeantic')
    i = gen_headers()
    tmp = exe + '.%d' % os.getpid()
    with open(tmp, 'w') as f:
        f.write('#!/bin/sh\nexport EXTRA_CLING_ARGS="-Wno-macro-redefined -I%s -I%s/e-antic -I%s"\nexport LD_LIBRARY_PATH="%s"\nexport PYTHONPATH="%s"\nexport PYTHONDONTWRITEBYTECODE=1\nexport PATH=/opt/vp/venv/bin:$PATH\nexec /opt/vp/venv/bin/python %s\n' % (
            src, i, i, d, os.path.join(REPO, 'pyeantic/src'), os.path.join(VERIF, 'replay', 'py_ops.py')))
    os.chmod(tmp, 0o755)
    os.replace(tmp, exe)
    return exe


def build_driver(which='c'):
    """builds the replay driver from the working tree; returns its path. which: 'c', 'cxx' (with the C++ layer), 'thr' (threads under a
    cooperative scheduler), 'tsan' (threads under ThreadSanitizer) 'text' (parsing and printing) or 'stream' (streams and archives)"""
    if which == 'py':
        return build_python()
    d = os.path.join(BUILD, 'replay-%s-%s' % (which, driver_hash(which)))
    exe = os.path.join(d, 'driver')
    if os.path.exists(exe):
        return exe
    os.makedirs(d, exist_ok=True)
    c, cxx = sources()
    base = ['-g1', '-O1', '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=pattern', '-DBUILD_LIBEANTIC', '-w', '-fPIC']
    kind = ['-fsanitize=thread'] if which == 'tsan' else ['-fsanitize=address,undefined', '-fno-sanitize=vptr,function', '-fno-sanitize-recover=all']
    if which == 'stream':
        # RapidJSON, behind cereal, adds to null pointers
        kind.append('-fno-sanitize=pointer-overflow')
    san = base + kind
    shim = ['-DVP_SHIM', '-include', os.path.join(VERIF, 'replay', 'thr_shim.h')] if which == 'thr' else ['-DVP_CXX'] if which == 'text' else []
    srcs = [(s, False) for s in c]
    if which != 'c':
        srcs += [(s, True) for s in cxx]
    for s in sorted(glob.glob(os.path.join(VERIF, 'replay', '*.c*'))):
        b = os.path.basename(s)
        if which in ('thr', 'tsan'):
            if b not in ('main.cpp', 'thr_ops.cpp', 'wrap.c'):
                continue
        elif which == 'text':
            if b not in ('main.cpp', 'text_ops.cpp', 'wrap.c'):
                continue
        elif which == 'stream':
            if b not in ('main.cpp', 'stream_ops.cpp', 'wrap.c'):
                continue
        elif b.startswith(('thr_', 'text_', 'stream_')) or b.startswith('cxx_') and which != 'cxx':
            continue
        srcs.append((s, s.endswith('.cpp')))
    srcs.sort(key=lambda j: not j[1])

    def go(j):
        s, xx = j
        o = os.path.join(d, re.sub(r'[^A-Za-z0-9]', '_', s) + '.o')
        cc = ['clang++-18', '-std=c++17'] if xx else ['clang-18', '-fexceptions']
        r = run(cc + san + (shim if xx else []) + incs() + ['-c', s, '-o', o])
        if r.returncode:
            raise BuildError('%s: %s' % (s, r.stderr.decode()[:3000]))
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(go, srcs))
    tmp = exe + '.%d' % os.getpid()
    r = run(['clang++-18', kind[0], '-o', tmp] + objs + ['-Wl,--wrap=' + w for w in WRAPS] + ['-lflint', '-lgmpxx', '-lgmp', '-lboost_system', '-lpthread'][0:3] + ['-lpthread'])
    if r.returncode:
        raise BuildError(r.stderr.decode()[:3000])
    os.replace(tmp, exe)
    for o in objs:
        os.remove(o)
    return exe


def scenario_line(sc):
    return ' '.join('%s=%s' % (k, v) for k, v in sc.items())


def replay(exe, scs, timeout=900):
    """runs scenarios; returns list of (status, kind, msg)"""
    if not scs:
        return []
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=97:allocator_may_return_null=0:max_allocation_size_mb=4000:detect_stack_use_after_return=0'
    env['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66:report_signal_unsafe=0'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=0:halt_on_error=1:exitcode=98'
    inp = '\n'.join(scenario_line(s) for s in scs) + '\n'
    try:
        r = subprocess.run([exe], input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout)
        lines = r.stdout.decode(errors='replace').split('\n')
    except subprocess.TimeoutExpired as e:
        lines = (e.stdout or b'').decode(errors='replace').split('\n')
    out = [('INVALID', 'none', 'no result')] * len(scs)
    for l in lines:
        p = l.split(' ', 3)
        if len(p) >= 2 and p[0].isdigit():
            i = int(p[0])
            if p[1] == 'VIOL':
                out[i] = ('VIOL', p[2] if len(p) > 2 else '', p[3] if len(p) > 3 else '')
            else:
                out[i] = (p[1], '', ' '.join(p[2:]))
    return out
