"""Compile drivers + real sources of /repo to LLVM IR (verified text) and to native code (replay)."""
import atexit
import hashlib
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading

REPO = os.environ.get('VC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = ['-isystem', '/usr/include/eigen3', '-isystem', '/usr/include/hdf5/serial', '-isystem', '/usr/include/opencascade', '-isystem', '/usr/include/libxml2']
IRFLAGS = ['-std=c++20', '-fms-extensions', '-frelaxed-template-template-args', '-w', '-DNDEBUG', '-DEIGEN_DONT_VECTORIZE', '-DEIGEN_DONT_PARALLELIZE', '-fopenmp',
           '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-ffp-contract=off', '-fno-math-errno', '-fno-pic', '-S', '-emit-llvm']
_scratch = None


class BuildError(Exception):
    pass


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='vc_%d_' % os.getpid())
        pid = os.getpid()

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(clean)
        _config(_scratch)
    return _scratch


def config_dir(max_row_size):
    """an include directory whose configuration header limits the row size (the header is configured by CMake in the same way)"""
    d = scratch() + '/cfg%d' % max_row_size
    if not os.path.exists(d):
        t = d + '.tmp%d_%d' % (os.getpid(), threading.get_ident())
        os.makedirs(t)
        _config(t, max_row_size)
        try:
            os.rename(t, d)
        except OSError:
            shutil.rmtree(t, ignore_errors=True)
    return d + '/auto'


def _config(d, max_row_size=8):
    """the CMake-configured header, produced from /repo's template (same options as /opt/vp/build.sh)"""
    os.makedirs(d + '/auto')
    t = open(REPO + '/hexed_config.hpp.in').read()
    sub = {'CMAKE_SOURCE_DIR': REPO, 'CMAKE_BINARY_DIR': '/nonexistent', 'CMAKE_PROJECT_VERSION_MAJOR': '0', 'CMAKE_PROJECT_VERSION_MINOR': '2',
           'CMAKE_PROJECT_VERSION_PATCH': '0', 'MAX_BASIS_ROW_SIZE': str(max_row_size), 'threaded': 'ON', 'n_threads': '8', 'use_xdmf': 'ON',
           'use_tecplot': 'OFF', 'use_nlopt': 'ON', 'use_occt': 'ON', 'obsessive_timing': 'OFF'}
    t = re.sub(r'@(\w+)@', lambda m: sub.get(m.group(1), '0'), t)
    open(d + '/auto/hexed_config.hpp', 'w').write(t)


def incs():
    return ['-I' + VERIF + '/drivers', '-I' + REPO + '/include', '-I' + scratch() + '/auto'] + INC


def _run(cmd, timeout=1200):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stderr.decode(errors='replace')[-3000:]))
    return r


def _src(s):
    if s.startswith('src/') or s.startswith('include/'):
        return REPO + '/' + s
    if s.startswith('gen:'):
        return generated_bases() + '/' + s[4:]
    if s.startswith('/'):
        return s
    return VERIF + '/drivers/' + s


def _extra(extra):
    return [('-I' + config_dir(int(x[4:]))) if x.startswith('cfg:') else ('-I' + VERIF + '/stubs/' + x[5:]) if x.startswith('stub:') else x for x in extra]


_locks = {}
_lock = threading.Lock()


def unit(s, defines=(), opt='-O1', extra=()):
    """one source compiled to IR; returns the path"""
    d = scratch()
    cache = os.environ.get('VC_CACHE')
    if s.startswith('src/'):
        defines = [x for x in defines if not x.startswith('VC_')]
    s = _src(s)
    cmd = ['clang++-18', opt] + IRFLAGS + _extra(extra) + ['-I' + VERIF + '/stubs'] + incs() + ['-D' + x for x in defines]
    o = '%s/%s_%s.ll' % (d, os.path.basename(s), hashlib.md5(' '.join(cmd + [s]).encode()).hexdigest()[:8])
    with _lock:
        lk = _locks.setdefault(o, threading.Lock())
    with lk:
        if os.path.exists(o):
            return o
        key = None
        if cache:
            pre = subprocess.run([x for x in cmd if x not in ('-S', '-emit-llvm')] + ['-E', '-P', s], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if pre.returncode:
                raise BuildError(pre.stderr.decode()[-3000:])
            key = cache + '/' + hashlib.sha256((' '.join(x for x in cmd if d not in x)).encode() + pre.stdout.replace(d.encode(), b'')).hexdigest() + '.ll'
            if os.path.exists(key):
                return key
        _run(cmd + [s, '-o', o + '.tmp%d' % os.getpid()])
        os.rename(o + '.tmp%d' % os.getpid(), o)
        if key:
            os.makedirs(cache, exist_ok=True)
            shutil.copy(o, key + '.tmp%d' % os.getpid())
            os.rename(key + '.tmp%d' % os.getpid(), key)
    return o


def ir(sources, defines=(), opt='-O1', extra=(), link=True):
    """compile to IR text; several sources are merged with llvm-link"""
    d = scratch()
    outs = [unit(s, defines, opt, extra) for s in sources]
    if len(outs) == 1:
        return open(outs[0]).read()
    o = '%s/link_%s.ll' % (d, hashlib.md5(repr((outs, defines)).encode()).hexdigest()[:8])
    if not os.path.exists(o):
        tmp = o + '.tmp%d_%d' % (os.getpid(), threading.get_ident())
        _run(['/usr/lib/llvm-18/bin/llvm-link', '-S', '-o', tmp] + outs)
        os.rename(tmp, o)
    return open(o).read()


def native(sources, defines=(), extra=(), libs=()):
    """shared object of the same driver and real sources, built with the repository's own compiler"""
    d = scratch()
    so = '%s/n_%s.so' % (d, hashlib.md5(repr((sources, defines, extra)).encode()).hexdigest()[:10])
    if os.path.exists(so):
        return so
    objs = []
    procs = []
    for s in list(sources):
        s = _src(s)
        o = '%s/%s_%s_%d.o' % (d, os.path.basename(s), hashlib.md5((so + s).encode()).hexdigest()[:8], os.getpid())
        cmd = ['g++', '-std=c++20', '-O1', '-fPIC', '-w', '-DNDEBUG', '-DVC_NATIVE', '-fopenmp', '-c'] + _extra(extra) + incs() + ['-D' + x for x in defines] + [s, '-o', o]
        procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
        objs.append(o)
    for cmd, p in procs:
        e = p.communicate()[1]
        if p.returncode:
            raise BuildError(' '.join(cmd) + '\n' + e.decode(errors='replace')[-3000:])
    tmp = so + '.tmp%d' % os.getpid()
    # symbols of the repository that no source given here defines are not reached by the driver: address them to a block of zeros
    def syms(opt):
        r = subprocess.run(['nm', opt] + objs, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode()
        return {x.split()[-1] for x in r.splitlines() if x.strip() and not x.endswith(':')}
    missing = sorted(x for x in syms('-u') - syms('--defined-only') if 'hexed' in x or 'Occt' in x or '_ZN2H5' in x or '_ZNK2H5' in x or '_ZTVN2H5' in x or '_ZTIN2H5' in x)
    if missing:
        a = tmp + '.s'
        with open(a, 'w') as f:
            f.write('.bss\n.balign 64\n' + ''.join('.globl %s\n.type %s,@object\n.size %s,64\n%s:\n' % (x, x, x, x) for x in missing) + '.zero 4096\n.section .note.GNU-stack,"",@progbits\n')
        objs.append(a)
    _run(['g++', '-shared', '-fopenmp', '-o', tmp] + objs + list(libs) + ['-Wl,--as-needed', '-lnlopt'])
    os.rename(tmp, so)
    for o in objs:
        os.remove(o)
    return so


def generated_bases(max_row_size=8):
    """run the repository's own generator (script/auto_generate.py) into the scratch directory"""
    d = scratch() + '/gen'
    if not os.path.exists(d + '/Gauss_lobatto.cpp'):
        t = d + '.tmp%d_%d' % (os.getpid(), threading.get_ident())
        os.makedirs(t, exist_ok=True)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        r = subprocess.run(['python3', REPO + '/script/auto_generate.py', t, str(max_row_size)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
        if r.returncode:
            raise BuildError('auto_generate.py: ' + r.stderr.decode()[-2000:])
        try:
            os.rename(t, d)
        except OSError:
            shutil.rmtree(t, ignore_errors=True)
    return d
