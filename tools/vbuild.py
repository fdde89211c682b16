#!/usr/bin/env python3
"""Builds the library from /repo's working tree (one flavour per sanitizer family) and the harnesses.

Objects are cached under /verif/build/<flavour>, keyed by the compiler command, the text of the source
and the text of every repository header, so a change anywhere in the tree is always seen."""
import hashlib, os, subprocess, sys, glob, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')

COMMON = ['-std=c++17', '-g', '-fno-omit-frame-pointer', '-w', '-fPIC']
LIBDEF = ['-D__LOCK_FREE__', '-DMB_ENABLE_TRAVERSAL_LIMIT']
FLAVOURS = {
    'plain': ['-O1'],
    'opt': ['-O2'],
    'asan': ['-O1', '-fsanitize=address,undefined', '-fno-sanitize=alignment,vptr', '-fno-sanitize-recover=all'],
    'tsan': ['-O1', '-fsanitize=thread'],
    # library objects only: every access is reported to harness/tsanrt.cpp instead of libtsan
    'inst': ['-O1', '-fsanitize=thread', '-fno-builtin'],
}
WRAP = ['memcpy', 'memmove', 'memset', 'memcmp', 'mmap', 'munmap', 'pread', 'pwrite']
CXX = 'g++'


def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise RuntimeError('build failed: %s\n%s' % (' '.join(cmd), p.stdout[-6000:]))
    return p.stdout


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def headers_digest():
    h = hashlib.sha256()
    for p in sorted(glob.glob(REPO + '/src/**/*.h', recursive=True)):
        if '/unittest/' in p or '/src/test/' in p:
            continue
        h.update(p.encode()); h.update(read(p))
    return h.hexdigest()


def lib_sources():
    s = glob.glob(REPO + '/src/*.cpp') + glob.glob(REPO + '/src/util/*.cpp') + glob.glob(REPO + '/src/detail/*.cpp')
    return sorted(x for x in s if not x.endswith('util/lb_range_cache_shared.cpp'))


def incs():
    return ['-I' + REPO + '/src', '-I' + REPO + '/src/util', '-I' + VERIF + '/harness']


_lock = threading.Lock()


def obj(src, flavour, extra, hd):
    fl = FLAVOURS['opt'] if flavour == 'inst' and src.startswith(VERIF) else FLAVOURS[flavour]
    flags = [CXX] + COMMON + fl + LIBDEF + extra + incs()
    key = hashlib.sha256(('\0'.join(flags) + hd + src).encode() + read(src)).hexdigest()[:20]
    d = os.path.join(BUILD, flavour)
    os.makedirs(d, exist_ok=True)
    o = os.path.join(d, os.path.basename(src).replace('.cpp', '') + '.' + key + '.o')
    if not os.path.exists(o):
        tmp = o + '.%d.%d.tmp' % (os.getpid(), threading.get_ident())
        sh(flags + ['-c', src, '-o', tmp])
        os.rename(tmp, o)
    return o


def build(flavour, harnesses, jobs=None):
    """Returns {harness: executable path}. The library objects are linked statically into each harness."""
    hd = headers_digest()
    vh = hashlib.sha256()
    for p in sorted(glob.glob(VERIF + '/harness/*.h')):
        vh.update(read(p))
    vd = hd + vh.hexdigest()
    # the code of the command line tool goes into the harness for it
    bd = hashlib.sha256(''.join([hd] + [read(p).decode('utf8', 'replace') for p in sorted(glob.glob(REPO + '/binaries/*.h'))]).encode()).hexdigest()
    with ThreadPoolExecutor(jobs or os.cpu_count()) as ex:
        hs = [ex.submit(obj, os.path.join(VERIF, 'harness', h + '.cpp'), flavour, [], vd + bd if h == 'shell' else vd) for h in harnesses]
        if flavour == 'inst':
            rt = ex.submit(obj, os.path.join(VERIF, 'harness', 'tsanrt.cpp'), flavour, [], vd)
        ls = [ex.submit(obj, s, flavour, [], hd) for s in lib_sources()]
        bs = [ex.submit(obj, s, flavour, ['-I' + REPO + '/binaries', '-Dmain=mbc_main'], bd) for s in sorted(glob.glob(REPO + '/binaries/*.cpp'))] if 'shell' in harnesses else []
        hobjs = [f.result() for f in hs]
        lobjs = [f.result() for f in ls]
        bobjs = [f.result() for f in bs]
        out = {}
        ldflags = FLAVOURS[flavour]
        if flavour == 'inst':
            # The wrappers must catch the references of the library objects only.
            lib = os.path.join(BUILD, flavour, 'lib-%s.o' % hashlib.sha256('\0'.join(lobjs).encode()).hexdigest()[:20])
            if not os.path.exists(lib):
                tmp = lib + '.%d.tmp' % os.getpid()
                sh(['ld', '-r', '-o', tmp] + lobjs)
                sh(['objcopy'] + ['--redefine-sym=%s=__wrap_%s' % (w, w) for w in WRAP] + [tmp])
                os.rename(tmp, lib)
            rto = os.path.join(BUILD, flavour, 'rt-%s.o' % hashlib.sha256(rt.result().encode()).hexdigest()[:20])
            if not os.path.exists(rto):
                tmp = rto + '.%d.tmp' % os.getpid()
                sh(['objcopy'] + ['--redefine-sym=__real_%s=%s' % (w, w) for w in WRAP] + [rt.result(), tmp])
                os.rename(tmp, rto)
            lobjs = [lib, rto]
            ldflags = []

        def link(h, ho):
            more = bobjs if h == 'shell' else []
            key = hashlib.sha256('\0'.join([ho] + lobjs + more).encode()).hexdigest()[:16]
            exe = os.path.join(BUILD, flavour, '%s-%s' % (h, key))
            if not os.path.exists(exe):
                tmp = exe + '.%d.tmp' % os.getpid()
                sh([CXX] + ldflags + ['-o', tmp, ho] + more + lobjs + (['-lreadline'] if more else []) + ['-ljemalloc', '-lpthread', '-ldl'])
                os.rename(tmp, exe)
            return exe
        for h, f in [(h, ex.submit(link, h, ho)) for h, ho in zip(harnesses, hobjs)]:
            out[h] = f.result()
    return out


def aux(names):
    """Builds LD_PRELOAD helpers (/verif/harness/aux_<name>.c); returns {name: path}."""
    out = {}
    for n in names:
        src = os.path.join(VERIF, 'harness', 'aux_%s.c' % n)
        key = hashlib.sha256(read(src)).hexdigest()[:16]
        d = os.path.join(BUILD, 'aux')
        os.makedirs(d, exist_ok=True)
        so = os.path.join(d, '%s-%s.so' % (n, key))
        if not os.path.exists(so):
            tmp = so + '.%d.tmp' % os.getpid()
            sh(['gcc', '-O1', '-g', '-w', '-shared', '-fPIC', '-o', tmp, src, '-ldl', '-lpthread'])
            os.rename(tmp, so)
        out[n] = so
    return out


if __name__ == '__main__':
    print(build(sys.argv[1], sys.argv[2:]))
