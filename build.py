#!/usr/bin/env python3
"""Builds one property harness (or all of them) against the sources in /repo.

Usage: build.py [--san] NAME...      -> prints the path of each binary

* the library sources are everything matching /repo/src/**/*.cpp, compiled here
  (never taken from /repo/_build), so the harness always sees the working tree;
* objects are cached in /verif/build by the hash of flags + source + all headers;
* harness/deps.txt says which translation units a harness pulls in (written by
  `build.py --deps` from the linker trace; only a speed hint): these are compiled
  first, and whenever they do not suffice to link, everything is compiled;
* clang++ with a precompiled Eigen header and pre-instantiated heavy Eigen
  templates is used because it is three times faster than a plain build; any file
  clang rejects is retried with plain g++.
Exit code 0 ok, 3 the tree does not compile.
"""
import sys, os, hashlib, subprocess, glob, concurrent.futures as cf, time, tempfile
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('OPENGV_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
H = os.path.join(VERIF, 'harness')
EIG = ['-I/usr/include/eigen3', '-I/usr/include/eigen3/unsupported']
JOBS = int(os.environ.get('VERIF_JOBS', '8'))

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()[:24]
def rd(p):
    with open(p, 'rb') as f: return f.read()

class Cfg:
    def __init__(self, san):
        self.san = san
        self.name = 'san' if san else 'opt'
        self.cxx = ['clang++', '-O1', '-g1' if san else '-g0', '-march=x86-64', '-w', '-fno-strict-aliasing']
        self.gxx = ['g++', '-O1', '-g0', '-march=x86-64', '-w', '-fno-strict-aliasing']
        self.ld = ['clang++']
        if san:
            s = ['-fsanitize=address,undefined', '-fno-sanitize=vptr,alignment,pointer-overflow', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer', '-D_GLIBCXX_SANITIZE_VECTOR=1', '-include', os.path.join(H, 'san_pre.h')]
            self.cxx += s; self.ld += s
            self.gxx += s
        self.inc = ['-I' + os.path.join(REPO, 'include')] + EIG
        self.bind = ['-I' + REPO, '-I' + os.path.join(H, 'stubs')]   # only for the harness that compiles the language bindings
        self.dir = os.path.join(BUILD, self.name)
        os.makedirs(self.dir, exist_ok=True)

def headers_hash(dirs, ext=('.hpp', '.h', '.inc')):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(ext):
                    p = os.path.join(root, f)
                    h.update(os.path.relpath(p, d).encode()); h.update(rd(p))
    return h.hexdigest()

def run(cmd, out):
    tmp = '%s.tmp%d' % (out, os.getpid())
    r = subprocess.run(cmd + ['-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode == 0: os.replace(tmp, out)
    elif os.path.exists(tmp): os.unlink(tmp)
    return r

def build_pch(cfg):
    src = os.path.join(H, 'eigen_pch.h')
    key = sha(' '.join(cfg.cxx), rd(src))
    hdr = os.path.join(cfg.dir, 'pch-%s.h' % key)
    pch = hdr + '.pch'
    if not os.path.exists(pch):
        with open(hdr + '.t%d' % os.getpid(), 'wb') as f: f.write(rd(src))
        os.replace(hdr + '.t%d' % os.getpid(), hdr)
        r = run(cfg.cxx + EIG + ['-x', 'c++-header', hdr], pch)
        if r.returncode != 0:
            print(r.stdout[-3000:], file=sys.stderr); return None
    return pch

N_INST = 7
# slowest translation units first (only an ordering hint)
HINT = ['relative_pose/modules/main.cpp', 'absolute_pose/methods.cpp', 'relative_pose/methods.cpp', 'sixpt/modules2.cpp',
        'absolute_pose/modules/main.cpp', 'upnp2.cpp', 'fivept_kneip/code.cpp', 'fivept_nister/modules.cpp', 'point_cloud/methods.cpp']
def deps():
    d = {}
    p = os.path.join(H, 'deps.txt')
    if os.path.exists(p):
        for l in open(p):
            w = l.split()
            if w: d[w[0]] = set(w[1:])
    return d

def build(names, san=False, quiet=True, full=False):
    """Returns the list of binaries, or None."""
    d = deps()
    want = None
    if not full and all(n in d for n in names): want = set().union(*[d[n] for n in names])
    r = build_(names, san, quiet, want)
    if r is None and want is not None: r = build_(names, san, quiet, None)
    return r

def build_(names, san, quiet, want):
    cfg = Cfg(san)
    t0 = time.time()
    pch = build_pch(cfg)
    hh = headers_hash([os.path.join(REPO, 'include'), os.path.join(REPO, 'src')])
    hv = headers_hash([H])
    jobs = []   # (prio, rel, out, cmds)
    libobjs, harn = [], {}
    usepch = ['-include-pch', pch] if pch else []
    for s in sorted(glob.glob(os.path.join(REPO, 'src/**/*.cpp'), recursive=True)):
        rel = os.path.relpath(s, REPO)
        if want is not None and rel not in want: continue
        o = os.path.join(cfg.dir, 'lib-%s.o' % sha(' '.join(cfg.cxx), rel, rd(s), hh, pch or ''))
        libobjs.append((rel, o))
        pr = next((i for i, h in enumerate(HINT) if s.endswith(h)), 50 - min(40, os.path.getsize(s) // 5000))
        big = san and os.path.getsize(s) > 150000   # generated straight-line code: the optimiser takes minutes on instrumented code
        jobs.append((pr, rel, o, [cfg.cxx + ['-O0'] + cfg.inc + ['-c', s] if big else cfg.cxx + usepch + cfg.inc + ['-c', s], cfg.gxx + cfg.inc + ['-c', s]]))
    inst = []
    if pch:
        for i in range(1, N_INST + 1):
            if want is not None and 'inst%d' % i not in want: continue
            o = os.path.join(cfg.dir, 'inst%d-%s.o' % (i, sha(' '.join(cfg.cxx), rd(os.path.join(H, 'eigen_pch.h')))))
            inst.append(('inst%d' % i, o))
            jobs.append((0.5, 'inst%d' % i, o, [cfg.cxx + EIG + ['-DPINST=', '-DP%d' % i, '-x', 'c++', '-c', os.path.join(H, 'eigen_pch.h')]]))
    extra = [x for x in ('problems', 'algos') if any(('"%s.hpp"' % x) in open(os.path.join(H, n + '.cpp')).read() for n in names)]
    for n in names + ['pbt'] + extra:
        s = os.path.join(H, n + '.cpp')
        bind = '"matlab/' in open(s).read()
        hb = headers_hash([os.path.join(REPO, 'matlab'), os.path.join(REPO, 'python')], ('.hpp', '.h', '.inc', '.cpp')) if bind else ''
        xi = (cfg.bind if bind else []) + ['-I' + H]
        o = os.path.join(cfg.dir, 'h-%s-%s.o' % (n, sha(' '.join(cfg.cxx), rd(s), hh, hv, hb, pch or '')))
        harn[n] = o
        jobs.append((0.2, n, o, [cfg.cxx + usepch + cfg.inc + xi + ['-c', s], cfg.gxx + cfg.inc + xi + ['-c', s]]))
    jobs.sort(key=lambda j: j[0])
    bad = []
    def do(j):
        pr, rel, o, cmds = j
        if os.path.exists(o): return
        t = time.time()
        for c in cmds:
            r = run(c, o)
            if r.returncode == 0: break
        else:
            bad.append((rel, r.stdout)); return
        if not quiet: print('%6.1f %s' % (time.time() - t, rel), file=sys.stderr)
    with cf.ThreadPoolExecutor(JOBS) as ex: list(ex.map(do, jobs))
    if bad:
        for rel, out in bad: print('COMPILE FAILED', rel, '\n', out[-3000:], file=sys.stderr)
        if any(not os.path.exists(o) for n, o in harn.items()): return None
    named = [(r, o) for r, o in libobjs + inst if os.path.exists(o)]
    objs = [o for _, o in named]
    lib = os.path.join(cfg.dir, 'lib-%s.a' % sha(*objs))
    if not os.path.exists(lib):
        tmp = lib + '.t%d' % os.getpid()
        subprocess.run(['ar', 'qcS', tmp] + objs, check=True); subprocess.run(['ranlib', tmp], check=True)
        os.replace(tmp, lib)
    bins = []
    for n in names:
        xs = [harn[x] for x in extra if ('"%s.hpp"' % x) in open(os.path.join(H, n + '.cpp')).read()]
        b = os.path.join(cfg.dir, '%s-%s' % (n, sha(lib, harn[n], harn['pbt'], *xs)))
        if not os.path.exists(b):
            r = run(cfg.ld + ['-Wl,-t,-t', harn[n], harn['pbt']] + xs + [lib, '-lpthread'], b)
            if r.returncode != 0:
                if want is None: print('LINK FAILED', n, r.stdout[-3000:], file=sys.stderr)
                return None
            TRACE[n] = sorted(rel for rel, o in named if os.path.basename(o) in r.stdout)
        bins.append(b)
    if not quiet: print('build %.1fs' % (time.time() - t0), file=sys.stderr)
    return bins
TRACE = {}

def names_in_map():
    return sorted({l.split('#')[0].split()[1] for l in open(os.path.join(H, 'map.txt')) if l.split('#')[0].split()})

if __name__ == '__main__':
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    if '--setup' in sys.argv:   # warm up; never fails
        build(names_in_map(), False, full=True); sys.exit(0)
    if '--deps' in sys.argv:    # rewrite harness/deps.txt
        BUILD = BUILD + '/deps'; ns = names_in_map()
        import shutil; shutil.rmtree(BUILD, ignore_errors=True)
        if build(ns, False, full=True) is None: sys.exit(3)
        with open(os.path.join(H, 'deps.txt'), 'w') as f:
            for n in ns: f.write(' '.join([n] + TRACE[n]) + '\n')
        shutil.rmtree(BUILD, ignore_errors=True); sys.exit(0)
    r = build(a, '--san' in sys.argv, '--quiet' in sys.argv)
    if r is None: sys.exit(3)
    print('\n'.join(r))
