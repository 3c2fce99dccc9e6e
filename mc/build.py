#!/usr/bin/env python3
"""Builds what a check needs from /repo's working tree, into /verif/.build.

Objects are cached by content hash (source + every header it may include + flags), so nothing
stale can be used and a cold run rebuilds everything.  Nothing is written into /repo.
"""
import os, sys, hashlib, subprocess, glob, re, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('APRON_REPO', '/repo')
OUT = os.environ.get('APRON_MC_BUILD', os.path.join(VERIF, '.build'))
SRC = os.path.join(VERIF, 'mc', 'src')

NUM = {'Il': 'NUM_LONGINT', 'Ill': 'NUM_LONGLONGINT', 'Rl': 'NUM_LONGRAT', 'Ri': 'NUM_LONGRAT',
       'Rll': 'NUM_LONGLONGRAT', 'MPZ': 'NUM_MPZ', 'MPQ': 'NUM_MPQ', 'D': 'NUM_DOUBLE',
       'Dl': 'NUM_LONGDOUBLE', 'MPFR': 'NUM_MPFR'}
MODES = {'rel': ['-DNDEBUG', '-O2', '-g1'],
         'dbg': ['-UNDEBUG', '-O1', '-g1'],
         'asan': ['-DNDEBUG', '-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer']}
BASE = ['-U__STRICT_ANSI__', '-fPIC', '-w', '-Werror=implicit-function-declaration']
CSTD = ['-std=c99']
LIBS = ['-lmpfr', '-lgmp', '-lm']
NJOBS = 8


class BuildError(Exception):
    pass


_hcache = {}
_hlock = threading.Lock()


def _hash_dir(d):
    """hash of all headers and included .c files of a directory"""
    with _hlock:
        if d in _hcache:
            return _hcache[d]
    h = hashlib.sha256()
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if f.endswith(('.h', '.hh')):
            h.update(f.encode()); h.update(open(os.path.join(d, f), 'rb').read())
    r = h.hexdigest()
    with _hlock:
        _hcache[d] = r
    return r


def run(cmd, what):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise BuildError('%s failed: %s\n%s' % (what, ' '.join(cmd), p.stdout.decode(errors='replace')[-4000:]))


def obj(src, cc, flags, incs):
    h = hashlib.sha256()
    h.update(' '.join([cc] + flags).encode())
    h.update(src.encode())
    h.update(open(src, 'rb').read())
    for d in [os.path.dirname(src)] + incs:
        h.update(_hash_dir(d).encode())
    o = os.path.join(OUT, 'o', h.hexdigest()[:32] + '.o')
    if not os.path.exists(o):
        os.makedirs(os.path.dirname(o), exist_ok=True)
        tmp = o + '.%d.%d.tmp' % (os.getpid(), threading.get_ident())
        run([cc] + flags + ['-I' + d for d in incs] + ['-c', '-o', tmp, src], 'compile ' + src)
        os.replace(tmp, o)
    return o


def version_h():
    d = os.path.join(OUT, 'gen')
    os.makedirs(d, exist_ok=True)
    v = dict(re.findall(r'^(\w+)\s*=\s*(.*?)\s*$', open(os.path.join(REPO, 'version.mk')).read(), re.M))
    mk = open(os.path.join(REPO, 'apron/Makefile')).read()
    lines = []
    m = re.search(r'^ap_version\.h:.*\n((?:\t.*\n)+)', mk, re.M)
    for l in m.group(1).splitlines():
        e = re.search(r'echo\s+"(.*)"\s*>>?', l)
        if e:
            s = e.group(1).replace('\\"', '"')
            for _ in range(5):
                s = re.sub(r'\$[({](\w+)[)}]', lambda k: v.get(k.group(1), '').strip('"'), s)
            lines.append(s)
    txt = '\n'.join(lines) + '\n'
    p = os.path.join(d, 'ap_version.h')
    if not os.path.exists(p) or open(p).read() != txt:
        open(p, 'w').write(txt)
    return d


R = lambda *p: os.path.join(REPO, *p)


def makelist(mkfile, var, suffix='.c'):
    t = open(mkfile).read().replace('\\\n', ' ')
    m = re.search(r'^%s\s*=(.*)$' % re.escape(var), t, re.M)
    return [w if w.endswith(suffix) else w + suffix for w in m.group(1).split() if not w.startswith('$')]




def lib_units(lib):
    """list of (source, compiler, extra flags, include dirs) for a library name such as boxMPQ"""
    inc = [R('apron'), R('num'), R('itv'), version_h()]
    if lib == 'apron':
        u = []
        for f in makelist(R('apron/Makefile'), 'C_FILES'):
            u.append((R('apron', f), 'gcc', [], inc))
        for n in ('MPQ', 'D', 'MPFR'):
            for f in makelist(R('apron/Makefile'), 'C_FILES_AUX'):
                u.append((R('apron', f), 'gcc', ['-D' + NUM[n]], inc))
        for n in ('Il', 'Ill', 'MPZ', 'Rl', 'Rll', 'MPQ', 'D', 'Dl', 'MPFR'):
            for f in ('itv.c', 'itv_linexpr.c', 'itv_linearize.c'):
                u.append((R('itv', f), 'gcc', ['-D' + NUM[n]], inc))
        return u
    m = re.match(r'(box|oct|polka|t1p|avo|fpp)([A-Z].*)$', lib)
    if m:
        dom, n = m.groups()
        d = {'box': 'box', 'oct': 'octagons', 'polka': 'newpolka', 't1p': 'taylor1plus', 'avo': 'avoct', 'fpp': 'fppol'}[dom]
        mk = R(d, 'Makefile')
        if dom in ('box', 'polka', 't1p'):
            fs = makelist(mk, 'CCMODULES')
        else:
            fs = makelist(mk, 'CCSOURCES')
        extra = ['-D' + NUM[n]]
        if dom == 't1p':
            inc = inc + [R('box'), R('newpolka')]
        return [(R(d, f), 'gcc', extra, [R(d)] + inc) for f in fs]
    if lib == 'ap_ppl':
        fs = ['ppl_user.cc', 'ppl_poly.cc', 'ppl_grid.cc']
        return [(R('ppl', f), 'g++', [], [R('ppl')] + inc) for f in fs]
    if lib == 'ap_pkgrid':
        return [(R('products', 'ap_pkgrid.c'), 'gcc', ['-DNUM_MPQ'], [R('products'), R('ppl'), R('newpolka')] + inc)]
    if lib == 'apronxx':
        return [(R('apronxx', 'apronxx.cc'), 'g++', ['-DNUM_MPQ'], [R(d) for d in ('apronxx', 'box', 'octagons', 'newpolka', 'taylor1plus', 'ppl', 'products')] + inc)]
    raise BuildError('unknown library ' + lib)


DEPS = {'ap_pkgrid': ['polkaMPQ', 'ap_ppl']}
LINK = {'ap_ppl': ['-lppl', '-lgmpxx'], 'ap_pkgrid': ['-lppl', '-lgmpxx'], 'apronxx': ['-lgmpxx']}


def lib_deps(l):
    d = [] if l == 'apron' else ['apron']
    if l.startswith('t1p'):
        d += ['polkaMPQ', 'box' + l[3:]]
    return DEPS.get(l, []) + d


def libpath(lib, mode):
    return os.path.join(OUT, mode, 'lib%s.so' % lib)


def build_libs(libs, mode='rel'):
    """compile and link the given shared libraries (and their dependencies)"""
    order, seen = [], set()

    def visit(l):
        if l in seen:
            return
        seen.add(l)
        for d in lib_deps(l):
            visit(d)
        order.append(l)
    for l in libs:
        visit(l)
    os.makedirs(os.path.join(OUT, mode), exist_ok=True)
    jobs = []
    with ThreadPoolExecutor(NJOBS) as ex:
        units = {}
        for l in order:
            fut = []
            for (src, cc, fl, inc) in lib_units(l):
                flags = BASE + (CSTD if cc == 'gcc' else ['-std=c++11']) + MODES[mode] + fl
                fut.append(ex.submit(obj, src, cc, flags, inc))
            units[l] = fut
        objs = {l: [f.result() for f in fs] for l, fs in units.items()}
    for l in order:
        so = libpath(l, mode)
        deps = lib_deps(l)
        key = hashlib.sha256(' '.join(objs[l] + deps).encode()).hexdigest()
        kf = so + '.key'
        if os.path.exists(so) and os.path.exists(kf) and open(kf).read() == key:
            continue
        cc = 'g++' if l in ('ap_ppl', 'ap_pkgrid', 'apronxx') else 'gcc'
        # domain libraries resolve their own symbols first: several variants live in one process
        san = ['-fsanitize=address'] if mode == 'asan' else []
        tmp = so + '.tmp%d' % os.getpid()
        run([cc, '-shared', '-Wl,-Bsymbolic', '-Wl,-soname,lib%s.so' % l] + san + ['-o', tmp] + objs[l] +
            ['-L' + os.path.join(OUT, mode), '-Wl,-rpath,' + os.path.join(OUT, mode)] +
            ['-l' + d for d in deps] + LINK.get(l, []) + (['-lglpk'] if l.startswith('fpp') else []) + LIBS, 'link ' + l)
        os.replace(tmp, so)
        open(kf, 'w').write(key)
    return [libpath(l, mode) for l in order]


def build_exe(name, srcs, mode='rel', link=(), defs=(), std='c++17', opt='-O1', extra_inc=(), num='NUM_MPQ'):
    """compile a harness executable from /verif/mc/src against libapron of /repo's tree"""
    inc = [SRC] + [R(d) for d in ('apron', 'num', 'itv', 'box', 'octagons', 'newpolka', 'taylor1plus',
                                  'avoct', 'fppol', 'ppl', 'products', 'apronxx')] + [version_h()] + list(extra_inc)
    san = ['-fsanitize=address', '-fno-omit-frame-pointer'] if mode == 'asan' else []
    flags = ['-std=' + std, opt, '-g1', '-w', '-D' + num, '-U__STRICT_ANSI__'] + san + list(defs)
    with ThreadPoolExecutor(NJOBS) as ex:
        objs = list(ex.map(lambda s: obj(os.path.join(SRC, s), 'g++', flags, inc), srcs))
    os.makedirs(os.path.join(OUT, mode), exist_ok=True)
    exe = os.path.join(OUT, mode, name)
    L = os.path.join(OUT, mode)
    tmp = exe + '.tmp%d' % os.getpid()
    run(['g++'] + san + ['-o', tmp] + objs + ['-L' + L, '-Wl,-rpath,' + L] + ['-l' + l for l in link] +
        ['-lapron', '-lppl', '-lgmpxx', '-lmpfr', '-lgmp', '-lm', '-ldl', '-lpthread'], 'link ' + name)
    os.replace(tmp, exe)
    return exe


if __name__ == '__main__':
    mode = 'rel'
    a = sys.argv[1:]
    if a and a[0] in MODES:
        mode = a.pop(0)
    print('\n'.join(build_libs(a, mode)))
