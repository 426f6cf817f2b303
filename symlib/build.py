"""Builds, from /repo's current working tree, the LLVM IR the engine executes and
the native programs that replay counterexamples. Everything lands in /verif/build,
keyed by a hash of all inputs, so nothing stale is ever reused."""
import hashlib, os, re, subprocess, glob, fcntl, shutil, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SYX_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')

X86 = dict(target='x86', endian='LITTLE', mm=1, clang=[], gcc='gcc', run=[])
A64 = dict(target='aarch64', endian='LITTLE', mm=0, clang=['--target=aarch64-linux-gnu', '-isystem', '/usr/aarch64-linux-gnu/include'],
           gcc='aarch64-linux-gnu-gcc', run=['qemu-aarch64', '-L', '/usr/aarch64-linux-gnu'])
PPC = dict(target='ppc64', endian='BIG', mm=1, clang=['--target=powerpc64-linux-gnu', '-isystem', '/usr/powerpc64-linux-gnu/include', '-DNO_WARN_X86_INTRINSICS'],
           gcc='powerpc64-linux-gnu-gcc', run=['qemu-ppc64', '-L', '/usr/powerpc64-linux-gnu'])

def _c(base, word, batch, flags=(), alt=0):
    d = dict(base); d.update(word=word, batch=batch, flags=list(flags), alt=alt, t32=(word == 'UINT32')); return d

AVX2_RUN = [] if 'avx2' in open('/proc/cpuinfo').read() else ['qemu-x86_64', '-cpu', 'max']
CONFIGS = {
    'default':               _c(X86, 'UINT64', 64),
    'default-altsbox':       _c(X86, 'UINT64', 64, alt=1),
    'uint32':                _c(X86, 'UINT32', 32),
    'mmx':                   _c(X86, 'MMX', 64, ['-mmmx']),
    'sse2':                  _c(X86, 'SSE', 128, ['-msse', '-msse2']),
    'sse2-altsbox':          _c(X86, 'SSE', 128, ['-msse', '-msse2'], alt=1),
    'ssse3':                 _c(X86, 'SSSE3', 128, ['-mssse3']),
    'avx2':                  dict(_c(X86, 'AVX2', 256, ['-mavx2']), run=AVX2_RUN),
    'avx2-altsbox':          dict(_c(X86, 'AVX2', 256, ['-mavx2'], alt=1), run=AVX2_RUN),
    'neon-aarch64':          _c(A64, 'NEON', 128),
    'neon-aarch64-altsbox':  _c(A64, 'NEON', 128, alt=1),
    'uint64-ppc64be':        _c(PPC, 'UINT64', 64),
    'uint64-ppc64be-altsbox': _c(PPC, 'UINT64', 64, alt=1),
    'uint32-ppc64be':        _c(PPC, 'UINT32', 32),
}
ALL = list(CONFIGS)
# further combinations configure accepts, checked with smaller bounds: the transposition for 32-bit x86 (its code is
# portable C; compiled for x86-64 with the macro set), allocation by malloc alone, and the remaining S-box variants
CONFIGS.update({
    'uint64-i386':           dict(_c(X86, 'UINT64', 64, ['-D__i386__=1']), mm=0, long=4, memalign=0),
    'mmx-i386':              dict(_c(X86, 'MMX', 64, ['-mmmx', '-D__i386__=1']), long=4),
    'sse2-i386':             dict(_c(X86, 'SSE', 128, ['-msse', '-msse2', '-D__i386__=1']), long=4),
    'uint32-altsbox':        _c(X86, 'UINT32', 32, alt=1),
    'mmx-altsbox':           _c(X86, 'MMX', 64, ['-mmmx'], alt=1),
    'ssse3-altsbox':         _c(X86, 'SSSE3', 128, ['-mssse3'], alt=1),
    'uint32-ppc64be-altsbox': _c(PPC, 'UINT32', 32, alt=1),
    'default-debug':         _c(X86, 'UINT64', 64, ['-DDVBCSA_DEBUG']),
})
EXTRA = [c for c in CONFIGS if c not in ALL]
# gcc keeps MMX values in SSE registers; clang really uses the MMX registers
CONFIGS['mmx-clang'] = dict(CONFIGS['mmx'], gcc='clang-18')

def config_h(c):
    l = ['DVBCSA_ENDIAN_%s 1' % c['endian'], 'DVBCSA_USE_%s 1' % c['word']]
    if c['alt']: l.append('DVBCSA_USE_ALT_SBOX 1')
    if c['mm']: l.append('HAVE_MM_MALLOC 1')
    if c.get('memalign', 1): l.append('HAVE_POSIX_MEMALIGN 1')
    l += [x + ' 1' for x in ('HAVE_ASSERT_H HAVE_ATTRIBUTE_MAY_ALIAS HAVE_DLFCN_H HAVE_INTTYPES_H '
          'HAVE_STDINT_H HAVE_STDIO_H HAVE_STDLIB_H HAVE_STRINGS_H HAVE_STRING_H HAVE_SYS_STAT_H HAVE_SYS_TYPES_H '
          'HAVE_UNISTD_H STDC_HEADERS').split()] + ['SIZEOF_LONG %d' % c.get('long', 8), 'VERSION "1.1.0"', 'PACKAGE "libdvbcsa"']
    return ''.join('#define %s\n' % x for x in l)

def sources(c):
    """The library's C files for a configuration, from src/Makefile.am."""
    src = os.path.join(REPO, 'src')
    try:
        am = open(os.path.join(src, 'Makefile.am')).read().replace('\\\n', ' ')
        out, stack = [], []
        for line in am.splitlines():
            t = line.split()
            if not t: continue
            if t[0] == 'if': stack.append((t[1], True)); continue
            if t[0] == 'else': stack[-1] = (stack[-1][0], not stack[-1][1]); continue
            if t[0] == 'endif': stack.pop(); continue
            if t[0] == 'libdvbcsa_la_SOURCES' and all((cond == 'TRANSPOSE_32') == (c['t32'] == pol) if cond == 'TRANSPOSE_32' else False for cond, pol in stack):
                out += [x for x in t[2:] if x.endswith('.c')]
        if out and all(os.path.exists(os.path.join(src, x)) for x in out): return out
    except OSError:
        pass
    drop = 'dvbcsa_bs_transpose_stream.c' if c['t32'] else 'dvbcsa_bs_transpose_stream32.c'
    return sorted(os.path.basename(f) for f in glob.glob(src + '/*.c') if not f.endswith(drop))

def _hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b'\0')
    return h.hexdigest()[:16]

def tree_hash(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in sorted(os.walk(d)):
            ds.sort()
            if '.git' in root or '_build' in root: continue
            for f in sorted(fs):
                if f.endswith(('.c', '.h', '.inc', '.am', '.cpp', '.ac')):
                    p = os.path.join(root, f); h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]

class Lock:
    def __init__(s, name):
        os.makedirs(BUILD, exist_ok=True); s.f = open(os.path.join(BUILD, name + '.lock'), 'w')
    def __enter__(s): fcntl.flock(s.f, fcntl.LOCK_EX); return s
    def __exit__(s, *a): s.f.close()

class BuildError(Exception): pass

def sh(cmd, **k):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    if r.returncode: raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return r.stdout

def engine():
    e = os.path.join(VERIF, 'engine')
    d = os.path.join(BUILD, 'engine-' + tree_hash(e)); x = os.path.join(d, 'symx')
    with Lock('engine'):
        if not os.path.exists(x):
            os.makedirs(d, exist_ok=True)
            ps = [subprocess.Popen(['g++', '-O2', '-std=c++17', '-I/usr/include/llvm-18', '-I/usr/include/llvm-c-18', '-c', os.path.join(e, f + '.cpp'), '-o', os.path.join(d, f + '.o')],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for f in ('exec', 'xag')]
            outs = [p.communicate()[0] for p in ps]
            if any(p.returncode for p in ps): raise BuildError('engine: ' + ''.join(outs))
            sh(['g++', os.path.join(d, 'exec.o'), os.path.join(d, 'xag.o'), '-o', x + '.tmp', '-L/usr/lib/llvm-18/lib', '-lLLVM-18', '-lz3', '-lminisat'])
            os.rename(x + '.tmp', x)
    return x

_rh = {}
def repo_hash():
    if REPO not in _rh: _rh[REPO] = tree_hash(os.path.join(REPO, 'src'))
    return _rh[REPO]
def harness_hash():
    if 'h' not in _rh: _rh['h'] = tree_hash(os.path.join(VERIF, 'harness'), os.path.join(VERIF, 'ref'))
    return _rh['h']

def cfgdir(cfg):
    d = os.path.join(BUILD, 'src-' + _hash(repo_hash(), harness_hash(), cfg, config_h(CONFIGS[cfg]), repr(CONFIGS[cfg])))
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, 'config.h')
    with Lock('cfg-' + cfg):
        if not os.path.exists(p):
            t = p + '.%d' % os.getpid(); open(t, 'w').write(config_h(CONFIGS[cfg])); os.rename(t, p)
    return d

def prune(days=0.2, keep=60):
    """Drops build products of earlier trees."""
    now = time.time(); ds = []
    for n in os.listdir(BUILD) if os.path.isdir(BUILD) else []:
        p = os.path.join(BUILD, n)
        if n.startswith(('src-', 'engine-')) and os.path.isdir(p): ds.append((os.path.getmtime(p), p))
    for i, (t, p) in enumerate(sorted(ds, reverse=True)):
        if i >= keep and now - t > days * 86400: shutil.rmtree(p, ignore_errors=True)

def incs(c, d): return ['-I' + d, '-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(VERIF, 'harness')]

UB = ['-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero', '-fsanitize-trap=all']
def bitcode(cfg, harness, raw=False, ub=False, alias=False):
    """IR of the library for cfg, linked with the reference and one harness. raw keeps local
    variables in memory (promoting them would replace uninitialised reads by constants); ub compiles checks for undefined
    arithmetic into the library (left shifts of signed values have no trace in plain IR); alias keeps the types of all
    accesses (what the optimiser would be told), with locals in memory."""
    c = CONFIGS[cfg]; d = cfgdir(cfg); out = os.path.join(d, harness + ('.alias' if alias else '.raw' if raw else '.ub' if ub else '') + '.bc')
    with Lock('ir-%s' % cfg):
        if os.path.exists(out): return out
        cl = ['clang-18'] + c['clang'] + (['-O1', '-Xclang', '-disable-llvm-passes', '-fstrict-aliasing'] if alias else ['-O0', '-Xclang', '-disable-O0-optnone']) + ['-gline-tables-only', '-c', '-emit-llvm', '-D_XOPEN_SOURCE=600', '-w'] + c['flags'] + incs(c, d)
        lib = os.path.join(d, 'lib.bc')
        srcs = sources(c)
        ps, objs = [], []
        def comp(path, o, extra=()):
            objs.append(o)
            if not os.path.exists(o): ps.append((subprocess.Popen(cl + list(extra) + [path, '-o', o + '.tmp'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), o))
        for s in srcs: comp(os.path.join(REPO, 'src', s), os.path.join(d, ('alias_' if alias else 'ub_' if ub else 'lib_') + s + '.bc'), UB if ub else [])
        comp(os.path.join(VERIF, 'ref/csa_ref.c'), os.path.join(d, 'ref.bc' if not alias else 'alias_ref.bc'))
        comp(os.path.join(VERIF, 'harness', harness + '.c'), os.path.join(d, harness + ('.h.bc' if not alias else '.ah.bc')))
        for p, o in ps:
            t = p.communicate()[0]
            if p.returncode: raise BuildError('clang (%s): %s' % (cfg, t[-3000:]))
            os.rename(o + '.tmp', o)
        sh(['llvm-link-18', '-o', out + '.all'] + objs)
        sh(['opt-18', '-passes=always-inline,lowerswitch' if alias else '-passes=lowerswitch' if raw else '-passes=sroa,lowerswitch', out + '.all', '-o', out + '.tmp'])
        os.unlink(out + '.all'); os.rename(out + '.tmp', out)
    return out

def native(cfg, harness, san=False):
    """Native replay program: the same harness and library, compiled with the
    build's own compiler and flags; san adds address and UB sanitizers (x86)."""
    c = CONFIGS[cfg]; d = cfgdir(cfg); out = os.path.join(d, harness + ('.san' if san else '.nat'))
    with Lock('nat-%s' % cfg):
        if os.path.exists(out): return out
        fl = ['-D_XOPEN_SOURCE=600', '-w'] + c['flags'] + incs(c, d)
        if san: fl += ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']
        else: fl += ['-O3', '-g', '-funroll-loops', '-fomit-frame-pointer', '-fno-tree-vectorize']
        cc = c['gcc']
        srcs = [os.path.join(REPO, 'src', s) for s in sources(c)] + [os.path.join(VERIF, 'ref/csa_ref.c'), os.path.join(VERIF, 'harness', harness + '.c'), os.path.join(VERIF, 'harness/sy_native.c')]
        sh([cc] + fl + srcs + ['-Wl,--wrap=malloc,--wrap=calloc,--wrap=free,--wrap=posix_memalign', '-DSY_ENTRY=' + harness, '-o', out + '.tmp'])
        os.rename(out + '.tmp', out)
    return out
