"""The properties' plans: which harness runs, on which configurations and within which bounds."""
import random
from symlib import build as B
from symlib.run import Job, Judge, lanes, MEM_EVENTS, ARITH_EVENTS, RO_EVENTS

ALL = B.ALL
X = [c for c in ALL if B.CONFIGS[c]['target'] == 'x86']
# one configuration per word implementation and byte order
CORE = ['default', 'uint32', 'uint64-ppc64be']
VEC = [c for c in ALL if c not in ('default', 'uint32', 'uint64-ppc64be', 'uint32-ppc64be', 'default-altsbox', 'uint64-ppc64be-altsbox')]
HEAVY = ['avx2', 'avx2-altsbox', 'sse2', 'sse2-altsbox', 'ssse3', 'neon-aarch64', 'neon-aarch64-altsbox', 'mmx']

def single(cfg, op, lo, hi=0, extra=8, mis=0, step=0):
    return Job(cfg, 'h_single', [op, lo, extra, mis, hi, step], sym=(max(lo, hi)) * (max(hi - lo, 0) + 1))
def long_(cfg, op, l, back, f=0): return Job(cfg, 'h_long', [op, l, back, f], sym=l // 16)
def batch(cfg, op, n, maxlen, plen, cap, mis=0, stride=1, phase=0, h='h_batch'):
    nn = lanes(cfg) + 1 + n if n < 0 else n
    return Job(cfg, h, [op, n, maxlen, plen, cap, mis, stride, phase], sym=(nn // max(stride, 1) + 1) * min(cap, maxlen + 8) * (2 if h == 'h_cross' else 1))
def symlen(cfg, api, op, n, ml, lo, hi, stride=0, shrt=-1):
    """arbitrary payload lengths in [lo,hi]; one job per combination of short (under 8 bytes) and longer packets when shrt is given"""
    nn = lanes(cfg) + 1 + n if n < 0 else n
    return Job(cfg, 'h_symlen', [api, op, n, ml, lo, hi, stride, shrt], sym=(nn // max(stride, 1) + 1) * hi * 4)
def symlens(cfg, op, n, ml, hi): return [symlen(cfg, 1, op, n, ml, 0, hi, 0, m) for m in range(1 << n)]

def symn(cfg, op, lo, hi, ml, pl, stride, stale=0, events=False):
    """an arbitrary number of packets in [lo,hi]"""
    j = Job(cfg, 'h_symn', [op, lo, hi, ml, pl, stride, stale], sym=(hi if hi >= 0 else lanes(cfg)) * 4); j.events_only = events; return j
def symns(cfg, op, w, ml, pl, stride, stale=0, events=False): return [symn(cfg, op, lo, min(lo + w, lanes(cfg)), ml, pl, stride, stale, events) for lo in range(0, lanes(cfg), w)]

def chunks(lo, hi, k):
    """[lo,hi] cut into pieces of about equal total length"""
    out, a, tot = [], lo, sum(range(lo, hi + 1)) / k
    s = 0
    for x in range(lo, hi + 1):
        s += x
        if s >= tot or x == hi: out.append((a, x)); a, s = x + 1, 0
    return out

def order(jobs):
    return sorted(jobs, key=lambda j: -j.sym)

def phase(seed, i, stride): return (seed * 7 + i * 13) % stride

# ------------------------------------------------------------------------------------------
def p_single(op):
    def plan(T, seed):
        a = [single(c, op, 0, 24, step=1) for c in ALL]
        b = [single(c, op, l, h) for c in ('default', 'uint64-ppc64be') for l, h in chunks(25, 188, 8 if T else 10)]
        b += [single(c, op, 183, 185) for c in ALL if c not in ('default', 'uint64-ppc64be')]
        b += [single('default', op, l) for l in (256, 511, 1024)]
        b += [long_(c, op, l, k) for c in ('default', 'uint64-ppc64be') for l, k in ((32771, 4095), (65536, 0), (65547, 8190), (131077 if T else 65529, 1))]
        st = [a + [symlen(c, 0, op, 1, 0, 0, 40, 0, m) for c in ALL for m in (0, 1)], order(b + [symlen(c, 0, op, 1, 0, 0, (188, 64)[op] * (1 + T * op), 0, 0) for c in (ALL if T else CORE)])]
        if T: st.append(order([single(c, op, l, h, step=3) for c in ALL if c not in ('default', 'uint64-ppc64be') for l, h in chunks(25, 188, 6)] +
                              [single('default', op, l, h) for l, h in chunks(189, 300, 12)] + [single(c, op, l) for c in ('default', 'uint32-ppc64be') for l in (2048, 2049, 4095)]))
        return st
    return plan

def p_batch(op):
    def plan(T, seed):
        a = [batch(c, op, 1, 8, 8, 8) for c in ALL] + [batch(c, op, 1, 184, 184, 184) for c in ALL]
        sl = [j for c in ALL for j in symlens(c, op, 3, 184, 40 if T or op else 26)] + [symlen(c, 1, op, -1, 184, 0, 16, lanes(c) // 16, 0x5a5a) for c in ALL]
        sl += [j for c in (ALL if T else CORE) for j in symlens(c, op, 2, 184, 184 if T or op else 72) + symlens(c, op, 1, 184, 184)[:T or c == 'uint32']]
        b = [batch(c, op, -1, 16, 16, 16) for c in ALL]
        st = [order(a), order(b)]
        mixed = [batch(c, op, -1, 184, -2 - (seed * 11 + i * 37) % 185, 184, 1, 16, phase(seed, i, 16)) for i, c in enumerate(ALL)]
        st.append(order([batch(c, op, -1, 184, 184, 184, 0, 64, phase(seed, i, 64)) for i, c in enumerate(ALL)] + mixed))
        st.append(order(sl))
        if T:
            st.append(order([batch(c, op, -1, m, m, m) for c in ALL for m in (24, 64)] +
                            [batch(c, op, -1, 184, -2 - s, 184, 3, 8, phase(seed, s, 8)) for c in ALL for s in (0, 90)]))
            st.append(order([batch(c, op, -1, 184, 184, 184) for c in ALL]))
        else:
            st.append([batch('uint32', op, -1, 184, 184, 184), batch('default', op, -1, 184, 184, 184)])
        return st
    return plan

def p_round(T, seed):
    # first what, second what: 0 single dec, 1 batch dec, 2 single enc, 3 batch enc
    pairs = [(2, 0), (0, 2), (3, 1), (1, 3)] + ([(2, 1), (3, 0), (0, 3), (1, 2)] if T else [(2, 1), (3, 0)])
    J = lambda c, f, s, n, ml, plen, cap, mis=0: Job(c, 'h_round', [f, s, n, ml, plen, cap, mis, ml], sym=(lanes(c) if n < 0 else n) * cap * 2)
    a = [J(c, f, s, 1, 8, 8, 8) for c in ALL for f, s in pairs]
    b = [J(c, f, s, 4, 24, -2 - 20, 23) for c in ALL for f, s in pairs if f != s] + [J(c, f, s, 1, 184, l, 184) for c in CORE for f, s in pairs[:4] for l in (183, 184)]
    d = [J(c, f, s, -1, 16, 16, 16) for c in ALL for f, s in ((3, 1), (1, 3))]
    st = [a, order(b), order(d)]
    if T: st.append(order([J(c, f, s, 8, 184, -2 - 177, 184) for c in ALL for f, s in pairs] + [J(c, f, s, 1, 184, l, l) for c in CORE for f, s in pairs for l in range(1, 184, 7)]))
    return st

def p_partial(T, seed):
    st = []
    a = []
    for c in ALL:
        L = lanes(c)
        ns = sorted({0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 33, L // 2 - 1, L // 2, L // 2 + 1, L - 2, L - 1, L} & set(range(L + 1)))
        for n in ns:
            for op in (0, 1): a.append(batch(c, op, n, 16, -2 - n, 16, 0, max(1, L // 8), (n + seed) % max(1, L // 8)))
    # long packets in partial batches
    for i, c in enumerate(ALL):
        L = lanes(c)
        for k, n in enumerate((1, 2, 3, 5, 6, 7, 9, L // 2 + 1, L - 3, L - 1)):
            ops = (0, 1) if n <= 9 else ((k + i + seed) & 1,)
            for op in ops: a.append(batch(c, op, n, 48 if n <= 9 else 40, -2 - (44 if k & 1 else 38) + k % 3, 48, 0, 1 if n <= 9 else L // 4, 0))
        a.append(batch(c, (i + seed) & 1, 3, 184, -2 - 181, 184)); a.append(batch(c, (i + seed + 1) & 1, 5, 184, -2 - 176, 184))
    a += [j for c in ALL for op in (0, 1) for j in (symlens(c, op, 2, 184, 64) if T else [symlen(c, 1, op, 2, 184, 0, 32, 0, 1 + (op + seed) % 2)])]
    small = [j for j in a if j.h == 'h_symlen' or j.params[1] <= 3]; big = [j for j in a if j not in small]
    # every count, as a variable
    n8 = [j for c in ALL + B.EXTRA for op in (0, 1) for j in symns(c, op, 16, 8, 8, 32)]
    w = lambda c, op, i: (seed * 3 + i * 5 + op) * 8 % lanes(c)
    n24 = [symn(c, op, w(c, op, i), w(c, op, i) + 8, 24, -23, 8) for i, c in enumerate(ALL) for op in (0, 1)]
    st += [order(small), order(n8), order(big), order(n24)]
    if T: st += [order([batch(c, op, n, 8, 8, 8, 0, 4, n % 4) for c in ALL for n in range(lanes(c) + 1) for op in (0, 1)]), order([j for c in ALL for op in (0, 1) for j in symns(c, op, 8, 24, -23, 8)])]
    return st

def p_maxlen(T, seed):
    small = [batch(c, op, 4, 8, -2 - 6, 20) for c in ALL for op in (0, 1)] + [batch(c, op, 1, m, m + d, m + d) for c in CORE for op in (0, 1) for m in (0, 8, 16) for d in (1, 9)]
    mid = [batch(c, op, -1, m, -2 - (m * 3 + seed) % 185, 184, 0, 32, (m // 8 + seed) % 32) for c in ('default', 'uint32') for op in (0, 1) for m in range(0, 185, 8)]
    oth = [batch(c, op, -1, m, -2 - (m * 5 + seed * 3) % 185, 184, 0, 64, (m + seed) % 64) for i, c in enumerate(ALL) if c not in ('default', 'uint32') for op in (0, 1) for m in ((0, 8, 96, 176) if not T else range(0, 185, 8))]
    sl = [symlen(c, 1, op, 2, m, 0, m + 17, 0, k) for c in ALL for op in (0, 1) for m in (0, 8, 16) + ((40, 176) if T else ()) for k in (0, 1)]
    return [order(small), order(mid), order(sl), order(oth)]

def p_short(T, seed):
    a = [single(c, op, 0, 23, extra=16) for c in ALL for op in (0, 1)]
    a += [batch(c, op, n, m, -2 - s, 7) for c in ALL for op in (0, 1) for n, m, s in ((8, 8, 0), (3, 184, 5))]
    b = [batch(c, op, -1, 24, -2 - s, 23, 0, 4, (s + seed) % 4) for c in ALL for op in (0, 1) for s in (0, 8)]
    a += [symlen(c, 0, op, 1, 0, 0, 31, 0, k) for c in ALL for op in (0, 1) for k in (0, 1)]
    b += [symlen(c, 1, op, -1, 24, 0, 7) for c in ALL for op in (0, 1)] + [symlen(c, 1, op, -1, 24, 0, 23, lanes(c) // 16, 0x3c69) for c in ALL for op in (0, 1)]
    d = [batch(c, op, 8, 184, -2 - s, 184) for c in (ALL if T else CORE) for op in (0, 1) for s in (176, 104, 40)]
    st = [order(a), order(b), order(d)]
    if T: st.append(order([batch(c, op, -1, 16, -2 - s, 15) for c in ALL for op in (0, 1) for s in (0, 5)]))
    return st

def p_mem(T, seed):
    a = [single(c, op, 0, 24, extra=0, mis=m, step=1) for c in ALL for op in (0, 1) for m in (0,)]
    a += [Job(c, 'h_life', [api, f, 0, 1]) for c in ALL for api in (0, 1) for f in (0, 1)]
    a += [batch(c, op, n, m, -2 - s, 24, 1) for c in ALL for op in (0, 1) for n, m, s in ((9, 24, 0), (3, 184, 22))]
    for j in a:
        if j.h == 'h_life' and j.params[1]: j.reach = ('end', 'fault')
    b = [batch(c, op, -1, 184, -2 - (seed + 31 * i) % 185, 184, 1, 64, phase(seed, i, 64)) for i, c in enumerate(ALL) for op in (0, 1)]
    b += [j for c in ALL for op in (0, 1) for j in [symlen(c, 1, op, n, m, 0, h) for n, m, h in ((3, 184, 184), (3, 8, 40), (5, 48, 56), (1, 184, 184))] + [symlen(c, 1, op, -1, m, 0, h, lanes(c) // 8) for m, h in ((184, 40), (16, 40))] + [symlen(c, 0, op, 1, 0, l, l + 63) for l in (0, 64, 128)]]
    b += [batch(c, op, -1, 8, 8, 8) for c in ALL for op in (0, 1)]
    d = [batch(c, op, 4, 184, 190 + 70 * op, 260 + 200 * op) for c in ALL for op in (0, 1)] + [single('default', op, l, h, extra=0) for op in (0, 1) for l, h in chunks(25, 188, 4)]
    d += [long_('default', op, l, 5) for op in (0, 1) for l in (32771, 65547)] + [long_('default', op, l, 0, 1) for op in (0, 1) for l in (180, 1300, 8200, 65547)]
    d += [Job(c, 'h_life', [api, 0, 0, 1, 1, 1], sym=lanes(c)) for c in ALL for api in (0, 1)]
    d += [j for c in ALL for op in (0, 1) for j in symns(c, op, 16, 24, -23, 64, 0, True)]
    st = [order(a), order(b), order(d)]
    if T: st.append(order([batch(c, op, -1, m, -2 - (seed + m) % 185, 184, 1, 32, (m + seed) % 32) for c in ALL for op in (0, 1) for m in (0, 40, 104, 176, 184)] +
                          [batch(c, op, -1, 184, 184, 184, 5, 8, seed % 8) for c in ALL for op in (0, 1)]))
    return st

def p_const(T, seed):
    a = [single(c, op, 0, 24) for c in ALL for op in (0, 1)] + [batch(c, op, 5, 24, -2 - 20, 24) for c in ALL for op in (0, 1)]
    b = [batch(c, op, -1, 16, -2 - s, 16, 0, 4, seed % 4) for c in ALL for op in (0, 1) for s in (0,)]
    d = [batch(c, op, -1, 184, -2 - (seed + 77) % 185, 184, 0, 64, phase(seed, i, 64)) for i, c in enumerate(ALL) for op in (0, 1)]
    d += [single(c, op, 180, 186) for c in CORE for op in (0, 1)]
    b += [j for c in ALL for op in (0, 1) for j in symlens(c, op, 2, 184, 40) + [symlen(c, 0, op, 1, 0, l, l + 63) for l in (0, 64, 128)] + [symlen(c, 1, op, -1, 184, 0, 16, lanes(c) // 8)]]
    # lengths above the maximum: the batch array must come back untouched too
    b += [batch(c, op, 3, m, l, 192) for c in ALL for op in (0, 1) for m, l in ((184, 185), (40, 300))]
    b += [Job(c, 'h_rekey', [api, op, 24, 2, 24, h]) for c in ALL for api in (0, 1) for op in (0, 1) for h in range(4)]
    st = [order(a), order(b), order(d)]
    if T: st.append(order([batch(c, op, n, m, -2 - m, 184, 0, 32, (m + seed) % 32) for c in ALL for op in (0, 1) for m in (0, 48, 176) for n in (-1, -2)]))
    return st

def p_rekey(T, seed):
    J = lambda c, api, op, l, n, ml, hist: Job(c, 'h_rekey', [api, op, l, n, ml, hist], sym=(lanes(c) if n < 0 else n) * l)
    a = [J(c, api, op, 8, 1, 8, h) for c in ALL for api in (0, 1) for op in (0, 1) for h in range(4)]
    b = [J(c, api, op, 24, 2, 24, h) for c in ALL for api in (0, 1) for op in (0, 1) for h in range(4)]
    d = [J(c, 1, op, 16, -1, 16, h) for c in (ALL if T else CORE) for op in (0, 1) for h in (0, 2)]
    d += [J(c, api, op, 184, 1, 184, h) for c in (ALL if T else CORE) for op in (0, 1) for h in (0, 1, 2) for api in (0, 1)]
    return [order(a), order(b), order(d)]

def p_indep(T, seed):
    J = lambda c, l, m, s: Job(c, 'h_indep', [l, m, s], sym=10 * l)
    a = [J(c, 8, 8, s) for c in ALL for s in range(3)]
    b = [J(c, 24, 24, s) for c in ALL for s in range(3)]
    d = [J(c, 31, 184, s) for c in ALL for s in range(3)]
    st = [a, order(b), order(d)]
    g = [batch(c, op, -1, 184, -2 - (seed + 31 * i) % 185, 184, 0, 64, phase(seed, i, 64)) for i, c in enumerate(ALL) for op in (0, 1)]
    st.append(order(g))
    if T: st.append(order([J(c, l, 184, s) for c in ALL for s in range(3) for l in (104, 184)]))
    return st

def p_life(T, seed):
    a = []
    for c in ALL:
        for api in (0, 1):
            for o in range(6) if T or c in CORE else ((seed + len(a)) % 6,):
                j = Job(c, 'h_life', [api, 0, o, o & 1]); a.append(j)
            for f in range(1, 4 if T else 3):
                j = Job(c, 'h_life', [api, f, (seed + f) % 6, 1]); a.append(j)
                if f == 1: j.reach = ('end', 'fault')
    # contexts that also process empty batches, packets of 0 to 23 bytes, processing length 0
    # and in which allocations fail, should there be any
    f = [long_(c, op, l, 0, k) for c in CORE for op in (0, 1) for l in (180, 1300, 8200, 65547) for k in ((-1, 1, 2, 3) if T else (-1, 1))]
    return [a, order([Job(c, 'h_life', [api, 0, o, 1, 1], sym=lanes(c)) for c in ALL for api in (0, 1) for o in (range(6) if T else ((seed + api) % 6,))]),
            order([Job(c, 'h_life', [api, 0, 0, 1, 1, k], sym=lanes(c)) for c in ALL for api in (0, 1) for k in (1, 2, 3)[:2 + T]] + f)]

def p_align(T, seed):
    ms = lambda c: range(64) if (T or c in CORE) else sorted({1, 2, 3, 4, 5, 7, 8, 12, 15, 16, 17, 31, 33, 63} | {(seed * 5 + 11) % 64})
    a = [single(c, op, 0, 16, mis=0, step=s) for c in ALL for op in (0, 1) for s in (1, 5)]
    b = [batch(c, op, 1 + m % 3, 16, 16 - m % 2, 16, m) for i, c in enumerate(ALL) for m in ms(c) for op in ((0, 1) if T or m < 16 else ((m + i) & 1,))]
    d = [batch(c, op, -1, 16, 16, 16, 1, 2, seed % 2) for c in ALL for op in (0, 1)]
    d += [single(c, op, 184, 184 + 15, mis=1, step=1) for c in CORE for op in (0, 1)]
    st = [order(a), order(b), order(d)]
    if T: st.append(order([batch(c, op, -1, 184, -2 - (seed + s) % 185, 184, s, 32, (s + seed) % 32) for c in ALL for op in (0, 1) for s in (1, 3, 29)]))
    return st

def p_arith(T, seed):
    a = [single(c, op, 0, 24) for c in ALL for op in (0, 1)] + [batch(c, op, 1, 16, 16, 16) for c in ALL for op in (0, 1)]
    a += [batch(c, op, 7, 24, -2 - 18, 24) for c in ALL for op in (0, 1)]
    a += [Job(c, 'h_rekey', [api, 0, 8, 1, 8, 2]) for c in ALL for api in (0, 1)]
    b = [batch(c, op, -1, 16, 16, 16) for c in ALL for op in (0, 1)]
    d = [batch(c, op, -1, 184, -2 - (seed + 77) % 185, 184, 1, 64, phase(seed, i, 64)) for i, c in enumerate(ALL) for op in (0, 1)]
    d += [single(c, op, l, h) for c in CORE for op in (0, 1) for l, h in chunks(25, 190, 5)]
    b += [j for c in ALL for op in (0, 1) for j in symlens(c, op, 2, 184, 48) + [symlen(c, 0, op, 1, 0, l, l + 63) for l in (0, 64, 128)] + [symlen(c, 1, op, -1, 184, 0, 16, lanes(c) // 8)]]
    b += [batch(c, op, 2, m, l, 192) for c in ALL for op in (0, 1) for m, l in ((184, 185), (0, 8), (40, 0x7fffffff))]
    for j in a + b + d: j.ub = True
    d += [j for c in ALL for op in (0, 1) for j in symns(c, op, 16, 24, -23, 64, 0, True)]
    st = [order(a), order(b), order(d)]
    if T: st.append(order([batch(c, op, -1, m, -2 - m, 184, 1, 16, (m + seed) % 16) for c in ALL for op in (0, 1) for m in (0, 96, 176, 184)]))
    return st

def p_reject(T, seed):
    J = lambda c, op, m, n, l: Job(c, 'h_maxlen', [op, m, n, l], reach=('abort',), sym=n * l)
    a = [J(c, op, -1, n, l) for c in ALL for op in (0, 1) for n, l in ((1, 8), (3, 24))]
    b = [J(c, op, m, 2, 184) for c in ALL for op in (0, 1) for m in (1, 4, 12, 180, 183, 192, 256, 0x7ffffff8, -2**31, -8, -4)]
    for j in a + b: j.limit = 40
    st = [a, b]
    if T: st.append([J(c, op, -1, 8, l) for c in ALL for op in (0, 1) for l in (0, 7, 184)] + [J(c, op, -1, 0, 8) for c in ALL for op in (0, 1)])
    return st

def p_term(T, seed):
    a = [batch(c, op, n, 8, 8, 8) for c in ALL for op in (0, 1) for n in (0, 1, 2, 5)]
    b = [batch(c, op, n, 16, -2 - 9, 24, 0, 8, seed % 8) for c in ALL for op in (0, 1) for n in sorted({lanes(c) // 2, lanes(c) - 1, lanes(c) - 2})]
    # every position of the terminator, as a variable; the entries behind it hold stale packets
    y = [j for c in ALL for op in (0, 1) for j in symns(c, op, 64, 16, -15, 32, 1, True)] + [j for c in B.EXTRA for j in symns(c, seed & 1, 64, 16, -15, 32, 1, True)]
    st = [order(a), order(y), order(b)]
    if T: st.append(order([batch(c, op, n, 8, 8, 8, 0, 8, n % 8) for c in ALL for n in range(lanes(c) + 1) for op in (0, 1)]))
    return st

def p_over(T, seed):
    a = [batch(c, op, n, m, l, l) for c in ALL for op in (0, 1) for n, m, l in ((1, 184, 185), (2, 8, 200))]
    b = [batch(c, op, n, 184, l, min(l, 448)) for c in ALL for op in (0, 1) for n, l in ((3, 192), (2, 448), (2, 264))]
    # lengths that look short when cut to 8, 16 or 31 bits (only what may be touched is backed by memory)
    b += [batch(c, op, 2, m, l, 192) for c in ALL for op in (0, 1) for m, l in ((184, 65536 + 8), (40, 65536), (184, 0x7ffffff8))]
    d = [batch(c, op, -1, 184, -2 - 170, 300, 0, 64, phase(seed, i, 64)) for i, c in enumerate(ALL) for op in (0, 1)]
    st = [order(a), order(b), order(d)]
    if T: st.append(order([batch(c, op, -1, m, -2 - s, 511, 0, 64, (m + s) % 64) for c in ALL for op in (0, 1) for m in (0, 16, 184) for s in (180, 400)]))
    return st

def p_cross(T, seed):
    a = [batch(c, op, 1, 8, 8, 8, h='h_cross') for c in ALL for op in (0, 1)] + [batch(c, op, 6, 24, -2 - 26, 31, h='h_cross') for c in ALL for op in (0, 1)]
    b = [batch(c, op, -1, 16, 16, 16, h='h_cross') for c in ALL for op in (0, 1)]
    d = [batch(c, op, 4, 184, -2 - 182, 184, h='h_cross') for c in (ALL if T else CORE) for op in (0, 1)]
    d += [batch(c, op, -1, 184, -2 - (seed * 3 + i * 41) % 185, 184, 0, 64, phase(seed, i, 64), h='h_cross') for i, c in enumerate(ALL) for op in (0, 1)]
    d += [j for c in ALL for op in (0, 1) for j in symns(c, op, 16, 24, -23, 64, 0, True)]
    st = [order(a), order(b), order(d)]
    if T: st.append(order([batch(c, op, -1, m, -2 - m, 184, 0, 16, (m + seed) % 16, h='h_cross') for c in ALL for op in (0, 1) for m in (64, 184)]))
    return st

def p_size(T, seed):
    a = [Job(c, 'h_size', [op, m, h]) for c in ALL for op in (0, 1) for m, h in ((0, 0), (8, 0), (184, 0), (16, 1), (184, 1))]
    b = [batch(c, op, -1, 8, 8, 8) for c in ALL for op in (0, 1)]
    return [a, order(b)]

def p_lane(T, seed):
    J = lambda c, op, pos, ml, l, cap, ol, st, cnt=0: Job(c, 'h_lane', [op, pos, ml, l, cap, ol, st, cnt], sym=((cnt if cnt > 0 else lanes(c)) // max(st, 1) + 2) * cap * 2)
    pos = lambda c: range(lanes(c)) if T and lanes(c) <= 64 else sorted({0, 1, 7, 8, 15, 16, 31, lanes(c) // 2 - 1, lanes(c) // 2, lanes(c) - 2, lanes(c) - 1, (seed * 29 + 5) % lanes(c)} & set(range(lanes(c))))
    a = [J(c, op, p, 8, 8, 8, 8, 4) for c in ALL for op in (0, 1) for p in (0, -1)]
    # partial batches: one long packet, at the end or in the middle, among short ones
    p = [J(c, op, n - 1 if (n + op) & 1 else n // 2, 48, 45, 48, o, 64, n) for c in ALL for op in (0, 1) for n, o in ((2, 8), (3, 0), (4, 20), (6, 15), (7, 8))]
    p += [J(c, op, -1, 24, 24, 24, 8, 64, -k) for c in ALL for op in (0, 1) for k in (1, 2, 3)]
    b = [J(c, (p + i + seed) & 1, p, 16, 16, 16, -2 - p, 4) for i, c in enumerate(ALL) for p in pos(c)]
    d = [J(c, op, (seed * 31 + 17 + i) % lanes(c), 184, l, 184, -2 - (i * 41 + seed) % 185, 64) for i, c in enumerate(ALL) for op in (0, 1) for l in (184, 61)]
    if T: d += [J(c, op, n - 1, 184, 184 - n % 9, 184, (n * 5) % 60, 64, n) for c in ALL for op in (0, 1) for n in range(2, 30)]
    # arbitrary lengths of the packet, its neighbours, the first, the middle and the last one
    A = lambda c, op, pos, ml, cap, ol, st, cnt, any: Job(c, 'h_lane', [op, pos, ml, 0, cap, ol, st, cnt, any], sym=((cnt if cnt > 0 else lanes(c)) // max(st, 1) + 2) * cap * 4)
    y = [A(c, op, p, 24, 24, o, 64, 0, 24) for c in ALL for op in (0, 1) for p, o in ((0, 17), (1, 24), (-1, 8), (lanes(c) // 2, 24), ((seed * 31 + 17) % lanes(c), 7))]
    y += [A(c, op, p, 184, 48, 48, 64, n, 40) for c in ALL for op in (0, 1) for n, p in ((2, 1), (4, 2), (9, 8))]
    if T: y += [A(c, op, p, 64, 72, o, 64, 0, 64) for c in ALL for op in (0, 1) for p in (0, 3, -1) for o in (72, 9)]
    return [order(a), order(p), order(y), order(b), order(d)]

def p_uninit(T, seed):
    J = lambda c, api, op, n, ml, l, cap: Job(c, 'h_uninit', [api, op, n, ml, l, cap], uninit='taint', raw=True, sym=(lanes(c) if n < 0 else n) * cap)
    a = [J(c, api, op, 1, 8, 8, 8) for c in ALL for op in (0, 1) for api in (0, 1)]
    b = [J(c, api, op, 3, 24, -2 - 21, 30) for c in ALL for op in (0, 1) for api in (0, 1)]
    d = [J(c, 1, op, -1, 16, -2 - 7, 16) for c in (ALL if T else CORE) for op in (0, 1)]
    return [order(a), order(b), order(d)]

def p_fpu(T, seed):
    F = ['mmx-clang'] + ALL
    a = [batch(c, op, n, m, l, 24) for c in F for op in (0, 1) for n, m, l in ((0, 184, 24), (1, 0, 8), (2, 24, 3), (3, 24, 24))]
    a += [Job(c, 'h_rekey', [api, op, 8, 1, 8, h]) for c in F for api in (0, 1) for op in (0, 1) for h in (0, 3)] + [single(c, op, 0, 24, step=4) for c in F for op in (0, 1)]
    b = [batch('mmx-clang', op, -1, 184, -2 - seed % 185, 184, 0, 16, seed % 16) for op in (0, 1)] + [batch('mmx-clang', op, n, 184, -2 - n, 184) for op in (0, 1) for n in range(1, 9)]
    if T: b += [batch('mmx-clang', op, n, m, -2 - n, 184, 0, 8, n % 8) for op in (0, 1) for n in range(0, 65) for m in (0, 8, 184)]
    return [order(a), order(b)]

def p_alias(T, seed):
    F = ALL + B.EXTRA
    a = [batch(c, op, 3, 24, -2 - 18, 30) for c in F for op in (0, 1)] + [Job(c, 'h_rekey', [api, op, 24, 2, 24, h], sym=48) for c in F for api, op, h in ((1, 0, 1), (1, 1, 0), (1, seed & 1, 3), (0, 0, 1), (0, 1, 2))]
    a += [single(c, op, 0, 24, step=5) for c in ('default', 'uint64-ppc64be') for op in (0, 1)] + [Job(c, 'h_life', [1, f, 2, 1], reach=('end', 'fault') if f == 1 else ('end',)) for c in F for f in (0, 1)]
    b = [batch(c, op, -1, 8, -2 - 5, 8) for c in F for op in (0, 1)] + [batch(c, op, 5, m, -2 - m, m + 9) for c in F for op in (0, 1) for m in (0, 40)]
    if T: b += [batch(c, op, n, 48, -2 - n, 48) for c in F for op in (0, 1) for n in (1, 7, 17, 31)] + [batch(c, op, 1, 184, 184, 184) for c in F for op in (0, 1) if 'avx2' not in c]
    for j in a + b: j.alias = True
    return [order(a), order(b)]

def p_return(T, seed):
    F = ALL + B.EXTRA
    a = [symlen(c, 0, op, 1, 0, 0, (320, 264)[op] + 150 * T * (1 - op)) for c in CORE for op in (0, 1)] + [symlen(c, 1, op, 3, 184, 0, 184) for c in F for op in (0, 1)]
    a += [Job(c, 'h_rekey', [api, op, 24, 2, 24, h], sym=48) for c in F for api, op, h in ((1, 0, 1), (1, 1, 0), (0, 0, 2), (0, 1, 3))] + [Job(c, 'h_life', [1, f, 2, 1], reach=('end', 'fault') if f == 1 else ('end',)) for c in F for f in (0, 1)]
    b = [j for c in F for op in (0, 1) for j in symns(c, op, 32, 16 if T else 8, -17, 16)] + [batch(c, op, -1, m, -2 - (m + seed) % 185, 184, 0, 32, seed % 32) for c in F for op in (0, 1) for m in (0, 184)]
    b += [long_(c, op, l, 0) for c in CORE for op in (0, 1) for l in (505, 511, 512, 1021, 1024, 2047, 2048, 4099, 8192, 16385, 32767, 32776, 65535, 65547) + ((65536, 131071, 131077) if T else ())]
    b += [batch(c, op, 2, 184, l, l) for c in F for op in (0, 1) for l in (185, 512)]
    for j in a + b: j.visits = 1 << 21
    return [order(a), order(b)]

def p_quiet(T, seed):
    F = ALL + B.EXTRA
    a = [batch(c, op, n, m, -2 - m, m + 8) for c in F for op in (0, 1) for n, m in ((0, 24), (3, 0), (3, 24), (-1, 8))] + [single(c, op, 0, 24, step=5) for c in CORE for op in (0, 1)]
    a += [Job(c, 'h_rekey', [api, op, 24, 2, 24, h], sym=48) for c in F for api, op, h in ((1, 0, 1), (1, 1, 0), (0, 0, 2), (0, 1, 3))] + [Job(c, 'h_life', [1, f, 2, 1], reach=('end', 'fault') if f == 1 else ('end',)) for c in F for f in (0, 1)]
    a += [symlen(c, 0, op, 1, 0, 0, 188) for c in CORE for op in (0, 1)] + [symlen(c, 1, op, 3, 184, 0, 184) for c in F for op in (0, 1)] + [long_(c, op, 65547, 0) for c in CORE for op in (0, 1)]
    b = [batch(c, op, -1, 184, -2 - (seed * 7) % 185, 184, 0, 32, seed % 32) for c in F for op in (0, 1)] + [batch(c, op, 2, 184, l, l) for c in F for op in (0, 1) for l in (185, 250)]
    b += [j for c in F for op in (0, 1) for j in symns(c, op, 64, 8, -17, 16)]
    return [order(a), order(b)]

def extra(pid, T, seed):
    """smaller bounds on the other combinations of configure options"""
    X, ops = B.EXTRA, (0, 1); E = []
    st8 = lambda c: max(1, lanes(c) // 8)
    if pid in ('C04', 'C05'): E = [j for c in X for j in [batch(c, pid == 'C05', 1, 8, 8, 8), batch(c, pid == 'C05', -1, 16, 16, 16, 0, 2, seed % 2), batch(c, pid == 'C05', 3, 184, -2 - 181, 184)] + symlens(c, pid == 'C05', 2, 184, 33)]
    if pid == 'C06': E = [batch(c, op, n, 24, -2 - 20, 24, 0, st8(c), n % st8(c)) for c in X for op in ops for n in (0, 3, 6, lanes(c) // 2 + 1, lanes(c) - 1)]
    if pid == 'C07': E = [batch(c, op, 5, m, -2 - m, m + 9) for c in X for op in ops for m in (0, 8, 24)]
    if pid == 'C09': E = [batch(c, op, n, m, -2 - s, 24, 1) for c in X for op in ops for n, m, s in ((9, 24, 0), (3, 184, 22), (-1, 8, 0))]
    if pid == 'C10': E = [batch(c, op, 5, 24, -2 - 20, 24) for c in X for op in ops]
    if pid == 'C11': E = [Job(c, 'h_rekey', [1, op, 24, 2, 24, h], sym=48) for c in X for op in ops for h in range(4)]
    if pid == 'C12': E = [Job(c, 'h_indep', [24, 24, s], sym=240) for c in X for s in range(3)]
    if pid == 'C13': E = [Job(c, 'h_life', [1, f, (seed + f) % 6, 1], reach=('end', 'fault') if f == 1 else ('end',)) for c in X for f in (0, 1, 2)] + [Job(c, 'h_life', [1, 0, seed % 6, 1, 1]) for c in X]
    if pid == 'C14': E = [batch(c, op, 1 + m % 3, 16, 16 - m % 2, 16, m) for c in X for op in ops for m in (1, 2, 4, 7, 8, 15)]
    if pid == 'C15':
        E = [batch(c, op, 7, 24, -2 - 18, 24) for c in X for op in ops]
        for j in E: j.ub = True
    if pid == 'C16': E = [Job(c, 'h_maxlen', [op, -1, 3, 24], reach=('abort',), sym=72) for c in X for op in ops]
    if pid == 'C17': E = [batch(c, op, n, 16, -2 - 9, 24, 0, st8(c), n % st8(c)) for c in X for op in ops for n in (0, 1, lanes(c) - 2)]
    if pid == 'C18': E = [batch(c, op, n, 184, l, l) for c in X for op in ops for n, l in ((1, 185), (2, 264))]
    if pid == 'C19': E = [batch(c, op, 6, 24, -2 - 26, 31, h='h_cross') for c in X for op in ops]
    if pid == 'C20': E = [Job(c, 'h_size', [op, 8, h]) for h in (0, 1) for c in X for op in ops] + [batch(c, op, -1, 8, 8, 8) for c in X for op in ops]
    if pid == 'C21': E = [Job(c, 'h_lane', [op, p, 8, 8, 8, 8, 4, 0], sym=lanes(c) * 4) for c in X for op in ops for p in (0, lanes(c) // 2, -1)]
    if pid == 'C22': E = [Job(c, 'h_uninit', [1, op, 3, 24, -2 - 21, 30], uninit='taint', raw=True, sym=90) for c in X for op in ops]
    if pid == 'C23': E = [batch(c, op, n, m, l, 24) for c in X for op in ops for n, m, l in ((0, 184, 24), (3, 24, 24))]
    return order(E)

def stages(pid, T, seed):
    st = PROPS[pid][0](T, seed); e = extra(pid, T, seed)
    return st[:1] + [e] + st[1:] if e else st

batch_obj = lambda e: e['kind'] != 'oob-read' or 'of batch' in e['detail'] or 'of stale' in e['detail']
heap_misaligned = lambda e: True

PROPS = {
    'C01': (p_single(0), Judge(asserts=True)),
    'C02': (p_single(1), Judge(asserts=True)),
    'C03': (p_round, Judge(asserts=True)),
    'C04': (p_batch(0), Judge(asserts=True)),
    'C05': (p_batch(1), Judge(asserts=True)),
    'C06': (p_partial, Judge(asserts=True)),
    'C07': (p_maxlen, Judge(asserts=True)),
    'C08': (p_short, Judge(asserts=True)),
    'C09': (p_mem, Judge(events=MEM_EVENTS)),
    'C10': (p_const, Judge(events=RO_EVENTS)),
    'C11': (p_rekey, Judge(asserts=True)),
    'C12': (p_indep, Judge(asserts=True, events={'global-write'})),
    'C13': (p_life, Judge(asserts=True, events={'bad-free', 'double-free', 'use-after-free', 'misaligned', 'null-deref'})),
    'C14': (p_align, Judge(asserts=True, events={'misaligned'})),
    'C15': (p_arith, Judge(events=ARITH_EVENTS)),
    'C16': (p_reject, Judge(asserts=True, expect_abort=True)),
    'C17': (p_term, Judge(asserts=True, events={'oob-read', 'oob-write'}, match=lambda e: e['kind'] == 'abort' or 'batch' in e['detail'] or 'stale' in e['detail'])),
    'C18': (p_over, Judge(asserts=True, events=MEM_EVENTS)),
    'C19': (p_cross, Judge(asserts=True)),
    'C20': (p_size, Judge(asserts=True)),
    'C21': (p_lane, Judge(asserts=True)),
    'C22': (p_uninit, Judge(asserts=True)),
    'C23': (p_fpu, Judge(events={'fpu-state'})),
    'C24': (p_alias, Judge(events={'alias'})),
    'C25': (p_return, Judge(events={'no-return'}, hang=True)),
    'C26': (p_quiet, Judge(events={'io'})),
}
