"""search.h: selection, sorting, searching, shortest paths (C26, C27)"""
from . import *
from ..structs import *
from .bits import *
from .sets import member, BITS
P = 'C26'
ALG = 'the invariants need the number of elements selected so far (a counting argument over a local object)'
def small(g, t, n):
    r = g.r.random()
    if t == 'd':
        big = 1.7976931348623157e308
        if r < 0.2: return [g.r.choice([big, -big, 0.0, -1.0, 2.5]) for _ in range(n)]
        if r < 0.5: return [float(g.r.randint(-2, 2)) for _ in range(n)]
        if r < 0.55: return [1.0 + g.r.randint(0, 3) * 2.0 ** -g.r.choice([20, 30, 50]) for _ in range(n)]
        if r < 0.6: return [-abs(g.r.uniform(0, 5)) for _ in range(n)]
        return [g.r.uniform(-5, 5) for _ in range(n)]
    if r < 0.1: return [g.r.choice([1 << 24, 1 << 30, -(1 << 26)]) + g.r.randint(0, 3) for _ in range(n)]
    if r < 0.25: return [g.r.choice([2147483647, -2147483648, 0, 1, -1]) for _ in range(n)]
    if r < 0.6: return [g.r.randint(-2, 2) for _ in range(n)]
    if r < 0.7: return sorted([g.r.randint(-20, 20) for _ in range(n)], reverse=g.r.random() < .5)
    return [g.r.randint(-50, 50) for _ in range(n)]
def vecof(g, t, n):
    d = small(g, t, n)
    return ConcMat(t, n, 1, d) if g.r.random() < .6 else ConcMat(t, 1, n, d)
def gen_sel(g, n):
    t = g.ct.T
    N = g.r.choice([1, 2, 3, 4, 5, 8, 9, 13, 40, 300]) if n % 25 else 2000
    A = vecof(g, t, N)
    if 'mat' in [k.split('<')[0].lstrip('c') for _, k in g.ct.params] and dict(g.ct.params).get('I'):
        m = g.r.randint(1, N); ix = g.r.sample(range(N), m)
        if g.r.random() < .3: ix.sort()
        return dict(A=A, I=ConcMat('u', m, 1, ix), n=g.r.choice([1, m, m, max(1, m - 1), g.r.randint(1, m), m + 1]))
    return dict(A=A, n=g.r.choice([1, 1, N, N, max(1, N - 1), g.r.randint(1, min(N, 20)), N + 1]))
def pick(c, order, cand):
    """the indices are the first n of the candidates, stably ordered"""
    if c.mode != 'conc': return
    want = sorted(cand, key=order)[:c.n]
    A = c.A
    c.retmat(c.n, 1, None)
    def ok(r):
        got = [r.at(k) for k in range(c.n)]
        if len(set(got)) != len(got) or not set(got) <= set(cand): return False
        return [order(g) for g in got] == [order(w) for w in want]
    c.ens(lambda r: ok(r), 'distinct indices of the extremal candidates, in order')
def vec_of(c):
    c.pre(Gt(c.A.N, 0), 'not empty'); c.pre(Lt(c.A.N, 1 << 32), 'less than 2^32 elements')
    c.req(c.A.isvec, 'a vector')
@contract('susa::matrix<unsigned int> susa::select_least<{T}>(susa::matrix<{T}> const&, unsigned int)', 'mat<u>', 'A:cmat n:u32', P, 'auto ret = susa::select_least(A, n);', Ts=('d', 'i'), bounded_only=ALG, gen=gen_sel)
def sel_least(c, t):
    vec_of(c); c.pre(And(Gt(c.n, 0), Lt(c.n, 1 << 20)), 'at least one element and less than 2^20 are selected'); c.req(Le(c.n, c.A.N), 'no more than the elements there are')
    pick(c, lambda j: c.A.at(j), range(c.A.N) if c.mode == 'conc' else ())
@contract('susa::matrix<unsigned int> susa::select_most<{T}>(susa::matrix<{T}> const&, unsigned int)', 'mat<u>', 'A:cmat n:u32', P, 'auto ret = susa::select_most(A, n);', Ts=('d', 'i'), bounded_only=ALG, gen=gen_sel)
def sel_most(c, t):
    vec_of(c); c.pre(And(Gt(c.n, 0), Lt(c.n, 1 << 20)), 'at least one element and less than 2^20 are selected'); c.req(Le(c.n, c.A.N), 'no more than the elements there are')
    pick(c, lambda j: -c.A.at(j), range(c.A.N) if c.mode == 'conc' else ())
@contract('susa::matrix<unsigned int> susa::select_limited_least<{T}>(susa::matrix<{T}> const&, susa::matrix<unsigned int> const&, unsigned int)', 'mat<u>', 'A:cmat I:cmat<u> n:u32', P, 'auto ret = susa::select_limited_least(A, I, n);', Ts=('d', 'i'), bounded_only=ALG, gen=gen_sel)
def sel_lim(c, t):
    vec_of(c); c.pre(And(Gt(c.n, 0), Lt(c.n, 1 << 20)), 'at least one element and less than 2^20 are selected'); c.req(Le(c.n, c.I.N), 'no more than the candidates')
    if c.mode == 'conc': ix = [c.I.at(k) for k in range(c.I.N)]; c.pre(len(set(ix)) == len(ix) and all(k < c.A.N for k in ix), 'the candidates are distinct positions')
    pick(c, lambda j: c.A.at(j), [c.I.at(k) for k in range(c.I.N)] if c.mode == 'conc' else ())
@contract('susa::matrix<{T}> susa::sort<{T}>(susa::matrix<{T}> const&)', 'mat', 'A:cmat', P, 'auto ret = susa::sort(A);', Ts=('d', 'i'), bounded_only=ALG, gen=lambda g, n: dict(A=vecof(g, g.ct.T, g.r.choice([1, 2, 3, 4, 5, 6, 7, 12, 60]))))
def srt(c, t):
    vec_of(c)
    if c.mode != 'conc': return
    s = sorted(c.A.at(k) for k in range(c.A.N))
    c.retmat(c.A.R, c.A.C, lambda r, q: s[r + c.A.R * q])
@contract('susa::matrix<unsigned int> susa::sort_indices<{T}>(susa::matrix<{T}> const&)', 'mat<u>', 'A:cmat', P, 'auto ret = susa::sort_indices(A);', Ts=('d', 'i'), bounded_only=ALG, gen=lambda g, n: dict(A=vecof(g, g.ct.T, g.r.choice([1, 2, 3, 4, 5, 6, 7, 12, 60]))))
def srti(c, t):
    vec_of(c)
    if c.mode != 'conc': return
    c.retmat(c.A.N, 1, None)
    def ok(r):
        got = [r.at(k) for k in range(c.A.N)]
        return sorted(got) == list(range(c.A.N)) and all(c.A.at(got[k]) <= c.A.at(got[k + 1]) for k in range(c.A.N - 1))
    c.ens(lambda r: ok(r), 'a permutation of the indices that orders the elements')
def gen_find(g, n):
    A = vecof(g, g.ct.T, g.r.choice([1, 2, 3, 7, 8, 9, 17, 40]))
    return dict(A=A, x=g.r.choice([A.data[g.r.randrange(A.N)]] * 3 + small(g, g.ct.T, 1)))
@contract('susa::bitset susa::find<{T}>(susa::matrix<{T}> const&, {T}&)', 'Bits', 'A:cmat x:sref', P, 'susa::bitset ret = susa::find(A, x);', Ts=('d', 'i'), gen=gen_find)
def fnd(c, t):
    vec_of(c); c.pre(Lt(c.A.N, 1 << 31), 'less than 2^31 elements')
    n = add(c.A.N, 1); nb = add(div(n, 8), Ite(Eq(mod(n, 8), 0), 0, 1))
    hit = lambda k: And(Lt(k, c.A.N), Eq(c.A.at(k), c.x))
    c.retobj(_matrix=ANY, sizet_bytes=nb, sizet_objects=nb, nbytes=nb, uint_set_size=n)
    c.ens(lambda r: Q(['k'], lambda k: (And(Ge(k, 0), Lt(k, n)), Eq(member(r, k), Ite(hit(k), 1, 0)), [r._matrix.at(div(k, 8))])), 'exactly the positions of equal elements')
    c.loopinv('positions so far', lambda v, it: Q(['k'], lambda k: (And(Ge(k, 0), Lt(k, mul(8, nb))), Eq(member(v['ret'], k), Ite(And(Lt(k, n), Lt(k, it), hit(k)), 1, 0)), [v['ret']._matrix.at(div(k, 8))])))
# ---------------------------------------------------------------- dijkstra (C27)
P = 'C27'
INF = 1 << 31
def dist_of(A, s, lim):
    n = A.R
    d = [None] * n; d[s] = 0
    for _ in range(n):
        for u in range(n):
            if d[u] is None: continue
            for v in range(n):
                w = A[u, v]
                if w and (d[v] is None or d[u] + w < d[v]): d[v] = d[u] + w
    return d
def gen_graph(g, n):
    N = g.r.choice([1, 2, 3, 4, 5, 6, 8, 12]); p = g.r.choice([0.15, 0.3, 0.6, 1]); m = g.r.choice([2, 9, 100, 100000])
    return dict(A=ConcMat(g.ct.T, N, N, [g.r.randint(1, m) if g.r.random() < p else 0 for _ in range(N * N)]), s=g.r.choice([0, N - 1, g.r.randrange(N)]))
@contract('susa::matrix<unsigned int> susa::dijkstra<{T}>(susa::matrix<{T}> const&, unsigned int)', 'mat<u>', 'A:cmat s:u32', P, 'auto ret = susa::dijkstra(A, s);', Ts=('i', 'u', 'd'), bounded_only='shortest paths are a fixed point over all paths; no contract within reach of the generator', gen=gen_graph)
def dij(c, t):
    A = c.A; c.pre(Gt(A.N, 0), 'not empty'); c.req(Eq(A.R, A.C), 'a square matrix'); c.pre(Lt(c.s, A.R), 'the source is a vertex')
    if c.mode != 'conc': return
    c.pre(all(A.at(k) >= 0 and A.at(k) == int(A.at(k)) for k in range(A.N)) and sum(A.at(k) for k in range(A.N)) < INF - 1, 'non-negative whole weights, paths shorter than 2^31 - 1')
    d = dist_of(A, c.s, INF); n = A.R
    c.retmat(n, 1, None)
    def ok(r):
        for v in range(n):
            u = int(r.at(v))
            if v == c.s or d[v] is None:
                if u != v: return False
            elif u >= n or d[u] is None or not A[u, v] or d[u] + A[u, v] != d[v]: return False
        return True
    c.ens(lambda r: ok(r), 'every reached vertex has a predecessor on a shortest path')
