"""signal.h"""
from . import *
from .linalg import MT, Z, Z1
srt = lambda t: 'i' if t == 'i' else 'd'

# ---------------------------------------------------------------- builders (C17)
def gen_rate(lo):
    def gen(g, n): return {'n': g.r.choice([lo, 1, 2, 3, 4, 5])}
    return gen
@contract(MT + 'susa::upsample<{T}>(susa::matrix<{T}> const&, unsigned long)', 'mat', 'A:cmat n:u64', 'C17', 'auto ret = susa::upsample(A, n);', Ts=('d', 'i'), empty='reject', gen=gen_rate(1))
def upsample(c, t):
    A, n = c.A, c.n
    c.pre(Ge(n, 1), 'positive rate'); c.fits(mul(n, A.R), A.C, t)
    c.retmat(mul(n, A.R), A.C, lambda r, q: eite(Eq(L.Row(r, n), 0), A[L.Col(r, n), q], Z[t]))
@contract(MT + 'susa::downsample<{T}>(susa::matrix<{T}> const&, unsigned long)', 'mat', 'A:cmat n:u64', 'C17', 'auto ret = susa::downsample(A, n);', Ts=('d', 'i'), empty='reject', gen=gen_rate(1), spre=lambda c: c.pre(Ge(c.n, 1), 'positive rate'))
def downsample(c, t):
    A, n = c.A, c.n
    c.pre(And(Ge(n, 1), Le(n, A.R)), 'rate between one and the number of rows')
    c.retmat(L.Col(A.R, n), A.C, lambda r, q: A[mul(r, n), q])
@contract(MT + 'susa::convmtx<{T}>(susa::matrix<{T}> const&, unsigned long)', 'mat', 'A:cmat n:u64', 'C17', 'auto ret = susa::convmtx(A, n);', heavy=True, Ts=('d', 'i'), empty='reject', gen=gen_rate(1))
def convmtx(c, t):
    A, n = c.A, c.n
    c.req(A.isvec, 'a vector'); c.pre(Ge(n, 1), 'positive length')
    m = sub(add(A.N, n), 1)
    c.pre(Lt(m, 1 << 62), 'length below 2^62'); c.fits(m, n, t)
    el = lambda i, j: eite(And(Ge(i, j), Lt(i, add(j, A.N))), A.at(sub(i, j)), Z[t])
    if c.branch(Eq(A.C, 1)): c.retmat(m, n, el)
    else: c.retmat(n, m, lambda r, q: el(q, r))
@contract(MT + 'susa::toeplitz<{T}>(susa::matrix<{T}> const&, susa::matrix<{T}> const&)', 'mat', 'A:cmat B:cmat', 'C17', 'auto ret = susa::toeplitz(A, B);', heavy=True, Ts=('d', 'i'), empty='reject', alias=[('B', 'A')])
def toeplitz2(c, t):
    A, B = c.A, c.B
    c.fits(A.N, B.N, t)
    c.retmat(A.N, B.N, lambda r, q: eite(Gt(r, q), A.at(sub(r, q)), B.at(sub(q, r))))
@contract(MT + 'susa::toeplitz<{T}>(susa::matrix<{T}> const&)', 'mat', 'A:cmat', 'C17', 'auto ret = susa::toeplitz(A);', heavy=True, Ts=('d', 'i'), empty='reject')
def toeplitz1(c, t):
    A = c.A
    c.fits(A.N, A.N, t)
    c.retmat(A.N, A.N, lambda r, q: eite(Ge(r, q), A.at(sub(r, q)), A.at(sub(q, r))))
@contract(MT + 'susa::kron<{T}>(susa::matrix<{T}> const&, susa::matrix<{T}> const&)', 'mat', 'A:cmat B:cmat', 'C17', 'auto ret = susa::kron(A, B);', heavy=True, Ts=('d', 'i', 'cd'), empty='reject', alias=[('B', 'A')])
def kron(c, t):
    A, B = c.A, c.B
    c.fits(mul(A.R, B.R), mul(A.C, B.C), t)
    c.retmat(mul(A.R, B.R), mul(A.C, B.C), lambda r, q: emul(A[L.Col(r, B.R), L.Col(q, B.C)], B[L.Row(r, B.R), L.Row(q, B.C)]))

# ---------------------------------------------------------------- filter and convolution (C16)
def equation(c, t, X, n, b, a):
    """y(i,q): value of the direct-form difference equation for the input X(i,q), 0 <= i < n"""
    zz = Z[t]
    MA = c.fold('ma', lambda i, q: zz, lambda acc, k, i, q: eadd(acc, emul(eite(And(Ge(i, k), Lt(i, add(n, k))), X(sub(i, k), q), zz), b.at(k))), arity=2, sort=srt(t))
    def step(acc, k, i, q, F):
        if isinstance(k, int) and k == 0: return acc
        return eite(Ge(k, 1), esub(acc, emul(eite(Ge(i, k), F(sub(i, k), q, a.N), zz), a.at(k))), acc)
    AR = c.fold('ar', lambda i, q: MA(i, q, b.N), step, arity=2, sort=srt(t), rec=True)
    return lambda i, q: AR(i, q, a.N)
@contract(MT + 'susa::filter<{T}, std::allocator, {T}>(susa::matrix<{T}> const&, susa::matrix<{T}> const&, susa::matrix<{T}> const&, unsigned long)', 'mat', 'b:cmat a:cmat x:cmat? n:u64', 'C16',
          'auto ret = susa::filter<{T}>(b, a, x, n);', Ts=('d', 'i'), empty='safe', tol=1e-9, genp=1.0, gen=lambda g, n: {'n': g.r.choice([0, 0, 1, 2, 3, 7])}, spre=lambda c: c.pre(Lt(c.n, 1 << 62), 'tail below 2^62'))
def filter_(c, t):
    b, a, x, n = c.b, c.a['a'], c.x, c.n
    c.pre(Lt(n, 1 << 62), 'tail below 2^62')
    if x.empty: c.retempty(); return
    if c.branch(And(Gt(x.C, 1), Gt(x.R, 1))):
        c.fits(add(x.R, n), x.C, t)
        y = equation(c, t, lambda i, q: x[i, q], x.R, b, a)
        c.retmat(add(x.R, n), x.C, y)
    else:
        m = add(x.N, n)
        c.fits(m, 1, t)
        y = equation(c, t, lambda i, q: x.at(i), x.N, b, a)
        if c.branch(And(Eq(x.C, 1), Gt(x.R, 1))): c.retmat(m, 1, lambda r, q: y(r, 0))
        else: c.retmat(1, m, lambda r, q: y(q, 0))
class One:
    N = 1
    def at(self, k): return 1
@contract(MT + 'susa::conv<{T}>(susa::matrix<{T}> const&, susa::matrix<{T}> const&)', 'mat', 'A:cmat B:cmat', 'C16', 'auto ret = susa::conv(A, B);', heavy=True, Ts=('d', 'i'), empty='safe', tol=1e-9, alias=[('B', 'A')])
def conv(c, t):
    A, B = c.A, c.B
    if c.branch(Eq(B.N, 1)): c.retmat(A.R, A.C, lambda r, q: emul(B.at(0), A[r, q])); return
    if c.branch(Eq(A.N, 1)): c.retmat(B.R, B.C, lambda r, q: emul(A.at(0), B[r, q])); return
    if c.branch(B.isvec): x, b = A, B
    else: c.req(A.isvec, 'one argument is a vector or a scalar'); x, b = B, A
    n = sub(b.N, 1)
    c.pre(Lt(n, 1 << 62), 'vector below 2^62')
    if c.branch(And(Gt(x.C, 1), Gt(x.R, 1))):
        c.fits(add(x.R, n), x.C, t)
        y = equation(c, t, lambda i, q: x[i, q], x.R, b, One())
        c.retmat(add(x.R, n), x.C, y)
    else:
        m = add(x.N, n); c.fits(m, 1, t)
        y = equation(c, t, lambda i, q: x.at(i), x.N, b, One())
        if c.branch(And(Eq(x.C, 1), Gt(x.R, 1))): c.retmat(m, 1, lambda r, q: y(r, 0))
        else: c.retmat(1, m, lambda r, q: y(q, 0))
