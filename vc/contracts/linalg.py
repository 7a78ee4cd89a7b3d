"""linalg.h"""
from . import *
MT = 'susa::matrix<{T}> '
Z = {'d': Fraction(0), 'i': 0, 'cd': Cx(Fraction(0), Fraction(0)), 'f': Fraction(0)}
Z1 = {'d': Fraction(1), 'i': 1, 'cd': Cx(Fraction(1), Fraction(0)), 'f': Fraction(1)}

@contract(MT + 'susa::matmul<{T}>(susa::matrix<{T}> const&, susa::matrix<{T}> const&)', 'mat', 'A:cmat B:cmat', 'C10', 'auto ret = susa::matmul(A, B);',
          Ts=('d', 'i', 'cd'), empty='reject', alias=[('B', 'A')], tol=1e-9, inline=True, heavy=True)
def matmul(c, t):
    A, B = c.A, c.B
    c.req(Eq(A.C, B.R), 'inner dimensions agree'); c.fits(A.R, B.C, t)
    F = c.fold('dot', lambda r, q: Z[t], lambda acc, k, r, q: eadd(acc, emul(A[r, k], B[k, q])), arity=2, cplx=t == 'cd', sort='i' if t == 'i' else 'd')
    c.retmat(A.R, B.C, lambda r, q: F(r, q, A.C))
@contract(MT + 'susa::transpose<{T}>(susa::matrix<{T}> const&)', 'mat', 'A:cmat', 'C10', 'auto ret = susa::transpose(A);', Ts=('d', 'i', 'cd'), empty='reject')
def transpose(c):
    c.retmat(c.A.C, c.A.R, lambda r, q: c.A[q, r])
@contract(MT + 'susa::concat<{T}>(susa::matrix<{T}> const&, susa::matrix<{T}> const&)', 'mat', 'A:cmat B:cmat', 'C10', 'auto ret = susa::concat(A, B);',
          Ts=('d', 'i'), alias=[('B', 'A')])
def concat(c, t):
    A, B = c.A, c.B
    if c.branch(Eq(A.C, B.C)):
        c.fits(add(A.R, B.R), A.C, t)
        c.retmat(add(A.R, B.R), A.C, lambda r, q: eite(Lt(r, A.R), A[r, q], B[sub(r, A.R), q]))
    elif c.branch(Eq(A.R, B.R)):
        c.fits(A.R, add(A.C, B.C), t)
        c.retmat(A.R, add(A.C, B.C), lambda r, q: eite(Lt(q, A.C), A[r, q], B[r, sub(q, A.C)]))
    else: c.retempty()
@contract(MT + 'susa::fliplr<{T}>(susa::matrix<{T}> const&)', 'mat', 'A:cmat', 'C10', 'auto ret = susa::fliplr(A);', Ts=('d', 'i'), empty='reject')
def fliplr(c):
    A = c.A
    if c.branch(Or(Eq(A.R, 1), Eq(A.C, 1))): c.retmat(A.R, A.C, lambda r, q: A.at(sub(sub(A.N, 1), lin(r, q, A.R))))
    else: c.retmat(A.R, A.C, lambda r, q: A[r, sub(sub(A.C, 1), q)])
@contract(MT + 'susa::flipud<{T}>(susa::matrix<{T}> const&)', 'mat', 'A:cmat', 'C10', 'auto ret = susa::flipud(A);', Ts=('d', 'i'), empty='reject')
def flipud(c):
    A = c.A
    if c.branch(Or(Eq(A.R, 1), Eq(A.C, 1))): c.retmat(A.R, A.C, lambda r, q: A.at(sub(sub(A.N, 1), lin(r, q, A.R))))
    else: c.retmat(A.R, A.C, lambda r, q: A[sub(sub(A.R, 1), r), q])
@contract(MT + 'susa::eye<{T}>(unsigned long)', 'mat', 'n:u64', 'C10', 'auto ret = susa::eye<{T}>(n);', Ts=('d', 'i'))
def eye(c, t):
    c.req(Gt(c.n, 0), 'positive order'); c.fits(c.n, c.n, t)
    c.retmat(c.n, c.n, lambda r, q: eite(Eq(r, q), Z1[t], Z[t]))
@contract('susa::matrix<std::complex<double>> susa::hermitian<double>(susa::matrix<std::complex<double>> const&)', 'mat<cd>', 'A:cmat<cd>', 'C10', 'auto ret = susa::hermitian(A);', empty='reject')
def hermitian(c):
    c.retmat(c.A.C, c.A.R, lambda r, q: Cx(c.A[q, r].re, eneg(c.A[q, r].im)))

# ---------------------------------------------------------------- determinant (C11)
def det_exact(A):
    """determinant of concrete values, in exact arithmetic"""
    n = A.R
    m = [[Fraction(A[r, q]) for q in range(n)] for r in range(n)]
    d = Fraction(1)
    for k in range(n):
        p = next((r for r in range(k, n) if m[r][k] != 0), None)
        if p is None: return Fraction(0)
        if p != k: m[p], m[k] = m[k], m[p]; d = -d
        d *= m[k][k]
        for r in range(k + 1, n):
            f = m[r][k] / m[k][k]
            if f:
                for q in range(k, n): m[r][q] -= f * m[k][q]
    return d
def minor_is(eng, st, h, A, p, q):
    """obligations: h is A without row p and column q"""
    return mat_eq_facts(eng, h, sub(A.R, 1), sub(A.C, 1), lambda r, c: A[Ite(Lt(r, p), r, add(r, 1)), Ite(Lt(c, q), c, add(c, 1))], 'argument of the recursive call is the minor')
def gen_det(g, n):
    k = g.r.choice([1, 2, 3, 3, 4, 4, 5]); return {'A': g.mat(g.ct.T, k, k)}
@contract('double susa::det<{T}>(susa::matrix<{T}> const&)', 'd', 'A:cmat?', 'C11', 'double ret = susa::det(A);', Ts=('d', 'i'), mode='real', tol=1e-9, gen=gen_det)
def det(c, t):
    A = c.A
    toD = (lambda x: x) if t == 'd' else L.i2f
    if A.empty: c.ret(Fraction(0)); return
    if c.mode == 'conc':
        if A.R > 7: raise Excluded('too large')
        c.ret(det_exact(A) if A.R == A.C else Fraction(0)); return
    eng, st = c.eng, c.st
    if c.mode == 'call':
        rec = getattr(eng, 'detrec', None)
        if rec is not None and rec[2] == c.ct.name and eng.ct is c.ct:
            A0, D = rec[0], rec[1]
            its = [f.it for f in reversed(st.loops) if not f.unroll]
            for k, q in enumerate(its + [0, 1, 2]):
                obs = [('the recursive call is on a smaller matrix', And(Lt(A.R, A0.R), Ge(A.R, 1)))] + minor_is(eng, st, A, A0, 0, q)
                if eng.mode != 'final' or all(eng.prove(st, f)[0] for _, f in obs): break
            else:
                q = (its + [0])[0]
                obs = minor_is(eng, st, A, A0, 0, q)
            for nm, f in obs: eng.oblige(st, 'call', nm, f)
            c.ret(D(toz(q))); return
        c.ret(L.keep(eng.fresh('det', L.RealS))); return
    if c.branch(Not(Eq(A.R, A.C))): c.ret(Fraction(0)); return
    if c.branch(Eq(A.R, 1)): c.ret(toD(A.at(0))); return
    if c.branch(Eq(A.R, 2)): c.ret(L.f_sub(L.f_mul(toD(A[0, 0]), toD(A[1, 1])), L.f_mul(toD(A[1, 0]), toD(A[0, 1])))); return
    D = z3.Function('detminor', L.IntS, L.RealS)
    eng.detrec = (A, D, c.ct.name)
    sgn = lambda k: Ite(Eq(L.IntMod(k, 2), 0), L.rz(Fraction(1)), L.rz(Fraction(-1)))
    F = c.fold('laplace', lambda: Fraction(0), lambda acc, k: L.f_add(acc, L.f_mul(L.f_mul(sgn(k), toD(A[0, k])), D(toz(k)))))
    eng.assumed.add('Laplace expansion along the first row defines the determinant (mathematical fact)')
    c.ret(F(A.C))
contract('double susa::det<{T}>(susa::matrix<{T}> const&)', 'd', 'A:cmat?', 'C11', 'double ret = susa::det(A);', Ts=('u',), bounded_only=True, tol=1e-9, gen=gen_det)(det)
