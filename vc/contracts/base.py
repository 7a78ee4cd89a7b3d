"""base.h, base.cpp, statistics.h"""
from . import *
MT = 'susa::matrix<{T}> '
ZR = {'cd': Cx(Fraction(0), Fraction(0)), 'd': Fraction(0)}
zero = lambda t: ZR.get(t, 0)
srt = lambda t: 'd' if t in ('d', 'cd') else 'i'
def tdiv(a, n):
    """quotient rounded towards zero, n > 0"""
    if isinstance(a, int) and isinstance(n, int): return (a // n if a >= 0 else -((-a) // n)) if n else 0
    return Ite(Ge(a, 0), L.Col(a, n), L.neg(L.Col(L.neg(a), n)))
def over(x, n, t):
    """x divided by the count n in the arithmetic of the element type"""
    if t == 'cd': return Cx(L.f_div(x.re, L.i2f(n)), L.f_div(x.im, L.i2f(n)))
    if t == 'd': return L.f_div(x, L.i2f(n))
    return tdiv(x, n)
def flat(A): return Or(Eq(A.R, 1), Eq(A.C, 1))
def reduction(name, Ts, elt, fin, vec, **kw):
    """matrix reduction: one value for a vector, one per column otherwise; elt(x) summed, fin(sum, n)"""
    @contract(MT + 'susa::%s<{T}>(susa::matrix<{T}> const&)' % name, 'mat', 'A:cmat' if 'empty' in kw else 'A:cmat?', 'C13', 'auto ret = susa::%s(A);' % name, Ts=Ts, **kw)
    def f(c, t):
        A = c.A
        if A.empty: c.retempty(); return
        if c.branch(vec(A)):
            F = c.fold('sum', lambda: zero(t), lambda acc, k: eadd(acc, elt(A.at(k))), cplx=t == 'cd', sort=srt(t))
            c.retmat(1, 1, lambda r, q: fin(F(A.N), A.N, t))
        else:
            G = c.fold('colsum', lambda q: zero(t), lambda acc, k, q: eadd(acc, elt(A[k, q])), arity=1, cplx=t == 'cd', sort=srt(t))
            c.retmat(1, A.C, lambda r, q: fin(G(q, A.R), A.R, t))
reduction('sum', ('d', 'i', 'cd'), lambda x: x, lambda s, n, t: s, flat)
reduction('mean', ('d', 'i', 'cd'), lambda x: x, over, flat)
reduction('norm', ('d',), lambda x: emul(x, x), lambda s, n, t: L.f_uf('sqrt', s), lambda A: A.isvec, empty='reject')
@contract('{T} susa::sum<{T}>(std::vector<{T}> const&)', 'T', 'v:cvec', 'C13', '{T} ret = susa::sum(v);', Ts=('d', 'i'))
def vsum(c, t):
    F = c.fold('sum', lambda: zero(t), lambda acc, k: eadd(acc, c.v.at(k)), sort=srt(t))
    c.ret(F(c.v.N))
# argmin / argmax
def lem_extremum(lt):
    """the recursion defining argmin keeps: acc is the first of the first k elements that no other element precedes"""
    def lemmas():
        out = []
        for S, nm in ((z3.RealSort(), 'real'), (z3.IntSort(), 'integer')):
            A = z3.Function('lemA_' + nm, z3.IntSort(), S); acc, k, j = z3.Ints('acc k j')
            inv = lambda a, n: z3.And(0 <= a, a < n, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.Not(lt(A(j), A(a))))), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < a), lt(A(a), A(j)))))
            out.append(('the first element is extremal among one (%s)' % nm, z3.Implies(k == 0, inv(z3.IntVal(0), k + 1))))
            out.append(('the recursion step keeps the first extremal index (%s)' % nm, z3.ForAll([acc, k], z3.Implies(z3.And(k >= 1, inv(acc, k)), inv(z3.If(lt(A(k), A(acc)), k, acc), k + 1)))))
        return out
    return lemmas
def extremum(name, lt):
    @contract('susa::matrix<unsigned long> susa::%s<{T}>(susa::matrix<{T}> const&)' % name, 'mat<z>', 'A:cmat', 'C13', 'auto ret = susa::%s(A);' % name, Ts=('d', 'i', 'u'), empty='reject', lemmas=lem_extremum(lt))
    def f(c, t):
        A = c.A
        # index of the first extremal element among the first k
        if c.branch(A.isvec):
            F = c.fold('arg' + name, lambda: 0, lambda acc, k: Ite(lt(A.at(k), A.at(acc)), k, acc), sort='i', view=(lambda v: A.at(v), 'double' if t == 'd' else 'i32'))
            c.retmat(1, 1, lambda r, q: F(A.N))
        else:
            G = c.fold('argc' + name, lambda q: 0, lambda acc, k, q: Ite(lt(A[k, q], A[acc, q]), k, acc), arity=1, sort='i', view=(lambda v, q: A[v, q], 'double' if t == 'd' else 'i32'))
            c.retmat(1, A.C, lambda r, q: G(q, A.R))
extremum('min', lambda a, b: Lt(a, b)); extremum('max', lambda a, b: Gt(a, b))
@contract('std::vector<{T}> susa::diff<{T}>(std::vector<{T}>&)', 'vec', 'v:cvec', 'C13', 'auto ret = susa::diff(const_cast<std::vector<{T}>&>(v));', Ts=('d', 'i'))
def vdiff(c, t):
    v = c.v
    if c.branch(Eq(v.N, 0)): c.retvec(0, lambda r, q: zero(t))
    else: c.retvec(sub(v.N, 1), lambda r, q: esub(v.at(add(r, 1)), v.at(r)))
# statistics.h
SMALL = 'at most 2^31-1 elements (int counters in statistics.h)'
def small(c, v):
    c.pre(Le(v.N, (1 << 31) - 1), SMALL)
@contract('{T} susa::mean<{T}>(std::vector<{T}>)', 'T', 'v:vvec', 'C13', '{T} ret = susa::mean<{T}>(v);', Ts=('d', 'i'))
def smean(c, t):
    small(c, c.v); c.pre(Gt(c.v.N, 0), 'not empty')
    F = c.fold('sum', lambda: zero(t), lambda acc, k: eadd(acc, c.v.at(k)), sort=srt(t))
    c.ret(over(F(c.v.N), c.v.N, t))
def svar(name, fin):
    @contract('double susa::%s<double>(std::vector<double>)' % name, 'd', 'v:vvec<d>', 'C13', 'double ret = susa::%s<double>(v);' % name)
    def f(c):
        small(c, c.v); c.pre(Gt(c.v.N, 0), 'not empty')
        v = c.v
        F = c.fold('sum', lambda: Fraction(0), lambda acc, k: eadd(acc, v.at(k)))
        m = L.f_div(F(v.N), L.i2f(v.N))
        G = c.fold('sqdev', lambda: Fraction(0), lambda acc, k: eadd(acc, emul(esub(v.at(k), m), esub(v.at(k), m))))
        c.ret(fin(L.f_div(G(v.N), L.i2f(v.N))))
svar('var', lambda x: x); svar('stdv', lambda x: L.f_uf('sqrt', x))

# ---------------------------------------------------------------- element maps (C14)
def emap(name, sig, rt, t, fn, cpp=None, params='A:cmat', **kw):
    @contract(sig, 'mat<%s>' % rt, params.replace('cmat', 'cmat<%s>' % t), 'C14', cpp or 'auto ret = susa::%s(A);' % name, empty='reject', **kw)
    def f(c):
        A = c.A
        c.retmat(A.R, A.C, lambda r, q: fn(A[r, q]) if fn.__code__.co_argcount == 1 else fn(c, A[r, q]))
CD = 'std::complex<double>'
CM, DM = 'susa::matrix<%s>' % CD, 'susa::matrix<double>'
TA = ', std::allocator>'
emap('real', '%s susa::real<double%s(%s const&)' % (DM, TA, CM), 'd', 'cd', lambda x: x.re)
emap('imag', '%s susa::imag<double%s(%s const&)' % (DM, TA, CM), 'd', 'cd', lambda x: x.im)
emap('mag', '%s susa::mag<double%s(%s const&)' % (DM, TA, CM), 'd', 'cd', lambda x: L.f_add(L.f_mul(x.re, x.re), L.f_mul(x.im, x.im)))
emap('conj', '%s susa::conj<double>(%s const&)' % (CM, CM), 'cd', 'cd', lambda x: Cx(x.re, L.f_neg(x.im)))
emap('to_complex', '%s susa::to_complex<double%s(%s const&)' % (CM, TA, DM), 'cd', 'd', lambda x: Cx(x, Fraction(0)))
emap('abs', '%s susa::abs<double>(%s const&)' % (DM, DM), 'd', 'd', lambda x: L.f_abs(x))
emap('abs', 'susa::matrix<int> susa::abs<int>(susa::matrix<int> const&)', 'i', 'i', lambda x: Ite(Lt(x, 0), L.neg(x), x), overflow_ok=True)
emap('log', '%s susa::log<double>(%s const&)' % (DM, DM), 'd', 'd', lambda x: L.f_uf('log', x))
sg = lambda x: Ite(Gt(x, 0), 1, Ite(Lt(x, 0), L.neg(1) if not isinstance(x, (int, float)) else -1, 0))
emap('sign', 'susa::matrix<signed char> susa::sign<double%s(%s const&)' % (TA, DM), 'i8', 'd', sg)
emap('sign', 'susa::matrix<signed char> susa::sign<int%s(susa::matrix<int> const&)' % TA, 'i8', 'i', sg)
@contract('signed char susa::sign<{T}>({T})', 'i8', 'x:T', 'C14', 'int8_t ret = susa::sign<{T}>(x);', Ts=('d', 'i'))
def ssign(c): c.ret(sg(c.x))
@contract('std::vector<{T}> susa::abs<{T}>(std::vector<{T}> const&)', 'vec', 'v:cvec', 'C14', 'auto ret = susa::abs<{T}>(v);', Ts=('d', 'i'))
def vabs(c, t):
    c.retvec(c.v.N, lambda r, q: L.f_abs(c.v.at(r)) if t == 'd' else Ite(Lt(c.v.at(r), 0), L.neg(c.v.at(r)), c.v.at(r)))
def rnd(x, n):
    from ..execute import _round
    R = (lambda y: math.copysign(math.floor(abs(y) + 0.5), y)) if L.isc(x) else _round
    p = L.f_uf('pow', Fraction(10) if not L.isc(x) else 10.0, L.i2f(n))
    if isinstance(n, int): return L.f_div(R(L.f_mul(x, p)), p) if n > 0 else R(x)
    return Ite(Gt(n, 0), L.f_div(R(L.f_mul(x, p)), p), R(x))
@contract('susa::round(double, int)', 'd', 'x:d n:i32', 'C14', 'double ret = susa::round(x, n);', tol=1e-9)
def sround(c):
    c.ret(rnd(c.x, c.n))
emap('round', 'susa::round(%s const&, int)' % DM, 'd', 'd', lambda c, x: rnd(x, c.n), 'auto ret = susa::round(A, n);', 'A:cmat n:i32', genp=1.0)

# ---------------------------------------------------------------- integer helpers (C15)
def gen_u(bits):
    def g(g, n):
        r = g.r; k = r.randint(0, bits)
        return {'x': r.choice([0, 1, 2, 3, (1 << bits) - 1, 1 << (bits - 1), (1 << k) % (1 << bits), ((1 << k) - 1), r.getrandbits(bits), r.getrandbits(max(1, k))])}
    return g
for t, k, w in (('unsigned int', 'u32', 32), ('unsigned long', 'u64', 64), ('unsigned char', 'u8', 8), ('unsigned short', 'u16', 16)):
    def mk(t, k, w):
        @contract('%s susa::log2<%s, (%s*)0>(%s)' % (t, t, t, t), k, 'x:' + k, 'C15', '%s ret = susa::log2(x);' % t, gen=gen_u(w), bounded=w + 2)
        def f(c):
            c.pre(Gt(c.x, 0), 'positive argument')
            if c.mode == 'conc': c.ret(c.x.bit_length() - 1); return
            c.ens(lambda r: [Le(0, r), Lt(r, w)] + [Implies(Eq(r, k), And(Le(1 << k, c.x), Lt(c.x, 1 << (k + 1)))) for k in range(w)], 'largest power of two that does not exceed the argument')
    mk(t, k, w)
def gen_pow(sg):
    def g(g, n):
        r = g.r; b = r.choice([0, 1, 2, 3, 5, 7, 10, 255, 256, 65536] + ([-1, -2, -3, -7] if sg else [0xffffffff]))
        return {'b': b, 'p': r.choice([0, 1, 2, 3, 4, 5, 8, 10, 16, 20, 31, 32] if not sg else [k for k in (0, 1, 2, 3, 4, 5, 6, 8, 10, 20, 30, 31) if abs(b) ** k < 1 << 31])}
    return g
@contract('susa::pow(unsigned int, unsigned int)', 'u32', 'b:u32 p:u32', 'C15', 'unsigned ret = susa::pow(b, p);', gen=gen_pow(False), genp=1.0)
def upow(c):
    if c.mode == 'conc': c.ret(pow(c.b, c.p, 1 << 32)); return
    F = c.fold('upow', lambda: 1, lambda acc, k: L.IntMod(mul(acc, c.b), 1 << 32), sort='i')
    c.ret(F(c.p))
@contract('susa::pow(int, unsigned int)', 'i32', 'b:i32 p:u32', 'C15', 'int ret = susa::pow(b, p);', gen=gen_pow(True), genp=1.0, overflow_ok=True)
def ipow(c):
    if c.mode == 'conc':
        if abs(c.b) > 1 and c.p > 31 or not -(1 << 31) <= c.b ** c.p < 1 << 31: raise Excluded('not representable')
        c.ret(c.b ** c.p); return
    F = c.fold('ipow', lambda: 1, lambda acc, k: mul(acc, c.b), sort='i')
    c.ret(F(c.p))
def gen_mod(g, n):
    r = g.r; v = lambda: r.choice([0, 1, 2, 5, 7, -1, -2, -7, r.randint(-100, 100), r.randint(-(1 << 62), 1 << 62), (1 << 53) + 1, (1 << 63) - 1, -(1 << 63)])
    return {'a': v(), 'm': v()}
@contract('susa::mod(long, long)', 'i64', 'a:i64 m:i64', 'C15', 'long ret = susa::mod(a, m);', gen=gen_mod)
def smod(c):
    a, m = c.a['a'], c.m
    c.pre(Not(Eq(m, 0)), 'nonzero modulus'); c.pre(Not(And(Eq(a, -(1 << 63)), Eq(m, -1))), 'the quotient is representable')
    if c.mode == 'conc': c.ret(a % m); return
    def post(r):
        q, rem, f = L.signed_div(a, m); c.st.assume(f)
        return [Or(Eq(r, rem), Eq(r, add(rem, m))), Implies(Gt(m, 0), And(Le(0, r), Lt(r, m))), Implies(Lt(m, 0), And(Lt(m, r), Le(r, 0)))]
    c.ens(post, 'congruent to the dividend, smaller than the modulus and of its sign')
# normal distribution function: Abramowitz and Stegun 26.2.17, absolute error below 7.5e-8
def as26(c, x):
    b = [Fraction(v) for v in (0.319381530, -0.356563782, 1.781477937, -1.821255978, 1.330274429)]
    p, k = Fraction(0.2316419), Fraction(0.39894228)
    def tail(t):
        poly = b[4]
        for q in reversed(b[:4]): poly = L.f_add(L.f_mul(t, poly), q)
        return L.f_mul(L.f_mul(L.f_mul(k, L.f_uf('exp', L.f_div(L.f_mul(L.f_neg(x), x), Fraction(2)))), t), poly)
    if c.branch(Ge(x, 0)): return L.f_sub(Fraction(1), tail(L.f_div(Fraction(1), L.f_add(Fraction(1), L.f_mul(p, x)))))
    return tail(L.f_div(Fraction(1), L.f_sub(Fraction(1), L.f_mul(p, x))))
@contract('susa::normcdf(double)', 'd', 'x:d', 'C15', 'double ret = susa::normcdf(x);', mode='real', tol=1e-7)
def normcdf(c):
    if c.mode == 'conc': c.ret(0.5 * math.erfc(-c.x / math.sqrt(2))); return
    c.ret(as26(c, c.x))
@contract('susa::qfunc(double)', 'd', 'x:d', 'C15', 'double ret = susa::qfunc(x);', mode='real', tol=1e-7)
def qfunc(c):
    if c.mode == 'conc': c.ret(0.5 * math.erfc(c.x / math.sqrt(2))); return
    c.ret(L.f_sub(Fraction(1), as26(c, c.x)))
