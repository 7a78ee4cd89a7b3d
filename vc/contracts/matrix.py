"""susa::matrix"""
from . import *
M = 'susa::matrix<{T}>'
TS = ('d', 'i', 'cd')
DI = ('d', 'i')
TSX = TS + ('z', 'i8', 'u8', 'u')     # element types the other modules instantiate: the core operations

# ---------------------------------------------------------------- construction (C05, C02)
@contract(M + '::matrix()', 'void', 'this:newmat', 'C02 C05', 'susa::matrix<{T}> self;', Ts=TSX, ctor=True)
def m_default(c): c.postempty('this')
@contract(M + '::matrix(unsigned long, unsigned long)', 'void', 'this:newmat R:u64 C:u64', 'C02 C05', 'susa::matrix<{T}> self(R, C);', Ts=TSX)
def m_sized(c, t):
    c.req(And(Gt(c.R, 0), Gt(c.C, 0)), 'both dimensions are positive'); c.fits(c.R, c.C, t)
    c.post('this', c.R, c.C, None, True)
@contract(M + '::matrix(unsigned long, unsigned long, {T})', 'void', 'this:newmat R:u64 C:u64 v:T', 'C02 C05', 'susa::matrix<{T}> self(R, C, v);', Ts=TSX)
def m_init(c, t):
    c.req(And(Gt(c.R, 0), Gt(c.C, 0)), 'both dimensions are positive'); c.fits(c.R, c.C, t)
    c.post('this', c.R, c.C, lambda r, cc: c.v, True)
@contract(M + '::matrix(std::tuple<unsigned long, unsigned long> const&)', 'void', 'this:newmat s:tup', 'C02 C05', 'susa::matrix<{T}> self(s);', Ts=TSX)
def m_tup(c, t):
    R, C = c.s
    c.req(And(Gt(R, 0), Gt(C, 0)), 'both dimensions are positive'); c.fits(R, C, t)
    c.post('this', R, C, None, True)
@contract(M + '::matrix(std::tuple<unsigned long, unsigned long> const&, {T})', 'void', 'this:newmat s:tup v:T', 'C02 C05', 'susa::matrix<{T}> self(s, v);', Ts=TSX)
def m_tup_init(c, t):
    R, C = c.s
    c.req(And(Gt(R, 0), Gt(C, 0)), 'both dimensions are positive'); c.fits(R, C, t)
    c.post('this', R, C, lambda r, cc: c.v, True)
@contract(M + '::matrix(susa::matrix<{T}> const&)', 'void', 'this:newmat A:cmat?', 'C02', 'susa::matrix<{T}> self(A);', Ts=TSX)
def m_copy(c):
    if c.A.empty: c.postempty('this')
    else: c.post('this', c.A.R, c.A.C, lambda r, cc: c.A[r, cc], True)
@contract(M + '::matrix(susa::matrix<{T}>&&)', 'void', 'this:newmat A:mvmat?', 'C02', 'susa::matrix<{T}> self(std::move(A));', Ts=TSX, inline=True)
def m_move(c):
    c.postwf('A')
    if c.A.empty: c.postempty('this')
    else: c.post('this', c.A.R, c.A.C, lambda r, cc: c.A[r, cc], True)
@contract(M + '::~matrix()', 'void', 'this:deadmat?', 'C02', None, Ts=TSX)
def m_dtor(c): pass
@contract(M + '::operator=(susa::matrix<{T}> const&)', 'thisref', 'this:mat? A:cmat?', 'C02', 'auto& ref = (self = A);', Ts=TSX, alias=[('A', 'this')])
def m_assign(c):
    if c.A.empty: c.postempty('this')
    else: c.post('this', c.A.R, c.A.C, lambda r, cc: c.A[r, cc], True)

# ---------------------------------------------------------------- element access (C01)
def acc(nm, const, two):
    sig = 'r:u64 cc:u64' if two else 'i:u64'
    args = 'r, cc' if two else 'i'
    ct = M + '::' + nm + ('(unsigned long, unsigned long)' if two else '(unsigned long)') + (' const' if const else '')
    @contract(ct, 'T' if const else 'ref', ('this:cmat ' if const else 'this:mat ') + sig, 'C01',
              ('T ret = self.get(%s);' % args if nm == 'get' else ('T ret = self(%s);' % args) if const else 'T* ret = &self(%s);' % args), Ts=TSX, empty='reject')
    def f(c):
        A = c.a['this']
        if two:
            c.req(And(Lt(c.r, A.R), Lt(c.cc, A.C)), 'indices are inside the matrix'); k = lin(c.r, c.cc, A.R)
        else:
            c.req(Lt(c.i, A.N), 'index is inside the matrix'); k = c.i
        c.ret(A.at(k)) if const else c.retref(A, k)
for two in (True, False):
    acc('get', True, two); acc('operator()', True, two); acc('operator()', False, two)

# ---------------------------------------------------------------- queries (C05)
def qry(nm, ret, fn):
    @contract(M + '::' + nm + '() const', ret, 'this:cmat?', 'C05', 'auto ret = self.%s();' % nm, Ts=TSX, inline=True)
    def f(c): c.ret(fn(c.a['this']))
qry('no_rows', 'u64', lambda A: A.R); qry('no_cols', 'u64', lambda A: A.C); qry('size', 'u64', lambda A: A.N)
qry('shape', 'tuple', lambda A: (A.R, A.C))
qry('is_square', 'bool', lambda A: Eq(A.R, A.C))
qry('is_vector', 'bool', lambda A: A.isvec)
qry('is_scalar', 'bool', lambda A: And(Eq(A.R, 1), Eq(A.C, 1)))

# ---------------------------------------------------------------- sub-matrices (C04)
@contract(M + '::set_all({T})', 'void', 'this:mat? v:T', 'C04', 'self.set_all(v);', Ts=TSX)
def m_set_all(c):
    A = c.a['this']
    if not A.empty: c.post(A, A.R, A.C, lambda r, cc: c.v)
@contract(M + '::row(unsigned long) const', 'mat', 'this:cmat k:u64', 'C04', 'auto ret = self.row(k);', Ts=TS, empty='reject')
def m_row(c):
    A = c.a['this']; c.req(Lt(c.k, A.R), 'row index is inside the matrix')
    c.retmat(1, A.C, lambda r, cc: A[c.k, cc])
@contract(M + '::col(unsigned long) const', 'mat', 'this:cmat k:u64', 'C04', 'auto ret = self.col(k);', Ts=TS, empty='reject')
def m_col(c):
    A = c.a['this']; c.req(Lt(c.k, A.C), 'column index is inside the matrix')
    c.retmat(A.R, 1, lambda r, cc: A[r, c.k])
@contract(M + '::set_row(unsigned long, susa::matrix<{T}> const&)', 'bool', 'this:mat k:u64 A:cmat', 'C04', 'bool ret = self.set_row(k, A);', Ts=TS, empty='safe')
def m_set_row(c):
    S = c.a['this']; c.req(And(Lt(c.k, S.R), Ge(c.A.N, S.C)), 'row index is inside the matrix and enough values are given')
    c.ret(True); c.post(S, S.R, S.C, lambda r, cc: eite(Eq(r, c.k), c.A.at(cc), S[r, cc]))
@contract(M + '::set_col(unsigned long, susa::matrix<{T}> const&)', 'bool', 'this:mat k:u64 A:cmat', 'C04', 'bool ret = self.set_col(k, A);', Ts=TS, empty='safe', inline=True)
def m_set_col(c):
    S = c.a['this']; c.req(And(Lt(c.k, S.C), Ge(c.A.N, S.R)), 'column index is inside the matrix and enough values are given')
    c.ret(True); c.post(S, S.R, S.C, lambda r, cc: eite(Eq(cc, c.k), c.A.at(r), S[r, cc]))
@contract(M + '::swap_cols(unsigned long, unsigned long)', 'void', 'this:mat p:u64 q:u64', 'C04', 'self.swap_cols(p, q);', Ts=TS, empty='safe')
def m_swap_cols(c):
    S = c.a['this']; c.req(And(Lt(c.p, S.C), Lt(c.q, S.C)), 'column indices are inside the matrix')
    c.post(S, S.R, S.C, lambda r, cc: S[r, Ite(Eq(cc, c.p), c.q, Ite(Eq(cc, c.q), c.p, cc))])
@contract(M + '::swap_rows(unsigned long, unsigned long)', 'void', 'this:mat p:u64 q:u64', 'C04', 'self.swap_rows(p, q);', Ts=TS, empty='safe')
def m_swap_rows(c):
    S = c.a['this']; c.req(And(Lt(c.p, S.R), Lt(c.q, S.R)), 'row indices are inside the matrix')
    c.post(S, S.R, S.C, lambda r, cc: S[Ite(Eq(r, c.p), c.q, Ite(Eq(r, c.q), c.p, r)), cc])
@contract(M + '::shrink(unsigned long, unsigned long) const', 'mat', 'this:cmat p:u64 q:u64', 'C04', 'auto ret = self.shrink(p, q);', Ts=TS, empty='reject')
def m_shrink(c):
    A = c.a['this']
    c.req(And(Gt(A.R, 1), Gt(A.C, 1)), 'at least two rows and columns')
    c.req(And(Lt(c.p, A.R), Lt(c.q, A.C)), 'row and column are inside the matrix')
    c.retmat(sub(A.R, 1), sub(A.C, 1), lambda r, cc: A[Ite(Lt(r, c.p), r, add(r, 1)), Ite(Lt(cc, c.q), cc, add(cc, 1))])
def vecpart(c, A, n, off):
    """n consecutive elements of a vector / columns of a matrix from off on"""
    if c.branch(A.isvec):
        if c.branch(Eq(A.R, 1)): c.retmat(1, n, lambda r, cc: A[0, add(off(A.N), cc)])
        else: c.retmat(n, 1, lambda r, cc: A[add(off(A.N), r), 0])
    else: c.retmat(A.R, n, lambda r, cc: A[r, add(off(A.C), cc)])
@contract(M + '::left(unsigned long) const', 'mat', 'this:cmat n:u64', 'C04', 'auto ret = self.left(n);', Ts=TS, empty='reject')
def m_left(c):
    A = c.a['this']
    c.req(Gt(c.n, 0), 'at least one column')
    c.req(Le(c.n, A.N if c.branch(A.isvec) else A.C), 'not more elements than there are')
    vecpart(c, A, c.n, lambda N: 0)
@contract(M + '::right(unsigned long) const', 'mat', 'this:cmat n:u64', 'C04', 'auto ret = self.right(n);', Ts=TS, empty='reject')
def m_right(c):
    A = c.a['this']
    c.req(Gt(c.n, 0), 'at least one column')
    c.req(Le(c.n, A.N if c.branch(A.isvec) else A.C), 'not more elements than there are')
    vecpart(c, A, c.n, lambda N: sub(N, c.n))
@contract(M + '::mid(unsigned long, unsigned long) const', 'mat', 'this:cmat p:u64 q:u64', 'C04', 'auto ret = self.mid(p, q);', Ts=TS, empty='reject')
def m_mid(c):
    A = c.a['this']
    c.req(Lt(c.p, c.q), 'begin before end')
    c.req(Lt(c.q, A.N if c.branch(A.isvec) else A.C), 'end is inside')
    vecpart(c, A, add(sub(c.q, c.p), 1), lambda N: c.p)
@contract(M + '::resize(unsigned long, unsigned long)', 'bool', 'this:mat? R:u64 C:u64', 'C05 C02', 'bool ret = self.resize(R, C);', Ts=TS)
def m_resize(c, t):
    c.req(And(Gt(c.R, 0), Gt(c.C, 0)), 'both dimensions are positive'); c.fits(c.R, c.C, t)
    c.ret(True)
    A = c.a['this']
    if not A.empty and c.branch(Eq(mul(c.C, c.R), A.N)): c.post('this', c.R, c.C, lambda r, cc: A.at(lin(r, cc, c.R)))   # same number of elements: the sequence is kept
    else: c.post('this', c.R, c.C, None, True)
@contract(M + '::reshape(unsigned long, unsigned long)', 'mat', 'this:mat R:u64 C:u64', 'C05', 'auto ret = self.reshape(R, C);', Ts=TS, empty='reject')
def m_reshape(c, t):
    A = c.a['this']
    c.fits(c.R, c.C, t)
    c.req(Eq(mul(c.C, c.R), A.N), 'same number of elements')
    c.retmat(c.R, c.C, lambda r, cc: A.at(lin(r, cc, c.R)))

@contract(M + '::get_row_as_vec(unsigned long)', 'vec', 'this:mat k:u64', 'C04', 'auto ret = self.get_row_as_vec(k);', Ts=('d', 'i'), empty='safe')
def m_row_vec(c, t):
    A = c.a['this']; c.req(Lt(c.k, A.R), 'row index is inside the matrix'); c.fits(A.C, 1, t)
    c.retvec(A.C, lambda r, q: A[c.k, r])
@contract(M + '::get_col_as_vec(unsigned long)', 'vec', 'this:mat k:u64', 'C04', 'auto ret = self.get_col_as_vec(k);', Ts=('d', 'i'), empty='safe')
def m_col_vec(c, t):
    A = c.a['this']; c.req(Lt(c.k, A.C), 'column index is inside the matrix'); c.fits(A.R, 1, t)
    c.retvec(A.R, lambda r, q: A[r, c.k])

# ---------------------------------------------------------------- arithmetic (C03)
OP = {'+': eadd, '-': esub, '*': emul}
def binops(op, f, Ts):
    @contract('susa::matrix<{T}> susa::operator%s<{T}>(susa::matrix<{T}> const&, susa::matrix<{T}> const&)' % op, 'mat', 'A:cmat B:cmat', 'C03', 'auto ret = A %s B;' % op, Ts=Ts, empty='reject', alias=[('B', 'A')])
    def mm(c):
        A, B = c.A, c.B
        c.req(And(Eq(A.R, B.R), Eq(A.C, B.C)), 'equal shapes')
        c.retmat(A.R, A.C, lambda r, cc: f(A[r, cc], B[r, cc]))
    @contract('susa::matrix<{T}> susa::operator%s<{T}>(susa::matrix<{T}> const&, {T})' % op, 'mat', 'A:cmat v:T', 'C03', 'auto ret = A %s v;' % op, Ts=Ts, empty='reject')
    def ms(c): c.retmat(c.A.R, c.A.C, lambda r, cc: f(c.A[r, cc], c.v))
    if op != '/':
        @contract('susa::matrix<{T}> susa::operator%s<{T}>({T}, susa::matrix<{T}> const&)' % op, 'mat', 'v:T A:cmat', 'C03', 'auto ret = v %s A;' % op, Ts=Ts, empty='reject')
        def sm(c): c.retmat(c.A.R, c.A.C, lambda r, cc: f(c.v, c.A[r, cc]))
for op in OP: binops(op, OP[op], TS)
binops('/', lambda a, b: L.f_div(a, b), ('d',))
for op in '+-':
    def asg(op, f):
        @contract(M + '::operator%s=(susa::matrix<{T}> const&)' % op, 'mat', 'this:mat A:cmat', 'C03', 'auto ret = (self %s= A);' % op, Ts=TS, empty='reject', alias=[('A', 'this')])
        def g(c):
            S = c.a['this']
            c.req(And(Eq(S.R, c.A.R), Eq(S.C, c.A.C)), 'equal shapes')
            c.post(S, S.R, S.C, lambda r, cc: f(S[r, cc], c.A[r, cc]))
            c.retmat(S.R, S.C, lambda r, cc: f(S[r, cc], c.A[r, cc]))
    asg(op, OP[op])
def same(A, B):
    """equal shape and equal elements, as a formula with a quantifier"""
    if A.empty or B.empty: return A.empty and B.empty
    if isinstance(A, ConcMat): return A.R == B.R and A.C == B.C and all(eeq(x, y) for x, y in zip(A.data, B.data))
    j = z3.Int('j!eq')
    a, b = A.at(j), B.at(j)
    body = Implies(And(Le(0, j), Lt(j, A.N)), eeq(a, b))
    return And(Eq(A.R, B.R), Eq(A.C, B.C), z3.ForAll([j], L.toz(body), patterns=[comps(a)[0], comps(b)[0]]) if not isinstance(body, bool) else body)
@contract('susa::operator==(susa::matrix<{T}> const&, susa::matrix<{T}> const&)', 'bool', 'A:cmat? B:cmat?', 'C03', 'bool ret = (A == B);', Ts=TS, alias=[('B', 'A')])
def m_eq(c): c.ret(same(c.A, c.B))
@contract('susa::operator!=(susa::matrix<{T}> const&, susa::matrix<{T}> const&)', 'bool', 'A:cmat? B:cmat?', 'C03', 'bool ret = (A != B);', Ts=TS, alias=[('B', 'A')])
def m_ne(c): c.ret(L.Not(same(c.A, c.B)))

# ---------------------------------------------------------------- typecasts (C05)
def cast(t, u, conv, **kw):
    T, U = ELT[t][0], ELT[u][0]
    @contract('susa::matrix<%s>::operator susa::matrix<%s>()' % (T, U), 'mat<%s>' % u, 'this:mat<%s>' % t, 'C05', 'susa::matrix<%s> ret = (susa::matrix<%s>)self;' % (U, U), empty='reject', **kw)
    def f(c):
        A = c.a['this']; c.retmat(A.R, A.C, lambda r, cc: conv(A[r, cc]))
cast('i', 'd', lambda x: L.i2f(x)); 
