"""Contract language.

A contract names a real function (demangled name of the instantiation), the kinds of its
parameters and result, and a specification function.  The specification function is ordinary
Python over handles; it is evaluated
  * symbolically to verify the body of the function ('verify'),
  * symbolically at every call site, where it replaces the body ('call'),
  * on concrete values, to judge a run of the real binary ('conc')."""
import z3, math, re
from fractions import Fraction
from . import ir, bv, logic as L
from .ir import Unsupported
from .logic import And, Or, Not, Ite, Implies, Eq, Lt, Le, Gt, Ge, toz, isz, add, sub, mul, lin
from .mem import *
from .engine import State, Q, PathEnd, Fork, Ob, as_facts

class Infeasible(Exception): pass

# elt: C++ name, size, leaves [(sub, typekey)], signedness of the integer view
ELT = {
 'd': ('double', 8, [(0, 'double')], None),
 'f': ('float', 4, [(0, 'float')], None),
 'i': ('int', 4, [(0, 'i32')], True),
 'u': ('unsigned int', 4, [(0, 'i32')], False),
 'z': ('unsigned long', 8, [(0, 'i64')], False),
 'l': ('long', 8, [(0, 'i64')], True),
 'i8': ('signed char', 1, [(0, 'i8')], True),
 'u8': ('unsigned char', 1, [(0, 'i8')], False),
 'c': ('char', 1, [(0, 'i8')], True),
 'b': ('bool', 1, [(0, 'i8')], False),
 'cd': ('std::complex<double>', 16, [(0, 'double'), (8, 'double')], None),
 'li': ('int, susa::allocator_log<int>', 4, [(0, 'i32')], True),
 'ci': ('std::complex<int>', 8, [(0, 'i32'), (4, 'i32')], True),
}
SCALARS = {'u64': (64, False), 'i64': (64, True), 'i32': (32, True), 'u32': (32, False), 'i8': (8, True), 'u8': (8, False), 'u16': (16, False), 'i16': (16, True), 'char': (8, True)}
ELT2SC = {'i': 'i32', 'u': 'u32', 'z': 'u64', 'l': 'i64', 'i8': 'i8', 'u8': 'u8', 'c': 'char', 'd': 'd', 'f': 'f', 'cd': 'cd', 'b': 'bool'}
CPP = {'u64': 'size_t', 'i64': 'long', 'i32': 'int', 'u32': 'unsigned int', 'i8': 'int8_t', 'u8': 'uint8_t', 'char': 'char', 'd': 'double', 'f': 'float', 'bool': 'bool', 'cd': 'std::complex<double>', 'u16': 'uint16_t', 'i16': 'int16_t'}
MAXB = (1 << 63) - 1

class Cx:
    """complex value"""
    __slots__ = ('re', 'im')
    def __init__(self, re, im): self.re, self.im = re, im
    def __repr__(self): return '(%s,%s)' % (self.re, self.im)

# generic element arithmetic (reals/doubles, integers, complex; symbolic or concrete)
def isfp(a): return isinstance(a, (float, Fraction)) or (isz(a) and z3.is_real(a))
def cx(a): return a if isinstance(a, Cx) else Cx(a, Fraction(0) if L.FP.mode != 'conc' else 0.0)
def eadd(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = cx(a), cx(b); return Cx(eadd(a.re, b.re), eadd(a.im, b.im))
    return L.f_add(a, b) if isfp(a) or isfp(b) else add(a, b)
def esub(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = cx(a), cx(b); return Cx(esub(a.re, b.re), esub(a.im, b.im))
    return L.f_sub(a, b) if isfp(a) or isfp(b) else sub(a, b)
def emul(a, b):
    if isinstance(a, Cx) and isinstance(b, Cx):
        return Cx(esub(emul(a.re, b.re), emul(a.im, b.im)), eadd(emul(a.re, b.im), emul(a.im, b.re)))
    if isinstance(a, Cx): return Cx(emul(a.re, b), emul(a.im, b))
    if isinstance(b, Cx): return Cx(emul(a, b.re), emul(a, b.im))
    return L.f_mul(a, b) if isfp(a) or isfp(b) else mul(a, b)
def eneg(a):
    if isinstance(a, Cx): return Cx(eneg(a.re), eneg(a.im))
    return L.f_neg(a) if isfp(a) else L.neg(a)
def eeq(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = cx(a), cx(b); return And(eeq(a.re, b.re), eeq(a.im, b.im))
    return Eq(a, b)
def eite(c, a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = cx(a), cx(b); return Cx(Ite(c, a.re, b.re), Ite(c, a.im, b.im))
    return Ite(c, a, b)
def comps(v): return [v.re, v.im] if isinstance(v, Cx) else [v]

def review(t, w, frm, to):
    """integer of width w: signed/unsigned view conversion as a plain term"""
    if frm == to: return t
    M = 1 << w
    if to:
        if isinstance(t, int): return t - M if t >= M // 2 else t
        if t.decl().kind() == z3.Z3_OP_ITE and L.eqs(sub(t.arg(1), t.arg(2)), M) is True: return t.arg(2)
        return Ite(t >= M // 2, sub(t, M), t)
    if isinstance(t, int): return t + M if t < 0 else t
    return Ite(t < 0, add(t, M), t)

class MatH:
    """view of a matrix (or of an owned one-dimensional array when C is None)"""
    def __init__(self, eng, elt, R, C, cont, b=None, o=0, data=None, name=''):
        self.eng, self.elt, self.R, self.C, self.cont, self.b, self.o, self.data, self.name = eng, elt, R, C, cont, b, o, data, name
        self.empty = cont is None
        self.conc = None
    @property
    def N(self):
        return 0 if self.empty else (mul(self.C, self.R))
    def raw(self, i):
        lv = ELT[self.elt][2]; sg = ELT[self.elt][3]
        vs = []
        for (s, tk) in lv:
            v = self.cont[s].read(i)
            if tk[0] == 'i':
                w = int(tk[1:])
                if sg is not None and w > 1: v = review(v, w, canon_sg(w), sg)
            vs.append(v)
        return Cx(*vs) if len(vs) == 2 else vs[0]
    def at(self, i): return self.raw(i) if not self.empty else self.none()
    def none(self): return Fraction(0) if self.elt in ('d', 'f') else Cx(Fraction(0), Fraction(0)) if self.elt == 'cd' else 0
    def __getitem__(self, rc): return self.none() if self.empty else self.raw(lin(rc[0], rc[1], self.R))
    isvec = property(lambda s: Or(And(Eq(s.R, 1), Gt(s.C, 1)), And(Gt(s.R, 1), Eq(s.C, 1))))

class ConcMat:
    def __init__(self, elt, R, C, data): self.elt, self.R, self.C, self.data = elt, R, C, data; self.empty = (R * C == 0)
    @property
    def N(self): return self.R * self.C
    def poison(self):
        """value of a cell that does not exist (only used by branches of a specification that do not apply)"""
        if self.elt in ('cd', 'ci'): return Cx(-77.125, -77.125) if self.elt == 'cd' else Cx(-77, -77)
        return -77.125 if self.elt in ('d', 'f') else -77
    def at(self, i):
        if not (0 <= i < len(self.data)): return self.poison()
        return self.data[i]
    def __getitem__(self, rc):
        r, c = rc
        if not (0 <= r < self.R and 0 <= c < self.C): return self.poison()
        return self.data[r + c * self.R]
    isvec = property(lambda s: (s.R == 1 and s.C > 1) or (s.R > 1 and s.C == 1))

# ------------------------------------------------------------------ recursive spec functions
class FoldF:
    """f(params.., 0)=init, f(params.., k+1)=step(f(params.., k), k); component functions for complex"""
    reg = {}
    def __init__(self, eng, name, arity, init, step, deltas, cplx, sort, rec=False):
        if rec: step = (lambda step: lambda *a: step(*a, self))(step)
        self.eng, self.name, self.arity, self.init, self.step, self.deltas, self.cplx = eng, name, arity, init, step, deltas, cplx; self.rec = rec
        FoldF.n = getattr(FoldF, 'n', 0) + 1
        self.tk = 'double' if sort == L.RealS else 'int'
        self.decls = [z3.Function('fold_%s_%d%s' % (name, FoldF.n, s), *([L.IntS] * (arity + 1) + [sort])) for s in (('r', 'i') if cplx else ('',))]
        self.parts = [FoldPart(self, k) for k in range(len(self.decls))]
    def apply(self, params, k):
        vs = [L.keep(d(*[toz(p) for p in params], toz(k))) for d in self.decls]
        return Cx(*vs) if self.cplx else vs[0]
    def __call__(self, *a):
        *ps, n = a
        if isinstance(n, int) and n <= 4 and n >= 0:
            v = self.init(*ps)
            for k in range(n): v = self.step(v, k, *ps)
            return v
        return self.apply(ps, n)
class FoldView:
    """a value derived from a fold: fn(fold value, params..)"""
    def __init__(self, F, fn, tk): self.F, self.fn, self.tk, self.name, self.arity, self.deltas = F, fn, tk, F.name + '.view', F.arity, F.deltas
    def app(self, params, k): return comps(self.fn(self.F(*params, k), *params))[0]
class FoldPart:
    decl_ok = True
    def __init__(self, F, k): self.F, self.k, self.decl, self.name, self.arity, self.deltas, self.tk = F, k, F.decls[k], F.name + ('.%d' % k if F.cplx else ''), F.arity, F.deltas, F.tk
    def app(self, params, k):
        return comps(self.F(*params, k))[self.k]
    def instances(self, x):
        ch = x.children(); ps = [toint(p) for p in ch[:-1]]; n = ch[-1]
        n = toint(L.norm(n))
        F = self.F
        out = []
        ini = comps(F.init(*ps))
        tgt = comps(F.apply(ps, n))
        st = comps(F.step(F.apply(ps, sub(n, 1)), sub(n, 1), *ps))
        for a, b in zip(tgt, ini): out.append(Implies(Le(n, 0), L.rz(a) == L.rz(b) if self.tk == 'double' else toz(a) == toz(b)))
        for a, b in zip(tgt, st): out.append(Implies(Gt(n, 0), L.rz(a) == L.rz(b) if self.tk == 'double' else toz(a) == toz(b)))
        return [toz(o) for o in out if o is not True]
def toint(t):
    return t.as_long() if isz(t) and z3.is_int_value(t) else t

class Seq:
    """sequence of integers of a known range defined by recursion; defs(apply, *args) gives facts about one element"""
    def __init__(self, name, arity, rng, defs, conc, opaque=False):
        self.name, self.opaque = name, opaque          # opaque: unfolded only where the contract says unfold=(name,)
        self.decl = z3.Function('fold_' + name, *([L.IntS] * (arity + 1))); self.rng, self.defs, self.conc = rng, defs, conc
        L.SEQS[self.decl.name()] = self
        bv.note_range(self.decl.name(), *rng)
    def __call__(self, *a):
        if all(isinstance(x, int) for x in a): return self.conc(*a)
        return L.keep(self.decl(*[toz(x) for x in a]))
    def instances(self, x, closed=False):
        a = [toint(L.norm(y)) for y in x.children()]
        out = [z3.And(x >= self.rng[0], x <= self.rng[1])]
        if closed: return [L.keep(o) for o in out]
        t = self.decl(*[toz(y) for y in a])
        if not t.eq(x): out.append(x == t)
        for o in self.defs(L.keep(t), *a):
            if o is not True: out.append(toz(o))
        return [L.keep(o) for o in out]
# ------------------------------------------------------------------ kinds of objects
class MatKind:
    """susa::matrix<T>: {rows, cols, objects, T_default, alloc, _matrix}"""
    pattern = r'class\.susa::matrix(\.\d+)?$'
    size = 48
    owning = [(40, 'ptr')]
    def fields(self): return [(0, 'i64'), (8, 'i64'), (16, 'i64'), (24, 'ptr'), (40, 'ptr')]
    # create a well-formed object in a state
    def create(self, eng, st, b, o, elt, R, C, cont=None, name='m', dflt='new'):
        """R None: empty"""
        I64 = ir.I(64)
        sz = ELT[elt][1]
        if R is not None:
            dims = []
            for x in (R, C):
                if not L.atomic(x):
                    y = eng.fresh('dim'); st.assume(y == x); x = y
                dims.append(x)
            R0, C0, (R, C) = R, C, dims
            if isz(mul(C, R)) and L.eqs(mul(C, R), mul(C0, R0)) is not True: st.assume(mul(C, R) == mul(C0, R0))
        N = 0 if R is None else mul(C, R)
        for off, t in ((0, 0 if R is None else R), (8, 0 if R is None else C), (16, N)):
            eng.wr(st, b, 0, o + off, IV(t, 64, False), I64)
        if dflt == 'new':
            db = eng.alloc(st, 'heap', name + '.T_default', sz, 1)
            db.bytes = sz
            eng.wr(st, b, 0, o + 24, Ptr(db, 0), ir.PTR)
        elif dflt == 'null': eng.wr(st, b, 0, o + 24, NULL, ir.PTR)
        if R is None:
            eng.wr(st, b, 0, o + 40, NULL, ir.PTR); d = None
        else:
            d = eng.alloc(st, 'heap', name + '.data', sz, N, shapeR=R)
            d.bytes = L.scale(sz, N)
            d.elt = dict(ELT[elt][2])
            eng.wr(st, b, 0, o + 40, Ptr(d, 0), ir.PTR)
            if cont is not None:
                bs = eng.wbs(st, d)
                for s, c in cont.items(): bs.f[s] = c
            else:
                for s, tk in ELT[elt][2]: eng.content(st, d, s, tk)
        if not hasattr(b, 'objelt'): b.objelt = {}
        b.objelt[o] = elt
        return d
    def view(self, eng, st, b, o, elt, name=''):
        """handle on the current state; None if not well-formed enough to look at"""
        g = lambda off: eng.rd(st, b, 0, o + off, ir.I(64)).t
        p = eng.rd(st, b, 0, o + 40, ir.PTR)
        if isinstance(p, Undef) or p is UNDEF: return None
        if p.b is None: return MatH(eng, elt, 0, 0, None, b, o, None, name)
        if eng.bs(st, p.b).freed: return None
        cont = {}
        for s, tk in ELT[elt][2]: cont[s] = eng.content(st, p.b, s, tk)
        return MatH(eng, elt, g(0), g(8), cont, b, o, p.b, name)
    def check_wf(self, eng, st, b, o, elt=None, what='object'):
        elt = elt or getattr(b, 'objelt', {}).get(o)
        sz = ELT[elt][1]
        g = lambda off: eng.rd(st, b, 0, o + off, ir.I(64)).t
        p = eng.rd(st, b, 0, o + 40, ir.PTR); t = eng.rd(st, b, 0, o + 24, ir.PTR)
        own = []
        for q, nm in ((p, '_matrix'), (t, 'T_default')):
            if isinstance(q, Undef) or (isinstance(q, Ptr) and q.b is not None and (q.b.kind != 'heap' or eng.bs(st, q.b).freed)):
                eng.oblige(st, 'invariant', '%s: %s owns live storage or is null' % (what, nm), False)
                raise PathEnd()
            if q.b is not None: own.append(q.b)
        if p.b is None:
            eng.oblige(st, 'invariant', what + ': an empty matrix has zero sizes', And(Eq(g(0), 0), Eq(g(8), 0), Eq(g(16), 0)))
        else:
            R, C, N = g(0), g(8), g(16)
            if p.b.count is None: p.b.count = L.IntDiv(p.b.bytes, sz); 
            if p.b.stride is None: p.b.stride = sz
            eng.oblige(st, 'invariant', what + ': representation invariant (rows, cols >= 1, objects = rows*cols = allocated elements)',
                       And(Eq(p.o, 0), Ge(R, 1), Ge(C, 1), Eq(N, mul(R, C)), Eq(L.scale(p.b.stride, p.b.count), L.scale(sz, N))))
        return own
    def owned(self, eng, st, b, o):
        out = []
        for off in (40, 24):
            p = eng.rd(st, b, 0, o + off, ir.PTR)
            if isinstance(p, Ptr) and p.b is not None: out.append(p.b)
        return out
    def havoc(self, eng, st, b, o):
        elt = getattr(b, 'objelt', {}).get(o)
        p = eng.rd(st, b, 0, o + 40, ir.PTR)
        if not isinstance(p, Ptr):          # not alive at loop entry: built and destroyed by each iteration
            for off, t in self.fields(): eng.wr(st, b, 0, o + off, UNDEF if t == 'ptr' else IV(eng.fresh('dead'), 64, False), ir.PTR if t == 'ptr' else ir.I(64))
            return 'dead'
        if elt is None: raise Unsupported('havoc of object with unknown element type')
        p = eng.rd(st, b, 0, o + 40, ir.PTR); t = eng.rd(st, b, 0, o + 24, ir.PTR)
        for q in (p, t):
            if isinstance(q, Ptr) and q.b is not None:
                st.live = tuple(x for x in st.live if x is not q.b)
                w = eng.wbs(st, q.b); w.freed = True
        if not (isinstance(p, Ptr) and p.b is not None): raise Unsupported('loop fills an empty matrix object')
        R, C = eng.fresh('hR'), eng.fresh('hC')
        st.assume(And(R >= 1, C >= 1, Le(L.scale(ELT[elt][1], mul(C, R)), MAXB)))
        self.create(eng, st, b, o, elt, R, C, name='hobj')
MAT = MatKind()
KINDS = {'mat': MAT}

# ------------------------------------------------------------------ contracts
class Contract:
    def __init__(self, name, ret, params, spec, prop=(), cpp=None, mode='uf', **opts):
        self.name, self.retk, self.spec, self.mode, self.cpp, self.opts = name, ret, spec, mode, cpp, opts
        self.props = set(prop)
        self.params = []
        for p in params:
            n, k = p.split(':', 1)
            self.params.append((n, k))
        self.label = opts.get('label', name)
def kind_elt(k):
    """'mat<d>' -> ('mat','d')"""
    m = re.match(r'(\w+)<(\w+)>$', k.rstrip('?'))
    return (m.group(1), m.group(2)) if m else (k.rstrip('?'), None)
OBJK = {'cmat', 'mat', 'newmat', 'deadmat', 'mvmat', 'vmat'}

class Ctx:
    """evaluation of a specification"""
    def __init__(self, eng, st, mode, ct):
        self.eng, self.st, self.mode, self.ct = eng, st, mode, ct
        self.reqs, self.posts, self.ensl = [], {}, []
        self.retv = None; self.retspec = None
        self.a = {}
        self.violate = None; self.nreq = 0
        self.decisions = None; self.ndec = 0; self.pending = None
        self.moved = {}; self.invs = []; self.phinvs = []; self.dones = []
    def __getattr__(self, n):
        try: return self.__dict__['a'][n]
        except KeyError: raise AttributeError(n)
    # conditions ------------------------------------------------------
    def branch(self, cond):
        cond = L.simp_bool(cond)
        if isinstance(cond, bool): return cond
        if self.mode == 'verify':
            st = self.st
            if self.eng.qf(st, cond): return True
            if self.eng.qf(st, Not(cond)): return False
            k = self.ndec; self.ndec += 1
            if k < len(self.decisions): d = self.decisions[k]
            else:
                self.pending.append(self.decisions + [False]); self.decisions = self.decisions + [True]; d = True
            st.assume(cond if d else Not(cond))
            return d
        st = self.st
        if self.eng.qf(st, cond): return True
        if self.eng.qf(st, Not(cond)): return False
        s1, s2 = st.fork(), st.fork()
        s1.assume(cond); s2.assume(Not(cond))
        raise Fork([s1, s2])
    def req(self, cond, msg=''):
        cond = L.simp_bool(cond)
        if self.mode == 'conc':
            if not cond: raise Rejected(msg)
            return
        if self.mode == 'verify':
            k = self.nreq; self.nreq += 1
            if self.violate == k:
                self.st.assume(Not(cond)); raise Violated()
            self.st.assume(cond)
            if cond is False: raise Infeasible()
            return
        if self.eng.rejecting:
            self.st.assume(cond)
            if cond is False or not self.eng.P.feasible(self.st.pc): raise PathEnd()
        else:
            self.eng.oblige(self.st, 'call', 'precondition of %s: %s' % (self.ct.label, msg or 'argument check'), cond)
            if cond is False: raise PathEnd()
    def pre(self, cond, msg=''):
        cond = L.simp_bool(cond)
        if self.mode == 'conc':
            if not cond: raise Excluded(msg)
            return
        if self.mode == 'verify':
            self.st.assume(cond)
            if cond is False: raise Infeasible()
            return
        self.eng.oblige(self.st, 'call', 'precondition of %s: %s' % (self.ct.label, msg), cond)
        if cond is False: raise PathEnd()
    def assumption(self, cond, msg):
        """stated, unchecked assumption (recorded)"""
        self.eng.assumed.add(msg) if self.eng else None
        if self.mode == 'conc':
            if not cond: raise Excluded(msg)
            return
        self.st.assume(cond)
    def fits(self, R, C, elt):
        """storage of R x C elements is addressable"""
        if self.mode == 'conc':
            if R * C * ELT[elt][1] > 1 << 24: raise Excluded('too large to run')
            return
        f = Le(L.scale(ELT[elt][1], mul(C, R)), MAXB)
        if self.mode == 'verify': self.st.assume(f); self.eng.assumed.add('requested storage is below 2^63 bytes and is granted')
        else:
            self.eng.assumed.add('requested storage is below 2^63 bytes and is granted'); self.st.assume(f)
    # results ---------------------------------------------------------
    def ret(self, v): self.retspec = ('val', v)
    def retmat(self, R, C, fn, elt=None): self.retspec = ('mat', R, C, fn, elt)
    def retvec(self, N, fn, elt=None): self.retspec = ('mat', N, 1, fn, elt)
    def retobj(self, **f): self.retspec = ('obj', f)
    def retempty(self): self.retspec = ('mat', None, None, None, None)
    def retref(self, A, i): self.retspec = ('ref', A, i)
    def post(self, A, R, C, fn, realloc=False): self.posts[A.name if not isinstance(A, str) else A] = (R, C, fn, realloc)
    def loopinv(self, name, fn):
        """candidate invariant of every loop: fn(objects in their current state, iterations completed)"""
        self.invs.append((name, fn))
    def phiinv(self, name, n, fn, w=32):
        """candidate invariant over n local variables of w bits: fn(iterations completed, v1, ..., vn), tried for every choice of loop variables"""
        self.phinvs.append((name, n, w, fn))
    def doneinv(self, name, fn):
        """candidate invariant: the first fn(iterations completed) elements of the result have their specified values"""
        self.dones.append((name, fn))
    def postobj(self, A, **f): self.posts[A] = f
    def postempty(self, A): self.posts[A.name if not isinstance(A, str) else A] = (None, None, None, True)
    def postwf(self, A): self.posts[A if isinstance(A, str) else A.name] = 'wf'
    def ens(self, fn, name=''): self.ensl.append((fn, name))
    def fold(self, name, init, step, arity=0, deltas=(0, -1), cplx=False, sort='d', view=None, rec=False, rng=None):
        if self.mode == 'conc' and rec:
            memo = {}
            def F(*a):
                if a not in memo:
                    *ps, n = a
                    if any(p < 0 for p in ps): return 0
                    v = init(*ps)
                    for k in range(n): v = step(v, k, *ps, F)
                    if sort == 'i' and not -2 ** 31 <= v < 2 ** 31: raise Excluded('int overflow in the recursion')
                    memo[a] = v
                return memo[a]
            return F
        if self.mode == 'conc':
            def F(*a):
                *ps, n = a
                v = init(*ps)
                for k in range(n): v = step(v, k, *ps)
                return v
            return F
        srt = L.RealS if sort == 'd' else L.IntS
        # identical recursive definitions share one function symbol
        ps = [z3.Int('fp!%d' % k) for k in range(arity)]; k = z3.Int('fk!')
        acc = Cx(z3.Const('fa!r' + sort, srt), z3.Const('fa!i' + sort, srt)) if cplx else z3.Const('fa!' + sort, srt)
        self_ref = (lambda *a: z3.Function('fself', *([L.IntS] * (arity + 1) + [srt]))(*[toz(x) for x in a]))
        key = tuple(L.keep(toz(x) if not isinstance(x, Fraction) else L.rz(x)).get_id() for x in comps(init(*ps)) + comps(step(acc, k, *ps, *([self_ref] if rec else [])))) + (cplx, arity)
        F = FoldF.reg.get(key)
        if F is None:
            F = FoldF(self.eng, name, arity, init, step, deltas, cplx, srt, rec); FoldF.reg[key] = F
        if rng is not None: self.bounded(F, rng)
        for p in F.parts:
            if p not in self.eng.folds: self.eng.folds.append(p)
        if view is not None: self.eng.folds.append(FoldView(F, *view))
        return F

    def bounded(self, F, rng):
        """every value of the fold lies in rng: by induction over the number of steps"""
        eng = self.eng; lo, hi = rng
        st = self.st.fork()
        ps = [eng.fresh('fp') for _ in range(F.arity)]; k = eng.fresh('fk'); acc = eng.fresh('fa')
        st.assume(k >= 0); st.assume(And(acc >= lo, acc <= hi))
        name = F.decls[0].name()
        bv.note_range('fa!', lo, hi)
        a, b = F.init(*ps), F.step(acc, k, *ps)
        for nm, x in (('start', a), ('step', b)): eng.oblige(st, 'lemma', 'range of %s: %s' % (F.name, nm), And(Ge(x, lo), Le(x, hi)))
        bv.note_range(name, lo, hi)
        x = [z3.Int('x!%d' % i) for i in range(F.arity + 1)]
        ax = z3.ForAll(x, z3.And(F.decls[0](*x) >= lo, F.decls[0](*x) <= hi), patterns=[F.decls[0](*x)])
        if not any(ax.eq(y) for y in eng.P.extra): eng.P.extra.append(ax)

class Rejected(Exception): pass
class Excluded(Exception): pass
class Violated(Exception): pass

def mat_eq_facts(eng, h, R, C, fn, name):
    """obligation list: handle h has shape R x C and elements fn"""
    obs = [(name + ': shape', And(Eq(h.R, R), Eq(h.C, C)))]
    if fn is None: return obs
    RR = R if isinstance(R, int) else h.R
    if isinstance(RR, int) and RR == 1:
        def q(c):
            a = h.at(c); b = fn(0, c)
            return (And(Le(0, c), Lt(c, C)), eeq(a, b), [x for x in comps(a) if isz(x)])
        obs.append((name + ': elements', Q(['c'], q)))
    elif isinstance(C, int) and C == 1:
        def q(r):
            a = h.at(r); b = fn(r, 0)
            return (And(Le(0, r), Lt(r, RR)), eeq(a, b), [x for x in comps(a) if isz(x)])
        obs.append((name + ': elements', Q(['r'], q)))
    else:
        def q(r, c):
            a = h.raw(lin(r, c, RR)); b = fn(r, c)
            return (And(Le(0, r), Lt(r, RR), Le(0, c), Lt(c, C)), eeq(a, b), [x for x in comps(a) if isz(x)])
        obs.append((name + ': elements', Q(['r', 'c'], q)))
    return obs

def lam_of(R, C, fn, elt, eng, loose=False):
    """contents {sub: Lam} of an R x C matrix with elements fn(r,c)"""
    lv = ELT[elt][2]; sg = ELT[elt][3]
    cache = {}
    def val(j, n):
        k = j if isinstance(j, int) else j.get_id()
        if k not in cache:
            u = L.unlin(j) if isz(j) else None
            if isinstance(R, int) and R == 1: v = fn(0, j)
            elif isinstance(C, int) and C == 1: v = fn(j, 0)
            elif u is not None and (loose or L.eqs(u[2], R) is True): v = fn(toint(u[0]), toint(u[1]))
            else: v = fn(L.Row(j, R), L.Col(j, R))
            cache[k] = (comps(v), j)
        x = cache[k][0][n]
        tk = lv[n][1]
        if tk[0] == 'i':
            w = int(tk[1:])
            if sg is not None and w > 1: x = review(x, w, sg, canon_sg(w))
        elif not isz(x) and isinstance(x, int): x = Fraction(x)
        return x
    return {s: Lam(lambda j, n=n: val(j, n), tk) for n, (s, tk) in enumerate(lv)}
