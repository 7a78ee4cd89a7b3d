"""Other object kinds usable as parameters and results."""
import z3, re
from . import ir, logic as L
from .ir import Unsupported
from .logic import And, Or, Not, Ite, Implies, Eq, Lt, Le, Gt, Ge, toz, isz, add, sub, mul, lin
from .mem import *
from .engine import *
from .spec import *
from .verify import OBJ, I64, PRIMS, CT
from . import verify as V

class ObjProto:
    size = 16
    def kind(self, eng, elt): return None
    def post_param(self, eng, st, c, n, elt, own, full): pass
    def view_post(self, eng, st, n, elt): return None
    def view_call(self, eng, st, n, elt, blks): return None
    def call_effect(self, eng, st, c, n, elt, p, blks): raise Unsupported('effect')

class Tup(ObjProto):
    """std::tuple<size_t, size_t> const&"""
    def setup(self, eng, ct, st, n, elt, alias, empties, vals):
        b = Blk('arg', n, 16, 1); b.objs = []; st.mem[b.id] = BS()
        x, y = z3.Int(n + '.0'), z3.Int(n + '.1')
        for t in (x, y): st.assume(And(t >= 0, t < (1 << 64)))
        eng.wr(st, b, 0, 8, IV(x, 64, False), I64); eng.wr(st, b, 0, 0, IV(y, 64, False), I64)
        eng.argblk[n] = b; eng.handles[n] = (x, y); vals.append(Ptr(b, 0))
    def call_arg(self, eng, st, c, ct, n, elt, args, blks):
        p = args.pop(0)
        b, idx, o = eng.locate(st, p, 16, 'tuple argument')
        c.a[n] = (eng.rd(st, b, idx, o + 8, I64).t, eng.rd(st, b, idx, o, I64).t)
OBJ['tup'] = Tup()

class AllocObj(ObjProto):
    """a (stateless) allocator"""
    size = 1
    def ctype(self, elt): return 'susa::allocator_log<%s>' % ELT[elt][0]
    def setup(self, eng, ct, st, n, elt, alias, empties, vals):
        b = Blk('arg', n, 1, 1); b.objs = []; st.mem[b.id] = BS()
        eng.argblk[n] = b; eng.handles[n] = None; vals.append(Ptr(b, 0))
OBJ['alloc'] = AllocObj()
class HeapPtr(ObjProto):
    """storage of n.N elements obtained from the allocator; the function gives it back"""
    def ctype(self, elt): return ELT[elt][0] + '*'
    def setup(self, eng, ct, st, n, elt, alias, empties, vals):
        N = z3.Int(n + '.N'); sz = ELT[elt][1]
        st.assume(And(N >= 0, Le(L.scale(sz, N), MAXB)))
        d = eng.alloc(st, 'heap', n, sz, N); d.bytes = L.scale(sz, N); d.elt = dict(ELT[elt][2])
        eng.argblk[n] = d; eng.handles[n] = N; vals.append(Ptr(d, 0))
    def post_param(self, eng, st, c, n, elt, own, full):
        eng.oblige(st, 'post', n + ' is released', bool(eng.bs(st, eng.argblk[n]).freed))
OBJ['heapptr'] = HeapPtr()
class NullPtr(ObjProto):
    def ctype(self, elt): return 'void*'
    def setup(self, eng, ct, st, n, elt, alias, empties, vals): eng.argblk[n] = None; eng.handles[n] = None; vals.append(NULL)
OBJ['null'] = NullPtr()
class ScalarRef(ObjProto):
    """reference to a number that the function does not change"""
    def ctype(self, elt): return ELT[elt][0]
    def setup(self, eng, ct, st, n, elt, alias, empties, vals):
        from .spec import ELT2SC
        b = Blk('arg', n, ELT[elt][1], 1); st.mem[b.id] = BS()
        l, v = eng.scalar_in(st, ELT2SC[elt], n)
        self.ty = ir.DOUBLE if elt == 'd' else ir.I(int(ELT[elt][2][0][1][1:]))
        eng.wr(st, b, 0, 0, l[0], self.ty)
        eng.argblk[n] = b; eng.handles[n] = v; vals.append(Ptr(b, 0))
    def get(self, eng, st, b, elt):
        v = eng.rd(st, b, 0, 0, self.ty)
        return v if elt == 'd' else eng.conv(st, v, ELT[elt][3]).t
    def post_param(self, eng, st, c, n, elt, own, full): eng.oblige(st, 'post', n + ' is unchanged', Eq(self.get(eng, st, eng.argblk[n], elt), eng.handles[n]))
    def view_post(self, eng, st, n, elt): return eng.handles[n]
OBJ['sref'] = ScalarRef()

# ------------------------------------------------------------------ std::vector
class VecKind:
    """std::vector<T>: {begin, end, end of storage}"""
    pattern = r'class\.std::vector(\.\d+)?$'
    size = 24
    owning = [(0, 'ptr')]
    def fields(self): return [(0, 'ptr'), (8, 'ptr'), (16, 'ptr')]
    def create(self, eng, st, b, o, elt, N, cont=None, name='v'):
        sz = ELT[elt][1]
        if not L.atomic(N):
            y = eng.fresh('dim'); st.assume(y == toz(N)); N = y
        d = eng.alloc(st, 'heap', name + '.data', sz, N)
        d.bytes = L.scale(sz, N); d.elt = dict(ELT[elt][2])
        d.vec = N
        for off, q in ((0, Ptr(d, 0)), (8, Ptr(d, L.scale(sz, N))), (16, Ptr(d, L.scale(sz, N)))): eng.wr(st, b, 0, o + off, q, ir.PTR)
        if cont is not None:
            bs = eng.wbs(st, d)
            for s, c in cont.items(): bs.f[s] = c
        else:
            for s, tk in ELT[elt][2]: eng.content(st, d, s, tk)
        if not hasattr(b, 'objelt'): b.objelt = {}
        b.objelt[o] = elt
        return d
    def size_of(self, eng, st, b, o, elt):
        p, e = eng.rd(st, b, 0, o, ir.PTR), eng.rd(st, b, 0, o + 8, ir.PTR)
        if not (isinstance(p, Ptr) and isinstance(e, Ptr)): return None
        if p.b is None and e.b is None: return 0
        if p.b is not e.b or eng.bs(st, p.b).freed: return None
        c = getattr(p.b, 'vec', None)
        sz = ELT[elt][1]
        if c is not None and L.eqs(e.o, L.scale(sz, c)) is True: return c
        return L.IntDiv(sub(e.o, p.o), sz)
    def view(self, eng, st, b, o, elt, name=''):
        N = self.size_of(eng, st, b, o, elt)
        if N is None: return None
        p = eng.rd(st, b, 0, o, ir.PTR)
        if p.b is None: return MatH(eng, elt, 0, 0, None, b, o, None, name)
        cont = {s: eng.content(st, p.b, s, tk) for s, tk in ELT[elt][2]}
        return MatH(eng, elt, N, 1, cont, b, o, p.b, name)
    def check_wf(self, eng, st, b, o, elt=None, what='vector'):
        elt = elt or getattr(b, 'objelt', {}).get(o)
        p, e, q = (eng.rd(st, b, 0, o + k, ir.PTR) for k in (0, 8, 16))
        ok = all(isinstance(x, Ptr) for x in (p, e, q)) and p.b is e.b and e.b is q.b and (p.b is None or not eng.bs(st, p.b).freed)
        if not ok:
            eng.oblige(st, 'invariant', what + ': the vector is alive', False); raise PathEnd()
        return [p.b] if p.b is not None else []
    def owned(self, eng, st, b, o):
        p = eng.rd(st, b, 0, o, ir.PTR)
        return [p.b] if isinstance(p, Ptr) and p.b is not None else []
    def havoc(self, eng, st, b, o):
        p = eng.rd(st, b, 0, o, ir.PTR)
        if not isinstance(p, Ptr):
            for off, t in self.fields(): eng.wr(st, b, 0, o + off, UNDEF, ir.PTR)
            return 'dead'
        elt = getattr(b, 'objelt', {}).get(o)
        if elt is None: raise Unsupported('havoc of a vector with unknown element type')
        if p.b is not None:
            st.live = tuple(x for x in st.live if x is not p.b)
            eng.wbs(st, p.b).freed = True
        N = eng.fresh('hN'); st.assume(And(N >= 0, Le(L.scale(ELT[elt][1], N), MAXB)))
        self.create(eng, st, b, o, elt, N, name='hvec')
VEC = VecKind()
KINDS['vec'] = VEC
CPP2ELT = {v[0]: k for k, v in ELT.items()}

class Vec(ObjProto):
    """cvec<T>: const std::vector<T>&; vec<T>: std::vector<T>& or a returned vector; vvec<T>: by value"""
    size = 24
    def __init__(self, base): self.base = base
    def ctype(self, elt): return 'std::vector<%s>' % ELT[elt][0]
    def kind(self, eng, elt): return VEC
    def setup(self, eng, ct, st, n, elt, alias, empties, vals):
        b = Blk('arg', n, 24, 1); b.objs = [(0, VEC, None)]; st.mem[b.id] = BS()
        N = z3.Int(n + '.N'); st.assume(And(N >= 0, Le(L.scale(ELT[elt][1], N), MAXB)))
        cont = {s: eng.new_base('%s@%d' % (n, s), tk) for s, tk in ELT[elt][2]}
        VEC.create(eng, st, b, 0, elt, N, cont, n)
        eng.argblk[n] = b; eng.handles[n] = VEC.view(eng, st, b, 0, elt, n); vals.append(Ptr(b, 0))
    def post_ret(self, eng, st, c, elt, own, full):
        own(VEC.check_wf(eng, st, eng.retblk, 0, elt, 'result'), 'result')
        h = VEC.view(eng, st, eng.retblk, 0, elt, 'ret')
        if full:
            R, C, fn = c.retspec[1:4]
            self.check(eng, st, h, R, fn, 'result')
        return h
    def check(self, eng, st, h, N, fn, what):
        if h is None: eng.oblige(st, 'post', what + ' is alive', False); return
        eng.oblige(st, 'post', what + ': size', Eq(h.R, N))
        if fn is None or h.empty: return
        for nm, f in mat_eq_facts(eng, h, N, 1, fn, what)[1:]: eng.oblige(st, 'post', nm, f)
    def post_param(self, eng, st, c, n, elt, own, full):
        b = eng.argblk[n]
        own(VEC.check_wf(eng, st, b, 0, elt, n), n)
        if not full or self.base == 'vvec': return
        h0 = eng.handles[n]; h = VEC.view(eng, st, b, 0, elt, n)
        p = c.posts.get(n)
        if p is None: self.check(eng, st, h, h0.R, lambda r, q: h0.at(r), n + ' is unchanged')
        elif p != 'wf': self.check(eng, st, h, p[0], p[2], n + ' afterwards')
    def view_post(self, eng, st, n, elt): return VEC.view(eng, st, eng.argblk[n], 0, elt, n)
    def view_call(self, eng, st, n, elt, blks): return VEC.view(eng, st, blks[n][0], blks[n][1], elt, n)
    def call_arg(self, eng, st, c, ct, n, elt, args, blks):
        p = args.pop(0)
        b, idx, o = eng.locate(st, p, 24, 'vector argument')
        if not isinstance(idx, int) or idx: raise Unsupported('vector in array')
        VEC.check_wf(eng, st, b, o, elt, n)
        blks[n] = (b, o)
        h = VEC.view(eng, st, b, o, elt, n)
        if h.empty: h = MatH(eng, elt, 0, 1, {s: Lam(lambda j, tk=tk: Fraction(0) if tk in ('double', 'float') else 0, tk) for s, tk in ELT[elt][2]}, b, o, None, n)
        c.a[n] = h
    def call_effect(self, eng, st, c, n, elt, p, blks):
        b, o = blks[n]
        if p == 'wf' or p[3]: raise Unsupported('vector effect')
        h = VEC.view(eng, st, b, o, elt, n)
        cont = lam_of(p[0], 1, p[2], elt, eng)
        for s, x in cont.items():
            eng.wbs(st, h.data).f[s] = x; eng.note(st, h.data, s, x.tk)
    def call_ret(self, eng, st, c, sret, elt):
        b, idx, o = eng.locate(st, sret, 24, 'result vector')
        R, C, fn = c.retspec[1:4]
        VEC.create(eng, st, b, o, elt, R, lam_of(R, 1, fn, elt, eng) if fn is not None else None, 'obj')
        return VEC.view(eng, st, b, o, elt, 'ret')
for k in ('vec', 'cvec', 'vvec'): OBJ[k] = Vec(k)

# library model: std::vector members that are kept as calls
def p_vector(eng, st, sn, a, i):
    m = re.match(r'^(?:.* )?std::vector<(.*?)>::(~?\w+=?|operator=)[(<]?(.*)$', sn)
    if m is None: raise Unsupported('library function ' + sn)
    T, fn, rest = m.groups()
    if T not in CPP2ELT: raise Unsupported('std::vector<%s>' % T)
    elt = CPP2ELT[T]
    b, idx, o = eng.locate(st, a[0], 24, 'vector')
    if not isinstance(idx, int) or idx: raise Unsupported('vector in array')
    if fn == 'vector':
        if rest.startswith(')'):
            for off in (0, 8, 16): eng.wr(st, b, 0, o + off, NULL, ir.PTR)
            if not hasattr(b, 'objelt'): b.objelt = {}
            b.objelt[o] = elt
            return None
        if rest.startswith('unsigned long'):
            n = eng.U(st, a[1])
            eng.assumed.add('requested storage is below 2^63 bytes and is granted')
            st.assume(Le(L.scale(ELT[elt][1], n), MAXB))
            if re.match(r'unsigned long, %s const&' % re.escape(T), rest):
                src = a[2]
                b2, i2, o2 = eng.locate(st, src, ELT[elt][1], 'initial value')
                vals = {s: eng.content(st, b2, o2 + s, tk).read(i2) for s, tk in ELT[elt][2]}
                cont = {s: Lam(lambda j, v=vals[s]: v, tk) for s, tk in ELT[elt][2]}
            else: cont = {s: Lam(lambda j, tk=tk: Fraction(0) if tk in ('double', 'float') else 0, tk) for s, tk in ELT[elt][2]}
            VEC.create(eng, st, b, o, elt, n, cont, 'vector'); return None
        if rest.startswith('std::vector<%s> const&)' % T):
            b2, i2, o2 = eng.locate(st, a[1], 24, 'vector')
            h = VEC.view(eng, st, b2, o2, elt, 'src')
            if h is None: raise Unsupported('copy of a vector that is not alive')
            if h.empty: return p_vector(eng, st, 'std::vector<%s>::vector()' % T, a, i)
            VEC.create(eng, st, b, o, elt, h.R, {s: Lam(c.read, c.tk) for s, c in h.cont.items()}, 'copy'); return None
        if rest.startswith('std::vector<%s>&&)' % T):
            b2, i2, o2 = eng.locate(st, a[1], 24, 'vector')
            for off in (0, 8, 16):
                eng.wr(st, b, 0, o + off, eng.rd(st, b2, 0, o2 + off, ir.PTR), ir.PTR)
                eng.wr(st, b2, 0, o2 + off, NULL, ir.PTR)
            if not hasattr(b, 'objelt'): b.objelt = {}
            b.objelt[o] = elt; return None
    if fn == '~vector':
        p = eng.rd(st, b, 0, o, ir.PTR)
        if isinstance(p, Ptr) and p.b is not None: eng.free(st, Ptr(p.b, 0), 'destructor of vector')
        for off in (0, 8, 16): eng.wr(st, b, 0, o + off, UNDEF, ir.PTR)
        return None
    if fn == 'operator=':
        b2, i2, o2 = eng.locate(st, a[1], 24, 'vector')
        h = VEC.view(eng, st, b2, o2, elt, 'src')
        p = eng.rd(st, b, 0, o, ir.PTR)
        if h is None or not isinstance(p, Ptr): raise Unsupported('assignment of a vector that is not alive')
        if b2 is b and o2 == o: return a[0]
        if p.b is not None: eng.free(st, Ptr(p.b, 0), 'assignment of vector')
        if '&&' in rest:
            for off in (0, 8, 16):
                eng.wr(st, b, 0, o + off, eng.rd(st, b2, 0, o2 + off, ir.PTR), ir.PTR)
                eng.wr(st, b2, 0, o2 + off, NULL, ir.PTR)
        elif h.empty:
            for off in (0, 8, 16): eng.wr(st, b, 0, o + off, NULL, ir.PTR)
        else: VEC.create(eng, st, b, o, elt, h.R, {s: Lam(c.read, c.tk) for s, c in h.cont.items()}, 'copy')
        if not hasattr(b, 'objelt'): b.objelt = {}
        b.objelt[o] = elt
        return a[0]
    raise Unsupported('library function ' + sn)
PRIMS.append((r'^(.* )?std::vector<', p_vector))
