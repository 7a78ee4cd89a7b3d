"""Classes with plain members: a table of fields describes representation, ownership and invariant of a class of the library.

Field kinds: scalar kinds of spec.SCALARS, 'd', 'bool'; 'vptr'; ('heap', elt, count) pointer to an owned block of count(h)
elements (null when absent is allowed if nullable); ('arr', elt, n) array inside the object; ('mat', elt); ('vec', elt)."""
import z3, re
from . import ir, logic as L, concrete
from .ir import Unsupported
from .logic import And, Or, Not, Ite, Implies, Eq, Lt, Le, Gt, Ge, toz, isz, add, sub, mul, lin
from .mem import *
from .engine import *
from .spec import *
from .verify import OBJ, PRIMS, I64
from .objs import ObjProto, VEC
from .concrete import KCONC, ser_elt, ser_num, show

class F:
    def __init__(self, name, off, kind, null=None, ghost=None, hidden=False, init=None): self.init = init; self.name, self.off, self.kind, self.null, self.ghost, self.hidden = name, off, kind, null, ghost, hidden   # ghost: specification value beyond the end of the object; ghost(fields) = concrete value of a generated object
    sc = property(lambda s: isinstance(s.kind, str) and s.kind != 'vptr')
    arr = property(lambda s: isinstance(s.kind, tuple) and s.kind[0] in ('heap', 'arr', 'vec', 'mat'))
class StructH:
    """view: one attribute per field"""
    def __init__(self, name, vals): self.__dict__['vals'] = vals; self.__dict__['name'] = name
    def __getattr__(self, n):
        try: return self.__dict__['vals'][n]
        except KeyError: raise AttributeError(n)
    def __repr__(self): return '{%s}' % ', '.join('%s=%s' % (k, show(v)) for k, v in self.vals.items())

class Inline:
    """array stored inside an object"""
    def __init__(self, off, size, blk): self.off, self.size, self.blk = off, size, blk

class StructDef:
    reg = {}
    def __init__(self, base, ctype, size, fields, inv=None, gen=None, make='', pattern=None, cfields=None):
        self.base, self.ctype, self.size, self.fields, self.inv, self.gen, self.make = base, ctype, size, fields, inv or (lambda h: []), gen, make
        self.pattern = pattern or r'class\.%s$' % re.escape(ctype)
        self.f = {f.name: f for f in fields}
        StructDef.reg[base] = self
        for p in ('', 'c', 'new', 'dead'): OBJ[p + base] = StructObj(self, p); KCONC[p + base] = StructConc(self, p)
        KINDS['struct_' + base] = StructKind(self)

class StructKind:
    """object of a struct class used by the executor (loops, locals)"""
    def __init__(self, d): self.d = d; self.pattern, self.size = d.pattern, d.size; self.owning = []
    def fields(self): return []
    def owned(self, eng, st, b, o):
        out = []
        for f in self.d.fields:
            if f.arr and f.kind[0] == 'heap':
                p = eng.rd(st, b, 0, o + f.off, ir.PTR)
                if isinstance(p, Ptr) and p.b is not None: out.append(p.b)
            elif f.arr and f.kind[0] == 'vec': out += VEC.owned(eng, st, b, o + f.off)
            elif f.arr and f.kind[0] == 'mat': out += MAT.owned(eng, st, b, o + f.off)
        return out
    def check_wf(self, *a): return []
    def havoc(self, eng, st, b, o): raise Unsupported('loop replaces an object of ' + self.d.ctype)

class StructObj(ObjProto):
    def __init__(self, d, pre): self.d, self.pre = d, pre; self.size = d.size
    def ctype(self, elt): return self.d.ctype
    def kind(self, eng, elt): return KINDS['struct_' + self.d.base]
    def blank(self, eng, st, b, o=0):
        for f in self.d.fields:
            if f.arr and f.kind[0] == 'arr':
                _, elt, n = f.kind; sz = ELT[elt][1]
                k = Blk('inline', '%s.%s' % (b.name, f.name), sz, n); k.bytes = sz * n; k.elt = dict(ELT[elt][2]); st.mem[k.id] = BS()
                if not hasattr(b, 'inl') or b.inl is None: b.inl = []
                b.inl.append(Inline(o + f.off, sz * n, k))
            elif f.arr and f.kind[0] in ('mat', 'vec'):
                b.objs = [x for x in (b.objs or []) if x[0] != o + f.off] + [(o + f.off, MAT if f.kind[0] == 'mat' else VEC, None)]
                if not hasattr(b, 'objelt'): b.objelt = {}
                b.objelt[o + f.off] = f.kind[1]
    def inline(self, b, off):
        for x in getattr(b, 'inl', None) or []:
            if x.off == off: return x.blk
        raise Unsupported('inline array of a moved object')
    def fill(self, eng, st, b, o, vals, name):
        """store values: scalars as terms, arrays as (N, {sub: content}) or None for null / (R, C, cont)"""
        for f in self.d.fields:
            if f.kind == 'vptr': eng.wr(st, b, 0, o + f.off, Ptr(eng_vt(eng, st), 0), ir.PTR); continue
            v = vals.get(f.name)
            if f.sc: self.put_sc(eng, st, b, o + f.off, f.kind, v); continue
            self.put_arr(eng, st, b, o, f, v, name)
    def put_sc(self, eng, st, b, off, k, v):
        if k in SCALARS: w, sg = SCALARS[k]; eng.wr(st, b, 0, off, IV(v, w, sg), ir.I(w))
        elif k == 'bool': eng.wr(st, b, 0, off, IV(v if not isinstance(v, bool) and not (isz(v) and z3.is_bool(v)) else Ite(v, 1, 0) if isz(v) else int(v), 8, False), ir.I(8))
        else: eng.wr(st, b, 0, off, v, ir.DOUBLE)
    def put_arr(self, eng, st, b, o, f, v, name):
        t = f.kind[0]; elt = f.kind[1]
        if t == 'heap':
            if v is None: eng.wr(st, b, 0, o + f.off, NULL, ir.PTR); return
            N, cont = v; sz = ELT[elt][1]
            d = eng.alloc(st, 'heap', '%s.%s' % (name, f.name), sz, N); d.bytes = L.scale(sz, N); d.elt = dict(ELT[elt][2])
            self.content(eng, st, d, elt, cont)
            eng.wr(st, b, 0, o + f.off, Ptr(d, 0), ir.PTR)
        elif t == 'arr': self.content(eng, st, self.inline(b, o + f.off), elt, v[1] if v else None)
        elif t == 'mat':
            if v is None: MAT.create(eng, st, b, o + f.off, elt, None, None, None, name + '.' + f.name)
            else: MAT.create(eng, st, b, o + f.off, elt, v[0], v[1], v[2], name + '.' + f.name)
        elif t == 'vec': VEC.create(eng, st, b, o + f.off, elt, v[0], v[1], name + '.' + f.name)
    def content(self, eng, st, d, elt, cont):
        if cont is not None:
            for s, c in cont.items():
                eng.wbs(st, d).f[s] = c; eng.note(st, d, s, c.tk)
        else:
            eng.fresh_n += 1
            for s, tk in ELT[elt][2]: eng.wbs(st, d).f[s] = eng.new_base('sc%d_%d_%s' % (eng.fresh_n, s, tk), tk); eng.note(st, d, s, tk)
    def view(self, eng, st, b, o, name):
        vals = {}
        h = StructH(name, vals); h.__dict__['b'] = b; h.__dict__['o'] = o; h.__dict__['data'] = {}
        for f in self.d.fields:
            if f.kind == 'vptr': continue
            if f.sc:
                v = eng.rd(st, b, 0, o + f.off, scalar_ty(f.kind))
                if isinstance(v, Undef): vals[f.name] = eng.fresh('undef'); continue
                if f.kind in SCALARS: v = eng.conv(st, v, SCALARS[f.kind][1]).t
                elif f.kind == 'bool': v = Eq(v.t, 1) if isinstance(v, IV) else v
                vals[f.name] = v
        for f in self.d.fields:
            if not f.arr: continue
            t, elt = f.kind[:2]
            if t == 'heap':
                p = eng.rd(st, b, 0, o + f.off, ir.PTR)
                if not isinstance(p, Ptr) or p.b is not None and eng.bs(st, p.b).freed: vals[f.name] = None; continue
                h.data[f.name] = p.b
                if p.b is None: vals[f.name] = MatH(eng, elt, 0, 1, None, b, o, None, name + '.' + f.name); continue
                if p.b.stride is None: p.b.stride = ELT[elt][1]
                if p.b.count is None: p.b.count = L.IntDiv(p.b.bytes, p.b.stride)
                vals[f.name] = MatH(eng, elt, p.b.count, 1, {s: eng.content(st, p.b, s, tk) for s, tk in ELT[elt][2]}, b, o, p.b, name + '.' + f.name)
            elif t == 'arr':
                k = self.inline(b, o + f.off)
                vals[f.name] = MatH(eng, elt, f.kind[2], 1, {s: eng.content(st, k, s, tk) for s, tk in ELT[elt][2]}, b, o, k, name + '.' + f.name)
            elif t == 'mat': vals[f.name] = MAT.view(eng, st, b, o + f.off, elt, name + '.' + f.name)
            elif t == 'vec': vals[f.name] = VEC.view(eng, st, b, o + f.off, elt, name + '.' + f.name)
        return h
    def counts(self, h):
        """sizes promised by the field table"""
        out = []
        for f in self.d.fields:
            if f.arr and f.kind[0] == 'heap':
                v = h.vals[f.name]
                c = f.kind[2](h)
                out.append((f, v, c))
        return out
    # ---- verification
    def setup(self, eng, ct, st, n, elt, alias, empties, vals):
        b = Blk('arg', n, self.d.size, 1); b.objs = []; st.mem[b.id] = BS(); self.blank(eng, st, b)
        eng.argblk[n] = b
        vals.append(Ptr(b, 0))
        if self.pre == 'new': eng.handles[n] = None; return
        fv = {}; h0 = StructH(n, fv)
        for f in self.d.fields:
            if f.sc:
                l, t = eng.scalar_in(st, f.kind, '%s.%s' % (n, f.name)); fv[f.name] = t
                if f.kind in SCALARS: eng.intargs.append(t)
        for f in self.d.fields:
            if not f.arr: continue
            t, el = f.kind[:2]; sz = ELT[el][1]
            cont = {s: eng.new_base('%s.%s@%d' % (n, f.name, s), tk) for s, tk in ELT[el][2]}
            if t == 'heap':
                N = f.kind[2](h0)
                if f.null is not None:       # absent exactly when the condition holds: a run of its own
                    nul = f.null(h0)
                    if n in empties: st.assume(nul); fv[f.name] = None; continue
                    st.assume(Not(nul))
                st.assume(Le(L.scale(sz, N), MAXB)) if isz(N) else None
                fv[f.name] = (N, cont)
            elif t == 'arr': fv[f.name] = (f.kind[2], cont)
            elif t == 'mat':
                R, C = z3.Int('%s.%s.R' % (n, f.name)), z3.Int('%s.%s.C' % (n, f.name))
                st.assume(And(R >= 1, C >= 1)); st.assume(Le(L.scale(sz, mul(C, R)), MAXB)); fv[f.name] = (R, C, cont)
            elif t == 'vec':
                N = z3.Int('%s.%s.N' % (n, f.name)); st.assume(And(N >= 0, Le(L.scale(sz, N), MAXB))); fv[f.name] = (N, cont)
        self.fill(eng, st, b, 0, fv, n)
        h = self.view(eng, st, b, 0, n)
        eng.handles[n] = h
        for g in self.d.inv(h): self.know(eng, st, g)
    def know(self, eng, st, g):
        for x in as_facts(g): st.assume(x)
    def wf(self, eng, st, b, o, what, own):
        h = self.view(eng, st, b, o, what)
        for f, v, c in self.counts(h):
            p = eng.rd(st, b, 0, o + f.off, ir.PTR)
            ok = isinstance(p, Ptr) and (p.b is None or p.b.kind == 'heap' and not eng.bs(st, p.b).freed)
            if not ok:
                eng.oblige(st, 'invariant', '%s: %s owns live storage' % (what, f.name), False); raise PathEnd()
            if p.b is None: eng.oblige(st, 'invariant', '%s: %s is allocated' % (what, f.name), f.null(h) if f.null is not None else Eq(c, 0)); continue
            eng.oblige(st, 'invariant', '%s: %s has the size the object promises' % (what, f.name), And(Eq(p.o, 0), Eq(p.b.count, c)))
            own([p.b], '%s.%s' % (what, f.name))
        for f in self.d.fields:
            if f.arr and f.kind[0] == 'mat': own(MAT.check_wf(eng, st, b, o + f.off, f.kind[1], '%s.%s' % (what, f.name)), '%s.%s' % (what, f.name))
            if f.arr and f.kind[0] == 'vec': own(VEC.check_wf(eng, st, b, o + f.off, f.kind[1], '%s.%s' % (what, f.name)), '%s.%s' % (what, f.name))
        h = self.view(eng, st, b, o, what)
        for k, g in enumerate(self.d.inv(h)):
            for g1 in (g if isinstance(g, (list, tuple)) else [g]): eng.oblige(st, 'invariant', '%s: representation invariant %d' % (what, k), g1)
        return h
    def check(self, eng, st, h, h0, p, what):
        """fields against the specification p (dict), others unchanged"""
        for f in self.d.fields:
            if f.kind == 'vptr': continue
            v = h.vals[f.name]
            if p is not None and f.name in p:
                e = p[f.name]
                if e is ANY: continue
                if f.sc: eng.oblige(st, 'post', '%s: member %s' % (what, f.name), eeq(v, e) if f.kind != 'bool' else Eq(toz(v), toz(e)))
                elif e is None: eng.oblige(st, 'post', '%s: %s is empty' % (what, f.name), v is not None and v.empty)
                else:
                    R, C, fn = e if len(e) == 3 else (e[0], 1, (lambda q, e=e: lambda r, c: e[1](r))(0) if e[1] is not None else None)
                    if v is None: eng.oblige(st, 'post', '%s: %s is alive' % (what, f.name), False); continue
                    for nm, g in mat_eq_facts(eng, v, R, C, fn, '%s: %s' % (what, f.name)):
                        if not nm.endswith('shape') or f.kind[0] != 'arr': eng.oblige(st, 'post', nm, g)
            elif h0 is not None:
                v0 = h0.vals[f.name]
                if f.sc:
                    if L.eqs(v, v0) is not True if not isinstance(v, bool) and not (isz(v) and z3.is_bool(v)) else True: eng.oblige(st, 'frame', '%s: member %s is unchanged' % (what, f.name), eeq(v, v0) if f.kind != 'bool' else Eq(toz(v), toz(v0)))
                    continue
                if v0 is None or v is None: eng.oblige(st, 'frame', '%s: %s is unchanged' % (what, f.name), v is v0); continue
                if v0.empty or v.empty: eng.oblige(st, 'frame', '%s: %s is unchanged' % (what, f.name), v.empty == v0.empty); continue
                if f.kind[0] == 'heap' and v.data is not v0.data: eng.oblige(st, 'frame', '%s: %s keeps its storage' % (what, f.name), False); continue
                if v.data is v0.data and all(v.cont[s] is v0.cont[s] for s in v.cont): continue
                for nm, g in mat_eq_facts(eng, v, v0.R, v0.C, lambda r, c, v0=v0: v0[r, c] , '%s: %s is unchanged' % (what, f.name)): eng.oblige(st, 'frame', nm, g)
            else: raise Unsupported('constructor leaves %s unspecified' % f.name)
    def witness(self, eng, st, b, p):
        """ghost fields take the values the contract names"""
        for f in self.d.fields:
            if f.ghost and isinstance(p, dict) and f.name in p and p[f.name] is not ANY: self.put_sc(eng, st, b, f.off, f.kind, p[f.name])
    def post_param(self, eng, st, c, n, elt, own, full):
        if self.pre == 'dead': return
        b = eng.argblk[n]
        if full: self.witness(eng, st, b, c.posts.get(n))
        h = self.wf(eng, st, b, 0, n, own)
        if not full and self.pre != 'c': return
        p = c.posts.get(n)
        if p == 'wf': return
        self.check(eng, st, h, eng.handles[n], p, n)
    def post_ret(self, eng, st, c, elt, own, full):
        if full: self.witness(eng, st, eng.retblk, c.retspec[1])
        h = self.wf(eng, st, eng.retblk, 0, 'result', own)
        if full: self.check(eng, st, h, None, c.retspec[1], 'result')
        return h
    def view_post(self, eng, st, n, elt): return self.view(eng, st, eng.argblk[n], 0, n) if self.pre != 'dead' else None
    def view_call(self, eng, st, n, elt, blks): return self.view(eng, st, blks[n][0], blks[n][1], n) if self.pre != 'dead' else None
    # ---- call sites
    def call_arg(self, eng, st, c, ct, n, elt, args, blks):
        p = args.pop(0)
        if not isinstance(p, Ptr) or p.b is None: eng.oblige(st, 'memory', '%s: valid object argument' % ct.label, False); raise PathEnd()
        b, idx, o = eng.locate(st, p, 1, 'object argument', True)
        if not isinstance(idx, int) or idx: raise Unsupported('object in array')
        blks[n] = (b, o)
        if self.pre == 'new':
            if not any(x.off >= o for x in getattr(b, 'inl', None) or []): self.blank(eng, st, b, o)
            c.a[n] = None; return
        for f in self.d.fields:       # specification values of an object still under construction
            if f.ghost and o + f.off not in eng.bs(st, b).f: self.put_sc(eng, st, b, o + f.off, f.kind, f.init)
        h = self.wf(eng, st, b, o, n, lambda *a: None)
        c.a[n] = h
    def call_effect(self, eng, st, c, n, elt, p, blks):
        b, o = blks[n]
        if self.pre == 'dead':
            for x in self.kind(eng, elt).owned(eng, st, b, o): eng.free(st, Ptr(x, 0), 'destructor')
            for f in self.d.fields:
                if f.arr and f.kind[0] == 'heap': eng.wr(st, b, 0, o + f.off, UNDEF, ir.PTR)
            return
        if p == 'wf': raise Unsupported('unspecified effect')
        h0 = self.view(eng, st, b, o, n) if self.pre != 'new' else None
        vals = {}
        for f in self.d.fields:
            if f.kind == 'vptr': 
                if self.pre == 'new': eng.wr(st, b, 0, o + f.off, Ptr(eng_vt(eng, st), 0), ir.PTR)
                continue
            if f.name not in p: continue
            e = p[f.name]
            if f.sc:
                if e is ANY:
                    eng.fresh_n += 1; l, e = eng.scalar_in(st, f.kind, 'any.%s!%d' % (f.name, eng.fresh_n))
                self.put_sc(eng, st, b, o + f.off, f.kind, e); continue
            t, el = f.kind[:2]
            if e is ANY:
                if t == 'heap' and self.pre != 'new': self.content(eng, st, h0.data[f.name], el, None); continue
                if t == 'arr': self.content(eng, st, self.inline(b, o + f.off), el, None); continue
                raise Unsupported('unspecified member')
            if e is None:
                self.put_arr(eng, st, b, o, f, None, n); continue
            R, C, fn = e if len(e) == 3 else (e[0], 1, (lambda r, c, e=e: e[1](r)) if e[1] is not None else None)
            cont = lam_of(R, C, fn, el, eng) if fn is not None else None
            if t == 'arr': self.content(eng, st, self.inline(b, o + f.off), el, cont)
            elif t == 'heap':
                if h0 is not None and h0.data.get(f.name) is not None and L.eqs(h0.data[f.name].count, R) is True: self.content(eng, st, h0.data[f.name], el, cont)
                else:
                    if h0 is not None and h0.data.get(f.name) is not None: eng.free(st, Ptr(h0.data[f.name], 0), 'reallocation')
                    self.put_arr(eng, st, b, o, f, (R, cont), n)
            elif t == 'mat':
                if h0 is not None: eng.set_mat(st, b, o + f.off, el, (R, C, fn, True), False)
                else: self.put_arr(eng, st, b, o, f, (R, C, cont), n)
            else: raise Unsupported('effect on a vector member')
        h = self.view(eng, st, b, o, n)
        for g in self.d.inv(h): self.know(eng, st, g)
    def call_ret(self, eng, st, c, sret, elt):
        b, idx, o = eng.locate(st, sret, 1, 'result object', True)
        self.blank(eng, st, b, o)
        old = self.pre; self.pre = 'new'
        try: self.call_effect(eng, st, c, 'ret', elt, c.retspec[1], {'ret': (b, o)})
        finally: self.pre = old
        return self.view(eng, st, b, o, 'ret')
class _Any:
    def __repr__(self): return 'ANY'
ANY = _Any()
def scalar_ty(k):
    if k in SCALARS: return ir.I(SCALARS[k][0])
    if k == 'bool': return ir.I(8)
    return ir.DOUBLE
def eng_vt(eng, st):
    b = getattr(eng, 'vtblk', None)
    if b is None or b.id not in st.mem:
        b = Blk('global', 'vtable', 8, 8); eng.vtblk = b; st.mem[b.id] = BS()
    return b

# ------------------------------------------------------------------ concrete side
class StructConc:
    def __init__(self, d, pre): self.d, self.pre = d, pre
    def gen(self, g, elt):
        return StructH('', self.d.gen(g))
    def ser(self, v, elt):
        o = []
        for f in self.d.fields:
            if f.kind == 'vptr' or f.ghost or f.hidden: continue
            x = v.vals[f.name]
            if f.sc: o.append(ser_num(x, f.kind if f.kind in ('d', 'bool') else 'i')); continue
            t, el = f.kind[:2]
            if t == 'mat': o.append('%d %d' % (x.R, x.C))
            else: o.append('%d' % x.N)
            o += [ser_elt(y, el) for y in x.data]
        return ' '.join(o)
    def parse(self, t, elt):
        vals = {}
        for f in self.d.fields:
            if f.kind == 'vptr' or f.ghost or f.hidden: continue
            if f.sc:
                x = t.next(); vals[f.name] = (float.fromhex(x) if 'x' in x else float(x)) if f.kind == 'd' else bool(int(x)) if f.kind == 'bool' else int(x); continue
            k, el = f.kind[:2]
            if k == 'mat': R, C = int(t.next()), int(t.next())
            else: R, C = int(t.next()), 1
            vals[f.name] = ConcMat(el, R, C, [t.elt(el) for _ in range(R * C)])
        return StructH('', vals)
    def eqf(self, f, a, b, tol):
        if f.sc: return concrete.close(a, b, tol)
        return a.R == b.R and a.C == b.C and all(concrete.close(x, y, tol) for x, y in zip(a.data, b.data))
    def eq(self, a, b, elt, tol): return all(self.eqf(f, a.vals[f.name], b.vals[f.name], tol) for f in self.d.fields if f.kind != 'vptr' and not f.ghost and not f.hidden)
    def cmp(self, p, got, tol, old=None):
        for f in self.d.fields:
            if f.ghost:
                got.vals[f.name] = p[f.name] if p is not None and p.get(f.name, ANY) is not ANY else f.ghost(got) if p is not None and f.name in p or old is None else old.vals[f.name]
        for f in self.d.fields:
            if f.kind == 'vptr' or f.ghost or f.hidden: continue
            v = got.vals[f.name]
            if p is not None and f.name in p:
                e = p[f.name]
                if e is ANY: continue
                if f.sc:
                    if not concrete.close(v, e, tol): return 'member %s is %s, specified %s' % (f.name, v, e)
                elif e is None:
                    if v.N: return 'member %s is not empty' % f.name
                else:
                    R, C, fn = e if len(e) == 3 else (e[0], 1, (lambda r, c, e=e: e[1](r)) if e[1] is not None else None)
                    m = concrete.cmp_mat(R, C, fn, v, tol)
                    if m: return 'member %s: %s' % (f.name, m)
            elif old is not None and not self.eqf(f, v, old.vals[f.name], tol): return 'member %s is changed' % f.name
        for k, g in enumerate(self.d.inv(got)):
            b = max([4] + [x.N + 2 for x in got.vals.values() if isinstance(x, ConcMat)])
            if not concrete.evalq(g, min(b, 3000)): return 'representation invariant %d does not hold' % k
        return None
    def cmp_ret(self, rs, got, elt, tol): return self.cmp(rs[1], got, tol)
    def cmp_post(self, p, got, elt, tol, old=None): return None if p == 'wf' else self.cmp(p, got, tol, old)

def driver_code(d):
    """vc_io for the class (members are accessible: -fno-access-control)"""
    rd, wr = [], []
    for f in d.fields:
        if f.kind == 'vptr' or f.ghost or f.hidden: continue
        n = f.name
        if f.sc:
            T = CPP[f.kind]
            rd.append('%s f_%s = vc_val<%s>();' % (T, n, T)); wr.append('vc_io<%s>::wr(o.%s);' % (T, n))
        else:
            t, el = f.kind[:2]; T = ELT[el][0]
            if t == 'mat': rd.append('susa::matrix<%s> f_%s = vc_val<susa::matrix<%s>>();' % (T, n, T)); wr.append('vc_io<susa::matrix<%s>>::wr(o.%s);' % (T, n))
            else:
                rd.append('std::vector<%s> f_%s = vc_val<std::vector<%s>>();' % (T, n, T))
                if t == 'vec': wr.append('vc_io<std::vector<%s>>::wr(o.%s);' % (T, n))
                else:
                    cnt = str(f.kind[2]) if t == 'arr' else d.counts_cpp[n]
                    wr.append('{ size_t n_ = %s; vc_put(" %%zu", n_); for (size_t k = 0; k < n_; k++) vc_io<%s>::wr(o.%s[k]); }' % (cnt, T, n))
    mk = d.make
    asg = []
    for f in d.fields:
        if f.kind == 'vptr' or f.ghost or f.hidden: continue
        n = f.name
        if f.sc or f.kind[0] in ('mat', 'vec'): asg.append('o->%s = f_%s;' % (n, n))
        else: asg.append('for (size_t k = 0; k < f_%s.size(); k++) o->%s[k] = f_%s[k];' % (n, n, n))
    return 'template <> struct vc_io<%s> {\n  static %s* rd() { %s %s* o = %s; %s return o; }\n  static void wr(const %s& o) { %s }\n};\n' % (d.ctype, d.ctype, ' '.join(rd), d.ctype, mk, ' '.join(asg), d.ctype, ' '.join(wr))
