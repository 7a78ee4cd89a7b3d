"""Symbolic executor / VC generator over the normalised LLVM IR of the real code."""
import z3, time, re, itertools, struct
from fractions import Fraction
from . import ir, bv, logic as L
from .ir import Unsupported
from .logic import And, Or, Not, Ite, Implies, Eq, Lt, Le, Gt, Ge, toz, isz, add, sub, mul, lindec
from .mem import *

class PathEnd(Exception):
    pass
class Fork(Exception):
    """restart the current instruction in several states"""
    def __init__(self, states): self.states = states

class State:
    def __init__(self):
        self.pc, self.regs, self.mem, self.trace, self.loops, self.mods = [], {}, {}, (), [], None
        self.live = ()           # heap blocks allocated or owned, in order
        self.nonnull = ()
        self.skip = False
        self.ghost = {}
    def fork(self):
        s = State()
        s.pc = list(self.pc); s.regs = dict(self.regs); s.mem = dict(self.mem)
        s.trace, s.loops, s.mods = self.trace, list(self.loops), self.mods
        s.live = self.live; s.ghost = dict(self.ghost)
        return s
    def assume(self, f):
        f = L.simp_bool(f)
        if f is True: return
        self.pc.append(toz(f))

class Q:
    """universally quantified formula: names, fn(*vars) -> (guard, body, [pattern terms])"""
    def __init__(self, names, fn, sorts=None): self.names, self.fn, self.sorts = names, fn, sorts or [L.IntS] * len(names)
    _n = 0
    def skolem(self):
        Q._n += 1
        vs = [z3.Const('%s!%d' % (n, Q._n), s) for n, s in zip(self.names, self.sorts)]
        g, b, _ = self.fn(*vs)
        return vs, g, b
    def forall(self):
        vs = [z3.Const('q_' + n, s) for n, s in zip(self.names, self.sorts)]
        g, b, pats = self.fn(*vs)
        f = Implies(g, b)
        if isinstance(f, bool): return f
        ps = []
        ids = {v.get_id() for v in vs}
        for p in pats:
            pl = [y for y in (p if isinstance(p, (list, tuple)) else [p]) if isz(y)]
            if not pl: continue
            cov = set()
            for t in pl: cov |= freevars(t, ids)
            if cov == ids and not any(bad_pattern(t) for t in pl): ps.append(z3.MultiPattern(*pl) if len(pl) > 1 else pl[0])
        if ps: return z3.ForAll(vs, f, patterns=ps)
        return z3.ForAll(vs, f)

def bad_pattern(t):
    if not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED): return True
    st = [t]
    while st:
        x = st.pop()
        if z3.is_app(x):
            if x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE): return True
            st += x.children()
    return False
def freevars(t, ids):
    out = set(); st = [t]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.get_id() in ids: out.add(x.get_id())
        if z3.is_app(x): st += x.children()
    return out

def as_facts(f):
    if isinstance(f, (list, tuple)):
        out = []
        for x in f: out += as_facts(x)
        return out
    if isinstance(f, Q): f = f.forall()
    f = L.simp_bool(f)
    return [] if f is True else [toz(f)]

def unviewed(t, w):
    """x when t is the signed view  x > max ? x - 2^w : x"""
    if isz(t) and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and L.eqs(sub(t.arg(2), t.arg(1)), 1 << w) is True:
        c, x = t.arg(0), t.arg(2)
        neg = z3.is_not(c)
        if neg: c = c.arg(0)
        if neg and c.decl().kind() == z3.Z3_OP_LE and c.arg(0).eq(x) and z3.is_int_value(c.arg(1)) and c.arg(1).as_long() == (1 << (w - 1)) - 1: return x
        if not neg and c.decl().kind() == z3.Z3_OP_GT and c.arg(0).eq(x) and z3.is_int_value(c.arg(1)) and c.arg(1).as_long() == (1 << (w - 1)) - 1: return x
        if not neg and c.decl().kind() == z3.Z3_OP_GE and c.arg(0).eq(x) and z3.is_int_value(c.arg(1)) and c.arg(1).as_long() == 1 << (w - 1): return x
    return None
_fapps, _finst = {}, {}
def fold_apps(t):
    """ground applications of recursive specification functions in t"""
    if not isz(t): return ()
    r = _fapps.get(t.get_id())
    if r is None:
        out = []; st = [t]; vis = set()
        while st:
            x = st.pop()
            if x.get_id() in vis or z3.is_quantifier(x) or not z3.is_app(x): continue
            vis.add(x.get_id())
            if x.num_args():
                n = x.decl().name()
                if n.startswith('fold_') and not any(z3.is_var(c) for c in x.children()): out.append((x, n))
                st += x.children()
        r = _fapps[t.get_id()] = (tuple(out), t)
    return r[0]
def spec_int(t): return t.as_long() if z3.is_int_value(t) else t
class Ob:
    def __init__(self, kind, name, fn, where): self.kind, self.name, self.fn, self.where, self.status, self.time, self.by, self.info = kind, name, fn, where, None, 0, '', ''
    def d(self): return dict(kind=self.kind, name=self.name, fn=self.fn, where=self.where, status=self.status, time=round(self.time, 3), by=self.by)

class Engine:
    MAXPATHS = 4000
    def __init__(self, mod, names, contracts, opts=None):
        self.mod, self.names, self.contracts = mod, names, contracts
        self.P = L.Prover()
        self.obs = []
        self.opts = opts or {}
        self.fresh_n = 0
        self.mode = 'final'     # final | houdini | dry
        self.killed = {}
        self.oblfacts = {}       # facts that hold because they are obligations
        self.modcache = {}
        self.uses = set()
        self.assumed = set()
        self.paths = 0
        self.deadline = None
        self.returns = 0
        self.base_seen = set()
        self.rejecting = False
        self.folds = []         # Fold objects with instances
        self.hints = None
        self.overflow_ok = self.opts.get('overflow_ok', False)
        self.fails = []
        self.quiet = False
        self.fname = ''

    # ---------------------------------------------------------------- helpers
    def fresh(self, base, sort=None):
        self.fresh_n += 1
        return L.keep(z3.Const('%s!%d' % (base, self.fresh_n), L.IntS if sort is None else sort))
    def fresh_val(self, st, ty, base='v', sg=None):
        if ty.k == 'int':
            v = self.fresh(base)
            if ty.a == 1:
                b = z3.Const(base + '_b!%d' % self.fresh_n, L.BoolS)
                return L.keep(b)
            sg = canon_sg(ty.a) if sg is None else sg; lo, hi = rng(ty.a, sg)
            self.truth(st, z3.And(v >= lo, v <= hi))
            return IV(v, ty.a, sg)
        if ty.k in ('double', 'float'): return self.fresh(base, L.RealS)
        r = self.mod.resolve(ty)
        if r.k == 'struct': return [self.fresh_val(st, e, base) for e in r.a]
        raise Unsupported('fresh value of type %r' % ty)

    def new_base(self, name, tk):
        b = Base(name, tk)
        if name not in self.base_seen:
            self.base_seen.add(name)
            a = b.axiom()
            if a is not None: self.P.extra.append(a)
        return b

    def qf(self, st, g): return self.P.qf(st.pc, g)

    # provers ---------------------------------------------------------
    def fold_instances(self, terms):
        """one-step unfoldings of the recursive spec functions occurring in terms"""
        if not self.folds and not L.SEQS: return []
        out = []; seen = set()
        work = list(terms)
        decls = {f.decl.name(): f for f in self.folds if hasattr(f, 'decl')}
        decls.update(L.SEQS)
        for depth in range(2):
            new = []
            for t in work:
                for x, n in fold_apps(t):
                    f = decls.get(n)
                    if f is None or x.get_id() in seen: continue
                    seen.add(x.get_id())
                    closed = getattr(f, 'opaque', False) and f.name not in self.opts.get('unfold', ())
                    k = (f.decl.get_id(), x.get_id(), closed)
                    r = _finst.get(k)
                    if r is None: r = _finst[k] = (f.instances(x, closed) if closed else f.instances(x), x, f.decl)
                    if hasattr(f, 'conc'): out += r[0]      # sequences: one step only
                    else: new += r[0]
            out += new
            work = new
            if depth == 0 and not new: break
            if depth == 0 and len(new) > 12: break
        return out

    def prove(self, st, goal, timeout=None, final=False):
        """goal: z3 bool | Q | list. returns (ok, by)"""
        if isinstance(goal, (list, tuple)):
            by = ''
            for g in goal:
                ok, by = self.prove(st, g, timeout, final)
                if not ok: return False, by
            return True, by
        pc = st.pc
        if isinstance(goal, Q):
            vs, g, b = goal.skolem()
            facts = as_facts(g)
            if isinstance(b, (Q, list, tuple)):
                s2 = st.fork(); s2.pc += facts
                return self.prove(s2, b, timeout, final)
            pc = pc + facts
            goal = b
            if isz(goal) and bv.has_bits(goal):
                r = self.by_cases(st, pc, facts, vs, L.simp_bool(goal), timeout, final)
                if r is not None: return r
        goal = L.simp_bool(goal)
        if goal is True: return True, 'simplify'
        if isz(goal) and z3.is_and(goal):
            for c in goal.children():
                s2 = st.fork(); s2.pc = pc
                ok, by = self.prove(s2, c, timeout, final)
                if not ok: return False, by
            return True, by
        if self.P.qf(pc, goal): return True, 'z3-qf'
        ext = self.fold_instances(([goal] if isz(goal) else []) + [f for f in pc[-60:] if not L.has_quant(f)])
        if bv.has_bits(goal) or any(bv.has_bits(f) for f in pc) or any(bv.has_bits(f) for f in ext):
            t0 = time.time()
            r = bv.prove(pc + ext, goal, 4000 if not final else 20000)
            self.P.stat['bv'] = self.P.stat.get('bv', 0) + 1; self.P.stat['t_full'] += time.time() - t0
            if r: return True, 'bit-vectors'
        r = self.P.full(pc, goal, timeout, ext)
        if r == 'unsat': return True, 'z3'
        if self.cases_of_fact(st, pc, goal, timeout, final): return True, 'z3-split'
        if final:
            if self.split_prove(pc, goal, ext): return True, 'z3-split'
            if self.P.cvc5(): return True, 'cvc5'
        if final or self.induct:
            c = self.ite_cond(goal) if self.extdepth == 0 and len({n for _, n in (fold_apps(goal) if isz(goal) else ())}) > 1 else None
            if c is not None:
                for lit, val in ((c, True), (L.keep(z3.Not(c)), False)):
                    s2 = st.fork(); s2.pc = pc + [lit]
                    if not self.prove(s2, L.rebuild(goal, {c.get_id(): val}), timeout, final)[0]: return False, r
                return True, 'z3 induction'
            eqs = self.fold_ext(st, pc, goal, timeout)
            if eqs:
                r2 = self.P.full(pc + eqs, goal, timeout, ext)
                if r2 == 'unsat': return True, 'z3 induction'
        return False, r

    extdepth, induct = 0, False
    def ite_cond(self, t):
        st = [t]; seen = set()
        while st:
            x = st.pop()
            if x.get_id() in seen or not z3.is_app(x): continue
            seen.add(x.get_id())
            if x.decl().kind() == z3.Z3_OP_ITE: return x.arg(0)
            st += x.children()
        return None
    def fold_ext(self, st, pc, goal, timeout):
        """two recursive specification functions that take the same value at a number of steps of the goal: by induction over the steps"""
        if not isz(goal) or self.extdepth > 1: return []
        from .spec import FoldF, comps
        byname = {d.name(): F for F in FoldF.reg.values() for d in F.decls}
        apps = {}
        for x, n in fold_apps(goal):
            F = byname.get(n)
            if F is not None and not getattr(F, 'rec', False): apps.setdefault((F.name, n if not F.cplx else n[:-1], tuple(c.get_id() for c in x.children())), (F, [spec_int(c) for c in x.children()]))
        apps = list(apps.values())[:6]; out = []
        self.extdepth += 1
        try:
            for F, xs in apps:       # an index among the elements seen so far
                if F.tk != 'int': continue
                ps, N = xs[:-1], xs[-1]; rg = lambda v, k: And(Ge(v, 0), Or(L.Lt(v, k), Eq(v, 0)))
                s1 = st.fork(); s1.pc = list(pc); k = self.fresh('fk'); a = F.apply(ps, k)
                for f in (Ge(k, 0), rg(a, k)): s1.assume(f)
                if self.prove(s1, rg(F.init(*ps), 0), timeout, False)[0] and self.prove(s1, rg(F.step(a, k, *ps), add(k, 1)), timeout, False)[0]: out += as_facts(Implies(Ge(N, 0), rg(F.apply(ps, N), N)))
            for i, (F, xs) in enumerate(apps):
                for G, ys in apps[i + 1:]:
                    if F is G or F.cplx != G.cplx or F.tk != G.tk: continue
                    N, M = xs[-1], ys[-1]
                    s0 = st.fork(); s0.pc = list(pc)
                    if not self.prove(s0, L.Eq(N, M), timeout, False)[0]: continue
                    ps, qs = xs[:-1], ys[:-1]
                    same = lambda u, v: And(*[L.rz(a) == L.rz(b) if F.tk == 'double' else toz(a) == toz(b) for a, b in zip(comps(u), comps(v))])
                    if not self.prove(s0, same(F.init(*ps), G.init(*qs)), timeout, True)[0]: continue
                    done = False
                    for index in ((True, False) if F.tk == 'int' else (False,)):     # an index among the elements seen so far
                        rg = (lambda v, k: And(Ge(v, 0), Or(L.Lt(v, k), Eq(v, 0)))) if index else (lambda v, k: True)
                        s1 = st.fork(); s1.pc = list(pc)
                        k = self.fresh('fk'); a, b = F.apply(ps, k), G.apply(qs, k)
                        for f in (Ge(k, 0), L.Lt(k, N), same(a, b), rg(a, k)): s1.assume(f)
                        u, v = F.step(a, k, *ps), G.step(b, k, *qs)
                        if index and not (self.prove(s0, rg(F.init(*ps), 0), timeout, False)[0] and self.prove(s1, rg(u, add(k, 1)), timeout, False)[0]): continue
                        if self.prove(s1, same(u, v), timeout, True)[0]: done = True; break
                    if done:
                        e = Implies(Ge(N, 0), same(F.apply(ps, N), G.apply(qs, M)))
                        out += as_facts(e)
        finally: self.extdepth -= 1
        return out

    def by_cases(self, st, pc, facts, vs, goal, timeout, final):
        """a goal about every index that treats one index apart: that index first, then the others"""
        ids = {v.get_id(): v for v in vs}
        todo = [goal]; seen = set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen or not z3.is_app(x): continue
            seen.add(x.get_id())
            if x.decl().kind() == z3.Z3_OP_EQ and z3.is_int(x.arg(0)):
                for a, b in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
                    if a.get_id() in ids and not freevars(b, set(ids)):
                        s1 = st.fork(); s1.pc = pc[:len(pc) - len(facts)]
                        for f in facts:
                            g = L.simp_bool(L.rebuild(f, {a.get_id(): spec_int(b)}))
                            if g is False: break
                            if g is not True: s1.pc.append(toz(g))
                        else:
                            ok, by = self.prove(s1, L.rebuild(goal, {a.get_id(): spec_int(b)}), timeout, final)
                            if not ok: return False, by
                        s2 = st.fork(); s2.pc = pc + [L.keep(z3.Not(x))]
                        return self.prove(s2, L.rebuild(goal, {x.get_id(): False}), timeout, final)
            todo += x.children()
        return None
    def cases_of_fact(self, st, pc, goal, timeout, final):
        """a fact that is a disjunction of cases which each fix variables: the goal in every case, with the variables replaced"""
        if self.insplit: return False
        for f in pc[-60:]:
            if not isz(f) or not z3.is_or(f) or f.num_args() < 3: continue
            cases = []
            for d in f.children():
                m = {}
                for e in (d.children() if z3.is_and(d) else [d]):
                    if z3.is_eq(e):
                        for a, b in (e.children(), e.children()[::-1]):
                            if z3.is_int_value(a) and z3.is_const(b) and z3.is_int(b): m[b.get_id()] = a.as_long()
                cases.append((m, d))
            if not all(m for m, _ in cases): continue
            self.insplit = True
            try:
                for m, d in cases:
                    s2 = st.fork(); s2.pc = []
                    for g in pc + list(d.children() if z3.is_and(d) else [d]):
                        if g is f or not isz(g): continue
                        if not L.has_quant(g): g = L.simp_bool(L.rebuild(g, m))
                        if g is False: break
                        if g is not True: s2.pc.append(toz(g))
                    else:
                        if not self.prove(s2, L.rebuild(goal, m) if isz(goal) else goal, timeout, False)[0]: return False
                return True
            finally: self.insplit = False
        return False
    insplit = False
    def split_prove(self, pc, goal, ext):
        """case split on the if-conditions of the goal"""
        conds = []
        st = [goal] if isz(goal) else []; seen = set()
        while st:
            x = st.pop()
            if x.get_id() in seen or z3.is_quantifier(x): continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_ITE and not has_free(x.arg(0)): conds.append(x.arg(0))
                st += x.children()
        if not conds: return False
        conds = conds[:3]
        for signs in itertools.product([0, 1], repeat=len(conds)):
            cs = [c if s else z3.Not(c) for c, s in zip(conds, signs)]
            if self.P.qf(pc + cs, goal): continue
            if self.P.full(pc + cs, goal, 6000, ext) != 'unsat': return False
        return True

    def oblige(self, st, kind, name, goal):
        """emit an obligation; in final mode discharge it; afterwards assume it"""
        if self.mode == 'final':
            ob = Ob(kind, name, self.fname, st.trace[-1] if st.trace else '')
            t0 = time.time()
            ok, by = self.prove(st, goal, final=True)
            ob.time = time.time() - t0
            ob.status = 'proved' if ok else 'failed'
            ob.by = by
            if not ok:
                ob.info = str(goal)[:2000] if not isinstance(goal, Q) else 'forall ' + ','.join(goal.names)
                ob.path = st.trace
                self.fails.append(ob)
            self.obs.append(ob)
        for f in as_facts(goal): st.pc.append(f); self.oblfacts[f.get_id()] = f

    # ---------------------------------------------------------------- int ops
    def conv(self, st, v, sg):
        if v.w == 1: return v
        if v.sg == sg: return v
        t, w = v.t, v.w
        if isinstance(t, int):
            if sg: return IV(t - (1 << w) if t >= (1 << (w - 1)) else t, w, True)
            return IV(t % (1 << w), w, False)
        if sg:
            if self.qf(st, t < (1 << (w - 1))): return IV(t, w, True)
            return IV(Ite(t >= (1 << (w - 1)), sub(t, 1 << w), t), w, True)
        if self.qf(st, t >= 0): return IV(t, w, False)
        u = unviewed(t, w)
        if u is not None and z3.is_app(u):
            r = bv.RANGES.get(u.decl().name())
            if r is not None and r[0] >= 0 and r[1] < 1 << w: return IV(u, w, False)
        if u is not None and self.qf(st, And(Ge(u, 0), Lt(u, 1 << w))): return IV(u, w, False)
        return IV(Ite(t < 0, add(t, 1 << w), t), w, False)
    def U(self, st, v): return self.conv(st, v, False).t
    def S(self, st, v): return self.conv(st, v, True).t
    def wrap(self, st, t, w, sg):
        """t: exact mathematical result -> value mod 2^w in view sg"""
        lo, hi = rng(w, sg)
        if isinstance(t, int):
            t %= (1 << w)
            if sg and t > hi: t -= (1 << w)
            return IV(t, w, sg)
        okl = self.qf(st, t >= lo); okh = self.qf(st, t <= hi)
        if okl and okh: return IV(t, w, sg)
        M = 1 << w
        if okl and self.qf(st, t <= hi + M): return IV(Ite(t > hi, sub(t, M), t), w, sg)
        if okh and self.qf(st, t >= lo - M): return IV(Ite(t < lo, add(t, M), t), w, sg)
        if not sg: return IV(L.IntMod(t, M), w, False)
        m = L.IntMod(t, M)
        return IV(Ite(toz(m) > hi, sub(m, M), m), w, True)
    def smallsigned(self, v):
        """constants like 2^64-1 used as -1"""
        if isinstance(v.t, int):
            t = v.t
            if t >= (1 << (v.w - 1)): t -= 1 << v.w
            return t
        return None

    def b2i(self, b):
        if isinstance(b, bool): return int(b)
        return Ite(b, 1, 0)

    def truth(self, st, f):
        """assume a fact that holds by itself (a range, a definition): never the condition of anything"""
        st.assume(f)
        for x in as_facts(f): self.oblfacts[x.get_id()] = L.keep(x)

    def binop(self, st, op, a, b, w, flags):
        if w == 1 or not isinstance(a, IV):
            A = a if not isinstance(a, IV) else Eq(a.t, 1)
            B = b if not isinstance(b, IV) else Eq(b.t, 1)
            if op == 'and': return And(A, B)
            if op == 'or': return Or(A, B)
            if op in ('xor', 'add', 'sub'):
                if isinstance(B, bool): return Not(A) if B else A
                if isinstance(A, bool): return Not(B) if A else B
                return L.simp_bool(z3.Xor(A, B))
            raise Unsupported('i1 op ' + op)
        pa, pb = getattr(a, 'p', None), getattr(b, 'p', None)
        if pa is not None or pb is not None:
            if op == 'sub' and pa is not None and pb is not None:
                if pa.b is not pb.b: raise Unsupported('difference of unrelated pointers')
                d = sub(pa.o, pb.o)
                if isinstance(d, int): return IV(d, w, True)
                return IV(d, w, True)
            raise Unsupported('arithmetic on a pointer value')
        if op in ('add', 'sub', 'mul'):
            nsw, nuw = 'nsw' in flags, 'nuw' in flags
            if nsw and not nuw:
                x, y = self.S(st, a), self.S(st, b)
                r = add(x, y) if op == 'add' else sub(x, y) if op == 'sub' else mul(x, y)
                lo, hi = rng(w, True)
                if not isinstance(r, int) and not self.overflow_ok:
                    if not (self.qf(st, r >= lo) and self.qf(st, r <= hi)):
                        ok = z3.And(r >= lo, r <= hi)
                        cur = getattr(self, 'cur', None)
                        if cur is not None and cur.op == op and self.only_select(cur.res): self.poison = dict(self.poison); self.poison[cur.res] = ok
                        else: self.oblige(st, 'overflow', 'no signed overflow in %s' % op, ok)
                return IV(r, w, True)
            ka, kb = self.smallsigned(a), self.smallsigned(b)
            sg = a.sg and b.sg and w < 64 and False
            if op in ('add', 'sub') and kb is not None:
                x = a.t
                r = add(x, kb) if op == 'add' else sub(x, kb)
                return self.wrap(st, r, w, a.sg)
            if op == 'add' and ka is not None:
                return self.wrap(st, add(b.t, ka), w, b.sg)
            x, y = self.U(st, a), self.U(st, b)
            r = add(x, y) if op == 'add' else sub(x, y) if op == 'sub' else mul(x, y)
            return self.wrap(st, r, w, False)
        if op in ('udiv', 'urem'):
            x, y = self.U(st, a), self.known(st, self.U(st, b))
            if isinstance(y, int):
                if y == 0: raise Unsupported('division by constant zero')
                return IV(L.IntDiv(x, y) if op == 'udiv' else L.IntMod(x, y), w, False)
            self.oblige(st, 'div0', 'divisor is not zero', Not(Eq(y, 0)))
            r = L.Col(x, y) if op == 'udiv' else L.Row(x, y)
            if not self.qf(st, Ge(x, 0)): self.truth(st, And(Ge(r, 0), Lt(r, y) if op == 'urem' else Le(r, x)))   # unsigned operands
            return IV(r, w, False)
        if op in ('sdiv', 'srem'):
            x, y = self.S(st, a), self.S(st, b)
            if not isinstance(y, int) or y <= 0:
                self.oblige(st, 'div0', 'divisor is not zero', Not(Eq(y, 0)))
                if not (self.qf(st, Gt(y, 0))):
                    lo = rng(w, True)[0]
                    if not self.overflow_ok: self.oblige(st, 'overflow', 'the quotient is representable', Not(And(Eq(x, lo), Eq(y, -1))))
                    q, r, f = L.signed_div(x, y); st.assume(f)
                    return IV(q if op == 'sdiv' else r, w, True)
            if isinstance(x, int) and isinstance(y, int):
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return IV(q if op == 'sdiv' else x - q * y, w, True)
            div = (lambda p: L.IntDiv(p, y)) if isinstance(y, int) else (lambda p: L.Col(p, y))
            mod = (lambda p: L.IntMod(p, y)) if isinstance(y, int) else (lambda p: L.Row(p, y))
            if self.qf(st, Ge(x, 0)): return IV(div(x) if op == 'sdiv' else mod(x), w, True)
            nx = L.neg(x)
            if op == 'sdiv': return IV(Ite(Ge(x, 0), div(x), L.neg(div(nx))), w, True)
            return IV(Ite(Ge(x, 0), mod(x), L.neg(mod(nx))), w, True)
        if op == 'shl':
            x = self.U(st, a)
            if isinstance(b.t, int): return self.wrap(st, L.scale(1 << b.t, x), w, False)
            if isinstance(x, int) and x == 1:
                return self.wrap(st, self.pow2(st, self.U(st, b)), w, False)
            return self.wrap(st, mul(x, self.pow2(st, self.U(st, b))), w, False)
        if op == 'lshr':
            x = self.U(st, a)
            if isinstance(b.t, int): return IV(L.IntDiv(x, 1 << b.t), w, False)
            return IV(L.Col(x, self.pow2(st, self.U(st, b))), w, False)
        if op == 'ashr':
            x = self.S(st, a)
            if isinstance(b.t, int): return IV(L.IntDiv(x, 1 << b.t), w, True)
            if self.qf(st, Ge(x, 0)): return IV(L.Col(x, self.pow2(st, self.U(st, b))), w, True)
            raise Unsupported('ashr by variable')
        if op == 'and':
            for p, q in ((a, b), (b, a)):
                if isinstance(q.t, int):
                    m = q.t % (1 << w)
                    x = self.U(st, p)
                    if isinstance(x, int): return IV(x & m, w, False)
                    if m == 0: return IV(0, w, False)
                    if m & (m + 1) == 0: return IV(L.IntMod(x, m + 1), w, False)
                    lowz = (m & -m).bit_length() - 1
                    hi = m >> lowz
                    if hi & (hi + 1) == 0:
                        return IV(L.scale(1 << lowz, L.IntMod(L.IntDiv(x, 1 << lowz), hi + 1)), w, False)
        if op in ('and', 'or', 'xor'):
            x, y = self.U(st, a), self.U(st, b)
            if isinstance(x, int) and isinstance(y, int):
                return IV({'and': x & y, 'or': x | y, 'xor': x ^ y}[op], w, False)
            f = L.uf('bit%s%d' % (op, w), L.IntS, L.IntS, L.IntS)
            x, y = toz(x), toz(y)
            if x.get_id() > y.get_id(): x, y = y, x
            r = L.keep(f(x, y))
            self.truth(st, z3.And(r >= 0, r <= (1 << w) - 1))
            return IV(r, w, False)
        raise Unsupported('binop ' + op)

    def known(self, st, v):
        """the constant a variable equals by a fact of the path"""
        if isz(v) and z3.is_const(v):
            for f in st.pc:
                if z3.is_eq(f):
                    for x, y in (f.children(), f.children()[::-1]):
                        if y.eq(v) and z3.is_int_value(x): return x.as_long()
        return v
    def pow2(self, st, n):
        if isinstance(n, int): return 1 << n
        f = L.uf('pow2', L.IntS, L.IntS)
        r = L.keep(f(toz(n)))
        self.truth(st, z3.And(r >= 1, z3.Implies(toz(n) <= 0, r == 1), z3.Implies(toz(n) >= 1, z3.And(r >= 2, r == 2 * f(toz(n) - 1)))))
        return r

    def icmp(self, st, pred, a, b, ty):
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            return self.pcmp(st, pred, a, b)
        if getattr(a, 'p', None) is not None or getattr(b, 'p', None) is not None:
            pa, pb = getattr(a, 'p', None), getattr(b, 'p', None)
            if pa is None and isinstance(a.t, int) and a.t == 0: pa = NULL
            if pb is None and isinstance(b.t, int) and b.t == 0: pb = NULL
            if pa is None or pb is None: raise Unsupported('comparison of a pointer value')
            return self.pcmp(st, pred, pa, pb)
        if ty.k == 'int' and ty.a == 1:
            A, B = (Eq(x.t, 1) if isinstance(x, IV) else x for x in (a, b))
            e = Eq(A, B) if not (isinstance(A, bool) and isinstance(B, bool)) else A == B
            return e if pred == 'eq' else Not(e)
        if pred in ('eq', 'ne'):
            if isinstance(a.t, int) and not isinstance(b.t, int): a, b = b, a
            if isinstance(b.t, int): b = self.conv(st, b, a.sg)
            elif a.sg != b.sg: a, b = self.conv(st, a, False), self.conv(st, b, False)
            e = Eq(a.t, b.t)
            return e if pred == 'eq' else Not(e)
        f = {'lt': Lt, 'le': Le, 'gt': Gt, 'ge': Ge}[pred[1:]]
        if pred[0] == 's': return f(self.S(st, a), self.S(st, b))
        return f(self.U(st, a), self.U(st, b))

    def pcmp(self, st, pred, a, b):
        if isinstance(a, FnPtr) or isinstance(b, FnPtr): raise Unsupported('function pointer comparison')
        if a.b is not b.b:
            if a.b is None or b.b is None or pred in ('eq', 'ne'):
                if pred == 'eq': return False
                if pred == 'ne': return True
            raise Unsupported('relational comparison of unrelated pointers')
        f = {'eq': Eq, 'ne': lambda x, y: Not(Eq(x, y)), 'ult': Lt, 'ule': Le, 'ugt': Gt, 'uge': Ge, 'slt': Lt, 'sle': Le, 'sgt': Gt, 'sge': Ge}[pred]
        return f(a.o, b.o)

    # ---------------------------------------------------------------- values
    def const_fp(self, s, ty):
        if s.startswith('0x'):
            if s[2] in 'KLMH': raise Unsupported('long double constant')
            d = struct.unpack('>d', bytes.fromhex(s[2:].rjust(16, '0')))[0]
            if d != d or d in (float('inf'), float('-inf')):
                return L.keep(z3.Const('const_' + s, L.RealS))
            return Fraction(d)
        return Fraction(s)

    def val(self, st, v, ty):
        k = v[0]
        if k == 'lv':
            if v[1] not in st.regs: raise Unsupported('register %s undefined' % v[1])
            return st.regs[v[1]]
        if k == 'int':
            if ty.a == 1: return bool(v[1])
            w = ty.a; t = v[1]; sg = canon_sg(w)
            if sg:
                t %= 1 << w
                if t >= 1 << (w - 1): t -= 1 << w
            else: t %= 1 << w
            return IV(t, w, sg)
        if k == 'fp': return self.const_fp(v[1], ty)
        if k == 'null': return NULL
        if k == 'undef': return self.fresh_any(st, ty)
        if k == 'zero': return self.zero(ty)
        if k == 'gv': return self.globalptr(st, v[1])
        if k == 'agg': return [self.val(st, x, t) for t, x in v[1]]
        if k == 'gep':
            vals = [(t, self.val(st, x, t)) for t, x in v[2]]
            return self.gep(st, v[1], vals)
        raise Unsupported('value %r' % (v,))
    def fresh_any(self, st, ty):
        if ty.k == 'ptr': return UNDEF
        r = self.mod.resolve(ty)
        if r.k == 'struct': return [self.fresh_any(st, e) for e in r.a]
        return self.fresh_val(st, ty, 'undef')
    def zero(self, ty):
        r = self.mod.resolve(ty)
        if r.k == 'int': return False if r.a == 1 else IV(0, r.a, canon_sg(r.a))
        if r.k in ('double', 'float'): return Fraction(0)
        if r.k == 'ptr': return NULL
        if r.k == 'struct': return [self.zero(e) for e in r.a]
        if r.k == 'arr': return [self.zero(r.b) for _ in range(r.a)]
        raise Unsupported('zero %r' % ty)

    def globalptr(self, st, g):
        n = g[1:].strip('"')
        if n in self.mod.raw or n in self.mod.decls: return FnPtr(n)
        if not hasattr(self, 'gblk'): self.gblk = {}
        if g not in self.gblk:
            d = self.mod.globals.get(g)
            if d is None: raise Unsupported('global ' + g)
            b = Blk('global', g)
            m = re.search(r'\b(constant|global) (.*)$', d)
            b.const = bool(m) and (m.group(1) == 'constant' or self.mod.never_written(g))
            b.decl = d
            try:
                p = ir.P(ir.tokenize(re.sub(r', (align|comdat|section).*$', '', m.group(2))), self.mod)
                b.ty = p.ty()
                r = self.mod.resolve(b.ty)
                if r.k == 'arr':
                    b.stride = self.mod.size(r.b); b.count = r.a
                else:
                    b.stride = self.mod.size(b.ty); b.count = 1
                b.init = p.value(b.ty) if p.peek()[0] != 'eof' else None
            except Unsupported:
                b.ty, b.init = None, None
            self.gblk[g] = b
        b = self.gblk[g]
        if b.id not in st.mem:
            bs = BS()
            if b.const and b.init is not None and b.ty is not None:
                r = self.mod.resolve(b.ty)
                if r.k == 'arr' and r.b.k in ('int', 'double', 'float'):
                    if b.init[0] == 'agg': vals = [self.val(st, x, t) for t, x in b.init[1]]
                    elif b.init[0] == 'zero': vals = [self.zero(r.b)] * r.a
                    elif b.init[0] == 'str': vals = None; bs = BS()
                    else: vals = None
                    if vals is not None:
                        raw = [v.t if isinstance(v, IV) else v for v in vals]
                        tk = r.b.key()
                        bs.f[0] = Lam(lambda j, raw=raw: self.table(raw, j), tk)
                elif r.k in ('int', 'double', 'float'):
                    v = self.val(st, b.init, b.ty)
                    v = v.t if isinstance(v, IV) else v
                    bs.f[0] = Lam(lambda j, v=v: v, r.key())
            st.mem[b.id] = bs
        return Ptr(b, 0)
    def table(self, raw, j):
        if isinstance(j, int): return raw[j]
        r = raw[-1]
        for k in range(len(raw) - 2, -1, -1): r = Ite(Eq(j, k), raw[k], r)
        return r

    # ---------------------------------------------------------------- memory
    def alloc(self, st, kind, name, stride=None, count=1, ty=None, shapeR=None):
        b = Blk(kind, name, stride, count, ty, shapeR)
        st.mem[b.id] = BS()
        if kind == 'heap':
            st.live = st.live + (b,)
        return b
    def bs(self, st, b):
        return st.mem[b.id]
    def wbs(self, st, b):
        s = st.mem[b.id].clone(); st.mem[b.id] = s
        return s

    def gep(self, st, sty, vals):
        (_, base) = vals[0]
        if isinstance(base, Undef): raise Unsupported('gep on undef')
        if isinstance(base, FnPtr): raise Unsupported('gep on function')
        o = base.o
        ty = sty
        for n, (ity, iv) in enumerate(vals[1:]):
            if isinstance(iv, bool) or not isinstance(iv, IV): raise Unsupported('gep index')
            if n == 0:
                sz = self.mod.size(ty)
                k = self.smallsigned(iv)
                t = k if k is not None else (iv.t)
                if isz(t) and base.b is not None and base.b.stride is None and sz > 1: base.b.stride = sz
                if isz(t) and base.b is not None and base.b.shapeR is not None and base.b.stride == sz:
                    if isinstance(base.o, int) and base.o == 0:
                        t = L.index_norm(t, base.b.shapeR)
                o = add(o, L.scale(sz, t))
            else:
                r = self.mod.resolve(ty)
                if r.k == 'struct':
                    k = iv.t
                    o = add(o, self.mod.layout(r)[0][k]); ty = r.a[k]
                elif r.k in ('arr', 'vec'):
                    sz = self.mod.size(r.b); ty = r.b
                    k = self.smallsigned(iv)
                    t = k if k is not None else iv.t
                    if isz(t) and base.b is not None and base.b.stride is None: base.b.stride = sz
                    o = add(o, L.scale(sz, t))
                else: raise Unsupported('gep into %r' % r)
        return Ptr(base.b, o)

    def locate(self, st, p, size, what, whole=False):
        """pointer -> (block, element index term, sub offset); emits the in-bounds obligation"""
        if isinstance(p, Undef): 
            self.oblige(st, 'memory', what + ': pointer is initialised', False); raise PathEnd()
        if isinstance(p, FnPtr): raise Unsupported('data access to function')
        if p.b is None:
            self.oblige(st, 'memory', what + ': pointer is not null', False); raise PathEnd()
        b = p.b
        inl = getattr(b, 'inl', None)
        if inl and not whole:
            c0, d0 = lindec(p.o)
            hit = [x for x in inl if (x.off <= c0 < x.off + x.size if not d0 else True)]
            if len(hit) > 1: hit = [x for x in hit if x.off <= c0 < x.off + x.size]
            if len(hit) == 1: p = Ptr(hit[0].blk, sub(p.o, hit[0].off)); b = p.b
            elif d0: raise Unsupported('computed address inside an object')
        if self.bs(st, b).freed:
            self.oblige(st, 'memory', what + ': storage has not been released', False); raise PathEnd()
        if b.stride is None:
            b.stride = size
        if b.count is None:
            b.count = L.IntDiv(b.bytes, b.stride)
        S = b.stride
        c, d = lindec(p.o)
        q = {}
        for i, (x, k) in d.items():
            if k % S: raise Unsupported('misaligned index in %s (stride %d, offset %s)' % (b, S, p.o))
            q[i] = (x, k // S)
        idx = L.fromlin(c // S, q); s = c % S
        if s + size > S: raise Unsupported('access straddles elements of %s: off %s size %d' % (b, p.o, size))
        if b.shapeR is not None: idx = L.index_norm(idx, b.shapeR)
        g = And(Le(0, idx), Lt(idx, b.count))
        if g is not True:
            if self.qf(st, g):
                if self.mode == 'final':
                    ob = Ob('memory', what + ' in bounds of ' + b.name, self.fname, st.trace[-1] if st.trace else ''); ob.status = 'proved'; ob.by = 'z3-qf'
                    self.obs.append(ob)
            else: self.oblige(st, 'memory', what + ' in bounds of ' + b.name, g)
        elif self.mode == 'final':
            ob = Ob('memory', what + ' in bounds of ' + b.name, self.fname, st.trace[-1] if st.trace else ''); ob.status = 'proved'; ob.by = 'simplify'
            self.obs.append(ob)
        return b, idx, s

    def content(self, st, b, s, tk):
        bs = self.bs(st, b)
        c = bs.f.get(s)
        if c is None:
            c = self.new_base('m%d_%d_%s_%d' % (b.id, s, tk, bs.ver), tk)
            bs.f[s] = c       # deterministic: same name whenever re-created
        if c.tk != tk:
            raise Unsupported('type punning at %s+%d: %s vs %s' % (b, s, c.tk, tk))
        return c

    def rd(self, st, b, idx, s, ty):
        """raw read as an engine value"""
        if ty.k == 'ptr':
            bs = self.bs(st, b)
            if not isinstance(idx, int):
                ks = [k for k in bs.p if k[0] == s]
                raise Unsupported('symbolic index into pointers in %s' % b)
            p = bs.p.get((s, idx))
            if p is None: return UNDEF
            return p
        tk = ty.key()
        c = self.content(st, b, s, tk)
        v = c.read(idx)
        return self.mkval(st, v, ty)
    def mkval(self, st, v, ty):
        if ty.k == 'int':
            if ty.a == 1: return Eq(v, 1)
            sg = canon_sg(ty.a)
            if isz(v):
                lo, hi = rng(ty.a, sg)
                if not self.qf(st, z3.And(v >= lo, v <= hi)):
                    self.truth(st, z3.And(v >= lo, v <= hi))
                u = unviewed(v, ty.a) if sg else None
                if u is not None and self.qf(st, And(Ge(u, 0), Lt(u, 1 << ty.a))): return IV(u, ty.a, False)
            return IV(v, ty.a, sg)
        return v
    def load(self, st, p, ty):
        r = self.mod.resolve(ty)
        if r.k == 'struct':
            out = []
            for o, e in zip(self.mod.layout(r)[0], r.a): out.append(self.load(st, Ptr(p.b, add(p.o, o)), e))
            return out
        b, idx, s = self.locate(st, p, self.mod.size(ty), 'load')
        return self.rd(st, b, idx, s, r)
    def raw(self, st, v, ty):
        if ty.k == 'int':
            if ty.a == 1: return self.b2i(v) if not isinstance(v, IV) else v.t
            return self.conv(st, v, canon_sg(ty.a)).t
        return v
    def wr(self, st, b, idx, s, v, ty):
        bs = self.wbs(st, b)
        if ty.k == 'ptr':
            if not isinstance(idx, int): raise Unsupported('store of pointer at symbolic index')
            bs.p[(s, idx)] = v
            self.note(st, b, s, 'ptr', idx, v)
            return
        tk = ty.key()
        c = bs.f.get(s)
        if c is not None and c.tk != tk: raise Unsupported('type punning store at %s+%d: %s vs %s' % (b, s, c.tk, tk))
        if c is None: c = self.content(st, b, s, tk); bs = self.wbs(st, b)
        rv = self.raw(st, v, ty)
        bs.f[s] = Store(c, idx, rv)
        self.note(st, b, s, tk, idx, rv)
    def note(self, st, b, s, tk, idx=None, v=None):
        if self.mode == 'dry':
            self.drymods.setdefault((b, s, tk), [])
            if idx is not None and not self.quiet: self.drywrites.append((b, s, tk, idx, v, list(st.pc), [dict(h=x.h, it=getattr(x, 'it', None), unroll=x.unroll) for x in st.loops]))
    def store(self, st, p, v, ty):
        r = self.mod.resolve(ty)
        if r.k == 'struct':
            for o, e, x in zip(self.mod.layout(r)[0], r.a, v): self.store(st, Ptr(p.b, add(p.o, o)), x, e)
            return
        b, idx, s = self.locate(st, p, self.mod.size(ty), 'store')
        if b.kind == 'global' and getattr(b, 'const', False): self.oblige(st, 'memory', 'store to constant', False)
        self.wr(st, b, idx, s, v, r)

    def free(self, st, p, what='release'):
        if p.b is None: return
        if isinstance(p, Undef): self.oblige(st, 'memory', what + ': pointer is initialised', False); raise PathEnd()
        b = p.b
        if b.kind != 'heap':
            self.oblige(st, 'memory', what + ': %s is heap storage' % b.name, False); raise PathEnd()
        if self.bs(st, b).freed:
            self.oblige(st, 'memory', what + ': not released twice', False); raise PathEnd()
        self.oblige(st, 'memory', what + ': start of the allocation', Eq(p.o, 0))
        s = self.wbs(st, b); s.freed = True
        self.note(st, b, 'free', 'free')
        st.live = tuple(x for x in st.live if x is not b)

    def memcpy(self, st, d, s, n, move=False):
        if isinstance(n, int) and n == 0: return
        if d.b is not None and s.b is not None and isinstance(n, int):
            # small constant copy: field by field
            if self.copyfields(st, d, s, n): return
        if d.b is None or s.b is None:
            # only legal when nothing is copied
            self.oblige(st, 'memory', 'memcpy: pointers are not null', Eq(n, 0))
            return
        for p, nm in ((d, 'destination'), (s, 'source')):
            if self.bs(st, p.b).freed:
                self.oblige(st, 'memory', 'memcpy: %s has not been released' % nm, False); raise PathEnd()
        S = d.b.stride or s.b.stride
        if S is None: raise Unsupported('memcpy with unknown strides')
        for x in (d.b, s.b):
            if x.stride is None: x.stride = S
            if x.count is None: x.count = L.IntDiv(x.bytes, S)
        if d.b.stride != s.b.stride: raise Unsupported('memcpy between strides %s %s' % (d.b.stride, s.b.stride))
        def div(t, nm):
            c, q = lindec(t)
            if c % S or any(k % S for _, k in q.values()): raise Unsupported('memcpy %s not a multiple of the element size' % nm)
            return L.fromlin(c // S, {i: (x, k // S) for i, (x, k) in q.items()})
        cnt, di, si = div(n, 'length'), div(d.o, 'dst'), div(s.o, 'src')
        self.oblige(st, 'memory', 'memcpy: destination range in bounds of ' + d.b.name, And(Le(0, di), Le(0, cnt), Le(add(di, cnt), d.b.count)))
        self.oblige(st, 'memory', 'memcpy: source range in bounds of ' + s.b.name, And(Le(0, si), Le(add(si, cnt), s.b.count)))
        if d.b is s.b and not move:
            self.oblige(st, 'memory', 'memcpy: ranges do not overlap', Or(Le(add(di, cnt), si), Le(add(si, cnt), di), Eq(cnt, 0)))
        sb = self.bs(st, s.b)
        for sub_ in list(sb.f):
            c = sb.f[sub_]
            self.bs(st, d.b)
            pc = self.content(st, d.b, sub_, c.tk)
            w = self.wbs(st, d.b)
            if eqz(di, 0) and L.eqs(cnt, d.b.count) is True:
                w.f[sub_] = c if eqz(si, 0) else Lam(lambda j, c=c: c.read(add(j, si)), c.tk)
            else:
                w.f[sub_] = Range(pc, di, cnt, lambda k, c=c: c.read(add(k, si)))
            self.note(st, d.b, sub_, c.tk)
        if not sb.f:
            # source never read or written: contents arbitrary; lazily shared via a common base per type of block
            tks = self.opts.get('eltkeys') or [(0, 'double')] if S == 8 else []
            raise Unsupported('memcpy from untyped block')
    def copyfields(self, st, d, s, n):
        db, sb = d.b, s.b
        if not isinstance(d.o, int) and db.stride is None: return False
        try:
            bd, i, sd = self.locate(st, d, n, 'memcpy destination')
            bs_, j, ss = self.locate(st, s, n, 'memcpy source')
        except Unsupported:
            return False
        src = self.bs(st, bs_)
        for sub_, c in list(src.f.items()):
            if ss <= sub_ < ss + n:
                v = c.read(j); t = sub_ - ss + sd
                pc = self.content(st, bd, t, c.tk)
                w = self.wbs(st, bd); w.f[t] = Store(pc, i, v)
                self.note(st, bd, t, c.tk, i, v)
        for (sub_, k), p in list(src.p.items()):
            if ss <= sub_ < ss + n and isinstance(j, int) and k == j and isinstance(i, int):
                w = self.wbs(st, bd); w.p[(sub_ - ss + sd, i)] = p
                self.note(st, bd, sub_ - ss + sd, 'ptr', i, p)
        return True
    def memset(self, st, d, val, n):
        if isinstance(n, int) and n == 0: return
        if isinstance(val, IV) and isinstance(val.t, int): v = val.t
        else: raise Unsupported('memset with variable value')
        b = d.b
        if b is None:
            self.oblige(st, 'memory', 'memset: pointer is not null', Eq(n, 0)); return
        if self.bs(st, b).freed:
            self.oblige(st, 'memory', 'memset: storage has not been released', False); raise PathEnd()
        leaves = None
        if b.ty is not None: leaves = self.mod.leaves(b.ty) if b.kind == 'stack' and self.mod.resolve(b.ty).k == 'struct' else None
        if leaves is None and isinstance(d.o, int) and isinstance(n, int) and getattr(b, 'objs', None) and v == 0 and b.kind in ('arg', 'stack'):
            for o, kind, _ in b.objs:
                for f, t in kind.fields():
                    if d.o <= o + f < d.o + n: self.wr(st, b, 0, o + f, NULL if t == 'ptr' else IV(0, 64, False), ir.PTR if t == 'ptr' else ir.I(64))
            return
        if b.stride is None: raise Unsupported('memset on untyped block')
        if b.count is None: b.count = L.IntDiv(b.bytes, b.stride)
        S = b.stride
        if leaves is not None and isinstance(d.o, int) and isinstance(n, int):
            if v != 0: raise Unsupported('memset struct nonzero')
            self.oblige(st, 'memory', 'memset in bounds', n + d.o <= S)
            for o, t in leaves:
                if d.o <= o < d.o + n: self.wr(st, b, 0, o, self.zero(t), t)
            return
        c, q = lindec(n)
        c2, q2 = lindec(d.o)
        if any(k % S for _, k in q.values()) or c % S or c2 % S or any(k % S for _, k in q2.values()): raise Unsupported('memset length')
        cnt = L.fromlin(c // S, {i: (x, k // S) for i, (x, k) in q.items()})
        di = L.fromlin(c2 // S, {i: (x, k // S) for i, (x, k) in q2.items()})
        self.oblige(st, 'memory', 'memset in bounds of ' + b.name, And(Le(0, di), Le(0, cnt), Le(add(di, cnt), b.count)))
        subs = self.bs(st, b).f
        tks = {s: c.tk for s, c in subs.items()} or getattr(b, 'elt', None)
        if not tks: tks = {0: {1: 'i8', 2: 'i16', 4: 'i32', 8: 'double'}.get(S)}
        for s_, tk in tks.items():
            if tk in ('double', 'float'):
                if v != 0: raise Unsupported('memset of floats')
                x = Fraction(0)
            else:
                w = int(tk[1:]); x = int.from_bytes(bytes([v & 255]) * (w // 8), 'little', signed=canon_sg(w))
            pc = self.content(st, b, s_, tk)
            self.wbs(st, b).f[s_] = Range(pc, di, cnt, lambda k, x=x: x)
            self.note(st, b, s_, tk)

def eqz(a, b): return L.eqs(a, b) is True
def has_free(t):
    st = [t]
    while st:
        x = st.pop()
        if z3.is_var(x): return True
        if z3.is_app(x): st += x.children()
    return False
