"""Bit-vector back end: formulas over integers of known range, with shifts, masks and bitwise operations, decided exactly
in W-bit two's complement arithmetic.  Sound because every subterm is checked to stay inside the W-bit range; an atom is
used only when facts of the path give it a lower and an upper bound.  Facts that cannot be translated are dropped."""
import z3, time, itertools
from . import logic as L

class No(Exception): pass
BITOP = ('bitand', 'bitor', 'bitxor')
_hasbit = {}
def has_bits(t):
    """does the term contain bitwise operations?"""
    if not L.isz(t): return False
    r = _hasbit.get(t.get_id())
    if r is not None: return r[0]
    v = False
    if z3.is_app(t):
        n = t.decl().name()
        v = t.num_args() > 0 and (n.startswith(BITOP) or n == 'pow2') or any(has_bits(c) for c in t.children())
    _hasbit[t.get_id()] = (v, t)
    return v

def conj(f):
    if z3.is_and(f):
        for c in f.children(): yield from conj(c)
    else: yield f

def cdiv(a, b): return -((-a) // b)
class Bounds:
    """intervals of atoms from linear facts"""
    def __init__(self, facts, known):
        self.b = {}
        self.known = known
        self.ineq = []
        for f in facts:
            for g in conj(f):
                neg = False
                while z3.is_not(g): g = g.arg(0); neg = not neg
                if not z3.is_app(g) or g.num_args() != 2 or not z3.is_int(g.arg(0)): continue
                k = g.decl().kind(); x, y = g.children()
                if k == z3.Z3_OP_EQ:
                    if not neg: self.put(x, y, 0); self.put(y, x, 0)
                elif k == z3.Z3_OP_LE: self.put(x, y, 0) if not neg else self.put(y, x, 1)
                elif k == z3.Z3_OP_GE: self.put(y, x, 0) if not neg else self.put(x, y, 1)
                elif k == z3.Z3_OP_LT: self.put(x, y, 1) if not neg else self.put(y, x, 0)
                elif k == z3.Z3_OP_GT: self.put(y, x, 1) if not neg else self.put(x, y, 0)
        for _ in range(6):
            if not any([self.step(c, d) for c, d in self.ineq]): break
    def put(self, x, y, s):
        """x + s <= y"""
        c, d = L.lindec(L.sub(L.add(x, s), y))
        if d: self.ineq.append((c, d))
    def get(self, t):
        i = t.get_id()
        lo, hi = self.b.get(i, (None, None))
        k = self.known(t)
        if k:
            lo = k[0] if lo is None else max(lo, k[0]); hi = k[1] if hi is None else min(hi, k[1])
        if (lo is None or hi is None) and z3.is_app(t) and t.num_args():
            l2 = h2 = None
            kind = t.decl().kind()
            if kind == z3.Z3_OP_MOD and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() > 0: l2, h2 = 0, t.arg(1).as_long() - 1
            elif kind == z3.Z3_OP_IDIV and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() > 0:
                l2, h2 = self.expr(t.arg(0)); m = t.arg(1).as_long()
                l2 = None if l2 is None else l2 // m; h2 = None if h2 is None else h2 // m
            elif kind == z3.Z3_OP_ITE:
                (a, b), (c, d) = self.expr(t.arg(1)), self.expr(t.arg(2))
                l2 = None if a is None or c is None else min(a, c); h2 = None if b is None or d is None else max(b, d)
            lo = l2 if lo is None else lo; hi = h2 if hi is None else hi
        return lo, hi
    def expr(self, t):
        """interval of a linear expression"""
        c, d = L.lindec(t)
        lo = hi = c
        for x, q in d.values():
            a, b = self.get(x)
            if q < 0: a, b = b, a
            lo = None if lo is None or a is None else lo + q * a
            hi = None if hi is None or b is None else hi + q * b
        return lo, hi
    def step(self, c, d):
        """c + sum q*x <= 0"""
        ch = False
        for i, (x, q) in d.items():
            rest = c
            for j, (y, p) in d.items():
                if j == i: continue
                lo, hi = self.get(y)
                v = lo if p > 0 else hi
                if v is None: rest = None; break
                rest += p * v
            if rest is None: continue
            lo, hi = self.get(x)                       # q*x <= -rest
            if q > 0:
                n = (-rest) // q
                if hi is None or n < hi: self.b[i] = (lo, n); ch = True
            else:
                n = cdiv(rest, -q)
                if lo is None or n > lo: self.b[i] = (n, hi); ch = True
        return ch

class Trans:
    def __init__(self, bounds, W):
        self.B, self.W = bounds, W
        self.memo = {}
        self.lim = 1 << (W - 1)
        self.side = []
        self.apps = {}; self.reals = {}
    def chk(self, lo, hi):
        if lo < -self.lim or hi >= self.lim: raise No('range')
    def c(self, v):
        self.chk(v, v)
        return z3.BitVecVal(v, self.W)
    def atom(self, t):
        lo, hi = self.B.get(t)
        if lo is None or hi is None: raise No('unbounded %s' % t.decl().name())
        if lo > hi: lo = hi = lo          # contradictory facts: any value
        self.chk(lo, hi)
        x = z3.BitVec('a!%d' % t.get_id(), self.W)
        L.keep(t)
        self.side.append(z3.And(x >= self.c(lo), x <= self.c(hi)))
        if t.num_args():          # congruence
            try: args = [self.n(a)[0] for a in t.children()]
            except No: args = None
            if args is not None:
                for y, a2 in self.apps.setdefault(t.decl().get_id(), []):
                    self.side.append(z3.Implies(z3.And([p == q for p, q in zip(args, a2)]), x == y))
                self.apps[t.decl().get_id()].append((x, args))
        return x, lo, hi
    def real(self, t):
        """real terms are only compared for equality: any value, equal for equal arguments"""
        r = self.reals.get(t.get_id())
        if r is None:
            L.keep(t)
            r = z3.BitVec('r!%d' % t.get_id(), self.W); self.reals[t.get_id()] = r
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args():
                try: args = [self.real(a) if z3.is_real(a) else self.n(a)[0] for a in t.children()]
                except No: args = None
                if args is not None:
                    for y, a2 in self.apps.setdefault(t.decl().get_id(), []):
                        self.side.append(z3.Implies(z3.And([p == q for p, q in zip(args, a2)]), r == y))
                    self.apps[t.decl().get_id()].append((r, args))
        return r
    def pow2arg(self, t):
        return z3.is_app(t) and t.num_args() == 1 and t.decl().name() == 'pow2'
    def n(self, t):
        i = t.get_id()
        r = self.memo.get(i)
        if r is None:
            r = self._n(t); self.memo[i] = r + (t,)
        if isinstance(r, No): raise r
        return r[0], r[1], r[2]
    def _n(self, t):
        if z3.is_int_value(t): v = t.as_long(); return self.c(v), v, v
        if not z3.is_app(t): raise No('var')
        k = t.decl().kind(); ch = t.children()
        if k == z3.Z3_OP_ADD:
            x, lo, hi = self.n(ch[0])
            for y in ch[1:]:
                b, l2, h2 = self.n(y); lo += l2; hi += h2; self.chk(lo, hi); x = x + b
            return x, lo, hi
        if k == z3.Z3_OP_SUB:
            x, lo, hi = self.n(ch[0])
            for y in ch[1:]:
                b, l2, h2 = self.n(y); lo -= h2; hi -= l2; self.chk(lo, hi); x = x - b
            return x, lo, hi
        if k == z3.Z3_OP_UMINUS:
            x, lo, hi = self.n(ch[0]); self.chk(-hi, -lo); return -x, -hi, -lo
        if k == z3.Z3_OP_MUL or t.decl().eq(L.mulF):
            if t.decl().eq(L.mulF):
                for a, b in (ch, ch[::-1]):
                    if self.pow2arg(b): return self.shl(a, b.arg(0))
            x, lo, hi = self.n(ch[0])
            for y in ch[1:]:
                b, l2, h2 = self.n(y); ps = [lo * l2, lo * h2, hi * l2, hi * h2]; lo, hi = min(ps), max(ps); self.chk(lo, hi); x = x * b
            return x, lo, hi
        if t.decl().eq(L.linF): return self.n(L.keep(L.toz(L.add(ch[0], L.mul(ch[1], ch[2])))))
        if k == z3.Z3_OP_IDIV and z3.is_int_value(ch[1]):
            m = ch[1].as_long(); x, lo, hi = self.n(ch[0])
            if m > 0 and m & (m - 1) == 0: return x >> self.c(m.bit_length() - 1), lo // m, hi // m
            if m > 0 and lo >= 0: return z3.UDiv(x, self.c(m)), lo // m, hi // m
            raise No('div')
        if k == z3.Z3_OP_MOD and z3.is_int_value(ch[1]):
            m = ch[1].as_long(); x, lo, hi = self.n(ch[0])
            if m > 0 and m & (m - 1) == 0: return x & self.c(m - 1), (lo if lo >= 0 and hi < m else 0), min(m - 1, hi) if lo >= 0 else m - 1
            if m > 0 and lo >= 0: return z3.URem(x, self.c(m)), 0, min(m - 1, hi)
            raise No('mod')
        if t.decl().eq(L.rowF) or t.decl().eq(L.colF):
            if self.pow2arg(ch[1]):
                x, lo, hi = self.n(ch[0]); s, sl, sh = self.n(ch[1].arg(0))
                if lo < 0 or sl < 0 or sh >= self.W: raise No('shift')
                if t.decl().eq(L.colF): return z3.LShR(x, s), 0, hi >> sl
                return x & ((self.c(1) << s) - self.c(1)), 0, hi
        n = t.decl().name()
        if n.startswith(BITOP):
            x, lo, hi = self.n(ch[0]); y, l2, h2 = self.n(ch[1])
            if lo < 0 or l2 < 0: raise No('negative')
            m = (1 << max(hi, h2).bit_length()) - 1
            if n.startswith('bitand'): return x & y, 0, min(hi, h2)
            return (x | y, max(lo, l2), m) if n.startswith('bitor') else (x ^ y, 0, m)
        if n == 'pow2' and len(ch) == 1: return self.shl(z3.IntVal(1), ch[0])
        if k == z3.Z3_OP_ITE:
            c = self.f(ch[0]); x, lo, hi = self.n(ch[1]); y, l2, h2 = self.n(ch[2])
            lo, hi, l2, h2 = self.narrow(ch, lo, hi, l2, h2)
            return z3.If(c, x, y), min(lo, l2), max(hi, h2)
        if k == z3.Z3_OP_UNINTERPRETED: return self.atom(t)
        raise No('op ' + n)
    def narrow(self, ch, lo, hi, l2, h2):
        """if(x < k, x + d, x): the condition bounds both branches"""
        c = ch[0]; k = c.decl().kind()
        if k not in (z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_LE, z3.Z3_OP_GE) or not z3.is_int(c.arg(0)): return lo, hi, l2, h2
        a, b = c.children()
        if z3.is_int_value(a): a, b = b, a; k = {z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_GT: z3.Z3_OP_LT, z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LE}[k]
        if not z3.is_int_value(b): return lo, hi, l2, h2
        m = b.as_long()                  # a k m, as a <= up in one branch and a > up in the other
        up = m - 1 if k in (z3.Z3_OP_LT, z3.Z3_OP_GE) else m
        low, high = ((1, 2) if k in (z3.Z3_OP_LT, z3.Z3_OP_LE) else (2, 1))
        r = {1: [lo, hi], 2: [l2, h2]}
        d = L.lindec(L.sub(ch[low], a))
        if not d[1]: r[low][1] = min(r[low][1], up + d[0])
        d = L.lindec(L.sub(ch[high], a))
        if not d[1]: r[high][0] = max(r[high][0], up + 1 + d[0])
        if r[low][0] > r[low][1] and r[high][0] <= r[high][1]: r[low] = r[high]          # a branch that is never taken
        elif r[high][0] > r[high][1] and r[low][0] <= r[low][1]: r[high] = r[low]
        elif r[low][0] > r[low][1]: return lo, hi, l2, h2
        return r[1][0], r[1][1], r[2][0], r[2][1]
    def shl(self, a, s):
        x, lo, hi = self.n(a); s, sl, sh = self.n(s)
        if sl < 0: raise No('shift')
        if lo < 0: raise No('shift of negative')
        self.chk(0, hi << min(sh, 200))
        return x << s, lo << sl, hi << sh
    def f(self, t):
        if z3.is_true(t) or z3.is_false(t): return t
        if not z3.is_app(t): raise No('quantifier')
        k = t.decl().kind(); ch = t.children()
        if k == z3.Z3_OP_AND: return z3.And([self.f(c) for c in ch])
        if k == z3.Z3_OP_OR: return z3.Or([self.f(c) for c in ch])
        if k == z3.Z3_OP_NOT: return z3.Not(self.f(ch[0]))
        if k == z3.Z3_OP_IMPLIES: return z3.Implies(self.f(ch[0]), self.f(ch[1]))
        if k == z3.Z3_OP_XOR: return z3.Xor(self.f(ch[0]), self.f(ch[1]))
        if k == z3.Z3_OP_ITE: return z3.If(self.f(ch[0]), self.f(ch[1]), self.f(ch[2]))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF) and z3.is_bool(ch[0]): return self.f(ch[0]) == self.f(ch[1])
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and z3.is_int(ch[0]):
            x, y = self.n(ch[0])[0], self.n(ch[1])[0]
            return {z3.Z3_OP_EQ: lambda: x == y, z3.Z3_OP_LE: lambda: x <= y, z3.Z3_OP_LT: lambda: x < y, z3.Z3_OP_GE: lambda: x >= y, z3.Z3_OP_GT: lambda: x > y}[k]()
        if k == z3.Z3_OP_EQ and z3.is_real(ch[0]): return self.real(ch[0]) == self.real(ch[1])
        if k == z3.Z3_OP_UNINTERPRETED and z3.is_bool(t):
            L.keep(t); return z3.Bool('b!%d' % t.get_id())
        raise No('formula')

def known_range(t):
    """ranges that hold by construction"""
    from .mem import Base, rng, canon_sg
    n = t.decl().name()
    if t.num_args() == 0: return None
    r = RANGES.get(n)
    if r is None:
        for p in BITOP:
            if n.startswith(p): return (0, (1 << int(n[len(p):])) - 1)
    return r
RANGES = {}            # function name -> (lo, hi), by construction of the contents of memory
def note_range(name, lo, hi):
    RANGES[name] = (lo, hi) if RANGES.get(name, (lo, hi)) == (lo, hi) else None

def bound_apps(f, n):
    """applications f(linear argument) in the body of a quantified fact with one variable: [(name, argument)]"""
    r = _bapps.get(f.get_id())
    if r is not None: return r[0]
    out = []; seen = set(); st = [f.body()]
    while st:
        x = st.pop()
        if x.get_id() in seen or not z3.is_app(x): continue
        seen.add(x.get_id())
        if x.num_args() == 1 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in RANGES:
            c, d = L.lindec(x.arg(0))
            v = [q for y, q in d.values() if z3.is_var(y)]
            if len(v) == 1 and v[0] in (1, -1): out.append((x.decl().name(), x.arg(0), v[0]))
        st += x.children()
    _bapps[f.get_id()] = (out, f)
    return out
_bapps = {}
def instances(facts, goal, cap=160):
    """instances of universally quantified facts at the constants of the goal, and where their contents occur in it"""
    consts = {}; apps = {}
    seen = set()
    st = [goal] if L.isz(goal) else []
    while st:
        x = st.pop()
        if x.get_id() in seen or not z3.is_app(x): continue
        seen.add(x.get_id())
        if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_int(x): consts[x.get_id()] = x
        if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in RANGES:
            if x.num_args() == 1: apps.setdefault(x.decl().name(), {})[x.arg(0).get_id()] = x.arg(0)
            else:
                for a in x.children():
                    if z3.is_int(a) and not z3.is_int_value(a): consts[a.get_id()] = a
        st += x.children()
    cs = list(consts.values())
    out = []
    for f in facts:
        if not z3.is_quantifier(f) or not f.is_forall(): continue
        n = f.num_vars()
        if n > 2 or any(f.var_sort(k) != L.IntS for k in range(n)): continue
        ts = cs if n == 1 else cs[:6]
        if n == 1:
            ts = dict(consts)
            for name, arg, q in bound_apps(f, n):
                rest = z3.substitute_vars(arg, z3.IntVal(0))
                for t in apps.get(name, {}).values():
                    v = L.toz(L.sub(t, rest) if q == 1 else L.sub(rest, t)); ts[v.get_id()] = L.keep(v)
            ts = list(ts.values())
        for tup in itertools.product(ts, repeat=n):
            g = L.simp_bool(z3.substitute_vars(f.body(), *reversed(tup)))
            if L.isz(g): out.append(L.keep(g))
            if len(out) > cap: return out
    return out

_cfun = {}
def cfuns(t):
    """functions over one index (contents of memory) occurring in a term"""
    r = _cfun.get(t.get_id())
    if r is None:
        v = set()
        if z3.is_app(t):
            for c in t.children(): v |= cfuns(c)
            if t.num_args() == 1 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() in RANGES: v = v | {t.decl().name()}
        r = _cfun[t.get_id()] = (frozenset(v), t)
    return r[0]

def prove(facts, goal, timeout=6000, widths=(70, 134)):
    """True when goal follows from the facts"""
    facts = [f for f in facts if L.isz(f)]
    ins = instances([f for f in facts if z3.is_quantifier(f)], goal)
    facts = [f for f in facts if not L.has_quant(f)]
    if goal is False: goal = z3.BoolVal(False)
    if goal is True: return True
    seen = set(); ins = [f for f in ins if not (f.get_id() in seen or seen.add(f.get_id()))]
    near = cfuns(goal)
    for f in facts[-12:]: near |= cfuns(f)
    few = [f for f in ins if cfuns(f) <= near]
    if len(few) < len(ins) and check(facts + few, goal, timeout, widths): return True
    return check(facts + ins, goal, timeout, widths)

def check(facts, goal, timeout, widths):
    ng = [L.keep(z3.Not(goal))] if not z3.is_false(goal) else []
    B = Bounds(facts + ng, known_range)          # the refuted goal bounds its own terms
    prove.why = ''
    for W in widths:
        T = Trans(B, W)
        try: g = T.f(goal)
        except No as e: prove.why = str(e); continue
        s = z3.SolverFor('QF_BV'); s.set('timeout', timeout)
        for f in facts:
            try: s.add(T.f(f))
            except No: pass
        s.add(z3.Not(g))
        for x in T.side: s.add(x)
        r = s.check()
        prove.why = str(r); prove.last = s
        return r == z3.unsat
    return False
