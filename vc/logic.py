"""Term layer: mathematical integers with an uninterpreted product, column-major index function,
reals (doubles without NaN), memory contents, and the two provers (quantifier-free / full)."""
import z3, time, os, subprocess, tempfile
from fractions import Fraction

def _fast_accessors():
    """read-only accessors of valid terms cannot fail: skip the error query after each of them"""
    from z3 import z3core
    z3.z3.Z3_DEBUG = False
    for n in ('get_ast_kind', 'inc_ref', 'dec_ref', 'get_sort', 'get_ast_id', 'is_eq_ast', 'get_app_num_args', 'get_app_arg', 'get_app_decl', 'get_sort_kind', 'get_decl_kind', 'is_finite_set_sort', 'is_app', 'get_decl_name', 'get_symbol_kind', 'get_bool_value'):
        f = getattr(z3core, 'Z3_' + n, None)
        if f is not None and f.__defaults__: f.__defaults__[-1].Check = lambda ctx: None
_fast_accessors()
IntS, RealS, BoolS = z3.IntSort(), z3.RealSort(), z3.BoolSort()
mulF = z3.Function('mul', IntS, IntS, IntS)
linF = z3.Function('lin', IntS, IntS, IntS, IntS)      # lin(r,c,R) = r + c*R
rowF = z3.Function('row', IntS, IntS, IntS)            # i mod R
colF = z3.Function('col', IntS, IntS, IntS)            # i div R
IntVal, RealVal = z3.IntVal, z3.RealVal

def isz(x): return isinstance(x, z3.ExprRef)
_keep = {}
def keep(t):
    _keep[t.get_id()] = t
    return t

def toz(x):
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, int): return IntVal(x)
    if isinstance(x, Fraction): return RealVal(x)
    if isinstance(x, float): return RealVal(Fraction(x))
    return x

# ------------------------------------------------ linear normal form
_lin = {}
def lindec(t):
    """-> (const, {id: (atom, coef)})"""
    if isinstance(t, int): return (t, {})
    i = t.get_id()
    r = _lin.get(i)
    if r is not None: return r[0]
    r = _lindec(t)
    _lin[i] = (r, t)
    return r

def _lindec(t):
    if z3.is_int_value(t): return (t.as_long(), {})
    if z3.is_app(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            c, d = 0, {}
            for a in t.children():
                c2, d2 = lindec(a); c += c2
                for i, (x, q) in d2.items():
                    q0 = d[i][1] if i in d else 0
                    d[i] = (x, q0 + q)
            return (c, {i: v for i, v in d.items() if v[1] != 0})
        if k == z3.Z3_OP_SUB:
            ch = t.children()
            c, d = lindec(ch[0]); d = dict(d)
            for a in ch[1:]:
                c2, d2 = lindec(a); c -= c2
                for i, (x, q) in d2.items():
                    q0 = d[i][1] if i in d else 0
                    d[i] = (x, q0 - q)
            return (c, {i: v for i, v in d.items() if v[1] != 0})
        if k == z3.Z3_OP_UMINUS:
            c, d = lindec(t.arg(0))
            return (-c, {i: (x, -q) for i, (x, q) in d.items()})
        if k == z3.Z3_OP_MUL and t.num_args() == 2:
            a, b = t.children()
            if z3.is_int_value(b): a, b = b, a
            if z3.is_int_value(a):
                k2 = a.as_long(); c, d = lindec(b)
                return (c * k2, {i: (x, q * k2) for i, (x, q) in d.items() if k2})
    keep(t)
    return (0, {t.get_id(): (t, 1)})

def fromlin(c, d):
    if not d: return c
    ts = []
    for i in sorted(d):
        x, q = d[i]
        ts.append(x if q == 1 else (IntVal(q) * x))
    if c != 0: ts.append(IntVal(c))
    return keep(z3.Sum(ts) if len(ts) > 1 else ts[0]) if len(ts) != 1 else ts[0]

def norm(t):
    if isinstance(t, int): return t
    return fromlin(*lindec(t))

def add(*xs):
    c, d = 0, {}
    for t in xs:
        c2, d2 = lindec(t); c += c2
        for i, (x, q) in d2.items():
            q0 = d[i][1] if i in d else 0
            d[i] = (x, q0 + q)
    return fromlin(c, {i: v for i, v in d.items() if v[1] != 0})
def neg(a): 
    c, d = lindec(a)
    return fromlin(-c, {i: (x, -q) for i, (x, q) in d.items()})
def sub(a, b): return add(a, neg(b))
def scale(k, a):
    c, d = lindec(a)
    return fromlin(c * k, {i: (x, q * k) for i, (x, q) in d.items()} if k else {})

def atomic(t):
    return isinstance(t, int) or (z3.is_app(t) and t.num_args() == 0)
def is_mul(t): return isz(t) and z3.is_app(t) and t.decl().eq(mulF)
def factors(t):
    if is_mul(t): return factors(t.arg(0)) + factors(t.arg(1))
    return [t]
def mkprod(fs):
    fs = sorted(fs, key=lambda x: x.get_id())
    r = fs[0]
    for f in fs[1:]: r = keep(mulF(r, f))
    return r
def mul(a, b):
    if isinstance(a, int): return scale(a, b)
    if isinstance(b, int): return scale(b, a)
    ca, da = lindec(a); cb, db = lindec(b)
    c, d = ca * cb, {}
    def addm(x, q):
        if q == 0: return
        i = x.get_id(); q0 = d[i][1] if i in d else 0
        d[i] = (x, q0 + q)
    for x, q in da.values(): addm(x, q * cb)
    for x, q in db.values(): addm(x, q * ca)
    for x, q in da.values():
        for y, p in db.values():
            addm(keep(mkprod(factors(x) + factors(y))), q * p)
    return fromlin(c, {i: v for i, v in d.items() if v[1] != 0})

def lin(r, c, R):
    """r + c*R as an index term"""
    if isinstance(R, int):
        if R == 1 and isinstance(r, int) and r == 0: return c
    if isinstance(c, int):
        if c == 0: return r
    if isinstance(R, int) and isinstance(c, int): return add(r, c * R)
    if isinstance(R, int) and R == 1: return add(r, c)
    if isz(r) and isz(c) and z3.is_app(r) and z3.is_app(c) and r.decl().eq(rowF) and c.decl().eq(colF) and r.arg(0).eq(c.arg(0)) and r.arg(1).eq(c.arg(1)) and isz(R) and r.arg(1).eq(R):
        x = r.arg(0)
        return x.as_long() if z3.is_int_value(x) else x
    return keep(linF(toz(r), toz(c), toz(R)))

def unlin(t):
    """if t is lin(r,c,R) return (r,c,R)"""
    if isz(t) and z3.is_app(t) and t.decl().eq(linF): return t.children()
    return None

def index_norm(t, R):
    """rewrite a raw index term into lin(r,c,R) when it is of that shape"""
    if isinstance(t, int) or R is None or isinstance(R, int): return t
    if unlin(t) is not None: return t
    cR, dR = lindec(R)
    if cR != 0 or len(dR) != 1 or list(dR.values())[0][1] != 1: return t
    fR = [x.get_id() for x in factors(list(dR.values())[0][0])]
    c, d = lindec(t)
    rest, q = {}, {}
    qc = 0
    hit = False
    for i, (x, k) in d.items():
        fs = factors(x); ids = [y.get_id() for y in fs]
        ok = True; rem = list(fs)
        for fi in fR:
            for j, y in enumerate(rem):
                if y.get_id() == fi: rem.pop(j); break
            else: ok = False; break
        if ok:
            hit = True
            if rem:
                m = mkprod(rem); q[m.get_id()] = (m, k)
            else: qc += k
        else: rest[i] = (x, k)
    if not hit: return t
    return lin(fromlin(c, rest), fromlin(qc, q), R)

def eqs(a, b):
    """syntactic comparison of integer terms: True / False / None(unknown)"""
    c, d = lindec(sub(a, b))
    if not d: return c == 0
    return None

def Eq(a, b):
    if isinstance(a, (int, Fraction, float)) and isinstance(b, (int, Fraction, float)) : return a == b
    if isinstance(a, (bool,)) or isinstance(b, bool) or (isz(a) and z3.is_bool(a)):
        return simp_bool(toz(a) == toz(b))
    if isz(a) and isz(b) and a.get_id() == b.get_id(): return True
    if not (isz(a) and z3.is_real(a)) and not (isz(b) and z3.is_real(b)):
        r = eqs(a, b)
        if r is not None: return r
    return toz(a) == toz(b)
def _cmp(op):
    def f(a, b):
        if isinstance(a, (int, Fraction, float)) and isinstance(b, (int, Fraction, float)): return op(a, b)
        if not (isz(a) and z3.is_real(a)) and not (isz(b) and z3.is_real(b)):
            c, d = lindec(sub(a, b))
            if not d: return op(c, 0)
        return op(toz(a), toz(b))
    return f
import operator as _op
Lt, Le, Gt, Ge = map(_cmp, (_op.lt, _op.le, _op.gt, _op.ge))
def simp_bool(t):
    if isinstance(t, bool): return t
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    return t
def And(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)): x = And(*x)
        if x is True: continue
        if x is False: return False
        x = simp_bool(x)
        if x is True: continue
        if x is False: return False
        out.append(x)
    if not out: return True
    return out[0] if len(out) == 1 else z3.And(out)
def Or(*xs):
    out = []
    for x in xs:
        x = simp_bool(x)
        if x is False: continue
        if x is True: return True
        out.append(x)
    if not out: return False
    return out[0] if len(out) == 1 else z3.Or(out)
def Not(x):
    x = simp_bool(x)
    if isinstance(x, bool): return not x
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)
def Implies(a, b):
    a, b = simp_bool(a), simp_bool(b)
    if a is True: return b
    if a is False or b is True: return True
    return z3.Implies(a, toz(b))
def Ite(c, a, b):
    c = simp_bool(c)
    if c is True: return a
    if c is False: return b
    if not isz(a) and not isz(b) and a == b and type(a) == type(b): return a
    if isz(a) and isz(b) and a.get_id() == b.get_id(): return a
    if isinstance(a, (int,)) and not isinstance(a, bool) and isz(b) and z3.is_real(b): a = RealVal(a)
    if isinstance(b, (int,)) and not isinstance(b, bool) and isz(a) and z3.is_real(a): b = RealVal(b)
    return keep(z3.If(c, toz(a), toz(b)))
def IntDiv(a, k):
    "floor division by positive constant"
    if isinstance(a, int): return a // k
    c, d = lindec(a)
    if c % k == 0 and all(q % k == 0 for _, q in d.values()):
        return fromlin(c // k, {i: (x, q // k) for i, (x, q) in d.items()})
    return keep(toz(a) / IntVal(k))
def IntMod(a, k):
    if isinstance(a, int): return a % k
    c, d = lindec(a)
    if all(q % k == 0 for _, q in d.values()): return c % k
    return keep(toz(a) % IntVal(k))
def Row(i, R):
    if isinstance(R, int) and R > 0: return IntMod(i, R)
    u = unlin(i)
    return keep(rowF(toz(i), toz(R)))
def Col(i, R):
    if isinstance(R, int) and R > 0: return IntDiv(i, R)
    return keep(colF(toz(i), toz(R)))

_ren = {}
def renorm(t):
    """normalise the integer arithmetic inside a term"""
    if not isz(t) or z3.is_quantifier(t) or not z3.is_app(t) or t.num_args() == 0: return t
    i = t.get_id()
    r = _ren.get(i)
    if r is not None: return r[0]
    ch = [renorm(c) for c in t.children()]
    k = t.decl().kind()
    un = lambda x: x.as_long() if z3.is_int_value(x) else x
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS) and z3.is_int(t):
        r = toz(norm(t.decl()(*ch) if k != z3.Z3_OP_ADD else z3.Sum(ch)))
    elif t.decl().eq(mulF): r = toz(mul(un(ch[0]), un(ch[1])))
    elif k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and z3.is_int(ch[0]): r = toz({z3.Z3_OP_LE: Le, z3.Z3_OP_LT: Lt, z3.Z3_OP_GE: Ge, z3.Z3_OP_GT: Gt}[k](un(ch[0]), un(ch[1])))
    elif k == z3.Z3_OP_EQ and z3.is_int(ch[0]): r = toz(Eq(un(ch[0]), un(ch[1])))
    elif k == z3.Z3_OP_AND: r = toz(And(*ch))
    elif k == z3.Z3_OP_OR: r = toz(Or(*ch))
    elif k == z3.Z3_OP_NOT: r = toz(Not(ch[0]))
    elif all(a.eq(b) for a, b in zip(ch, t.children())): r = t
    elif k == z3.Z3_OP_DISTINCT: r = z3.Distinct(ch)
    else: r = t.decl()(*ch)
    keep(r)
    _ren[i] = (r, t)
    return r

squotF = z3.Function('squot', IntS, IntS, IntS)        # quotient rounded towards zero
sremF = z3.Function('srem', IntS, IntS, IntS)
def signed_div(x, y):
    """-> (quotient, remainder, defining facts) for y != 0"""
    x, y = toz(x), toz(y)
    q, r = keep(squotF(x, y)), keep(sremF(x, y))
    f = z3.And(x == toz(mul(q, y)) + r, z3.Implies(x >= 0, r >= 0), z3.Implies(x <= 0, r <= 0), z3.Implies(y > 0, z3.And(r < y, -r < y)), z3.Implies(y < 0, z3.And(r < -y, -r < -y)))
    return q, r, f
# ------------------------------------------------ floating point operations
class FP:
    """mode 'uf': + - * / are uninterpreted (sound for IEEE without NaN / up to the sign of zero);
       mode 'real': exact real arithmetic."""
    mode = 'uf'
fadd = z3.Function('fadd', RealS, RealS, RealS)
fmul = z3.Function('fmul', RealS, RealS, RealS)
fdiv = z3.Function('fdiv', RealS, RealS, RealS)
_ufs = {}
def uf(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in _ufs: _ufs[k] = z3.Function(name, *sorts)
    return _ufs[k]
def isnum(x): return isinstance(x, (int, Fraction)) or (isz(x) and z3.is_rational_value(x))
def num(x):
    if isinstance(x, int): return Fraction(x)
    if isz(x): return Fraction(x.numerator_as_long(), x.denominator_as_long())
    return x
def rz(x):
    if isinstance(x, int): return RealVal(x)
    if isinstance(x, (Fraction, float)): return RealVal(Fraction(x))
    if isz(x) and z3.is_int(x): return z3.ToReal(x)
    return x
def isc(*a):
    """concrete evaluation"""
    return FP.mode == 'conc' and not any(isz(x) for x in a)
import math as _math
CFUN = dict(sqrt=lambda x: _math.sqrt(x) if x >= 0 else _math.nan, exp=_math.exp, log=lambda x: _math.log(x) if x > 0 else (-_math.inf if x == 0 else _math.nan),
            log10=lambda x: _math.log10(x) if x > 0 else (-_math.inf if x == 0 else _math.nan), sin=lambda x: _math.sin(x) if _math.isfinite(x) else _math.nan, cos=lambda x: _math.cos(x) if _math.isfinite(x) else _math.nan, tan=lambda x: _math.tan(x) if _math.isfinite(x) else _math.nan, pow=_math.pow, hypot=_math.hypot, cabs=_math.hypot, atan2=_math.atan2,
            floor=_math.floor, ceil=_math.ceil, erfc=_math.erfc, erf=_math.erf)
def f_neg(a):
    if isc(a): return -float(a)
    if isnum(a): return -num(a)
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_UMINUS: return a.arg(0)
    return keep(-rz(a))
def f_add(a, b):
    if isc(a, b): return float(a) + float(b)
    if isnum(a) and num(a) == 0: return b
    if isnum(b) and num(b) == 0: return a
    if FP.mode == 'real': 
        if isnum(a) and isnum(b): return num(a) + num(b)
        return keep(rz(a) + rz(b))
    a, b = rz(a), rz(b)
    if a.get_id() > b.get_id(): a, b = b, a
    return keep(fadd(a, b))
def f_sub(a, b):
    if isc(a, b): return float(a) - float(b)
    if isnum(b) and num(b) == 0: return a
    if FP.mode == 'real':
        if isnum(a) and isnum(b): return num(a) - num(b)
        return keep(rz(a) - rz(b))
    return f_add(a, f_neg(b))
def f_mul(a, b):
    if isc(a, b): return float(a) * float(b)
    for x, y in ((a, b), (b, a)):
        if isnum(x):
            if num(x) == 1: return y
            if num(x) == -1: return f_neg(y)
    if FP.mode == 'real':
        if isnum(a) and isnum(b): return num(a) * num(b)
        return keep(rz(a) * rz(b))
    a, b = rz(a), rz(b)
    if a.get_id() > b.get_id(): a, b = b, a
    return keep(fmul(a, b))
def f_div(a, b):
    if isc(a, b):
        a, b = float(a), float(b)
        if b == 0: return _math.nan if a == 0 or a != a else _math.copysign(_math.inf, a) * _math.copysign(1.0, b)
        return a / b
    if isnum(b) and num(b) == 1: return a
    if FP.mode == 'real':
        if isnum(a) and isnum(b) and num(b) != 0: return num(a) / num(b)
        return keep(rz(a) / rz(b))
    return keep(fdiv(rz(a), rz(b)))
def f_uf(name, *args):
    if isc(*args):
        try: return float(CFUN[name](*[float(a) for a in args]))
        except OverflowError: return _math.inf
    args = [rz(a) for a in args]
    return keep(uf('f_' + name, *([RealS] * (len(args) + 1)))(*args))
def f_abs(a):
    if isc(a): return abs(float(a))
    if isnum(a): return abs(num(a))
    return Ite(Lt(rz(a), RealVal(0)), f_neg(a), a)
def i2f(a):
    if isc(a): return float(a)
    if isinstance(a, int): return Fraction(a)
    return keep(z3.ToReal(a))
def f2i(a):
    if isc(a): return int(a)
    if isnum(a):
        n = num(a); return int(n)
    return Ite(rz(a) >= 0, keep(z3.ToInt(rz(a))), keep(-z3.ToInt(-rz(a))))

# ------------------------------------------------ axioms
def axioms():
    r, c, R, C, a, b, d, i = z3.Ints('r c R C a b d i')
    x, y = z3.Reals('x y')
    FA = z3.ForAll
    mp = z3.MultiPattern
    A = [
     FA([a, b], mulF(a, b) == mulF(b, a), patterns=[mulF(a, b)]),
     FA([r, c, R], linF(r, c, R) == r + mulF(c, R), patterns=[linF(r, c, R)]),
     FA([r, c, R], z3.Implies(z3.And(0 <= r, r < R), z3.And(rowF(linF(r, c, R), R) == r, colF(linF(r, c, R), R) == c)), patterns=[linF(r, c, R)]),
     FA([r, c, R, C], z3.Implies(z3.And(0 <= r, r < R, 0 <= c, c < C), z3.And(0 <= linF(r, c, R), linF(r, c, R) < mulF(C, R))), patterns=[mp(linF(r, c, R), mulF(C, R))]),
     FA([a, b], z3.And(z3.Implies(z3.And(a >= 0, b >= 0), mulF(a, b) >= 0), z3.Implies(a == 0, mulF(a, b) == 0), z3.Implies(a == 1, mulF(a, b) == b),
                       z3.Implies(z3.And(a >= 1, b >= 1), z3.And(mulF(a, b) >= a, mulF(a, b) >= b))), patterns=[mulF(a, b)]),
     FA([a, b, c], z3.And(z3.Implies(z3.And(a < c, b >= 0), mulF(a, b) + b <= mulF(c, b)), z3.Implies(a == c + 1, mulF(a, b) == mulF(c, b) + b)), patterns=[mp(mulF(a, b), mulF(c, b))]),
     FA([i, R], z3.Implies(z3.And(R > 0, i >= 0), z3.And(0 <= rowF(i, R), rowF(i, R) < R, colF(i, R) >= 0, i == rowF(i, R) + mulF(colF(i, R), R), linF(rowF(i, R), colF(i, R), R) == i)), patterns=[rowF(i, R)]),
     FA([i, R], z3.Implies(z3.And(R > 0, i >= 0), z3.And(0 <= rowF(i, R), rowF(i, R) < R, colF(i, R) >= 0, i == rowF(i, R) + mulF(colF(i, R), R), linF(rowF(i, R), colF(i, R), R) == i)), patterns=[colF(i, R)]),
     FA([i, R, C], z3.Implies(z3.And(R > 0, i >= 0, i < mulF(C, R)), colF(i, R) < C), patterns=[mp(colF(i, R), mulF(C, R))]),
    ]
    F = [
     FA([x, y], fadd(x, y) == fadd(y, x), patterns=[fadd(x, y)]),
     FA([x, y], fmul(x, y) == fmul(y, x), patterns=[fmul(x, y)]),
    ]
    return A, F
AX_INT, AX_FP = axioms()

_mulc = {}
def mul_atoms(t):
    """mul/lin/row/col applications occurring (ground) in t"""
    if not isz(t): return ()
    i = t.get_id()
    r = _mulc.get(i)
    if r is None:
        out = {}
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x): continue
            if z3.is_app(x):
                dd = x.decl()
                if dd.eq(mulF) or dd.eq(linF) or dd.eq(rowF) or dd.eq(colF): out[x.get_id()] = x
                st += x.children()
        r = (tuple(out.values()), t)
        _mulc[i] = r
    return r[0]

_pairl, _singl, _ch = {}, {}, {}
def kids(m):
    i = m.get_id()
    r = _ch.get(i)
    if r is None:
        c = m.children()
        r = _ch[i] = (c[0], c[1], c[0].get_id(), c[1].get_id(), m)
    return r
def pair_lemmas(m, o):
    """monotony of the product in one factor, for two products sharing the other"""
    k = (m.get_id(), o.get_id())
    r = _pairl.get(k)
    if r is None:
        a, b, ia, ib, _ = kids(m); p, q, ip, iq, _ = kids(o)
        r = []
        for u, v, iv in ((a, b, ib), (b, a, ia)):
            for s, iu, t, it in ((p, ip, q, iq), (q, iq, p, ip)):
                if iv == it:
                    r.append(z3.Implies(z3.And(u < s, v >= 0), m + v <= o))
                    r.append(z3.Implies(z3.And(s < u, v >= 0), o + v <= m))
                    r.append(z3.Implies(u == s, o == m))
        # the same for a product of several factors: m = u*v, o = s*v with s a product itself
        for m_, o_ in ((m, o), (o, m)):
            fo = factors(o_)
            if len(fo) < 3: continue
            u_, v_ = m_.arg(0), m_.arg(1)
            for u, v in ((u_, v_), (v_, u_)):
                left = list(fo)
                for f in factors(v):
                    j = next((n for n, x in enumerate(left) if x.get_id() == f.get_id()), None)
                    if j is None: break
                    del left[j]
                else:
                    if len(left) > 1 or (left and len(factors(v)) > 1):
                        s = mkprod(left)
                        r.append(z3.Implies(z3.And(u < s, v >= 0), m_ + v <= o_))
                        r.append(z3.Implies(z3.And(s < u, v >= 0), o_ + v <= m_))
                        r.append(z3.Implies(s == u, o_ == m_))
        _pairl[k] = r
    return r
def mul_lemmas(m):
    r = _singl.get(m.get_id())
    if r is None:
        a, b = m.children()
        r = [z3.Implies(z3.And(a >= 0, b >= 0), m >= 0), z3.Implies(z3.Or(a == 0, b == 0), m == 0), z3.Implies(a == 1, m == b), z3.Implies(b == 1, m == a),
             z3.Implies(z3.And(a >= 1, b >= 1), z3.And(m >= a, m >= b))]
        _singl[m.get_id()] = r; keep(m)
    return r
def atom_lemmas(t):
    """-> (products the lemmas mention, lemmas) for an index term"""
    r = _singl.get(t.get_id())
    if r is None:
        dd = t.decl()
        if dd.eq(linF):
            r_, c, R = t.children()
            m = mul(c, R)
            l = [t == toz(add(r_, m)), z3.Implies(z3.And(0 <= r_, r_ < R), z3.And(rowF(t, R) == r_, colF(t, R) == c))]
        else:
            i, R = t.children()
            m = mul(colF(i, R), R)
            l = [z3.Implies(z3.And(R > 0, i >= 0), z3.And(0 <= rowF(i, R), rowF(i, R) < R, colF(i, R) >= 0, i == rowF(i, R) + m))]
        r = _singl[t.get_id()] = ([y for y in mul_atoms(toz(m)) if y.decl().eq(mulF)], l); keep(t)
    return r
_ismul = {}
def ismulc(m):
    i = m.get_id()
    r = _ismul.get(i)
    if r is None: r = _ismul[i] = m.decl().eq(mulF); keep(m)
    return r
def ground_lemmas(new, old):
    """instances of the integer axioms for ground atoms"""
    L = []
    allm = [m for m in old if ismulc(m)]
    ids = {m.get_id() for m in allm}
    def domul(m):
        L.extend(mul_lemmas(m))
        i = m.get_id()
        for o in allm:
            if o.get_id() != i: L.extend(pair_lemmas(m, o))
        allm.append(m); ids.add(i)
    for t in new:
        if ismulc(t): domul(t)
        else:
            ys, l = atom_lemmas(t)
            for y in ys:
                if y.get_id() not in ids: domul(y)
            L.extend(l)
    return L

def has_quant(t):
    if not isz(t): return False
    return _hq(t)
_hqc = {}
def _hq(t):
    i = t.get_id()
    r = _hqc.get(i)
    if r is None:
        r = z3.is_quantifier(t) or any(_hq(c) for c in t.children())
        _hqc[i] = r; keep(t)
    return r

# ------------------------------------------------ provers
# ground arithmetic arguments of functions get names, so that triggers match modulo arithmetic
_named = {}
_nmemo = {}
def name_args(f):
    """-> (formula with compound ground arguments replaced by constants, defining equations)"""
    r = _named.get(f.get_id())
    if r is not None: return r[1], r[2]
    memo = _nmemo; defs = {}
    def ground(t):
        return not has_var(t)
    def go(t, arg=False):
        k = (t.get_id(), arg)
        r = memo.get(k)
        if r is not None:
            for d in r[1]: defs[d.get_id()] = d
            return r[0]
        saved = dict(defs); defs.clear()
        if z3.is_quantifier(t):
            b = go(t.body())
            if b.eq(t.body()): r = t
            else:
                pats = [go_pat(t.pattern(i)) for i in range(t.num_patterns())]
                vs = [z3.Const('nq!%d!%s' % (i, t.var_name(i)), t.var_sort(i)) for i in range(t.num_vars())]
                inst = lambda x: z3.substitute_vars(x, *reversed(vs))
                r = z3.ForAll(vs, inst(b), patterns=[z3.MultiPattern(*[inst(c) for c in p]) for p in pats]) if t.is_forall() else z3.Exists(vs, inst(b))
        elif not z3.is_app(t) or t.num_args() == 0: r = t
        else:
            dk = t.decl().kind()
            if arg and dk in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL) and t.sort() == IntS and ground(t):
                c = z3.Int('nm!%d' % keep(t).get_id())
                e = keep(c == t); defs[e.get_id()] = e
                r = c
            else:
                un = dk == z3.Z3_OP_UNINTERPRETED
                ch = [go(x, un) for x in t.children()]
                r = t if all(a.eq(b) for a, b in zip(ch, t.children())) else t.decl()(*ch)
        memo[k] = (r, tuple(defs.values()), keep(t))
        keep(r)
        defs.update(saved)
        return r
    def go_pat(p): return [go(x, False) for x in p.children()]
    r = go(f)
    _named[f.get_id()] = (keep(f), r, list(defs.values()))
    return r, list(defs.values())
_hv = {}
def has_var(t):
    r = _hv.get(t.get_id())
    if r is not None: return r[1]
    if z3.is_var(t): v = True
    elif z3.is_quantifier(t): v = has_var(t.body())
    else: v = any(has_var(c) for c in t.children())
    _hv[t.get_id()] = (t, v)
    return v

_bitd = {}
def bit_decls(ts):
    """names of the bitwise operations in the terms"""
    out = set()
    for t in ts:
        r = _bitd.get(t.get_id())
        if r is None:
            v = set(); st = [t]; seen = set()
            while st:
                x = st.pop()
                if x.get_id() in seen: continue
                seen.add(x.get_id())
                if z3.is_quantifier(x): st.append(x.body()); continue
                if z3.is_app(x) and x.num_args():
                    if x.num_args() == 2 and x.decl().name().startswith(('bitand', 'bitor', 'bitxor')): v.add(x.decl().name())
                    st += x.children()
            r = _bitd[t.get_id()] = (v, t)
        out |= r[0]
    return sorted(out)
class Prover:
    def __init__(self):
        self.s = z3.SolverFor('QF_UFLIRA') if False else z3.Solver()
        self.s.set('timeout', 400)
        self.stack = []      # facts asserted
        self.atoms = [()]    # atoms per level
        self.cache = {}
        self.stat = dict(qf=0, full=0, t_qf=0.0, t_full=0.0, cvc5=0)
        self.full_timeout = 4000
        self.extra = []      # global axioms (quantified), e.g. ranges
        self.use_bv = False

    def sync(self, pc):
        n = 0
        st = self.stack
        while n < len(st) and n < len(pc) and st[n] is pc[n]: n += 1
        if n < len(st):
            self.s.pop(len(st) - n)
            del st[n:]; del self.atoms[n + 1:]
        for f in pc[n:]:
            self.s.push(); st.append(f)
            cur = self.atoms[-1]
            if isz(f) and not has_quant(f):
                self.s.add(f)
                cur = self._lem(f, cur)
            self.atoms.append(cur)

    def _lem(self, f, cur):
        ids = {a.get_id() for a in cur}
        new = [a for a in mul_atoms(f) if a.get_id() not in ids]
        if new:
            L = ground_lemmas(new, cur)
            for l in L: self.s.add(l)
            cur = cur + tuple(new)
        return cur

    def qf(self, pc, goal):
        """True if goal follows from the quantifier-free facts"""
        goal = simp_bool(goal)
        if goal is True: return True
        if has_quant(goal): return False
        self.stat['qf'] += 1
        t0 = time.time()
        self.sync(pc)
        self.s.push()
        try:
            if goal is not False:
                self._lem(goal, self.atoms[-1])
                self.s.add(z3.Not(goal))
            return self.s.check() == z3.unsat
        finally:
            self.s.pop()
            self.stat['t_qf'] += time.time() - t0

    def feasible(self, pc):
        return not self.qf(pc, False)

    def full(self, pc, goal, timeout=None, extra=()):
        """-> 'unsat' (proved) / 'sat' / 'unknown'; keeps last model"""
        goal = simp_bool(goal)
        if goal is True: return 'unsat'
        self.stat['full'] += 1
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', timeout or self.full_timeout)
        s.set('auto_config', False); s.set('mbqi', False)
        s.set('smt.random_seed', 0); s.set('smt.propagate_values', False)
        facts = [f for f in pc if isz(f)] + list(extra)
        atoms = {}
        for f in facts + ([goal] if isz(goal) else []):
            for a in mul_atoms(f): atoms[a.get_id()] = a
        for a in AX_INT + self.extra: s.add(a)
        if FP.mode == 'uf':
            for a in AX_FP: s.add(a)
        for nm in bit_decls(facts + ([goal] if isz(goal) else [])):
            f = uf(nm, IntS, IntS, IntS); x, y = z3.Ints('x! y!')
            s.add(z3.ForAll([x, y], f(x, y) == f(y, x), patterns=[f(x, y)]))
        defs = {}
        def put(f):
            f, ds = name_args(f)
            for d in ds: defs[d.get_id()] = d
            s.add(f)
        for f in facts: put(f)
        for l in ground_lemmas(list(atoms.values()), ()): put(l)
        if goal is not False: put(z3.Not(goal))
        for d in defs.values(): s.add(d)
        self.last = s
        r = s.check()
        self.stat['t_full'] += time.time() - t0
        if os.environ.get('VC_SLOW') and time.time() - t0 > 1:
            print('slow', round(time.time() - t0, 2), r, str(goal)[:300])
        return str(r)

    def cvc5(self, timeout=8):
        """retry the last full query with cvc5 -> bool proved"""
        self.stat['cvc5'] += 1
        smt = '(set-logic ALL)\n' + self.last.to_smt2()
        fd, p = tempfile.mkstemp(suffix='.smt2')
        try:
            with os.fdopen(fd, 'w') as f: f.write(smt)
            o = subprocess.run(['cvc5', '--tlimit=%d' % (timeout * 1000), p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return o.stdout.strip().startswith('unsat')
        except Exception:
            return False
        finally:
            os.unlink(p)

SEQS = {}       # sequences defined by recursion (specification): name -> object with decl, instances(application)

def rebuild(t, sub_, memo=None):
    """substitute (id -> replacement) and renormalise"""
    if memo is None: memo = {}
    if not isz(t): return t
    i = t.get_id()
    if i in sub_: return sub_[i]
    r = memo.get(i)
    if r is not None: return r[0]
    if not z3.is_app(t) or t.num_args() == 0: r = t
    else:
        k = t.decl().kind(); o = t.children()
        ch = [rebuild(c, sub_, memo) for c in o]
        iv = lambda x: x.as_long() if isz(x) and z3.is_int_value(x) else x
        if all(isz(a) and a.eq(b) for a, b in zip(ch, o)): r = t
        elif k == z3.Z3_OP_ITE: r = Ite(simp_bool(ch[0]), iv(ch[1]), iv(ch[2]))
        elif k == z3.Z3_OP_AND: r = And(*ch)
        elif k == z3.Z3_OP_OR: r = Or(*ch)
        elif k == z3.Z3_OP_NOT: r = Not(simp_bool(ch[0]))
        elif k == z3.Z3_OP_IMPLIES: r = Implies(simp_bool(ch[0]), simp_bool(ch[1]))
        elif z3.is_int(o[0]) and k in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            r = {z3.Z3_OP_EQ: Eq, z3.Z3_OP_LE: Le, z3.Z3_OP_LT: Lt, z3.Z3_OP_GE: Ge, z3.Z3_OP_GT: Gt}[k](iv(ch[0]), iv(ch[1]))
        elif k == z3.Z3_OP_ADD and z3.is_int(t): r = add(*[iv(c) for c in ch])
        elif k == z3.Z3_OP_SUB and z3.is_int(t) and len(ch) == 2: r = sub(iv(ch[0]), iv(ch[1]))
        elif k == z3.Z3_OP_UMINUS and z3.is_int(t): r = neg(iv(ch[0]))
        elif k == z3.Z3_OP_MUL and z3.is_int(t): r = mul(*[iv(c) for c in ch]) if len(ch) == 2 else keep(z3.Product([toz(c) for c in ch]))
        elif k == z3.Z3_OP_IDIV: r = IntDiv(iv(ch[0]), iv(ch[1]))
        elif k == z3.Z3_OP_MOD: r = IntMod(iv(ch[0]), iv(ch[1]))
        else: r = keep(t.decl()(*[toz(c) for c in ch]))
    memo[i] = (r, t)
    return r
