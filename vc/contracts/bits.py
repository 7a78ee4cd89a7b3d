"""bit arithmetic of the specification language (symbolic: the same terms the executor builds for the machine operations)"""
import z3
from ..spec import *
from .. import logic as L
from ..logic import And, Or, Not, Ite, Implies, Eq, Lt, Le, Gt, Ge, add, sub, mul, lin, isz, toz
def pow2(k):
    if isinstance(k, int): return 1 << k if k >= 0 else 1
    return L.keep(L.uf('pow2', L.IntS, L.IntS)(toz(k)))
def shr(x, k):
    if isinstance(x, int) and isinstance(k, int): return x >> k
    return L.IntDiv(x, 1 << k) if isinstance(k, int) else L.Col(x, pow2(k))
def bit(x, k):
    if isinstance(x, int) and isinstance(k, int): return (x >> k) & 1 if k >= 0 else 0
    if isinstance(x, int) and x == 0: return 0
    return L.IntMod(shr(x, k), 2)
def bitop(op, x, y, w):
    if isinstance(x, int) and isinstance(y, int): return {'and': x & y, 'or': x | y, 'xor': x ^ y}[op]
    for p, q in ((x, y), (y, x)):
        if isinstance(q, int) and op == 'and' and q & (q + 1) == 0: return L.IntMod(p, q + 1)
    x, y = toz(x), toz(y)
    if x.get_id() > y.get_id(): x, y = y, x
    return L.keep(L.uf('bit%s%d' % (op, w), L.IntS, L.IntS, L.IntS)(x, y))
def band(x, y, w): return bitop('and', x, y, w)
def bor(x, y, w): return bitop('or', x, y, w)
def bxor(x, y, w): return bitop('xor', x, y, w)
def div(x, n): return x // n if isinstance(x, int) else L.IntDiv(x, n)
def mod(x, n): return x % n if isinstance(x, int) else L.IntMod(x, n)
