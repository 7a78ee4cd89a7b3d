"""Memory: blocks of equally strided elements, contents as functions of the element index."""
import z3
from . import logic as L, bv
from .logic import toz, Ite, And, Le, Lt

class IV:
    """integer value: mathematical integer t, width w; sg: t lies in the signed (else unsigned) range"""
    __slots__ = ('t', 'w', 'sg')
    def __init__(self, t, w, sg): self.t, self.w, self.sg = t, w, sg
    def __repr__(self): return '%si%d:%s' % ('s' if self.sg else 'u', self.w, self.t)

class Ptr:
    __slots__ = ('b', 'o')
    def __init__(self, b, o=0): self.b, self.o = b, o
    def __repr__(self): return 'null' if self.b is None else '&%s+%s' % (self.b, self.o)
NULL = Ptr(None, 0)
class FnPtr:
    def __init__(self, name): self.name = name
class Undef: pass
UNDEF = Undef()

def canon_sg(w): return w in (16, 32)       # view in which integers are kept in memory / phis
def rng(w, sg):
    if w == 1: return (0, 1)
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)

class Blk:
    _n = 0
    def __init__(self, kind, name, stride=None, count=1, ty=None, shapeR=None):
        Blk._n += 1
        self.id = Blk._n
        self.kind, self.name, self.stride, self.count, self.ty, self.shapeR = kind, name, stride, count, ty, shapeR
        self.bytes = None
        self.tag = None
    def __repr__(self): return '%s#%d' % (self.name, self.id)

def sort_of(tk):
    return L.RealS if tk in ('double', 'float') else L.IntS

class Content:
    pass
class Base(Content):
    def __init__(self, name, tk):
        self.name, self.tk = name, tk
        self.f = z3.Function(name, L.IntS, sort_of(tk))
        if tk[0] == 'i': bv.note_range(name, *rng(int(tk[1:]), canon_sg(int(tk[1:]))))
    def read(self, i): return L.keep(self.f(toz(i)))
    def axiom(self):
        if self.tk[0] == 'i':
            w = int(self.tk[1:]); lo, hi = rng(w, canon_sg(w))
            x = z3.Int('x!')
            return z3.ForAll([x], z3.And(self.f(x) >= lo, self.f(x) <= hi), patterns=[self.f(x)])
        return None
    def __repr__(self): return self.name
class Store(Content):
    def __init__(self, prev, i, v): self.prev, self.i, self.v, self.tk = prev, i, v, prev.tk
    def read(self, j):
        e = L.eqs(j, self.i)
        if e is True: return self.v
        p = self.prev.read(j)
        if e is False: return p
        return Ite(toz(j) == toz(self.i), self.v, p)
class Lam(Content):
    def __init__(self, fn, tk): self.fn, self.tk = fn, tk
    def read(self, j): return self.fn(j)
class Range(Content):
    """prev with [lo, lo+n) replaced by fn(k)"""
    def __init__(self, prev, lo, n, fn): self.prev, self.lo, self.n, self.fn, self.tk = prev, lo, n, fn, prev.tk
    def read(self, j):
        c = And(Le(self.lo, j), Lt(j, L.add(self.lo, self.n)))
        if c is True: return self.fn(L.sub(j, self.lo))
        if c is False: return self.prev.read(j)
        return Ite(c, self.fn(L.sub(j, self.lo)), self.prev.read(j))

class BS:
    """state of a block: fields {sub: Content} (values), ptrs {(sub, idx)->Ptr}"""
    __slots__ = ('f', 'p', 'freed', 'ver')
    def __init__(self, f=None, p=None, freed=False, ver=0):
        self.f, self.p, self.freed, self.ver = f or {}, p or {}, freed, ver
    def clone(self): return BS(dict(self.f), dict(self.p), self.freed, self.ver)
