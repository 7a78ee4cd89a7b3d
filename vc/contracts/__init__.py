"""Registry of contracts."""
from ..spec import *
from .. import logic as L
from ..logic import And, Or, Not, Ite, Implies, Eq, Lt, Le, Gt, Ge, add, sub, mul, lin
ALL = {}          # name -> Contract
def expand(k, t):
    base = k.rstrip('?'); q = k[len(base):]
    if base in ('cmat', 'mat', 'newmat', 'deadmat', 'mvmat', 'vmat', 'ref', 'vec', 'cvec', 'vvec', 'arr', 'carr', 'newarr', 'deadarr', 'mvarr', 'alloc', 'heapptr', 'sref'): return '%s<%s>%s' % (base, t, q)
    if base == 'T': return ELT2SC[t] if t in ELT2SC else t
    return k
def contract(name, ret, params, prop, cpp=None, Ts=None, **opts):
    """decorator: registers one contract per element type"""
    if isinstance(prop, str): prop = prop.split()
    params = params.split()
    def deco(fn):
        for t in (Ts or [None]):
            o = dict(opts)
            nm = name
            if t is not None: nm = name.replace('{T}', ELT[t][0])
            ps = ['%s:%s' % (p.split(':')[0], expand(p.split(':')[1], t)) for p in params]
            r = expand(ret, t)
            if t is not None:
                if t not in ('d', 'f', 'cd'): o.setdefault('overflow_ok', True)
            cp = cpp.replace('{T}', ELT[t][0]) if cpp and t is not None else cpp
            spec = (lambda c, fn=fn, t=t: fn(c, t)) if fn.__code__.co_argcount == 2 else fn
            ct = Contract(nm, r, ps, spec, prop, cp, **o)
            ct.T = t
            if nm in ALL: raise ValueError('duplicate contract ' + nm)
            ALL[nm] = ct
        return fn
    return deco
def isvec(A): return A.isvec
MODULES = ('matrix', 'linalg', 'base', 'signal', 'sets', 'random', 'coding', 'memory', 'comm', 'search', 'fourier')
def load():
    import importlib
    for m in MODULES: importlib.import_module('vc.contracts.' + m)
