"""sets.h: bitset (C09)"""
from . import *
from ..structs import *
from .bits import *
import z3

def bits_inv(h):
    n, cap = h.nbytes, h.uint_set_size
    out = [And(Eq(n, add(div(cap, 8), Ite(Eq(mod(cap, 8), 0), 0, 1))), Eq(h.sizet_objects, n), Eq(h.sizet_bytes, n))]
    B = h._matrix
    if B is not None and not B.empty:
        out.append(Q(['k'], lambda k: (And(Ge(k, cap), Lt(k, mul(8, n))), Eq(member(h, k), 0), [B.at(div(k, 8))])))
    return out
def member(h, k): return bit(h._matrix.at(div(k, 8)), mod(k, 8))
def gen_bits(g):
    cap = g.r.choice([1, 3, 8, 9, 16, 17, 24, 33, 64, g.r.randint(1, 80)]) if not g.large else g.r.choice([2100, 70000])
    n = (cap + 7) // 8
    p = g.r.choice([0, 0.1, 0.5, 0.9, 1])
    data = [0] * n
    for k in range(cap):
        if g.r.random() < p: data[k // 8] |= 1 << (k % 8)
    g.dims.append((cap, n))
    return dict(_matrix=ConcMat('u8', n, 1, data), sizet_bytes=n, sizet_objects=n, nbytes=n, uint_set_size=cap)
BITS = StructDef('Bits', 'susa::bitset', 48, [
    F('', 0, 'vptr'), F('_matrix', 8, ('heap', 'u8', lambda h: h.nbytes), null=lambda h: Eq(h.nbytes, 0)), F('sizet_bytes', 16, 'u64'), F('sizet_objects', 24, 'u64'), F('nbytes', 32, 'u64'), F('uint_set_size', 40, 'u64')],
    inv=bits_inv, gen=gen_bits, make='new susa::bitset(f_uint_set_size)')
BITS.counts_cpp = {'_matrix': 'o.sizet_objects'}
P = 'C09'
def each(h, fn):
    """for every index of the set"""
    return Q(['k'], lambda k: (And(Ge(k, 0), Lt(k, h.uint_set_size)), fn(k), [h._matrix.at(div(k, 8))]))
def every(h, fn): return Q(['k'], lambda k: (And(Ge(k, 0), Lt(k, mul(8, h.nbytes))), fn(k), [h._matrix.at(div(k, 8))]))
def gen_index(g, n):
    s = StructH('', gen_bits(g)); cap = s.uint_set_size
    return dict(this=s, i=g.r.choice([0, 1, 7, 8, cap - 1, cap, cap + 1, cap - cap % 8, 1 << 35, g.r.randint(0, cap), g.r.randint(0, cap)]))
def changes(c, s, new):
    """membership afterwards"""
    if s._matrix.empty: return
    c.postobj('this', _matrix=ANY)
    c.ens(lambda r, po: each(po['this'], lambda k: Eq(member(po['this'], k), new(k))), 'membership afterwards')
    c.loopinv('indices handled so far', lambda v, it: every(v['this'], lambda k: Eq(member(v['this'], k), Ite(Lt(k, it), new(k), member(s, k)))))
    c.loopinv('bytes handled so far', lambda v, it: every(v['this'], lambda k: Eq(member(v['this'], k), Ite(Lt(div(k, 8), it), new(k), member(s, k)))))
@contract('susa::bitset::bitset(unsigned long)', 'void', 'this:newBits n:u64', P, 'susa::bitset self(n);', gen=lambda g, n: dict(n=g.r.choice([0, 1, 7, 8, 9, 64, 65, g.r.randint(0, 300)])), genp=1)
def bits_ctor(c):
    n = c.n
    c.pre(Lt(n, 1 << 60), 'size below 2^60')
    nb = add(div(n, 8), Ite(Eq(mod(n, 8), 0), 0, 1))
    if c.branch(Eq(n, 0)): c.postobj('this', _matrix=None, sizet_bytes=0, sizet_objects=0, nbytes=0, uint_set_size=0)
    else: c.postobj('this', _matrix=(nb, lambda r: 0), sizet_bytes=nb, sizet_objects=nb, nbytes=nb, uint_set_size=n)
@contract('susa::bitset::set(unsigned long)', 'void', 'this:Bits? i:u64', P, 'self.set(i);', gen=gen_index)
def bits_set(c):
    s, i = c.this, c.i
    changes(c, s, lambda k: Ite(Eq(k, i), 1, member(s, k)))
@contract('susa::bitset::push(unsigned long)', 'void', 'this:Bits? i:u64', P, 'self.push(i);', inline=True, gen=gen_index)
def bits_push(c): bits_set(c)
@contract('susa::bitset::reset(unsigned long)', 'void', 'this:Bits? i:u64', P, 'self.reset(i);', gen=gen_index)
def bits_reset(c):
    s, i = c.this, c.i
    changes(c, s, lambda k: Ite(Eq(k, i), 0, member(s, k)))
@contract('susa::bitset::exists(unsigned long)', 'bool', 'this:Bits? i:u64', P, 'auto ret = self.exists(i);', gen=gen_index)
def bits_exists(c):
    s, i = c.this, c.i
    if s._matrix.empty: c.ret(False)
    elif c.branch(Lt(i, s.uint_set_size)): c.ret(Eq(member(s, i), 1))
    else: c.ret(False)
@contract('susa::bitset::set()', 'void', 'this:Bits?', P, 'self.set();')
def bits_setall(c): changes(c, c.this, lambda k: 1)
@contract('susa::bitset::reset()', 'void', 'this:Bits?', P, 'self.reset();', inline=True)
def bits_resetall(c): changes(c, c.this, lambda k: 0)
def any_lemma():
    """the disjunction of the bytes is zero exactly when every byte is zero (induction over the number of bytes)"""
    A, B = z3.Function('lA', z3.IntSort(), z3.BitVecSort(8)), z3.Function('lB', z3.IntSort(), z3.BitVecSort(8))
    n, j = z3.Ints('ln lj')
    Pn = lambda m: (A(m) == 0) == z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), B(j) == 0))
    return [('any: start', z3.Implies(A(0) == 0, Pn(z3.IntVal(0)))), ('any: step', z3.Implies(z3.And(n >= 0, A(n + 1) == A(n) | B(n), Pn(n)), Pn(n + 1)))]
@contract('susa::bitset::any()', 'bool', 'this:Bits?', P, 'auto ret = self.any();', lemmas=any_lemma)
def bits_any(c):
    s = c.this
    if s._matrix.empty: c.ret(False); return
    B = s._matrix
    A = c.fold('or', lambda: 0, lambda acc, k: bor(acc, B.at(k), 8), sort='i', rng=(0, 255))
    c.ret(Not(Eq(A(s.nbytes), 0)))
@contract('susa::bitset::pop()', 'u64', 'this:Bits?', P, 'auto ret = self.pop();')
def bits_pop(c):
    s = c.this
    if s._matrix.empty: c.ret(s.uint_set_size); return
    c.postobj('this', _matrix=ANY)
    cap = s.uint_set_size
    c.ens(lambda r, po: [Le(r, cap), Implies(Lt(r, cap), Eq(member(s, r), 1)), Q(['k'], lambda k: (And(Ge(k, 0), Lt(k, r), Lt(k, cap)), Eq(member(s, k), 0), [s._matrix.at(div(k, 8))]))], 'the removed member is the first one')
    c.ens(lambda r, po: each(po['this'], lambda k: Eq(member(po['this'], k), Ite(Eq(k, r), 0, member(s, k)))), 'exactly that member is removed')

def same(c, A): return dict(_matrix=(A.nbytes, lambda r: A._matrix.at(r)) if not A._matrix.empty else None, sizet_bytes=A.sizet_bytes, sizet_objects=A.sizet_objects, nbytes=A.nbytes, uint_set_size=A.uint_set_size)
@contract('susa::bitset::bitset(susa::bitset const&)', 'void', 'this:newBits A:cBits?', P, 'susa::bitset self(A);')
def bits_copy(c): c.postobj('this', **same(c, c.A))
@contract('susa::bitset::operator=(susa::bitset const&)', 'thisref', 'this:Bits? A:cBits?', P, 'self = A;', alias=[('A', 'this')])
def bits_assign(c): c.postobj('this', **same(c, c.A))
@contract('susa::memory<unsigned char>::~memory()', 'void', 'this:deadBits?', P)
def bits_dtor(c): pass
