"""ccode.h: the convolutional code (C19)"""
from . import *
from ..structs import *
from .bits import *
import z3
M32 = 1 << 32
# number of one bits of a 32-bit word
ONES = Seq('ones', 1, (0, 32), lambda t, x: [Eq(t, add(*[bit(x, k) for k in range(32)]))], lambda x: bin(x % M32).count('1'), opaque=True)
# the decimal digits of x read as octal digits
OCT = Seq('oct', 1, (0, 1 << 30), lambda t, x: [Implies(Or(Le(x, 0), Ge(x, M32)), Eq(t, 0)), Implies(And(Gt(x, 0), Lt(x, M32)), And(Eq(t, add(mod(x, 10), mul(8, OCT(div(x, 10))))), Le(t, 1 << 30)))],
    lambda x: sum(int(d) * 8 ** k for k, d in enumerate(str(x)[::-1])) if 0 < x < M32 else 0)
P = 'C19'
def cc_inv(h):
    out = [Eq(h.uint_k, 1)]
    if h.uint_gen is not None and not h.uint_gen.empty: out.append(And(Gt(h.uint_n, 0), Ge(h.uint_m, 1), Lt(h.uint_m, 32), Eq(h.uint_mmask, sub(pow2(h.uint_m), 1)), Le(pow2(h.uint_m), 1 << 31)))
    return out
def gen_cc(g, nmax=6):
    n = g.r.randint(1, nmax); m = g.r.choice([1, 2, 3, 4, 6, 7, 8, 15, 30, 31])
    gens = [g.r.choice([5, 7, 3, 1, (1 << (m + 1)) - 1, g.r.getrandbits(m + 1), g.r.getrandbits(32)]) % M32 for _ in range(n)]
    s = g.r.choice([0, 1, (1 << m) - 1, g.r.getrandbits(m)])
    g.m = m; g.st = s
    return dict(uint_k=1, uint_n=n, uint_m=m, uint_mmask=(1 << m) - 1, uint_gen=ConcMat('u', n, 1, gens), uint_current_state=s, uint_last_state=g.r.getrandbits(m))
CC = StructDef('Cc', 'susa::ccode', 32, [F('uint_k', 0, 'u32'), F('uint_n', 4, 'u32'), F('uint_m', 8, 'u32'), F('uint_mmask', 12, 'u32'), F('uint_gen', 16, ('heap', 'u', lambda h: h.uint_n), null=lambda h: Eq(h.uint_n, 0)), F('uint_current_state', 24, 'u32'), F('uint_last_state', 28, 'u32')],
    inv=cc_inv, gen=gen_cc, make='new susa::ccode(f_uint_n, 1, f_uint_m)')
CC.counts_cpp = {'uint_gen': '(size_t)o.uint_n'}
def gen_state(g, n):
    f = gen_cc(g, 8)
    return dict(this=StructH('', f), s=g.r.choice([0, 1, (1 << g.m) - 1, 1 << (g.m - 1), g.r.getrandbits(g.m), g.r.getrandbits(g.m)]), j=g.r.choice([0, f['uint_n'] - 1, f['uint_n'], f['uint_n'] + 1]), x=g.r.choice([7, 5, 171, 133, 0, 8, 19, M32 - 1, g.r.getrandbits(32), g.r.randint(0, 777)]))
def valid(c, s): c.pre(Lt(s, pow2(c.this.uint_m)), 'a state of the trellis')
# ---- the trellis: state s = the last m inputs, the latest one highest
def nxt(m, s, b): return add(div(s, 2), Ite(b, pow2(sub(m, 1)), 0))
def reg(m, s, b): return add(s, Ite(b, pow2(m), 0))
def parity(c, h, j, s, b): return mod(ONES(band(reg(h.uint_m, s, b), h.uint_gen.at(j), 32)), 2)
@contract('susa::ccode::count_1bits(unsigned int)', 'u8', 'this:Cc x:u32', P, 'auto ret = self.count_1bits(x);', gen=gen_state, unfold=('ones',))
def cc_ones(c): c.ret(ONES(c.x))
@contract('susa::ccode::count_0bits(unsigned int)', 'u8', 'this:Cc x:u32', P, 'auto ret = self.count_0bits(x);', gen=gen_state)
def cc_zeros(c): c.ret(sub(32, ONES(c.x)))
@contract('susa::ccode::oct_to_dec(unsigned int)', 'u32', 'this:Cc x:u32', P, 'auto ret = self.oct_to_dec(x);', gen=gen_state)
def cc_oct(c):
    c.ret(OCT(c.x))
    c.phiinv('digits read so far', 3, lambda it, x, acc, j: Or(*[And(Eq(it, t), Eq(j, 8 ** t), Le(x, (M32 - 1) // 10 ** t), Eq(add(acc, mul(8 ** t, OCT(x))), OCT(c.x))) for t in range(11)]))
@contract('susa::ccode::ccode()', 'void', 'this:newCc', P, 'susa::ccode self;')
def cc_ctor0(c): c.postobj('this', uint_k=1, uint_n=0, uint_m=0, uint_mmask=0, uint_gen=None, uint_current_state=0, uint_last_state=0)
@contract('susa::ccode::ccode(unsigned int, unsigned int, unsigned int)', 'void', 'this:newCc n:u32 k:u32 m:u32', P, 'susa::ccode self(n, k, m);', gen=lambda g, n: dict(n=g.r.randint(1, 6), k=g.r.choice([1, 1, 1, 1, 0, 2]), m=g.r.choice([0, 1, 2, 7, 30, 31, 32, 33])), genp=1)
def cc_ctor(c):
    c.pre(Gt(c.n, 0), 'at least one output')
    c.req(And(Eq(c.k, 1), Gt(c.m, 0), Lt(c.m, 32)), 'one input, 1 to 31 memories')
    c.postobj('this', uint_k=1, uint_n=c.n, uint_m=c.m, uint_mmask=sub(pow2(c.m), 1), uint_gen=(c.n, None), uint_current_state=ANY, uint_last_state=ANY)
@contract('susa::ccode::~ccode()', 'void', 'this:deadCc?', P)
def cc_dtor(c): pass
@contract('susa::ccode::set_generator(unsigned int, unsigned int)', 'void', 'this:Cc x:u32 j:u32', P, 'self.set_generator(x, j);', gen=gen_state)
def cc_gen(c):
    s = c.this; c.req(Lt(c.j, s.uint_n), 'the generator exists')
    c.postobj('this', uint_gen=(s.uint_n, lambda k: Ite(Eq(k, c.j), OCT(c.x), s.uint_gen.at(k))))
@contract('susa::ccode::set_internal_state(unsigned int)', 'void', 'this:Cc s:u32', P, 'self.set_internal_state(s);', gen=gen_state, inline=True)
def cc_setstate(c): c.postobj('this', uint_current_state=c.s)
@contract('susa::ccode::zero_state()', 'void', 'this:Cc', P, 'self.zero_state();', inline=True, gen=gen_state)
def cc_zero(c): c.postobj('this', uint_current_state=0, uint_last_state=0)
@contract('susa::ccode::rate()', 'f', 'this:Cc', P, 'float ret = self.rate();', tol=1e-6)
def cc_rate(c): c.ret(L.f_div(Fraction(1), L.i2f(c.this.uint_n)))
@contract('susa::ccode::next_state(unsigned int, bool)', 'u32', 'this:Cc s:u32 b:bool', P, 'auto ret = self.next_state(s, b);', gen=gen_state)
def cc_next(c):
    valid(c, c.s); c.ret(nxt(c.this.uint_m, c.s, c.b))
    c.ens(lambda r, po: Lt(r, pow2(c.this.uint_m)), 'a state of the trellis')
@contract('susa::ccode::next_state(bool)', 'u32', 'this:Cc b:bool', P, 'auto ret = self.next_state(b);', gen=gen_state)
def cc_step(c):
    h = c.this; s = h.uint_current_state; valid(c, s)
    c.ret(nxt(h.uint_m, s, c.b)); c.postobj('this', uint_current_state=nxt(h.uint_m, s, c.b), uint_last_state=s)
    c.ens(lambda r, po: Lt(r, pow2(h.uint_m)), 'a state of the trellis')
@contract('susa::ccode::prev_states(unsigned int)', 'vec<u>', 'this:Cc s:u32', P, 'auto ret = self.prev_states(s);', gen=gen_state)
def cc_prev(c):
    h = c.this; valid(c, c.s); m = h.uint_m
    pv = lambda k: sub(add(mul(2, c.s), k), Ite(Ge(c.s, pow2(sub(m, 1))), pow2(m), 0))
    c.retvec(2, lambda k, _=0: pv(k))
    for k in (0, 1):
        c.ens(lambda r, po, k=k: Eq(nxt(m, pv(k), Ge(c.s, pow2(sub(m, 1)))), c.s), 'the next state of previous state %d is the state' % k)
@contract('susa::ccode::next_output(unsigned int, bool)', 'u8', 'this:Cc s:u32 b:bool', P, 'auto ret = self.next_output(s, b);', gen=gen_state)
def cc_out(c):
    h = c.this; valid(c, c.s); c.pre(Le(h.uint_n, 8), 'the outputs fit the 8-bit word')
    output(c, h, c.s)
def output(c, h, s):
    c.phiinv('outputs so far', 1, lambda it, acc: Q(['j'], lambda j: (And(Ge(j, 0), Lt(j, 8)), Eq(bit(acc, j), Ite(Lt(j, it), parity(c, h, j, s, c.b), 0)), [h.uint_gen.at(j)])), w=8)
    c.ens(lambda r, po: Q(['j'], lambda j: (And(Ge(j, 0), Lt(j, h.uint_n)), Eq(bit(r, j), parity(c, h, j, s, c.b)), [h.uint_gen.at(j)])), 'bit j is the parity for generator j')
    c.ens(lambda r, po: Q(['j'], lambda j: (And(Ge(j, h.uint_n), Lt(j, 8)), Eq(bit(r, j), 0), [h.uint_gen.at(j)])), 'the other bits are zero')
@contract('susa::ccode::next_output(bool)', 'u8', 'this:Cc b:bool', P, 'auto ret = self.next_output(b);', gen=gen_state)
def cc_outstep(c):
    h = c.this; s = h.uint_current_state; valid(c, s); c.pre(Le(h.uint_n, 8), 'the outputs fit the 8-bit word')
    output(c, h, s)
    c.postobj('this', uint_current_state=nxt(h.uint_m, s, c.b), uint_last_state=s)
def gen_encode(g, n):
    f = gen_cc(g); L_ = g.r.choice([0, 1, 2, 3, 5, 9, 20]) if not g.large else 300
    return dict(this=StructH('', f), A=ConcMat('u8', L_, 1 if L_ else 0, [g.r.choice([0, 1, 1, 255]) for _ in range(L_)]) if g.r.random() < .7 or not L_ else ConcMat('u8', 1, L_, [g.r.choice([0, 1, 2]) for _ in range(L_)]))
@contract('susa::ccode::encode(susa::matrix<unsigned char> const&)', 'mat<u8>', 'this:Cc A:cmat<u8>', P, 'auto ret = self.encode(A);', gen=gen_encode, genp=1, empty='reject')
def cc_encode(c):
    h, A = c.this, c.A; m, n = h.uint_m, h.uint_n
    c.pre(Lt(mul(A.N, n), M32), 'fewer than 2^32 outputs'); c.pre(Le(A.N, M32 - 1), 'fewer than 2^32 inputs')
    S = c.fold('state', lambda: 0, lambda acc, k: nxt(m, acc, Not(Eq(A.at(k), 0))), sort='i', rng=(0, M32 - 1))
    c.retmat(mul(A.N, n), 1, lambda r, _: parity(c, h, L.Row(r, n), S(L.Col(r, n)), Not(Eq(A.at(L.Col(r, n)), 0))))
    c.postobj('this', uint_current_state=S(A.N), uint_last_state=S(sub(A.N, 1)))
    c.phiinv('place of the symbol', 1, lambda it, x: Eq(x, mul(it, n)))
    c.doneinv('outputs of the earlier symbols', lambda it: mul(it, n))
    c.loopinv('state', lambda v, it: And(Eq(v['this'].uint_current_state, S(it)), Lt(v['this'].uint_current_state, pow2(m))))
    c.loopinv('register after a one', lambda v, it: Eq(bor(pow2(m), v['this'].uint_current_state, 32), add(v['this'].uint_current_state, pow2(m))))
    c.loopinv('register after a zero', lambda v, it: Eq(band(bxor(M32 - 1, pow2(m), 32), v['this'].uint_current_state, 32), v['this'].uint_current_state))
