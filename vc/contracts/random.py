"""mt.h, rng.h: the MT19937 sequence (C24) and the ranges of the draws (C25)"""
from . import *
from ..structs import *
from .bits import *
from fractions import Fraction
import z3
M32 = 1 << 32
# ---- the reference sequence.  SEED(s, i): word i of the state initialised from seed s.
def seed_defs(t, s, i):
    p = SEED(s, sub(i, 1))
    return [Implies(Le(i, 0), Eq(t, mod(s, M32))), Implies(Gt(i, 0), Eq(t, mod(add(mul(1812433253, bxor(p, shr(p, 30), 32)), i), M32)))]
_seed = {}
def seed_conc(s, i):
    l = _seed.setdefault(s, [s % M32])
    while len(l) <= i: p = l[-1]; l.append((1812433253 * (p ^ p >> 30) + len(l)) % M32)
    return l[max(i, 0)]
SEED = Seq('mt_seed', 2, (0, M32 - 1), seed_defs, seed_conc)
# WORD(g, i): word i of the untempered sequence g; the streams g < 2^32 start from seed g, the others from any 624 words
def twist(a, b, c):
    """next word from words i, i+1, i+397"""
    y = bor(mul(1 << 31, shr(a, 31)), mod(b, 1 << 31), 32)
    return bxor(bxor(c, shr(y, 1), 32), Ite(Eq(mod(y, 2), 0), 0, 0x9908b0df), 32)
def word_defs(t, g, i):
    return [Implies(And(Lt(g, M32), Lt(i, 624), Ge(i, 0)), Eq(t, SEED(g, i))),
            Implies(Ge(i, 624), Eq(t, twist(WORD(g, sub(i, 624)), WORD(g, sub(i, 623)), WORD(g, sub(i, 227)))))]
_streams = []; _gen = {}
def word_conc(g, i):
    l = _gen.get(g)
    if l is None: l = _gen[g] = [seed_conc(g, k) for k in range(624)] if g < M32 else list(_streams[g - M32])
    while len(l) <= i:
        n = len(l); y = l[n - 624] & 0x80000000 | l[n - 623] & 0x7fffffff
        l.append(l[n - 227] ^ y >> 1 ^ (0x9908b0df if y & 1 else 0))
    return l[i]
def stream(words): _streams.append(list(words)); return M32 + len(_streams) - 1
WORD = Seq('mt_word', 2, (0, M32 - 1), word_defs, word_conc)
def temper(y):
    y = bxor(y, shr(y, 11), 32)
    y = bxor(y, band(mod(mul(1 << 7, y), M32), 0x9d2c5680, 32), 32)
    y = bxor(y, band(mod(mul(1 << 15, y), M32), 0xefc60000, 32), 32)
    return bxor(y, shr(y, 18), 32)
P, P2 = 'C24', 'C25'
ALLP = (P, P2)
# ---- generator objects: ghost g names the stream, ghost p the position in it of the next word to be output
def state_inv(words, index, fresh):
    def inv(h):
        A = h.vals[words]; m = h.vals[index]
        out = [And(Ge(m, 0), Le(m, 625 if fresh else 624), Ge(h.p, m) if not fresh else Or(Ge(h.p, m), Eq(m, 625)))]
        if fresh: out.append(Implies(Eq(m, 625), And(Eq(h.p, 624), Eq(h.g, 5489))))
        out.append(Q(['k'], lambda k: (And(Le(m, 624), Ge(k, 0), Lt(k, 624)), Eq(A.at(k), WORD(h.g, add(sub(h.p, m), k))), [A.at(k)])))
        return out
    return inv
def gen_words(g, size, words, index):
    m = g.r.choice([0, 1, 226, 227, 396, 397, 622, 623, 624, 624, 625] if size == 625 else [0, 1, 226, 397, 622, 623, 624, 624])
    if m == 625: return {words: ConcMat('u', 624, 1, [g.r.choice([0, M32 - 1, g.r.getrandbits(32)]) for _ in range(624)]), index: m, 'g': 5489, 'p': 624}
    w = [g.r.choice([0, 1, M32 - 1, 1 << 31, g.r.getrandbits(32), g.r.getrandbits(32), g.r.getrandbits(32)]) for _ in range(624)]
    return {words: ConcMat('u', 624, 1, w), index: m, 'g': stream(w), 'p': m}
def gen_mt(g): return gen_words(g, 625, 'uint_mt', 'mti')
def gen_rng(g): return gen_words(g, 624, 'MT', 'uint_index')
def ghosts(words, index): return [F('g', 1 << 20, 'u64', ghost=lambda h: 5489 if h.vals[index] == 625 else stream(h.vals[words].data), init=5489), F('p', (1 << 20) + 8, 'u64', ghost=lambda h: min(h.vals[index], 624), init=624)]
# the members the draws do not touch are left out: reading them fails verification
MT = StructDef('Mt', 'susa::mt', 160, [F('uint_mt', 144, ('heap', 'u', lambda h: 624)), F('mti', 152, 'i32')] + ghosts('uint_mt', 'mti'),
    inv=state_inv('uint_mt', 'mti', True), gen=gen_mt, make='new susa::mt()', pattern='$^')
MT.counts_cpp = {'uint_mt': '(size_t)624'}
MTX = StructDef('MtX', 'susa::mt', 160, [F('mat_probabilities', 0, ('mat', 'd'), hidden=True), F('mat_sort_indices', 48, ('mat', 'u'), hidden=True), F('mat_prob_sorted', 96, ('mat', 'd'), hidden=True)] + MT.fields,
    inv=MT.inv, gen=gen_mt, make=MT.make)
MTX.counts_cpp = MT.counts_cpp
RNG = StructDef('Rng', 'susa::rng', 2500, [F('MT', 0, ('arr', 'u', 624)), F('uint_index', 2496, 'u16')] + ghosts('MT', 'uint_index'),
    inv=state_inv('MT', 'uint_index', False), gen=gen_rng, make='new susa::rng()')
def empty3(): return dict(mat_probabilities=None, mat_sort_indices=None, mat_prob_sorted=None)
def gen_seed(g, n): return dict(seed=g.r.choice([0, 1, 5489, M32 - 1, 1 << 31, g.r.getrandbits(32)]))
def seeded(c, words, index, seed, **kw):
    """the state after seeding: stream `seed`, whose first output is word 624"""
    c.postobj('this', **{words: ANY, index: 624, 'g': seed, 'p': 624}, **kw)
    if words == 'MT': c.loopinv('words initialised so far', lambda v, it: Q(['k'], lambda k: (And(Ge(k, 0), Le(k, it)), Eq(v['this'].MT.at(k), SEED(seed, k)), [v['this'].MT.at(k)])))
@contract('susa::mt::mt()', 'void', 'this:newMtX', ALLP, 'susa::mt self;')
def mt_ctor0(c): c.postobj('this', uint_mt=ANY, mti=625, g=5489, p=624, **empty3())
@contract('susa::mt::mt(unsigned int)', 'void', 'this:newMtX seed:u32', ALLP, 'susa::mt self(seed);', gen=gen_seed)
def mt_ctor(c): seeded(c, 'uint_mt', 'mti', c.seed, **empty3())
@contract('susa::mt::~mt()', 'void', 'this:deadMtX', P)
def mt_dtor(c): pass
def gen_init(k, f): return lambda g, n: dict(this=StructH('', f(g)), **gen_seed(g, n))
@contract('susa::mt::init_genrand(unsigned int)', 'void', 'this:Mt seed:u32', ALLP, 'self.init_genrand(seed);', gen=gen_init('Mt', gen_mt))
def mt_init(c):
    seeded(c, 'uint_mt', 'mti', c.seed)
    c.loopinv('index', lambda v, it: And(Eq(v['this'].mti, add(it, 1)), Le(v['this'].mti, 624)))
    c.loopinv('words initialised so far', lambda v, it: Q(['k'], lambda k: (And(Ge(k, 0), Lt(k, v['this'].mti)), Eq(v['this'].uint_mt.at(k), SEED(c.seed, k)), [v['this'].uint_mt.at(k)])))
# any state may be seeded, also that of an object under construction
@contract('susa::rng::init(unsigned int)', 'void', 'this:newRng seed:u32', ALLP, 'susa::rng self(9); self.rand(1 + seed % 1000); self.init(seed);', gen=gen_seed)
def rng_init(c): seeded(c, 'MT', 'uint_index', c.seed)
@contract('susa::rng::rng()', 'void', 'this:newRng', ALLP, 'susa::rng self;')
def rng_ctor0(c): seeded(c, 'MT', 'uint_index', 5489)
@contract('susa::rng::rng(unsigned int)', 'void', 'this:newRng seed:u32', ALLP, 'susa::rng self(seed);', gen=gen_seed)
def rng_ctor(c): seeded(c, 'MT', 'uint_index', c.seed)
def refill_inv(c, words, g, e):
    """words regenerated so far, the rest as before; e: position of the first of the old words"""
    at = lambda v, k: v['this'].vals[words].at(k)
    nxt = lambda v, k: Eq(at(v, k), WORD(g, add(e, 624, k))); old = lambda v, k: Eq(at(v, k), WORD(g, add(e, k)))
    c.loopinv('first words regenerated', lambda v, it: Q(['k'], lambda k: (And(Ge(k, 0), Lt(k, 624)), Ite(Lt(k, it), nxt(v, k), old(v, k)), [at(v, k)])))
    if words == 'uint_mt': c.loopinv('words after 227 regenerated', lambda v, it: Q(['k'], lambda k: (And(Ge(k, 0), Lt(k, 624)), Ite(Lt(k, add(227, it)), nxt(v, k), old(v, k)), [at(v, k)])))
class Mt: cls, kind, words, index, gen = 'susa::mt', 'Mt', 'uint_mt', 'mti', gen_mt
class Rng: cls, kind, words, index, gen = 'susa::rng', 'Rng', 'MT', 'uint_index', gen_rng
def draws(c, G, n=1):
    """n draws: the outputs are the tempered words from the current position on, which advances by n"""
    s = c.this; p = s.p; g = s.g
    c.postobj('this', **{G.words: ANY, G.index: ANY, 'p': add(p, n)})
    D = StructDef.reg[G.kind]
    for k in range(3 if G is Mt else 2): c.loopinv('object invariant %d' % k, lambda v, it, k=k: D.inv(v['this'])[k])
    c.loopinv('draws so far', lambda v, it: And(Eq(v['this'].p, add(p, it)), Eq(v['this'].g, g)))
    return lambda k: temper(WORD(g, add(p, k)))
def one(c, G): return draws(c, G)(0)
@contract('susa::mt::genrand_int32()', 'u32', 'this:Mt', ALLP, 'auto ret = self.genrand_int32();')
def mt_int32(c):
    s = c.this; m = s.mti
    if c.branch(Ge(m, 624)): refill_inv(c, 'uint_mt', s.g, sub(s.p, 624))
    c.ret(one(c, Mt))
@contract('susa::rng::generate_numbers()', 'void', 'this:Rng', ALLP, 'self.generate_numbers();', inline=True)
def rng_refill(c):
    s = c.this; c.pre(Eq(s.uint_index, 624), 'every word has been output')
    refill_inv(c, 'MT', s.g, sub(s.p, 624))
    c.postobj('this', MT=ANY, p=add(s.p, 624))
@contract('susa::rng::extract_number()', 'u32', 'this:Rng', ALLP, 'auto ret = self.extract_number();')
def rng_extract(c):
    s = c.this; refill_inv(c, 'MT', s.g, sub(s.p, 624))
    c.ret(one(c, Rng))
# ---- real outputs
INV32 = Fraction(1.0 / 4294967295.0); INV32B = Fraction(1, 1 << 32); INV53 = Fraction(1, 1 << 53)
def unit(x): return L.f_mul(L.i2f(x), INV32)
@contract('susa::mt::genrand_int31()', 'u32', 'this:Mt', P, 'auto ret = self.genrand_int31();')
def mt_int31(c): c.ret(shr(one(c, Mt), 1))
@contract('susa::mt::genrand_real1()', 'd', 'this:Mt', ALLP, 'auto ret = self.genrand_real1();')
def mt_real1(c): c.ret(unit(one(c, Mt)))
@contract('susa::mt::genrand_real2()', 'd', 'this:Mt', ALLP, 'auto ret = self.genrand_real2();')
def mt_real2(c): c.ret(L.f_mul(L.i2f(one(c, Mt)), INV32B))
@contract('susa::mt::genrand_real3()', 'd', 'this:Mt', ALLP, 'auto ret = self.genrand_real3();')
def mt_real3(c): c.ret(real3(one(c, Mt)))
def real3(x): return L.f_mul(L.f_add(L.i2f(x), Fraction(1, 2)), INV32B)
@contract('susa::mt::genrand_res53()', 'd', 'this:Mt', ALLP, 'auto ret = self.genrand_res53();')
def mt_res53(c):
    d = draws(c, Mt, 2)
    c.ret(L.f_mul(L.f_add(L.f_mul(L.i2f(shr(d(0), 5)), Fraction(67108864)), L.i2f(shr(d(1), 6))), INV53))
def gen_n(G, **kw): return lambda g, n: dict(this=StructH('', G.gen(g)), n=g.r.choice([0, 1, 2, 3, 7, 30, g.r.randint(0, 700)] if not g.large else [650, 1300]), mask=g.r.choice([0, 1, 255, M32 - 1, g.r.getrandbits(32)]))
def scaled(x): return L.f_div(L.i2f(x), Fraction(M32 - 1))
def range_lemmas():
    """bounds of the scaled outputs over the reals, for every 32-bit word; rounding to nearest is monotone and keeps them"""
    x, y = z3.Ints('x y'); X = z3.ToReal(x); q = lambda f: z3.Q(f.numerator, f.denominator)
    w = lambda v: z3.And(v >= 0, v < M32)
    def al(h, c): return z3.ForAll([x, y], z3.Implies(h, c))
    return [('genrand_real1 and rand: x/(2^32-1) is in [0, 1 + 2^-53], which rounds into [0, 1]', al(w(x), z3.And(X * q(INV32) >= 0, X * q(INV32) <= 1 + q(INV53)))),
            ('genrand_real2: x*2^-32 is in [0, 1)', al(w(x), z3.And(X * q(INV32B) >= 0, X * q(INV32B) < 1))),
            ('genrand_real3: (x + 1/2)*2^-32 is in (0, 1)', al(w(x), z3.And((X + q(Fraction(1, 2))) * q(INV32B) > 0, (X + q(Fraction(1, 2))) * q(INV32B) < 1))),
            ('genrand_res53: (a*2^26 + b)*2^-53 is in [0, 1) for a < 2^27, b < 2^26, and the numerator is below 2^53', al(z3.And(x >= 0, x < 1 << 27, y >= 0, y < 1 << 26), z3.And((X * (1 << 26) + z3.ToReal(y)) * q(INV53) >= 0, (X * (1 << 26) + z3.ToReal(y)) * q(INV53) < 1, x * (1 << 26) + y < 1 << 53))),
            ('rng::rand: x/(2^32-1) is in [0, 1]', al(w(x), z3.And(X / (M32 - 1) >= 0, X / (M32 - 1) <= 1)))]
@contract('susa::rng::rand()', 'd', 'this:Rng', ALLP, 'auto ret = self.rand();', lemmas=range_lemmas)
def rng_rand(c): c.ret(scaled(one(c, Rng)))
@contract('susa::rng::get_double()', 'd', 'this:Rng', ALLP, 'auto ret = self.get_double();')
def rng_get(c): c.ret(scaled(one(c, Rng)))
def within(c, lo, hi): c.ens(lambda r, po: And(Ge(r, lo), Le(r, hi)), 'within the documented range')
def in_vec(c, n, hi, val):
    """val(k): the element the result is required to hold"""
    c.ens(lambda r, po: Q(['k'], lambda k: (And(Ge(k, 0), Lt(k, n)), And(Ge(val(k), 0), Le(val(k), hi)), [])), 'the specified elements are within the documented range')
def family(G):
    one_arg = lambda **kw: (lambda g, n: dict(this=StructH('', G.gen(g)), mask=g.r.choice([0, 1, 255, M32 - 1, g.r.getrandbits(32)]), top=g.r.choice([1, 2, 10, M32 - 1, g.r.getrandbits(32) | 1]), prob=g.r.choice([0.0, 1.0, 0.5, g.r.random()])))
    @contract(G.cls + '::rand_mask(unsigned int)', 'u32', 'this:%s mask:u32' % G.kind, ALLP, 'auto ret = self.rand_mask(mask);', gen=one_arg())
    def f(c):
        c.ret(band(one(c, G), c.mask, 32)); within(c, 0, c.mask)
    @contract('%s::rand_mask(unsigned int, unsigned int)' % G.cls, 'mat<u>', 'this:%s mask:u32 n:u32' % G.kind, ALLP, 'auto ret = self.rand_mask(mask, n);', gen=gen_n(G))
    def f(c):
        c.req(Gt(c.n, 0), 'at least one sample'); d = draws(c, G, c.n)
        v = lambda k: band(d(k), c.mask, 32); c.retmat(c.n, 1, lambda r, _: v(r)); in_vec(c, c.n, c.mask, v)
    @contract('%s::rand(unsigned int)' % G.cls, 'mat<d>', 'this:%s n:u32' % G.kind, ALLP, 'auto ret = self.rand(n);', gen=gen_n(G))
    def f(c):
        c.req(Gt(c.n, 0), 'at least one sample'); d = draws(c, G, c.n)
        c.retmat(c.n, 1, lambda r, _: (unit if G is Mt else scaled)(d(r)))
    if G is Mt:
        @contract('susa::mt::bernoulli(double)', 'u32', 'this:Mt prob:d', ALLP, 'auto ret = self.bernoulli(prob);', gen=one_arg())
        def f(c): c.ret(Ite(Le(real3(one(c, Mt)), c.prob), 1, 0)); within(c, 0, 1)
        @contract('susa::mt::randint(unsigned int)', 'u32', 'this:Mt top:u32', ALLP, 'auto ret = self.randint(top);', gen=one_arg())
        def f(c):
            c.pre(Ge(c.top, 1), 'a non-empty range')
            c.ret(add(L.Row(one(c, Mt), c.top), 1)); within(c, 1, c.top)
family(Mt); family(Rng)
@contract('susa::rng::rand(unsigned int, unsigned int)', 'mat<d>', 'this:Rng R:u32 C:u32', ALLP, 'auto ret = self.rand(R, C);',
    gen=lambda g, n: dict(this=StructH('', gen_rng(g)), R=g.r.choice([0, 1, 2, 5, 30]), C=g.r.choice([0, 1, 2, 25])))
def rng_rand2(c):
    c.req(And(Gt(c.R, 0), Gt(c.C, 0)), 'both dimensions are positive'); c.pre(Lt(mul(c.R, c.C), M32), 'fewer than 2^32 elements')
    d = draws(c, Rng, mul(c.C, c.R))
    c.retmat(c.R, c.C, lambda r, k: scaled(d(lin(r, k, c.R))))
@contract('susa::rng::bernoulli(unsigned long)', 'mat<i8>', 'this:Rng n:u64', ALLP, 'auto ret = self.bernoulli(n);', gen=gen_n(Rng))
def rng_bernoulli(c):
    c.req(Gt(c.n, 0), 'at least one sample'); c.pre(Lt(c.n, M32), 'fewer than 2^32 elements')
    d = draws(c, Rng, c.n)
    v = lambda k: mod(d(k), 2); c.retmat(c.n, 1, lambda r, _: v(r)); in_vec(c, c.n, 1, v)
