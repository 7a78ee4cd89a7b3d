"""rrcosine.h, modulation.h: pulse shaping and modulation (C22, C23)"""
from . import *
from ..structs import *
def div(x, n): return L.Col(x, n) if isz(x) or isz(n) else x // n
def mod(x, n): return L.Row(x, n) if isz(x) or isz(n) else x % n
import math
from fractions import Fraction
fm, fd, fa, fs = L.f_mul, L.f_div, L.f_add, L.f_sub
FQ = lambda x: Fraction(float(x))
PI = FQ(math.pi)
HALF = Fraction(1, 2)
def uf(n, *a): return L.f_uf(n, *a)
# ---------------------------------------------------------------- rrcosine.h (C23)
P = 'C23'
def gen_rrc(g, n): return dict(l=g.r.choice([1, 2, 3, 4, 11]), al=g.r.choice([0.0, 0.25, 0.65, 1.0, g.r.random()]), n=g.r.choice([1, 3, 5, 7, 9, 21, 2, 4, 0, -1]), f=g.r.choice([0.0, 0.3, -0.4, 0.5, 0.62, -0.6, 2.0, g.r.uniform(-1.2, 1.2)]), cmat_g_T=None, mat_g_T=None)
def gen_rrcobj(g, n):
    N = g.r.choice([1, 3, 5])
    return dict(this=StructH('', dict(cmat_g_T=ConcMat('cd', N, 1, [Cx(g.elt('d'), 0.0) for _ in range(N)]), mat_g_T=ConcMat('d', N, 1, [g.elt('d') for _ in range(N)]))), f=gen_rrc(g, n)['f'], al=gen_rrc(g, n)['al'])
MS = 48
RRC = StructDef('Rrc', 'susa::rrcosine', 2 * MS, [F('cmat_g_T', 0, ('mat', 'cd')), F('mat_g_T', MS, ('mat', 'd'))], gen=lambda g: gen_rrcobj(g, 0)['this'].vals, make='new susa::rrcosine(1, 0.5, 1)')
def spectrum(f, al):
    """raised cosine: one up to (1-a)/2, zero from (1+a)/2 on, half a cosine period between"""
    x = L.f_abs(f)
    return Ite(Gt(x, fm(fa(al, Fraction(1)), HALF)), Fraction(0), Ite(Gt(x, fm(fs(Fraction(1), al), HALF)),
        fm(HALF, fa(uf('cos', fm(fd(PI, al), fs(x, fm(fs(Fraction(1), al), HALF)))), Fraction(1))), Fraction(1)))
@contract('susa::rrcosine::xrc(double, double)', 'd', 'this:Rrc f:d al:d', P, 'double ret = self.xrc(f, al);', gen=gen_rrcobj, tol=1e-12)
def xrc(c): c.ret(spectrum(c.f, c.al))
@contract('susa::rrcosine::rrcosine(unsigned int, double, int)', 'void', 'this:newRrc l:u32 al:d n:i32', P, 'susa::rrcosine self(l, al, n);', gen=gen_rrc, genp=1, tol=1e-9)
def rrc_ctor(c):
    N, l, al = c.n, c.l, c.al
    c.req(And(Gt(N, 0), Eq(L.Row(N, 2), 1)), 'a positive odd number of taps')
    h = L.Col(sub(N, 1), 2)
    def term(acc, k, i):
        m = L.i2f(sub(k, h))
        a = uf('sqrt', spectrum(fd(fm(m, L.i2f(l)), L.i2f(N)), al))
        th = fd(fm(fm(FQ(2 * math.pi), m), L.i2f(sub(i, h))), L.i2f(N))
        return eadd(acc, Cx(fm(uf('cos', th), a), fm(uf('sin', th), a)))
    G = c.fold('response', lambda i: Cx(Fraction(0), Fraction(0)), term, arity=1, cplx=True)
    E = c.fold('energy', lambda: Fraction(0), lambda acc, k: fa(acc, fm(G(k, N).re, G(sub(sub(N, 1), k), N).re)))
    c.postobj('this', cmat_g_T=(N, 1, lambda r, q: G(r, N)), mat_g_T=(N, 1, lambda r, q: fd(G(r, N).re, uf('sqrt', E(N)))))
@contract('susa::rrcosine::get()', 'mat<d>', 'this:Rrc', P, 'auto ret = self.get();')
def rrc_get(c): M = c.this.mat_g_T; c.retmat(M.R, M.C, lambda r, q: M[r, q])

# ---------------------------------------------------------------- channel.h (C21)
P = 'C21'
M32 = 1 << 32
def chan_inv(h):
    B, Pm, S, Q_ = h.uint_num_states_mem, h.uint_num_pam, h.uint_num_states, h.uint_num_taps
    return [And(Ge(h.uint_num_taps, 1), Ge(Pm, 1), Ge(B, 1), Eq(S, mul(B, Pm)), Eq(h.mat_pam.N, Pm), Eq(h.mat_taps.N, h.uint_num_taps), Eq(h.mat_taps.R, 1), Eq(h.mat_outputs.R, 1), Eq(h.mat_outputs.C, S))]
def gen_chan(g, lo=1):
    L_ = g.r.choice([k for k in (1, 2, 2, 3, 3, 4, 5) if k >= lo]); Pm = g.r.choice([1, 2, 2, 2, 3, 4])
    pam = [g.r.choice([-1.0, 1.0, 2.5, float(k), g.r.uniform(-2, 2)]) for k in range(Pm)] if g.r.random() < .5 else [float(2 * k - Pm + 1) for k in range(Pm)]
    taps = [g.r.choice([1.0, 0.5, -0.25, 0.0, g.r.uniform(-1, 1)]) for _ in range(L_)]
    mem = Pm ** (L_ - 1); S = mem * Pm
    outs = [sum(taps[k] * pam[s // Pm ** k % Pm] for k in range(L_)) for s in range(S)]
    e, eu = ConcMat('d', 0, 0, []), ConcMat('u', 0, 0, [])
    g.mem, g.pm = mem, Pm
    return dict(uint_num_taps=L_, uint_num_pam=Pm, uint_num_states=S, uint_num_states_mem=mem, mat_pam=ConcMat('d', Pm, 1, pam) if g.r.random() < .5 else ConcMat('d', 1, Pm, pam), mat_taps=ConcMat('d', 1, L_, taps), mat_main_taps=e, mat_offset_taps=e, mat_outputs=ConcMat('d', 1, S, outs), mat_source_states=eu, mat_decoded_states=eu)
CH = StructDef('Chan', 'susa::channel<double>', 16 + 7 * MS, [F('uint_num_taps', 0, 'u32'), F('uint_num_pam', 4, 'u32'), F('uint_num_states', 8, 'u32'), F('uint_num_states_mem', 12, 'u32')] +
    [F(n, 16 + MS * k, ('mat', t)) for k, (n, t) in enumerate((('mat_pam', 'd'), ('mat_taps', 'd'), ('mat_main_taps', 'd'), ('mat_offset_taps', 'd'), ('mat_outputs', 'd'), ('mat_source_states', 'u'), ('mat_decoded_states', 'u')))],
    inv=chan_inv, gen=gen_chan, make='new susa::channel<double>(susa::matrix<double>(1, 1, 1.0), susa::matrix<double>(2, 1, 1.0))')
def gen_state(lo=1):
    def gen(g, n):
        f = gen_chan(g, lo)
        return dict(this=StructH('', f), s=g.r.choice([0, g.mem - 1, g.r.randrange(g.mem), g.r.randrange(g.mem * g.pm)]), j=g.r.choice([0, g.pm - 1, g.r.randrange(g.pm)]))
    return gen
def digits(c, h): return c.fold('digits', lambda s: Ite(And(Ge(s, 0), Lt(s, M32)), s, 0), lambda acc, k, s: div(acc, h.uint_num_pam), arity=1, sort='i', rng=(0, M32 - 1))
def upow(c, b): return c.fold('upow', lambda: 1, lambda acc, k: L.IntMod(mul(acc, b), M32), sort='i', rng=(0, M32 - 1))
def digit(c, D, h, s, k): return h.mat_pam.at(mod(D(s, k), h.uint_num_pam))
def valid(c, h, s, full=False): c.pre(Lt(s, h.uint_num_states if full else h.uint_num_states_mem), 'a state of the trellis')
def depth(c, h): c.pre(Eq(upow(c, h.uint_num_pam)(sub(h.uint_num_taps, 1)), h.uint_num_states_mem), 'one state for every content of the memory')
@contract('susa::channel<double>::next_state(unsigned int, unsigned int)', 'u32', 'this:Chan s:u32 j:u32', P, 'auto ret = self.next_state(s, j);', gen=gen_state())
def ch_next(c):
    h = c.this; valid(c, h, c.s); depth(c, h); c.pre(Lt(c.j, h.uint_num_pam), 'a symbol of the alphabet')
    c.ret(mod(add(mul(c.s, h.uint_num_pam), c.j), h.uint_num_states_mem))
def lem_inverse():
    s, P_, B, i, q, r, k, t = z3.Ints('s P B i q r k t')
    return [('a previous state followed by the oldest symbol of the state leads to the state: the product', z3.Implies(s == q * P_ + r, (q + i * B) * P_ + r == s + i * (B * P_))),
            ('a previous state followed by the oldest symbol of the state leads to the state: the remainder', z3.Implies(z3.And(0 <= s, s < B, s + i * B == k * B + t, 0 <= t, t < B), t == s))]
@contract('susa::channel<double>::prev_states(unsigned int)', 'mat<u>', 'this:Chan s:u32', P, 'auto ret = self.prev_states(s);', gen=gen_state(2), lemmas=lem_inverse)
def ch_prev(c):
    h = c.this; valid(c, h, c.s); depth(c, h); c.pre(Ge(h.uint_num_taps, 2), 'a channel with memory')
    B = upow(c, h.uint_num_pam)(sub(h.uint_num_taps, 2))
    c.pre(Eq(mul(B, h.uint_num_pam), h.uint_num_states_mem), 'one state for every content of the memory')
    pv = lambda i: add(div(c.s, h.uint_num_pam), mul(i, B))
    c.retmat(h.uint_num_pam, 1, lambda r, q: pv(r))
@contract('susa::channel<double>::next_output(unsigned int, unsigned int)', 'd', 'this:Chan s:u32 j:u32', P, 'auto ret = self.next_output(s, j);', gen=gen_state())
def ch_out(c):
    h = c.this; valid(c, h, c.s); c.pre(Lt(c.j, h.uint_num_pam), 'a symbol of the alphabet')
    c.ret(h.mat_outputs.at(add(mul(c.s, h.uint_num_pam), c.j)))
@contract('susa::channel<double>::get_full_state(unsigned int)', 'mat<d>', 'this:Chan s:u32', P, 'auto ret = self.get_full_state(s);', gen=gen_state())
def ch_full(c):
    h = c.this; D = digits(c, h)
    c.retmat(h.uint_num_taps, 1, lambda r, q: digit(c, D, h, c.s, r))
@contract('susa::channel<double>::get_mem_state(unsigned int)', 'mat<d>', 'this:Chan s:u32', P, 'auto ret = self.get_mem_state(s);', gen=gen_state(2))
def ch_mem(c):
    h = c.this; D = digits(c, h); c.pre(Ge(h.uint_num_taps, 2), 'a channel with memory')
    c.retmat(sub(h.uint_num_taps, 1), 1, lambda r, q: digit(c, D, h, c.s, r))
def gen_ctor(g, n):
    f = gen_chan(g)
    return dict(A=f['mat_taps'] if g.r.random() < .9 else ConcMat('d', f['mat_taps'].N, 1, f['mat_taps'].data), B=f['mat_pam'])
@contract('susa::channel<double>::channel(susa::matrix<double> const&, susa::matrix<double> const&)', 'void', 'this:newChan A:cmat<d> B:cmat<d>', P, 'susa::channel<double> self(A, B);', heavy=True, gen=gen_ctor, genp=1, tol=1e-9)
def ch_ctor(c):
    A, B = c.A, c.B; n = A.N
    c.pre(And(Gt(A.N, 0), Gt(B.N, 0), Lt(A.N, M32), Lt(B.N, M32)), 'taps and alphabet are not empty')
    W = upow(c, B.N)
    c.pre(Q(['k'], lambda k: (And(Ge(k, 0), Lt(k, n)), And(Ge(W(k), 1), Lt(mul(W(k), B.N), M32)), [W(k)])) if c.mode != 'conc' else B.N ** n < M32, 'fewer than 2^32 states')
    c.pre(And(Ge(W(n), 1), Lt(W(n), M32), Lt(W(sub(n, 1)), M32), Eq(W(n), mul(W(sub(n, 1)), B.N)), Ge(W(sub(n, 1)), 1)), 'fewer than 2^32 states')
    c.req(Eq(A.R, 1), 'the taps are a row')
    h = StructH('', dict(uint_num_pam=B.N, mat_pam=B))
    D = digits(c, h)
    if c.mode != 'conc': c.auxspecs = [(n, W(n), lambda r, q: digit(c, D, h, q, r), 'd')]
    O = c.fold('output', lambda s: Fraction(0), lambda acc, k, s: fa(acc, fm(A[0, k], digit(c, D, h, s, k))), arity=1)
    c.postobj('this', uint_num_taps=n, uint_num_pam=B.N, uint_num_states=W(n), uint_num_states_mem=W(sub(n, 1)), mat_pam=(B.R, B.C, lambda r, q: B[r, q]), mat_taps=(A.R, A.C, lambda r, q: A[r, q]), mat_main_taps=None, mat_offset_taps=None, mat_source_states=None, mat_decoded_states=None,
        mat_outputs=(A.R, W(n), lambda r, q: O(q, n)))
TRELLIS = 'optimality over all symbol sequences; no contract within reach of the generator'
def gen_enc(g, n):
    f = gen_chan(g, 2); k = g.r.choice([1, 2, 3, 5, 8, 20]); B = g.mem
    return dict(this=StructH('', f), x=ConcMat('d', k, 1, [g.r.choice(f['mat_pam'].data) if g.r.random() < .7 else g.elt('d') for _ in range(k)]), s=g.r.choice([0, B - 1, g.r.randrange(B)]))
@contract('susa::channel<double>::encode_isi(susa::matrix<double> const&, unsigned int)', 'mat<d>', 'this:Chan x:cmat<d> s:u32', P, 'auto ret = self.encode_isi(x, s);', heavy=True, gen=gen_enc, tol=1e-9)
def ch_enc(c):
    """the sequence: the memory, oldest symbol first, the symbols, the memory again"""
    h, x = c.this, c.x; valid(c, h, c.s); depth(c, h); c.pre(Ge(h.uint_num_taps, 2), 'a channel with memory')
    c.pre(And(Eq(x.C, 1), Ge(x.R, 1), Lt(x.R, 1 << 62)), 'a column of symbols')
    l = sub(h.uint_num_taps, 1); n = x.R; D = digits(c, h)
    mem = lambda i: digit(c, D, h, c.s, i)
    seq = lambda i: eite(Lt(i, l), mem(sub(sub(l, 1), i)), eite(Lt(i, add(l, n)), x.at(sub(i, l)), mem(sub(sub(add(add(l, l), n), 1), i))))
    m = add(add(l, l), n); c.fits(add(m, l), 1, 'd')
    Y = c.fold('convolved', lambda i: Fraction(0), lambda acc, k, i: eadd(acc, emul(eite(And(Ge(i, k), Lt(i, add(m, k))), seq(sub(i, k)), Fraction(0)), h.mat_taps.at(k))), arity=1)
    c.retmat(add(n, l), 1, lambda r, q: Y(add(r, l), h.uint_num_taps))
def gen_mlse(g, n):
    f = None
    while f is None or len(set(f['mat_pam'].data)) != len(f['mat_pam'].data) or g.mem > 64: f = gen_chan(g, 2)
    L_, Pm, mem = f['uint_num_taps'], g.pm, g.mem; s = g.r.choice([0, mem - 1, g.r.randrange(mem)])
    k = g.r.choice([j for j in (1, 2, 3, 4, 6) if Pm ** j <= 256]); x = [g.r.randrange(Pm) for _ in range(k)]
    st = s; y = []
    tail = [s // Pm ** j % Pm for j in range(L_ - 1)][::-1]
    sig = g.r.choice([0.0, 0.1, 0.5, 2.0])
    for u in x + tail: y.append(f['mat_outputs'].data[st * Pm + u] + g.r.gauss(0, 1) * sig); st = (st * Pm + u) % mem
    return dict(this=StructH('', f), y=ConcMat('d', len(y), 1, y), s=s)
@contract('susa::channel<double>::decode_mlse(susa::matrix<double> const&, unsigned int)', 'mat<d>', 'this:Chan y:cmat<d> s:u32', P, 'auto ret = self.decode_mlse(y, s);', gen=gen_mlse, bounded_only=TRELLIS, bounded_cases=60)
def ch_mlse(c):
    h, y = c.this, c.y; valid(c, h, c.s); depth(c, h); c.pre(Ge(h.uint_num_taps, 2), 'a channel with memory')
    c.pre(And(Eq(y.C, 1), Gt(y.R, sub(h.uint_num_taps, 1))), 'a column longer than the memory')
    if c.mode != 'conc': return
    pam = [h.mat_pam.at(k) for k in range(h.mat_pam.N)]; Pm, mem, L_ = len(pam), h.uint_num_states_mem, h.uint_num_taps
    c.pre(len(set(pam)) == Pm, 'distinct symbols')
    n = y.N - L_ + 1; out = [float(v) for v in h.mat_outputs.data]; obs = [float(y.at(k)) for k in range(y.N)]
    def cost(forced):
        """least distance of a path from s back to s whose first symbols are given"""
        m = {c.s: 0.0}
        for k in range(y.N):
            nx = {}
            for st, v in m.items():
                for u in ([forced[k]] if k < len(forced) else range(Pm)):
                    t = (st * Pm + u) % mem; w = v + (out[st * Pm + u] - obs[k]) ** 2
                    if t not in nx or w < nx[t]: nx[t] = w
            m = nx
        return m.get(c.s)
    best = cost([])
    c.retmat(n, 1, None)
    def ok(r):
        try: f = [pam.index(r.at(k)) for k in range(n)]
        except ValueError: return False
        v = cost(f)
        return v is not None and v <= best + 1e-9 * (1 + best)
    c.ens(lambda r: ok(r), 'the symbols lie on a path of least distance')

# ---------------------------------------------------------------- modulation.h (C22)
P = 'C22'
@contract('susa::bpsk(susa::matrix<unsigned char> const&)', 'mat<i8>', 'A:cmat<u8>', P, 'auto ret = susa::bpsk(A);', empty='reject')
def bpsk(c): A = c.A; c.retmat(A.R, A.C, lambda r, q: Ite(Eq(A[r, q], 0), -1, 1))
def axis(i, p): return fs(L.i2f(i), fd(fs(L.i2f(p), Fraction(1)), Fraction(2)))
def gen_m(g, n): return dict(m=g.r.choice([4, 4, 9, 16, 16, 25, 36, 49, 64, 64, 100, 256, 1024]))
def gen_qam(g, n):
    m = gen_m(g, n)['m']; p = math.isqrt(m); ax = [i - (p - 1) / 2 for i in range(p)]
    s = [Cx(ax[i], ax[j]) for j in range(p) for i in range(p)]; es = sum(z.re ** 2 + z.im ** 2 for z in s) / m; b = m.bit_length() - 1
    x = g.r.choice(s); k = g.r.choice([0.0, 0.2, 0.49, 1.5])
    return dict(this=StructH('', dict(dbl_es=es, dbl_eb=es / b, uint_bps=b, uint_m=m, mat_s=ConcMat('cd', p, p, s), mat_axis=ConcMat('cd', p, 1, [Cx(v, v) for v in ax]))), z=Cx(x.re + k * g.r.uniform(-1, 1), x.im + k * g.r.uniform(-1, 1)), x=g.r.choice([0.0, 3.0, -2.5, 10.0]))
QAM = StructDef('Qam', 'susa::qam', 24 + 2 * MS, [F('dbl_es', 0, 'd'), F('dbl_eb', 8, 'd'), F('uint_bps', 16, 'u32'), F('uint_m', 20, 'u32'), F('mat_s', 24, ('mat', 'cd')), F('mat_axis', 24 + MS, ('mat', 'cd'))],
    inv=lambda h: [And(Gt(h.uint_m, 0), Eq(h.mat_s.N, h.uint_m))], gen=lambda g: gen_qam(g, 0)['this'].vals, make='new susa::qam(4)')
@contract('susa::qam::qam(unsigned int)', 'void', 'this:newQam m:u32', P, 'susa::qam self(m);', gen=gen_m, genp=1, tol=1e-9)
def qam_ctor(c):
    m = c.m
    if c.mode == 'conc':
        p = math.isqrt(m); c.pre(p * p == m and m > 1, 'a square number of points')
        s = lambda i, j: Cx(axis(i, p), axis(j, p))
        es = sum(float(axis(i, p)) ** 2 + float(axis(j, p)) ** 2 for i in range(p) for j in range(p)) / m
        c.postobj('this', dbl_es=es, dbl_eb=es / (m.bit_length() - 1), uint_bps=m.bit_length() - 1, uint_m=m, mat_s=(p, p, s), mat_axis=(p, 1, lambda r, q: Cx(axis(r, p), axis(r, p))))
        return
    root = uf('sqrt', L.i2f(m)); p = L.f2i(root)
    c.pre(And(Gt(m, 1), Gt(p, 1), Lt(p, 1 << 16), Eq(L.i2f(p), root), Eq(mul(p, p), m), Eq(fd(L.i2f(m), root), root)), 'a square number of points')
    E1 = c.fold('column energy', lambda j: Fraction(0), lambda acc, i, j: fa(acc, fa(fm(axis(i, p), axis(i, p)), fm(axis(j, p), axis(j, p)))), arity=1)
    E2 = c.fold('energy', lambda: Fraction(0), lambda acc, j: fa(acc, E1(j, p)))
    es = fd(E2(p), L.i2f(m))
    c.postobj('this', dbl_es=es, dbl_eb=ANY, uint_bps=ANY, uint_m=m, mat_s=(p, p, lambda i, j: Cx(axis(i, p), axis(j, p))), mat_axis=(p, 1, lambda r, q: Cx(axis(r, p), axis(r, p))))
    c.auxspecs = [(p, p, lambda i, j: fa(fm(axis(i, p), axis(i, p)), fm(axis(j, p), axis(j, p))), 'd'), (1, p, lambda r, j: E1(j, p), 'd')]
    c.ens(lambda r, po: [Eq(po['this'].dbl_eb, fd(es, L.i2f(po['this'].uint_bps)))] + [Implies(And(Le(1 << k, m), Lt(m, 1 << (k + 1))), Eq(po['this'].uint_bps, k)) for k in range(1, 32)], 'energy per bit')
def lem_qam():
    i, j, p = z3.Reals('i j p'); n, k, F_ = z3.Ints('n k F'); d = z3.Function('lem_d', z3.IntSort(), z3.RealSort()); re = z3.Function('lem_re', z3.IntSort(), z3.RealSort()); im = z3.Function('lem_im', z3.IntSort(), z3.RealSort())
    x = z3.Int('x')
    return [('different positions on an axis are different amplitudes', z3.Implies(i - (p - 1) / 2 == j - (p - 1) / 2, i == j)),
            ('neighbouring amplitudes are one apart', (i + 1) - (p - 1) / 2 - (i - (p - 1) / 2) == 1),
            ('a point of the constellation is nearest to itself', z3.Implies(z3.And(0 <= F_, F_ < n, 0 <= k, k < n, z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < n), z3.And(d(F_) <= d(x), d(x) >= 0, (d(x) == 0) == z3.And(re(x) == re(k), im(x) == im(k)))))), z3.And(re(F_) == re(k), im(F_) == im(k))))]
@contract('susa::qam::demodulate_symbol(std::complex<double>)', 'cd', 'this:Qam z:cd', P, 'auto ret = self.demodulate_symbol(z);', gen=gen_qam, genp=1, lemmas=lem_qam)
def qam_demod(c):
    h, z = c.this, c.z; s = h.mat_s
    d = lambda k: uf('cabs', fs(z.re, s.at(k).re), fs(z.im, s.at(k).im))
    F_ = c.fold('nearest', lambda: 0, lambda acc, k: Ite(Lt(d(k), d(acc)), k, acc), sort='i')
    if c.mode != 'conc': c.auxspecs = [(h.uint_m, 1, lambda r, q: d(r), 'd')]
    c.ret(s.at(F_(h.uint_m)))
@contract('susa::qam::get_noise_deviation(double)', 'd', 'this:Qam x:d', P, 'double ret = self.get_noise_deviation(x);', gen=gen_qam, tol=1e-9)
def qam_dev(c): c.ret(uf('sqrt', fm(fm(Fraction(1, 2), c.this.dbl_eb), uf('pow', Fraction(10), L.f_neg(fd(c.x, Fraction(10)))))))
@contract('susa::qam::get_constellation()', 'mat<cd>', 'this:Qam', P, 'auto ret = self.get_constellation();')
def qam_get(c): M = c.this.mat_s; c.retmat(M.R, M.C, lambda r, q: M[r, q])
