"""fft.h: discrete Fourier transforms (C18)"""
from . import *
from ..structs import *
from .bits import *
from .comm import fm, fd, fa, fs, uf, FQ
import math
P = 'C18'
FFT = StructDef('Fft', 'susa::fft<double>', 1, [], make='new susa::fft<double>()', gen=lambda g: {})
M_ = 'susa::fft<double, std::allocator<double>, void>::'
W = FQ(-2 * math.pi)
def dft_sum(c, X, N):
    """X[k] = sum over n of x[n] exp(-2 pi i n k / N)"""
    def term(acc, n, k):
        th = fd(fm(fm(W, L.i2f(n)), L.i2f(k)), L.i2f(N))
        return eadd(acc, Cx(fm(uf('cos', th), X(n)), fm(uf('sin', th), X(n))))
    return c.fold('dft', lambda k: Cx(Fraction(0), Fraction(0)), term, arity=1, cplx=True)
@contract(M_ + 'vector_dft(susa::matrix<double> const&)', 'mat<cd>', 'this:Fft A:cmat<d>', P, 'auto ret = self.vector_dft(A);', empty='reject', heavy=True, tol=1e-9)
def vdft(c):
    A = c.A; F_ = dft_sum(c, lambda n: A.at(n), A.N)
    c.retmat(A.R, A.C, lambda r, q: F_(lin(r, q, A.R), A.N))
@contract(M_ + 'dft(susa::matrix<double> const&)', 'mat<cd>', 'this:Fft A:cmat<d>', P, 'auto ret = self.dft(A);', empty='reject', heavy=True, tol=1e-9, induct=True)
def dft(c):
    A = c.A
    if c.branch(A.isvec):
        F_ = dft_sum(c, lambda n: A.at(n), A.N); c.retmat(A.R, A.C, lambda r, q: F_(lin(r, q, A.R), A.N))
    else:
        def term(acc, n, k, q):
            th = fd(fm(fm(W, L.i2f(n)), L.i2f(k)), L.i2f(A.R))
            return eadd(acc, Cx(fm(uf('cos', th), A[n, q]), fm(uf('sin', th), A[n, q])))
        G = c.fold('dftcol', lambda k, q: Cx(Fraction(0), Fraction(0)), term, arity=2, cplx=True)
        c.retmat(A.R, A.C, lambda r, q: G(r, q, A.R))
@contract(M_ + 'convert_to_complex(susa::matrix<double> const&)', 'mat<cd>', 'this:Fft A:cmat<d>', P, 'auto ret = self.convert_to_complex(A);', empty='reject')
def toc(c): A = c.A; c.retmat(A.R, A.C, lambda r, q: Cx(A[r, q], Fraction(0)))
@contract(M_ + 'is_power_of_two(unsigned long)', 'bool', 'this:Fft n:u64', P, 'bool ret = self.is_power_of_two(n);', gen=lambda g, n: dict(n=g.r.choice([0, 1, 2, 3, 4, 6, 64, (1 << 63), (1 << 64) - 1, 1 << g.r.randrange(64), (1 << g.r.randrange(64)) + 1])))
def ip2(c):
    if c.mode == 'conc': c.ret(bin(c.n).count('1') == 1); return
    c.ret(Or(*[Eq(c.n, 1 << k) for k in range(64)]))
ROOTS = 'the butterflies equal the sum only by the algebra of roots of unity; bit reversal is an involution by reasoning about single bits'
LEN = (1, 2, 2, 4, 4, 8, 8, 16, 32, 64, 128, 256, 3, 6, 12)
BLEN = tuple(1 << k for k in range(13))
def gen_pow(g, n):
    N = g.r.choice(LEN) if n % 50 != 49 else 1024; C = g.r.choice([1, 1, 2, 3]) if N <= 32 else 1
    x = [g.elt('d') for _ in range(N * C)]
    return dict(A=ConcMat('d', N, C, x) if C > 1 or g.r.random() < .5 else ConcMat('d', 1, N, x))
def spectrum_of(x):
    import cmath
    N = len(x); w = [cmath.exp(-2j * math.pi * k / N) for k in range(N)]
    return [sum(float(x[n]) * w[n * k % N] for n in range(N)) for k in range(N)]
def power(n): return n > 0 and n & (n - 1) == 0
@contract(M_ + 'vector_radix2(susa::matrix<double> const&)', 'mat<cd>', 'this:Fft A:cmat<d>', P, 'auto ret = self.vector_radix2(A);', empty='reject', tol=1e-9, bounded_only=ROOTS, gen=gen_pow, genp=.95, bounded_cases=300)
def vrad(c):
    if c.mode != 'conc': return
    A = c.A; c.req(power(A.N), 'a power of two'); c.pre(A.isvec or A.N == 1, 'a vector')
    X = spectrum_of(A.data); c.retmat(A.R, A.C, lambda r, q: Cx(X[r + q * A.R].real, X[r + q * A.R].imag))
@contract(M_ + 'radix2(susa::matrix<double> const&)', 'mat<cd>', 'this:Fft A:cmat<d>', P, 'auto ret = self.radix2(A);', empty='reject', tol=1e-9, bounded_only=ROOTS, gen=gen_pow, genp=.95, bounded_cases=300)
def rad(c):
    if c.mode != 'conc': return
    A = c.A; v = A.isvec; c.req(power(A.N if v else A.R), 'a power of two')
    X = spectrum_of(A.data) if v else sum((spectrum_of(A.data[k * A.R:(k + 1) * A.R]) for k in range(A.C)), [])
    c.retmat(A.R, A.C, lambda r, q: Cx(X[r + q * A.R].real, X[r + q * A.R].imag))
def gen_brev(g, n):
    N = g.r.choice(BLEN[:9]) if n % 9 else BLEN[9 + n // 9 % 4]; return dict(A=ConcMat('cd', N, 1, [Cx(float(k), g.elt('d')) for k in range(N)]))
@contract(M_ + 'bit_reverse(susa::matrix<std::complex<double>>&)', 'void', 'this:Fft A:mat<cd>', P, 'self.bit_reverse(A);', empty='reject', bounded_only=ROOTS, gen=gen_brev, genp=1)
def brev(c):
    if c.mode != 'conc': return
    A = c.A; c.pre(power(A.N), 'a power of two'); n = A.N.bit_length() - 1
    rev = lambda i: int(format(i, '0%db' % n)[::-1], 2) if n else 0
    c.post('A', A.R, A.C, lambda r, q: A.at(rev(r + q * A.R)))
