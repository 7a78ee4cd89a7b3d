"""memory.h: the logging allocator and the memory tracker (C08)

Every storage managing member of matrix is verified again for the logging allocator, with the additional postcondition that
the tracker has changed by exactly the bytes obtained minus the bytes returned (and that it reads the bytes held whenever an
allocation may fail)."""
from . import *
P = 'C08'
MI, ML = 'susa::matrix<int>', 'susa::matrix<int, susa::allocator_log<int>>'
import re
STORAGE = re.compile(r'::(matrix\((?!std::(string|basic)|char)|~matrix|operator=\(susa|resize|shrink|reshape|row|col|left|right|mid|operator\(\))')

def log(k):
    b, e = kind_elt(k)
    return k.replace('<i>', '<li>') if e == 'i' else k
from ..structs import *
TRK = StructDef('Trk', 'susa::memory_tacker', 8, [F('ull_used_memory', 0, 'u64')], gen=lambda g: dict(ull_used_memory=g.r.choice([0, 8, 1 << 40, (1 << 64) - 1, g.r.getrandbits(64)])), make='new susa::memory_tacker()')
M64 = 1 << 64
T_ = 'susa::memory_tacker'
gen_t = lambda g, n: dict(n=g.r.choice([0, 1, 8, 1 << 40, (1 << 64) - 1, g.r.getrandbits(64)]))
@contract(T_ + '::add(unsigned long)', 'void', 'this:Trk n:u64', P, 'vc_threads(self); self.add(n);', inline=True, gen=gen_t, shared=True)
def t_add(c): c.postobj('this', ull_used_memory=L.IntMod(add(c.this.ull_used_memory, c.n), M64))
@contract(T_ + '::sub(unsigned long)', 'void', 'this:Trk n:u64', P, 'vc_threads(self); self.sub(n);', inline=True, gen=gen_t, shared=True)
def t_sub(c): c.postobj('this', ull_used_memory=L.IntMod(sub(c.this.ull_used_memory, c.n), M64))
@contract(T_ + '::read()', 'u64', 'this:Trk', P, 'auto ret = self.read();', inline=True)
def t_read(c): c.ret(c.this.ull_used_memory)
SIZE = {'i': 4, 'd': 8, 'u8': 1, 'cd': 16}
@contract('susa::allocator_log<{T}>::allocate(unsigned long, void const*)', 'newptr', 'this:alloc n:u64 hint:null', P,
          'auto* p_ = self.allocate(n); size_t ret = susa::memory_tacker::instance().read(); self.deallocate(p_, n);', Ts=('i', 'd', 'u8', 'cd'), tracked=True, inline=True, gen=lambda g, n: dict(n=g.r.choice([1, 2, 3, 100, 4096, 1 << 20])), genp=1)
def a_alloc(c, t):
    c.pre(Le(mul(SIZE[t], c.n), 1 << 60), 'less than 2^60 bytes')
    c.ret(mul(SIZE[t], c.n))
@contract('susa::allocator_log<{T}>::deallocate({T}*, unsigned long)', 'void', 'this:alloc p:heapptr n:u64', P, None, Ts=('i', 'd', 'u8', 'cd'), tracked=True, inline=True)
def a_dealloc(c, t): c.pre(Eq(c.n, c.p), 'the storage has n elements')
for nm, ct in list(ALL.items()):
    if not nm.split('(')[0].replace('susa::matrix<int> ', '', 1 if nm.startswith('susa::matrix<int> susa') else 0).startswith(MI + '::') and not nm.startswith(MI + '::'): continue
    if not STORAGE.search(nm): continue
    o = dict(ct.opts); o.update(tracked=True, inline='::operator()' not in nm)
    n2 = Contract(nm.replace(MI, ML), log(ct.retk), ['%s:%s' % (n, log(k)) for n, k in ct.params], ct.spec, [P], ct.cpp and re.sub(r'\bT\b', 'int', ct.cpp.replace(MI, ML)), mode=ct.mode, **o)
    if '::reshape(' in nm: n2.opts['spre'] = lambda c: c.fits(c.R, c.C, 'i')
    n2.T = None
    ALL[n2.name] = n2
