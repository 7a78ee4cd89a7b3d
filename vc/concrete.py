"""The same contracts on concrete values: cases are generated, run on the real code (driver.h, AddressSanitizer)
and judged by evaluating the specification function on the concrete arguments."""
import random, time, signal, subprocess, os, json, math, copy
from fractions import Fraction
from . import build, harness, logic as L
from .spec import *
from .engine import Q

KCONC = {}        # other object kinds: gen(rng, elt, env), ser(v, elt), parse(tokens, elt), eq(a, b, elt, tol)

class Str(list): pass

# ------------------------------------------------------------------ text form of values
def ser_num(v, k):
    if k in ('d', 'f'): return float(v).hex() if math.isfinite(v) else repr(float(v))
    if k == 'bool': return '1' if v else '0'
    return str(int(v))
def ser_elt(v, elt):
    if isinstance(v, Cx): return '%s %s' % (ser_num(v.re, elt[1]), ser_num(v.im, elt[1]))
    return ser_num(v, elt)
def ser(v, kind):
    base, elt = kind_elt(kind)
    if base in KCONC: return KCONC[base].ser(v, elt)
    if base in OBJK: return '%d %d %s' % (v.R, v.C, ' '.join(ser_elt(x, elt) for x in v.data))
    if base == 'tup': return '%d %d' % v
    if base == 'cd': return ser_elt(v, 'cd')
    return ser_num(v, base)
class Toks:
    def __init__(self, l): self.l, self.i = l, 0
    def next(self):
        self.i += 1; return self.l[self.i - 1]
    def elt(self, elt):
        if elt in ('cd', 'cf', 'ci'): return Cx(self.elt('d' if elt != 'ci' else 'i'), self.elt('d' if elt != 'ci' else 'i'))
        x = self.next()
        if elt in ('d', 'f'): return float.fromhex(x) if 'x' in x else float(x)
        return int(x)
def parse(t, kind):
    base, elt = kind_elt(kind)
    if base in KCONC: return KCONC[base].parse(t, elt)
    if base in OBJK:
        R, C = int(t.next()), int(t.next())
        if t.i < len(t.l) and t.l[t.i] == 'inconsistent': raise ValueError('inconsistent shape')
        return ConcMat(elt, R, C, [t.elt(elt) for _ in range(R * C)])
    if base == 'newptr': return int(t.next())
    if base in ('tup', 'tuple'): return (int(t.next()), int(t.next()))
    if base == 'bool': return bool(int(t.next()))
    if base == 'ref': return t.elt(elt)
    if base == 'thisref': return None
    return t.elt(base)

# ------------------------------------------------------------------ equality up to rounding
def close(a, b, tol):
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = cx(a), cx(b); return close(a.re, b.re, tol) and close(a.im, b.im, tol)
    if isinstance(a, float) or isinstance(b, float) or isinstance(a, Fraction) or isinstance(b, Fraction):
        try: a, b = float(a), float(b)
        except OverflowError: return True
        if math.isnan(a) or math.isnan(b): return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b): return a == b
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    return a == b
def veq(a, b, kind, tol):
    base, elt = kind_elt(kind)
    if base in KCONC: return KCONC[base].eq(a, b, elt, tol)
    if base in OBJK: return a.R == b.R and a.C == b.C and all(close(x, y, tol) for x, y in zip(a.data, b.data))
    if isinstance(a, tuple): return tuple(a) == tuple(b)
    return close(a, b, tol)

# ------------------------------------------------------------------ generation
INTR = {'i': (-9, 9), 'li': (-9, 9), 'u': (0, 9), 'z': (0, 9), 'l': (-9, 9), 'i8': (-9, 9), 'u8': (0, 9), 'c': (0, 9), 'b': (0, 1)}
class Gen:
    def __init__(self, seed): self.r = random.Random(seed); self.dims = []; self.made = []; self.large = False
    def elt(self, elt, small=False):
        r = self.r
        if elt in ('d', 'f'): return float(r.randint(-3, 3)) if small else r.randint(-40, 40) / 4.0
        if elt == 'cd': return Cx(self.elt('d', small), self.elt('d', small))
        if elt == 'ci': return Cx(self.elt('i', small), self.elt('i', small))
        lo, hi = INTR[elt]
        return r.randint(lo, hi)
    def shape(self):
        r = self.r
        if self.large: return r.choice([(70000, 1), (1, 70000), (300, 230), (66000, 2), (2, 66000), (257, 300)])
        p = r.random()
        if self.dims and p < 0.5: return r.choice(self.dims)
        if self.dims and p < 0.62:
            a, b = r.choice(self.dims); return r.choice([(b, a), (b, r.randint(1, 4)), (r.randint(1, 4), a), (1, a), (b, 1), (1, b)])
        n = r.choice([1, 2, 2, 3, 3, 4, 5]) if r.random() < 0.9 else r.randint(5, 9)
        q = r.random()
        if q < 0.12: return (1, 1)
        if q < 0.28: return (1, n)
        if q < 0.44: return (n, 1)
        if q < 0.62: return (n, n)
        return (n, r.choice([1, 2, 3, 4, 5]))
    def mat(self, elt, R=None, C=None, small=None):
        if R is None: R, C = self.shape()
        self.dims.append((R, C))
        prev = [m for m in self.made if m.elt == elt and m.N == R * C]
        if not prev and self.made and self.r.random() < 0.12:
            m = self.r.choice(self.made)
            if m.elt == elt and m.N: R, C = self.r.choice([(m.C, m.R), (1, m.N), (m.N, 1), (m.R, m.C)]); prev = [m]; self.dims[-1] = (R, C)
        if prev and self.r.random() < 0.3:          # equal elements, or equal but for one
            d = list(prev[-1].data)
            if self.r.random() < 0.5: d[self.r.randrange(len(d))] = self.elt(elt)
            self.made.append(ConcMat(elt, R, C, d)); return ConcMat(elt, R, C, d)
        sm = self.r.random() < 0.3 if small is None else small
        m = ConcMat(elt, R, C, [self.elt(elt, sm) for _ in range(R * C)])
        self.made.append(m); return m
    def u64(self):
        r = self.r
        if r.random() < 0.04: return r.choice([1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, (1 << 64) - 2, (1 << 32) - 1])
        pool = [0, 1, 2, 3, 4, r.randint(0, 12)]
        for a, b in self.dims: pool += [a, b, a - 1, b - 1, a - 1, b - 1, a * b, a * b - 1, a + 1, b + 1, r.randrange(a), r.randrange(b), r.randrange(a), r.randrange(b), r.randrange(a * b)] if a * b else []
        return r.choice(pool)
    def scalar(self, k):
        r = self.r
        if k in ('d', 'f', 'cd'): return self.elt(k)
        if k == 'bool': return r.random() < 0.5
        w, sg = SCALARS[k]
        if k == 'u64': return self.u64()
        if sg: return r.choice([0, 1, 2, 3, -1, -2, r.randint(-9, 20), r.randint(-9, 20)]) if k != 'i8' else r.randint(-9, 9)
        v = self.u64()
        return v if v < (1 << w) else v & ((1 << w) - 1)

class VecConc:
    def gen(self, g, elt):
        n = g.r.choice([0, 1, 1, 2, 3, 4, 5, 6, 9] if not g.large else [257, 66000, 70001])
        return ConcMat(elt, n, 1, [g.elt(elt) for _ in range(n)])
    def ser(self, v, elt): return '%d %s' % (len(v.data), ' '.join(ser_elt(x, elt) for x in v.data))
    def parse(self, t, elt):
        n = int(t.next()); return ConcMat(elt, n, 1, [t.elt(elt) for _ in range(n)])
    def eq(self, a, b, elt, tol): return len(a.data) == len(b.data) and all(close(x, y, tol) for x, y in zip(a.data, b.data))
    def cmp(self, N, fn, got, tol):
        if len(got.data) != N: return 'size %s, specified %s' % (len(got.data), N)
        for k in range(N):
            if fn is not None and not close(got.data[k], fn(k, 0), tol): return 'element %d is %s, specified %s' % (k, got.data[k], fn(k, 0))
    def cmp_ret(self, rs, got, elt, tol): return self.cmp(rs[1], rs[3], got, tol)
    def cmp_post(self, p, got, elt, tol, old=None): return None if p == 'wf' else self.cmp(p[0], p[2], got, tol)
for k in ('vec', 'cvec', 'vvec'): KCONC[k] = VecConc()
class AllocConc:
    def gen(self, g, elt): return 0
    def ser(self, v, elt): return ''
    def parse(self, t, elt): return 0
    def eq(self, a, b, elt, tol): return True
class SRefConc:
    def gen(self, g, elt): return g.elt(elt)
    def ser(self, v, elt): return ser_elt(v, elt)
    def parse(self, t, elt): return t.elt(elt)
    def eq(self, a, b, elt, tol): return close(a, b, tol)
KCONC['sref'] = SRefConc()
KCONC['alloc'] = AllocConc(); KCONC['null'] = AllocConc()
def gen_case(ct, seed, n=0, large=False):
    g = Gen(seed); g.ct = ct; g.large = large
    args, alias = {}, {}
    if 'gen' in ct.opts and not large and g.r.random() < ct.opts.get('genp', 0.85):
        args = ct.opts['gen'](g, n) or {}
    als = ct.opts.get('alias', [])
    al = dict([g.r.choice(als)]) if als and g.r.random() < 0.2 else {}
    names = [p for p, _ in ct.params]
    params = sorted(ct.params, key=lambda p: 0 if kind_elt(p[1])[0] in OBJK or kind_elt(p[1])[0] in KCONC else 1)
    for nme, k in params:
        base, elt = kind_elt(k)
        if base.startswith('new') or nme in args: continue
        if nme in al: continue
        if base in KCONC: args[nme] = KCONC[base].gen(g, elt); continue
        if base in OBJK:
            if (k.endswith('?') and g.r.random() < 0.15) or (not k.endswith('?') and 'empty' in ct.opts and g.r.random() < 0.04): args[nme] = ConcMat(elt, 0, 0, [])
            else: args[nme] = g.mat(elt)
        elif base == 'tup': args[nme] = (g.u64(), g.u64())
        else: args[nme] = g.scalar(base)
    for a, b in al.items():
        if names.index(b) < names.index(a): args[a] = args[b]; alias[a] = b
        else: args[a] = args[b]; alias[b] = a
    return args, alias

# ------------------------------------------------------------------ judging
class KnownRegion(Exception): pass
def spec_of(ct, args):
    """-> ('reject',) | ('safe',) | ('excluded', why) | ('ok', ctx)"""
    old = L.FP.mode; L.FP.mode = 'conc'
    try:
        c = Ctx(None, None, 'conc', ct)
        c.a.update(args)
        for n, k in ct.params:
            base, elt = kind_elt(k)
            if base in OBJK and not base.startswith('new'):
                args[n].name = n
                if args[n].empty and not k.endswith('?') and base != 'deadmat':
                    e = ct.opts.get('empty')
                    try:
                        if ct.opts.get('spre'): ct.opts['spre'](c)
                    except Excluded as x: return ('excluded', str(x))
                    return {'reject': ('reject',), 'safe': ('safe',)}.get(e, ('excluded', 'empty'))
            elif base in KCONC and hasattr(args.get(n), '__dict__'): args[n].name = n
        try: ct.spec(c)
        except Rejected: return ('reject',)
        except Excluded as e: return ('excluded', str(e))
        return ('ok', c)
    finally: L.FP.mode = old

def evalq(f, bound):
    """quantified or plain formula over concrete values -> bool"""
    if isinstance(f, (list, tuple)): return all(evalq(x, bound) for x in f)
    if isinstance(f, Q):
        import itertools
        for xs in itertools.product(range(0, bound if len(f.names) == 1 else min(bound, 40)), repeat=len(f.names)):
            try: g, b, _ = f.fn(*xs)
            except IndexError: continue
            if g is True and b is not True: return False
        return True
    return f is True or f == True

def judge(ct, args, alias, out):
    """compare an observed outcome with the specification; -> None or a description of the disagreement"""
    sp = spec_of(ct, args)
    end = out.get('end', '')
    if sp[0] == 'excluded': return 'excluded'
    if sp[0] == 'ok' and sp[1].retspec is not None and sp[1].retspec[0] == 'mat' and sp[1].retspec[1] is not None and sp[1].retspec[1] * sp[1].retspec[2] > 1 << 24: return 'excluded'   # more storage than the driver is given
    tol = ct.opts.get('tol', 1e-9)
    crash = None
    if end == 'exit 86' or (end.startswith('signal') and end not in ('signal 6', 'signal 14')): crash = 'memory error or crash (%s)' % end
    elif end == 'signal 14': crash = 'does not terminate within 10 s'
    elif end == 'exit 87': crash = 'terminates by an uncaught exception'
    if crash: return crash
    if sp[0] == 'safe': return None
    if sp[0] == 'reject':
        if end == 'signal 6': return None
        return 'invalid arguments are accepted instead of being rejected' if not ct.opts.get('rejects_soft') else None
    if end == 'signal 6': return 'valid arguments are rejected (abort)'
    if end != 'exit 0': return 'ends with ' + end
    c = sp[1]
    L.FP.mode = 'conc'
    try:
        ret = None
        rb, relt = kind_elt(ct.retk)
        try:
            if 'ret' in out and rb not in ('void', 'thisref'): ret = parse(Toks(out['ret']), ct.retk)
            posts = {n: parse(Toks(v), dict(ct.params)[n]) for n, v in out['post'].items()}
        except ValueError as e: return 'malformed result: %s' % e
        if c.retspec is not None and ret is not None:
            m = cmp_spec(ct, c.retspec, ret, ct.retk, tol)
            if m: return 'result: ' + m
        for n, k in ct.params:
            base, elt = kind_elt(k)
            if n in alias or n not in posts: continue
            p = c.posts.get(n)
            if p is None:
                for x, y in alias.items():
                    if y == n and x in c.posts: p = c.posts[x]
            if p == 'wf': continue
            if p is None:
                if base.startswith('new') or base in ('mvmat', 'mvarr', 'vmat', 'vvec'): continue
                if not veq(posts[n], args[n], k, tol): return '%s is changed' % n
                continue
            if base in KCONC:
                m = KCONC[base].cmp_post(p, posts[n], elt, tol, args.get(n))
                if m: return '%s afterwards: %s' % (n, m)
                continue
            m = cmp_mat(p[0], p[1], p[2], posts[n], tol)
            if m: return '%s afterwards: %s' % (n, m)
        bound = 4
        for v in list(args.values()) + [ret]:
            if isinstance(v, ConcMat): bound = max(bound, v.N + 2)
            elif isinstance(v, list): bound = max(bound, len(v) + 2)
        for fn, nm in c.ensl:
            g = fn(ret, posts) if fn.__code__.co_argcount >= 2 else fn(ret)
            if not evalq(g, min(bound, 3000)): return nm or 'postcondition'
        for a, b in out.get('tracker', ()):
            if a != b: return 'the tracker reads %d with %d bytes held' % (a, b)
        if out.get('live', 0) != 0 and not ct.opts.get('keeps'): return '%+d blocks of storage are not released' % out['live']
    except Excluded: return 'excluded'
    finally: L.FP.mode = 'uf'
    return None

def cmp_mat(R, C, fn, got, tol):
    if R is None: return None if got.empty else 'not empty'
    if got.R != R or got.C != C: return 'shape %sx%s, specified %sx%s' % (got.R, got.C, R, C)
    if fn is None: return None
    for c in range(C):
        for r in range(R):
            e = fn(r, c)
            if not close(got[r, c], e, tol): return 'element (%d,%d) is %s, specified %s' % (r, c, got[r, c], e)
    return None
def cmp_spec(ct, rs, got, kind, tol):
    base, elt = kind_elt(kind)
    if rs[0] == 'mat': return cmp_mat(rs[1], rs[2], rs[3], got, tol)
    if rs[0] == 'ref':
        e = rs[1].at(rs[2])
        return None if close(e, got, tol) else 'refers to %s, specified %s' % (got, e)
    if base in KCONC: return KCONC[base].cmp_ret(rs, got, elt, tol)
    e = rs[1]
    if isinstance(e, tuple): return None if tuple(e) == tuple(got) else '%s, specified %s' % (got, e)
    if base == 'bool': return None if bool(e) == bool(got) else '%s, specified %s' % (got, e)
    return None if close(got, e, tol) else '%s, specified %s' % (got, e)

# ------------------------------------------------------------------ the real code
class Driver:
    """the functions under contract compiled with AddressSanitizer"""
    def __init__(self, cts, outdir, includes=(), srcs=(), flags=()):
        self.cts = [c for c in cts if c.cpp]
        self.index = {c.name: k for k, c in enumerate(self.cts)}
        self.dir = outdir
        os.makedirs(outdir, exist_ok=True)
        self.bin = os.path.join(outdir, 'drv')
        self.includes, self.srcs, self.flags = includes, list(srcs), list(flags)
        self.procs = None
    def start(self):
        V = build.VERIF
        n = 6
        parts = [[] for _ in range(n)]
        src = harness.tu(self.cts, driver=True, includes=self.includes)
        open(os.path.join(self.dir, 'drv.cpp'), 'w').write(src)
        base = [build.CLANG, '-std=c++17', '-O1', '-g0', '-fsanitize=address', '-fsized-deallocation', '-fno-access-control', '-DSUSA_NDEBUG', '-ffp-contract=off', '-w', '-I' + build.REPO + '/inc', '-I' + V + '/harness'] + self.flags
        self.procs = []
        objs = []
        for k, s in enumerate([os.path.join(self.dir, 'drv.cpp')] + self.srcs):
            o = os.path.join(self.dir, 'o%d.o' % k); objs.append(o)
            self.procs.append((s, subprocess.Popen(base + ['-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
        self.link = base + objs + ['-o', self.bin]
        return self
    def finish(self):
        for s, p in self.procs:
            _, e = p.communicate()
            if p.returncode: raise build.BuildError(s + '\n' + e[-3000:])
        build.run(self.link)
        return self
    def encode(self, ct, args, alias):
        names = [n for n, _ in ct.params]
        ls = ['%d %d' % (self.index[ct.name], len(names))]
        for n, k in ct.params:
            if kind_elt(k)[0].startswith('new'): ls.append('0')
            elif n in alias: ls.append('@%d' % names.index(alias[n]))
            else: ls.append(ser(args[n], k))
        return '\n'.join(ls) + '\n'
    def run(self, cases, stderr=None, timeout=600):
        """[(ct, args, alias)] -> outcomes"""
        txt = ''.join(self.encode(*c) for c in cases)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=86:max_malloc_fill_size=1048576:malloc_fill_byte=165:allocator_may_return_null=0:handle_abort=0:max_allocation_size_mb=512:symbolize=%d' % (1 if stderr is not None else 0), ASAN_SYMBOLIZER_PATH='/usr/lib/llvm-18/bin/llvm-symbolizer')
        wd = os.path.join(self.dir, 'cwd'); os.makedirs(wd, exist_ok=True)
        try:
            p = subprocess.run([self.bin], input=txt, stdout=subprocess.PIPE, stderr=subprocess.PIPE if stderr is not None else subprocess.DEVNULL, text=True, env=env, cwd=wd, timeout=timeout, errors='replace')
            so = p.stdout
            if stderr is not None: stderr.append(p.stderr or '')
        except subprocess.TimeoutExpired as e:
            so = (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or '')
        outs = []; cur = dict(post={})
        for l in so.split('\n'):
            t = l.split()
            if not t: continue
            if t[0] == 'ret': cur['ret'] = t[1:]
            elif t[0] == 'post': cur['post'][t[1]] = t[2:]
            elif t[0] == 'live': cur['live'] = int(t[1])
            elif t[0] == 'tracker': cur.setdefault('tracker', []).append((int(t[1]), int(t[2])))
            elif t[0] == 'end': cur['end'] = ' '.join(t[1:]); outs.append(cur); cur = dict(post={})
        return outs

def show(v):
    if isinstance(v, ConcMat): return '%dx%d%s' % (v.R, v.C, [show(x) for x in v.data[:400]])
    if isinstance(v, Cx): return '(%s,%s)' % (v.re, v.im)
    return repr(v) if not isinstance(v, (int, float)) else v

class TooLong(Exception): pass
def search(drv, ct, seed, count, large=0):
    """-> (evaluated, distinct, failure or None, sample, kinds)"""
    cases = []; seen = set(); kinds = dict(ok=0, reject=0, excluded=0, safe=0)
    tries = 0
    while len(cases) < count and tries < count * 6:
        args, alias = gen_case(ct, '%s/%s/%d' % (seed, ct.name, tries), tries); tries += 1
        sp = spec_of(ct, args)[0]
        if sp == 'excluded': kinds['excluded'] += 1; continue
        if sp == 'reject' and kinds['reject'] * 4 > count: continue
        e = drv.encode(ct, args, alias)
        if e in seen: continue
        seen.add(e); kinds[sp] += 1
        cases.append((ct, args, alias))
    outs = drv.run(cases)
    for c, o in zip(cases, outs):
        m = judge(ct, c[1], c[2], o)
        if m and m != 'excluded': return len(outs), len(seen), (c, o, m), cases[:1], kinds
    # large arguments: only where a proof is missing
    if large:
        big = []
        for k in range(large):
            args, alias = gen_case(ct, '%s/%s/L%d' % (seed, ct.name, k), k, True)
            if not any(isinstance(v, ConcMat) and v.N > 250 for v in args.values()): break
            big.append((ct, args, alias))
        def alarm(s, f): raise TooLong()
        old = signal.signal(signal.SIGALRM, alarm)
        try:
            tb = time.time()
            for c in big:
                if time.time() - tb > 90: break
                try:
                    signal.alarm(20)
                    sp = spec_of(ct, c[1])[0]
                    if sp != 'ok': continue
                    o = drv.run([c], timeout=15)
                    m = o and judge(ct, c[1], c[2], o[0])
                    signal.alarm(0)
                    if m and 'does not terminate' in m and ct.opts.get('heavy'): continue    # the cost is not linear: only slow
                    if m and m != 'excluded': return len(outs) + 1, len(seen) + 1, (c, o[0], m), cases[:1], kinds
                except TooLong: continue
                finally: signal.alarm(0)
        finally: signal.signal(signal.SIGALRM, old)
    return len(outs), len(seen), None, cases[:1], kinds
