"""Parser for the textual LLVM IR produced by vc.build (the subset clang emits for susa)."""
import re

class Unsupported(Exception):
    pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'a', 'b')
    def __init__(self, k, a=None, b=None): self.k, self.a, self.b = k, a, b
    def __repr__(self):
        return {'int': lambda: 'i%d' % self.a, 'arr': lambda: '[%d x %r]' % (self.a, self.b),
                'named': lambda: self.a, 'struct': lambda: '{%s}' % ', '.join(map(repr, self.a)),
                'vec': lambda: '<%d x %r>' % (self.a, self.b)}.get(self.k, lambda: self.k)()
    def key(self): return repr(self)

VOID, PTR, DOUBLE, FLOAT, FP80, LABEL, META = (Ty(k) for k in ('void', 'ptr', 'double', 'float', 'x86_fp80', 'label', 'metadata'))
_int = {}
def I(n):
    if n not in _int: _int[n] = Ty('int', n)
    return _int[n]

TOK = re.compile(r'''\s*(?:
 (?P<str>c?"(?:[^"\\]|\\.)*")|
 (?P<lv>%"[^"]*"|%[\w.$-]+)|
 (?P<gv>@"[^"]*"|@[\w.$-]+)|
 (?P<meta>![\w.]*(?:\([^)]*\))?)|
 (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|-?0x[0-9A-Fa-f]+|0x[KLMHR][0-9A-Fa-f]+|-?\d+)|
 (?P<id>[A-Za-z_$#][\w.$-]*)|
 (?P<p>\.\.\.|[()\[\]{}<>,=*|:])
)''', re.X)

def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' : break
            raise Unsupported('tokenize: ' + s[i:i+60])
        i = m.end()
        k = m.lastgroup
        if k is None: break
        out.append((k, m.group(k)))
    return out

ATTRS = set('''noundef nonnull signext zeroext inreg byval noalias nocapture readonly writeonly readnone returned
 dead_on_unwind writable immarg nofree dso_local local_unnamed_addr unnamed_addr linkonce_odr internal private weak_odr
 external hidden protected default noreturn nounwind fastcc ccc tail musttail notail fast nnan ninf nsz arcp contract afn reassoc
 inbounds nuw nsw exact nneg volatile allocptr swiftself captures weak available_externally extern_weak common linkonce thread_local nocallback disjoint inrange dso_preemptable'''.split())
ATTRP = set('align dereferenceable dereferenceable_or_null sret byval byref memory allocsize elementtype range nofpclass preallocated inalloca alignstack'.split())

class P:
    def __init__(self, toks, mod): self.t, self.i, self.mod = toks, 0, mod
    def peek(self, o=0): return self.t[self.i + o] if self.i + o < len(self.t) else ('eof', '')
    def next(self):
        x = self.peek(); self.i += 1; return x
    def acc(self, v):
        if self.peek()[1] == v and self.peek()[0] != 'str': self.i += 1; return True
        return False
    def exp(self, v):
        if not self.acc(v): raise Unsupported('expected %s got %s in %s' % (v, self.peek(), ' '.join(x[1] for x in self.t)))
    def attrs(self):
        got = {}
        while True:
            k, v = self.peek()
            if k == 'id' and v in ATTRS:
                got[v] = True; self.i += 1
                continue
            if k == 'id' and v in ATTRP:
                self.i += 1
                if self.peek()[1] == '(':
                    self.i += 1
                    if v in ('sret', 'byval', 'elementtype', 'byref'):
                        got[v] = self.ty(); self.exp(')')
                    else:
                        d = 1
                        while d:
                            x = self.next()[1]
                            d += (x == '(') - (x == ')')
                        got[v] = True
                elif v == 'align': self.next()
                continue
            if k == 'id' and v.startswith('#'): self.i += 1; continue
            return got
    def ty(self):
        k, v = self.next()
        if k == 'id':
            if re.match(r'i\d+$', v): return I(int(v[1:]))
            r = {'void': VOID, 'ptr': PTR, 'double': DOUBLE, 'float': FLOAT, 'x86_fp80': FP80, 'label': LABEL, 'metadata': META, 'opaque': Ty('opaque'), 'token': Ty('token'), 'half': Ty('half')}.get(v)
            if r is not None: return r
        if k == 'lv': return Ty('named', v)
        if v == '[':
            n = int(self.next()[1]); self.exp('x'); e = self.ty(); self.exp(']'); return Ty('arr', n, e)
        if v == '{':
            es = []
            if not self.acc('}'):
                while True:
                    es.append(self.ty())
                    if self.acc('}'): break
                    self.exp(',')
            return Ty('struct', es)
        if v == '<':
            if self.acc('{'):
                es = []
                if not self.acc('}'):
                    while True:
                        es.append(self.ty())
                        if self.acc('}'): break
                        self.exp(',')
                self.exp('>')
                t = Ty('struct', es, 'packed'); return t
            n = int(self.next()[1]); self.exp('x'); e = self.ty(); self.exp('>'); return Ty('vec', n, e)
        raise Unsupported('type: %s %s' % (k, v))
    def fnty_tail(self):
        # optional function type "(...)" after return type in calls
        if self.peek()[1] == '(':
            d = 0
            while True:
                x = self.next()[1]
                d += (x == '(') - (x == ')')
                if d == 0: break
    def value(self, ty):
        """constant or local: returns ('lv',name)|('gv',name)|('int',n)|('fp',str)|('null',)|('undef',)|('zero',)|('agg',[...])|('gep',...)|('cast',..)"""
        k, v = self.next()
        if k == 'lv': return ('lv', v)
        if k == 'gv': return ('gv', v)
        if k == 'meta':
            return ('meta', v)
        if k == 'str': return ('str', v)
        if k == 'num':
            if ty.k in ('double', 'float', 'x86_fp80', 'half'): return ('fp', v)
            return ('int', int(v, 0))
        if k == 'id':
            if v == 'null': return ('null',)
            if v in ('undef', 'poison'): return ('undef',)
            if v == 'zeroinitializer': return ('zero',)
            if v == 'true': return ('int', 1)
            if v == 'false': return ('int', 0)
            if v == 'none': return ('undef',)
            if v == 'getelementptr':
                self.attrs()
                self.exp('('); st = self.ty(); self.exp(',')
                args = []
                while True:
                    self.attrs()
                    t = self.ty(); self.attrs(); args.append((t, self.value(t)))
                    if self.acc(')'): break
                    self.exp(',')
                return ('gep', st, args)
            if v in ('bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.exp('('); t = self.ty(); x = self.value(t); self.exp('to'); t2 = self.ty(); self.exp(')')
                return ('cast', v, t, x, t2)
            if v in ('sub', 'add', 'mul', 'icmp'):
                raise Unsupported('const expr ' + v)
        if v in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[v]
            inner = []
            if v == '<' and self.acc('{'):
                close = '}'
            if not self.acc(close):
                while True:
                    t = self.ty(); inner.append((t, self.value(t)))
                    if self.acc(close): break
                    self.exp(',')
            if v == '<' and close == '}': self.exp('>')
            return ('agg', inner)
        raise Unsupported('value: %s %s in %s' % (k, v, ' '.join(x[1] for x in self.t)))
    def tv(self):
        t = self.ty(); a = self.attrs()
        if t.k == 'metadata':
            # skip to , or )
            d = 0
            while not (d == 0 and self.peek()[1] in (',', ')')):
                x = self.next()[1]; d += (x in '([{') - (x in ')]}')
            return (t, ('undef',))
        return (t, self.value(t))

class Instr:
    __slots__ = ('op', 'res', 'ty', 'args', 'x', 'text')
    def __init__(self, op, res, ty=None, args=(), **x):
        self.op, self.res, self.ty, self.args, self.x = op, res, ty, args, x
    def __repr__(self): return getattr(self, 'text', self.op)

class Block:
    def __init__(self, name): self.name, self.ins, self.preds = name, [], []
    def succs(self):
        t = self.ins[-1]
        return t.x.get('succ', [])

class Func:
    def __init__(self, name, ret, params, attrs):
        self.name, self.ret, self.params, self.blocks, self.order = name, ret, params, {}, []
        self.retattrs = attrs

def split_instr(line):
    return line

class Module:
    def __init__(self, text):
        self.types, self.globals, self.funcs, self.decls = {}, {}, {}, {}
        self.text = text
        self._sz = {}
        lines = text.split('\n')
        i = 0
        self.raw = {}; self.aliases = {}
        while i < len(lines):
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                n, d = l.split(' = type ', 1)
                self.types[n] = d
            elif l.startswith('@'):
                m = re.match(r'(@"[^"]*"|@[\w.$-]+) = (.*)$', l)
                if m: self.globals[m.group(1)] = m.group(2)
                m = re.match(r'@("[^"]*"|[\w.$-]+) = [\w ]*\balias .*, ptr @("[^"]*"|[\w.$]+)$', l)
                if m: self.aliases[m.group(1).strip('"')] = m.group(2).strip('"')
            elif l.startswith('define '):
                j = i + 1
                while lines[j] != '}': j += 1
                m = re.search(r'@("[^"]*"|[\w.$]+)\(', l)
                self.raw[m.group(1).strip('"')] = (l, lines[i+1:j])
                i = j
            elif l.startswith('declare '):
                m = re.search(r'@("[^"]*"|[\w.$]+)\(', l)
                if m: self.decls[m.group(1).strip('"')] = l
            i += 1
        self._tycache = {}

    def never_written(self, g):
        """internal global that no function of the program stores to or lets escape"""
        if not re.match(r'internal (unnamed_addr )?(global|constant) ', self.globals.get(g, '')): return False
        pat = re.compile(re.escape(g) + r'(?![\w.$])')
        for n, d in self.globals.items():
            if n != g and pat.search(d): return False
        for hdr, lines in self.raw.values():
            vals = set()
            for l in lines:
                if not pat.search(l): continue
                m = re.match(r'\s*(%[\w.]+) = getelementptr (inbounds )?[^@]*' + re.escape(g) + r'(, i\d+ (%[\w.]+|-?\d+))+$', l)
                if m: vals.add(m.group(1)); continue
                if re.match(r'\s*%[\w.]+ = load [^@]*, ptr ' + re.escape(g) + r'(, align \d+)?(, !.*)?$', l): continue
                return False
            for l in lines:
                for v in vals:
                    if re.search(re.escape(v) + r'(?![\w.])', l) and not re.match(r'\s*' + re.escape(v) + ' = ', l) and not re.match(r'\s*%[\w.]+ = load [^%]*, ptr ' + re.escape(v) + r'(, align \d+)?(, !.*)?$', l): return False
        return True
    def resolve(self, ty):
        while ty.k == 'named':
            if ty.a not in self._tycache:
                d = self.types.get(ty.a)
                if d is None: raise Unsupported('unknown type ' + ty.a)
                self._tycache[ty.a] = P(tokenize(d), self).ty()
            ty = self._tycache[ty.a]
        return ty
    def align(self, ty):
        ty = self.resolve(ty)
        if ty.k == 'int': return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(ty.a, 8)
        if ty.k in ('ptr', 'double'): return 8
        if ty.k == 'float': return 4
        if ty.k == 'x86_fp80': return 16
        if ty.k == 'arr': return self.align(ty.b)
        if ty.k == 'struct':
            if ty.b: return 1
            return max([self.align(e) for e in ty.a] or [1])
        if ty.k == 'vec': return self.size(ty)
        raise Unsupported('align %r' % ty)
    def size(self, ty):
        key = repr(ty)
        if key in self._sz: return self._sz[key]
        r = self._size(ty); self._sz[key] = r; return r
    def _size(self, ty):
        ty = self.resolve(ty)
        if ty.k == 'int': return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(ty.a, (ty.a + 7) // 8)
        if ty.k in ('ptr', 'double'): return 8
        if ty.k == 'float': return 4
        if ty.k == 'x86_fp80': return 16
        if ty.k == 'arr': return ty.a * self.size(ty.b)
        if ty.k == 'vec': return ty.a * self.size(ty.b)
        if ty.k == 'struct': return self.layout(ty)[1]
        raise Unsupported('size %r' % ty)
    def layout(self, ty):
        ty = self.resolve(ty)
        offs = []; o = 0
        for e in ty.a:
            al = 1 if ty.b else self.align(e)
            o = (o + al - 1) // al * al
            offs.append(o); o += self.size(e)
        al = self.align(ty) if ty.a else 1
        return offs, (o + al - 1) // al * al
    def leaves(self, ty, base=0):
        """scalar leaves (offset, ty) of an aggregate"""
        r = self.resolve(ty)
        if r.k == 'struct':
            out = []
            for o, e in zip(self.layout(r)[0], r.a): out += self.leaves(e, base + o)
            return out
        if r.k == 'arr':
            out = []
            for k in range(r.a): out += self.leaves(r.b, base + k * self.size(r.b))
            return out
        return [(base, r)]

    def func(self, name):
        if name in self.funcs: return self.funcs[name]
        hdr, body = self.raw[name]
        f = self.parse_func(name, hdr, body)
        self.funcs[name] = f
        return f

    def parse_func(self, name, hdr, body):
        hdr = re.sub(r'^define ', '', hdr)
        p = P(tokenize(hdr[:hdr.rindex('{')]), self)
        ra = p.attrs(); rt = p.ty(); p.attrs()
        p.next(); p.exp('(')
        params = []
        if not p.acc(')'):
            while True:
                if p.acc('...'): p.exp(')'); break
                t = p.ty(); a = p.attrs(); nm = p.next()[1]
                params.append((nm, t, a))
                if p.acc(')'): break
                p.exp(',')
        f = Func(name, rt, params, ra)
        # unnamed values: entry block number = number of unnamed params
        cnt = sum(1 for n, _, _ in params if re.match(r'%\d+$', n))
        cur = None
        k = 0
        lines = body
        while k < len(lines):
            l = lines[k]
            if not l.strip(): k += 1; continue
            m = re.match(r'("[^"]*"|[\w.$-]+):', l)
            if m and not l.startswith(' '):
                cur = Block('%' + m.group(1)); f.blocks[cur.name] = cur; f.order.append(cur.name)
                k += 1; continue
            if cur is None:
                cur = Block('%' + str(cnt)); f.blocks[cur.name] = cur; f.order.append(cur.name)
            s = l.strip()
            if s.startswith('switch') or ' switch ' in s:
                while not s.endswith(']'):
                    k += 1; s += ' ' + lines[k].strip()
            # strip metadata suffixes
            s0 = re.sub(r'(, ![\w.]+ !\d+)+$', '', s)
            s0 = re.sub(r' #\d+$', '', s0)
            s0 = re.sub(r' #\d+(?= \[)', '', s0)
            s0 = re.sub(r' \[ "[^"]*"\([^)]*\) \]$', '', s0)
            try:
                ins = self.parse_instr(s0)
            except Unsupported as e:
                ins = Instr('unsupported', None, why=str(e))
                m2 = re.match(r'(%[\w.$-]+|%"[^"]*") = ', s0)
                if m2: ins.res = m2.group(1)
                if re.match(r'(br|ret|switch|unreachable|invoke|resume)\b', s0): ins.x['term'] = True
            ins.text = s0
            cur.ins.append(ins)
            k += 1
        for b in f.blocks.values():
            for s in b.succs(): f.blocks[s].preds.append(b.name)
        return f

    def parse_instr(self, s):
        p = P(tokenize(s), self)
        res = None
        if p.peek()[0] == 'lv' and p.peek(1)[1] == '=':
            res = p.next()[1]; p.next()
        k, op = p.next()
        while op in ('tail', 'musttail', 'notail'): k, op = p.next()
        fl = p.attrs()
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            t = p.ty(); a = p.value(t); p.exp(','); b = p.value(t)
            return Instr(op, res, t, [a, b], flags=fl)
        if op == 'fneg':
            t = p.ty(); return Instr(op, res, t, [p.value(t)])
        if op in ('icmp', 'fcmp'):
            pred = p.next()[1]
            if pred in ('fast', 'nnan'): pred = p.next()[1]
            p.attrs()
            t = p.ty(); a = p.value(t); p.exp(','); b = p.value(t)
            return Instr(op, res, I(1), [a, b], pred=pred, oty=t)
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            t = p.ty(); a = p.value(t); p.exp('to'); t2 = p.ty()
            return Instr(op, res, t2, [a], fty=t)
        if op == 'freeze':
            t = p.ty(); return Instr('freeze', res, t, [p.value(t)])
        if op == 'select':
            c = p.tv(); p.exp(','); a = p.tv(); p.exp(','); b = p.tv()
            return Instr(op, res, a[0], [c[1], a[1], b[1]])
        if op == 'phi':
            t = p.ty(); inc = []
            while True:
                p.exp('['); v = p.value(t); p.exp(','); b = p.next()[1]; p.exp(']')
                inc.append((v, b))
                if not p.acc(','): break
            return Instr(op, res, t, [], inc=inc)
        if op == 'alloca':
            t = p.ty(); n = None
            while p.acc(','):
                if p.peek()[1] == 'align': p.attrs()
                else: n = p.tv()
            return Instr(op, res, PTR, [], aty=t, n=n)
        if op == 'load':
            if p.peek()[1] == 'atomic': p.next(); p.attrs()
            t = p.ty(); p.exp(','); a = p.tv()
            return Instr(op, res, t, [a[1]])
        if op == 'store':
            if p.peek()[1] == 'atomic': p.next(); p.attrs()
            v = p.tv(); p.exp(','); a = p.tv()
            return Instr(op, res, v[0], [v[1], a[1]])
        if op == 'getelementptr':
            st = p.ty(); p.exp(','); args = []
            while True:
                args.append(p.tv())
                if not p.acc(','): break
            return Instr(op, res, PTR, args, sty=st, flags=fl)
        if op == 'atomicrmw':
            p.attrs(); kind = p.next()[1]; a = p.tv(); p.exp(','); v = p.tv()
            return Instr(op, res, v[0], [a[1], v[1]], kind=kind)
        if op == 'br':
            if p.peek()[1] == 'label':
                p.next(); d = p.next()[1]
                return Instr(op, None, None, [], succ=[d], cond=None)
            c = p.tv(); p.exp(','); p.exp('label'); a = p.next()[1]; p.exp(','); p.exp('label'); b = p.next()[1]
            return Instr(op, None, None, [], succ=[a, b], cond=c[1])
        if op == 'switch':
            v = p.tv(); p.exp(','); p.exp('label'); d = p.next()[1]; p.exp('[')
            cases = []
            while not p.acc(']'):
                t = p.ty(); x = p.value(t); p.exp(','); p.exp('label'); cases.append((x[1], p.next()[1]))
            return Instr(op, None, v[0], [v[1]], succ=list(dict.fromkeys([c[1] for c in cases] + [d])), cases=cases, dflt=d)
        if op == 'ret':
            t = p.ty()
            if t.k == 'void': return Instr(op, None, t, [])
            return Instr(op, None, t, [p.value(t)])
        if op == 'unreachable': return Instr(op, None)
        if op in ('call', 'invoke'):
            t = p.ty(); p.attrs(); p.fnty_tail() if p.peek()[1] == '(' else None
            k, callee = p.next()
            p.exp('('); args = []
            if not p.acc(')'):
                while True:
                    args.append(p.tv())
                    if p.acc(')'): break
                    p.exp(',')
            if k == 'id' and callee == 'asm': raise Unsupported('asm')
            return Instr('call', res, t, args, callee=callee, ck=k)
        if op == 'extractvalue':
            v = p.tv(); idx = []
            while p.acc(','): idx.append(int(p.next()[1]))
            return Instr(op, res, None, [v[1]], idx=idx, aty=v[0])
        if op == 'insertvalue':
            v = p.tv(); p.exp(','); e = p.tv(); idx = []
            while p.acc(','): idx.append(int(p.next()[1]))
            return Instr(op, res, v[0], [v[1], e[1]], idx=idx, ety=e[0])
        if op == 'fence': return Instr('fence', None)
        raise Unsupported('instr ' + op)

# ---------------------------------------------------------------- cfg
def loops(f):
    """natural loops: {header: set(blocks)}"""
    order = rpo(f)
    idom = dominators(f, order)
    def dom(a, b):
        while True:
            if a == b: return True
            if b == order[0]: return False
            b = idom[b]
    L = {}
    oset = set(order)
    for b in order:
        for s in f.blocks[b].succs():
            if dom(s, b):
                body = L.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body: continue
                    body.add(x)
                    st += [q for q in f.blocks[x].preds if q in oset]
    return L

def rpo(f):
    seen = set(); out = []
    st = [(f.order[0], iter(f.blocks[f.order[0]].succs()))]
    seen.add(f.order[0])
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s); st.append((s, iter(f.blocks[s].succs()))); break
        else:
            out.append(b); st.pop()
    return out[::-1]

def dominators(f, order):
    idx = {b: i for i, b in enumerate(order)}
    idom = {order[0]: order[0]}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [p for p in f.blocks[b].preds if p in idom]
            n = ps[0]
            for p in ps[1:]:
                a, c = p, n
                while a != c:
                    while idx[a] > idx[c]: a = idom[a]
                    while idx[c] > idx[a]: c = idom[c]
                n = a
            if idom.get(b) != n: idom[b] = n; ch = True
    return idom
