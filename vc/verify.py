"""Verification of one function against its contract; contract application at call sites; library primitives."""
import z3, time, re, itertools, traceback, os
from fractions import Fraction
from . import ir, logic as L
from .ir import Unsupported
from .logic import And, Or, Not, Ite, Implies, Eq, Lt, Le, Gt, Ge, toz, isz, add, sub, mul, lin, lindec
from .mem import *
from .engine import *
from .execute import Executor, PIV
from .spec import *
from . import spec as S

I64, I8, DBL = ir.I(64), ir.I(8), None

class Verifier(Executor):
    def __init__(self, mod, names, contracts, opts=None):
        Executor.__init__(self, mod, names, contracts, opts)
        self.kinds = dict(KINDS)
        self.prims = PRIMS
        self.intargs = []
        self.speccontents = []
        self.label = ''
        self.covered = 0

    # ------------------------------------------------------------ argument set-up
    def scalar_in(self, st, k, name):
        if k in SCALARS:
            w, sg = SCALARS[k]
            t = z3.Int(name); lo, hi = rng(w, sg)
            st.assume(And(t >= lo, t <= hi))
            return [IV(t, w, sg)], t
        if k in ('d', 'f'):
            t = z3.Real(name); return [t], t
        if k == 'bool':
            t = z3.Bool(name); return [t], t
        if k == 'cd':
            a, b = z3.Real(name + '.re'), z3.Real(name + '.im'); return [a, b], Cx(a, b)
        raise Unsupported('parameter kind ' + k)

    def setup(self, ct, st, alias, empties):
        vals = []; self.handles = {}; self.argblk = {}
        handles = self.handles
        for n, k in ct.params:
            base, elt = kind_elt(k)
            if base in ('cmat', 'mat', 'mvmat', 'deadmat', 'vmat'):
                if n in alias:
                    tgt = alias[n]
                    vals.append(Ptr(self.argblk[tgt], 0)); h = handles[tgt]
                    h2 = MatH(self, elt, h.R, h.C, h.cont, h.b, 0, h.data, n)
                    handles[n] = h2; self.argblk[n] = self.argblk[tgt]
                    continue
                b = Blk('arg', n, 48, 1); b.objs = [(0, MAT, None)]
                st.mem[b.id] = BS()
                if n in empties: R = C = None; cont = None
                else:
                    R, C = z3.Int(n + '.R'), z3.Int(n + '.C')
                    fix = ct.opts.get('shape', {}).get(n)
                    st.assume(And(R >= 1, C >= 1))
                    st.assume(Le(L.scale(ELT[elt][1], mul(C, R)), MAXB))
                    cont = {s: self.new_base('%s@%d' % (n, s), tk) for s, tk in ELT[elt][2]}
                d = MAT.create(self, st, b, 0, elt, R, C, cont, name=n)
                self.argblk[n] = b
                h = MAT.view(self, st, b, 0, elt, n); handles[n] = h
                vals.append(Ptr(b, 0))
            elif base == 'newmat':
                b = Blk('arg', n, 48, 1); b.objs = [(0, MAT, None)]
                st.mem[b.id] = BS(); self.argblk[n] = b; b.objelt = {0: elt}
                vals.append(Ptr(b, 0)); handles[n] = None
            elif base in OBJ:
                OBJ[base].setup(self, ct, st, n, elt, alias, empties, vals)
            else:
                v, t = self.scalar_in(st, k, n)
                vals += v; handles[n] = t
                if k in SCALARS: self.intargs.append(t)
        return vals

    def call_params(self, ct, f, st, vals):
        """prepend the hidden result pointer"""
        rb, relt = kind_elt(ct.retk)
        self.retblk = None
        if rb in ('mat', 'tuple', 'vec') or rb in OBJ:
            n = {'mat': 48, 'tuple': 16, 'vec': 24}.get(rb) or OBJ[rb].size
            b = Blk('arg', 'ret', n, 1); b.objs = []
            if rb == 'mat': b.objs = [(0, MAT, None)]; b.objelt = {0: relt}
            elif hasattr(OBJ.get(rb), 'blank'): pass
            elif rb != 'tuple': b.objs = [(0, OBJ[rb].kind(self, relt), None)]; b.objelt = {0: relt}
            st.mem[b.id] = BS(); self.retblk = b
            if hasattr(OBJ.get(rb), 'blank'): OBJ[rb].blank(self, st, b)
            vals = [Ptr(b, 0)] + vals
        return vals

    # ------------------------------------------------------------ main entry
    def verify(self, ct, mangled):
        f = self.mod.func(mangled)
        self.ct = ct
        runs = []
        aliases = [{}]
        for al in ct.opts.get('alias', []): aliases.append(dict([al]))
        matp = [n for n, k in ct.params if kind_elt(k)[0] in ('cmat', 'mat', 'mvmat', 'deadmat', 'vmat')]
        maybe = [n for n, k in ct.params if k.endswith('?')]
        for al in aliases:
            for r in range(len(maybe) + 1):
                for em in itertools.combinations(maybe, r):
                    if any((k in em) for k in al): continue
                    runs.append(('normal', al, em, None))
        if 'empty' in ct.opts:
            for n in matp:
                if n not in maybe: runs.append((ct.opts['empty'], {}, (n,), None))
        k = 0
        done_req = False
        nreq = None
        self.reached = 0; self.rejected = 0
        out = []
        for run in runs:
            self.one(ct, mangled, f, run)
        # lemmas: what the specification functions mean (closed formulas)
        for nm, fml in (ct.opts.get('lemmas') or (lambda: []))():
            ob = Ob('lemma', nm, ct.label, ''); ob.run = 'lemma'
            sv = z3.Solver(); sv.set('timeout', 20000); sv.add(z3.Not(fml))
            r = sv.check()
            if r == z3.unsat: ob.status = 'proved'; ob.by = 'z3'
            else: ob.status = 'failed'; ob.info = str(r); self.fails.append(ob)
            self.obs.append(ob)
        # rejection of every violated requirement
        if ct.opts.get('rejects', True):
            for k in range(self.maxreq):
                for al, em in [({}, em) for r in range(len(maybe) + 1) for em in itertools.combinations(maybe, r)]:
                    self.one(ct, mangled, f, ('reject', al, em, k))
        return self.obs

    maxreq = 0
    def one(self, ct, mangled, f, run):
        kind, alias, em, viol = run
        todo = [[]]
        nfeas = 0
        while todo:
            dec = todo.pop()
            L.FP.mode = ct.mode
            st = State(); st.skip = False
            self.killed = {}; self.base_seen_run = set()
            self.fresh_n = 0; Blk._n = 0; self.base_seen = set(); self.P = self.newprover()
            self.gblk = {}; self.folds = []; self.intargs = []; self.speccontents = []; self.hints = ct.opts.get('hints'); self.induct = ct.opts.get('induct', False)
            self.rejecting = kind in ('reject', 'safe'); self.kindrun = kind
            self.mode = 'final'; self.limit = []
            self.label = ct.label
            self.runname = '%s%s%s%s%s' % (kind, ' req%d' % viol if viol is not None else '', ' alias%s' % (list(alias.items()),) if alias else '', ' empty%s' % (list(em),) if em else '', ' case%s' % dec if dec else '')
            vals = self.setup(ct, st, alias, em)
            if ct.opts.get('tracked'): self.tracked(st)
            self.alias = alias; self.em = em
            c = Ctx(self, st, 'verify', ct); self.c = c
            c.decisions, c.pending, c.violate = dec, [], viol
            c.a.update(self.handles)
            self.hasspec = True
            try:
                skipspec = kind in ('safe',) or (kind == 'reject' and viol is None)
                if not skipspec: ct.spec(c)
                elif ct.opts.get('spre'): ct.opts['spre'](c)
                if viol is not None: continue     # that requirement does not occur in this case
            except Infeasible:
                todo += c.pending; continue
            except Violated: pass
            todo += c.pending
            self.maxreq = max(self.maxreq, c.nreq)
            if not self.P.feasible(st.pc): continue
            if kind != 'normal': self.hasspec = False
            nfeas += 1
            self.speccontents = self.mk_speccontents(ct, c)
            vals = self.call_params(ct, f, st, vals)
            for (n, t, _), v in zip(f.params, vals): st.regs[n] = v
            if len(f.params) != len(vals): raise Unsupported('parameter list of %s: %d expected, %d found' % (ct.name, len(vals), len(f.params)))
            self.pathret = 0
            self.run(ct.label, st, mangled)
            self.reached += self.pathret
            if kind == 'normal' and self.pathret == 0 and not self.fails and not ct.opts.get('noreturn'):
                ob = Ob('vacuity', 'some execution returns (%s)' % self.runname, ct.label, ''); ob.status = 'failed'; ob.info = 'no path reaches a return'
                ob.kind = 'vacuity'; ob.run = self.runname
                self.obs.append(ob); self.fails.append(ob)
        if kind == 'normal' and nfeas == 0 and not alias:
            ob = Ob('vacuity', 'precondition is satisfiable', ct.label, ''); ob.status = 'failed'; ob.run = kind; self.obs.append(ob); self.fails.append(ob)

    def newprover(self):
        old = self.P
        p = L.Prover(); p.stat = old.stat; p.full_timeout = self.opts.get('timeout', 4000)
        return p

    def mk_speccontents(self, ct, c):
        """contents promised by the contract: candidate values for what loops write"""
        out = []
        def addspec(R, C, fn, elt, loose=False):
            if fn is None or R is None: return
            lam = lam_of(R, C, fn, elt, self, loose)
            for s, tk in ELT[elt][2]: out.append(dict(tk=tk, sub=s, read=lam[s].read, R=R, C=C))
        if c.retspec and c.retspec[0] == 'mat': addspec(c.retspec[1], c.retspec[2], c.retspec[3], c.retspec[4] or kind_elt(ct.retk)[1])
        for n, p in c.posts.items():
            if p == 'wf': continue
            k = dict(ct.params).get(n)
            if isinstance(p, dict):
                d = self.kind_def(k)
                for fl in d.fields if d else ():
                    e = p.get(fl.name)
                    if fl.arr and isinstance(e, tuple):
                        if len(e) == 3: addspec(e[0], e[1], e[2], fl.kind[1])
                        elif e[1] is not None: addspec(e[0], 1, lambda r, q, e=e: e[1](r), fl.kind[1])
                continue
            if k and kind_elt(k)[0] in OBJK: addspec(p[0], p[1], p[2], kind_elt(k)[1])
        for (R, C, fn, elt) in getattr(c, 'auxspecs', []): addspec(R, C, fn, elt, True)
        return out

    def kind_def(self, k):
        from .structs import StructDef
        return StructDef.reg.get(re.sub('^(c|new|dead)(?=[A-Z])', '', kind_elt(k)[0]))
    def oblige(self, st, kind, name, goal):
        n = len(self.obs)
        Executor.oblige(self, st, kind, name, goal)
        for o in self.obs[n:]: o.run = getattr(self, 'runname', '')

    # ------------------------------------------------------------ return
    def ret(self, st, v):
        if self.mode != 'final': return
        if self.limit: return
        self.pathret += 1
        ct, c = self.ct, self.c
        try:
            if self.kindrun == 'reject':
                self.oblige(st, 'reject', 'invalid arguments are rejected (%s)' % self.runname, False)
                return
            self.post(st, v)
        except PathEnd: pass

    def post(self, st, v):
        ct, c = self.ct, self.c
        owned = {}
        rb, relt = kind_elt(ct.retk)
        full = self.hasspec
        def own(bs, what):
            for b in bs:
                if b.id in owned: self.oblige(st, 'ownership', '%s does not share storage with %s' % (what, owned[b.id]), False)
                owned[b.id] = what
        # result
        if rb == 'mat':
            own(MAT.check_wf(self, st, self.retblk, 0, relt, 'result'), 'result')
            h = MAT.view(self, st, self.retblk, 0, relt, 'ret'); rh = h
            if full: self.check_mat(st, h, c.retspec[1:4], 'result')
        elif rb == 'tuple':
            rh = None
            if full:
                a = self.rd(st, self.retblk, 0, 8, I64).t; b = self.rd(st, self.retblk, 0, 0, I64).t
                x, y = c.retspec[1]
                self.oblige(st, 'post', 'result', And(Eq(a, x), Eq(b, y)))
        elif rb in OBJ:
            rh = OBJ[rb].post_ret(self, st, c, relt, own, full)
        elif rb == 'void': rh = None
        elif rb == 'newptr':
            rh = None
            ok = isinstance(v, Ptr) and v.b is not None and v.b.kind == 'heap' and v.b.bytes is not None and any(x is v.b for x in st.live)
            self.oblige(st, 'post', 'returns new storage', And(Eq(v.o, 0), Eq(v.b.bytes, c.retspec[1])) if ok else False)
            if ok: own([v.b], 'result')
        elif rb == 'ref':
            rh = None
            if full:
                _, A, i = c.retspec
                ok = isinstance(v, Ptr) and v.b is not None and v.b is A.data
                self.oblige(st, 'post', 'the reference designates the addressed element', Eq(v.o, L.scale(ELT[relt][1], i)) if ok else False)
                if not ok: return
        elif rb == 'thisref':
            rh = None
            self.oblige(st, 'post', 'returns *this', isinstance(v, Ptr) and v.b is self.argblk['this'] and L.eqs(v.o, 0) is True)
        else:
            rv = self.retval(st, v, rb); rh = rv
            if full:
                if c.retspec is not None:
                    x = c.retspec[1]
                    e = eeq(rv, x) if not (rb == 'bool') else Eq(toz(rv), toz(x))
                    self.oblige(st, 'post', 'result value', e)
        # parameters
        for n, k in ct.params:
            base, elt = kind_elt(k)
            if base in ('cmat', 'mat', 'newmat', 'mvmat', 'vmat'):
                if n in self.alias: continue
                b = self.argblk[n]
                own(MAT.check_wf(self, st, b, 0, elt, n), n)
                p = c.posts.get(n)
                if p is None:
                    for x, y in self.alias.items():
                        if y == n and x in c.posts: p = c.posts[x]
                if p == 'wf' or not full and base != 'cmat': continue
                h0 = self.handles[n]
                h = MAT.view(self, st, b, 0, elt, n)
                if p is None:
                    if base == 'newmat': 
                        if full and c.retspec is None and not c.ensl: raise Unsupported('constructor without specification')
                        continue
                    if h0.empty: self.oblige(st, 'frame', n + ' is unchanged', h.empty); continue
                    if h.empty: self.oblige(st, 'frame', n + ' is unchanged', False); continue
                    same = h.data is h0.data and all(h.cont[s] is h0.cont[s] for s in h.cont)
                    if same and L.eqs(h.R, h0.R) is True and L.eqs(h.C, h0.C) is True: continue
                    if h.data is not h0.data: self.oblige(st, 'frame', n + ' keeps its storage', False)
                    for nm, f in mat_eq_facts(self, h, h0.R, h0.C, lambda r, cc, h0=h0: h0[r, cc], n + ' is unchanged'): self.oblige(st, 'frame', nm, f)
                else:
                    self.check_mat(st, h, p[:3], n + ' afterwards')
                    if not p[3] and base == 'mat' and h.data is not h0.data: self.oblige(st, 'frame', n + ' keeps its storage', False)
            elif base == 'deadmat':
                pass
            elif base in OBJ:
                OBJ[base].post_param(self, st, c, n, elt, own, full)
        if full:
            for fn, nm in c.ensl:
                posts = {}
                for n, k in ct.params:
                    if kind_elt(k)[0] in ('mat', 'newmat', 'vmat'): posts[n] = MAT.view(self, st, self.argblk[n], 0, kind_elt(k)[1], n)
                    elif kind_elt(k)[0] in OBJ: posts[n] = OBJ[kind_elt(k)[0]].view_post(self, st, n, kind_elt(k)[1])
                g = fn(rh, posts) if fn.__code__.co_argcount >= 2 else fn(rh)
                for g1 in (g if isinstance(g, (list, tuple)) else [g]):
                    self.oblige(st, 'post', nm or 'postcondition', g1)
        # storage
        for b in st.live:
            if b.id not in owned: self.oblige(st, 'memory', 'no storage is leaked (%s)' % b.name, False)
        self.extra_post(st)

    def objviews(self, st):
        out = {}
        for n, k in self.ct.params:
            base, elt = kind_elt(k)
            if base in ('cmat', 'mat', 'newmat', 'vmat'): out[n] = MAT.view(self, st, self.argblk[n], 0, elt, n)
            elif base in OBJ: out[n] = OBJ[base].view_post(self, st, n, elt) if n in self.argblk else None
            else: out[n] = self.handles.get(n)
        rb, relt = kind_elt(self.ct.retk)
        if self.retblk is not None and rb in OBJ and hasattr(OBJ[rb], 'view'): out['ret'] = OBJ[rb].view(self, st, self.retblk, 0, 'result')
        return out
    def extra_post(self, st):
        if self.ct.opts.get('tracked'): self.oblige(st, 'post', 'the tracker changes by the bytes obtained minus the bytes returned', self.balance(st))
    def tracked(self, st):
        """the memory tracker reads at least the bytes held by the arguments, and less than 2^62"""
        p = self.globalptr(st, TRACKER)
        t = self.U(st, self.rd(st, p.b, 0, 0, I64))
        held = 0
        for b in st.live:
            held = add(held, b.bytes)
            st.assume(Le(b.bytes, TRACKB))
        st.assume(And(Le(held, t), Le(t, 1 << 62)))
        st.ghost['ledger'] = 0; st.ghost['tracker0'] = t
    def balance(self, st):
        p = self.globalptr(st, TRACKER)
        return Eq(self.U(st, self.rd(st, p.b, 0, 0, I64)), add(st.ghost['tracker0'], st.ghost['ledger']))

    def check_mat(self, st, h, rcf, what):
        R, C, fn = rcf
        if R is None:
            self.oblige(st, 'post', what + ' is empty', h is not None and h.empty); return
        if h is None or h.empty:
            self.oblige(st, 'post', what + ' is not empty', False); return
        for nm, f in mat_eq_facts(self, h, R, C, fn, what): self.oblige(st, 'post', nm, f)

    def retval(self, st, v, k):
        if k == 'cd': return Cx(v[0], v[1])
        if k == 'bool': return v if not isinstance(v, IV) else Eq(v.t, 1)
        if k in SCALARS:
            w, sg = SCALARS[k]
            return self.conv(st, v, sg).t
        return v

    # ------------------------------------------------------------ call sites
    def apply_contract(self, st, ct, args, i):
        args = [v for _, v in args]
        rb, relt = kind_elt(ct.retk)
        c = Ctx(self, st, 'call', ct)
        sret = None
        if rb in ('mat', 'tuple', 'vec') or rb in OBJ: sret = args.pop(0)
        blks = {}
        for n, k in ct.params:
            base, elt = kind_elt(k)
            if base in OBJK:
                p = args.pop(0)
                if not isinstance(p, Ptr) or p.b is None: self.oblige(st, 'memory', '%s: valid object argument' % ct.label, False); raise PathEnd()
                b, idx, o = self.locate(st, p, 1, 'object argument')
                if not isinstance(idx, int): raise Unsupported('object in array at symbolic index')
                if idx: raise Unsupported('object in array')
                blks[n] = (b, o)
                if base == 'newmat':
                    if not hasattr(b, 'objelt'): b.objelt = {}
                    b.objelt[o] = elt
                    c.a[n] = None; continue
                self.oblige_quiet(st, b, o, elt, n, ct)
                h = MAT.view(self, st, b, o, elt, n)
                if h is None: self.oblige(st, 'memory', '%s: well-formed argument %s' % (ct.label, n), False); raise PathEnd()
                if h.empty and not k.endswith('?') and base != 'deadmat':
                    if self.rejecting and ct.opts.get('empty') == 'reject': raise PathEnd()
                    self.oblige(st, 'call', 'precondition of %s: %s is not empty' % (ct.label, n), False); raise PathEnd()
                c.a[n] = h
            elif base in OBJ:
                OBJ[base].call_arg(self, st, c, ct, n, elt, args, blks)
            elif k == 'cd':
                a, b = args.pop(0), args.pop(0); c.a[n] = Cx(a, b)
            else:
                v = args.pop(0)
                if isinstance(v, Undef): raise Unsupported('undefined argument')
                c.a[n] = self.retval(st, v, k)
        ct.spec(c)
        # effects
        for n, k in ct.params:
            base, elt = kind_elt(k)
            if base == 'deadmat':
                b, o = blks[n]
                for off in (24, 40):
                    p = self.rd(st, b, 0, o + off, ir.PTR)
                    if isinstance(p, Ptr) and p.b is not None: self.free(st, p, ct.label)
                    self.wr(st, b, 0, o + off, UNDEF, ir.PTR)
                continue
            p = c.posts.get(n)
            if p is None: continue
            if base in ('newmat', 'mat', 'vmat'):
                b, o = blks[n]
                self.set_mat(st, b, o, elt, p, base == 'newmat')
            elif base in OBJ: OBJ[base].call_effect(self, st, c, n, elt, p, blks)
        rv = None; rh = None
        if rb == 'mat':
            b, idx, o = self.locate(st, sret, 48, 'result object')
            if not hasattr(b, 'objelt'): b.objelt = {}
            b.objelt[o] = relt
            self.set_mat(st, b, o, relt, tuple(c.retspec[1:4]) + (True,), True)
            rh = MAT.view(self, st, b, o, relt, 'ret')
        elif rb == 'tuple':
            b, idx, o = self.locate(st, sret, 16, 'result object')
            x, y = c.retspec[1]
            self.wr(st, b, 0, o + 8, IV(x, 64, False), I64); self.wr(st, b, 0, o, IV(y, 64, False), I64)
        elif rb in OBJ: rh = OBJ[rb].call_ret(self, st, c, sret, relt)
        elif rb == 'void': pass
        elif rb == 'ref': rv = Ptr(c.retspec[1].data, L.scale(ELT[relt][1], c.retspec[2]))
        elif rb == 'thisref': b, o = blks['this']; rv = Ptr(b, o)
        else:
            if c.retspec is not None: rh = c.retspec[1]
            else:
                if rb in SCALARS:
                    w, sg = SCALARS[rb]; rh = self.fresh('r'); lo, hi = rng(w, sg); st.assume(And(rh >= lo, rh <= hi))
                elif rb == 'bool': rh = self.fresh('r', L.BoolS)
                elif rb == 'cd': rh = Cx(self.fresh('r', L.RealS), self.fresh('r', L.RealS))
                else: rh = self.fresh('r', L.RealS)
            if rb in SCALARS: w, sg = SCALARS[rb]; rv = IV(rh, w, sg)
            elif rb == 'cd': rv = [rh.re, rh.im]
            elif rb == 'bool': rv = L.simp_bool(rh)
            else: rv = rh
        posts = None
        for fn, nm in c.ensl:
            if posts is None:
                posts = {}
                for n, k in ct.params:
                    if kind_elt(k)[0] in ('mat', 'newmat', 'vmat') and n in blks: posts[n] = MAT.view(self, st, blks[n][0], blks[n][1], kind_elt(k)[1], n)
                    elif kind_elt(k)[0] in OBJ: posts[n] = OBJ[kind_elt(k)[0]].view_call(self, st, n, kind_elt(k)[1], blks)
            g = fn(rh, posts) if fn.__code__.co_argcount >= 2 else fn(rh)
            for x in as_facts(g): st.pc.append(x)
        return rv

    def oblige_quiet(self, st, b, o, elt, n, ct):
        MAT.check_wf(self, st, b, o, elt, '%s of %s' % (n, ct.label.split('(')[0]))

    def set_mat(self, st, b, o, elt, p, new):
        R, C, fn, realloc = p
        if new:
            cont = lam_of(R, C, fn, elt, self) if R is not None and fn is not None else None
            MAT.create(self, st, b, o, elt, R, C, cont, name='obj'); return
        cur = self.rd(st, b, 0, o + 40, ir.PTR)
        if realloc:
            dp = self.rd(st, b, 0, o + 24, ir.PTR)
            if cur.b is not None: self.free(st, Ptr(cur.b, 0), 'reallocation')
            cont = lam_of(R, C, fn, elt, self) if R is not None and fn is not None else None
            MAT.create(self, st, b, o, elt, R, C, cont, name='obj', dflt=None)
            return
        d = cur.b
        oldR = self.rd(st, b, 0, o, I64).t
        w = self.wbs(st, d)
        if L.eqs(oldR, R) is not True:
            for off, t in ((0, R), (8, C)): self.wr(st, b, 0, o + off, IV(t, 64, False), I64)
        if fn is not None: cont = lam_of(R, C, fn, elt, self)
        else:
            cont = {}
            for s, tk in ELT[elt][2]:
                self.fresh_n += 1; cont[s] = self.new_base('p%d_%d' % (self.fresh_n, s), tk)
        for s, ct_ in cont.items():
            self.wbs(st, d).f[s] = ct_
            self.note(st, d, s, ct_.tk)

# ------------------------------------------------------------------ other object kinds are registered here
OBJ = {}

# ------------------------------------------------------------------ primitives of the C++ library
CT = {'double': (8, [(0, 'double')]), 'float': (4, [(0, 'float')]), 'int': (4, [(0, 'i32')]), 'unsigned int': (4, [(0, 'i32')]),
      'unsigned long': (8, [(0, 'i64')]), 'long': (8, [(0, 'i64')]), 'signed char': (1, [(0, 'i8')]), 'unsigned char': (1, [(0, 'i8')]), 'char': (1, [(0, 'i8')]),
      'std::complex<double>': (16, [(0, 'double'), (8, 'double')]), 'std::complex<int>': (8, [(0, 'i32'), (4, 'i32')]), 'bool': (1, [(0, 'i8')]),
      'std::complex<float>': (8, [(0, 'float'), (4, 'float')]), 'short': (2, [(0, 'i16')])}
TRACKB = 1 << 60
TRACKER = '@_ZZN4susa13memory_tacker8instanceEvE8INSTANCE'
def ledger(eng, st, n):
    """bytes obtained from the allocator minus bytes returned to it"""
    if 'ledger' in st.ghost: st.ghost['ledger'] = add(st.ghost['ledger'], n)
def p_allocate(eng, st, sn, a, i):
    T = re.match(r'std::__new_allocator<(.*)>::allocate', sn).group(1)
    if T not in CT: raise Unsupported('allocation of ' + T)
    sz, lv = CT[T]
    n = eng.U(st, a[1])
    eng.assumed.add('requested storage is below 2^63 bytes and is granted')
    tracked = eng.ct is not None and eng.ct.opts.get('tracked')
    st.assume(Le(L.scale(sz, n), TRACKB if tracked else MAXB))
    if tracked and not eng.limit: eng.oblige(st, 'post', 'a failed allocation is not counted', eng.balance(st))
    b = eng.alloc(st, 'heap', 'alloc', sz, n)
    b.bytes = L.scale(sz, n); b.elt = dict(lv)
    for s, tk in lv: eng.content(st, b, s, tk)
    ledger(eng, st, b.bytes)
    if getattr(eng, 'on_alloc', None): eng.on_alloc(eng, st, b)
    return Ptr(b, 0)
def p_deallocate(eng, st, sn, a, i):
    T = re.match(r'std::__new_allocator<(.*)>::deallocate', sn).group(1)
    p, n = a[1], eng.U(st, a[2])
    if isinstance(p, Ptr) and p.b is None: return None
    if isinstance(p, Ptr) and p.b.kind == 'heap' and not eng.bs(st, p.b).freed:
        if p.b.bytes is not None:
            eng.oblige(st, 'memory', 'released with the size it was allocated with', Eq(p.b.bytes, L.scale(CT[T][0], n)))
            ledger(eng, st, L.neg(p.b.bytes))
    eng.free(st, p, 'deallocate')
    return None
def p_new(eng, st, sn, a, i):
    n = eng.U(st, a[0])
    eng.assumed.add('requested storage is below 2^63 bytes and is granted')
    if isz(n): st.assume(Le(n, MAXB))
    b = eng.alloc(st, 'heap', 'new', None, None); b.bytes = n
    return Ptr(b, 0)
def p_delete(eng, st, sn, a, i):
    p = a[0]
    if isinstance(p, Ptr) and p.b is None: return None
    if len(a) > 1 and isinstance(p, Ptr) and p.b.bytes is not None and p.b.kind == 'heap' and not eng.bs(st, p.b).freed:
        eng.oblige(st, 'memory', 'released with the size it was allocated with', Eq(p.b.bytes, eng.U(st, a[1])))
    eng.free(st, p, 'delete')
    return None
def p_malloc(eng, st, sn, a, i):
    n = eng.U(st, a[0])
    eng.assumed.add('requested storage is below 2^63 bytes and is granted')
    if isz(n): st.assume(Le(n, MAXB))
    b = eng.alloc(st, 'heap', 'malloc', None, None); b.bytes = n
    return Ptr(b, 0)
def p_free(eng, st, sn, a, i):
    p = a[0]
    if isinstance(p, Ptr) and p.b is None: return None
    eng.free(st, p, 'free')
    return None
def p_realloc(eng, st, sn, a, i):
    p, n = a[0], eng.U(st, a[1])
    if not isinstance(p, Ptr): raise Unsupported('realloc of a pointer that is not initialised')
    q = p_malloc(eng, st, sn, [a[1]], i)
    if p.b is None: return q
    old, new = p.b, q.b
    if old.stride is not None:
        new.stride = old.stride; new.count = L.IntDiv(n, old.stride)
        for s, c in list(eng.bs(st, old).f.items()):
            f = eng.content(st, new, s, c.tk)
            eng.wbs(st, new).f[s] = Lam(lambda j, c=c, f=f: Ite(Lt(j, old.count), c.read(j), f.read(j)), c.tk)
    eng.free(st, p, 'realloc')
    return q
def p_nop(eng, st, sn, a, i):
    return None
PRIMS = [
    ('^malloc$', p_malloc), ('^free$', p_free), ('^realloc$', p_realloc),
    (r'^std::__new_allocator<.*>::allocate\(', p_allocate),
    (r'^std::__new_allocator<.*>::deallocate\(', p_deallocate),
    (r'^operator new(\[\])?\(unsigned long\)$', p_new), ('_Znwm', p_new), ('_Znam', p_new),
    (r'^operator delete(\[\])?\(void\*(, unsigned long)?\)$', p_delete), ('_ZdlPv', p_delete), ('_ZdlPvm', p_delete), ('_ZdaPv', p_delete),
]
