"""Control flow, loop invariants (checked candidates), calls."""
import os, z3, time, re, itertools
from fractions import Fraction
from . import ir, logic as L
from .ir import Unsupported
from .logic import And, Or, Not, Ite, Implies, Eq, Lt, Le, Gt, Ge, toz, isz, add, sub, mul, lindec
from .mem import *
from .engine import *

class Frame:
    pass

class Cand:
    def __init__(self, name, fn): self.name, self.fn = name, fn     # fn(view) -> formula

DUMP = os.environ.get('VC_DUMP')
class View:
    """what a loop-invariant candidate may talk about: values of the header phis, the iteration
    count and memory, at the loop header or at the end of an iteration"""
    def __init__(self, eng, fr, phis, it, st): self.eng, self.fr, self.phis, self.it, self.st = eng, fr, phis, it, st
    def content(self, b, s, tk):
        return self.eng.content(self.st, b, s, tk)

NORETURN = re.compile(r'__assert_fail|assert_log|^abort$|^exit$|^_ZSt9terminatev$|^_ZSt(\d+)__throw|__cxa_throw|__clang_call_terminate|__cxa_pure|__throw_')
MATH = {'sqrt', 'sin', 'cos', 'tan', 'exp', 'exp2', 'log', 'log2', 'log10', 'pow', 'floor', 'ceil', 'round', 'trunc', 'rint', 'nearbyint', 'atan', 'atan2', 'hypot', 'cosh', 'sinh', 'tanh', 'asin', 'acos', 'fmod', 'lround', 'llround', 'cbrt', 'log1p', 'copysign', 'cexp', 'cabs'}

class Executor(Engine):
    # ---------------------------------------------------------------- running
    def run(self, fname, st, mangled):
        self.fname = fname
        self.f = self.mod.func(mangled)
        self.L = ir.loops(self.f)
        self.limit = []
        b0 = self.f.order[0]
        self.goto(st, b0, None)

    def tick(self):
        if self.deadline and time.time() > self.deadline: raise Unsupported('time budget exhausted')

    def goto(self, st, b, prev):
        """enter block b from prev"""
        while st.loops and b not in st.loops[-1].body:
            fr = st.loops.pop()
            if self.limit and self.limit[-1] is fr: return
        if b in self.L:
            if st.loops and st.loops[-1].h == b:
                fr = st.loops[-1]
                if fr.unroll:
                    fr2 = Frame(); fr2.__dict__.update(fr.__dict__); fr2.count += 1
                    if fr2.count > fr2.max: raise Unsupported('loop %s exceeds the unrolling limit' % b)
                    st.loops[-1] = fr2
                    if self.limit and self.limit[-1] is fr: self.limit[-1] = fr2
                    self.body(st, b, prev); return
                self.backedge(st, fr, prev); return
            self.enter(st, b, prev); return
        self.body(st, b, prev)

    poison = {}
    def only_select(self, r):
        """is the result used by select instructions only?"""
        m = self.__dict__.setdefault('_onlysel', {})
        k = (self.f.name, r)
        if k not in m:
            n = 0; ok = True
            for b in self.f.blocks.values():
                for i in b.ins:
                    if i.op == 'phi':
                        if any(v == ('lv', r) for v, _ in i.x['inc']): ok = False
                    elif i.op == 'call': 
                        if any(v == ('lv', r) for _, v in i.args): ok = False
                    elif any(a == ('lv', r) or isinstance(a, tuple) and any(x == ('lv', r) for x in a if isinstance(x, tuple)) for a in i.args):
                        if i.op == 'select': n += 1
                        else: ok = False
                    elif ('lv', r) in [v for v in i.x.values() if isinstance(v, tuple)]: ok = False
            m[k] = ok and n > 0
        return m[k]
    def unsigned_use(self, body, h, r):
        """is the loop-carried value r used as an unsigned number?"""
        names = {r}; uns = False
        for i in self.f.blocks[h].ins:
            if i.op == 'phi' and i.res == r: names |= {v[1] for v, p in i.x['inc'] if p in body and v[0] == 'lv'}
        for b in body:
            for i in self.f.blocks[b].ins:
                ar = [a[1] for a in i.args if isinstance(a, tuple) and a[0] == 'lv'] if i.op in ('icmp', 'sext', 'sitofp', 'zext', 'uitofp') else []
                if i.op == 'icmp' and any(a in names for a in ar):
                    p = i.x['pred']
                    if p[0] == 's': return False
                    if p[0] == 'u': uns = True
                elif i.op == 'sext' and ar and ar[0] in names: return False
                elif i.op == 'sitofp' and ar and ar[0] in names: return False
                elif i.op in ('zext', 'uitofp') and ar and ar[0] in names: uns = True
                elif i.op in ('add', 'mul', 'sub') and i.res in names and 'nsw' in i.x['flags']: return False
        return uns
    def phis(self, b, prev):
        out = []
        for i in self.f.blocks[b].ins:
            if i.op != 'phi': break
            for v, p in i.x['inc']:
                if p == prev: out.append((i.res, i.ty, v)); break
        return out

    def body(self, st, b, prev):
        vals = [(r, self.val(st, v, ty)) for r, ty, v in self.phis(b, prev)] if prev is not None else []
        for r, v in vals: st.regs[r] = v
        self.steps(st, b)

    def steps(self, st, b, start=None):
        st.trace = st.trace + (b,)
        self.tick()
        ins = self.f.blocks[b].ins
        k = 0
        while k < len(ins) and ins[k].op == 'phi': k += 1
        self.resume(st, b, k)

    def resume(self, st, b, k):
        ins = self.f.blocks[b].ins
        while k < len(ins):
            i = ins[k]
            op = i.op
            if op in ('br', 'switch', 'ret', 'unreachable'):
                try: return self.term(st, b, i)
                except PathEnd: return
            try:
                self.step(st, i)
            except PathEnd:
                return
            except Fork as fk:
                for s2 in fk.states:
                    if self.P.feasible(s2.pc):
                        if s2.skip: 
                            s2.skip = False
                            self.resume(s2, b, k + 1)
                        else: self.resume(s2, b, k)
                return
            k += 1

    def branch(self, st, conds):
        """conds: [(cond, dest)]"""
        pass

    def term(self, st, b, i):
        if i.op == 'unreachable':
            self.oblige(st, 'ub', 'unreachable code is not reached', False) if not self.rejecting else None
            return
        if i.op == 'ret':
            v = self.val(st, i.args[0], i.ty) if i.args else None
            return self.ret(st, v)
        if i.op == 'br':
            c = i.x['cond']
            if c is None: return self.goto(st, i.x['succ'][0], b)
            v = self.val(st, c, ir.I(1))
            v = L.simp_bool(v)
            t, e = i.x['succ']
            if v is True: return self.goto(st, t, b)
            if v is False: return self.goto(st, e, b)
            todo = []
            for cond, d in ((v, t), (L.Not(v), e)):
                s2 = st.fork(); s2.assume(cond)
                todo.append((s2, d))
            live = [x for x in todo if self.P.feasible(x[0].pc)]
            self.paths += max(0, len(live) - 1)
            if self.paths > self.MAXPATHS: raise Unsupported('too many paths')
            for s2, d in live: self.goto(s2, d, b)
            return
        if i.op == 'switch':
            v = self.val(st, i.args[0], i.ty)
            if not isinstance(v, IV): v = IV(self.b2i(v), 1, False)
            rest = []
            w = i.ty.a
            todo = []
            for k, d in i.x['cases']:
                kv = self.val(st, ('int', k), i.ty)
                c = self.icmp(st, 'eq', v, kv, i.ty) if w > 1 else Eq(v.t, int(kv))
                todo.append((c, d)); rest.append(L.Not(c))
            todo.append((And(*rest), i.x['dflt']))
            for c, d in todo:
                if c is False: continue
                s2 = st.fork(); s2.assume(c)
                if self.P.feasible(s2.pc): self.goto(s2, d, b)
            return

    # ---------------------------------------------------------------- loops
    def havoc_phis(self, st, fr, steps):
        fr.phi = {}
        for r, ty, e in fr.entry:
            ev = e
            if r in steps:
                s = steps[r]
                if isinstance(ev, Ptr): v = Ptr(ev.b, add(ev.o, L.scale(s, fr.it)))
                else: v = IV(add(ev.t, L.scale(s, fr.it)), ev.w, ev.sg)
            elif isinstance(ev, Ptr) or ty.k == 'ptr':
                if r in fr.constptr: v = ev
                elif isinstance(ev, Ptr) and ev.b is not None and r in fr.sameblk:
                    o = self.fresh('off')
                    S = ev.b.stride or 1
                    v = Ptr(ev.b, L.scale(S, o))
                else: raise Unsupported('pointer phi %s changes block' % r)
            elif isinstance(ev, IV):
                v = self.fresh_val(st, ty, 'phi', ev.sg if ev.w > 1 else None)
            else: v = self.fresh_val(st, ty, 'phi')
            fr.phi[r] = v
            st.regs[r] = v

    def objs_of(self, st, b):
        o = getattr(b, 'objs', None)
        if o is None:
            o = []
            if b.ty is not None and b.kind in ('stack',):
                o = self.find_objs(b.ty, 0)
            b.objs = o
        return o
    def find_objs(self, ty, base):
        if ty.k == 'named':
            k = self.objkind(ty.a)
            if k: return [(base, k, ty)]
        try: r = self.mod.resolve(ty)
        except Unsupported: return []
        out = []
        if r.k == 'struct':
            for o, e in zip(self.mod.layout(r)[0], r.a): out += self.find_objs(e, base + o)
        elif r.k == 'arr' and r.a <= 8:
            for k in range(r.a): out += self.find_objs(r.b, base + k * self.mod.size(r.b))
        return out
    def objkind(self, tn):
        for k, kind in self.kinds.items():
            if re.match(kind.pattern, tn.strip('%"')): return kind
        return None

    def havoc_mem(self, st, fr, mods):
        """forget everything the loop may modify"""
        fr.havoc = {}
        fr.objh = []
        done = set()
        for (b, s, tk) in sorted(mods, key=lambda x: (x[0].id, str(x[1]), x[2])):
            if b.id not in st.mem: continue
            obj = None
            for (o, kind, ty) in self.objs_of(st, b):
                if isinstance(s, int) and o <= s < o + kind.size: obj = (o, kind, ty)
            if obj is not None and any((b, obj[0] + f, t) in mods for f, t in obj[1].owning):
                if (b.id, obj[0]) in done: continue
                done.add((b.id, obj[0]))
                self.quiet = True
                try: dead = obj[1].havoc(self, st, b, obj[0])
                finally: self.quiet = False
                if dead != 'dead': fr.objh.append((b, obj[0], obj[1]))
                continue
            if tk == 'free': continue
            if tk == 'ptr': raise Unsupported('loop modifies pointer %s+%s' % (b, s))
            self.fresh_n += 1
            nb = self.new_base('h%d_%d_%d' % (self.fresh_n, b.id, s), tk)
            w = self.wbs(st, b)
            w.f[s] = nb
            fr.havoc[(b, s, tk)] = nb
        for (b, s, tk) in mods:
            if tk == 'free' and b.id in st.mem and not self.bs(st, b).freed:
                # storage released inside the loop: it must belong to an object replaced there
                raise Unsupported('loop releases %s' % b)

    def enter(self, st, h, prev):
        body = self.L[h]
        fr = Frame()
        fr.h, fr.body, fr.unroll, fr.count = h, body, False, 0
        fr.symbase, fr.blkbase, fr.isdry, fr.objh = self.fresh_n, Blk._n, False, []
        fr.key = st.trace
        fr.depth = len([x for x in st.loops if not x.unroll])
        fr.entry = [(r, ty, self.val(st, v, ty)) for r, ty, v in self.phis(h, prev)]
        fr.pre = st
        mx = self.concrete_trip(st, fr, prev)
        if mx is not None:
            fr.unroll, fr.max = True, mx
            st.loops.append(fr)
            return self.body(st, h, prev)
        if self.opts.get('bounded'):
            fr.unroll, fr.max = True, self.opts['bounded']
            fr.soft = True
            st.loops.append(fr)
            return self.body(st, h, prev)
        fr.it = self.fresh('it')
        ent = []
        for r, ty, e in fr.entry:
            if isinstance(e, IV) and type(e) is IV and e.w in (16, 32) and e.sg and self.unsigned_use(body, h, r): e = self.conv(st, e, False)
            ent.append((r, ty, e))
        fr.entry = ent
        ck = ('mods', fr.key)
        mods, steps, writes, conds, fr.constptr, fr.sameblk = self.dry(st, fr)
        fr.steps, fr.writes, fr.conds = steps, writes, conds
        fr.drybase, fr.dryhavoc = conds[0].base, conds[0].havoc
        # generic iteration state
        def generic():
            s = st.fork()
            fr2 = Frame(); fr2.__dict__.update(fr.__dict__)
            s.assume(fr.it >= 0)
            self.havoc_phis(s, fr2, steps)
            self.havoc_mem(s, fr2, mods)
            fr2.livehdr = s.live
            s.loops.append(fr2)
            return s, fr2
        s0, fr0 = generic()
        fr.__dict__.update(fr0.__dict__)
        if self.mode == 'dry':
            return self.explore_generic(s0, fr0)
        cands = self.candidates(st, fr)
        killed = self.killed.setdefault(fr.key, set())
        # initialisation
        entryview = View(self, fr, {r: e for r, ty, e in fr.entry}, 0, st)
        live = []
        for c in cands:
            if c.name in killed: continue
            try: f = c.fn(entryview)
            except Unsupported: killed.add(c.name); continue
            ok, by = self.prove(st, f, timeout=1500)
            if not ok: killed.add(c.name); self.dbg('kill-init', fr, c)
            else: live.append(c)
        # Houdini iteration on the loop body
        save = self.mode
        rounds = 0
        while True:
            rounds += 1
            self.mode = 'houdini'
            s, f2 = self.instantiate(s0, fr0, live)
            f2.live = live; f2.bad = set()
            self.limit.append(f2)
            try: self.run_header(s, f2)
            finally: self.limit.pop()
            self.mode = save
            if not f2.bad: break
            killed |= f2.bad
            live = [c for c in live if c.name not in f2.bad]
            if rounds > 40: raise Unsupported('invariant search does not converge')
        # final: record the obligations and go on
        if self.mode == 'final':
            for c in live:
                ob = Ob('invariant-init', c.name, self.fname, h); ob.status = 'proved'; ob.by = 'z3'
                self.obs.append(ob)
            nobs = len(self.obs)
            for again in range(3):
                s, f2 = self.instantiate(s0, fr0, live)
                f2.live = live; f2.bad = set(); f2.final = True
                seen = getattr(self, 'loops_seen', 0)
                self.run_header(s, f2)
                if not f2.bad: self.loops_seen = seen + 1; break
                del self.obs[nobs:]        # decided the other way before (solver time): once more
                self.loops_seen = seen
            else: raise Unsupported('unstable invariant set')
            for c in live:
                ob = Ob('invariant-preserved', c.name, self.fname, h); ob.status = 'proved'; ob.by = 'z3'
                self.obs.append(ob)
        else:
            s, f2 = self.instantiate(s0, fr0, live)
            f2.live = []; f2.bad = set(); f2.skipback = True
            self.run_header(s, f2)

    def dbg(self, what, fr, c):
        if self.opts.get('debug'): print('   ', what, fr.h, c.name)

    def instantiate(self, s0, fr0, live):
        s = s0.fork()
        f2 = Frame(); f2.__dict__.update(fr0.__dict__)
        s.loops[-1] = f2
        v = View(self, f2, f2.phi, f2.it, s)
        for c in live:
            for x in as_facts(c.fn(v)): s.pc.append(x)
        f2.base = len(s.pc)
        return s, f2

    def run_header(self, s, fr):
        self.steps(s, fr.h)

    def explore_generic(self, s, fr):
        fr.live = []; fr.bad = set(); fr.skipback = True; fr.base = len(s.pc)
        self.run_header(s, fr)

    def backedge(self, st, fr, prev):
        vals = {r: self.val(st, v, ty) for r, ty, v in self.phis(fr.h, prev)}
        if self.mode == 'dry' and fr.isdry:
            fr.latches.append((vals, list(st.pc[fr.base:]), st))
            return
        if getattr(fr, 'skipback', False) or self.mode == 'dry': return
        it1 = add(fr.it, 1)
        # induction variables really advance by their step
        for r, ty, e in fr.entry:
            if r in fr.steps:
                exp = Ptr(e.b, add(e.o, L.scale(fr.steps[r], it1))) if isinstance(e, Ptr) else IV(add(e.t, L.scale(fr.steps[r], it1)), e.w, e.sg)
                g = self.veq(st, vals[r], exp)
                ok, _ = self.prove(st, g, 1500)
                if not ok:
                    if self.mode == 'final': self.oblige(st, 'induction', 'induction variable advances uniformly', g)
                    raise Unsupported('induction variable %s' % r)
            elif ty.k == 'ptr':
                v = vals[r]
                if r in fr.constptr:
                    if not (isinstance(v, Ptr) and v.b is e.b and self.prove(st, Eq(v.o, e.o), 1500)[0]): raise Unsupported('pointer phi')
                elif not (isinstance(v, Ptr) and v.b is e.b): raise Unsupported('pointer phi')
        # ownership: storage obtained in the iteration is released or handed to an object replaced in the loop
        if self.mode == 'final':
            s2 = st
            own = set()
            for (b, o, kind) in fr.objh:
                for x in kind.owned(self, st, b, o): own.add(x.id)
            base_live = {b.id for b in fr.livehdr}
            extra = [b for b in st.live if b.id not in base_live and b.id not in own]
            if extra: self.oblige(st, 'memory', 'loop iteration releases the storage it allocates (%s)' % extra[0].name, False)
            for (b, o, kind) in fr.objh: kind.check_wf(self, st, b, o)
        v = View(self, fr, vals, it1, st)
        for c in fr.live:
            if c.name in fr.bad: continue
            try: f = c.fn(v)
            except Unsupported: fr.bad.add(c.name); continue
            ok, by = self.prove(st, f, timeout=2500)
            if not ok:
                fr.bad.add(c.name); self.dbg('kill-step', fr, c)
                if DUMP and re.search(DUMP, c.name + fr.h):
                    print('DUMP', c.name, fr.h, self.runname)
                    for x in st.pc[-60:]: print('    ', L.show(x) if hasattr(L, 'show') else str(x).replace(chr(10), ' ')[:600])
                    print('   GOAL', [str(g).replace(chr(10), ' ')[:int(os.environ.get("VC_DL", 900))] for g in as_facts(f)])

    def veq(self, st, a, b):
        if isinstance(a, Ptr): return Eq(a.o, b.o) if a.b is b.b else False
        if isinstance(a, IV):
            if a.sg != b.sg: a = self.conv(st, a, b.sg)
            return Eq(a.t, b.t)
        return Eq(a, b)

    def concrete_trip(self, st, fr, prev):
        """loops whose exit test is decided by constants are unrolled exactly"""
        ins = self.f.blocks[fr.h].ins
        lim = self.opts.get('unroll', 12)
        env = {r: e for r, ty, e in fr.entry}
        # find exit branch with icmp of induction phi against constant
        def const_test(b):
            t = self.f.blocks[b].ins[-1]
            if t.op != 'br' or t.x['cond'] is None: return None
            if all(s in fr.body for s in t.x['succ']): return None
            c = t.x['cond']
            for i in self.f.blocks[b].ins:
                if i.res == c[1] and i.op == 'icmp':
                    a, k = i.args
                    if k[0] == 'int': return (a, k[1], i.x['pred'])
            return None
        r = const_test(fr.h)
        if r is None: 
            # single block / latch test
            for b in fr.body:
                if fr.h in self.f.blocks[b].succs():
                    r = const_test(b)
            if r is None: return None
        a, k, pred = r
        if a[0] != 'lv': return None
        # phi or phi+const
        name = a[1]
        for b in fr.body:
            for i in self.f.blocks[b].ins:
                if i.res == name and i.op in ('add', 'sub') and i.args[1][0] == 'int' and i.args[0][0] == 'lv': name = i.args[0][1]
        e = env.get(name)
        if isinstance(e, IV) and isinstance(e.t, int) and abs(e.t - k) <= lim: return lim + 2
        return None

    def dry(self, st, fr):
        """what does one arbitrary iteration modify? -> (mods, steps, writes, conds)"""
        save = self.mode, getattr(self, 'drymods', None), getattr(self, 'drywrites', None)
        steps = {}
        mods = {}
        constptr, sameblk = set(), set()
        fr.isdry = True
        r = None
        try:
            lost = set()
            for rnd in range(10):
                self.mode = 'dry'; self.drymods = {}; self.drywrites = []
                s = st.fork()
                f2 = Frame(); f2.__dict__.update(fr.__dict__)
                f2.constptr = {r for r, ty, e in fr.entry if ty.k == 'ptr'} if rnd == 0 else constptr
                f2.sameblk = sameblk
                f2.latches = []; f2.steps = steps; f2.skipback = False
                s.assume(fr.it >= 0)
                self.havoc_phis(s, f2, steps)
                self.havoc_mem(s, f2, mods)
                s.loops.append(f2)
                f2.base = len(s.pc); f2.live = []; f2.bad = set()
                f2.livehdr = s.live
                self.limit.append(f2)
                try: self.run_header(s, f2)
                finally: self.limit.pop()
                newmods = {k: v for k, v in self.drymods.items() if k[0].id in st.mem}
                # induction steps
                nsteps = {}
                cp, sb = set(), set()
                for r_, ty, e in fr.entry:
                    ds = set()
                    okp = True; same = True
                    for vals, _, ls in f2.latches:
                        v = vals[r_]; p = f2.phi[r_]
                        if isinstance(v, Ptr) and isinstance(p, Ptr):
                            if v.b is not p.b: ds.add(None); okp = same = False; continue
                            c, d = lindec(sub(v.o, p.o)); ds.add(c if not d else None)
                        elif isinstance(v, IV) and isinstance(p, IV) and v.w > 1:
                            if v.sg != e.sg: v = self.conv(ls, v, e.sg)
                            c, d = lindec(sub(v.t, p.t)); ds.add(c if not d else None)
                        else: ds.add(None)
                    if len(ds) == 1 and None not in ds:
                        k = ds.pop()
                        if k != 0: nsteps[r_] = k
                        elif ty.k == 'ptr': cp.add(r_)
                        elif isinstance(e, IV): nsteps[r_] = 0
                    elif ty.k == 'ptr' and same: sb.add(r_)
                    elif ty.k == 'ptr' and f2.latches: raise Unsupported('pointer phi %s changes block' % r_)
                    elif ty.k == 'ptr': cp.add(r_)
                nsteps = {k: v for k, v in nsteps.items() if k not in lost}
                stable = set(newmods) <= set(mods) and nsteps == steps and rnd > 0 and cp == constptr and sb == sameblk
                if rnd > 0 and not (nsteps == steps):
                    # a step that was lost is not an induction variable
                    lost |= {k for k, v in steps.items() if nsteps.get(k) != v}
                    nsteps = {k: v for k, v in nsteps.items() if k not in lost}
                mods.update(newmods); steps = nsteps; constptr, sameblk = cp, sb
                if stable: break
            else:
                raise Unsupported('modification analysis does not converge')
            writes = self.drywrites
            return mods, steps, writes, (f2, f2.latches), constptr, sameblk
        finally:
            fr.isdry = False
            outer = save[1]
            if outer is not None and save[0] == 'dry':
                for k in self.drymods: outer.setdefault(k, [])
                for k in mods: outer.setdefault(k, [])
            self.mode, self.drymods = save[0], save[1]
            # writes of inner loops are re-recorded when the outer exploration passes through them
            self.drywrites = save[2]

    # ---------------------------------------------------------------- candidate invariants
    def candidates(self, st, fr):
        out = []
        seen = set()
        def addc(name, fn):
            if name not in seen:
                seen.add(name); out.append(Cand(name, fn))
        f2, latches = fr.conds
        # 1. bounds of induction variables / integer phis against the loop-invariant operands of comparisons
        terms = {}; incl = []
        for b in fr.body:
            for i in self.f.blocks[b].ins:
                if i.op == 'icmp' and i.x['oty'].k in ('int', 'ptr'):
                    for a in i.args:
                        t = self.invterm(st, fr, a, i.x['oty'])
                        if t is not None:
                            terms[str(t)] = t
                            if i.x.get('pred', '')[1:] in ('le', 'ge', 'gt') and not isinstance(t, tuple): incl.append(str(t))
        anyincl = any(i.op == 'icmp' and i.x.get('pred', '')[1:] in ('le', 'ge', 'gt') for b in fr.body for i in self.f.blocks[b].ins)
        # path facts of the iteration also mention bounds (through calls)
        for vals, pcs, ls in latches:
            for fct in pcs:
                for t in self.bound_terms(fct, fr):
                    if str(t) not in terms and anyincl: incl.append(str(t))
                    terms.setdefault(str(t), t)
        phi_int = [(r, ty, e) for r, ty, e in fr.entry if isinstance(e, (IV, Ptr)) and (not isinstance(e, Ptr) or e.b is not None)]
        for n, (r, ty, e) in enumerate(phi_int):
            if isinstance(e, IV) and e.w == 1: continue
            if isinstance(e, Ptr): get = lambda v, r=r: v.phis[r].o; e0 = e.o
            else: get = lambda v, r=r, e=e: self.conv(v.st, v.phis[r], e.sg).t; e0 = e.t
            if fr.steps.get(r, 1) == 0: continue
            for k, t in enumerate(terms.values()):
                if isinstance(t, tuple) != isinstance(e, Ptr): continue
                tt = t[1] if isinstance(t, tuple) else t
                if isinstance(t, tuple) and t[0] is not e.b: continue
                for nm, fn in (('<=', Le), ('>=', Ge), ('<', Lt), ('>', Gt)):
                    if tt is t and str(t) in incl and nm[-1] == '=': addc('phi%d %s term%d and one' % (n, nm, k), lambda v, get=get, tt=tt, fn=fn, nm=nm: fn(get(v), add(tt, 1 if nm == '<=' else -1)))
                    addc('phi%d %s term%d' % (n, nm, k), lambda v, get=get, tt=tt, fn=fn: fn(get(v), tt))
            if r not in fr.steps:
                addc('phi%d>=entry' % n, lambda v, get=get, e0=e0: Ge(get(v), e0))
                addc('phi%d<=entry' % n, lambda v, get=get, e0=e0: Le(get(v), e0))
                for m, (r2, ty2, e2) in enumerate(phi_int):
                    if r2 == r or isinstance(e2, Ptr) or isinstance(e, Ptr) or e2.w == 1: continue
                    g2 = lambda v, r=r2, e=e2: self.conv(v.st, v.phis[r], e.sg).t
                    addc('phi%d<=phi%d' % (n, m), lambda v, get=get, g2=g2: Le(get(v), g2(v)))
                    addc('phi%d<phi%d' % (n, m), lambda v, get=get, g2=g2: Lt(get(v), g2(v)))
        addc('no iteration', lambda v: Eq(v.it, 0))
        for n, (r, ty, e) in enumerate(fr.entry):
            if r in fr.steps or isinstance(e, (Ptr, Undef)): continue
            def atentry(v, r=r, e=e):
                f = self.veq(v.st, v.phis[r], e)
                return Implies(Eq(v.it, 0), f)
            addc('entry%d' % n, atentry)
        # 2. facts established by every completed iteration
        self.cond_cands(st, fr, addc)
        # 3. what the iterations wrote
        self.write_cands(st, fr, addc)
        # 4. accumulators
        self.fold_cands(st, fr, addc)
        # 5. hints from the contract
        if self.hints:
            for nm, fn in self.hints(self, st, fr) or []: addc('hint:' + nm, fn)
        for nm, fn in getattr(getattr(self, 'c', None), 'invs', None) or []:
            addc('contract:' + nm, lambda v, fn=fn: fn(self.objviews(v.st), v.it))
        for nm, n, w, fn in getattr(getattr(self, 'c', None), 'phinvs', None) or []:
            rs = [r for r, ty, e in fr.entry if isinstance(e, IV) and e.w == w]
            for tup in itertools.permutations(rs, n):
                addc('contract:%s %s' % (nm, ' '.join(tup)), lambda v, fn=fn, tup=tup: fn(v.it, *[self.U(v.st, v.phis[r]) for r in tup]))
        for nm, fn in getattr(getattr(self, 'c', None), 'dones', None) or []:
            for key in fr.havoc:
                (b, s, tk) = key
                for m, spec in enumerate(self.speccontents):
                    if spec['tk'] != tk or spec['sub'] != s or b.id not in st.mem: continue
                    def done(v, key=key, spec=spec, fn=fn):
                        C = v.content(*key); lim = fn(v.it)
                        def q(x):
                            r = C.read(x)
                            return (And(Le(0, x), Lt(x, lim)), Eq(r, spec['read'](x)), [r] if isz(r) else [])
                        return Q(['x'], q)
                    addc('contract:%s %s+%d' % (nm, b.name, s), done)
        return out

    def invterm(self, st, fr, a, ty):
        """value of an operand that does not change in the loop"""
        if a[0] == 'int':
            v = self.val(st, a, ty)
            return v.t if isinstance(v, IV) else None
        if a[0] == 'lv' and a[1] in st.regs:
            # defined before the loop?
            for b in fr.body:
                for i in self.f.blocks[b].ins:
                    if i.res == a[1]: return None
            v = st.regs[a[1]]
            if isinstance(v, IV): return v.t
            if isinstance(v, Ptr) and v.b is not None: return (v.b, v.o)
        return None
    def bound_terms(self, f, fr):
        """terms X of comparisons of an expression in it with X"""
        out = []
        st = [f]
        while st:
            x = st.pop()
            if z3.is_quantifier(x): continue
            if z3.is_and(x) or z3.is_or(x) or z3.is_not(x): st += x.children(); continue
            if z3.is_app(x) and x.num_args() == 2 and (z3.is_le(x) or z3.is_ge(x) or z3.is_lt(x) or z3.is_gt(x) or z3.is_eq(x)):
                a, b = x.children()
                if z3.is_int(a):
                    c, d = lindec(sub(a, b))
                    its = [(i, v) for i, v in d.items() if i == fr.it.get_id()]
                    if its:
                        # it*k + rest <> 0 : bound for the phi values; report -(rest)/k when k=+-1
                        k = its[0][1][1]
                        if abs(k) == 1:
                            rest = L.fromlin(c, {i: v for i, v in d.items() if i != fr.it.get_id()})
                            t = L.scale(-k, rest)
                            # phi = e + s*it: candidate bounds for phi: e + s*t
                            for r, ty, e in fr.entry:
                                if r in fr.steps and isinstance(e, IV): 
                                    tt = add(e.t, L.scale(fr.steps[r], t))
                                    if not self.mentions_new(tt, fr): out.append(tt)
        return out
    def mentions_new(self, t, fr):
        """does t contain symbols created inside the loop analysis?"""
        if not isz(t): return False
        for s in syms(t):
            if s.get_id() == fr.it.get_id(): return True
            n = s.decl().name()
            if '!' in n:
                try: k = int(n.rsplit('!', 1)[1])
                except ValueError: continue
                if k > fr.symbase: return True
        return False

    def inner_its(self, fr, frames):
        k = None
        for n, f in enumerate(frames):
            if f['h'] == fr.h: k = n
        return frames[k + 1:] if k is not None else []

    def cond_cands(self, st, fr, addc):
        f2, latches = fr.conds
        if not latches: return
        # conditions common to all completed iterations, generalised over the iteration number
        sets = []
        for vals, pcs, ls in latches:
            sets.append({p.get_id(): p for p in pcs})
        common = [p for i, p in sets[0].items() if all(i in s for s in sets[1:])]
        n = 0
        for p in common:
            if L.has_quant(p): continue
            if self.alien(p, fr, []): continue
            if not contains(p, fr.it): continue
            if only_linear_it(p): continue
            n += 1
            def fn(v, p=p):
                def q(j):
                    b = z3.substitute(p, (fr.it, j))
                    b = self.replace_havoc(b, fr, None)
                    return (And(Le(0, j), Lt(j, v.it)), b, pats_of(b, j))
                return Q(['j'], q)
            addc('each iteration: cond%d' % n, fn)

    def alien(self, t, fr, allowed):
        """symbols that are neither fixed at loop entry, the iteration counters, nor havocked contents"""
        ok = {x.get_id() for x in allowed} | {fr.it.get_id()}
        for s in syms(t):
            if s.get_id() in ok: continue
            n = s.decl().name()
            if '!' in n:
                try: k = int(n.rsplit('!', 1)[1])
                except ValueError: continue
                if k > fr.symbase: return True
        for d in fdecls(t):
            n = d.name()
            m = re.match(r'(?:h|sc)(\d+)_', n)
            if m and int(m.group(1)) > fr.symbase and n not in {b.name for b in fr.dryhavoc.values()}: return True
            m = re.match(r'm(\d+)_', n)
            if m and int(m.group(1)) > fr.blkbase: return True
        return False

    def replace_havoc(self, t, fr, chain):
        """contents read inside the iteration -> contents at loop entry"""
        if not isz(t): return t
        mp = {}
        for (b, s, tk), nb in fr.dryhavoc.items():
            if b.id in fr.pre.mem: mp[nb.name] = self.content(fr.pre, b, s, tk)
        if not mp: return t
        return subst_fun(t, mp)

    def write_cands(self, st, fr, addc):
        byblk = {}
        for (b, s, tk, idx, v, pcs, frames) in fr.writes:
            if b.id not in st.mem: continue
            byblk.setdefault((b, s, tk), []).append((idx, v, pcs, frames))
        allmods = {k for k in fr.havoc}
        for key in allmods:
            (b, s, tk) = key
            ws = byblk.get(key)
            if not ws: continue
            entry = self.content(st, b, s, tk)
            infos = []
            okall = True
            cells = {}
            for w in ws:
                if isinstance(w[3], int): cells[w[3]] = 1
            for i in cells:
                addc('cell %s+%d[%s] unchanged' % (b.name, s, i), lambda v, key=key, i=i, e=entry: Eq(v.content(*key).read(i), e.read(i)))
            for (idx, v, pcs, frames) in ws:
                w = self.write_info(st, fr, b, idx, v, pcs, frames)
                if w is None: okall = False
                else: infos.append(w)
            # remove duplicates (several analysis rounds / paths)
            # value candidates
            for n, w in enumerate(infos):
                if w['val'] is not None:
                    addc('written %s+%d w%d' % (b.name, s, n), self.mk_written(fr, key, w, lambda i, js, w=w: w['valfn'](js)))
                for m, spec in enumerate(self.speccontents):
                    if spec['tk'] != tk or spec['sub'] != s: continue
                    addc('spec%d %s+%d w%d' % (m, b.name, s, n), self.mk_written(fr, key, w, lambda i, js, spec=spec: spec['read'](i)))
            for n, w in enumerate(infos):
                if w['dep'] and not w['usable']: self.mono_cands(st, fr, addc, key, n, w, infos)
            # frame
            if okall and infos:
                addc('frame %s+%d' % (b.name, s), self.mk_frame(fr, key, infos, entry, b))
            if not okall:
                for (idx, v, pcs, frames) in ws: pass
            # in-progress accumulators in memory
            for n, w in enumerate(infos):
                if not w['own']:      # index does not depend on this loop's counter
                    for nm, term in self.fold_terms(st, fr, tk, w['idx']):
                        addc('cell %s+%d w%d == %s' % (b.name, s, n, nm), lambda v, key=key, w=w, term=term: Eq(v.content(*key).read(w['idx']), term(v)) if not w['inner'] else True)

    def mono_cands(self, st, fr, addc, key, n, w, infos):
        """writes at (p(i), q(j)) with p, q non-decreasing: everything before the current position is final"""
        (b, s, tk) = key
        u = L.unlin(w['idx'])
        if u is None: return
        comp = [u[0], u[1]]
        own = [k for k in (0, 1) if contains(comp[k], fr.it)]
        if len(own) != 1: return
        k = own[0]; o = 1 - k
        inner = any(contains(comp[o], x) for x in w['inner'])
        RR = u[2]
        for m, spec in enumerate(self.speccontents):
            if spec['tk'] != tk or spec['sub'] != s: continue
            lim = [spec['R'], spec['C']]
            def mk(eqother, guard, spec=spec, lim=lim):
                def fn(v):
                    C = v.content(*key)
                    pk = self.sub_js(comp[k], w, [(fr.it, v.it)])
                    def q(x, y):
                        xs = [None, None]; xs[k] = x; xs[o] = y
                        g = [Le(0, x), Le(0, y), Lt(x, lim[k]), Lt(y, lim[o])]
                        if inner: g += [Lt(x, pk)]
                        elif eqother: g += [Lt(x, pk), Eq(y, comp[o])]
                        else: g += [Lt(y, comp[o])]
                        if guard is not None: g.append(guard)
                        idx = L.lin(xs[0], xs[1], RR)
                        r = C.read(idx)
                        return (And(*g), Eq(r, spec['read'](idx)), [r] if isz(r) else [])
                    return Q(['x', 'y'], q)
                return fn
            if inner: addc('spec%d %s+%d w%d before' % (m, b.name, s, n), mk(False, None))
            else:
                addc('spec%d %s+%d w%d outer' % (m, b.name, s, n), mk(False, None))
                addc('spec%d %s+%d w%d line' % (m, b.name, s, n), mk(True, None))
                for gi, g in enumerate(literals([y for x in infos for y in x['allguards'] if isz(y)])):
                    if contains(g, fr.it) or any(contains(g, x) for x in w['inner']): continue
                    addc('spec%d %s+%d w%d line g%d' % (m, b.name, s, n, gi), mk(True, g))

    def write_info(self, st, fr, b, idx, v, pcs, frames):
        its = [f['it'] for f in frames if not f['unroll']]
        own = fr.it
        k = next((n for n, t in enumerate(its) if t.get_id() == own.get_id()), None)
        if k is None: return None
        inner = its[k + 1:]
        allv = [own] + inner
        if not isz(idx): idx = toz(idx)
        if self.alien(idx, fr, inner): return None
        dep = [x for x in allv if contains(idx, x)]
        guards = []
        for p in pcs[fr.drybase:]:
            if L.has_quant(p): continue
            if p.get_id() in self.oblfacts or self.alien(p, fr, inner): continue
            guards.append(p)
        w = dict(idx=idx, dep=dep, own=contains(idx, own), inner=[x for x in inner if contains(idx, x)], val=None)
        # drop guards about counters the index does not depend on
        gd = [g for g in guards if all((not contains(g, x)) or any(x.get_id() == y.get_id() for y in dep) for x in allv)]
        w['guards'] = gd; w['allguards'] = guards
        val = v
        if isz(val):
            if self.alien(val, fr, inner) or any(contains(val, x) and not any(x.get_id() == y.get_id() for y in dep) for x in allv): val = None
        w['val'] = val
        # positions: idx as nested lin of affine expressions
        pos = []
        isdep = lambda x: any(x.get_id() == y.get_id() for y in dep)
        def split(t):
            """-> t with products of a counter and an invariant factor u written as lin(.., counter, u)"""
            u = L.unlin(t)
            if u is not None:
                a = split(u[0]); c = split(u[1]); return L.lin(a, c, u[2])
            for i, (x, q) in lindec(t)[1].items():
                fs = L.factors(x)
                if q == 1 and len(fs) > 1 and sum(isdep(y) for y in fs) == 1:
                    rest = [y for y in fs if not isdep(y)]
                    t2 = L.index_norm(t, L.mkprod(rest))
                    u = L.unlin(t2)
                    if u is not None and not any(isdep(y) for y in L.factors(u[2])):
                        a = split(toint_(u[0])); c = split(toint_(u[1])); return keeplin(a, c, u[2])
            pos.append(t); return t
        idx = split(idx); w['idx'] = idx
        inv = {}
        usable = True
        plist = [None] * len(pos)
        todo = list(range(len(pos)))
        while todo and usable:
            for k in todo:
                t = pos[k]
                c, d = lindec(t)
                vs = [(i, x, q) for i, (x, q) in d.items() if isdep(x)]
                if any(contains(x, y) for i, (x, q) in d.items() for y in dep if not isdep(x)): usable = False; break
                un = [v for v in vs if v[0] not in inv]
                if not vs: plist[k] = ('const', t)
                elif len(un) == 1 and abs(un[0][2]) == 1:
                    i, x, q = un[0]
                    inv[i] = k
                    plist[k] = ('var', x, q, L.fromlin(c, {a: bq for a, bq in d.items() if a != i}), len(inv))
                else: continue
                todo.remove(k); break
            else: usable = False
        if len(inv) != len(dep): usable = False
        w['usable'] = usable; w['plist'] = plist
        if not usable and dep: w['raw'] = True
        def rebuild(vals):
            it = iter(vals)
            def go(t):
                u = L.unlin(t)
                if u is not None:
                    a = go(u[0]); c = go(u[1]); return keeplin(a, c, u[2])
                return next(it)
            return go(idx)
        w['rebuild'] = rebuild
        w['valfn'] = lambda js: val
        return w

    def sub_js(self, t, w, js):
        if not isz(t): return t
        pairs = [(x, toz(j)) for x, j in js]
        return L.renorm(z3.substitute(t, *pairs)) if pairs else t

    def solve_pos(self, w, vals):
        """counters at which the write hits the given positions -> ([(counter, term)], conditions)"""
        js, cond = [], []
        for p, x in sorted(zip(w['plist'], vals), key=lambda a: a[0][4] if a[0][0] == 'var' else 0):
            if p[0] == 'const': cond.append(Eq(x, p[1]))
            else:
                rest = self.sub_js(p[3], w, js)
                if isz(rest): rest = L.norm(rest)
                js.append((p[1], sub(x, rest) if p[2] == 1 else sub(rest, x)))
        return js, cond
    def mk_written(self, fr, key, w, valf):
        def fn(v):
            C = v.content(*key)
            if not w['dep'] or (not w['own'] and not w['inner']):
                # fixed cell: written once at least one iteration has run
                g = Gt(v.it, 0)
                i = w['idx']
                x = self.replace_havoc(valf(i, []), fr, None)
                return Implies(And(g, *w['guards']), Eq(C.read(i), x))
            names = ['x%d' % n for n, p in enumerate(w['plist']) if p[0] == 'var'] if w['usable'] else ['j%d' % n for n, _ in enumerate(w['dep'])]
            def q(*xs):
                js = []
                if w['usable']:
                    it = iter(xs)
                    vals = [next(it) if p[0] == 'var' else p[1] for p in w['plist']]
                    js, _ = self.solve_pos(w, vals)
                    idx = w['rebuild'](vals)
                else:
                    js = list(zip(w['dep'], xs))
                    idx = self.sub_js(w['idx'], w, js)
                g = [And(Le(0, j)) for _, j in js]
                if w['own']:
                    for x, j in js:
                        if x.get_id() == fr.it.get_id(): g.append(Lt(j, v.it))
                else: g.append(Gt(v.it, 0))
                for gd in w['guards']: g.append(self.replace_havoc(self.sub_js(gd, w, js), fr, None))
                val = valf(idx, js)
                val = self.replace_havoc(self.sub_js(val, w, js), fr, None)
                r = C.read(idx)
                return (And(*g), Eq(r, val), [r] if isz(r) else [])
            return Q(names, q)
        return fn

    def mk_frame(self, fr, key, infos, entry, b):
        def fn(v):
            C = v.content(*key)
            # quantify over positions when all writes share the lin structure, else over the plain index
            depth = {len(w['plist']) if w['usable'] or not w['dep'] else -1 for w in infos}
            if len(depth) != 1 or -1 in depth:
                raise Unsupported('frame')
            n = depth.pop()
            skel = {skeleton(w['idx']) for w in infos}
            if len(skel) != 1: raise Unsupported('frame')
            w0 = infos[0]
            def q(*xs):
                idx = w0['rebuild'](list(xs)) if n > 0 else None
                touched = []
                for w in infos:
                    js, cond = self.solve_pos(w, xs)
                    cond += [Le(0, j) for _, j in js]
                    if w['own']:
                        for y, j in js:
                            if y.get_id() == fr.it.get_id(): cond.append(Lt(j, v.it))
                    else: cond.append(Gt(v.it, 0))
                    for gd in w['guards']: cond.append(self.replace_havoc(self.sub_js(gd, w, js), fr, None))
                    touched.append(And(*cond))
                r = C.read(idx)
                rng_ = []
                def ranges(t):
                    u = L.unlin(t)
                    if u is not None:
                        rng_.extend([Le(0, u[0]), Lt(u[0], u[2]), Le(0, u[1])]); ranges(u[0]); ranges(u[1])
                ranges(idx)
                return (And(*rng_, *[Not(t) for t in touched]), Eq(r, entry.read(idx)), [r] if isz(r) else [])
            Qf = Q(['x%d' % k for k in range(n)], q)
            return Qf
        return fn

    def fold_terms(self, st, fr, tk, cell=None):
        """spec folds at the current iteration count, for the assignments of parameters to counters;
        cell: the parameters are the position of that cell"""
        out = []
        chain = [f for f in st.loops if not f.unroll]
        for F in self.folds:
            if F.tk != tk and not (tk.startswith('i') and F.tk == 'int'): continue
            cands = []
            for f in chain:
                for r, ty, e in f.entry:
                    if r in f.steps and f.steps[r] != 0 and isinstance(e, IV): cands.append((r, f.phi[r].t))
            cands += [('arg%d' % n, t) for n, t in enumerate(self.intargs)]
            cands.append(('0', 0))
            own = [(r, (lambda v, r=r, e=e: v.eng.conv(v.st, v.phis[r], e.sg).t)) for r, ty, e in fr.entry if r in fr.steps and fr.steps[r] != 0 and isinstance(e, IV)]
            if not any(fr.steps[r] == 1 and L.eqs(e.t, 0) is True for r, ty, e in fr.entry if r in fr.steps and isinstance(e, IV)): own.append(('it', lambda v: v.it))
            combos = itertools.product(cands, repeat=F.arity)
            if cell is not None and F.arity:
                u = L.unlin(cell)
                pos = [('row', toint_(u[0])), ('col', toint_(u[1]))] if u is not None else [('idx', cell), ('0', 0)]
                combos = list(itertools.permutations(pos, F.arity)) if F.arity <= 2 else list(combos)
                if F.arity == 2 and u is not None: combos.append((('idx', cell), ('0', 0)))
            for ps in combos:
                if len(ps) > 1 and len({p[0] for p in ps}) < len(ps) and not any(p[0] == '0' for p in ps): continue
                for on, of in own:
                    for dlt in F.deltas:
                        out.append(('%s(%s;%s%+d)' % (F.name, ','.join(p[0] for p in ps), on, dlt),
                                lambda v, F=F, ps=ps, of=of, dlt=dlt: F.app([p[1] for p in ps], add(of(v), dlt))))
        return out[:400]

    def fold_cands(self, st, fr, addc):
        if not self.folds: return
        for n, (r, ty, e) in enumerate(fr.entry):
            if r in fr.steps: continue
            if ty.k in ('double', 'float'): tk = ty.k
            elif ty.k == 'int' and ty.a > 1: tk = ty.key()
            else: continue
            for nm, term in self.fold_terms(st, fr, tk):
                addc('phi%d == %s' % (n, nm), lambda v, r=r, term=term, e=e: Eq(v.phis[r] if not isinstance(e, IV) else self.conv(v.st, v.phis[r], e.sg).t, term(v)))
                if isinstance(e, IV) and tk == 'i32': addc('phi%d == %s (unsigned)' % (n, nm), lambda v, r=r, term=term: Eq(self.conv(v.st, v.phis[r], False).t, term(v)))

    # ---------------------------------------------------------------- instructions
    def step(self, st, i):
        op = i.op
        R = st.regs
        if op == 'unsupported': raise Unsupported(i.text + ' : ' + i.x['why'])
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            if i.ty.k != 'int': raise Unsupported('vector op ' + i.text)
            self.cur = i
            if i.res in self.poison: self.poison = {k: v for k, v in self.poison.items() if k != i.res}
            R[i.res] = self.binop(st, op, self.val(st, i.args[0], i.ty), self.val(st, i.args[1], i.ty), i.ty.a, i.x['flags'])
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            if i.ty.k not in ('double', 'float'): raise Unsupported('fp type %r' % i.ty)
            a, b = self.val(st, i.args[0], i.ty), self.val(st, i.args[1], i.ty)
            f = {'fadd': L.f_add, 'fsub': L.f_sub, 'fmul': L.f_mul, 'fdiv': L.f_div, 'frem': lambda x, y: L.f_uf('fmod', x, y)}[op]
            if i.ty.k == 'float' and L.FP.mode == 'uf':
                R[i.res] = f(a, b)
            else: R[i.res] = f(a, b)
        elif op == 'fneg': R[i.res] = L.f_neg(self.val(st, i.args[0], i.ty))
        elif op == 'icmp':
            R[i.res] = self.icmp(st, i.x['pred'], self.val(st, i.args[0], i.x['oty']), self.val(st, i.args[1], i.x['oty']), i.x['oty'])
        elif op == 'fcmp':
            a, b = self.val(st, i.args[0], i.x['oty']), self.val(st, i.args[1], i.x['oty'])
            p = i.x['pred']
            a, b = L.rz(a) if not L.isnum(a) else L.num(a), L.rz(b) if not L.isnum(b) else L.num(b)
            k = p[1:] if len(p) == 3 else p
            if p == 'uno' or p == 'false': R[i.res] = False
            elif p in ('ord', 'true'): R[i.res] = True
            else:
                R[i.res] = {'eq': Eq, 'ne': lambda x, y: Not(Eq(x, y)), 'lt': Lt, 'le': Le, 'gt': Gt, 'ge': Ge}[k](a, b)
        elif op in ('zext', 'sext', 'trunc'):
            a = self.val(st, i.args[0], i.x['fty']); w = i.ty.a
            if i.x['fty'].a == 1:
                if op == 'zext': R[i.res] = IV(self.b2i(a), w, canon_sg(w))
                else: R[i.res] = IV(L.neg(self.b2i(a)), w, True)
            elif op == 'zext': R[i.res] = IV(self.U(st, a), w, False)
            elif op == 'sext':
                R[i.res] = IV(self.S(st, a), w, True)
            else:
                if w == 1:
                    u = self.U(st, a); R[i.res] = Eq(L.IntMod(u, 2), 1)
                else:
                    t = a.t; lo, hi = rng(w, a.sg)
                    R[i.res] = self.wrap(st, t, w, canon_sg(w) if not isz(t) or not a.sg and w not in (16, 32) else a.sg if a.sg else canon_sg(w))
        elif op in ('sitofp', 'uitofp'):
            a = self.val(st, i.args[0], i.x['fty'])
            if i.x['fty'].a == 1: t = self.b2i(a)
            else: t = self.S(st, a) if op == 'sitofp' else self.U(st, a)
            R[i.res] = L.i2f(t)
        elif op in ('fptosi', 'fptoui'):
            a = self.val(st, i.args[0], i.x['fty'])
            t = L.f2i(a)
            w = i.ty.a; sg = op == 'fptosi'
            lo, hi = rng(w, sg)
            if isz(t):
                g = z3.And(t >= lo, t <= hi)
                if not self.qf(st, g):
                    if self.opts.get('fp2int_ok'): st.assume(g)
                    else: self.oblige(st, 'overflow', 'float to integer conversion is in range', g)
            R[i.res] = IV(t, w, sg)
        elif op in ('fpext',): R[i.res] = self.val(st, i.args[0], i.x['fty'])
        elif op == 'fptrunc':
            a = self.val(st, i.args[0], i.x['fty'])
            R[i.res] = a if L.FP.mode == 'real' else L.f_uf('tofloat', a) if not L.isnum(a) else a
        elif op in ('bitcast', 'freeze', 'addrspacecast'):
            a = self.val(st, i.args[0], i.x.get('fty', i.ty))
            if op == 'bitcast' and i.x['fty'].k != i.ty.k: raise Unsupported(i.text)
            R[i.res] = a
        elif op == 'ptrtoint':
            p = self.val(st, i.args[0], ir.PTR)
            R[i.res] = PI(p, i.ty.a)
        elif op == 'inttoptr': raise Unsupported(i.text)
        elif op == 'select':
            c = L.simp_bool(self.val(st, i.args[0], ir.I(1)))
            a, b = self.val(st, i.args[1], i.ty), self.val(st, i.args[2], i.ty)
            for k, cc in ((1, c), (2, Not(c))):
                if i.args[k][0] == 'lv' and i.args[k][1] in self.poison:      # speculated arithmetic: must be defined when it is selected
                    ok = self.poison[i.args[k][1]]
                    self.oblige(st, 'overflow', 'no signed overflow', Implies(cc, ok))
            R[i.res] = self.select(st, c, a, b, i)
        elif op == 'alloca':
            ty = i.x['aty']; n = 1
            r = self.mod.resolve(ty)
            if i.x['n'] is not None:
                nv = self.val(st, i.x['n'][1], i.x['n'][0]); n = nv.t
            if r.k == 'arr': b = self.alloc(st, 'stack', 'local', self.mod.size(r.b), mul(n, r.a), ty)
            else: b = self.alloc(st, 'stack', 'local', self.mod.size(ty), n, ty)
            R[i.res] = Ptr(b, 0)
        elif op == 'load':
            p = self.val(st, i.args[0], ir.PTR)
            R[i.res] = self.load(st, p, i.ty)
        elif op == 'store':
            v = self.val(st, i.args[0], i.ty); p = self.val(st, i.args[1], ir.PTR)
            if isinstance(v, Undef): return
            if self.ct is not None and self.ct.opts.get('shared') and not self.limit and isinstance(p, Ptr) and p.b is not None and p.b.kind != 'stack':
                self.oblige(st, 'post', 'the tracker is updated in one atomic step', False)
            self.store(st, p, v, i.ty)
        elif op == 'getelementptr':
            vals = [(t, self.val(st, x, t)) for t, x in i.args]
            R[i.res] = self.gep(st, i.x['sty'], vals)
        elif op == 'atomicrmw':
            p = self.val(st, i.args[0], ir.PTR); v = self.val(st, i.args[1], i.ty)
            old = self.load(st, p, i.ty)
            k = {'add': 'add', 'sub': 'sub'}.get(i.x['kind'])
            if k: nv = self.binop(st, k, old, v, i.ty.a, {})
            elif i.x['kind'] == 'xchg': nv = v
            else: raise Unsupported(i.text)
            self.store(st, p, nv, i.ty)
            R[i.res] = old
        elif op == 'extractvalue':
            v = self.val(st, i.args[0], i.x['aty'])
            for k in i.x['idx']: v = v[k]
            R[i.res] = v
        elif op == 'insertvalue':
            v = self.val(st, i.args[0], i.ty); e = self.val(st, i.args[1], i.x['ety'])
            def ins(v, idx):
                v = list(v); v[idx[0]] = e if len(idx) == 1 else ins(v[idx[0]], idx[1:]); return v
            R[i.res] = ins(v, i.x['idx'])
        elif op == 'call': self.call(st, i)
        elif op == 'fence': pass
        else: raise Unsupported(i.text)

    def select(self, st, c, a, b, i):
        if c is True: return a
        if c is False: return b
        if isinstance(a, list): return [self.select(st, c, x, y, i) for x, y in zip(a, b)]
        if isinstance(a, (Ptr, Undef, FnPtr)) or isinstance(b, (Ptr, Undef, FnPtr)):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.b is b.b: return Ptr(a.b, Ite(c, a.o, b.o))
            s1, s2 = st.fork(), st.fork()
            s1.assume(c); s2.assume(Not(c)); s1.skip = s2.skip = True
            s1.regs[i.res], s2.regs[i.res] = a, b
            raise Fork([s1, s2])
        if isinstance(a, IV):
            if a.w == 1: return Ite(c, toz(a.t), toz(b.t))
            if a.sg != b.sg:
                if not isz(a.t): a = self.conv(st, a, b.sg)
                elif not isz(b.t): b = self.conv(st, b, a.sg)
                else: a, b = self.conv(st, a, False), self.conv(st, b, False)
            e = L.eqs(a.t, b.t)
            if e is True: return a
            if self.P.qf(st.pc + [toz(Not(c))], Eq(a.t, b.t)): return a
            if self.P.qf(st.pc + [toz(c)], Eq(a.t, b.t)): return b
            return IV(Ite(c, a.t, b.t), a.w, a.sg)
        if isinstance(a, bool) or isinstance(b, bool) or (isz(a) and z3.is_bool(a)):
            # short-circuit and / or
            if b is False: return And(c, a)
            if a is True: return Or(c, b)
            return Ite(c, toz(a), toz(b))
        return Ite(c, L.rz(a), L.rz(b))

    # ---------------------------------------------------------------- calls
    def call(self, st, i):
        c = i.x['callee']
        if i.x['ck'] != 'gv':
            fp = st.regs.get(c)
            if isinstance(fp, FnPtr): name = fp.name
            else: raise Unsupported('indirect call ' + i.text)
        else: name = c[1:].strip('"')
        if name.startswith('llvm.'): return self.intrinsic(st, i, name)
        name = self.mod.aliases.get(name, name)
        args = [(t, self.val(st, v, t)) for t, v in i.args]
        sn = self.names.get(name, name)
        if NORETURN.search(name) or re.match(r'^susa::assert_log\(', sn):
            if self.rejecting: raise PathEnd()
            self.oblige(st, 'assert', 'no assertion failure or abort (%s)' % (sn.split('(')[0]), False)
            raise PathEnd()
        ct = self.contracts.get(sn)
        if ct is not None:
            self.uses.add(sn)
            v = self.apply_contract(st, ct, args, i)
            if i.res: st.regs[i.res] = v
            return
        h = self.primitive(sn, name)
        if h is not None:
            v = h(st, sn, [a for _, a in args], i)
            if i.res: st.regs[i.res] = v
            return
        if name in self.mod.raw:
            raise Unsupported('call of function without contract: ' + sn)
        raise Unsupported('external function: ' + sn)

    def intrinsic(self, st, i, name):
        p = name.split('.')
        n = p[1]
        if n in ('lifetime', 'dbg', 'assume', 'experimental', 'va_start', 'donothing', 'invariant', 'stacksave', 'stackrestore', 'var'):
            if n == 'lifetime' and p[2] == 'start':
                q = self.val(st, i.args[1][1], ir.PTR)
                if q.b is not None and q.b.kind == 'stack':
                    s = BS(); s.ver = self.nextver(); st.mem[q.b.id] = s
                    for f, t in (self.mod.leaves(q.b.ty) if self.mod.resolve(q.b.ty).k == 'struct' else []): 
                        self.note(st, q.b, f, t.key())
                    if self.mod.resolve(q.b.ty).k != 'struct' and self.mod.resolve(q.b.ty).k != 'arr': self.note(st, q.b, 0, self.mod.resolve(q.b.ty).key())
            return
        args = [self.val(st, v, t) for t, v in i.args]
        if n in ('memcpy', 'memmove'):
            nn = args[2].t; return self.memcpy(st, args[0], args[1], nn, n == 'memmove')
        if n == 'memset': return self.memset(st, args[0], args[1], args[2].t)
        ty = i.ty
        if n == 'fabs': r = L.f_abs(args[0])
        elif n in ('fmuladd', 'fma'): r = L.f_add(L.f_mul(args[0], args[1]), args[2])
        elif n in ('minnum', 'minimum'): r = Ite(Lt(L.rz(args[0]), L.rz(args[1])), args[0], args[1])
        elif n in ('maxnum', 'maximum'): r = Ite(Lt(L.rz(args[0]), L.rz(args[1])), args[1], args[0])
        elif n in MATH: r = self.math(st, n, args)
        elif n in ('umax', 'umin', 'smax', 'smin'):
            w = ty.a; sg = n[0] == 's'
            a, b = self.conv(st, args[0], sg), self.conv(st, args[1], sg)
            r = IV(Ite(Lt(a.t, b.t), b.t if n[1:] == 'max' else a.t, a.t if n[1:] == 'max' else b.t), w, sg)
        elif n == 'abs':
            a = self.conv(st, args[0], True)
            r = IV(Ite(Lt(a.t, 0), L.neg(a.t), a.t), ty.a, True)
        elif n in ('umul', 'uadd', 'smul', 'sadd', 'usub', 'ssub') and 'overflow' in name:
            sg = n[0] == 's'
            w = args[0].w
            a, b = self.conv(st, args[0], sg).t, self.conv(st, args[1], sg).t
            t = {'mul': mul, 'add': add, 'sub': sub}[n[1:]](a, b)
            lo, hi = rng(w, sg)
            ov = Not(And(Le(lo, t), Le(t, hi)))
            if isz(ov) and self.qf(st, Not(ov)): ov = False
            r = [self.wrap(st, t, w, sg) if ov is not False else IV(t, w, sg), ov]
        elif n == 'is' and 'fpclass' in name: r = False
        elif n == 'threadlocal' and self.ct is not None and self.ct.opts.get('tracked'):
            if not self.limit: self.oblige(st, 'post', 'the tracker is one for all threads', False)
            r = args[0]
        elif n in ('expect',): r = args[0]
        elif n == 'trap':
            self.oblige(st, 'ub', 'trap', False); raise PathEnd()
        elif n == 'objectsize': raise Unsupported(i.text)
        else: raise Unsupported('intrinsic ' + name)
        if i.res: st.regs[i.res] = r

    def nextver(self):
        self.fresh_n += 1
        return self.fresh_n

    def math(self, st, n, args):
        if n == 'copysign':
            return Ite(Lt(L.rz(args[1]), 0), L.f_neg(L.f_abs(args[0])), L.f_abs(args[0]))
        if n == 'floor' : return self.mkround(st, args[0], 'floor')
        if n == 'ceil': return self.mkround(st, args[0], 'ceil')
        if n == 'round': return self.mkround(st, args[0], 'round')
        if n == 'trunc': return self.mkround(st, args[0], 'trunc')
        args = [a for a in args]
        if n == 'cexp': return ccexp(args[0], args[1])
        if n == 'pow' and L.FP.mode == 'real' and L.isnum(args[1]) and L.num(args[1]) == 2: return L.f_mul(args[0], args[0])
        r = L.f_uf(n, *args)
        if n == 'sqrt':
            self.truth(st, Implies(Ge(L.rz(args[0]), 0), r >= 0))
            if L.FP.mode == 'real': self.truth(st, Implies(Ge(L.rz(args[0]), 0), r * r == L.rz(args[0])))
        return r
    def mkround(self, st, a, k):
        return rounders[k](a)

    # primitives ------------------------------------------------------
    def primitive(self, sn, name):
        if name in MATH: return lambda st, s, a, i: self.math(st, name, a)
        for k in MATH:
            if name == k + 'f': return lambda st, s, a, i: self.math(st, k, a)
        for pat, h in self.prims:
            if re.match(pat, sn) or pat == name: return lambda st, s, a, i, h=h: h(self, st, s, a, i)
        return None

def PI(p, w):
    v = IV(0, w, False)
    v = PIV(p, w)
    return v
class PIV(IV):
    """integer obtained from a pointer: only differences and comparisons are meaningful"""
    __slots__ = ('p',)
    def __init__(self, p, w): IV.__init__(self, 0, w, False); self.p = p

def ccexp(a, b):
    """exp(a + ib); exp(0) is one"""
    c, d = L.f_uf('cos', b), L.f_uf('sin', b)
    if L.isnum(a) and L.num(a) == 0: return [c, d]
    e = L.f_uf('exp', a)
    return [L.f_mul(e, c), L.f_mul(e, d)]
_f2 = {}
def _floor(a):
    if L.isnum(a):
        import math
        return Fraction(math.floor(L.num(a)))
    return L.keep(z3.ToReal(z3.ToInt(L.rz(a))))
def _ceil(a): return L.f_neg(_floor(L.f_neg(a)))
def _round(a):
    h = Fraction(1, 2)
    if L.isnum(a):
        x = L.num(a); return _floor(x + h) if x >= 0 else _ceil(x - h)
    a = L.rz(a)
    return Ite(a >= 0, _floor(a + L.RealVal('1/2')), _ceil(a - L.RealVal('1/2')))
def _trunc(a):
    if L.isnum(a): return _floor(a) if L.num(a) >= 0 else _ceil(a)
    return Ite(L.rz(a) >= 0, _floor(a), _ceil(a))
rounders = dict(floor=_floor, ceil=_ceil, round=_round, trunc=_trunc)

def literals(fs):
    """equalities occurring in the formulas, in both polarities"""
    out = {}
    st = list(fs)
    while st:
        x = st.pop()
        if z3.is_and(x) or z3.is_or(x) or z3.is_not(x): st += x.children(); continue
        if z3.is_eq(x) and z3.is_int(x.arg(0)): out[x.get_id()] = x
    return [y for x in list(out.values())[:6] for y in (Not(x), x)]
def toint_(t): return t.as_long() if isz(t) and z3.is_int_value(t) else t
def keeplin(a, c, R): return L.keep(L.linF(toz(a), toz(c), toz(R)))
def syms(t):
    out = {}; st = [t]; seen = set()
    while st:
        x = st.pop()
        if not isz(x) or x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out[x.get_id()] = x
            st += x.children()
    return list(out.values())
def fdecls(t):
    out = {}; st = [t]; seen = set()
    while st:
        x = st.pop()
        if not isz(x) or x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out[x.decl().name()] = x.decl()
            st += x.children()
    return list(out.values())
def contains(t, s):
    if not isz(t): return False
    i = s.get_id(); st = [t]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() == i: return True
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x): st += x.children()
    return False
def only_linear_it(p):
    """a plain arithmetic comparison (bounds are handled separately)"""
    return not any(d.name() not in ('mul', 'lin', 'row', 'col') for d in fdecls(p))
def pats_of(t, j):
    """smallest uninterpreted applications covering j"""
    out = []; st = [t]; seen = set()
    while st:
        x = st.pop()
        if not isz(x) or x.get_id() in seen or not z3.is_app(x): continue
        seen.add(x.get_id())
        if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and contains(x, j):
            if any(a.get_id() == j.get_id() for a in x.children()) or L.unlin(x.arg(0)) is not None:
                if x.decl().name() not in ('mul', 'lin', 'row', 'col'): out.append(x)
        st += x.children()
    return out
def skeleton(t):
    u = L.unlin(t)
    if u is not None: return ('lin', skeleton(u[0]), skeleton(u[1]), u[2].get_id())
    return '.'
def subst_fun(t, mp):
    """replace applications of the named unary functions by content reads"""
    cache = {}
    def go(x):
        i = x.get_id()
        if i in cache: return cache[i]
        if z3.is_app(x) and x.num_args():
            ch = [go(c) for c in x.children()]
            if x.decl().name() in mp: r = toz(mp[x.decl().name()].read(ch[0]))
            elif all(a.get_id() == b.get_id() for a, b in zip(ch, x.children())): r = x
            else:
                r = rebuild_app(x, ch)
        elif z3.is_quantifier(x): r = x
        else: r = x
        cache[i] = L.keep(r)
        return r
    return go(t)
def rebuild_app(x, ch):
    k = x.decl().kind()
    if k == z3.Z3_OP_AND: return z3.And(ch)
    if k == z3.Z3_OP_OR: return z3.Or(ch)
    if k == z3.Z3_OP_ADD: return z3.Sum(ch)
    if k == z3.Z3_OP_DISTINCT: return z3.Distinct(ch)
    return x.decl()(*ch)
