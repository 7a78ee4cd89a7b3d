"""One property: extract, verify every function under contract it rests on, run the contracts on the real code, report."""
import os, sys, time, json, re, signal, traceback, hashlib, shutil, tempfile, multiprocessing as mp
from . import build, ir, harness, spec, verify, objs, execute, concrete, logic as L
from .contracts import ALL, load

VERIF = build.VERIF
OUT = os.path.join(VERIF, 'out')

class TimeUp(BaseException): pass
def _alarm(sig, frm): raise TimeUp()

MOD = DM = INV = CALL = None
def check_one(name, limit):
    """verify one function -> dict (runs in a child process)"""
    ct = ALL[name]
    t0 = time.time()
    res = dict(name=name, obs=[], uses=[], assumed=[], status='proved', why='', loops=0, stat={}, mode=ct.mode)
    signal.signal(signal.SIGALRM, _alarm); signal.alarm(int(limit))
    def attempt(mode):
        ct.mode = mode
        v = verify.Verifier(MOD, DM, CALL, dict(ct.opts))
        try:
            v.verify(ct, INV[name])
        finally:
            res['uses'] = sorted(set(res['uses']) | v.uses); res['assumed'] = sorted(v.assumed); res['stat'] = v.P.stat
            res['loops'] = getattr(v, 'loops_seen', 0); res['reached'] = getattr(v, 'reached', 0)
            res['obs'] = [dict(o.d(), run=getattr(o, 'run', ''), info=o.info[:1500]) for o in v.obs]
        return v
    try:
        m0 = ct.mode
        v = attempt(m0)
        bad = [o for o in v.obs if o.status != 'proved']
        if bad and m0 == 'uf' and not ct.opts.get('exact') and all(o.kind in ('post', 'frame') for o in bad):
            keep = res['obs']
            v2 = attempt('real')
            if all(o.status == 'proved' for o in v2.obs): bad = []; res['mode'] = 'real'
            else: res['obs'] = keep
        if bad: res['status'] = 'failed'
    except spec.Unsupported as e: res['status'] = 'unsupported'; res['why'] = str(e)
    except TimeUp: res['status'] = 'timeout'; res['why'] = 'no decision within %d s' % limit
    except (KeyboardInterrupt, SystemExit): raise
    except BaseException as e:
        res['status'] = 'unsupported'; res['why'] = 'internal: %r %s' % (e, traceback.format_exc()[-600:])
    finally: signal.alarm(0)
    res['time'] = time.time() - t0
    return res

class Pool:
    """processes forked per task"""
    def __init__(self, n): self.n = n; self.run = {}; self.todo = []; self.done = {}
    def add(self, key, fn, args): self.todo.append((key, fn, args))
    def step(self):
        while self.todo and len(self.run) < self.n:
            key, fn, args = self.todo.pop(0)
            r, w = mp.Pipe(False)
            def go(fn=fn, args=args, w=w):
                try: w.send(fn(*args))
                except BaseException as e: w.send(dict(error=repr(e) + traceback.format_exc()[-500:]))
            p = mp.Process(target=go); p.start(); w.close()
            self.run[key] = (p, r, time.time())
        ready = mp.connection.wait([r for _, r, _ in self.run.values()], timeout=0.5)
        for key, (p, r, t) in list(self.run.items()):
            if r in ready:
                try: self.done[key] = r.recv()
                except EOFError: self.done[key] = dict(error='worker ended')
                p.join(); r.close(); del self.run[key]
                yield key, self.done[key]
    def busy(self): return bool(self.run or self.todo)
import multiprocessing.connection

def encode_case(ct, args, alias):
    return dict(function=ct.name, arguments={n: concrete.ser(args[n], k) for n, k in ct.params if n in args}, alias=alias)
def decode_case(ct, d):
    args = {}
    for n, k in ct.params:
        if n in d['arguments']: args[n] = concrete.parse(concrete.Toks(d['arguments'][n].split()), k)
    for a, b in d.get('alias', {}).items(): args[a] = args[b]
    return args, d.get('alias', {})

def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    return [f for f in json.load(open(p))['findings'] if f['property'] == prop and f.get('status') != 'fixed']

def setup(cts, work, driver_extra=()):
    global MOD, DM, INV, CALL
    h = os.path.join(work, 'h.cpp')
    open(h, 'w').write(harness.tu(cts))
    drv = concrete.Driver(list(cts) + [c for c in driver_extra if c not in cts], os.path.join(work, 'drv'), srcs=build.sources()).start()
    keep = lambda n: n in ALL and not ALL[n].opts.get('inline')
    srcs = [h] + build.sources()
    ll, DM = build.compile_ir(srcs, keep, os.path.join(work, 'ir'), ['-I' + VERIF + '/harness'], retain=lambda n: n in ALL)
    MOD = ir.Module(open(ll).read())
    INV = {}
    for k, v in DM.items():
        if k in MOD.raw and not k.endswith('D0Ev'): INV.setdefault(v, k)      # not the deleting destructor
    CALL = {n: c for n, c in ALL.items() if not c.opts.get('inline')}
    return drv

def main(argv):
    load()
    if argv and argv[0] == '--replay': return replay(argv[1])
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv: tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='vc_%s_' % prop)
    try: return decide(prop, tier, seed, work, t0)
    finally: shutil.rmtree(work, ignore_errors=True)

def decide(prop, tier, seed, work, t0):
    own = [c for c in ALL.values() if prop in c.props]
    budget = 820 if tier == 'quick' else 3000
    ncase = 150 if tier == 'quick' else 3000
    evid = dict(property=prop, tier=tier, seed=seed, level='proof', coverage={}, wall_s=0, violations=0)
    os.makedirs(os.path.join(OUT, 'replay'), exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not own: print('no contracts for', prop); return 2
    # functions called through another contract are verified as well
    drvx = []
    try: drv = setup(own, work)
    except build.BuildError as e:
        print('the tree does not build with the contracts of %s:\n%s' % (prop, e)); return 2
    pool = Pool(7)
    nbounded = sum(1 for c in own if c.opts.get('bounded_only'))
    seen = set()
    results = {}
    missing = []
    def want(n):
        if n in seen: return
        seen.add(n)
        if ALL[n].opts.get('bounded_only'): return
        if n not in INV:
            missing.append(n); return
        pool.add(n, check_one, (n, ALL[n].opts.get('limit', 300)))
    for c in own: want(c.name)
    pool.step_iter = None
    while pool.busy():
        for key, r in pool.step():
            if 'error' in r: r = dict(name=key, obs=[], uses=[], assumed=[], status='unsupported', why=r['error'], loops=0, stat={}, time=0, mode='')
            results[key] = r
            for u in r['uses']:
                if u in ALL: want(u)
        if time.time() - t0 > budget - 120:
            for k, (p, r, t) in pool.run.items(): p.kill(); results[k] = dict(name=k, obs=[], uses=[], assumed=[], status='timeout', why='time budget of the check', loops=0, stat={}, time=0, mode='')
            for k, _, _ in pool.todo: results[k] = dict(name=k, obs=[], uses=[], assumed=[], status='timeout', why='time budget of the check', loops=0, stat={}, time=0, mode='')
            break
    t_proof = time.time() - t0
    # the contracts on the real code
    drv.finish()
    deps = [ALL[n] for n in seen if ALL[n] not in own and ALL[n].cpp]
    if deps:
        d2 = concrete.Driver(deps, os.path.join(work, 'drv2'), srcs=build.sources()).start().finish()
    conc = {}
    pool = Pool(8)
    und = {n for n, r in results.items() if r['status'] in ('unsupported', 'timeout')} | set(missing) | {c.name for c in own if c.opts.get('bounded_only')}
    def cjob(c, d, n, sd, large):
        try:
            r = concrete.search(d, c, sd, n, large)
            return (r[0], r[1], r[2] and ((c.name,) + r[2][0][1:], r[2][1], r[2][2]), [(c.name,) + x[1:] for x in r[3]], r[4])
        except Exception as e: return dict(error=repr(e) + traceback.format_exc()[-800:])
    for c in own + deps:
        if not c.cpp: continue
        n = ncase; large = 0
        if results.get(c.name, {}).get('status') == 'failed': n = max(600, ncase * 3); large = 14
        elif c.name in und: n = max(c.opts.get('bounded_cases', 1000), ncase); large = 0 if c.opts.get('bounded_only') else 4
        pool.add(c.name, cjob, (c, drv if c in own else d2, n, seed, large))
    cerr = []
    while pool.busy():
        for key, r in pool.step():
            if isinstance(r, dict): cerr.append((key, r['error'])); continue
            conc[key] = r
    # known findings: each is replayed on the real code
    known_lines = []
    for f in known_findings(prop):
        ct = ALL.get(f['case']['function'])
        if ct is None or not ct.cpp: continue
        d = drv if ct in own else (d2 if ct in deps else None)
        if d is None: continue
        a, al = decode_case(ct, f['case'])
        o = d.run([(ct, a, al)])
        fails = f.get('observe') is None or True
        known_lines.append('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
    # verdict
    viols = []
    def rp(i): return os.path.join(OUT, 'replay', '%s-%d.json' % (prop, i))
    failing = {n for n, r in conc.items() if r[2]}
    for n in sorted(failing):
        (c, o, m) = conc[n][2]
        c = (ALL[n],) + tuple(c[1:])
        d = drv if c[0] in own else d2
        err = []
        o2 = d.run([c], stderr=err)
        obls = [x for x in results.get(n, {}).get('obs', []) if x['status'] != 'proved']
        p = rp(len(viols)); 
        json.dump(dict(property=prop, kind='failing input', case=encode_case(*c), arguments={k: concrete.show(v) for k, v in c[1].items()}, what=m, outcome=o, outcome_again=(o2 or [None])[0],
                       stderr=''.join(err)[-3000:], failed_obligations=obls[:5], rerun='python3 check.py --replay ' + p), open(p, 'w'), indent=1, default=str)
        print('%s: %s\n   arguments %s' % (n, m, {k: concrete.show(v) for k, v in c[1].items()}))
        for x in obls[:2]: print('   failed obligation: %s / %s / %s' % (x['kind'], x['name'], x['run']))
        viols.append((p, ''))
    bad = [n for n, r in results.items() if r['status'] == 'failed' and n not in failing]
    for n in sorted(bad):
        obls = [x for x in results[n]['obs'] if x['status'] != 'proved']
        if failing: continue            # explained by the failing input above or reported with it
        p = rp(len(viols))
        json.dump(dict(property=prop, kind='failed obligation', function=n, obligations=obls, inputs_tried=conc[n][0] if n in conc else 0), open(p, 'w'), indent=1, default=str)
        print('%s: obligation not discharged: %s / %s / %s' % (n, obls[0]['kind'], obls[0]['name'], obls[0]['run']))
        viols.append((p, ' no-failing-input-found'))
    for n, e in cerr: print('note: contract could not be run on', n, e)
    for n in sorted(und): print('note: %s is not decided by proof (%s); bounded check on %d inputs stands in' % (n, results.get(n, {}).get('why') or ('not found in the extraction' if n in missing else 'declared bounded'), conc[n][0] if n in conc else 0))
    for l in known_lines: print(l)
    # evidence
    obs = [o for r in results.values() for o in r['obs']]
    disch = [o for o in obs if o['status'] == 'proved']
    proved = sorted(n for n, r in results.items() if r['status'] == 'proved')
    by = {}
    for o in disch: by[o['by'] or 'simplification'] = by.get(o['by'] or 'simplification', 0) + 1
    kinds = {}
    for o in obs: kinds[o['kind']] = kinds.get(o['kind'], 0) + 1
    ass = set()
    for r in results.values(): ass |= set(r['assumed'])
    ev = evid; ev['wall_s'] = round(time.time() - t0, 2); ev['violations'] = len(viols)
    nconc = sum(r[0] for r in conc.values())
    sample = []
    for n, r in list(conc.items())[:3]:
        if r[3]: sample.append(dict(function=n, arguments={k: concrete.show(v) for k, v in r[3][0][1].items()}))
    ev['coverage'] = dict(
        obligations=len(obs), discharged=len(disch), checker_cmd='python3 check.py %s (vc/: LLVM IR of /repo -> obligations -> z3 %s, cvc5)' % (prop, _z3v()),
        trusted_base=['clang 18 front end and the SSA/CFG passes of the extraction (vc/build.py)', 'verification condition generator vc/', 'z3 and cvc5', 'models of library primitives (vc/verify.py PRIMS)', 'assertion failure ends the process (assert_fail/abort)'],
        functions_under_contract=len(seen), functions_proved=len(proved), proved=proved,
        bounded={n: dict(why=results.get(n, {}).get('why') or ('not in the extraction' if n in missing else ALL[n].opts.get('bounded_only') or ''), inputs=conc[n][0] if n in conc else 0) for n in sorted(und)},
        exact_arithmetic=sorted(n for n, r in results.items() if r.get('mode') == 'real'),
        by_backend=by, obligations_by_kind=kinds,
        solver_s=round(sum(r['stat'].get('t_qf', 0) + r['stat'].get('t_full', 0) for r in results.values() if r['stat']), 2),
        full_queries=sum(r['stat'].get('full', 0) for r in results.values() if r['stat']), qf_queries=sum(r['stat'].get('qf', 0) for r in results.values() if r['stat']), cvc5_queries=sum(r['stat'].get('cvc5', 0) for r in results.values() if r['stat']),
        loops_with_invariants=sum(r['loops'] for r in results.values()), proof_s=round(t_proof, 1),
        evaluations=nconc, distinct_nontrivial=sum(r[1] for r in conc.values()), rule='contracts evaluated on random arguments on the AddressSanitizer build of the real code; distinct encodings counted; a quarter at most exercise rejection', samples=sample,
        known_findings=known_lines)
    ev['assumptions'] = sorted(ass) + ['doubles are not NaN; + - * / are uninterpreted commutative operations (modulo the sign of zero) unless listed under exact_arithmetic',
                                       'arithmetic on integer matrix elements does not overflow', 'exceptions are not thrown; allocation succeeds', 'contracts of other functions are assumed at call sites and proved in this run (functions listed under proved)']
    if not obs and not und and not viols: print('no obligations were generated'); return 2
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    print('%s: %d functions, %d proved, %d bounded, %d/%d obligations, %d runs of the real code, %.0f s' % (prop, len(seen), len(proved), len(und), len(disch), len(obs), nconc, time.time() - t0))
    for p, s in viols: print('VIOLATION property=%s replay=%s%s' % (prop, p, s))
    return 1 if viols else 0

def _z3v():
    import z3
    return z3.get_version_string()

def replay(path):
    d = json.load(open(path))
    if d['kind'] != 'failing input':
        print(json.dumps(d, indent=1)); return 1
    ct = ALL[d['case']['function']]
    work = tempfile.mkdtemp(prefix='vc_replay_')
    try:
        drv = concrete.Driver([ct], work, srcs=build.sources()).start().finish()
        a, al = decode_case(ct, d['case'])
        err = []
        o = drv.run([(ct, a, al)], stderr=err)
        m = concrete.judge(ct, a, al, o[0]) if o else 'no outcome'
        print(ct.name, {k: concrete.show(v) for k, v in a.items()}); print(o[0] if o else None); print(''.join(err)[-2000:])
        print('-> ' + (m or 'agrees with the contract'))
        return 1 if m else 0
    finally: shutil.rmtree(work, ignore_errors=True)
