"""Plant one bug: mkseed.mk(id, property, [(file, old, new)], demo C++ source, needs, what).  Works in a scratch copy of /repo:
the change must build, pass the stable tests, and the demonstration must fail with it and pass without it."""
import os, sys, json, shutil, subprocess, stat
DEMO = '''#!/bin/bash
# exit 0: the property holds on this demonstration; run with cwd at the root of the library
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"; trap 'rm -rf -- "$t"' EXIT
g++ -std=c++17 -O1 -g %s-DSUSA_NDEBUG -w -I inc "$here/demo.cpp" src/*.cpp -o "$t/demo" || exit 2
cd "$t" && ulimit -c 0 && timeout 60 ./demo
'''
def sh(cmd, cwd=None, timeout=600): return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
def mk(id, prop, edits, demo, needs, what, flags='', base='/repo'):
    out = '/verif/seeded/' + id
    os.makedirs(out, exist_ok=True)
    open(out + '/demo.cpp', 'w').write(demo)
    open(out + '/demo.sh', 'w').write(DEMO % (flags + ' ' if flags else ''))
    os.chmod(out + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(out + '/meta.json', 'w'), indent=1)
    w = '/tmp/w/seed'
    if os.path.exists(w): shutil.rmtree(w)
    sh('git -C /repo worktree prune; git clone -q /repo ' + w)
    for f, o, n in edits:
        p = os.path.join(w, f); s = open(p).read()
        if s.count(o) != 1: print(id, 'BAD EDIT', f, s.count(o), repr(o[:60])); return False
        open(p, 'w').write(s.replace(o, n))
    d = sh('git diff', w).stdout
    open(out + '/patch.diff', 'w').write(d)
    base_lines = sh('git show $(git rev-list --max-parents=0 HEAD):%s' % edits[0][0], w).stdout
    for l in d.split('\n'):
        if l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:] not in base_lines: print('   warning: changes a line that is not original:', l)
    r0 = sh('bash %s/demo.sh' % out, '/repo'); r1 = sh('bash %s/demo.sh' % out, w)
    # stable tests with the change
    b = sh('cp -a /repo/_build %s/ 2>/dev/null; cat /opt/vp/env.sh' % w)
    sh('git -C /repo apply %s/patch.diff' % out)
    try: t = sh('bash /opt/vp/test.sh /tmp/w/seed_t.json')
    finally: sh('git -C /repo checkout -- .')
    res = json.load(open('/tmp/w/seed_t.json')); stable = set(json.load(open('/opt/vp/BASELINE.json')).get('passed') or json.load(open('/opt/vp/BASELINE.json'))['stable'])
    lost = stable - set(res['passed'])
    ok = r0.returncode == 0 and r1.returncode != 0 and not lost
    print('%-28s %s demo %d -> %d, tests lost %s' % (id, 'ok ' if ok else 'BAD', r0.returncode, r1.returncode, sorted(lost)[:4]))
    if not ok: print(r0.stdout[-600:], r1.stdout[-300:])
    shutil.rmtree(w)
    return ok
