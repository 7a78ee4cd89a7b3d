"""Run the check of each planted bug against /repo with the bug applied (and undone afterwards): seedcheck.py [id...]"""
import sys, os, json, subprocess, time
S = '/verif/seeded'
for i in sorted(os.listdir(S)):
    if len(sys.argv) > 1 and i not in sys.argv[1:]: continue
    m = json.load(open('%s/%s/meta.json' % (S, i)))
    subprocess.run(['git', '-C', '/repo', 'apply', '%s/%s/patch.diff' % (S, i)], check=True)
    t = time.time()
    try: p = subprocess.run(['python3-vt', 'check.py', m['property']], cwd='/verif', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally: subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True)
    v = [l for l in p.stdout.split('\n') if l.startswith('VIOLATION')]
    print('%-24s %s rc=%d %3.0fs %s' % (i, m['property'], p.returncode, time.time() - t, v), flush=True)
    if not v or '-v' in sys.argv: print(p.stdout[-1500:])
    else: print('      ', [l[:200] for l in p.stdout.split('\n') if not l.startswith('VIOLATION')][:4])
