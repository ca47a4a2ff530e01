"""Development tool: runs the quick check of each planted bug's property against it (in /repo, undone afterwards)."""
import glob, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('NECRO_REPO', '/repo')
ids = sys.argv[1:] or sorted(os.path.basename(p) for p in glob.glob(V + '/seeded/*'))
res = {}
for i in ids:
    d = os.path.join(V, 'seeded', i)
    prop = json.load(open(d + '/meta.json'))['property']
    if subprocess.run(['git', '-C', R, 'apply', d + '/patch.diff']).returncode:
        print(i, 'DOES NOT APPLY')
        continue
    try:
        p = subprocess.run(['python3', 'harness/check.py', prop], cwd=V, capture_output=True, text=True, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
    finally:
        subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'])
    r = 'caught' if p.returncode == 1 and 'VIOLATION property=' + prop in p.stdout else 'MISSED rc=%d' % p.returncode
    first = [l for l in p.stdout.splitlines() if l.startswith('  ') and not l.startswith('    ')][:2]
    print(i, prop, r, first, (p.stderr[-500:] if p.returncode not in (0, 1) else ''), flush=True)
