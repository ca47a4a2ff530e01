"""Development tool: confirms a planted bug in a scratch copy of /repo and keeps it under seeded/.

  from seed import seed; seed(id, property, [(file, old, new)...], needs, what, demo_python)

demo_python runs with cwd = the repository, in a scratch directory given as `tmp`; it has to end with
an assertion error when the bug is present."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# exit 0 on the unchanged tree, nonzero when the planted change is present
exec python3 -B "$(dirname "$0")/demo.py"
'''
HEAD = r'''import os, sys, tempfile, shutil, io, contextlib, struct
repo = os.getcwd()
sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join(tempfile.gettempdir(), 'demo-nopyc-%d' % os.getpid())
sys.path.insert(0, repo)
tmp = tempfile.mkdtemp(prefix='demo-')
os.chdir(tmp)
import atexit
atexit.register(shutil.rmtree, tmp, True)


def asm(cls, src, link=True):
    a = cls()
    a.assemble(src)
    if link:
        a.link()
    return a


def out(cls, src):
    return bytes(asm(cls, src).assembled_bytes)


def rejected(fn, *names):
    try:
        fn()
    except Exception as e:
        assert not names or type(e).__name__ in names, repr(e)
        return
    raise AssertionError('accepted')


'''


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **k)


def seed(id, prop, edits, needs, what, demo, force=False):
    d = os.path.join(V, 'seeded', id)
    if os.path.exists(os.path.join(d, 'meta.json')) and not force:
        return print(id, 'exists')
    wt = tempfile.mkdtemp(prefix='seed-')
    try:
        shutil.rmtree(wt)
        shutil.copytree('/repo', wt, symlinks=True)
        for f, old, new in edits:
            p = os.path.join(wt, f)
            s = open(p, newline='').read()
            if s.count(old) != 1:
                return print(id, 'EDIT', f, s.count(old), repr(old))
            open(p, 'w', newline='').write(s.replace(old, new))
        diff = sh('git diff', wt).stdout
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
        open(os.path.join(d, 'demo.py'), 'w').write(HEAD + demo.strip() + '\n')
        clean = sh('bash %s/demo.sh' % d, '/repo', timeout=300)
        broken = sh('bash %s/demo.sh' % d, wt, timeout=300)
        t = sh('PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=10 tests', wt)
        ok = clean.returncode == 0 and broken.returncode != 0 and t.returncode == 0
        if not ok:
            print(id, 'REFUSED clean=%d broken=%d tests=%d' % (clean.returncode, broken.returncode, t.returncode))
            print(clean.stderr[-600:] if clean.returncode else '', t.stdout[-600:] if t.returncode else '')
            shutil.rmtree(d)
            return
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        print(id, 'kept:', broken.stderr.strip().splitlines()[-1][:100] if broken.stderr.strip() else 'rc %d' % broken.returncode)
    finally:
        shutil.rmtree(wt, ignore_errors=True)
