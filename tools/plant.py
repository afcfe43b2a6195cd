"""Writes seeded/<id>/ from edits: applies them to /repo, checks that the stable tests pass and that the demonstration
tells the two trees apart, and undoes them."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
d="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/opt/vp/py2compat
exec /opt/venv/bin/python "$d/demo.py"
'''
PRE = '''import sys
sys.path.insert(0, "/repo")
import py2compat
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def plant(pid, prop, edits, demo, needs, breaks):
    d = os.path.join(ROOT, 'seeded', pid)
    os.makedirs(d, exist_ok=True)
    assert sh('git -C /repo status --porcelain').stdout.strip() == '', 'repo not clean'
    with open(d + '/demo.sh', 'w') as f:
        f.write(DEMO_SH)
    os.chmod(d + '/demo.sh', 0o755)
    with open(d + '/demo.py', 'w') as f:
        f.write(PRE + demo.lstrip('\n'))
    with open(d + '/meta.json', 'w') as f:
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, f, indent=1)
        f.write('\n')
    run = 'cd /repo && bash %s/demo.sh' % d
    clean = sh(run, timeout=280)
    try:
        for fn, old, new in edits:
            p = '/repo/' + fn
            s = open(p, newline='').read()
            if '\r\n' in s:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            assert s.count(old) == 1, (pid, fn, s.count(old), old)
            with open(p, 'w', newline='') as f:
                f.write(s.replace(old, new))
        diff = subprocess.run('git -C /repo diff', shell=True, stdout=subprocess.PIPE).stdout
        with open(d + '/patch.diff', 'wb') as f:
            f.write(diff)
        dirty = sh(run, timeout=280)
        t = sh('bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/plant.json')
        res = t.stdout.strip().splitlines()[-1]
        base = json.load(open('/opt/vp/BASELINE.json'))
        got = json.load(open('/tmp/plant.json'))
        checks = ''
        if '--check' in sys.argv:
            c = sh('cd %s && timeout 900 ./run %s' % (ROOT, prop))
            checks = ' check exit %d %s' % (c.returncode, [l for l in c.stdout.splitlines() if l.startswith('VIOLATION') or 'BROKEN' in l][:1])
    finally:
        sh('git -C /repo checkout -- .')
    ok = clean.returncode == 0 and dirty.returncode != 0 and '376 passed' in t.stdout
    print(pid, prop, 'OK' if ok else 'BAD', 'clean %d patched %d' % (clean.returncode, dirty.returncode), res, checks)
    if not ok:
        print(clean.stdout[-600:], dirty.stdout[-600:])
