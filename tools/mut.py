"""Tries edits of the source (mutations, or rewrites that keep the behaviour) in scratch copies:
python3 tools/mut.py FILE.py [names]; FILE.py defines M = [(name, 'P31 P32', [(file, old, new)])]; prints each check's exit code."""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)


def one(m):
    name, props, edits = m
    d = tempfile.mkdtemp(prefix='mut')
    out = []
    try:
        for f in os.listdir('/repo'):
            if f.endswith('.py'):
                shutil.copy('/repo/' + f, d)
        for fn, old, new, *after in edits:
            p = d + '/' + fn
            s = open(p, newline='').read()
            if '\r\n' in s:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            head = ''
            if after:
                # a fourth member: the first match after this text
                i = s.index(after[0])
                head, s = s[:i], s[i:]
            n = s.count(old)
            if n == 0:
                # blank lines do not matter
                rx = re.compile(r'(?:[ \t]*\r?\n)+'.join(re.escape(x) for x in old.splitlines() if x.strip()))
                found = rx.findall(s)
                n = len(found)
                if n == 1 or n and after:
                    old = found[0]
            if n != 1 and not (n and after):
                return '%s: %d matches in %s' % (name, n, fn)
            with open(p, 'w', newline='') as f:
                f.write(head + s.replace(old, new, 1))
        for pr in props.split():
            r = subprocess.run(['timeout', '900', './run', pr], cwd=ROOT, env=dict(os.environ, MQA_REPO=d), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            extra = ''
            if r.returncode not in (0, 1):
                extra = ' ' + ' '.join(l for l in r.stdout.splitlines() if 'BROKEN' in l)[:200]
            out.append('%s=%d%s' % (pr, r.returncode, extra))
    finally:
        shutil.rmtree(d)
    return '%-40s %s' % (name, ' '.join(out))


todo = [m for m in ns['M'] if len(sys.argv) < 3 or m[0] in sys.argv[2:]]
with ThreadPoolExecutor(3) as ex:
    for r in ex.map(one, todo):
        print(r, flush=True)
