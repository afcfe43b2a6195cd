"""Automatic mutants of the functions the checks analyse: python3 tools/mutate.py OUT [per-function] [seed] [name filter]
Each mutant is tried against the checks whose evidence lists the function, cheapest first, until one reports it."""
import ast, json, os, random, shutil, subprocess, sys, tempfile, glob, collections
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from mqa import front

out, per, seed = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 2, int(sys.argv[3]) if len(sys.argv) > 3 else 1
filt = sys.argv[4] if len(sys.argv) > 4 else ''
fm, cost = collections.defaultdict(list), {}
for f in glob.glob(ROOT + '/evidence/P??.json'):
    e = json.load(open(f))
    cost[e['property']] = e['wall_s']
    for x in e['coverage'].get('functions_analysed', []):
        fm[x].append(e['property'])
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is',
       ast.In: 'not in', ast.NotIn: 'in'}
OPS = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*'}


_lines = {}


def seg(text, node):
    if id(text) not in _lines:
        _lines.clear()
        _lines[id(text)] = [l.encode() for l in text.splitlines(keepends=True)]
    ls = _lines[id(text)][node.lineno - 1:node.end_lineno]
    if len(ls) == 1:
        return ls[0][node.col_offset:node.end_col_offset].decode()
    return (ls[0][node.col_offset:] + b''.join(ls[1:-1]) + ls[-1][:node.end_col_offset]).decode()


def mutants(text, fn):
    for n in ast.walk(fn):
        if isinstance(n, ast.Assert) or isinstance(n, ast.Raise):
            continue
        def rep(node, new, what):
            return (node.lineno, node.col_offset, node.end_lineno, node.end_col_offset, new, what)
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            yield rep(n, '%s %s %s' % (seg(text, n.left), CMP[type(n.ops[0])], seg(text, n.comparators[0])), 'cmp')
        elif isinstance(n, ast.BinOp) and type(n.op) in OPS:
            l, r = seg(text, n.left), seg(text, n.right)
            if l and r:
                yield rep(n, '((%s) %s (%s))' % (l, OPS[type(n.op)], r), 'op')
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            yield rep(n, repr(n.value + 1), 'const')
        elif isinstance(n, ast.BoolOp):
            vs = [seg(text, v) for v in n.values]
            if all(vs):
                yield rep(n, '(' + (' or ' if isinstance(n.op, ast.And) else ' and ').join('(%s)' % v for v in vs) + ')', 'bool')
                if len(vs) > 1:
                    yield rep(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join('(%s)' % v for v in vs[:-1]) + ')', 'dropterm')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield rep(n, '(%s)' % seg(text, n.operand), 'not')
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and
                                                          getattr(n.value.func, 'id', '') != 'print'):
            if n.lineno == n.end_lineno:
                yield rep(n, 'pass', 'del')
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and not n.keywords:
            a = [seg(text, x) for x in n.args]
            f = seg(text, n.func)
            if f and all(a) and f not in ('print', 'range', 'format') and a[0] != a[1]:
                yield rep(n, '%s(%s)' % (f, ', '.join([a[1], a[0]] + a[2:])), 'argswap')
        elif isinstance(n, ast.Constant) and n.value in ('SST', 'AT', 'LAT', 'LON', 'DPT', 'MO', 'DY'):
            yield rep(n, repr({'SST': 'AT', 'AT': 'SST', 'LAT': 'LON', 'LON': 'LAT', 'DPT': 'AT', 'MO': 'DY', 'DY': 'MO'}[n.value]), 'key')


def apply(text, m):
    lines = text.splitlines(keepends=True)
    l0, c0, l1, c1, new, _ = m
    b0 = lines[l0 - 1].encode()
    b1 = lines[l1 - 1].encode()
    body = b0[:c0].decode() + new + b1[c1:].decode()
    return ''.join(lines[:l0 - 1] + [body] + lines[l1:])


def docless(fn):
    return fn


rnd = random.Random(seed)
todo = []
for mod in front.modules():
    path = front.REPO + '/' + mod + '.py'
    text = open(path, newline='').read()
    crlf = '\r\n' in text
    t = text.replace('\r\n', '\n')
    tree = ast.parse(front.fix_source(t))
    if front.fix_source(t) != t:
        # positions are those of the fixed text: only use functions on lines that did not change
        changed = {i + 1 for i, (a, b) in enumerate(zip(t.splitlines(), front.fix_source(t).splitlines())) if a != b}
    else:
        changed = set()
    fns = []
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            fns.append((mod + '.' + n.name, n))
        elif isinstance(n, ast.ClassDef):
            fns += [(mod + '.' + n.name + '.' + x.name, x) for x in n.body if isinstance(x, ast.FunctionDef)]
    for q, fn in fns:
        if q not in fm or filt not in q:
            continue
        ms = []
        for m in mutants(t, fn):
            if any(l in changed for l in range(m[0], m[2] + 1)):
                continue
            ms.append(m)
        rnd.shuffle(ms)
        kinds, chosen = collections.Counter(), []
        for m in ms:
            if kinds[m[5]] < max(1, per // 2) and len(chosen) < per:
                new = apply(t, m)
                try:
                    ast.parse(front.fix_source(new))
                except SyntaxError:
                    continue
                kinds[m[5]] += 1
                chosen.append((m, new))
        for m, new in chosen:
            todo.append((mod, q, m, new.replace('\n', '\r\n') if crlf else new, t))
rnd.shuffle(todo)
print(len(todo), 'mutants', flush=True)


def one(x):
    mod, q, m, new, t = x
    d = tempfile.mkdtemp(prefix='mut')
    try:
        for f in os.listdir('/repo'):
            if f.endswith('.py'):
                shutil.copy('/repo/' + f, d)
        with open(d + '/' + mod + '.py', 'w', newline='') as f:
            f.write(new)
        res = []
        for p in sorted(fm[q], key=lambda p: cost[p]):
            r = subprocess.run(['timeout', '900', './run', p], cwd=ROOT, env=dict(os.environ, MQA_REPO=d), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            res.append((p, r.returncode))
            if r.returncode == 1:
                break
        line = ' / '.join(s.strip() for s in t.splitlines()[m[0] - 1:m[2]])
        return '%s %s:%d %s [%s] -> %s  %s' % ('KILLED' if res[-1][1] == 1 else 'LIVE' if all(r[1] == 0 for r in res) else 'BROKEN', q, m[0], m[5],
                                               line[:140], m[4][:110], res if res[-1][1] != 1 else res[-1][0])
    finally:
        shutil.rmtree(d)


with open(out, 'w') as f, ThreadPoolExecutor(4) as ex:
    for r in ex.map(one, todo):
        f.write(r + '\n')
        f.flush()
    f.write('DONE\n')
