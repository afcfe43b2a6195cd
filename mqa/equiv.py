"""Product analysis: a repository function and a reference definition are interpreted
over the same abstract inputs; on every partition of the abstract state both must give
the same outcome (value, raised error, and final state of the observed arguments)."""
import os
import time
from .domain import *
from .interp import *
from .interp import PyExcV, ExcClassV
from .models import Piece, FArr, FView
from . import front, poly

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def spec_module(cfg, name):
    path = os.path.join(VERIF, 'specs', name + '.py')
    key = 'spec_' + name
    if key not in cfg.extmods:
        from . import interp
        if key not in interp._spectrees:
            with open(path) as f:
                interp._spectrees[key] = front.parse_text(f.read(), path)
        cfg.extmods[key] = interp._spectrees[key]
    return key


def lookup(run, dotted):
    """module.func or module.Class.method"""
    parts = dotted.split('.')
    m = run.module(parts[0])
    v = m
    for i, p in enumerate(parts[1:]):
        if isinstance(v, ModV):
            if p not in v.ns:
                raise AnalysisError('anchor vanished: %s' % dotted)
            v = v.ns[p]
        elif isinstance(v, ClassV):
            r = v.find(p)
            if r is None:
                raise AnalysisError('anchor vanished: %s' % dotted)
            v = r[0]
    return v


def lookup_spec(run, dotted):
    sm, f = dotted.split('.', 1)
    return lookup(run, spec_module(run.cfg, sm) + '.' + f)


def veq(run, a, b, where='result', memo=None):
    """None when equal, otherwise a description of the difference. May split."""
    memo = memo if memo is not None else set()
    a, b = run.force(a), run.force(b)
    if isinstance(a, AObj) and isinstance(b, AObj):
        if (id(a), id(b)) in memo:
            return None
        memo.add((id(a), id(b)))
        if a is b:
            return None
        ka, kb = getattr(a, 'ident', None), getattr(b, 'ident', None)
        if ka is not None or kb is not None:
            if ka == kb:
                return None
            return '%s: %s instead of %s' % (where, ka or a.name, kb or b.name)
        if a.cls is not b.cls and (a.cls is None or b.cls is None or a.cls.name != b.cls.name):
            return '%s: object of class %s instead of %s' % (where, a.cls and a.cls.name, b.cls and b.cls.name)
        for k in sorted(set(a.attrs) | set(b.attrs)):
            if k not in a.attrs or k not in b.attrs:
                return '%s.%s: %s' % (where, k, 'missing' if k not in a.attrs else 'unexpected')
            r = veq(run, a.attrs[k], b.attrs[k], where + '.' + k, memo)
            if r:
                return r
        return None
    if isinstance(a, (AList, tuple)) and isinstance(b, (AList, tuple)):
        x = a.items if isinstance(a, AList) else a
        y = b.items if isinstance(b, AList) else b
        if len(x) != len(y):
            return '%s: length %d instead of %d' % (where, len(x), len(y))
        for i, (p, q) in enumerate(zip(x, y)):
            r = veq(run, p, q, '%s[%d]' % (where, i), memo)
            if r:
                return r
        return None
    if isinstance(a, ADict) and isinstance(b, ADict):
        for k, v in zip(list(b.k), list(b.v)):
            f, w = run.dict_find(a, k)
            if not f:
                return '%s[%s] missing' % (where, show(k))
            r = veq(run, w, v, '%s[%s]' % (where, show(k)), memo)
            if r:
                return r
        for k in list(a.k):
            f, w = run.dict_find(b, k)
            if not f:
                return '%s[%s] unexpected' % (where, show(k))
        return None
    if isinstance(a, ASet) and isinstance(b, ASet):
        for x in a.items:
            if not run.contains(b, x):
                return '%s: unexpected member %s' % (where, show(x))
        for x in b.items:
            if not run.contains(a, x):
                return '%s: missing member %s' % (where, show(x))
        return None
    if a is NAN and b is NAN:
        return None
    if isinstance(a, FArr) and isinstance(b, FArr):
        idx = [i for i, v in a.stores] + [i for i, v in b.stores]
        if a.shape is not None and a.shape == b.shape and a.maker is None and b.maker is None and \
                a.default is not None and b.default is not None:
            r = veq(run, a.default, b.default, '%s[elsewhere]' % where, memo)
            if r:
                return r
        elif a.base != b.base:
            return '%s: different arrays' % where
        for i in idx:
            r = veq(run, a.load(run, i), b.load(run, i), '%s[%s]' % (where, vkey(i)), memo)
            if r:
                return r
        return None
    if a is b:
        return None
    try:
        same = run.eq(a, b)
    except Unsupported:
        same = vkey(a) == vkey(b)
    if same:
        return None
    return '%s: %s instead of %s' % (where, show(a, run), show(b, run))


def show(v, run=None):
    try:
        if run is not None and isinstance(v, Num):
            return run.subst_points(v.p).key
        return vkey(v)
    except Exception:
        return repr(v)


LIMIT = 820       # seconds


def known_findings():
    from .cli import known_findings as k
    return k()


class Violation(object):
    def __init__(self, rule, construct, text, path=()):
        self.rule, self.construct, self.text, self.path = rule, construct, text, list(path)


class Check(object):
    """collects obligations, violations and coverage for one property"""

    def __init__(self, pid, tier='quick', seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.violations = []
        self.obligations = 0
        self.partitions = 0
        self.compared = 0
        self.steps = 0
        self.vacuous = 0
        self.functions = set()
        self.sites = 0
        self.instances = []
        self.assumptions = []
        self.notes = []

    def thorough(self):
        return self.tier == 'thorough'

    def bad(self, rule, construct, text, path=()):
        for v in self.violations:
            if v.rule == rule and v.construct == construct:
                return
        self.violations.append(Violation(rule, construct, text, path))

    def where(self, dotted):
        """file:line function"""
        return locate(dotted)

    def need(self, n, minimum, what):
        if n < minimum and not self.violations:
            raise AnalysisError('only %d %s found (at least %d confirmed by hand)' % (n, what, minimum))

    # ---- obligations may be collected and analysed by several processes
    def batch(self):
        self.pending = []

    def flush(self, nproc=None):
        """Analyse the pending obligations with several processes.  A process that has explored a
        number of partitions of one obligation hands the rest of them back to be shared."""
        import pickle, select, struct, sys
        jobs, self.pending = self.pending, None
        nproc = nproc or int(os.environ.get('MQA_PROCS', '0')) or os.cpu_count() or 1
        if nproc <= 1:
            for a, k in jobs:
                self.equiv(*a, **k)
            return
        sys.stdout.flush()

        def send(fd, obj):
            data = pickle.dumps(obj)
            data = struct.pack('<Q', len(data)) + data
            while data:
                n = os.write(fd, data)
                data = data[n:]

        def recv(fd):
            def get(n):
                out = b''
                while len(out) < n:
                    b = os.read(fd, min(n - len(out), 1 << 20))
                    if not b:
                        return None
                    out += b
                return out
            h = get(8)
            if h is None:
                return None
            return pickle.loads(get(struct.unpack('<Q', h)[0]))

        def work(rd, wr):
            while True:
                task = recv(rd)
                if task is None:
                    return
                i, prefix = task
                sub = Check(self.pid, self.tier, self.seed)
                sub.budget = (prefix, 60)
                sub.left = []
                err = None
                t0 = time.time()
                try:
                    a, k = jobs[i]
                    sub.equiv(*a, **k)
                except AnalysisError as e:
                    err = '%s: %s' % (type(e).__name__, e)
                    if os.environ.get('MQA_TRACE'):
                        import traceback
                        traceback.print_exc()
                for v in sub.violations:
                    v.order = (i, v.script)
                send(wr, (i, err, sub.violations, sub.partitions, sub.compared, sub.steps, sub.functions, sub.sites,
                          sub.instances, sub.vacuous, sub.left, time.time() - t0))
        kids = {}
        for w in range(nproc):
            tr, tw = os.pipe()
            rr, rw = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(tw)
                    os.close(rr)
                    for r, (q, t, b) in kids.items():
                        os.close(r)
                        os.close(t)
                    work(tr, rw)
                except BaseException:
                    import traceback
                    traceback.print_exc()
                    code = 3
                os._exit(code)
            os.close(tr)
            os.close(rw)
            kids[rr] = [pid, tw, False]
        queue = [(i, None) for i in range(len(jobs))]
        errs, viols, n0 = [], [], len(self.instances)
        stats = [[0, 0.0, 1] for j in jobs]
        running = 0
        dead = set()          # obligations that ended with an error
        known = set((f[0], f[2]) for f in known_findings())
        t0, stop_at, late = time.time(), None, False
        try:
            while True:
                if stop_at is not None and time.time() > stop_at:
                    queue = []
                if queue and time.time() - t0 > LIMIT:
                    late = True
                    queue = []
                if queue:
                    for r, kid in kids.items():
                        while queue and queue[0][0] in dead:
                            queue.pop(0)
                        if not kid[2] and queue:
                            task = queue.pop(0)
                            send(kid[1], task)
                            kid[2] = True
                            running += 1
                if not running:
                    break
                ready, _, _ = select.select([r for r, kid in kids.items() if kid[2]], [], [])
                for r in ready:
                    m = recv(r)
                    if m is None:
                        raise AnalysisError('an analysis process ended without a result')
                    kids[r][2] = False
                    running -= 1
                    i, err, v, pa, co, st, fn, si, ins, va, left, dt = m
                    if err:
                        errs.append(err)
                        dead.add(i)
                    viols += v
                    if stop_at is None and any((self.pid, x.construct) not in known for x in v):
                        stop_at = time.time() + 5      # a violation decides the check; the rest only adds detail
                    self.partitions += pa
                    self.compared += co
                    self.steps += st
                    self.functions |= fn
                    self.sites += si
                    self.instances += ins
                    self.vacuous += va
                    queue += [(i, x) for x in left]
                    stats[i][0] += pa
                    stats[i][1] += dt
                    stats[i][2] += len(left) - 1
                    if stats[i][0] > jobs[i][0][10]:
                        errs.append('Unsupported: more than %d partitions' % jobs[i][0][10])
                        dead.add(i)
                    if os.environ.get('MQA_TIMES') and not stats[i][2]:
                        sys.stderr.write('%6.1f s %6d partitions: %s\n' % (stats[i][1], stats[i][0], jobs[i][0][4] or jobs[i][0][0]))
        finally:
            for r, kid in kids.items():
                os.close(kid[1])
                os.close(r)
            for r, kid in kids.items():
                os.waitpid(kid[0], 0)
        self.obligations += len(jobs)
        self.instances[n0:] = sorted(self.instances[n0:])
        for v in sorted(viols, key=lambda v: v.order):
            self.bad(v.rule, v.construct, v.text, v.path)
        if late:
            errs.append('not finished within %d s' % LIMIT)
        if stop_at is not None:
            self.notes += ['not analysed: %s' % e for e in errs]
        elif errs:
            raise AnalysisError(errs[0])

    def equiv(self, impl, spec, mk, cfg=None, name=None, observe=None, method=False, kwargs=None, call=None,
              post=None, max_paths=60000, strict_exc=False, spec_mk=None, spec_observe=None, values=True, rule='same-outcome-as-reference'):
        """impl, spec: 'module.func'. mk(run)-> list of arguments (called once per side with
        the same symbol names). observe(run, args, result) -> additional value to compare."""
        if getattr(self, 'pending', None) is not None:
            self.pending.append(((impl, spec, mk, cfg, name, observe, method, kwargs, call, post, max_paths, strict_exc,
                                  spec_mk, spec_observe, values, rule), {}))
            return None
        cfg = cfg or Config()
        sm, sf = spec.split('.', 1)
        key = spec_module(cfg, sm)
        label = name or impl
        prefix, budget = getattr(self, 'budget', (None, None))
        if prefix is None:
            self.instances.append(label)
        forget_symbols()
        ex = Explorer(cfg, max_paths)
        ex.start, ex.budget = prefix, budget

        def one(run):
            sfn = lookup(run, key + '.' + sf)
            exp = self._side(run, sfn, spec_mk or mk, spec_observe or observe, cfg, spec_side=True, post=post)
            if exp[0] == 'exc' and exp[1] == 'Unspecified':
                return None
            run.spec_entered = set(run.entered)
            if call is not None:
                got = self._side(run, PyFn(impl, call), mk, observe, cfg, post=post)
            else:
                ifn = lookup(run, impl)
                got = self._side(run, ifn, mk, observe, cfg, post=post)
            return self._compare(run, exp, got, strict_exc, values)

        for run, diff in ex.paths(one):
            self.partitions += 1
            if diff is None:
                continue
            self.compared += 1
            if diff:
                if any(v.rule == rule and v.construct == label for v in self.violations):
                    continue
                if poly.empty(run):
                    self.vacuous += 1
                    continue
                self.bad(rule, label, '%s: %s' % (self.where(impl), diff), run.path())
                self.violations[-1].script = [t[0] for t in run.trace]
        self.functions |= set(f for f in ex.entered if not f.startswith('spec_'))
        self.sites += ex.callsites
        self.steps += ex.steps
        self.obligations += 1
        self.left = ex.left
        return ex

    def _side(self, run, fn, mk, observe, cfg, spec_side=False, post=None):
        args = mk(run)
        run.side = 'spec' if spec_side else 'impl'
        if spec_side:
            ov = cfg.overrides
        e0 = len(run.events)
        run.log = []
        try:
            v = run.call(fn, args)
            if post is not None:
                v = post(run, v)
            out = ['ret', v]
        except PyExc as e:
            out = ['exc', e.cls, e.msg if isinstance(e.msg, str) else None]
        except Diverge as e:
            out = ['diverge', str(e)]
        if observe is not None and out[0] == 'ret':
            out.append(observe(run, args, out[1]))
        elif out[0] == 'ret':
            out.append(None)
        return out

    def _compare(self, run, exp, got, strict, values=True):
        if exp[0] != got[0]:
            return '%s instead of %s' % (outcome(got, run), outcome(exp, run))
        if exp[0] == 'exc':
            if strict and exp[1] != got[1]:
                return 'raises %s instead of %s' % (got[1], exp[1])
            return ''
        if exp[0] == 'diverge':
            return ''
        r = veq(run, got[1], exp[1]) if values else None
        if r is None and (exp[2] is not None or got[2] is not None):
            r = veq(run, got[2], exp[2], 'state')
        return r or ''


def outcome(o, run):
    if o[0] == 'exc':
        return 'raises %s%s' % (o[1], ' (%s)' % o[2] if len(o) > 2 and o[2] else '')
    if o[0] == 'diverge':
        return 'does not terminate (%s)' % o[1]
    return 'returns %s' % show(o[1], run)


_loc = {}


def locate(dotted):
    if dotted in _loc:
        return _loc[dotted]
    parts = dotted.split('.')
    r = dotted
    try:
        tree = front.parse(parts[0])
        node = tree
        for p in parts[1:]:
            nxt = None
            for n in node.body:
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == p:
                    nxt = n
            if nxt is None:
                break
            node = nxt
        if node is not tree:
            r = '%s.py:%d %s' % (parts[0], node.lineno, '.'.join(parts[1:]))
    except Exception:
        pass
    _loc[dotted] = r
    return r


def pure(name, isint=False, lo=None, hi=None):
    """override: an uninterpreted function of its arguments"""
    def h(run, args, kw):
        a = [run.force(x) for x in args]
        a = [norm(Num(run.subst_points(x.p), x.isint)) if isinstance(x, Num) else x for x in a]
        return fnatom('u:' + name, tuple(a), isint, None if lo is None else Fr(lo), None if hi is None else Fr(hi))
    return h


# ---------------------------------------------------------------- input makers
def opt(name, isint=False, **kw):
    """unknown number that may be missing"""
    return Lazy(name, [None, sym(name, isint, **kw)])


def real(name, **kw):
    return sym(name, **kw)


def integer(name, **kw):
    return sym(name, True, **kw)


def text(name):
    return Opq(name, kind='str')
