"""Abstract interpreter for the Python subset used by MarineQC.

The interpreter evaluates the *syntax tree* over abstract values (polynomials over
unknown quantities with interval bounds, opaque terms, lazily split "missing or
present" values, abstract heap objects).  Undecided tests split the abstract state;
an Explorer enumerates the resulting partitions.  No repository code is executed.
"""
import ast
from fractions import Fraction as Fr
from math import gcd
from . import front
from .front import AnalysisError
from .domain import (Atom, Poly, Num, NAN, NaNType, Iv, atom, patom, pconst, padd, pscale, pmul, pinv, num, norm,
                     vkey, vsyms, common_mono, mmul, mono_key)


class Unsupported(AnalysisError):
    pass


class Infeasible(Exception):
    pass


class Diverge(Exception):
    pass


class PyExc(Exception):
    """an exception raised by the analysed program"""

    def __init__(self, cls, msg=None, where=None):
        Exception.__init__(self, cls)
        self.cls, self.msg, self.where = cls, msg, where


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


# ------------------------------------------------------------------ values
class Val(object):
    def vsyms(self):
        return frozenset()


class AList(Val):
    def __init__(self, items=(), isnp=False):
        self.items = list(items)
        self.isnp = isnp

    def vkey(self):
        return '[' + ','.join(vkey(x) for x in self.items) + ']'

    def vsyms(self):
        return vsyms(self.items)


class ASet(Val):
    def __init__(self, items=()):
        self.items = list(items)

    def vkey(self):
        return '{' + ','.join(sorted(vkey(x) for x in self.items)) + '}'

    def vsyms(self):
        return vsyms(self.items)


class ADict(Val):
    """insertion ordered dictionary; keys may be abstract. `default` provides lazily
    the content of an unknown environment dictionary."""

    def __init__(self, items=(), provider=None):
        self.k = []
        self.v = []
        self.provider = provider
        for a, b in items:
            self.k.append(a)
            self.v.append(b)

    def vkey(self):
        return '{' + ','.join('%s:%s' % (vkey(a), vkey(b)) for a, b in zip(self.k, self.v)) + '}'

    def vsyms(self):
        return vsyms(self.k) | vsyms(self.v)


class AObj(Val):
    n = 0

    def __init__(self, cls, name=None):
        self.cls = cls
        self.attrs = {}
        AObj.n += 1
        self.name = name or '%s#%d' % (cls.name if cls else 'obj', AObj.n)
        self.lazy_attr = None

    def vkey(self):
        return '<%s>' % self.name


class ClassV(Val):
    def __init__(self, mod, node, bases, interp):
        self.mod, self.node, self.name = mod, node, node.name
        self.bases = bases
        self.ns = {}

    def vkey(self):
        return 'class ' + self.name

    def find(self, name):
        if name in self.ns:
            return self.ns[name], self
        for b in self.bases:
            if isinstance(b, ClassV):
                r = b.find(name)
                if r is not None:
                    return r
        return None


class FuncV(Val):
    def __init__(self, mod, node, qual, closure=None, defaults=(), kwdefaults=None, isgen=False):
        self.mod, self.node, self.qual = mod, node, qual
        self.closure, self.defaults, self.kwdefaults, self.isgen = closure, defaults, kwdefaults or {}, isgen
        self.static = False

    def vkey(self):
        return 'func ' + self.qual


class BoundV(Val):
    def __init__(self, fn, selfv):
        self.fn, self.selfv = fn, selfv

    def vkey(self):
        return 'bound %s.%s' % (vkey(self.selfv), vkey(self.fn))


class MethV(Val):
    """method of a built-in (modelled) value"""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def vkey(self):
        return '%s.%s' % (vkey(self.obj), self.name)


class ModV(Val):
    def __init__(self, name):
        self.name = name
        self.ns = {}
        self.loaded = False

    def vkey(self):
        return 'module ' + self.name


class ExtV(Val):
    """something outside the repository: numpy, math, sys ..."""

    def __init__(self, name):
        self.name = name

    def vkey(self):
        return 'ext ' + self.name


class PyFn(Val):
    """callable provided by the checker: f(run, args, kwargs)"""

    def __init__(self, name, f):
        self.name, self.f = name, f

    def vkey(self):
        return 'fn ' + self.name


class Opq(Val):
    """opaque value identified by a term"""

    def __init__(self, key, syms=None, kind=None, attr=None, call=None, index=None, isnone=False, length=None):
        self.key = key
        self.syms = frozenset(syms) if syms is not None else frozenset([key])
        self.kind = kind            # 'str', 'obj', 'bool' or None
        self.attr, self.callh, self.indexh, self.length = attr, call, index, length
        self.isnone = isnone        # may this opaque value be None?

    def vkey(self):
        return self.key

    def vsyms(self):
        return self.syms

    def __repr__(self):
        return 'Opq(%s)' % self.key


class S(Val):
    """abstract string: concatenation of constant and opaque pieces"""

    def __init__(self, parts):
        self.parts = tuple(parts)

    def vkey(self):
        return 'S(' + '~'.join(repr(p) if isinstance(p, str) else '<' + vkey(p) + '>' for p in self.parts) + ')'

    def vsyms(self):
        s = frozenset()
        for p in self.parts:
            s = s | vsyms(p)
        return s

    def __repr__(self):
        return self.vkey()


class Lazy(Val):
    """one of several alternatives, split only when inspected"""

    def __init__(self, key, alts, syms=None):
        self.key, self.alts = key, alts
        self.syms = frozenset(syms) if syms is not None else frozenset([key])

    def vkey(self):
        return 'lazy ' + self.key

    def vsyms(self):
        return self.syms

    def __repr__(self):
        return 'Lazy(%s)' % self.key


class SliceV(object):
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c

    def vkey(self):
        return '%s:%s:%s' % (vkey(self.a), vkey(self.b), vkey(self.c))


def mkstr(parts):
    out = []
    parts = list(parts)
    if any(getattr(p, 'istext', False) for p in parts):
        flat = []
        for p in parts:
            flat.extend(p.parts if isinstance(p, S) else [p])
        if all(isinstance(p, str) or getattr(p, 'istext', False) and not p.stripped for p in flat):
            from .text import text
            return text([c for p in flat for c in (p if isinstance(p, str) else p.cs)])
        parts = flat
    for p in parts:
        if isinstance(p, S):
            for q in p.parts:
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                elif q != '':
                    out.append(q)
        elif isinstance(p, str):
            if p == '':
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
        else:
            out.append(p)
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return S(out)


def fnatom(name, args, isint=False, lo=None, hi=None, lo_open=False, hi_open=False):
    return Num(patom(atom('fn', name, tuple(args), isint, lo, hi, lo_open, hi_open)), isint)


def sym(name, isint=False, lo=None, hi=None, lo_open=False, hi_open=False):
    """fresh named numeric unknown"""
    a = atom('sym', name, (), isint, None if lo is None else Fr(lo), None if hi is None else Fr(hi), lo_open, hi_open)
    if a.isint != isint or a.lo != (None if lo is None else Fr(lo)) or a.hi != (None if hi is None else Fr(hi)):
        raise AnalysisError('symbol %s redefined' % name)
    return Num(patom(a), isint)


PI = Num(patom(atom('sym', 'pi', (), False, Fr(314159, 100000), Fr(314160, 100000))))
BUILTIN_EXC = {}
import builtins as _b
for _n in dir(_b):
    _o = getattr(_b, _n)
    if isinstance(_o, type) and issubclass(_o, BaseException):
        BUILTIN_EXC[_n] = _o


class Unspecified(BaseException):
    pass


BUILTIN_EXC['Unspecified'] = Unspecified


def exc_matches(raised, handler):
    r, h = BUILTIN_EXC.get(raised), BUILTIN_EXC.get(handler)
    if r is None or h is None:
        return raised == handler
    return issubclass(r, h)


BUILTINS = set('''len range xrange int float str abs min max sum enumerate zip map filter sorted reversed list tuple dict
set isinstance round print open any all bool type repr hasattr getattr setattr iter next id object super unicode
frozenset divmod pow callable chr ord'''.split())


class Env(object):
    __slots__ = ('vars', 'parent', 'mod', 'globs', 'func')

    def __init__(self, mod, parent=None, func=None):
        self.vars = {}
        self.parent = parent
        self.mod = mod
        self.globs = set()
        self.func = func


class Config(object):
    """per-analysis configuration shared by the runs"""

    def __init__(self):
        self.overrides = {}      # qualified name -> handler(run, args, kwargs)
        self.focus = None        # None: split on everything; else predicate(frozenset syms)->bool
        self.policy = 0
        self.loop_cap = 400
        self.max_steps = 400000
        self.open_modules = None
        self.natural_bools = True
        self.extmods = {}        # text modules (specifications)
        self.divzero = False     # raise ZeroDivisionError alternatives
        self.enter_hook = None
        self.models = {}         # dotted external name -> handler
        self.merge = None


def may_occur(parts, item):
    """whether item can occur in the concatenation of parts, the numeric ones of which are spelt with digits"""
    cells = []
    for p in parts:
        if isinstance(p, str):
            cells += [(x, False) for x in p]
        elif getattr(p, 'numeric', False):
            cells.append(('0123456789+-.e ', True))
        else:
            return True
    at = set(range(len(cells)))
    for ch in item:
        nxt = set()
        for i in at:
            if i < len(cells) and ch in cells[i][0]:
                nxt.add(i + 1)
                if cells[i][1]:
                    nxt.add(i)
        at = nxt
    return bool(at)


class Run(object):
    def __init__(self, cfg, script):
        self.cfg = cfg
        self.script = script
        self.trace = []          # [choice, n, description]
        self.bounds = {}         # key poly -> Iv
        self.neq = {}            # key poly -> set of excluded values
        self.modforms = {}       # key poly of x mod n -> (key of x, n)
        self.divs = {}           # key of x -> [least common multiple of its known divisors, known non-divisors]
        self.diffs = {}
        self.facts = {}
        self.eqconst = {}
        self.subs = {}           # atom -> polynomial (solved linear equations)
        self.npoints = 0
        self.lazy = {}
        self.modules = {}
        self.events = []
        self.steps = 0
        self.depth = 0
        self.stack = []
        self.entered = set()
        self.callsites = 0
        self.fresh_n = 0
        self.printed = []
        self.nodes = []
        self.loading = []

    # ------------------------------------------------------------ choices
    def choose(self, n, desc, syms=frozenset()):
        if n == 1:
            return 0
        f = self.cfg.focus
        if f is not None and not f(syms):
            pol = self.cfg.policy
            if callable(pol):
                return pol(desc, n) % n
            return pol % n
        i = len(self.trace)
        c = self.script[i] if i < len(self.script) else 0
        if c >= n:
            raise AnalysisError('nondeterministic replay')
        self.trace.append([c, n, desc])
        return c

    def fresh(self, base):
        self.fresh_n += 1
        return '%s!%d' % (base, self.fresh_n)

    def path(self):
        return [d if isinstance(d, str) else d(c) for c, n, d in self.trace]

    def note(self, desc, branch):
        if self.trace:
            pass

    # ------------------------------------------------------------ forcing
    def force(self, v):
        while isinstance(v, Lazy):
            if v.key in self.lazy:
                v = self.lazy[v.key]
                continue
            key = v.key
            alts = v.alts
            c = self.choose(len(alts), (lambda k, A: lambda c: '%s is %s' % (k, vkey(A[c]) if not callable(A[c]) else '#%d' % c))(key, alts), v.syms)
            nv = alts[c]
            if callable(nv) and not isinstance(nv, Val):
                nv = nv(self)
            self.lazy[key] = nv
            v = nv
        return v

    # ------------------------------------------------------------ numeric reasoning
    def _atom_iv(self, a):
        iv = Iv(a.lo, a.hi, a.lo_open, a.hi_open)
        b = self.bounds.get(patom(a))
        if b is not None:
            iv = iv.meet(b)
        return iv

    def _mono_iv(self, m):
        r = Iv(Fr(1), Fr(1))
        for a, e in m:
            r = r.mul(self._atom_iv(a).powi(e))
        if len(m) > 1 or (len(m) == 1 and m[0][1] != 1):
            b = self.bounds.get(Poly({m: Fr(1)}))
            if b is not None:
                r = r.meet(b)
        return r

    def _struct_iv(self, p):
        r = Iv(Fr(0), Fr(0))
        for m, c in p.t.items():
            r = r.add(self._mono_iv(m).scale(c))
        return r

    def subst_points(self, p):
        """replace atoms known to be a single value"""
        for _ in range(30):
            ch = None
            for m in p.t:
                for a, e in m:
                    if a in self.subs:
                        ch = (a, self.subs[a])
                        break
                    pt = self._atom_iv(a).point()
                    if pt is not None:
                        ch = (a, pt)
                        break
                    if a.kind in ('fn', 'inv') and a.args:
                        na = self._resimplify(a)
                        if na is not None:
                            ch = (a, na)
                            break
                if ch:
                    break
            if not ch:
                return p
            a, val = ch
            q = Poly({})
            for m, c in p.t.items():
                d = dict(m)
                if a in d:
                    e = d.pop(a)
                    rest = tuple(sorted(d.items(), key=lambda x: x[0].key))
                    base = val if isinstance(val, Poly) else pconst(val)
                    if e < 0:
                        if not base.t:
                            raise Infeasible()
                        base = pinv(base)
                    term = Poly({rest: c})
                    for _i in range(abs(e)):
                        term = pmul(term, base)
                    q = padd(q, term)
                else:
                    q = padd(q, Poly({m: c}))
            p = q
        return p

    def _resimplify(self, a):
        if a.kind == 'inv':
            q = self.subst_points(a.args[0].p)
            if q != a.args[0].p:
                if not q.t:
                    raise Infeasible()
                return pinv(q)
        arc = a.name in ('asin', 'acos', 'atan')
        if a.kind == 'fn' and a.args and (self.subs or self.npoints or arc):
            ch = False
            args = []
            for x in a.args:
                if isinstance(x, Num):
                    q = self.subst_points(x.p)
                    if arc and q.const() is None:
                        # the argument as a whole may be known
                        key, scale, c0 = self.canon(q)
                        b = self.bounds.get(key)
                        if b is not None and b.point() is not None:
                            q = pconst((b.point() + c0) * scale)
                    if q != x.p:
                        ch = True
                        x = Num(q, x.isint)
                args.append(x)
            if ch:
                if a.name.startswith('u:'):
                    args = [norm(x) if isinstance(x, Num) else x for x in args]
                if a.name == 'floor':
                    return num(self.floor(args[0])).p
                if a.name == 'sqrt':
                    return num(self.sqrt(args[0])).p
                from . import models
                b = atom('fn', a.name, tuple(args), a.isint, a.lo, a.hi, a.lo_open, a.hi_open)
                r = patom(b)
                if a.name in ('sin', 'cos', 'asin', 'acos', 'atan', 'exp', 'log'):
                    r = num(models.EXT['math.' + a.name](self, [args[0]], {})).p
                old = self.bounds.get(patom(a))
                if old is not None and r == patom(b):
                    self.bounds[r] = (self.bounds.get(r) or Iv()).meet(old)
                return r
        return None

    def canon(self, p):
        """(key, scale, const): p == scale*(key + const) with canonical key, scale>0 or <0"""
        c0 = p.t.get((), Fr(0))
        t = {m: c for m, c in p.t.items() if m}
        if not t:
            return None, Fr(1), c0
        lead = t[min(t, key=mono_key)]
        allint = all(all(a.isint and e > 0 for a, e in m) for m in t)
        if allint:
            # primitive integer scaling
            from math import gcd
            den = 1
            for c in t.values():
                den = den * c.denominator // gcd(den, c.denominator)
            g = 0
            for c in t.values():
                g = gcd(g, int(c * den))
            scale = Fr(g, den)
            if lead < 0:
                scale = -scale
        else:
            scale = lead
        key = Poly({m: c / scale for m, c in t.items()})
        return key, scale, c0 / scale

    def _isint_poly(self, p):
        for m, c in p.t.items():
            if c.denominator != 1:
                return False
            for a, e in m:
                if not a.isint or e < 0:
                    return False
        return True

    def iv(self, p):
        """interval of polynomial p under current knowledge"""
        if self.subs:
            p = self.subst_points(p)
        key, scale, c = self.canon(p)
        if key is None:
            v = c * scale
            return Iv(v, v)
        r = self._key_iv(key)
        return r.add(Iv(c, c)).scale(scale)

    def _key_iv(self, key):
        r = self._struct_iv(key)
        b = self.bounds.get(key)
        if b is not None:
            r = r.meet(b)
        # floor(p) alternatives: floor(p) = p - frac, frac in [0,1)
        fl = self._floor_alt(key)
        if fl is not None:
            r = r.meet(fl)
        d = self._diff_iv(key)
        if d is not None:
            r = r.meet(d)
        if self._isint_poly(key):
            import math
            lo, hi = r.lo, r.hi
            if lo is not None:
                f = -((-lo).__floor__())
                lo2 = Fr(f)
                if r.lo_open and lo2 == lo:
                    lo2 += 1
                lo = lo2
            if hi is not None:
                f = Fr(hi.__floor__())
                if r.hi_open and f == hi:
                    f -= 1
                hi = f
            r = Iv(lo, hi)
            ex = self.neq.get(key)
            if ex:
                while r.lo is not None and r.lo in ex and not r.empty():
                    r = Iv(r.lo + 1, r.hi)
                while r.hi is not None and r.hi in ex and not r.empty():
                    r = Iv(r.lo, r.hi - 1)
        else:
            ex = self.neq.get(key)
            if ex:
                if r.lo is not None and r.lo in ex:
                    r = Iv(r.lo, r.hi, True, r.hi_open)
                if r.hi is not None and r.hi in ex:
                    r = Iv(r.lo, r.hi, r.lo_open, True)
        if r.empty():
            raise Infeasible()
        return r

    def _floor_alt(self, key, depth=0):
        for m, c in key.t.items():
            if len(m) == 1 and m[0][0].name == 'floor' and m[0][0].kind == 'fn' and m[0][1] == 1:
                a = m[0][0]
                rest = Poly({n: d for n, d in key.t.items() if n != m})
                arg = a.args[0].p
                alt = padd(rest, pscale(arg, c))   # key = rest + c*(arg - frac)
                if alt.t and any(mm for mm in alt.t) and depth < 3:
                    k2, s2, c2 = self.canon(alt)
                    base = self._struct_iv(k2)
                    b = self.bounds.get(k2)
                    if b is not None:
                        base = base.meet(b)
                    f2 = self._floor_alt(k2, depth + 1)
                    if f2 is not None:
                        base = base.meet(f2)
                    base = base.add(Iv(c2, c2)).scale(s2)
                else:
                    cc = alt.const()
                    base = Iv(cc, cc)
                frac = Iv(Fr(0), Fr(1), False, True).scale(-c)
                return base.add(frac)
        return None

    # difference constraints between two monomials / one monomial and zero
    def _diff_form(self, key):
        ms = list(key.t.items())
        if len(ms) == 2:
            (m1, c1), (m2, c2) = ms
            if c1 == 1 and c2 == -1:
                return m1, m2
            if c1 == -1 and c2 == 1:
                return m2, m1
        return None

    def _diff_iv(self, key):
        if len(key.t) == 1 and self.diffs:
            (m, c), = key.t.items()
            if c != 1 or not any(m in d for d in self.diffs.values()):
                return None
            a, b = m, '0'
            hi, lo = self._shortest(a, b), self._shortest(b, a)
            return Iv(None if lo is None else -lo[0], None if hi is None else hi[0],
                      False if lo is None else lo[1], False if hi is None else hi[1])
        df = self._diff_form(key)
        if df is None or len(self.diffs) < 2:
            return None
        a, b = df
        # upper bound of a-b: shortest path b -> a
        sign = 1 if key.t[a] == 1 else -1
        hi = self._shortest(a, b)
        lo = self._shortest(b, a)
        r = Iv(None if lo is None else -lo[0], None if hi is None else hi[0],
               False if lo is None else lo[1], False if hi is None else hi[1])
        return r if sign == 1 else r.scale(-1)

    def _edges(self):
        """list of (u, v, w, open): u - v <= w"""
        out = []
        for key, (a, b) in self.diffs.items():
            ivl = self.bounds.get(key)
            if ivl is None:
                continue
            if key.t[a] == -1:
                ivl = ivl.scale(-1)
            if ivl.hi is not None:
                out.append((a, b, ivl.hi, ivl.hi_open))
            if ivl.lo is not None:
                out.append((b, a, -ivl.lo, ivl.lo_open))
        nodes = set()
        for u, v, w, o in out:
            nodes.add(u)
            nodes.add(v)
        Z = '0'
        for m in nodes:
            r = self._mono_iv(m)
            if r.hi is not None:
                out.append((m, Z, r.hi, r.hi_open))
            if r.lo is not None:
                out.append((Z, m, -r.lo, r.lo_open))
        return out

    def _shortest(self, a, b):
        """tightest w with a - b <= w"""
        edges = self._edges()
        best = {a: (Fr(0), False)}
        for _ in range(6):
            ch = False
            for u, v, w, o in edges:
                if u in best:
                    nw = best[u][0] + w
                    no = best[u][1] or o
                    cur = best.get(v)
                    if cur is None or nw < cur[0] or (nw == cur[0] and no and not cur[1]):
                        best[v] = (nw, no)
                        ch = True
            if not ch:
                break
        return best.get(b)

    def normdiff(self, p):
        """simplify a polynomial whose sign is wanted: substitute known values, clear
        denominators and common factors of known sign. returns (poly)"""
        p = self.subst_points(p)
        for _ in range(6):
            if not p.t or p.const() is not None:
                return p
            # clear inv atoms
            invs = set()
            for m in p.t:
                for a, e in m:
                    if a.kind == 'inv' and e > 0:
                        invs.add(a)
            done = True
            for a in sorted(invs, key=lambda x: x.key):
                q = a.args[0].p
                s = self._quick_sign(q)
                if s in ('+', '-'):
                    # multiply by q
                    t = Poly({})
                    for m, c in p.t.items():
                        d = dict(m)
                        if a in d:
                            d[a] -= 1
                            if d[a] == 0:
                                del d[a]
                            t = padd(t, Poly({tuple(sorted(d.items(), key=lambda x: x[0].key)): c}))
                        else:
                            t = padd(t, pmul(Poly({m: c}), q))
                    p = t if s == '+' else pscale(t, -1)
                    done = False
                    break
            if not done:
                continue
            cm = common_mono(p)
            if len(p.t) == 1:
                cm = ()
                (m, c), = p.t.items()
                # single monomial: drop factors of known sign
                keep = []
                for a, e in m:
                    s = self._quick_sign(patom(a))
                    if s == '+':
                        continue
                    if s == '-':
                        if e % 2:
                            c = -c
                        continue
                    keep.append((a, e))
                if len(keep) != len(m):
                    p = Poly({tuple(keep): c})
                    continue
                return p
            ch = False
            for a, e in cm:
                s = self._quick_sign(patom(a))
                if s in ('+', '-'):
                    t = {}
                    for m, c in p.t.items():
                        t[mmul(m, ((a, -e),))] = c if (s == '+' or e % 2 == 0) else -c
                    p = Poly(t)
                    ch = True
                    break
            if not ch:
                return p
        return p

    def _quick_sign(self, p):
        key, scale, c = self.canon(p)
        if key is None:
            v = c * scale
        else:
            r = self._struct_iv(key)
            b = self.bounds.get(key)
            if b is not None:
                r = r.meet(b)
            if self.diffs and len(key.t) == 1 and r.lo is None and r.hi is None:
                d = self._diff_iv(key)
                if d is not None:
                    r = r.meet(d)
            r = r.add(Iv(c, c)).scale(scale)
            if r.lo is not None and (r.lo > 0 or (r.lo == 0 and r.lo_open)):
                return '+'
            if r.hi is not None and (r.hi < 0 or (r.hi == 0 and r.hi_open)):
                return '-'
            return None
        return '+' if v > 0 else '-' if v < 0 else '0'

    def signs(self, p):
        """set of feasible signs of p"""
        p = self.normdiff(p)
        return self._signs(p), p

    def _signs(self, p):
        key, scale, c = self.canon(p)
        if key is None:
            v = c * scale
            return {'+' if v > 0 else '-' if v < 0 else '0'}
        r = self._key_iv(key)
        out = set()
        z = -c
        if r.lo is None or r.lo < z:
            out.add('-')
        if r.hi is None or r.hi > z:
            out.add('+')
        zin = ((r.lo is None or r.lo < z or (r.lo == z and not r.lo_open)) and
               (r.hi is None or r.hi > z or (r.hi == z and not r.hi_open)))
        if zin and z in self.neq.get(key, ()):
            zin = False
        if zin and self._isint_poly(key) and z.denominator != 1:
            zin = False
        if zin and c == 0 and key in self.modforms:
            x, n = self.modforms[key]
            known = self.divs.get(x)
            if known is not None:
                if known[0] % n == 0:
                    out = set()
                else:
                    m = known[0] * n // gcd(known[0], n)
                    if any(m % k == 0 for k in known[1]):
                        zin = False
        if zin:
            out.add('0')
        if scale < 0:
            out = {{'+': '-', '-': '+', '0': '0'}[s] for s in out}
        if not out:
            raise Infeasible()
        return out

    def constrain(self, p, rel):
        """assume p rel 0, rel in '<','<=','>','>=','==','!='"""
        key, scale, c = self.canon(p)
        if key is None:
            return
        if scale < 0:
            rel = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}[rel]
        z = -c
        if z == 0 and rel in ('==', '!=', '>', '<') and key in self.modforms:
            x, n = self.modforms[key]
            known = self.divs.setdefault(x, [1, set()])
            if rel == '==':
                known[0] = known[0] * n // gcd(known[0], n)
            else:
                known[1].add(n)
        if rel == '!=':
            self.neq.setdefault(key, set()).add(z)
            return
        b = self.bounds.get(key) or Iv()
        if rel not in ('==', '!=') and self._isint_poly(key):
            if rel in ('<', '>='):
                up = Fr(-((-z).__floor__()))
                z, rel = (up - 1, '<=') if rel == '<' else (up, '>=')
            else:
                dn = Fr(z.__floor__())
                z, rel = (dn, '<=') if rel == '<=' else (dn + 1, '>=')
        if rel == '==':
            nb = Iv(z, z)
        elif rel == '<':
            nb = Iv(None, z, False, True)
        elif rel == '<=':
            nb = Iv(None, z)
        elif rel == '>':
            nb = Iv(z, None, True, False)
        else:
            nb = Iv(z, None)
        self.bounds[key] = nb = b.meet(nb)
        df = self._diff_form(key)
        if df is not None:
            self.diffs[key] = df
        r = self._key_iv(key)
        pt = r.point()
        if pt is not None:
            self.npoints += 1
            if len(key.t) > 1:
                self.solve(key, pt)

    def solve(self, key, pt):
        """key == pt: eliminate one atom"""
        best = None
        for m, c in key.t.items():
            if len(m) != 1 or m[0][1] != 1:
                continue
            a = m[0][0]
            if any(a is not b and a.syms <= b.syms and a in _deep_atoms(b) for n in key.t for b, e in n if n != m):
                continue
            if any(a is b for n in key.t for b, e in n if n != m):
                continue
            if a.isint and not (all(all(b.isint and e > 0 for b, e in n) for n in key.t)
                                and all((d / c).denominator == 1 for d in key.t.values())):
                continue
            rank = (0 if a.kind == 'sym' else 1, a.key)
            if best is None or rank < best[0]:
                best = (rank, a, m, c)
        if best is None:
            return
        _, a, m, c = best
        rest = {n: -d / c for n, d in key.t.items() if n != m}
        rest[()] = rest.get((), Fr(0)) + pt / c
        if not rest[()]:
            del rest[()]
        q = Poly(rest)
        if a in self.subs or any(a in _deep_atoms(b) for n in q.t for b, e in n):
            return
        self.subs[a] = q
        for b in list(self.subs):
            if b is not a:
                self.subs[b] = self.subst_points(self.subs[b])
        # transfer what was known about the eliminated atom
        if a.lo is not None:
            self.assume(padd(q, pconst(a.lo), -1), '>' if a.lo_open else '>=')
        if a.hi is not None:
            self.assume(padd(q, pconst(a.hi), -1), '<' if a.hi_open else '<=')
        for k2 in list(self.bounds):
            if k2 is key or k2 == key or not any(a is b for n in k2.t for b, e in n):
                continue
            iv2 = self.bounds[k2]
            p2 = self.subst_points(k2)
            if p2 == k2:
                continue
            if p2.const() is not None:
                v = p2.const()
                if iv2.meet(Iv(v, v)).empty() or v in self.neq.get(k2, ()):
                    raise Infeasible()
                continue
            if iv2.lo is not None:
                self.assume(padd(p2, pconst(iv2.lo), -1), '>' if iv2.lo_open else '>=')
            if iv2.hi is not None:
                self.assume(padd(p2, pconst(iv2.hi), -1), '<' if iv2.hi_open else '<=')
        for k2 in list(self.neq):
            if not any(a is b for n in k2.t for b, e in n):
                continue
            p2 = self.subst_points(k2)
            if p2 == k2:
                continue
            v = p2.const()
            if v is not None:
                if v in self.neq[k2]:
                    raise Infeasible()
                continue
            for z in list(self.neq[k2]):
                self.assume(padd(p2, pconst(z), -1), '!=')

    def assume(self, p, rel):
        s, q = self.signs(p)
        true = {'<': {'-'}, '<=': {'-', '0'}, '>': {'+'}, '>=': {'+', '0'}, '==': {'0'}, '!=': {'+', '-'}}[rel]
        if not (s & true):
            raise Infeasible()
        if not s <= true:
            self.constrain(q, rel)

    def test(self, p, rel):
        """decide p rel 0, splitting when undecided"""
        s, q = self.signs(p)
        true = {'<': {'-'}, '<=': {'-', '0'}, '>': {'+'}, '>=': {'+', '0'}, '==': {'0'}, '!=': {'+', '-'}}[rel]
        if s <= true:
            return True
        if not (s & true):
            return False
        neg = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}[rel]
        k = q.key
        c = self.choose(2, lambda c, k=k, rel=rel, neg=neg: '%s %s 0' % (k, rel if c == 0 else neg), q.syms)
        if c == 0:
            self.constrain(q, rel)
            return True
        self.constrain(q, neg)
        return False

    def sign3(self, p):
        s, q = self.signs(p)
        opts = sorted(s)
        if len(opts) > 1:
            i = self.choose(len(opts), lambda c, k=q.key, o=tuple(opts): 'sign(%s)=%s' % (k, o[c]), q.syms)
        else:
            i = 0
        r = opts[i]
        self.constrain(q, {'-': '<', '0': '==', '+': '>'}[r])
        return r

    def concretize(self, v, what='index', limit=400):
        """an integer abstract value -> python int, splitting over its finite interval"""
        v = self.force(v)
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if not isinstance(v, Num):
            raise Unsupported('cannot concretize %r (%s)' % (v, what))
        p = self.subst_points(v.p)
        c = p.const()
        if c is not None:
            if c.denominator != 1:
                raise PyExc('TypeError', 'non-integer ' + what)
            return int(c)
        r = self.iv(p)
        if r.lo is None or r.hi is None or r.hi - r.lo > limit:
            raise Unsupported('unbounded %s %s in %s' % (what, v.p.key, r))
        vals = []
        x = -((-r.lo).__floor__())
        while x <= r.hi:
            vals.append(x)
            x += 1
        key, scale, cc = self.canon(p)
        ok = []
        for x in vals:
            z = Fr(x) / scale - cc
            if z in self.neq.get(key, ()):
                continue
            ok.append(x)
        if not ok:
            raise Infeasible()
        i = self.choose(len(ok), lambda c, k=p.key, o=tuple(ok): '%s == %s' % (k, o[c]), p.syms)
        self.constrain(padd(p, pconst(ok[i]), -1), '==')
        return int(ok[i])

    def split_index(self, v, n):
        """index into a sequence of length n: python int in range or raises IndexError"""
        v = self.force(v)
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            if v < -n or v >= n:
                raise PyExc('IndexError')
            return v
        if v is None or isinstance(v, (str, S)):
            raise PyExc('TypeError', 'bad index')
        if isinstance(v, Num):
            c = self.subst_points(v.p).const()
            if c is not None and not v.isint:
                raise PyExc('TypeError', 'float index')
            if not v.isint:
                raise PyExc('TypeError', 'float index %s' % v.p.key)
            if self.test(padd(v.p, pconst(n), -1), '>='):
                raise PyExc('IndexError')
            if self.test(padd(v.p, pconst(-n), -1), '<'):
                raise PyExc('IndexError')
            return self.concretize(v)
        raise Unsupported('index %r' % (v,))

    # ------------------------------------------------------------ arithmetic
    def isnum(self, v):
        return isinstance(v, (Num, int)) and not isinstance(v, bool) or isinstance(v, (bool, NaNType))

    def tonum(self, v):
        v = self.force(v)
        if isinstance(v, (Num, int, bool)):
            return num(v)
        if v is NAN:
            return v
        if isinstance(v, Opq):
            if v.kind == 'str':
                raise PyExc('TypeError', 'string in arithmetic')
            return Num(patom(atom('sym', v.key, ())) if v.syms == frozenset([v.key]) else
                       patom(atom('fn', v.key, (), argkeys=[], syms=v.syms)), False)
        if v is None:
            raise PyExc('TypeError', 'None in arithmetic')
        raise PyExc('TypeError', 'arithmetic on %s' % type(v).__name__)

    def setop(self, op, a, b):
        if op == 'BitOr':
            return ASet(a.items + [x for x in b.items if not self.contains(a, x)])
        if op == 'BitAnd':
            return ASet([x for x in a.items if self.contains(b, x)])
        if op == 'Sub':
            return ASet([x for x in a.items if not self.contains(b, x)])
        if op == 'BitXor':
            return self.setop('BitOr', self.setop('Sub', a, b), self.setop('Sub', b, a))
        raise PyExc('TypeError', 'operator on sets')

    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if getattr(a, 'isfarr', False) or getattr(b, 'isfarr', False):
            from . import models
            if op in ('BitAnd', 'BitOr'):
                both = op == 'BitAnd'
                return models.farr_map(self, lambda x, y: (self.truth(x) and self.truth(y)) if both else (self.truth(x) or self.truth(y)), [a, b])
            return models.farr_map(self, lambda x, y: self.binop(op, self.f_floatnum(x) if op == 'Div' else x, y), [a, b])
        # strings
        if op == 'Add' and (getattr(a, 'istext', False) or getattr(b, 'istext', False)):
            return a.binop(self, op, b, False) if getattr(a, 'istext', False) else b.binop(self, op, a, True)
        if op == 'Mod' and isinstance(a, str):
            from . import models
            return models.printf(self, a, b)
        if isinstance(a, (str, S)) or (isinstance(a, Opq) and a.kind == 'str'):
            if op == 'Add':
                if isinstance(b, (str, S)) or (isinstance(b, Opq) and b.kind in ('str', None)):
                    return mkstr([a, b])
                raise PyExc('TypeError', 'str + non-str')
            if op == 'Mult' and isinstance(a, str) and isinstance(b, int):
                return a * b
            if op == 'Mult' and isinstance(a, str) and isinstance(b, Num):
                return S([Opq('repeat(%r,%s)' % (a, b.p.key), vsyms(b), 'str')])
            if op == 'Mod':
                args = list(b) if isinstance(b, tuple) else [b]
                return S([Opq('fmt(%s,%s)' % (vkey(a), vkey(args)), vsyms(a) | vsyms(args), 'str')])
        if isinstance(b, (str, S)) and op == 'Add':
            if isinstance(a, Opq) and a.kind is None:
                return mkstr([a, b])
            raise PyExc('TypeError', 'non-str + str')
        if isinstance(b, str) and op == 'Mult' and isinstance(a, int):
            return a * b
        # sequences
        if isinstance(a, AList) or isinstance(b, AList):
            return self.listop(op, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add':
            return a + b
        if isinstance(a, ASet) and isinstance(b, ASet):
            return self.setop(op, a, b)
        if isinstance(a, AObj):
            m = {'Sub': '__sub__', 'Add': '__add__', 'Mult': '__mul__', 'Div': '__div__'}.get(op)
            return self.call_method(a, m, [b])
        if op in ('BitOr', 'BitAnd') and isinstance(a, (bool, Opq)) and isinstance(b, (bool, Opq)):
            x, y = self.truth(a), self.truth(b)
            return (x or y) if op == 'BitOr' else (x and y)
        h = getattr(a, 'binop', None)
        if h is not None:
            r = h(self, op, b, False)
            if r is not NotImplemented:
                return r
        h = getattr(b, 'binop', None)
        if h is not None:
            r = h(self, op, a, True)
            if r is not NotImplemented:
                return r
        if a is NAN or b is NAN:
            if a is None or b is None:
                raise PyExc('TypeError')
            return NAN
        x, y = self.tonum(a), self.tonum(b)
        if x is NAN or y is NAN:
            return NAN
        if op == 'Add':
            return norm(Num(padd(x.p, y.p), x.isint and y.isint))
        if op == 'Sub':
            return norm(Num(padd(x.p, y.p, -1), x.isint and y.isint))
        if op == 'Mult':
            return norm(Num(pmul(x.p, y.p), x.isint and y.isint))
        if op in ('Div', 'FloorDiv'):
            q = self.divide(x, y)
            if op == 'FloorDiv' or (x.isint and y.isint):
                return self.floor(q, both_int=x.isint and y.isint)
            return q
        if op == 'Mod':
            q = self.divide(x, y)
            f = num(self.floor(q))
            r = norm(Num(padd(x.p, pmul(y.p, f.p), -1), x.isint and y.isint))
            n = y.p.const()
            if x.isint and y.isint and n is not None and n > 0 and isinstance(r, Num):
                key, scale, c = self.canon(self.normdiff(r.p))
                if key is not None and c == 0:
                    self.modforms[key] = (x.p.key, int(n))
            return r
        if op == 'Pow':
            c = y.p.const()
            if c is not None and c.denominator == 1 and abs(c) <= 12:
                r = pconst(1)
                for _ in range(abs(int(c))):
                    r = pmul(r, x.p)
                if c < 0:
                    r = pinv(r)
                return norm(Num(r, x.isint and y.isint and c >= 0))
            if c == Fr(1, 2):
                return self.sqrt(x)
            cx = x.p.const()
            if cx is not None and cx > 0 and c is not None:
                return fnatom('pow', (x, y), lo=Fr(0), lo_open=True)
            return fnatom('pow', (x, y))
        raise Unsupported('operator ' + op)

    def divide(self, x, y):
        p = self.subst_points(y.p)
        c = p.const()
        if c is not None:
            if c == 0:
                raise PyExc('ZeroDivisionError')
            return Num(pscale(x.p, 1 / c), False)
        s, q = self.signs(p)
        if len(s) > 1 and self._quick_sign(p) is None and len(self.bounds) < 60:
            from . import poly
            if poly.empty(self, [(q, False)]):
                s = {'+'}
                self.constrain(q, '>')
            elif poly.empty(self, [(pscale(q, -1), False)]):
                s = {'-'}
                self.constrain(q, '<')
        if s == {'0'}:
            raise PyExc('ZeroDivisionError')
        if '0' in s:
            if self.cfg.divzero:
                if self.test(p, '=='):
                    raise PyExc('ZeroDivisionError')
            else:
                self.constrain(q, '!=')
        xp = self.subst_points(x.p) if x.p.syms & y.p.syms else x.p
        # exact proportionality
        if xp.t and len(p.t) > 1 and len(xp.t) == len(p.t):
            m0 = min(p.t, key=mono_key)
            if m0 in xp.t:
                r = xp.t[m0] / p.t[m0]
                if pscale(p, r) == xp:
                    return Num(pconst(r), False)
        return Num(pmul(xp, pinv(p)), False)

    def sqrt(self, x):
        c = x.p.const()
        if c is not None and c >= 0:
            import math
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return Num(pconst(Fr(n, d)), False)
        if len(x.p.t) == 1 and c is None:
            (m, cc), = x.p.t.items()
            if all(e % 2 == 0 for a, e in m) and all(self._quick_sign(patom(a)) == '+' for a, e in m):
                return Num(pmul(num(self.sqrt(Num(pconst(cc)))).p, Poly({tuple((a, e // 2) for a, e in m): Fr(1)})))
        return fnatom('sqrt', (Num(x.p, False),), lo=Fr(0))

    def floor(self, x, both_int=False):
        """largest integer <= x, int valued"""
        x = num(x)
        p = self.subst_points(x.p)
        c = p.const()
        if c is not None:
            return int(c.__floor__())
        if self._isint_poly(p):
            return norm(Num(p, True))
        # extract the integer-valued part
        ip, rest = {}, {}
        for m, cc in p.t.items():
            if all(a.isint and e > 0 for a, e in m):
                k = Fr(cc.__floor__())
                if k:
                    ip[m] = k
                if cc - k:
                    rest[m] = cc - k
            else:
                rest[m] = cc
        rp = Poly(rest)
        r = self.iv(rp)
        if r.lo is not None and r.hi is not None:
            lo = r.lo.__floor__()
            hi = r.hi.__floor__()
            if r.hi_open and hi == r.hi:
                hi -= 1
            if lo == hi:
                return norm(Num(padd(Poly(ip), pconst(lo)), True))
        # floor(floor(u)/k)... keep simple: atom
        lo = None if r.lo is None else Fr(r.lo.__floor__())
        hi = None
        if r.hi is not None:
            hi = Fr(r.hi.__floor__())
            if r.hi_open and hi == r.hi:
                hi -= 1
        a = atom('fn', 'floor', (Num(rp, False),), True)
        res = Num(padd(Poly(ip), patom(a)), True)
        if lo is not None or hi is not None:
            k = patom(a)
            b = self.bounds.get(k) or Iv()
            self.bounds[k] = b.meet(Iv(lo, hi))
        return norm(res)

    def whole(self, p):
        """the whole number a value rounded to no decimals is"""
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'fn' and m[0][0].name == 'round' and m[0][0].args[1] == 0:
                return fnatom('whole', (m[0][0].args[0],), True)
        return None

    def trunc(self, x):
        x = num(x)
        if x.isint:
            return norm(x)
        r = self.whole(x.p)
        if r is not None:
            return r
        if self.test(x.p, '>='):
            return self.floor(x)
        f = num(self.floor(Num(pscale(x.p, -1))))
        return norm(Num(pscale(f.p, -1), True))

    def neg(self, v):
        v = self.force(v)
        if isinstance(v, AList):
            return AList([self.neg(x) for x in v.items], v.isnp)
        x = self.tonum(v)
        if x is NAN:
            return NAN
        return norm(Num(pscale(x.p, -1), x.isint))

    def abs_(self, v):
        v = self.force(v)
        if isinstance(v, AList):
            return AList([self.abs_(x) for x in v.items], v.isnp)
        h = getattr(v, 'absop', None)
        if h is not None:
            return h(self)
        x = self.tonum(v)
        if x is NAN:
            return NAN
        # |p| and |-p| ask the same question
        p, q = x.p, pscale(x.p, -1)
        key, scale, _ = self.canon(p)
        if key is not None and scale < 0:
            p, q = q, p
        return norm(Num(p if self.test(p, '>=') else q, x.isint))

    def listop(self, op, a, b):
        if isinstance(a, AList) and isinstance(b, AList) and not a.isnp and not b.isnp:
            if op == 'Add':
                return AList(a.items + b.items)
            raise PyExc('TypeError', 'list op')
        if isinstance(a, AList) and not a.isnp and not (isinstance(b, AList) and b.isnp):
            if op == 'Mult':
                return AList(a.items * self.concretize(b, 'repeat'))
            if op == 'Add' and isinstance(b, tuple):
                raise PyExc('TypeError')
            if isinstance(b, (Num, int)) and op != 'Mult':
                raise PyExc('TypeError', 'list op number')
        if isinstance(a, AList) and isinstance(b, AList):
            if len(a.items) != len(b.items):
                if len(b.items) == 1:
                    return AList([self.binop(op, x, b.items[0]) for x in a.items], True)
                if len(a.items) == 1:
                    return AList([self.binop(op, a.items[0], y) for y in b.items], True)
                raise PyExc('ValueError', 'shape mismatch')
            return AList([self.binop(op, x, y) for x, y in zip(a.items, b.items)], True)
        if isinstance(a, AList) and a.isnp:
            return AList([self.binop(op, x, b) for x in a.items], True)
        if isinstance(b, AList) and b.isnp:
            return AList([self.binop(op, a, y) for y in b.items], True)
        raise PyExc('TypeError', 'list op')

    # ------------------------------------------------------------ comparisons
    def compare(self, op, a, b):
        if op in ('Is', 'IsNot'):
            r = self.is_(a, b)
            return r if op == 'Is' else (not r)
        if op in ('In', 'NotIn'):
            r = self.contains(b, a)
            return r if op == 'In' else (not r)
        if op in ('Eq', 'NotEq'):
            fa, fb = self.force(a), self.force(b)
            if getattr(fa, 'isfarr', False) or getattr(fb, 'isfarr', False):
                from . import models
                return models.farr_map(self, lambda x, y: self.compare(op, x, y), [fa, fb])
            if isinstance(fa, AList) and fa.isnp or isinstance(fb, AList) and fb.isnp:
                return self.npcmp(op, fa, fb)
            r = self.eq(fa, fb)
            return r if op == 'Eq' else (not r)
        a, b = self.force(a), self.force(b)
        if getattr(a, 'isfarr', False) or getattr(b, 'isfarr', False):
            from . import models
            return models.farr_map(self, lambda x, y: self.compare(op, x, y), [a, b])
        if (isinstance(a, AList) and a.isnp) or (isinstance(b, AList) and b.isnp):
            return self.npcmp(op, a, b)
        return self.order(op, a, b)

    def npcmp(self, op, a, b):
        n = len(a.items) if isinstance(a, AList) else len(b.items)
        xs = a.items if isinstance(a, AList) else [a] * n
        ys = b.items if isinstance(b, AList) else [b] * n
        return AList([self.compare(op, x, y) for x, y in zip(xs, ys)], True)

    def order(self, op, a, b):
        h = getattr(a, 'cmpop', None)
        if h is not None:
            return h(self, op, b, False)
        h = getattr(b, 'cmpop', None)
        if h is not None:
            return h(self, op, a, True)
        if isinstance(a, AObj) or isinstance(b, AObj):
            return self.obj_order(op, a, b)
        if a is None or b is None:
            # Python 2: None sorts below everything
            la, lb = a is not None, b is not None
            return {'Lt': la < lb, 'LtE': la <= lb, 'Gt': la > lb, 'GtE': la >= lb}[op]
        if a is NAN or b is NAN:
            return False
        if isinstance(a, (str, S)) or isinstance(b, (str, S)) or (isinstance(a, Opq) and a.kind in ('str', 'time')) or \
                (isinstance(b, Opq) and b.kind in ('str', 'time')):
            return self.opq_order(op, a, b)
        if isinstance(a, (tuple, AList)) and isinstance(b, (tuple, AList)):
            xs = a if isinstance(a, tuple) else a.items
            ys = b if isinstance(b, tuple) else b.items
            for x, y in zip(xs, ys):
                if self.eq(x, y):
                    continue
                return self.order('Lt' if op in ('Lt', 'LtE') else 'Gt', self.force(x), self.force(y))
            return {'Lt': len(xs) < len(ys), 'LtE': len(xs) <= len(ys), 'Gt': len(xs) > len(ys),
                    'GtE': len(xs) >= len(ys)}[op]
        x, y = self.tonum(a), self.tonum(b)
        return self.test(padd(x.p, y.p, -1), {'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>='}[op])

    def opq_order(self, op, a, b):
        """total order on opaque values: represented by a numeric rank atom"""
        if isinstance(a, str) and isinstance(b, str):
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
        if self.isnum(a) or self.isnum(b):
            # Python 2: numbers sort below strings
            la, lb = not self.isnum(a), not self.isnum(b)
            return {'Lt': la < lb, 'LtE': la <= lb, 'Gt': la > lb, 'GtE': la >= lb}[op]
        x = atom('fn', 'rank', (a,), syms=vsyms(a))
        y = atom('fn', 'rank', (b,), syms=vsyms(b))
        return self.test(padd(patom(x), patom(y), -1), {'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>='}[op])

    def obj_order(self, op, a, b):
        names = {'Lt': ('__lt__', '__gt__'), 'Gt': ('__gt__', '__lt__'), 'LtE': ('__le__', '__ge__'),
                 'GtE': ('__ge__', '__le__')}[op]
        if isinstance(a, AObj):
            m = a.cls.find(names[0]) if a.cls else None
            if m:
                return self.truth(self.call_method(a, names[0], [b]))
        if isinstance(b, AObj):
            m = b.cls.find(names[1]) if b.cls else None
            if m:
                return self.truth(self.call_method(b, names[1], [a]))
        if a is None or b is None:
            la, lb = a is not None, b is not None
            return {'Lt': la < lb, 'LtE': la <= lb, 'Gt': la > lb, 'GtE': la >= lb}[op]
        raise PyExc('TypeError', 'unorderable')

    def is_(self, a, b):
        a, b = self.force(a), self.force(b)
        for x, y in ((a, b), (b, a)):
            if y is None:
                if x is None:
                    return True
                if isinstance(x, Opq) and x.isnone:
                    return self.fact('isnone(%s)' % x.key, x.syms)
                return False
            if isinstance(y, bool):
                if isinstance(x, bool):
                    return x == y
                if isinstance(x, Opq) and x.kind == 'bool':
                    return self.truth(x) == y
                return False
        if isinstance(a, (ExtV, ClassV, Opq)) or isinstance(b, (ExtV, ClassV, Opq)):
            return vkey(a) == vkey(b)
        if isinstance(a, (int, str, Num)) and isinstance(b, (int, str, Num)):
            return self.eq(a, b)
        return a is b

    def fact(self, key, syms, desc=None):
        if key not in self.facts:
            d = desc or key
            self.facts[key] = self.choose(2, lambda c, d=d: ('%s' if c == 0 else 'not %s') % d, syms) == 0
        return self.facts[key]

    def eq(self, a, b):
        a, b = self.force(a), self.force(b)
        if a is b and a is not NAN:
            return True
        if a is NAN or b is NAN:
            return False
        if a is None or b is None:
            o = b if a is None else a
            if isinstance(o, Opq) and o.isnone:
                return self.fact('isnone(%s)' % o.key, o.syms)
            return a is None and b is None
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if getattr(a, 'istext', False):
            return a.eqop(self, b)
        if getattr(b, 'istext', False):
            return b.eqop(self, a)
        if isinstance(a, (str, S)) or isinstance(b, (str, S)) or (isinstance(a, Opq) and a.kind == 'str') or \
                (isinstance(b, Opq) and b.kind == 'str'):
            return self.str_eq(a, b)
        if isinstance(a, (Num, int)) and isinstance(b, (Num, int)):
            return self.test(padd(num(a).p, num(b).p, -1), '==')
        if isinstance(a, (tuple, AList)) and isinstance(b, (tuple, AList)):
            if isinstance(a, tuple) != isinstance(b, tuple):
                return False
            xs = a if isinstance(a, tuple) else a.items
            ys = b if isinstance(b, tuple) else b.items
            if len(xs) != len(ys):
                return False
            for x, y in zip(xs, ys):
                if not self.eq(x, y):
                    return False
            return True
        if isinstance(a, AObj) and a.cls is not None and a.cls.find('__eq__'):
            return self.truth(self.call_method(a, '__eq__', [b]))
        if isinstance(b, AObj) and b.cls is not None and b.cls.find('__eq__'):
            return self.truth(self.call_method(b, '__eq__', [a]))
        h = getattr(a, 'eqop', None)
        if h is not None:
            return h(self, b)
        h = getattr(b, 'eqop', None)
        if h is not None:
            return h(self, a)
        if isinstance(a, Opq) and isinstance(b, Opq):
            if a.key == b.key:
                return True
            k = sorted([a.key, b.key])
            if a.kind == 'time' and b.kind == 'time':
                x = atom('fn', 'rank', (a,), syms=vsyms(a))
                y = atom('fn', 'rank', (b,), syms=vsyms(b))
                return self.test(padd(patom(x), patom(y), -1), '==')
            return self.fact('%s==%s' % tuple(k), a.syms | b.syms)
        if isinstance(a, Opq) and isinstance(b, (Num, int)) or isinstance(b, Opq) and isinstance(a, (Num, int)):
            if isinstance(a, Opq) and a.kind == 'time' or isinstance(b, Opq) and b.kind == 'time':
                return False
            return self.test(padd(self.tonum(a).p, self.tonum(b).p, -1), '==')
        if isinstance(a, Opq) or isinstance(b, Opq):
            k = sorted([vkey(a), vkey(b)])
            return self.fact('%s==%s' % tuple(k), vsyms(a) | vsyms(b))
        if isinstance(a, (ExtV, ClassV, FuncV)) or isinstance(b, (ExtV, ClassV, FuncV)):
            return vkey(a) == vkey(b)
        if type(a) is not type(b):
            return False
        if isinstance(a, ADict):
            if a is b:
                return True
            if len(a.k) != len(b.k):
                return False
            for k, v in zip(a.k, a.v):
                found, w = self.dict_find(b, k)
                if not found or not self.eq(v, w):
                    return False
            return True
        if isinstance(a, AObj):
            return a is b
        raise Unsupported('equality of %r and %r' % (a, b))

    def resolved_text(self, s):
        """numbers known by now written out"""
        if not isinstance(s, S) or not any(isinstance(getattr(p, 'v', None), Num) for p in s.parts):
            return s
        out = []
        for p in s.parts:
            v = getattr(p, 'v', None)
            if isinstance(v, Num):
                q = norm(Num(self.subst_points(v.p), v.isint))
                if isinstance(q, int) and not isinstance(q, bool):
                    try:
                        p = format(q, p.spec)
                    except ValueError:
                        pass
                elif vkey(q) != vkey(v):
                    p = p.__class__(q, p.spec)
            out.append(p)
        return mkstr(out)

    def str_eq(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if self.isnum(a) or self.isnum(b) or isinstance(a, (tuple, AList)) or isinstance(b, (tuple, AList)):
            return False
        ka, kb = vkey(a), vkey(b)
        if ka == kb:
            return True
        if isinstance(a, S) or isinstance(b, S):
            a, b = self.resolved_text(a), self.resolved_text(b)
            ka, kb = vkey(a), vkey(b)
            if ka == kb:
                return True
        if isinstance(a, str) and isinstance(b, str):
            return False
        if isinstance(a, str):
            a, b, ka, kb = b, a, kb, ka
        if isinstance(b, str):
            # abstract == constant
            cur = self.eqconst.get(ka)
            if cur is not None:
                return cur == b
            if isinstance(a, S):
                if self._impossible(a, b):
                    return False
                if len(a.parts) == 1 and isinstance(a.parts[0], Opq):
                    return self.str_eq(a.parts[0], b)
            if isinstance(a, Opq) and a.length is not None and a.length != len(b):
                return False
            fk = '%s==%r' % (ka, b)
            if fk in self.facts:
                return self.facts[fk]
            r = self.fact(fk, vsyms(a))
            if r:
                self.eqconst[ka] = b
            return r
        ca, cb = self.eqconst.get(ka), self.eqconst.get(kb)
        if ca is not None:
            return self.str_eq(b, ca)
        if cb is not None:
            return self.str_eq(a, cb)
        if isinstance(a, S) and isinstance(b, S):
            r = self._s_eq(a, b)
            if r is not None:
                return r
        if isinstance(a, Opq) and isinstance(b, Opq):
            # equality and the alphabetical order are one relation
            x = atom('fn', 'rank', (a,), syms=vsyms(a))
            y = atom('fn', 'rank', (b,), syms=vsyms(b))
            return self.test(padd(patom(x), patom(y), -1), '==')
        k = sorted([ka, kb])
        return self.fact('%s==%s' % tuple(k), vsyms(a) | vsyms(b))

    def _s_eq(self, a, b):
        # strip equal prefix / suffix; compare single remaining pieces
        x, y = list(a.parts), list(b.parts)
        while x and y and vkey(x[0]) == vkey(y[0]):
            x.pop(0)
            y.pop(0)
        while x and y and vkey(x[-1]) == vkey(y[-1]):
            x.pop()
            y.pop()
        if not x and not y:
            return True
        if len(x) == 1 and len(y) == 1 and not isinstance(x[0], str) and not isinstance(y[0], str):
            p, q = x[0], y[0]
            sp, sq = getattr(p, 'strof', None), getattr(q, 'strof', None)
            if sp is not None and sq is not None:
                return self.eq(sp, sq)
            return self.eq(p, q)
        if all(isinstance(p, str) for p in x) and all(isinstance(p, str) for p in y):
            return ''.join(x) == ''.join(y)
        return None

    def _impossible(self, s, const):
        p = s.parts
        if isinstance(p[0], str) and not const.startswith(p[0]):
            return True
        if isinstance(p[-1], str) and not const.endswith(p[-1]):
            return True
        if all((not isinstance(x, str)) and getattr(x, 'numeric', False) for x in p):
            if const and not any(ch.isdigit() for ch in const):
                return True
        return False

    def truth(self, v):
        v = self.force(v)
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, int):
            return v != 0
        if isinstance(v, Num):
            return self.test(v.p, '!=')
        if v is NAN:
            return True
        if isinstance(v, str):
            return v != ''
        if isinstance(v, S):
            if any(isinstance(p, str) and p for p in v.parts):
                return True
            return self.fact('nonempty(%s)' % v.vkey(), v.vsyms())
        if getattr(v, 'istext', False):
            return v.truthop(self)
        if isinstance(v, AList):
            if v.isnp and len(v.items) != 1:
                raise PyExc('ValueError', 'truth of array')
            if v.isnp:
                return self.truth(v.items[0])
            return len(v.items) > 0
        if isinstance(v, (tuple,)):
            return len(v) > 0
        if isinstance(v, ASet):
            return len(v.items) > 0
        if isinstance(v, ADict):
            return len(v.k) > 0 or v.provider is not None
        if isinstance(v, AObj):
            for nm in ('__bool__', '__nonzero__', '__len__'):
                if v.cls is not None and v.cls.find(nm):
                    return self.truth(self.call_method(v, nm, []))
            return True
        if isinstance(v, Opq):
            return self.fact('truth(%s)' % v.key, v.syms)
        return True

    def contains(self, cont, item):
        cont = self.force(cont)
        if isinstance(cont, (tuple, AList, ASet)):
            items = cont if isinstance(cont, tuple) else cont.items
            item = self.force(item)
            if isinstance(item, str) and all(type(x) is str for x in items):
                return item in items
            for x in items:
                if self.eq(item, x):
                    return True
            return False
        if isinstance(cont, ADict):
            if cont.provider is not None:
                found, v = self.dict_find(cont, item)
                return found
            return self.dict_find(cont, item)[0]
        h = getattr(cont, 'containsop', None)
        if h is not None:
            return h(self, item)
        if isinstance(cont, str):
            item = self.force(item)
            if isinstance(item, str):
                return item in cont
        if isinstance(cont, (str, S, Opq)):
            item = self.force(item)
            if isinstance(cont, S) and isinstance(item, str) and any(isinstance(p, str) and item in p for p in cont.parts):
                return True
            if isinstance(cont, S) and isinstance(item, str) and not may_occur(cont.parts, item):
                return False
            return self.fact('%s in %s' % (vkey(item), vkey(cont)), vsyms(item) | vsyms(cont))
        if isinstance(cont, AObj) and cont.cls is not None and cont.cls.find('__contains__'):
            return self.truth(self.call_method(cont, '__contains__', [item]))
        raise PyExc('TypeError', 'not a container')

    # ------------------------------------------------------------ dictionaries
    def _hashable(self, k):
        if isinstance(k, (AList, ADict, ASet)):
            raise PyExc('TypeError', 'unhashable')

    def dict_find(self, d, k):
        k = self.force(k)
        self._hashable(k)
        conc = isinstance(k, (str, int, bool)) or k is None
        if conc:
            rest = False
            for kk, vv in zip(d.k, d.v):
                if isinstance(kk, (str, int, bool)) or kk is None:
                    if kk == k and type(kk) == type(k):
                        return True, vv
                else:
                    rest = True
            if not rest:
                return self._dict_default(d, k)
        for kk, vv in zip(d.k, d.v):
            if self.eq(k, kk):
                return True, vv
        return self._dict_default(d, k)

    def _dict_default(self, d, k):
        if d.provider is not None:
            v = d.provider(self, k)
            if v is not None and not (isinstance(v, tuple) and v == ('missing',)):
                d.k.append(k)
                d.v.append(v)
                return True, v
            if v is None:
                d.k.append(k)
                d.v.append(None)
                return True, None
        return False, None

    def dict_set(self, d, k, v):
        k = self.force(k)
        self._hashable(k)
        for i, kk in enumerate(d.k):
            if isinstance(k, (str, int)) and isinstance(kk, (str, int)):
                if kk == k and type(kk) == type(k):
                    d.v[i] = v
                    return
            elif self.eq(k, kk):
                d.v[i] = v
                return
        d.k.append(k)
        d.v.append(v)

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in _spectrees:
            self.cfg.extmods.setdefault(name, _spectrees[name])
        hit = _modcache.get(name)
        if hit is not None and hit[2] is self.cfg.extmods.get(name):
            m, snap, _ = hit
            for d in hit[0].deps:
                self.module(d)
            _restore(snap)
            self.modules[name] = m
            return m
        m = ModV(name)
        m.deps = []
        for p in self.loading:
            p.deps.append(name)
        self.modules[name] = m
        self.loading.append(m)
        try:
            self._load(m, name)
        finally:
            self.loading.pop()
        _modcache[name] = (m, _snapshot(m), self.cfg.extmods.get(name))
        return m

    def _load(self, m, name):
        if name in self.cfg.extmods:
            tree = self.cfg.extmods[name]
        else:
            tree = front.parse(name)
        env = Env(m)
        env.vars = m.ns
        m.env = env
        for st in tree.body:
            self.stmt(st, env)
        m.loaded = True

    def import_(self, name):
        top = name.split('.')[0]
        if name in self.cfg.extmods or (name in front.modules()):
            return self.module(name)
        if self.loading and self.loading[-1].name.startswith('spec_'):
            import os
            path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs', name + '.py')
            if os.path.exists(path):
                key = 'spec_' + name
                if key not in self.cfg.extmods:
                    if key not in _spectrees:
                        with open(path) as f:
                            _spectrees[key] = front.parse_text(f.read(), path)
                    self.cfg.extmods[key] = _spectrees[key]
                return self.module(key)
        return ExtV({'numpy': 'np'}.get(name, name))

    def f_floatnum(self, v):
        v = self.force(v)
        return Num(v.p, False) if isinstance(v, Num) else Num(pconst(v), False) if isinstance(v, int) else v

    # ------------------------------------------------------------ statements
    def block(self, body, env):
        for st in body:
            self.stmt(st, env)

    def stmt(self, st, env):
        self.steps += 1
        if self.steps > self.cfg.max_steps:
            raise Diverge('step limit in %s' % (self.stack[-3:],))
        self.cur = st
        getattr(self, 'st_' + type(st).__name__)(st, env)

    def st_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.expr(st.value, env)

    def st_Pass(self, st, env):
        pass

    def st_Import(self, st, env):
        for al in st.names:
            self.bind(env, al.asname or al.name.split('.')[0], self.import_(al.name if al.asname else al.name.split('.')[0]))

    def st_ImportFrom(self, st, env):
        m = self.import_(st.module)
        for al in st.names:
            if isinstance(m, ModV):
                if al.name == '*':
                    env.vars.update(m.ns)
                    continue
                if al.name not in m.ns:
                    raise PyExc('ImportError', al.name)
                v = m.ns[al.name]
            else:
                v = ExtV(m.name + '.' + al.name)
            self.bind(env, al.asname or al.name, v)

    def bind(self, env, name, v):
        if name in env.globs:
            self.module_env(env).vars[name] = v
            return
        env.vars[name] = v

    def module_env(self, env):
        return env.mod.env

    def st_Global(self, st, env):
        env.globs.update(st.names)

    def st_Nonlocal(self, st, env):
        for n in st.names:
            env.globs.discard(n)
            env.vars.setdefault('!nonlocal', set()).add(n)

    def st_FunctionDef(self, st, env):
        qual = (env.func + '.' if env.func else '') + st.name
        f = self.mkfunc(st, env, env.mod.name + '.' + qual)
        for dec in st.decorator_list:
            d = dec.id if isinstance(dec, ast.Name) else None
            if d == 'staticmethod':
                f.static = True
            elif d == 'classmethod':
                f.static = 'class'
            elif d == 'property':
                f.static = 'property'
            else:
                raise Unsupported('decorator %s' % ast.dump(dec))
        self.bind(env, st.name, f)

    def mkfunc(self, st, env, qual):
        defaults = [self.expr(d, env) for d in st.args.defaults]
        kwd = {}
        for a, d in zip(st.args.kwonlyargs, st.args.kw_defaults):
            if d is not None:
                kwd[a.arg] = self.expr(d, env)
        isgen = False
        if isinstance(st, ast.FunctionDef):
            isgen = _is_gen(st)
        closure = env if env.func is not None or env.parent is not None else None
        if getattr(env, 'is_class', False):
            closure = env.parent
        return FuncV(env.mod, st, qual, closure, defaults, kwd, isgen)

    def st_ClassDef(self, st, env):
        bases = [self.expr(b, env) for b in st.bases]
        c = ClassV(env.mod, st, bases, self)
        cenv = Env(env.mod, env, st.name)
        cenv.vars = c.ns
        for s in st.body:
            if isinstance(s, ast.FunctionDef):
                f = self.mkfunc_cls(s, env, env.mod.name + '.' + st.name + '.' + s.name)
                for dec in s.decorator_list:
                    d = dec.id if isinstance(dec, ast.Name) else None
                    f.static = {'staticmethod': True, 'classmethod': 'class', 'property': 'property'}.get(d, f.static)
                c.ns[s.name] = f
            else:
                self.stmt(s, cenv)
        self.bind(env, st.name, c)

    def mkfunc_cls(self, s, env, qual):
        f = self.mkfunc(s, env, qual)
        return f

    def st_Return(self, st, env):
        raise _Return(self.expr(st.value, env) if st.value is not None else None)

    def st_Break(self, st, env):
        raise _Break()

    def st_Continue(self, st, env):
        raise _Continue()

    def st_Assign(self, st, env):
        v = self.expr(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def st_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.expr(st.value, env), env)

    def st_AugAssign(self, st, env):
        op = type(st.op).__name__
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.expr(ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t), env)
            self.bind_name(env, t.id, self.iop(op, cur, self.expr(st.value, env)))
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value, env)
            cur = self.getattr_(o, t.attr)
            self.setattr_(o, t.attr, self.iop(op, cur, self.expr(st.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value, env)
            i = self.index_expr(t.slice, env)
            cur = self.getitem(o, i)
            self.setitem(o, i, self.iop(op, cur, self.expr(st.value, env)))
        else:
            raise Unsupported('augassign')

    def iop(self, op, cur, v):
        cur = self.force(cur)
        if isinstance(cur, AList) and not cur.isnp and op == 'Add':
            cur.items.extend(self.iterate(v))
            return cur
        if isinstance(cur, AList) and cur.isnp:
            r = self.binop(op, cur, v)
            cur.items[:] = r.items
            return cur
        if getattr(cur, 'isfarr', False):
            r = self.binop(op, cur, v)
            cur.default, cur.stores = r.default, r.stores
            return cur
        return self.binop(op, cur, v)

    def bind_name(self, env, name, v):
        nl = env.vars.get('!nonlocal')
        if nl and name in nl:
            e = env.parent
            while e is not None:
                if name in e.vars:
                    e.vars[name] = v
                    return
                e = e.parent
        self.bind(env, name, v)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.bind_name(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.iterate(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                k = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    raise PyExc('ValueError', 'unpack')
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, AList(items[i:len(items) - k]), env)
                for e, x in zip(t.elts[i + 1:], items[len(items) - k:]):
                    self.assign(e, x, env)
                return
            if len(items) != len(t.elts):
                raise PyExc('ValueError', 'unpack')
            for e, x in zip(t.elts, items):
                self.assign(e, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.expr(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.expr(t.value, env), self.index_expr(t.slice, env), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise Unsupported('assignment target')

    def st_If(self, st, env):
        if self.truth(self.expr(st.test, env)):
            self.block(st.body, env)
        else:
            self.block(st.orelse, env)

    def st_While(self, st, env):
        n = 0
        broke = False
        while self.truth(self.expr(st.test, env)):
            n += 1
            if n > self.cfg.loop_cap:
                raise Diverge('loop at line %d of %s' % (st.lineno, env.mod.name))
            try:
                self.block(st.body, env)
            except _Break:
                broke = True
                break
            except _Continue:
                continue
        if not broke:
            self.block(st.orelse, env)

    def st_For(self, st, env):
        broke = False
        it = self.expr(st.iter, env)
        seq = self.live_iter(it)
        for v in seq:
            self.assign(st.target, v, env)
            try:
                self.block(st.body, env)
            except _Break:
                broke = True
                break
            except _Continue:
                continue
        if not broke:
            self.block(st.orelse, env)

    def live_iter(self, it):
        it = self.force(it)
        if isinstance(it, AList):
            i = 0
            while i < len(it.items):
                if i > 20000:
                    raise Diverge('unbounded list iteration')
                yield it.items[i]
                i += 1
            return
        for v in self.iterate(it):
            yield v

    def st_Raise(self, st, env):
        if st.exc is None:
            raise getattr(self, 'current_exc', None) or PyExc('RuntimeError')
        v = self.force(self.expr(st.exc, env))
        if isinstance(v, PyExcV):
            raise PyExc(v.cls, v.msg, self.where())
        if isinstance(v, ExcClassV):
            raise PyExc(v.name, None, self.where())
        if isinstance(v, AObj) and v.cls is not None:
            raise PyExc(v.cls.name, v, self.where())
        raise PyExc('TypeError', 'exceptions must derive from BaseException', self.where())

    def where(self):
        return self.stack[-1] if self.stack else ''

    def st_Try(self, st, env):
        try:
            try:
                self.block(st.body, env)
            except PyExc as e:
                for h in st.handlers:
                    if self.handler_matches(h, e, env):
                        if h.name:
                            self.bind(env, h.name, PyExcV(e.cls, e.msg))
                        old = getattr(self, 'current_exc', None)
                        self.current_exc = e
                        try:
                            self.block(h.body, env)
                        finally:
                            self.current_exc = old
                        break
                else:
                    raise
            else:
                self.block(st.orelse, env)
        finally:
            if st.finalbody:
                self.block(st.finalbody, env)

    def handler_matches(self, h, e, env):
        if h.type is None:
            return True
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for t in ts:
            v = self.expr(t, env)
            if isinstance(v, ExcClassV) and exc_matches(e.cls, v.name):
                return True
            if isinstance(v, ClassV) and v.name == e.cls:
                return True
        return False

    def st_Assert(self, st, env):
        if not self.truth(self.expr(st.test, env)):
            msg = self.expr(st.msg, env) if st.msg is not None else None
            raise PyExc('AssertionError', msg, self.where())

    def st_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                if t.id in env.vars:
                    del env.vars[t.id]
                else:
                    raise PyExc('NameError', t.id)
            elif isinstance(t, ast.Subscript):
                o = self.force(self.expr(t.value, env))
                i = self.index_expr(t.slice, env)
                self.delitem(o, i)
            elif isinstance(t, ast.Attribute):
                o = self.force(self.expr(t.value, env))
                if isinstance(o, AObj):
                    o.attrs.pop(t.attr, None)

    def delitem(self, o, i):
        if isinstance(o, AList):
            if isinstance(i, SliceV):
                a, b, c = self.slice_bounds(i, len(o.items))
                del o.items[a:b:c]
            else:
                del o.items[self.split_index(i, len(o.items))]
        elif isinstance(o, ADict):
            i = self.force(i)
            for j, kk in enumerate(o.k):
                if self.eq(i, kk):
                    del o.k[j]
                    del o.v[j]
                    return
            raise PyExc('KeyError')
        else:
            raise Unsupported('del item')

    def st_With(self, st, env):
        for item in st.items:
            v = self.expr(item.context_expr, env)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, env)
        try:
            self.block(st.body, env)
        finally:
            h = getattr(self, 'with_exit', None)
            if h:
                h(v)

    # ------------------------------------------------------------ expressions
    def expr(self, e, env):
        return getattr(self, 'e_' + type(e).__name__)(e, env)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            return Num(pconst(Fr(repr(v))), False)
        if isinstance(v, bytes):
            return v.decode('latin1')
        return v

    def e_Name(self, e, env):
        n = e.id
        x = env
        while x is not None:
            if n in x.vars and not (x is not env and getattr(x, 'func', None) is None and False):
                return x.vars[n]
            x = x.parent
        g = env.mod.ns
        if n in g:
            return g[n]
        return self.builtin_name(n)

    def builtin_name(self, n):
        if n in BUILTIN_EXC:
            return ExcClassV(n)
        if n in BUILTINS:
            return ExtV('builtins.' + n)
        if n == '__name__':
            return 'analysed'
        raise PyExc('NameError', n)

    def e_Num(self, e, env):
        return self.e_Constant(e, env)

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                spec = ''
                if v.format_spec is not None:
                    spec = self.expr(v.format_spec, env)
                parts.append(self.format_value(self.expr(v.value, env), spec))
        return mkstr(parts)

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.expr(x.value, env)))
            else:
                out.append(self.expr(x, env))
        return out

    def e_List(self, e, env):
        return AList(self.elts(e.elts, env))

    def e_Set(self, e, env):
        return ASet(self.elts(e.elts, env))

    def e_Dict(self, e, env):
        d = ADict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.force(self.expr(v, env))
                for a, b in zip(o.k, o.v):
                    self.dict_set(d, a, b)
                continue
            self.dict_set(d, self.expr(k, env), self.expr(v, env))
        return d

    def e_BinOp(self, e, env):
        return self.binop(type(e.op).__name__, self.expr(e.left, env), self.expr(e.right, env))

    def e_UnaryOp(self, e, env):
        v = self.expr(e.operand, env)
        op = type(e.op).__name__
        if op == 'Not':
            return not self.truth(v)
        if op == 'USub':
            h = getattr(v, 'negop', None)
            if h is not None:
                return h(self)
            return self.neg(v)
        if op == 'UAdd':
            return v
        if op == 'Invert':
            v = self.force(v)
            if isinstance(v, AList):
                return AList([not self.truth(x) for x in v.items], True)
            if getattr(v, 'isfarr', False):
                from . import models
                return models.farr_map(self, lambda x: not self.truth(x), [v])
        raise Unsupported('unary ' + op)

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for x in e.values:
            v = self.expr(x, env)
            if x is e.values[-1]:
                return v
            t = self.truth(v)
            if isand and not t:
                return v if isinstance(v, bool) else self.force(v)
            if not isand and t:
                return v if isinstance(v, bool) else self.force(v)
        return v

    def e_Compare(self, e, env):
        left = self.expr(e.left, env)
        r = True
        for op, c in zip(e.ops, e.comparators):
            right = self.expr(c, env)
            r = self.compare(type(op).__name__, left, right)
            if c is e.comparators[-1]:
                return r
            if not self.truth(r):
                return r
            left = right
        return r

    def e_IfExp(self, e, env):
        return self.expr(e.body if self.truth(self.expr(e.test, env)) else e.orelse, env)

    def e_Lambda(self, e, env):
        return self.mkfunc(e, env, env.mod.name + '.<lambda>')

    def e_ListComp(self, e, env):
        out = []
        self.comp(e.generators, 0, self.compenv(env), lambda en: out.append(self.expr(e.elt, en)))
        return AList(out)

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, env):
        return ASet(self.e_ListComp(e, env).items)

    def e_DictComp(self, e, env):
        d = ADict()
        self.comp(e.generators, 0, self.compenv(env),
                  lambda en: self.dict_set(d, self.expr(e.key, en), self.expr(e.value, en)))
        return d

    def compenv(self, env):
        n = Env(env.mod, env, env.func)
        return n

    def comp(self, gens, i, env, f):
        if i == len(gens):
            f(env)
            return
        g = gens[i]
        for v in self.iterate(self.expr(g.iter, env)):
            self.assign(g.target, v, env)
            if all(self.truth(self.expr(c, env)) for c in g.ifs):
                self.comp(gens, i + 1, env, f)

    def e_Yield(self, e, env):
        v = self.expr(e.value, env) if e.value is not None else None
        x = env
        while '!yields' not in x.vars:
            x = x.parent
        ys = x.vars['!yields']
        ys.append(v)
        if len(ys) > self.cfg.loop_cap:
            raise Diverge('generator %s' % self.where())
        return None

    def e_YieldFrom(self, e, env):
        x = env
        while '!yields' not in x.vars:
            x = x.parent
        x.vars['!yields'].extend(self.iterate(self.expr(e.value, env)))
        return None

    def e_Attribute(self, e, env):
        return self.getattr_(self.expr(e.value, env), e.attr)

    def e_Subscript(self, e, env):
        return self.getitem(self.expr(e.value, env), self.index_expr(e.slice, env))

    def index_expr(self, s, env):
        if isinstance(s, ast.Slice):
            return SliceV(*[None if x is None else self.expr(x, env) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple) and any(isinstance(x, ast.Slice) for x in s.elts):
            return tuple(self.index_expr(x, env) for x in s.elts)
        return self.expr(s, env)

    def e_Slice(self, s, env):
        return self.index_expr(s, env)

    def e_Starred(self, e, env):
        raise Unsupported('starred')

    def e_NamedExpr(self, e, env):
        v = self.expr(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Call(self, e, env):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            x = env
            while x is not None and 'self' not in x.vars:
                x = x.parent
            raise Unsupported('super')
        f = self.expr(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.expr(a.value, env)))
            else:
                args.append(self.expr(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.force(self.expr(k.value, env))
                for a, b in zip(d.k, d.v):
                    kw[a] = b
            else:
                kw[k.arg] = self.expr(k.value, env)
        self.callnode = e
        return self.call(f, args, kw)

    # ------------------------------------------------------------ attribute / item access
    def getattr_(self, o, name):
        o = self.force(o)
        if isinstance(o, ModV):
            if name in o.ns:
                return o.ns[name]
            raise PyExc('AttributeError', '%s.%s' % (o.name, name))
        if isinstance(o, ExtV):
            c = self.ext_const(o.name + '.' + name)
            if c is not None:
                return c
            return ExtV(o.name + '.' + name)
        if isinstance(o, AObj):
            if name in o.attrs:
                return o.attrs[name]
            if o.cls is not None:
                r = o.cls.find(name)
                if r is not None:
                    v, c = r
                    if isinstance(v, FuncV):
                        if v.static is True:
                            return v
                        if v.static == 'class':
                            return BoundV(v, o.cls)
                        if v.static == 'property':
                            return self.call_func(v, [o], {})
                        return BoundV(v, o)
                    return v
            if name == '__dict__':
                return ADict(list(o.attrs.items()))
            if name == '__class__':
                return o.cls
            if o.lazy_attr is not None:
                v = o.lazy_attr(self, o, name)
                if v is not None:
                    return v
            raise PyExc('AttributeError', name)
        if isinstance(o, ClassV):
            r = o.find(name)
            if r is not None:
                v = r[0]
                if isinstance(v, FuncV) and v.static == 'class':
                    return BoundV(v, o)
                return v
            raise PyExc('AttributeError', name)
        if isinstance(o, Opq):
            if o.attr is not None:
                v = o.attr(self, o, name)
                if v is not None:
                    return v
            if o.kind == 'str':
                return MethV(o, name)
            return Opq('%s.%s' % (o.key, name), o.syms)
        if o is None:
            raise PyExc('AttributeError', 'None.' + name)
        h = getattr(o, 'getattrop', None)
        if h is not None:
            v = h(self, name)
            if v is not None:
                return v
        return MethV(o, name)

    def ext_const(self, name):
        if name in ('np.pi', 'math.pi'):
            return PI
        if name in ('np.nan', 'np.NaN', 'math.nan'):
            return NAN
        return None

    def setattr_(self, o, name, v):
        o = self.force(o)
        if isinstance(o, AObj):
            o.attrs[name] = v
        elif isinstance(o, ModV):
            o.ns[name] = v
        elif isinstance(o, ClassV):
            o.ns[name] = v
        elif o is None:
            raise PyExc('AttributeError', 'None.' + name)
        else:
            h = getattr(o, 'setattrop', None)
            if h is None:
                raise Unsupported('setattr on %r' % (o,))
            h(self, name, v)

    def char_of(self, o, i):
        """character of a constant string at an unknown place: kept as one value, not split"""
        if isinstance(i, SliceV):
            if i.c is not None or i.a is None or i.b is None:
                return None
            lo, hi = self.force(i.a), self.force(i.b)
            if not isinstance(lo, Num) or not lo.isint or not self.isnum(hi):
                return None
            if padd(num(hi).p, lo.p, -1).const() != 1:
                return None
            if not self.order('GtE', lo, 0) or not self.order('Lt', lo, len(o)):
                return None
            i = lo
        else:
            i = self.force(i)
            if not isinstance(i, Num) or not i.isint:
                return None
            if not self.order('GtE', i, 0) or not self.order('Lt', i, len(o)):
                return None
        return Opq('%r[%s]' % (o, i.p.key), vsyms(i), 'str', length=1)

    def slice_bounds(self, s, n):
        a = None if s.a is None else self.concretize(s.a, 'slice')
        b = None if s.b is None else self.concretize(s.b, 'slice')
        c = None if s.c is None else self.concretize(s.c, 'slice')
        return a, b, c

    def getitem(self, o, i):
        o = self.force(o)
        h = getattr(o, 'getitemop', None)
        if h is not None:
            return h(self, i)
        if isinstance(o, ExtV) and 'item:' + o.name in self.cfg.models:
            return self.cfg.models['item:' + o.name](self, [i], {})
        if isinstance(o, (AList, tuple, str)):
            items = o.items if isinstance(o, AList) else o
            if isinstance(o, str) and len(o) > 12:
                one = self.char_of(o, i)
                if one is not None:
                    return one
            if isinstance(i, SliceV):
                a, b, c = self.slice_bounds(i, len(items))
                r = items[a:b:c]
                return AList(r, o.isnp) if isinstance(o, AList) else r
            i = self.force(i)
            if isinstance(i, (AList, tuple)) and isinstance(o, AList) and o.isnp:
                if isinstance(i, tuple) and len(i) == 1:
                    i = self.force(i[0])
                idx = i.items if isinstance(i, AList) else None
                if idx is not None:
                    if idx and all(isinstance(x, bool) for x in idx):
                        return AList([x for x, k in zip(o.items, idx) if k], True)
                    return AList([items[self.split_index(x, len(items))] for x in idx], True)
                if isinstance(i, tuple):
                    r = o
                    for x in i:
                        r = self.getitem(r, x)
                    return r
            if isinstance(i, (str, S, AList, tuple)):
                raise PyExc('TypeError', 'list index')
            return items[self.split_index(i, len(items))]
        if isinstance(o, ADict):
            found, v = self.dict_find(o, i)
            if not found:
                raise PyExc('KeyError', i)
            return v
        if isinstance(o, (S,)) or (isinstance(o, Opq) and o.kind == 'str'):
            if isinstance(o, S) and isinstance(i, SliceV):
                pass
            return Opq('%s[%s]' % (vkey(o), vkey(i)), vsyms(o) | vsyms(i) if not isinstance(i, SliceV) else vsyms(o), 'str')
        if isinstance(o, Opq):
            if o.indexh is not None:
                return o.indexh(self, o, i)
            return Opq('%s[%s]' % (o.key, vkey(i)), o.syms | (frozenset() if isinstance(i, SliceV) else vsyms(i)))
        if isinstance(o, AObj) and o.cls is not None and o.cls.find('__getitem__'):
            return self.call_method(o, '__getitem__', [i])
        if o is None or self.isnum(o):
            raise PyExc('TypeError', 'not subscriptable')
        raise Unsupported('getitem on %r' % (o,))

    def setitem(self, o, i, v):
        o = self.force(o)
        h = getattr(o, 'setitemop', None)
        if h is not None:
            h(self, i, v)
            return
        if isinstance(o, AList):
            if isinstance(i, SliceV):
                a, b, c = self.slice_bounds(i, len(o.items))
                if o.isnp and not isinstance(v, (AList, tuple)):
                    n = len(o.items[a:b:c])
                    o.items[a:b:c] = [v] * n
                else:
                    o.items[a:b:c] = self.iterate(v)
                return
            i = self.force(i)
            if isinstance(i, AList) and o.isnp:
                if i.items and all(isinstance(x, bool) for x in i.items):
                    idx = [k for k, x in enumerate(i.items) if x]
                else:
                    idx = [self.split_index(x, len(o.items)) for x in i.items]
                for k in idx:
                    o.items[k] = v
                return
            if o.isnp:
                v = self.force(v)
                if v is None:
                    v = NAN
                elif isinstance(v, (str, S)) and o.items and any(isinstance(x, (Num, NaNType, Lazy)) for x in o.items):
                    v = self.call(ExtV('builtins.float'), [v])
                elif isinstance(v, int) and not isinstance(v, bool) and o.items and isinstance(o.items[0], (Num, NaNType, Lazy)):
                    v = Num(pconst(v), True)
            o.items[self.split_index(i, len(o.items))] = v
            return
        if isinstance(o, ADict):
            self.dict_set(o, i, v)
            return
        if isinstance(o, AObj) and o.cls is not None and o.cls.find('__setitem__'):
            self.call_method(o, '__setitem__', [i, v])
            return
        if isinstance(o, (tuple, str, S)) or o is None:
            raise PyExc('TypeError', 'no item assignment')
        raise Unsupported('setitem on %r' % (o,))

    def iterate(self, v):
        v = self.force(v)
        if isinstance(v, (AList, ASet)):
            return list(v.items)
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, ADict):
            if v.provider is not None:
                raise Unsupported('iteration over an unknown dictionary')
            return list(v.k)
        if isinstance(v, str):
            return list(v)
        h = getattr(v, 'iterop', None)
        if h is not None:
            return h(self)
        if isinstance(v, AObj) and v.cls is not None and v.cls.find('__iter__'):
            return self.iterate(self.call_method(v, '__iter__', []))
        if v is None or self.isnum(v):
            raise PyExc('TypeError', 'not iterable')
        raise Unsupported('iteration over %r' % (v,))

    # ------------------------------------------------------------ calls
    def call_method(self, o, name, args, kw=None):
        f = self.getattr_(o, name)
        return self.call(f, args, kw or {})

    def call(self, f, args, kw=None):
        kw = kw or {}
        f = self.force(f)
        self.callsites += 1
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw)
        if isinstance(f, BoundV):
            return self.call_func(f.fn, [f.selfv] + list(args), kw)
        if isinstance(f, PyFn):
            return f.f(self, list(args), kw)
        if isinstance(f, ClassV):
            ov = self.cfg.overrides.get(f.mod.name + '.' + f.name)
            if ov is not None:
                return ov(self, list(args), kw)
            o = AObj(f)
            r = f.find('__init__')
            if r is not None:
                self.call_func(r[0], [o] + list(args), kw)
            return o
        if isinstance(f, ExcClassV):
            return PyExcV(f.name, args[0] if args else None)
        from . import models
        if isinstance(f, ExtV):
            h = self.cfg.models.get(f.name)
            if h is not None:
                return h(self, list(args), kw)
            return models.call_ext(self, f.name, list(args), kw)
        if isinstance(f, MethV):
            return models.call_meth(self, f.obj, f.name, list(args), kw)
        if isinstance(f, Opq):
            if f.callh is not None:
                return f.callh(self, f, list(args), kw)
            allargs = list(args) + [x for k in sorted(kw) for x in (k, kw[k])]
            self.events.append(('call', f.key, tuple(allargs)))
            return Opq('%s(%s)' % (f.key, ','.join(vkey(a) for a in allargs)), f.syms | vsyms(allargs))
        if isinstance(f, AObj) and f.cls is not None and f.cls.find('__call__'):
            return self.call_method(f, '__call__', args, kw)
        raise PyExc('TypeError', 'not callable')

    def bind_args(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        if len(args) > len(names):
            if a.vararg is None:
                raise PyExc('TypeError', 'too many arguments for ' + f.qual)
            vals[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            vals[a.vararg.arg] = ()
        for n, v in zip(names, args):
            vals[n] = v
        extra = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in vals:
                    raise PyExc('TypeError', 'multiple values for %s' % k)
                vals[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyExc('TypeError', 'unexpected keyword %s for %s' % (k, f.qual))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = ADict(list(extra.items()))
        nd = len(f.defaults)
        for n, d in zip(names[len(names) - nd:], f.defaults):
            if n not in vals:
                vals[n] = d
        for x in a.kwonlyargs:
            if x.arg not in vals:
                if x.arg in f.kwdefaults:
                    vals[x.arg] = f.kwdefaults[x.arg]
                else:
                    raise PyExc('TypeError', 'missing keyword ' + x.arg)
        for n in names:
            if n not in vals:
                raise PyExc('TypeError', 'missing argument %s of %s' % (n, f.qual))
        return names, vals

    def call_func(self, f, args, kw):
        names, vals = self.bind_args(f, args, kw)
        ov = self.cfg.overrides.get(f.qual)
        if ov is not None:
            return ov(self, [vals[n] for n in names], {})
        self.entered.add(f.qual)
        if self.depth > 60:
            raise Diverge('recursion in ' + f.qual)
        env = Env(f.mod, f.closure, f.qual.split('.', 1)[1] if '.' in f.qual else f.qual)
        env.vars.update(vals)
        self.depth += 1
        self.stack.append(f.qual)
        h = self.cfg.enter_hook
        if h is not None:
            h(self, f, vals)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.expr(f.node.body, env)
            if f.isgen:
                env.vars['!yields'] = []
                try:
                    self.block(f.node.body, env)
                except _Return:
                    pass
                return AList(env.vars['!yields'])
            try:
                self.block(f.node.body, env)
            except _Return as r:
                return r.v
            return None
        finally:
            self.depth -= 1
            self.stack.pop()

    def format_value(self, v, spec=''):
        from . import models
        return models.format_value(self, v, spec)


_modcache = {}
_spectrees = {}


def _snapshot(m):
    """contents of every mutable value reachable from a module, restored before each partition"""
    out, seen, todo = [], set(), [m]
    while todo:
        v = todo.pop()
        if id(v) in seen:
            continue
        seen.add(id(v))
        if isinstance(v, (ModV, ClassV)):
            if isinstance(v, ModV) and v is not m:
                continue
            out.append((v, dict(v.ns)))
            todo.extend(v.ns.values())
        elif isinstance(v, (AList, ASet)):
            out.append((v, list(v.items)))
            todo.extend(v.items)
        elif isinstance(v, ADict):
            out.append((v, (list(v.k), list(v.v))))
            todo.extend(v.v)
        elif isinstance(v, AObj):
            out.append((v, dict(v.attrs)))
            todo.extend(v.attrs.values())
        elif isinstance(v, FuncV):
            todo.extend(v.defaults)
            todo.extend(v.kwdefaults.values())
        elif isinstance(v, tuple):
            todo.extend(v)
    return out


def _restore(snap):
    for v, c in snap:
        if isinstance(v, (ModV, ClassV)):
            if v.ns != c:
                v.ns.clear()
                v.ns.update(c)
        elif isinstance(v, (AList, ASet)):
            v.items[:] = c
        elif isinstance(v, ADict):
            v.k[:] = c[0]
            v.v[:] = c[1]
        elif isinstance(v, AObj):
            if v.attrs != c:
                v.attrs.clear()
                v.attrs.update(c)


def _deep_atoms(a, out=None):
    """atoms inside the arguments of an atom, itself included"""
    out = set() if out is None else out
    if a in out:
        return out
    out.add(a)
    for x in a.args:
        if isinstance(x, Num):
            for m in x.p.t:
                for b, e in m:
                    _deep_atoms(b, out)
    return out


class ExcClassV(Val):
    def __init__(self, name):
        self.name = name

    def vkey(self):
        return 'exc ' + self.name


class PyExcV(Val):
    def __init__(self, cls, msg):
        self.cls, self.msg = cls, msg

    def vkey(self):
        return 'excv %s(%s)' % (self.cls, vkey(self.msg))


def _is_gen(fn):
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class Explorer(object):
    """enumerates the partitions of the abstract state"""

    def __init__(self, cfg, max_paths=60000, deadline=None):
        self.cfg = cfg
        self.max_paths = max_paths
        self.npaths = 0
        self.deadline = deadline
        self.entered = set()
        self.truncated = False
        self.callsites = 0
        self.steps = 0
        self.start = None        # choices fixed by whoever shares this exploration
        self.budget = None       # partitions after which the rest is handed back
        self.left = []

    def paths(self, fn):
        import time
        base = len(self.start or [])
        script = list(self.start or [])
        t0 = time.time()
        while True:
            run = Run(self.cfg, script)
            out = None
            ok = True
            try:
                out = fn(run)
            except Infeasible:
                ok = False
            self.entered |= run.entered
            self.callsites += run.callsites
            self.steps += run.steps
            if ok:
                self.npaths += 1
                yield run, out
            tr = run.trace
            while len(tr) > base and tr[-1][0] + 1 >= tr[-1][1]:
                tr.pop()
            if len(tr) <= base:
                return
            tr[-1][0] += 1
            if self.budget is not None and (self.npaths >= self.budget or time.time() - t0 > 2):
                for i in range(len(tr) - 1, base - 1, -1):
                    for c in range(tr[i][0] + (0 if i == len(tr) - 1 else 1), tr[i][1]):
                        self.left.append([t[0] for t in tr[:i]] + [c])
                return
            script = [t[0] for t in tr]
            if self.npaths >= self.max_paths:
                self.truncated = True
                raise Unsupported('more than %d partitions' % self.max_paths)
            if self.deadline is not None and time.time() > self.deadline:
                self.truncated = True
                return
