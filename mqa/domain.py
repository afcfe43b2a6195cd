"""Numeric abstract domain: exact Laurent polynomials over interned atoms, with
interval bounds on linear keys.  Nothing here executes repository code."""
from fractions import Fraction as Fr

_atoms = {}


class Atom(object):
    __slots__ = ('kind', 'name', 'args', 'isint', 'key', 'syms', 'lo', 'hi', 'lo_open', 'hi_open', 'rank')

    def __repr__(self):
        return self.key


_rank = [0]


def atom(kind, name, args=(), isint=False, lo=None, hi=None, lo_open=False, hi_open=False, argkeys=None, syms=None):
    if argkeys is None:
        argkeys = [vkey(a) for a in args]
    key = name if kind == 'sym' else '%s(%s)' % (name, ','.join(argkeys))
    a = _atoms.get((kind, key))
    if a is None:
        a = Atom()
        a.kind, a.name, a.args, a.isint, a.key = kind, name, tuple(args), isint, key
        a.lo, a.hi, a.lo_open, a.hi_open = lo, hi, lo_open, hi_open
        if kind == 'sym':
            a.syms = frozenset([name])
        else:
            s = frozenset(syms or ())
            for x in args:
                s = s | vsyms(x)
            a.syms = s
        _atoms[(kind, key)] = a
    return a


class Poly(object):
    __slots__ = ('t', '_key', '_syms')

    def __init__(self, terms):
        self.t = terms
        self._key = None
        self._syms = None

    @property
    def key(self):
        if self._key is None:
            if not self.t:
                self._key = '0'
            else:
                ps = []
                for m in sorted(self.t, key=mono_key):
                    c = self.t[m]
                    ms = '*'.join(a.key + ('' if e == 1 else '^%s' % e) for a, e in m)
                    if not m:
                        ps.append(str(c))
                    elif c == 1:
                        ps.append(ms)
                    else:
                        ps.append('%s*%s' % (c, ms))
                self._key = '+'.join(ps) if len(ps) == 1 else '(' + '+'.join(ps) + ')'
        return self._key

    @property
    def syms(self):
        if self._syms is None:
            s = frozenset()
            for m in self.t:
                for a, e in m:
                    s = s | a.syms
            self._syms = s
        return self._syms

    def const(self):
        """constant value or None"""
        if not self.t:
            return Fr(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return self.key


def mono_key(m):
    return tuple((a.key, e) for a, e in m)


def pconst(c):
    c = Fr(c)
    return Poly({(): c} if c else {})


def patom(a):
    return Poly({((a, 1),): Fr(1)})


def padd(p, q, k=1):
    t = dict(p.t)
    for m, c in q.t.items():
        v = t.get(m, 0) + k * c
        if v:
            t[m] = v
        else:
            t.pop(m, None)
    return Poly(t)


def pscale(p, k):
    if not k:
        return Poly({})
    return Poly({m: c * k for m, c in p.t.items()})


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = {}
    for a, e in m:
        d[a] = d.get(a, 0) + e
    for a, e in n:
        d[a] = d.get(a, 0) + e
    out = []
    for a, e in d.items():
        if e:
            out.append((a, e))
    out.sort(key=lambda x: x[0].key)
    return tuple(out)


def pmul(p, q):
    t = {}
    for m, c in p.t.items():
        for n, d in q.t.items():
            k = mmul(m, n)
            v = t.get(k, 0) + c * d
            if v:
                t[k] = v
            else:
                t.pop(k, None)
    return expand_inv(Poly(t))


def expand_inv(p):
    """inv(q)*q simplifications and sqrt(q)^2 -> q."""
    for m in list(p.t):
        for a, e in m:
            if a.kind == 'fn' and a.name == 'sqrt' and (e >= 2 or e <= -2):
                k = abs(e) // 2
                rest = tuple((b, f) for b, f in m if b is not a)
                left = e - 2 * k if e > 0 else e + 2 * k
                if left:
                    rest = mmul(rest, ((a, left),))
                base = a.args[0].p
                pw = pconst(1)
                for _ in range(k):
                    pw = pmul(pw, base)
                term = Poly({rest: p.t[m]})
                if e > 0:
                    new = pmul(term, pw)
                else:
                    new = pmul(term, pinv(pw))
                q = Poly({n: c for n, c in p.t.items() if n is not m})
                return expand_inv(padd(q, new))
    return p


def pinv(p):
    """reciprocal as polynomial (monomial -> negative exponents, otherwise an inv atom)."""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        out = []
        for a, e in m:
            if a.kind == 'inv':
                continue
            out.append((a, -e))
        r = Poly({tuple(out): 1 / c})
        for a, e in m:
            if a.kind == 'inv':
                for _ in range(abs(e)):
                    r = pmul(r, a.args[0].p) if e > 0 else pmul(r, patom(a))
        return r
    if not p.t:
        raise ZeroDivisionError
    # pull out common monomial content and leading coefficient
    content = common_mono(p)
    if content:
        q = Poly({mmul(m, tuple((a, -e) for a, e in content)): c for m, c in p.t.items()})
        return pmul(pinv(Poly({content: Fr(1)})), pinv(q))
    lead = p.t[min(p.t, key=mono_key)]
    q = pscale(p, 1 / lead)
    a = atom('inv', 'inv', (Num(q, False),))
    return Poly({((a, 1),): 1 / lead})


def common_mono(p):
    it = iter(p.t)
    first = dict(next(it))
    for m in it:
        d = dict(m)
        for a in list(first):
            if a not in d:
                if first[a] < 0:
                    pass
                else:
                    del first[a]
                    continue
                first[a] = min(first[a], 0)
                if first[a] == 0:
                    del first[a]
            else:
                first[a] = min(first[a], d[a])
                if first[a] == 0:
                    del first[a]
    # atoms with negative exponents that first monomial lacks
    for m in p.t:
        for a, e in m:
            if e < 0 and a not in first:
                first[a] = e
            elif e < 0 and first[a] > e:
                first[a] = e
    out = [(a, e) for a, e in first.items() if e]
    out.sort(key=lambda x: x[0].key)
    return tuple(out)


class Num(object):
    """numeric abstract value"""
    __slots__ = ('p', 'isint')

    def __init__(self, p, isint=False):
        self.p = p
        self.isint = isint

    def __repr__(self):
        return self.p.key + ('i' if self.isint else '')


class NaNType(object):
    def __repr__(self):
        return 'nan'


NAN = NaNType()


def num(v):
    if isinstance(v, Num):
        return v
    if isinstance(v, bool):
        return Num(pconst(int(v)), True)
    if isinstance(v, int):
        return Num(pconst(v), True)
    if isinstance(v, Fr):
        return Num(pconst(v), False)
    if isinstance(v, float):
        return Num(pconst(Fr(repr(v))), False)
    raise TypeError('not a number %r' % (v,))


def norm(n):
    """Num -> python int when it is an integer-typed constant."""
    if n.isint:
        c = n.p.const()
        if c is not None and c.denominator == 1:
            return int(c)
    return n


class Iv(object):
    __slots__ = ('lo', 'hi', 'lo_open', 'hi_open')

    def __init__(self, lo=None, hi=None, lo_open=False, hi_open=False):
        self.lo, self.hi, self.lo_open, self.hi_open = lo, hi, lo_open, hi_open

    def __repr__(self):
        return '%s%s,%s%s' % ('(' if self.lo_open or self.lo is None else '[', self.lo, self.hi,
                              ')' if self.hi_open or self.hi is None else ']')

    def empty(self):
        if self.lo is None or self.hi is None:
            return False
        if self.lo > self.hi:
            return True
        return self.lo == self.hi and (self.lo_open or self.hi_open)

    def point(self):
        if self.lo is not None and self.lo == self.hi and not self.lo_open and not self.hi_open:
            return self.lo
        return None

    def meet(self, o):
        lo, lop = self.lo, self.lo_open
        if o.lo is not None and (lo is None or o.lo > lo or (o.lo == lo and o.lo_open)):
            lo, lop = o.lo, o.lo_open
        hi, hop = self.hi, self.hi_open
        if o.hi is not None and (hi is None or o.hi < hi or (o.hi == hi and o.hi_open)):
            hi, hop = o.hi, o.hi_open
        return Iv(lo, hi, lop, hop)

    def add(self, o):
        lo = None if self.lo is None or o.lo is None else self.lo + o.lo
        hi = None if self.hi is None or o.hi is None else self.hi + o.hi
        return Iv(lo, hi, self.lo_open or o.lo_open, self.hi_open or o.hi_open)

    def scale(self, k):
        if k == 0:
            return Iv(Fr(0), Fr(0))
        if k > 0:
            return Iv(None if self.lo is None else self.lo * k, None if self.hi is None else self.hi * k,
                      self.lo_open, self.hi_open)
        return Iv(None if self.hi is None else self.hi * k, None if self.lo is None else self.lo * k,
                  self.hi_open, self.lo_open)

    def mul(self, o):
        if self.point() is not None:
            return o.scale(self.point())
        if o.point() is not None:
            return self.scale(o.point())
        cand = []
        inf = object()
        for a, ao in ((self.lo, self.lo_open), (self.hi, self.hi_open)):
            for b, bo in ((o.lo, o.lo_open), (o.hi, o.hi_open)):
                cand.append((a, ao, b, bo))
        # sign based reasoning with infinities
        def sgn_lo(i):
            return i.lo is not None and i.lo >= 0

        def sgn_hi(i):
            return i.hi is not None and i.hi <= 0
        if sgn_lo(self) and sgn_lo(o):
            lo = self.lo * o.lo
            lop = (self.lo_open or o.lo_open) and not (
                (self.lo == 0 and not self.lo_open) or (o.lo == 0 and not o.lo_open))
            if self.hi is None or o.hi is None:
                hi, hop = None, False
            else:
                hi, hop = self.hi * o.hi, self.hi_open or o.hi_open
            return Iv(lo, hi, lop, hop)
        if sgn_hi(self):
            return self.scale(-1).mul(o).scale(-1)
        if sgn_hi(o):
            return self.mul(o.scale(-1)).scale(-1)
        if None in (self.lo, self.hi, o.lo, o.hi):
            return Iv()
        vals = [self.lo * o.lo, self.lo * o.hi, self.hi * o.lo, self.hi * o.hi]
        return Iv(min(vals), max(vals))

    def inv(self):
        if self.lo is not None and (self.lo > 0 or (self.lo == 0 and self.lo_open)):
            hi = None if self.lo == 0 else 1 / self.lo
            lo = Fr(0) if self.hi is None else 1 / self.hi
            return Iv(lo, hi, self.hi is None or self.hi_open, self.lo_open)
        if self.hi is not None and (self.hi < 0 or (self.hi == 0 and self.hi_open)):
            return self.scale(-1).inv().scale(-1)
        return Iv()

    def powi(self, n):
        if n < 0:
            return self.powi(-n).inv()
        r = Iv(Fr(1), Fr(1))
        if n % 2 == 0 and not (self.lo is not None and self.lo >= 0) and not (self.hi is not None and self.hi <= 0):
            # even power of sign-mixed interval
            hi = None
            if self.lo is not None and self.hi is not None:
                hi = max(abs(self.lo), abs(self.hi)) ** n
            return Iv(Fr(0), hi)
        for _ in range(n):
            r = r.mul(self)
        return r


# ---------------------------------------------------------------- keys of arbitrary values
def vkey(v):
    if isinstance(v, Num):
        return v.p.key
    if v is None or isinstance(v, (bool, str)):
        return repr(v)
    if isinstance(v, int):
        return str(v)
    if isinstance(v, (tuple, list)):
        return '[' + ','.join(vkey(x) for x in v) + ']'
    k = getattr(v, 'vkey', None)
    if k is not None:
        return k() if callable(k) else k
    return '<%s>' % type(v).__name__ + repr(v)


def vsyms(v):
    if isinstance(v, Num):
        return v.p.syms
    if isinstance(v, (tuple, list)):
        s = frozenset()
        for x in v:
            s = s | vsyms(x)
        return s
    f = getattr(v, 'vsyms', None)
    if f is not None:
        return f()
    return frozenset()


def forget_symbols():
    """a new analysis: symbol declarations of the previous one no longer apply"""
    for k in list(_atoms):
        if k != ('sym', 'pi'):
            del _atoms[k]
