"""Models of built-ins, numpy, math and other libraries over the abstract values."""
from fractions import Fraction as Fr
from .domain import *
from .domain import _atoms
from .interp import *
from .interp import _Return, exc_matches


def _args(args, kw, names, defaults=()):
    out = list(args)
    for n in names[len(out):]:
        if n in kw:
            out.append(kw[n])
        else:
            break
    return out


# ---------------------------------------------------------------- formatting
def canon_spec(v, spec):
    """one spelling for the formats that mean the same"""
    import re
    if isinstance(v, int) or isinstance(v, Num) and v.isint:
        m = re.match('^%?>?(0?)([0-9]+)d?$', spec)
        if m:
            return m.group(1) + m.group(2) if int(m.group(2)) > 1 else ''
        if spec in ('d', '%d'):
            return ''
    m = re.match('^%([0-9]*(?:[.][0-9]+)?[feEgG])$', spec)
    return m.group(1) if m else spec


class Piece(Val):
    """textual rendering of a value"""

    def __init__(self, v, spec=''):
        spec = canon_spec(v, spec)
        self.v, self.spec = v, spec
        self.strof = v if spec == '' else None
        self.numeric = isinstance(v, (Num, int))

    def vkey(self):
        return 'str(%s%s)' % (vkey(self.v), (':' + self.spec) if self.spec else '')

    def vsyms(self):
        return vsyms(self.v)

    def eqop(self, run, o):
        if isinstance(o, Piece) and o.spec == self.spec:
            if isinstance(self.v, (Num, int)) and isinstance(o.v, (Num, int)):
                return run.eq(self.v, o.v)
            return run.fact('%s==%s' % tuple(sorted([self.vkey(), o.vkey()])), self.vsyms() | o.vsyms())
        if vkey(o) == self.vkey():
            return True
        return run.fact('%s==%s' % tuple(sorted([self.vkey(), vkey(o)])), self.vsyms() | vsyms(o))


def to_str(run, v):
    v = run.force(v)
    if isinstance(v, str):
        return v
    if isinstance(v, S) or getattr(v, 'istext', False):
        return v
    if isinstance(v, Opq) and v.kind == 'str':
        return mkstr([v])
    if v is None:
        return 'None'
    if isinstance(v, bool):
        return str(v)
    if isinstance(v, int):
        return str(v)
    if isinstance(v, Num):
        q = run.subst_points(v.p)
        return S([Piece(norm(Num(q, v.isint)))]) if norm(Num(q, v.isint)).__class__ is Num else str(norm(Num(q, v.isint)))
    return S([Piece(v)])


def format_value(run, v, spec):
    v = run.force(v)
    if isinstance(spec, S):
        return S([Piece(v, vkey(spec))])
    if spec == '':
        return to_str(run, v)
    if getattr(v, 'istext', False):
        import re
        m = re.match('^([<>]?)(\\d+)s?$', spec)
        if m:
            return v.formatted(run, m.group(1) != '>', int(m.group(2)))
    if isinstance(v, int) and not isinstance(v, bool):
        return format(v, spec)
    if isinstance(v, str):
        try:
            return format(v, spec)
        except ValueError:
            raise PyExc('ValueError')
    if isinstance(v, Num) and v.isint and canon_spec(v, spec) == '':
        return to_str(run, v)
    if v is None:
        raise PyExc('TypeError', 'format None')
    return S([Piece(v, spec)])


def _width(run, v, spec):
    """number of characters of a number written with a width: the width, provided it fits"""
    import re
    m = re.match('^([<>]?)(\\d+)[ds]?$', spec)
    if m and isinstance(v, (Num, int)) and (isinstance(v, int) or v.isint):
        w = int(m.group(2))
        if run.order('Lt', v, 10 ** w) and run.order('Gt', v, -10 ** (w - 1)):
            return w
    return None


_PRINTF = None


def pad_str(run, v, left, w):
    """a string padded with blanks to a width"""
    if isinstance(v, str):
        return v.ljust(w) if left else v.rjust(w)
    if w <= 1:
        return v
    ln = run.force(f_len(run, [v], {}))
    if isinstance(ln, int):
        pad = ' ' * max(0, w - ln)
        return mkstr([v, pad] if left else [pad, v])
    return S([Piece(v, ('<' if left else '>') + str(w))])


def printf(run, fmt, arg):
    """the % operator of strings"""
    import re
    global _PRINTF
    _PRINTF = _PRINTF or re.compile(r'%(?:\((\w+)\))?([-+ 0#]*)(\d+|\*)?(?:\.(\d+))?([diouxXeEfFgGcrs%])')
    arg = run.force(arg)
    args = list(arg) if isinstance(arg, tuple) else [arg]
    out, pos, n = [], 0, 0
    for m in _PRINTF.finditer(fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        name, flags, width, prec, conv = m.groups()
        if conv == '%':
            out.append('%')
            continue
        if width == '*':
            if n >= len(args):
                raise PyExc('TypeError', 'not enough arguments')
            width = str(run.concretize(args[n]))
            n += 1
        if name is not None:
            v = run.getitem(arg, name)
        else:
            if n >= len(args):
                raise PyExc('TypeError', 'not enough arguments')
            v = args[n]
            n += 1
        v = run.force(v)
        w = int(width or 0)
        if conv in 'di':
            if isinstance(v, Num):
                v = run.trunc(v)
            elif not isinstance(v, int):
                if v is None or isinstance(v, (str, S, AList, tuple)) or getattr(v, 'istext', False) or \
                        isinstance(v, Opq) and v.kind == 'str':
                    raise PyExc('TypeError', '%d of a non-number')
                v = f_int(run, [v], {})
            if isinstance(v, int):
                out.append(('%' + flags + (width or '') + ('.' + prec if prec else '') + 'd') % v)
                continue
            if flags in ('', '0') and prec is None and w and (flags == '' or w):
                out.append(S([Piece(v, flags + str(w) + 'd' if flags else str(w) + 'd')]))
            elif not flags and not w and prec is None:
                out.append(to_str(run, v))
            else:
                out.append(S([Piece(v, '%' + flags + (width or '') + ('.' + prec if prec else '') + 'd')]))
            continue
        if conv == 's':
            if prec is not None:
                v = run.getitem(to_str(run, v), SliceV(None, int(prec), None))
            left = '-' in flags
            if getattr(v, 'istext', False):
                out.append(v.formatted(run, left, w))
                continue
            out.append(pad_str(run, to_str(run, v), left, w))
            continue
        if isinstance(v, (int,)) and conv in 'xXoc' or isinstance(v, str) and conv in 'r':
            out.append(('%' + flags + (width or '') + conv) % v)
            continue
        if conv in 'feEgGF' and (v is None or isinstance(v, (str, S))):
            raise PyExc('TypeError', 'float expected')
        out.append(S([Piece(v, '%' + flags + (width or '') + ('.' + prec if prec else '') + conv)]))
    if n < len(args) and not isinstance(arg, ADict):
        raise PyExc('TypeError', 'not all arguments converted')
    out.append(fmt[pos:])
    return mkstr(out)


def str_format(run, fmt, args, kw):
    import string
    if not isinstance(fmt, str):
        return S([Opq('format(%s,%s)' % (vkey(fmt), vkey(args)), vsyms(fmt) | vsyms(args), 'str')])
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.append(lit)
        if field is None:
            continue
        base = field
        if base == '':
            if auto >= len(args):
                raise PyExc('IndexError')
            v = args[auto]
            auto += 1
        elif base.isdigit():
            if int(base) >= len(args):
                raise PyExc('IndexError')
            v = args[int(base)]
        elif base in kw:
            v = kw[base]
        else:
            head = base.split('[')[0].split('.')[0]
            v = args[int(head)] if head.isdigit() else kw.get(head)
            rest = base[len(head):]
            if rest.startswith('['):
                k = rest[1:-1]
                v = run.getitem(v, int(k) if k.isdigit() else k)
            elif rest.startswith('.'):
                v = run.getattr_(v, rest[1:])
        out.append(format_value(run, v, spec or ''))
    return mkstr(out)


# ---------------------------------------------------------------- functional arrays
class FArr(Val):
    """array of unknown/large size: chain of stores over a base"""
    isfarr = True

    def __init__(self, base, default=None, shape=None, stores=(), maker=None):
        self.base, self.default, self.shape = base, default, shape
        self.stores = list(stores)      # [(index tuple, value)]
        self.maker = maker

    def vkey(self):
        return '%s{%s}' % (self.base, ';'.join('%s=%s' % (vkey(i), vkey(v)) for i, v in self.stores))

    def vsyms(self):
        s = frozenset()
        for i, v in self.stores:
            s = s | vsyms(i) | vsyms(v)
        return s

    def _check(self, run, idx):
        if self.shape is None:
            return idx
        out = []
        for i, n in zip(idx, self.shape):
            if i.__class__ is int and 0 <= i < n:
                out.append(i)
                continue
            i = run.force(i)
            if isinstance(i, (Num, int)):
                x = num(i)
                if not x.isint:
                    raise PyExc('IndexError', 'non integer index %s' % x.p.key)
                if run.test(padd(x.p, pconst(n), -1), '>='):
                    raise PyExc('IndexError', 'index beyond axis')
                if run.test(padd(x.p, pconst(-n), -1), '<'):
                    raise PyExc('IndexError')
                if run.test(x.p, '<'):
                    i = norm(Num(padd(x.p, pconst(n)), True))
            out.append(i)
        return tuple(out)

    def load(self, run, idx):
        idx = self._check(run, idx)
        for i, v in reversed(self.stores):
            if len(i) == len(idx) and all(run.eq(a, b) if a.__class__ is not int or b.__class__ is not int else a == b
                                          for a, b in zip(i, idx)):
                return v
        if self.maker is not None:
            return self.maker(run, idx)
        if self.default is not None:
            return self.default
        return Num(patom(atom('fn', 'elem:' + self.base, tuple(idx))), False)

    def getattrop(self, run, name):
        if self.shape is not None:
            if name == 'shape':
                return tuple(self.shape)
            if name == 'ndim':
                return len(self.shape)
            if name == 'size':
                n = 1
                for x in self.shape:
                    n *= x
                return n

    def sumop(self, run):
        if self.default is None or self.maker is not None or run.truth(run.compare('NotEq', self.default, 0)):
            raise Unsupported('sum of an array')
        r = 0
        for _, v in self.stores:
            r = run.binop('Add', r, v)
        return r

    def fancy(self, run, i):
        """index tuples of an index made of one list per axis, or of a mask, or None"""
        i = run.force(i) if not isinstance(i, tuple) else i
        if isinstance(i, FArr):
            if i.shape != self.shape:
                raise PyExc('IndexError', 'shape of the mask')
            return list(zip(*[x.items for x in i.nonzeroop(run)]))
        if not isinstance(i, tuple) or self.shape is None or len(i) != len(self.shape):
            return None
        ls = [run.force(x) for x in i]
        if not all(isinstance(x, AList) for x in ls):
            return None
        return list(zip(*[run.iterate(x) for x in ls]))

    def nonzeroop(self, run):
        if self.shape is None or self.maker is not None or self.default is None or run.truth(self.default):
            raise Unsupported('nonzero')
        ix = sorted(tuple(run.concretize(x, 'index') for x in i) for i, _ in self.stores)
        ix = [i for i in ix if run.truth(self.load(run, i))]
        return tuple(AList([i[k] for i in ix], True) for k in range(len(self.shape)))

    def getitemop(self, run, i):
        ix = self.fancy(run, i)
        if ix is not None:
            return AList([self.load(run, x) for x in ix], True)
        idx = i if isinstance(i, tuple) else (i,)
        if any(isinstance(x, SliceV) for x in idx) or isinstance(run.force(i), (AList,)):
            return FView(self, idx)
        if self.shape is not None and len(idx) < len(self.shape):
            return FView(self, idx)
        return self.load(run, idx)

    def setitemop(self, run, i, v):
        if isinstance(i, FArr) and i.default is not None and run.truth(i.default):
            v = run.force(v)
            if isinstance(v, (AList, tuple, FArr)):
                raise Unsupported('store through a mask of most cells')
            new = farr_map(run, lambda m, x: v if run.truth(m) else x, [i, self])
            self.default, self.stores = new.default, new.stores
            return
        ix = self.fancy(run, i)
        if ix is not None:
            v = run.force(v)
            vs = run.iterate(v) if isinstance(v, (AList, tuple)) else [v] * len(ix)
            if len(vs) != len(ix):
                raise PyExc('ValueError', 'shape mismatch')
            for x, w in zip(ix, vs):
                self.setitemop(run, x, w)
            return
        idx = i if isinstance(i, tuple) else (i,)
        idx = self._check(run, idx)
        for k in range(len(self.stores)):
            j, w = self.stores[k]
            if len(j) == len(idx) and all(run.eq(a, b) for a, b in zip(j, idx)):
                self.stores[k] = (j, v)
                return
        self.stores.append((idx, v))


def farr_map(run, f, args):
    """elementwise operation on arrays of the same shape and numbers"""
    arrs = [a for a in args if isinstance(a, FArr)]
    if any(a.shape is None or a.maker is not None or a.default is None for a in arrs):
        raise Unsupported('elementwise operation on an unknown array')
    if any(a.shape != arrs[0].shape for a in arrs):
        raise PyExc('ValueError', 'shape mismatch')
    if any(isinstance(a, (AList, tuple)) for a in args):
        raise Unsupported('array combined with a list')

    def at(pick):
        try:
            return f(*[pick(a) if isinstance(a, FArr) else a for a in args])
        except PyExc as e:
            if e.cls == 'ZeroDivisionError':
                return NAN
            raise
    cells = sorted({tuple(run.concretize(x, 'index') for x in i) for a in arrs for i, _ in a.stores})
    return FArr('map', at(lambda a: a.default), arrs[0].shape, [(i, at(lambda a: a.load(run, i))) for i in cells])


class FView(Val):
    def __init__(self, arr, idx):
        self.arr, self.idx = arr, tuple(idx)

    def vkey(self):
        return '%s[%s]' % (vkey(self.arr), vkey(self.idx))

    def vsyms(self):
        return vsyms(self.arr) | vsyms(tuple(x for x in self.idx if not isinstance(x, SliceV)))

    def getitemop(self, run, i):
        idx = self.idx + (i if isinstance(i, tuple) else (i,))
        return self.arr.getitemop(run, idx)

    def setitemop(self, run, i, v):
        idx = self.idx + (i if isinstance(i, tuple) else (i,))
        self.arr.setitemop(run, idx, v)


# ---------------------------------------------------------------- numeric functions
def f_round(run, v, nd=0):
    x = run.tonum(v)
    if x is NAN:
        return NAN
    nd = run.force(nd)
    k = x.p.const() if hasattr(x.p, 'const') else None
    if k is not None and k.denominator == 1 and nd in (None, 0):
        return norm(Num(x.p, False))
    return fnatom('round', (Num(x.p, False), nd if nd is not None else 0))


def canon_sign(run, p):
    """True if p's canonical leading coefficient is negative"""
    key, scale, c = run.canon(p)
    return scale < 0


def turned(p):
    """an angle with whole turns removed"""
    from .interp import PI
    (m, _), = PI.p.t.items()
    q = p.t.get(m)
    if q is None or len(p.t) == 1 or -1 <= q < 1:
        return p
    return padd(p, Poly({m: Fr(-2 * ((q + 1) // 2))}))


def f_trig(name):
    def f(run, args, kw):
        x = run.tonum(args[0])
        if x is NAN:
            return NAN
        p = run.subst_points(x.p)
        c = p.const()
        if c == 0:
            return {'sin': Num(pconst(0)), 'cos': Num(pconst(1)), 'tan': Num(pconst(0)), 'asin': Num(pconst(0)),
                    'atan': Num(pconst(0))}.get(name) or fnatom(name, (x,))
        if name == 'asin' and c in (1, -1):
            return run.binop('Mult', PI, Num(pconst(Fr(c) / 2)))
        if name == 'acos' and c in (1, 0, -1):
            return run.binop('Mult', PI, Num(pconst((1 - Fr(c)) / 2)))
        if name == 'tan':
            return run.binop('Div', f_trig('sin')(run, args, kw), f_trig('cos')(run, args, kw))
        if name in ('sin', 'cos'):
            if len(p.t) == 1:
                (m, k), = p.t.items()
                if len(m) == 1 and abs(k) == 1 and m[0][1] == 1 and m[0][0].kind == 'fn' and m[0][0].name == 'a' + name:
                    x = run.tonum(m[0][0].args[0])
                    return run.neg(x) if k < 0 and name == 'sin' else x
            p = turned(p)
            key, scale, c0 = run.canon(p)
            if key is not None and scale < 0:
                q = Num(pscale(p, -1))
                r = fnatom(name, (q,), lo=Fr(-1), hi=Fr(1))
                return run.neg(r) if name == 'sin' else r
            return fnatom(name, (Num(p),), lo=Fr(-1), hi=Fr(1))
        if name == 'acos':
            return fnatom(name, (Num(p),), lo=Fr(0), hi=Fr(31416, 10000))
        if name == 'asin':
            key, scale, c0 = run.canon(p)
            if key is not None and scale < 0:
                return run.neg(fnatom(name, (Num(pscale(p, -1)),), lo=Fr(-15708, 10000), hi=Fr(15708, 10000)))
            return fnatom(name, (Num(p),), lo=Fr(-15708, 10000), hi=Fr(15708, 10000))
        if name == 'atan':
            return fnatom(name, (Num(p),), lo=Fr(-15708, 10000), hi=Fr(15708, 10000))
        return fnatom(name, (Num(p),))
    return f


def f_exp(run, args, kw):
    x = run.tonum(args[0])
    p = run.subst_points(x.p)
    if p.const() == 0:
        return Num(pconst(1))
    return fnatom('exp', (Num(p),), lo=Fr(0), lo_open=True)


def f_log(run, args, kw):
    x = run.tonum(args[0])
    return fnatom('log', (Num(run.subst_points(x.p)),))


def f_minmax(which):
    def f(run, args, kw):
        if len(args) == 1:
            items = run.iterate(args[0])
        else:
            items = list(args)
        if not items:
            if 'default' in kw:
                return kw['default']
            raise PyExc('ValueError', 'empty sequence')
        best = items[0]
        for v in items[1:]:
            if 'key' in kw:
                a, b = run.call(kw['key'], [v]), run.call(kw['key'], [best])
            else:
                a, b = v, best
            a, b = run.force(a), run.force(b)
            # of two equal numbers the one that is not a constant: the other order of the arguments gives the same
            tie = 'key' not in kw and isinstance(a, Num) and isinstance(b, Num) and not a.isint and not b.isint and \
                a.p.const() is None and b.p.const() is not None
            if run.order(('Lt' if which == 'min' else 'Gt') + ('E' if tie else ''), a, b):
                best = v
        return run.force(best)
    return f


def f_sum(run, args, kw):
    h = getattr(run.force(args[0]), 'sumop', None)
    if h is not None:
        return h(run)
    items = run.iterate(args[0])
    r = args[1] if len(args) > 1 else 0
    for v in items:
        v = run.force(v)
        if isinstance(v, bool):
            v = int(v)
        r = run.binop('Add', r, v)
    return r


def f_npsum(run, args, kw):
    a = run.force(args[0])
    if isinstance(a, AList) and a.isnp is False and any(isinstance(x, AList) for x in a.items):
        return fnatom('np.sum', (a,))
    if isinstance(a, (AList, tuple)):
        r = f_sum(run, [a], {})
        if isinstance(r, int) and not (a.items if isinstance(a, AList) else a):
            return Num(pconst(0), False)
        return r
    h = getattr(a, 'sumop', None)
    if h is not None:
        return h(run)
    return fnatom('np.sum', (a,))


def f_mean(run, args, kw):
    a = run.force(args[0])
    if isinstance(a, (AList, tuple)):
        items = run.iterate(a)
        if not items:
            return NAN
        return run.binop('Div', run.binop('Mult', f_sum(run, [a], {}), Num(pconst(1))), len(items))
    h = getattr(a, 'meanop', None)
    if h is not None:
        return h(run)
    return fnatom('np.mean', (a,))


def f_len(run, args, kw):
    v = run.force(args[0])
    if isinstance(v, (AList, ASet)):
        return len(v.items)
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, ADict):
        if v.provider is None:
            return len(v.k)
    if isinstance(v, AObj):
        return run.call_method(v, '__len__', [])
    if isinstance(v, Opq) and v.length is not None:
        return v.length
    h = getattr(v, 'lenop', None)
    if h is not None:
        return h(run)
    if v is None or run.isnum(v):
        raise PyExc('TypeError', 'no len')
    if isinstance(v, S):
        r = 0
        for p in v.parts:
            if isinstance(p, str):
                r = run.binop('Add', r, len(p))
            else:
                if isinstance(p, Piece) and (p.spec or isinstance(p.v, Num) and p.v.isint):
                    w = _width(run, p.v, p.spec or '1')
                    if w is not None:
                        r = run.binop('Add', r, w)
                        continue
                r = run.binop('Add', r, f_len(run, [p], {}) if isinstance(p, Opq) or getattr(p, 'istext', False) else fnatom('len', (p,), True, Fr(1)))
        return r
    return fnatom('len', (v,), True, lo=Fr(0))


def f_range(run, args, kw):
    a = [run.force(x) for x in args]
    for x in a:
        if not (isinstance(x, int) or (isinstance(x, Num) and x.isint)):
            raise PyExc('TypeError', 'range needs integers')
    return AList([x for x in range(*[run.concretize(x, 'range') for x in a])])


def f_int(run, args, kw):
    if not args:
        return 0
    v = run.force(args[0])
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, Num):
        return run.trunc(v)
    if v is NAN:
        raise PyExc('ValueError')
    if isinstance(v, str):
        try:
            return int(v, *[run.concretize(x) for x in args[1:]])
        except ValueError:
            raise PyExc('ValueError')
    if isinstance(v, S) and len(v.parts) == 1 and isinstance(v.parts[0], Piece) and v.parts[0].spec in ('', '02', '2'):
        return f_int(run, [v.parts[0].v], {})
    if getattr(v, 'istext', False):
        return v.intop(run, *[run.concretize(x) for x in args[1:]])
    if isinstance(v, (S,)) or (isinstance(v, Opq) and v.kind == 'str'):
        k = 'int(%s)' % vkey(args)
        if not run.fact('valid ' + k, vsyms(v)):
            raise PyExc('ValueError')
        return fnatom('int', tuple(args), True)
    if isinstance(v, Opq):
        return fnatom('int', (v,), True)
    raise PyExc('TypeError', 'int()')


def f_float(run, args, kw):
    v = run.force(args[0])
    if isinstance(v, (bool, int)):
        return Num(pconst(int(v)), False)
    if isinstance(v, Num):
        return Num(v.p, False)
    if v is NAN:
        return NAN
    if isinstance(v, str):
        if v.strip().lower() == 'nan':
            return NAN
        try:
            return Num(pconst(Fr(v.strip())), False)
        except ValueError:
            raise PyExc('ValueError')
    if isinstance(v, S) and len(v.parts) == 1 and isinstance(v.parts[0], Piece) and v.parts[0].strof is not None:
        return f_float(run, [v.parts[0].v], {})
    if getattr(v, 'istext', False):
        return v.floatop(run)
    if isinstance(v, S) or (isinstance(v, Opq) and v.kind == 'str'):
        k = 'float(%s)' % vkey(v)
        if not run.fact('valid ' + k, vsyms(v)):
            raise PyExc('ValueError')
        return fnatom('float', (v,), False)
    if isinstance(v, Opq):
        h = getattr(v, 'floatop', None)
        if h is not None:
            return h(run)
        return fnatom('float', (v,), False)
    raise PyExc('TypeError', 'float()')


def f_isinstance(run, args, kw):
    v = run.force(args[0])
    ts = args[1] if isinstance(args[1], tuple) else (args[1],)
    for t in ts:
        t = run.force(t)
        n = t.name if isinstance(t, (ExtV, ClassV)) else None
        if isinstance(v, bool) and n in ('builtins.bool', 'builtins.int'):
            return True
        if isinstance(v, int) and not isinstance(v, bool) and n in ('builtins.int', 'np.integer', 'np.int64'):
            return True
        if isinstance(v, Num) and ((v.isint and n == 'builtins.int') or (not v.isint and n in ('builtins.float', 'np.floating', 'np.float64'))):
            return True
        if v is NAN and n == 'builtins.float':
            return True
        if isinstance(v, (str, S)) and n in ('builtins.str', 'builtins.unicode'):
            return True
        if isinstance(v, Opq) and v.kind == 'str' and n in ('builtins.str',):
            return True
        if isinstance(v, AList) and n == ('np.ndarray' if v.isnp else 'builtins.list'):
            return True
        if isinstance(v, tuple) and n == 'builtins.tuple':
            return True
        if isinstance(v, ADict) and n == 'builtins.dict':
            return True
        if isinstance(v, AObj) and isinstance(t, ClassV):
            c = [v.cls]
            while c:
                k = c.pop()
                if k is t:
                    return True
                if isinstance(k, ClassV):
                    c.extend(k.bases)
        if isinstance(v, Opq) and v.kind is None:
            return run.fact('isinstance(%s,%s)' % (v.key, n), v.syms)
    return False


def f_type(run, args, kw):
    v = run.force(args[0])
    h = getattr(v, 'typeop', None)
    if h is not None:
        return h(run)
    if isinstance(v, bool):
        return ExtV('builtins.bool')
    if isinstance(v, int):
        return ExtV('builtins.int')
    if isinstance(v, Num):
        return ExtV('builtins.int' if v.isint else 'builtins.float')
    if isinstance(v, (str, S)):
        return ExtV('builtins.str')
    if isinstance(v, AList):
        return ExtV('builtins.list')
    if isinstance(v, AObj):
        return v.cls
    if v is None:
        return ExtV('NoneType')
    return ExtV('type(%s)' % vkey(v))


def sort_items(run, items, key=None, reverse=False, cmp=None):
    """insertion sort with abstract comparisons (stable)"""
    keys = [run.call(key, [x]) if key is not None else x for x in items]
    out, ok = [], []
    for x, k in zip(items, keys):
        i = len(out)
        while i > 0 and run.order('Lt' if not reverse else 'Gt', run.force(k), run.force(ok[i - 1])):
            i -= 1
        out.insert(i, x)
        ok.insert(i, k)
    return out


def _try_const_sort(keys):
    for k in keys:
        if isinstance(k, Num) and k.p.const() is not None:
            continue
        if isinstance(k, (int, str)):
            continue
        return None
    return True


def deep_copy(run, v, memo=None):
    memo = {} if memo is None else memo
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, AList):
        r = AList([], v.isnp)
        memo[id(v)] = r
        r.items = [deep_copy(run, x, memo) for x in v.items]
        return r
    if isinstance(v, ADict):
        r = ADict(provider=v.provider)
        memo[id(v)] = r
        r.k = list(v.k)
        r.v = [deep_copy(run, x, memo) for x in v.v]
        return r
    if isinstance(v, ASet):
        return ASet(v.items)
    if isinstance(v, AObj):
        h = getattr(v, 'copyop', None)
        r = AObj(v.cls, v.name + "'")
        memo[id(v)] = r
        r.lazy_attr = v.lazy_attr
        r.attrs = {k: deep_copy(run, x, memo) for k, x in v.attrs.items()}
        for extra in ('model', 'repname'):
            if hasattr(v, extra):
                m = getattr(v, extra)
                setattr(r, extra, m.copy() if hasattr(m, 'copy') else m)
        return r
    if isinstance(v, FArr):
        return FArr(v.base, v.default, v.shape, v.stores, v.maker)
    if isinstance(v, tuple):
        return tuple(deep_copy(run, x, memo) for x in v)
    return v


def npzeros(run, args, kw):
    sh = run.force(args[0])
    if isinstance(sh, (tuple, AList)):
        dims = [run.concretize(x, 'shape') for x in run.iterate(sh)]
    else:
        dims = [run.concretize(sh, 'shape')]
    if len(dims) == 1:
        return AList([Num(pconst(0), False)] * dims[0], True)
    tot = 1
    for d in dims:
        tot *= d
    if tot <= 2000:
        def mk(ds):
            if len(ds) == 1:
                return AList([Num(pconst(0), False)] * ds[0], True)
            return AList([mk(ds[1:]) for _ in range(ds[0])], True)
        return mk(dims)
    run.fresh_n += 1
    return FArr('zeros', Num(pconst(0), False), tuple(dims))


def nparray(run, args, kw):
    v = run.force(args[0])
    if isinstance(v, (AList, tuple)):
        return AList(run.iterate(v), True)
    return v


def map_arr(f):
    def g(run, args, kw):
        v = run.force(args[0])
        if isinstance(v, AList):
            return AList([f(run, [x] + list(args[1:]), kw) for x in v.items], True)
        return f(run, args, kw)
    return g


def f_isleap(run, args, kw):
    y = run.tonum(args[0])
    if not y.isint:
        y = num(run.tonum(y))
    def div(n):
        m = run.binop('Mod', Num(y.p, True), n)
        return run.eq(m, 0)
    key = 'leap(%s)' % y.p.key
    c = run.subst_points(y.p).const()
    if c is None:
        if key in run.facts:
            return run.facts[key]
        return div(4) and (not div(100) or div(400))
    return (c % 4 == 0 and c % 100 != 0) or c % 400 == 0


def f_atan2(run, args, kw):
    return fnatom('atan2', (run.tonum(args[0]), run.tonum(args[1])), lo=Fr(-31416, 10000), hi=Fr(31416, 10000))


def f_fmod(run, args, kw):
    """remainder with the sign of the dividend"""
    x, y = run.tonum(args[0]), run.tonum(args[1])
    q = num(run.divide(Num(x.p, False), Num(y.p, False)))
    return norm(Num(padd(x.p, pmul(y.p, num(run.trunc(q)).p), -1)))


def f_sqrt(run, args, kw):
    x = run.tonum(args[0])
    if x is NAN:
        return NAN
    return run.sqrt(Num(run.subst_points(x.p)))


def f_floor(run, args, kw):
    x = run.tonum(args[0])
    return Num(num(run.floor(x)).p, False) if False else run.floor(x)


def f_ceil(run, args, kw):
    x = run.tonum(args[0])
    f = num(run.floor(Num(pscale(x.p, -1))))
    return norm(Num(pscale(f.p, -1), True))


def f_isnan(run, args, kw):
    v = run.force(args[0])
    if v is NAN:
        return True
    if v is None or isinstance(v, (str, S)):
        raise PyExc('TypeError', 'isnan')
    if isinstance(v, AList):
        return AList([f_isnan(run, [x], {}) for x in v.items], True)
    if isinstance(v, Opq):
        h = getattr(v, 'isnanop', None)
        if h is not None:
            return h(run)
    return False


def f_argmax(run, args, kw):
    items = run.iterate(args[0])
    if not items:
        raise PyExc('ValueError')
    b = 0
    for i in range(1, len(items)):
        if run.order('Gt', run.force(items[i]), run.force(items[b])):
            b = i
    return b


def f_all(run, args, kw):
    return all(run.truth(x) for x in run.iterate(args[0]))


def f_any(run, args, kw):
    return any(run.truth(x) for x in run.iterate(args[0]))


def f_pow(run, args, kw):
    return run.binop('Pow', args[0], args[1])


def f_radians(run, args, kw):
    return run.binop('Div', run.binop('Mult', args[0], PI), Num(pconst(180)))


def f_degrees(run, args, kw):
    return run.binop('Div', run.binop('Mult', args[0], Num(pconst(180))), PI)


def f_copy(run, args, kw):
    v = run.force(args[0])
    if isinstance(v, AList):
        return AList(v.items, v.isnp)
    if isinstance(v, ADict):
        return ADict(list(zip(v.k, v.v)), v.provider)
    if isinstance(v, AObj):
        r = AObj(v.cls, v.name + "'")
        r.attrs = dict(v.attrs)
        r.lazy_attr = v.lazy_attr
        for extra in ('model', 'repname'):
            if hasattr(v, extra):
                setattr(r, extra, getattr(v, extra))
        return r
    return v


def f_diff(run, args, kw):
    it = run.iterate(args[0])
    return AList([run.binop('Sub', b, a) for a, b in zip(it, it[1:])], True)


def f_nonzero(run, args, kw):
    v = run.force(args[0])
    if isinstance(v, AList):
        return (AList([i for i, x in enumerate(v.items) if run.truth(x)], True),)
    h = getattr(v, 'nonzeroop', None)
    if h is not None:
        return h(run)
    raise Unsupported('nonzero')


def f_npabs(run, args, kw):
    return run.abs_(args[0])


def f_joinpath(run, args, kw):
    out = ''
    for i, a in enumerate(args):
        a = to_str(run, a)
        first = a.parts[0] if isinstance(a, S) else a
        last = out.parts[-1] if isinstance(out, S) else out
        if i == 0 or isinstance(first, str) and first.startswith('/'):
            out = a
        elif isinstance(last, str) and (last == '' or last.endswith('/')):
            out = mkstr([out, a])
        else:
            out = mkstr([out, '/', a])
    return out


EXT = {
    'math.sin': f_trig('sin'), 'math.cos': f_trig('cos'), 'math.tan': f_trig('tan'), 'math.asin': f_trig('asin'),
    'math.acos': f_trig('acos'), 'math.atan': f_trig('atan'), 'math.atan2': f_atan2,
    'np.sin': map_arr(f_trig('sin')), 'np.cos': map_arr(f_trig('cos')), 'np.tan': map_arr(f_trig('tan')),
    'np.arcsin': f_trig('asin'), 'np.arccos': f_trig('acos'), 'np.arctan': f_trig('atan'), 'np.arctan2': f_atan2,
    'math.exp': f_exp, 'np.exp': map_arr(f_exp), 'math.log': f_log, 'np.log': map_arr(f_log),
    'math.sqrt': f_sqrt, 'np.sqrt': map_arr(f_sqrt), 'math.floor': f_floor, 'np.floor': f_floor, 'math.ceil': f_ceil,
    'np.ceil': f_ceil, 'math.isnan': f_isnan, 'np.isnan': f_isnan, 'math.pow': f_pow, 'np.power': f_pow,
    'math.radians': f_radians, 'np.radians': f_radians, 'np.deg2rad': f_radians, 'math.degrees': f_degrees,
    'np.degrees': f_degrees, 'np.rad2deg': f_degrees, 'math.fabs': f_npabs, 'np.abs': f_npabs, 'np.fabs': f_npabs,
    'np.absolute': f_npabs,
    'np.sum': f_npsum, 'np.mean': f_mean, 'np.average': f_mean, 'np.zeros': npzeros, 'np.array': nparray, 'np.asarray': nparray,
    'np.argmax': f_argmax, 'np.all': f_all, 'np.any': f_any, 'np.max': f_minmax('max'), 'np.min': f_minmax('min'),
    'np.amax': f_minmax('max'), 'np.amin': f_minmax('min'), 'np.diff': f_diff, 'np.nonzero': f_nonzero,
    'np.copy': f_copy, 'copy.deepcopy': lambda run, a, k: deep_copy(run, a[0]), 'copy.copy': f_copy,
    'math.trunc': lambda run, a, k: run.trunc(run.tonum(a[0])),
    'np.int': f_int, 'np.float': f_float, 'np.float64': f_float,
    'math.fmod': f_fmod, 'np.fmod': f_fmod, 'np.mod': lambda run, a, k: run.binop('Mod', *a), 'np.remainder': lambda run, a, k: run.binop('Mod', *a),
    'math.hypot': lambda run, a, k: f_sqrt(run, [run.binop('Add', run.binop('Mult', a[0], a[0]),
                                                             run.binop('Mult', a[1], a[1]))], {}),
    'calendar.isleap': f_isleap,
    'os.path.join': f_joinpath,
    'np.ma.masked_array': nparray,
    'builtins.len': f_len, 'builtins.range': f_range, 'builtins.xrange': f_range, 'builtins.int': f_int,
    'builtins.float': f_float, 'builtins.abs': f_npabs, 'builtins.min': f_minmax('min'), 'builtins.max': f_minmax('max'),
    'builtins.sum': f_sum, 'builtins.isinstance': f_isinstance, 'builtins.type': f_type, 'builtins.all': f_all,
    'builtins.any': f_any, 'builtins.pow': f_pow,
    'builtins.round': lambda run, a, k: f_round(run, *_args(a, k, ['number', 'ndigits'])),
    'np.round': lambda run, a, k: fnatom('np.round', tuple(a)),
    'builtins.bool': lambda run, a, k: run.truth(a[0]) if a else False,
    'builtins.str': lambda run, a, k: to_str(run, a[0]) if a else '',
    'builtins.unicode': lambda run, a, k: to_str(run, a[0]) if a else '',
    'builtins.repr': lambda run, a, k: S([Opq('repr(%s)' % vkey(a[0]), vsyms(a[0]), 'str')]),
    'builtins.print': lambda run, a, k: run.printed.append(tuple(a)),
    'builtins.enumerate': lambda run, a, k: AList([(run.binop('Add', i, a[1] if len(a) > 1 else k.get('start', 0)), x)
                                                   for i, x in enumerate(run.iterate(a[0]))]),
    'builtins.zip': lambda run, a, k: AList([tuple(x) for x in zip(*[run.iterate(y) for y in a])]),
    'builtins.map': lambda run, a, k: AList([run.call(a[0], list(x)) for x in zip(*[run.iterate(y) for y in a[1:]])]),
    'builtins.filter': lambda run, a, k: AList([x for x in run.iterate(a[1])
                                                if run.truth(run.call(a[0], [x]) if run.force(a[0]) is not None else x)]),
    'builtins.reversed': lambda run, a, k: AList(run.iterate(a[0])[::-1]),
    'builtins.list': lambda run, a, k: AList(run.iterate(a[0]) if a else []),
    'builtins.iter': lambda run, a, k: AList(run.iterate(a[0])),
    'builtins.tuple': lambda run, a, k: tuple(run.iterate(a[0]) if a else []),
    'builtins.callable': lambda run, a, k: isinstance(a[0], (FuncV, BoundV, PyFn, ClassV)),
    'builtins.id': lambda run, a, k: id(a[0]),
}


def f_sorted(run, a, k):
    return AList(sort_items(run, run.iterate(a[0]), k.get('key'), run.truth(k.get('reverse', False))))


def f_dict(run, a, k):
    d = ADict()
    if a:
        v = run.force(a[0])
        if isinstance(v, ADict):
            for x, y in zip(v.k, v.v):
                run.dict_set(d, x, y)
        else:
            for p in run.iterate(v):
                x, y = run.iterate(p)
                run.dict_set(d, x, y)
    for x, y in k.items():
        run.dict_set(d, x, y)
    return d


def f_set(run, a, k):
    out = []
    for x in (run.iterate(a[0]) if a else []):
        if not any(run.eq(x, y) for y in out):
            out.append(x)
    return ASet(out)


def f_next(run, a, k):
    v = run.force(a[0])
    if isinstance(v, AList):
        if v.items:
            return v.items.pop(0)
        if len(a) > 1:
            return a[1]
        raise PyExc('StopIteration')
    raise Unsupported('next')


def f_hasattr(run, a, k):
    try:
        run.getattr_(a[0], a[1])
        return True
    except PyExc as e:
        if e.cls == 'AttributeError':
            return False
        raise


def f_getattr(run, a, k):
    try:
        return run.getattr_(a[0], a[1])
    except PyExc as e:
        if e.cls == 'AttributeError' and len(a) > 2:
            return a[2]
        raise


EXT.update({'builtins.sorted': f_sorted, 'builtins.dict': f_dict, 'builtins.set': f_set, 'builtins.frozenset': f_set,
            'builtins.next': f_next, 'builtins.hasattr': f_hasattr, 'builtins.getattr': f_getattr,
            'builtins.setattr': lambda run, a, k: run.setattr_(a[0], a[1], a[2]),
            'collections.OrderedDict': f_dict,
            'builtins.divmod': lambda run, a, k: (run.binop('FloorDiv', a[0], a[1]), run.binop('Mod', a[0], a[1])),
            'np.arange': lambda run, a, k: AList(run.iterate(f_range(run, a, k)), True),
            'np.append': lambda run, a, k: AList(run.iterate(a[0]) + (run.iterate(a[1]) if isinstance(run.force(a[1]), (AList, tuple)) else [a[1]]), True),
            'np.concatenate': lambda run, a, k: AList([x for y in run.iterate(a[0]) for x in run.iterate(y)], True),
            'np.sort': lambda run, a, k: AList(sort_items(run, run.iterate(a[0])), True),
            })


def npones(run, args, kw):
    return npfill(npzeros(run, args, kw), Num(pconst(1), False))


def npfill(v, x):
    if isinstance(v, FArr):
        return FArr('full', x, v.shape)
    return AList([npfill(y, x) if isinstance(y, AList) else x for y in v.items], True)


def ewise(f):
    def g(run, args, kw):
        args = [run.force(a) for a in args]
        if any(isinstance(a, FArr) for a in args):
            return farr_map(run, lambda *x: f(run, *x), args)
        ls = [a for a in args if isinstance(a, (AList, tuple))]
        if not ls:
            return f(run, *args)
        n = len(run.iterate(ls[0]))
        cols = [run.iterate(a) if isinstance(a, (AList, tuple)) else [a] * n for a in args]
        if any(len(c) != n for c in cols):
            raise PyExc('ValueError', 'shape mismatch')
        return AList([g(run, x, {}) for x in zip(*cols)], True)
    return g


def nplike(run, v, x):
    v = run.force(v)
    if isinstance(v, FArr):
        return FArr('full', Num(pconst(x), False), v.shape)
    return AList([Num(pconst(x), False) for _ in run.iterate(v)], True)


def f_argwhere(run, v):
    ls = f_nonzero(run, [v], {})
    return AList([AList(list(t), True) for t in zip(*[x.items for x in ls])], True)


def npempty(run, args, kw):
    r = npzeros(run, args, kw)
    if isinstance(r, AList):
        return AList([NAN for _ in r.items], True)
    return r


def npwhere(run, args, kw):
    c = run.force(args[0])
    if len(args) == 1:
        return f_nonzero(run, args, kw)
    if isinstance(c, FArr):
        return farr_map(run, lambda m, x, y: x if run.truth(m) else y, [c, run.force(args[1]), run.force(args[2])])
    n = len(c.items)
    def at(v, i):
        v = run.force(v)
        return v.items[i] if isinstance(v, AList) else v
    return AList([at(args[1], i) if run.truth(c.items[i]) else at(args[2], i) for i in range(n)], True)


EXT.update({'np.ones': npones, 'np.empty': npempty, 'np.where': npwhere,
            'np.full': lambda run, a, k: npfill(npzeros(run, a, {}), run.force(a[1]))})


NPELEM = {'np.' + n for n in ('abs absolute fabs sqrt exp log log10 sin cos tan arcsin arccos arctan arctan2 floor ceil rint trunc '
                              'isfinite square sign radians degrees deg2rad rad2deg mod remainder fmod power hypot '
                              'add subtract multiply divide logical_not float_power').split()}


def call_ext(run, name, args, kw):
    h = EXT.get(name)
    if h is not None:
        if name in NPELEM and not kw and any(isinstance(run.force(a), (AList, FArr)) for a in args):
            return ewise(lambda run, *x: h(run, list(x), {}))(run, args, kw)
        return h(run, args, kw)
    if name.startswith('np.') or name.startswith('math.'):
        allargs = list(args) + [x for k in sorted(kw) for x in (k, kw[k])]
        return fnatom(name, tuple(run.force(a) for a in allargs))
    if name.startswith('sys.std'):
        return None
    if name.startswith('builtins.'):
        raise Unsupported('built-in %s' % name)
    allargs = list(args) + [x for k in sorted(kw) for x in (k, kw[k])]
    run.events.append(('call', name, tuple(allargs)))
    return Opq('%s(%s)' % (name, ','.join(vkey(a) for a in allargs)), vsyms(allargs))


# ---------------------------------------------------------------- methods of modelled values
def call_meth(run, o, name, a, k):
    h = getattr(o, 'methop', None)
    if h is not None:
        r = h(run, name, a, k)
        if r is not NotImplemented:
            return r
    if isinstance(o, AList):
        if name == 'append':
            o.items.append(a[0])
            return None
        if name == 'extend':
            o.items.extend(run.iterate(a[0]))
            return None
        if name == 'pop':
            if not o.items:
                raise PyExc('IndexError')
            return o.items.pop(run.split_index(a[0], len(o.items)) if a else -1)
        if name == 'insert':
            o.items.insert(run.concretize(a[0]), a[1])
            return None
        if name == 'remove':
            for i, x in enumerate(o.items):
                if run.eq(x, a[0]):
                    del o.items[i]
                    return None
            raise PyExc('ValueError')
        if name == 'index':
            if isinstance(a[0], str) and all(type(x) is str for x in o.items):
                if a[0] not in o.items:
                    raise PyExc('ValueError')
                return o.items.index(a[0])
            for i, x in enumerate(o.items):
                if run.eq(x, a[0]):
                    return i
            raise PyExc('ValueError')
        if name == 'count':
            return sum(1 for x in o.items if run.eq(x, a[0]))
        if name == 'sort':
            o.items[:] = sort_items(run, o.items, k.get('key'), run.truth(k.get('reverse', False)))
            return None
        if name == 'reverse':
            o.items.reverse()
            return None
        if name == 'copy':
            return AList(o.items, o.isnp)
        if name == 'clear':
            del o.items[:]
            return None
        if name in ('tolist', 'flatten'):
            return AList(o.items, name == 'flatten')
        if name in ('sum', 'mean', 'max', 'min', 'all', 'any'):
            return EXT['np.' + name](run, [o], {})
        if name == 'next' or name == '__next__':
            return f_next(run, [o], {})
        if name == '__len__':
            return len(o.items)
        if name == '__getitem__':
            return run.getitem(o, a[0])
        if name == 'size':
            return len(o.items)
        if name == 'argmax':
            return f_argmax(run, [o], {})
        if o.isnp:
            if name == 'fill':
                o.items[:] = [a[0]] * len(o.items)
                return None
            if name == 'ravel':
                return o
            if name == 'astype' and isinstance(a[0], ExtV):
                to = a[0].name.split('.')[-1]
                if to in ('float', 'float64', 'float_', 'int'):
                    return AList([run.call(ExtV('builtins.' + to.rstrip('64_')), [x]) for x in o.items], True)
            if 'np.' + name in EXT or 'np.' + name in run.cfg.models:
                return run.call(ExtV('np.' + name), [o] + list(a), k)
    if isinstance(o, tuple):
        if name in ('index', 'count'):
            return call_meth(run, AList(o), name, a, k)
    if isinstance(o, ADict):
        if name == 'get':
            found, v = run.dict_find(o, a[0])
            return v if found else (a[1] if len(a) > 1 else None)
        if name in ('keys', 'iterkeys'):
            return AList(run.iterate(o))
        if name in ('values', 'itervalues'):
            run.iterate(o)
            return AList(o.v)
        if name in ('items', 'iteritems'):
            run.iterate(o)
            return AList(list(zip(o.k, o.v)))
        if name == 'setdefault':
            found, v = run.dict_find(o, a[0])
            if found:
                return v
            d = a[1] if len(a) > 1 else None
            run.dict_set(o, a[0], d)
            return d
        if name == 'pop':
            kk = run.force(a[0])
            for i, x in enumerate(o.k):
                if run.eq(kk, x):
                    v = o.v[i]
                    del o.k[i]
                    del o.v[i]
                    return v
            if len(a) > 1:
                return a[1]
            raise PyExc('KeyError')
        if name == 'update':
            if a:
                d = run.force(a[0])
                for x, y in zip(d.k, d.v):
                    run.dict_set(o, x, y)
            for x, y in k.items():
                run.dict_set(o, x, y)
            return None
        if name == 'has_key':
            return run.contains(o, a[0])
        if name == 'clear':
            o.k[:] = []
            o.v[:] = []
            return None
        if name == 'copy':
            return ADict(list(zip(o.k, o.v)), o.provider)
        if name == '__contains__':
            return run.contains(o, a[0])
    if isinstance(o, ASet):
        if name == 'add':
            if not run.contains(o, a[0]):
                o.items.append(a[0])
            return None
        if name in ('remove', 'discard'):
            o.items = [x for x in o.items if not run.eq(x, a[0])]
            return None
        op = {'union': 'BitOr', 'intersection': 'BitAnd', 'difference': 'Sub', 'symmetric_difference': 'BitXor'}.get(name)
        if op is not None:
            r = ASet(o.items)
            for x in a:
                r = run.setop(op, r, ASet(run.iterate(x)))
            return r
        if name == 'update':
            for x in a:
                for y in run.iterate(x):
                    if not run.contains(o, y):
                        o.items.append(y)
            return None
        if name == 'issubset':
            return all(run.contains(a[0], x) for x in o.items)
        if name == 'issuperset':
            return all(run.contains(o, x) for x in run.iterate(a[0]))
        if name == 'isdisjoint':
            return not any(run.contains(o, x) for x in run.iterate(a[0]))
        if name == 'copy':
            return ASet(o.items)
        if name == 'clear':
            o.items = []
            return None
        if name == 'pop' and len(o.items) == 1:
            return o.items.pop()
    if isinstance(o, (str, S)) or (isinstance(o, Opq) and o.kind == 'str'):
        return str_meth(run, o, name, a, k)
    if isinstance(o, (Num, int)) and not isinstance(o, bool):
        if name == 'is_integer':
            x = num(o)
            f = num(run.floor(x))
            return run.eq(Num(f.p), Num(x.p))
        if name == 'item':
            return o
        if name in ('astype',):
            return o
    if isinstance(o, FArr) and name == 'copy':
        return deep_copy(run, o)
    if o is None:
        raise PyExc('AttributeError', 'None.' + name)
    if run.isnum(o):
        raise PyExc('AttributeError', name)
    raise Unsupported('method %s of %r' % (name, o))


def str_meth(run, o, name, a, k):
    if name == 'format':
        return str_format(run, o, a, k)
    if name == 'join':
        items = run.iterate(a[0])
        out = []
        for i, x in enumerate(items):
            if i:
                out.append(o)
            x = run.force(x)
            if not isinstance(x, (str, S, Opq)) and not getattr(x, 'istext', False):
                raise PyExc('TypeError', 'join')
            out.append(x)
        return mkstr(out)
    args = [run.force(x) for x in a]
    if isinstance(o, str) and all(isinstance(x, (str, int)) or x is None for x in args):
        try:
            r = getattr(o, name)(*args)
        except ValueError:
            raise PyExc('ValueError')
        except AttributeError:
            if name == 'decode':
                return o
            raise PyExc('AttributeError', name)
        if isinstance(r, list):
            return AList(r)
        if isinstance(r, bytes):
            return o
        return r
    if name in ('decode', 'encode'):
        return o
    if name in ('find', 'index') and o == '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ' and len(args) == 1 and \
            getattr(args[0], 'istext', False):
        f = args[0].whole()
        if f is not None and f.base == 36 and len(args[0].cs) == 1:
            return f.value
    if name in ('rjust', 'ljust', 'zfill') and isinstance(o, S) and len(o.parts) == 1 and len(args) == 1 and isinstance(args[0], int):
        p = o.parts[0]
        if isinstance(p, Piece) and p.spec == '' and (isinstance(p.v, int) or isinstance(p.v, Num) and p.v.isint):
            return S([Piece(p.v, {'rjust': '%d', 'ljust': '<%d', 'zfill': '0%d'}[name] % args[0])])
    if name in ('rjust', 'ljust') and len(args) == 1 and isinstance(args[0], int) and isinstance(o, (S, Opq)):
        return pad_str(run, o, name == 'ljust', args[0])
    if name in ('rstrip', 'strip', 'lstrip') and isinstance(o, S):
        parts = list(o.parts)
        chars = args[0] if args else None
        if chars is None or isinstance(chars, str):
            if name in ('rstrip', 'strip') and isinstance(parts[-1], str):
                t = parts[-1].rstrip(chars)
                if t or (len(parts) > 1 and _solid(parts[-2])):
                    parts[-1] = t
                    parts = [p for p in parts if p != '']
                    if name == 'rstrip':
                        return mkstr(parts)
            elif name == 'rstrip' and chars is None and _solid(parts[-1]):
                return o
    if name == 'replace' and len(args) == 2 and isinstance(args[0], str) and args[0] and isinstance(o, (S, str)) and \
            isinstance(args[1], (str, S)):
        out = []
        for p in (o.parts if isinstance(o, S) else [o]):
            if isinstance(p, str):
                for j, q in enumerate(p.split(args[0])):
                    out += [args[1], q] if j else [q]
            elif isinstance(p, Piece) and p.numeric and not set(args[0]) & set('0123456789+-.e '):
                out.append(p)
            else:
                out.append(Opq('replace(%s,%r,%s)' % (vkey(p), args[0], vkey(args[1])), vsyms(p) | vsyms(args[1]), 'str'))
        return mkstr(out)
    if name in ('startswith', 'endswith') and isinstance(o, S) and isinstance(args[0], str):
        p = o.parts[0] if name == 'startswith' else o.parts[-1]
        if isinstance(p, str) and len(p) >= len(args[0]):
            return getattr(p, name)(args[0])
        if isinstance(p, Piece) and p.numeric and args[0] and args[0][0 if name == 'startswith' else -1] not in '0123456789+-. ':
            return False
    key = '%s.%s(%s)' % (vkey(o), name, ','.join(vkey(x) for x in a))
    sy = vsyms(o) | vsyms(a)
    if name in ('startswith', 'endswith', 'isdigit', 'isalpha', 'isspace'):
        return run.fact(key, sy)
    if name in ('split', 'splitlines'):
        return SplitV(o, key, sy)
    if name in ('find', 'count', 'index', 'rfind'):
        return fnatom(key, (), True)
    return S([Opq(key, sy, 'str')])


def _solid(p):
    """piece whose text never ends in white space"""
    return isinstance(p, Piece) and p.numeric or getattr(p, 'solid', False)


class SplitV(Val):
    """result of splitting an opaque string"""

    def __init__(self, o, key, sy):
        self.o, self.key, self.sy = o, key, sy

    def vkey(self):
        return self.key

    def vsyms(self):
        return self.sy

    def getitemop(self, run, i):
        if isinstance(i, SliceV):
            return SplitV(self.o, '%s[%s]' % (self.key, vkey(i)), self.sy)
        return Opq('%s[%s]' % (self.key, vkey(run.force(i))), self.sy, 'str')

    def lenop(self, run):
        return fnatom('len', (Opq(self.key, self.sy),), True, lo=Fr(0))


# ---------------------------------------------------------------- datetime
def month_len(run, y, m):
    if run.eq(m, 2):
        return 29 if f_isleap(run, [y], {}) else 28
    for k in (4, 6, 9, 11):
        if run.eq(m, k):
            return 30
    return 31


class DT(Val):
    """a valid point in time"""
    FIELDS = ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond')

    def __init__(self, f, isdate=False):
        self.f = tuple(f)
        self.isdate = isdate

    def vkey(self):
        return 'datetime(%s)' % ','.join(vkey(x) for x in self.f)

    def vsyms(self):
        return vsyms(self.f)

    def methop(self, run, name, a, k):
        if name == 'date':
            return DT(self.f[:3] + (0,) * 4, True)
        if name == 'isoformat' and self.isdate:
            return mkstr([format_value(run, self.f[0], '04d'), '-', format_value(run, self.f[1], '02d'), '-',
                          format_value(run, self.f[2], '02d')])
        if name == 'strftime':
            fmt = run.force(a[0])
            if isinstance(fmt, str):
                out, i = [], 0
                codes = {'Y': (0, '04d'), 'm': (1, '02d'), 'd': (2, '02d'), 'H': (3, '02d'), 'M': (4, '02d'), 'S': (5, '02d')}
                while i < len(fmt):
                    if fmt[i] == '%' and fmt[i + 1] in codes:
                        j, sp = codes[fmt[i + 1]]
                        out.append(format_value(run, self.f[j], sp))
                        i += 2
                    else:
                        out.append(fmt[i])
                        i += 1
                return mkstr(out)
        if name == 'timetuple':
            return self
        if name == 'replace':
            f = list(self.f)
            for i, n in enumerate(self.FIELDS):
                if n in k:
                    f[i] = k[n]
            return mk_datetime(run, f, {})
        raise Unsupported('datetime.%s' % name)

    def getattrop(self, run, name):
        if name in self.FIELDS:
            return self.f[self.FIELDS.index(name)]
        if name == 'tm_yday':
            n = self.f[2]
            m = run.concretize(self.f[1], 'month')
            for i in range(1, m):
                n = run.binop('Add', n, month_len(run, self.f[0], i))
            return n
        return None

    def eqop(self, run, o):
        if isinstance(o, DT):
            return all(run.eq(x, y) for x, y in zip(self.f, o.f))
        if o is None:
            return False
        if isinstance(o, Opq):
            return run.fact('%s==%s' % tuple(sorted([self.vkey(), vkey(o)])), self.vsyms() | vsyms(o))
        return False

    def cmpop(self, run, op, o, swapped):
        if swapped:
            op = {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}[op]
        if isinstance(o, DT):
            return run.order(op, tuple(self.f), tuple(o.f))
        if o is None:
            return op in ('Gt', 'GtE')
        return run.opq_order(op, Opq(self.vkey(), self.vsyms(), 'time'), o)

    def binop(self, run, op, o, swapped):
        if isinstance(o, TD) and not (swapped and op == 'Sub') and op in ('Add', 'Sub'):
            return shift_days(run, self, o.days if op == 'Add' else -o.days)
        if isinstance(o, DT) and op == 'Sub':
            raise Unsupported('difference of two datetimes')
        raise PyExc('TypeError')


class TD(Val):
    def __init__(self, days):
        self.days = days

    def vkey(self):
        return 'timedelta(%d)' % self.days


def shift_days(run, t, n):
    y, m, d = t.f[:3]
    if abs(n) > 3:
        raise Unsupported('long timedelta')
    while n < 0:
        if run.order('Gt', run.force(d), 1):
            d = run.binop('Sub', d, 1)
        else:
            if run.order('Gt', run.force(m), 1):
                m = run.binop('Sub', m, 1)
            else:
                y, m = run.binop('Sub', y, 1), 12
                if run.order('Lt', y, 1):
                    raise PyExc('OverflowError')
            d = month_len(run, y, m)
        n += 1
    while n > 0:
        if run.order('Lt', run.force(d), month_len(run, y, m)):
            d = run.binop('Add', d, 1)
        else:
            d = 1
            if run.order('Lt', run.force(m), 12):
                m = run.binop('Add', m, 1)
            else:
                y, m = run.binop('Add', y, 1), 1
                if run.order('Gt', y, 9999):
                    raise PyExc('OverflowError')
        n -= 1
    return DT((y, m, d) + t.f[3:])


def mk_datetime(run, a, k):
    f = [run.force(x) for x in a]
    for n in DT.FIELDS[len(f):]:
        f.append(run.force(k.get(n, 0)))
    for x in f:
        if not (isinstance(x, int) or (isinstance(x, Num) and x.isint)):
            raise PyExc('TypeError', 'datetime() needs integers')
    y, m, d, h, mi, s = f[:6]
    ok = (run.order('GtE', y, 1) and run.order('LtE', y, 9999) and run.order('GtE', m, 1) and run.order('LtE', m, 12)
          and run.order('GtE', d, 1))
    if ok:
        ok = run.order('LtE', d, month_len(run, y, m))
    if ok:
        for x, n in ((h, 23), (mi, 59), (s, 59)):
            ok = ok and run.order('GtE', x, 0) and run.order('LtE', x, n)
    if not ok:
        raise PyExc('ValueError', 'datetime out of range')
    return DT(f)


def mk_timedelta(run, a, k):
    d = run.force(a[0]) if a else run.force(k.get('days', 0))
    if set(k) - {'days'} or len(a) > 1 or not isinstance(d, int):
        raise Unsupported('timedelta')
    return TD(d)


def f_strptime(run, a, k):
    s, fmt = run.force(a[0]), run.force(a[1])
    if not isinstance(fmt, str):
        raise Unsupported('strptime')
    toks = fmt.split(' ')
    parts = s.parts if isinstance(s, S) else (s,)
    words = [[]]
    for p in parts:
        if isinstance(p, str):
            bits = p.split(' ')
            for i, b in enumerate(bits):
                if i:
                    words.append([])
                if b:
                    words[-1].append(b)
        else:
            words[-1].append(p)
    if len(words) != len(toks) or any(len(w) != 1 for w in words):
        if run.fact('valid strptime(%s,%s)' % (vkey(s), fmt), vsyms(s)):
            return Opq('strptime(%s,%s)' % (vkey(s), fmt), vsyms(s), 'time')
        raise PyExc('ValueError')
    val = {}
    for t, (w,) in zip(toks, words):
        if isinstance(w, Piece) and isinstance(w.v, (Num, int)) and num(w.v).isint:
            val[t] = w.v
        elif isinstance(w, str) and w.isdigit():
            val[t] = int(w)
        elif isinstance(w, str):
            raise PyExc('ValueError')
        else:
            raise Unsupported('strptime of %s' % vkey(w))
    y = val.get('%Y', 1900)
    # %Y takes exactly four digits
    if not (run.order('GtE', y, 1000) and run.order('LtE', y, 9999)):
        raise PyExc('ValueError')
    return mk_datetime(run, [y, val.get('%m', 1), val.get('%d', 1), val.get('%H', 0)], {})


EXT.update({'datetime.datetime': mk_datetime, 'datetime.date': mk_datetime, 'datetime.timedelta': mk_timedelta,
            'datetime.datetime.strptime': f_strptime, 'datetime.datetime.datetime': mk_datetime,
            'datetime.datetime.datetime.strptime': f_strptime, 'datetime.datetime.timedelta': mk_timedelta,
            'calendar.monthrange': lambda run, a, k: (Opq('weekday'), month_len(run, run.force(a[0]), run.force(a[1])))})


def f_reduce(run, a, k):
    it = run.iterate(a[1])
    if len(a) > 2:
        r = a[2]
    elif it:
        r = it.pop(0)
    else:
        raise PyExc('TypeError')
    for x in it:
        r = run.call(a[0], [r, x])
    return r


EXT.update({
    'functools.reduce': f_reduce,
    'builtins.chr': lambda run, a, k: chr(run.concretize(a[0])),
    'builtins.ord': lambda run, a, k: ord(a[0]) if isinstance(run.force(a[0]), str) else fnatom('ord', tuple(a), True),
    'itertools.chain': lambda run, a, k: AList([x for y in a for x in run.iterate(y)]),
    'itertools.product': lambda run, a, k: AList([tuple(x) for x in __import__('itertools').product(*[run.iterate(y) for y in a])]),
    'math.fsum': f_sum, 'np.subtract': lambda run, a, k: run.binop('Sub', a[0], a[1]),
    'np.add': lambda run, a, k: run.binop('Add', a[0], a[1]),
    'np.multiply': lambda run, a, k: run.binop('Mult', a[0], a[1]),
    'np.divide': lambda run, a, k: run.binop('Div', run.f_floatnum(a[0]), a[1]),
    'np.isfinite': lambda run, a, k: not run.truth(f_isnan(run, a, k)),
    'np.square': lambda run, a, k: run.binop('Mult', a[0], a[0]),
    'operator.itemgetter': lambda run, a, k: PyFn('itemgetter', lambda r, x, kw: r.getitem(x[0], a[0])),
    'operator.attrgetter': lambda run, a, k: PyFn('attrgetter', lambda r, x, kw: r.getattr_(x[0], a[0])),
    'np.zeros_like': lambda run, a, k: nplike(run, a[0], 0), 'np.ones_like': lambda run, a, k: nplike(run, a[0], 1),
    'np.full_like': lambda run, a, k: npfill(nplike(run, a[0], 0), run.force(a[1])),
    'np.argwhere': lambda run, a, k: f_argwhere(run, run.force(a[0])),
    'np.clip': lambda run, a, k: f_minmax('min')(run, [f_minmax('max')(run, [a[0], a[1]], {}), a[2]], {}),
    'np.maximum': ewise(lambda run, x, y: f_minmax('max')(run, [x, y], {})),
    'np.minimum': ewise(lambda run, x, y: f_minmax('min')(run, [x, y], {})),
    'np.transpose': lambda run, a, k: AList([AList(list(t), True) for t in zip(*[run.iterate(x) for x in run.iterate(a[0])])], True),
    'np.sign': lambda run, a, k: {'+': 1, '-': -1, '0': 0}[run.sign3(run.tonum(a[0]).p)],
})


# ---------------------------------------------------------------- more numpy over small arrays
def f_cumsum(run, a, k):
    out, t = [], None
    for x in run.iterate(a[0]):
        t = run.force(x) if t is None else run.binop('Add', t, x)
        out.append(t)
    return AList(out, True)


def f_median(run, a, k):
    xs = [run.force(x) for x in run.iterate(a[0])]
    if not xs or any(x is NAN for x in xs):
        return NAN
    xs = sort_items(run, xs)
    n = len(xs)
    if n % 2:
        return xs[n // 2]
    return run.binop('Mult', run.binop('Add', xs[n // 2 - 1], xs[n // 2]), Num(pconst(Fr(1, 2)), False))


def f_var(run, a, k):
    xs = run.iterate(a[0])
    if not xs:
        return NAN
    m = f_mean(run, [AList(xs)], {})
    return f_mean(run, [AList([run.binop('Mult', run.binop('Sub', x, m), run.binop('Sub', x, m)) for x in xs])], {})


def f_logical(which):
    def one(run, x, y):
        if which == 'and':
            return run.truth(x) and run.truth(y)
        if which == 'or':
            return run.truth(x) or run.truth(y)
        return run.truth(x) != run.truth(y)

    def f(run, a, k):
        x, y = run.force(a[0]), run.force(a[1])
        if not isinstance(x, AList) and not isinstance(y, AList):
            return one(run, x, y)
        n = len(x.items if isinstance(x, AList) else y.items)
        xs = x.items if isinstance(x, AList) else [x] * n
        ys = y.items if isinstance(y, AList) else [y] * n
        if len(xs) != len(ys):
            raise PyExc('ValueError', 'shape mismatch')
        return AList([one(run, p, q) for p, q in zip(xs, ys)], True)
    return f


def f_not(run, a, k):
    x = run.force(a[0])
    if isinstance(x, AList):
        return AList([not run.truth(y) for y in x.items], True)
    return not run.truth(x)


EXT.update({
    'np.cumsum': f_cumsum, 'np.median': f_median, 'np.var': f_var,
    'np.std': lambda run, a, k: (lambda v: v if v is NAN else f_sqrt(run, [v], {}))(f_var(run, a, k)),
    'np.flipud': lambda run, a, k: AList(run.iterate(a[0])[::-1], True), 'np.flip': lambda run, a, k: AList(run.iterate(a[0])[::-1], True),
    'np.logical_and': f_logical('and'), 'np.logical_or': f_logical('or'), 'np.logical_xor': f_logical('xor'),
    'np.logical_not': f_not, 'np.count_nonzero': lambda run, a, k: len(f_nonzero(run, [a[0]], {})[0].items),
    'np.flatnonzero': lambda run, a, k: f_nonzero(run, a, k)[0],
})


# ---------------------------------------------------------------- the rest of the library a rewrite may call
def f_copysign(run, a, k):
    x = f_npabs(run, [a[0]], {})
    if x is NAN:
        return NAN
    x = Num(num(x).p, False)
    y = run.tonum(a[1])
    if y is not NAN and run.sign3(y.p) == '-':
        return run.binop('Mult', x, -1)
    return x


def f_modf(run, a, k):
    x = run.tonum(a[0])
    if x is NAN:
        return (NAN, NAN)
    w = run.trunc(x)
    return (run.binop('Sub', Num(x.p, False), w), Num(num(w).p, False))


def f_truncf(run, a, k):
    x = run.tonum(a[0])
    return NAN if x is NAN else Num(num(run.trunc(x)).p, False)


def f_hypot(run, a, k):
    s = 0
    for x in a:
        s = run.binop('Add', s, run.binop('Mult', x, x))
    return f_sqrt(run, [s], {})


def f_dist(run, a, k):
    return f_hypot(run, [run.binop('Sub', p, q) for p, q in zip(run.iterate(a[0]), run.iterate(a[1]))], {})


def f_argmin(run, a, k):
    items = run.iterate(a[0])
    if not items:
        raise PyExc('ValueError')
    b = 0
    for i in range(1, len(items)):
        if run.order('Lt', run.force(items[i]), run.force(items[b])):
            b = i
    return b


def f_argsort(run, a, k):
    items = run.iterate(a[0])
    return AList(sort_items(run, list(range(len(items))), PyFn('key', lambda r, x, kw: items[x[0]])), True)


def f_unique(run, a, k):
    out = []
    for x in sort_items(run, run.iterate(a[0])):
        if not out or not run.eq(x, out[-1]):
            out.append(x)
    return AList(out, True)


def f_prod(run, a, k):
    r = k.get('start', 1)
    for x in run.iterate(a[0]):
        r = run.binop('Mult', r, x)
    return r


def f_groupby(run, a, k):
    key = a[1] if len(a) > 1 else k.get('key')
    out = []
    for x in run.iterate(a[0]):
        y = x if key is None else run.call(key, [x])
        if out and run.eq(out[-1][0], y):
            out[-1][1].items.append(x)
        else:
            out.append((y, AList([x])))
    return AList(out)


def f_accumulate(run, a, k):
    out, t = [], None
    f = a[1] if len(a) > 1 else k.get('func')
    for i, x in enumerate(run.iterate(a[0])):
        t = x if i == 0 else (run.binop('Add', t, x) if f is None else run.call(f, [t, x]))
        out.append(t)
    return AList(out)


def f_islice(run, a, k):
    xs = run.iterate(a[0])
    return AList(xs[slice(*[None if run.force(v) is None else run.concretize(v) for v in a[1:]])])


def f_takewhile(run, a, k):
    out = []
    for x in run.iterate(a[1]):
        if not run.truth(run.call(a[0], [x])):
            break
        out.append(x)
    return AList(out)


def f_dropwhile(run, a, k):
    xs = run.iterate(a[1])
    i = 0
    while i < len(xs) and run.truth(run.call(a[0], [xs[i]])):
        i += 1
    return AList(xs[i:])


def f_zip_longest(run, a, k):
    xs = [run.iterate(y) for y in a]
    n = max(len(x) for x in xs)
    f = k.get('fillvalue')
    return AList([tuple(x[i] if i < len(x) else f for x in xs) for i in range(n)])


def f_pick(name):
    import itertools as it

    def f(run, a, k):
        r = k.get('r', a[1] if len(a) > 1 else None)
        args = [run.iterate(a[0])] + ([run.concretize(r)] if r is not None else [])
        return AList([tuple(x) for x in getattr(it, name)(*args)])
    return f


def f_repeat(run, a, k):
    n = k.get('times', a[1] if len(a) > 1 else None)
    if n is None:
        raise Unsupported('endless itertools.repeat')
    return AList([a[0]] * run.concretize(n))


def f_partial(run, a, k):
    f, args, kws = a[0], list(a[1:]), dict(k)
    return PyFn('partial', lambda r, x, kw: r.call(f, args + list(x), dict(kws, **kw)))


def f_bisect(right):
    def f(run, a, k):
        xs = run.iterate(a[0])
        for i, x in enumerate(xs):
            if run.order('Gt' if right else 'GtE', run.force(x), run.force(a[1])):
                return i
        return len(xs)
    return f


def f_insort(right):
    def f(run, a, k):
        i = f_bisect(right)(run, a, k)
        run.force(a[0]).items.insert(i, a[1])
    return f


def f_counter(run, a, k):
    d = ADict()
    for x in (run.iterate(a[0]) if a else []):
        for i, y in enumerate(d.k):
            if run.eq(x, y):
                d.v[i] = run.binop('Add', d.v[i], 1)
                break
        else:
            run.dict_set(d, x, 1)
    return d


def f_linspace(run, a, k):
    n = run.concretize(a[2] if len(a) > 2 else k.get('num', 50))
    step = run.binop('Mult', run.binop('Sub', a[1], a[0]), Num(pconst(Fr(1, max(n - 1, 1))), False))
    return AList([run.binop('Add', Num(num(a[0]).p, False), run.binop('Mult', step, i)) for i in range(n)], True)


def f_nan(f):
    """the nan-skipping form of a reduction"""
    return lambda run, a, k: f(run, [AList([x for x in run.iterate(a[0]) if not f_isnan(run, [x], {})], True)], {})


def f_roll(run, a, k):
    v = run.force(a[0])
    if not isinstance(v, AList) or len(a) > 2 or k:
        return fnatom('np.roll', tuple(list(a) + [x for y in sorted(k) for x in (y, k[y])]))
    n = len(v.items)
    s = run.concretize(a[1]) % n if n else 0
    return AList(v.items[n - s:] + v.items[:n - s], True)


def elementwise(f):
    def g(run, a, k):
        xs = [run.force(x) for x in a]
        ns = [len(x.items) for x in xs if isinstance(x, AList)]
        if not ns:
            return f(run, xs, k)
        if any(n != ns[0] for n in ns):
            raise Unsupported('broadcast')
        return AList([g(run, [x.items[i] if isinstance(x, AList) else x for x in xs], k) for i in range(ns[0])], True)
    return g


def f_cmp(op):
    return lambda run, a, k: run.compare(op, a[0], a[1])


EXT.update({
    'math.copysign': f_copysign, 'np.copysign': elementwise(f_copysign), 'math.modf': f_modf, 'np.modf': f_modf,
    'np.trunc': elementwise(f_truncf), 'np.fix': elementwise(f_truncf), 'np.hypot': elementwise(f_hypot), 'math.hypot': f_hypot, 'math.dist': f_dist,
    'np.argmin': f_argmin, 'np.argsort': f_argsort, 'np.unique': f_unique, 'np.prod': f_prod, 'math.prod': f_prod,
    'itertools.groupby': f_groupby, 'itertools.accumulate': f_accumulate, 'itertools.islice': f_islice,
    'itertools.takewhile': f_takewhile, 'itertools.dropwhile': f_dropwhile,
    'itertools.zip_longest': f_zip_longest, 'itertools.izip_longest': f_zip_longest,
    'itertools.combinations': f_pick('combinations'), 'itertools.permutations': f_pick('permutations'),
    'itertools.pairwise': lambda run, a, k: (lambda xs: AList(list(zip(xs, xs[1:]))))(run.iterate(a[0])),
    'itertools.repeat': f_repeat, 'itertools.chain.from_iterable': lambda run, a, k: AList([x for y in run.iterate(a[0]) for x in run.iterate(y)]),
    'itertools.izip': EXT['builtins.zip'], 'itertools.imap': EXT['builtins.map'], 'itertools.ifilter': EXT['builtins.filter'],
    'itertools.starmap': lambda run, a, k: AList([run.call(a[0], list(run.iterate(x))) for x in run.iterate(a[1])]),
    'itertools.filterfalse': lambda run, a, k: AList([x for x in run.iterate(a[1]) if not run.truth(run.call(a[0], [x]))]),
    'itertools.compress': lambda run, a, k: AList([x for x, y in zip(run.iterate(a[0]), run.iterate(a[1])) if run.truth(y)]),
    'functools.partial': f_partial,
    'bisect.bisect': f_bisect(True), 'bisect.bisect_right': f_bisect(True), 'bisect.bisect_left': f_bisect(False),
    'bisect.insort': f_insort(True), 'bisect.insort_right': f_insort(True), 'bisect.insort_left': f_insort(False),
    'np.searchsorted': lambda run, a, k: f_bisect(k.get('side', 'left') == 'right')(run, a, {}),
    'collections.Counter': f_counter, 'collections.deque': EXT['builtins.list'],
    'statistics.mean': f_mean, 'statistics.median': f_median, 'statistics.fmean': f_mean,
    'np.linspace': f_linspace, 'np.nanmean': f_nan(f_mean), 'np.nansum': f_nan(f_npsum), 'np.nanmedian': f_nan(f_median),
    'np.nanmax': f_nan(f_minmax('max')), 'np.nanmin': f_nan(f_minmax('min')), 'np.nanstd': f_nan(EXT['np.std']),
    'np.roll': f_roll, 'np.ptp': lambda run, a, k: run.binop('Sub', f_minmax('max')(run, [a[0]], {}), f_minmax('min')(run, [a[0]], {})),
    'np.negative': elementwise(lambda run, a, k: run.binop('Mult', a[0], -1)),
    'np.float_power': f_pow, 'np.log10': lambda run, a, k: fnatom('math.log10', (run.tonum(a[0]),)),
    'np.dot': lambda run, a, k: f_sum(run, [AList([run.binop('Mult', x, y) for x, y in zip(run.iterate(a[0]), run.iterate(a[1]))])], {}),
    'math.isinf': lambda run, a, k: False, 'np.isinf': elementwise(lambda run, a, k: False),
    'math.isfinite': lambda run, a, k: not run.truth(f_isnan(run, a, k)),
    'operator.neg': lambda run, a, k: run.binop('Mult', a[0], -1), 'operator.not_': lambda run, a, k: not run.truth(a[0]),
    'operator.abs': f_npabs, 'operator.truth': lambda run, a, k: run.truth(a[0]),
    'operator.contains': lambda run, a, k: run.compare('In', a[1], a[0]),
    'operator.getitem': lambda run, a, k: run.getitem(a[0], a[1]),
    'operator.and_': lambda run, a, k: run.binop('BitAnd', a[0], a[1]), 'operator.or_': lambda run, a, k: run.binop('BitOr', a[0], a[1]),
})
for _n, _o in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mult'), ('truediv', 'Div'), ('floordiv', 'FloorDiv'), ('mod', 'Mod'), ('pow', 'Pow')):
    EXT['operator.' + _n] = lambda run, a, k, o=_o: run.binop(o, a[0], a[1])
for _n, _o in (('lt', 'Lt'), ('le', 'LtE'), ('gt', 'Gt'), ('ge', 'GtE'), ('eq', 'Eq'), ('ne', 'NotEq'), ('is_', 'Is'), ('is_not', 'IsNot')):
    EXT['operator.' + _n] = f_cmp(_o)
for _n, _o in (('less', 'Lt'), ('less_equal', 'LtE'), ('greater', 'Gt'), ('greater_equal', 'GtE'), ('equal', 'Eq'), ('not_equal', 'NotEq')):
    EXT['np.' + _n] = f_cmp(_o)
