"""Writing IMMA records: the writer is interpreted over records with unknown values; the line it writes is compared,
field by field, with an independent table of the record layout."""
from ..equiv import *
from .. import imma as I
from ..text import Field, cells, text
from ..models import Piece, str_meth, printf


def unit_value(att, f, free):
    """(value in the record, whole number of units expected on the line)"""
    if not free:
        k = I.symbol(att, f)
        return I.scaled(k, f), lambda run: k
    lo, hi = (0, 35) if f.enc == 'b' else (-10 ** (f.width - 1) + 1, 10 ** f.width - 1)
    v = real('value', lo=Fr(lo, f.units), hi=Fr(hi, f.units))
    return v, lambda run: run.floor(Num(padd(pscale(v.p, f.units), pconst(Fr(1, 2))), False))


def value(att, f, w=None, free=False):
    if f.enc == 'c':
        w = w or f.width or 7
        t = text(cells(Field('a%d.%s' % (att, f.name), w)))
        return t, lambda run: t.formatted(run, True, f.width or w)
    v, k = unit_value(att, f, free)

    def out(run):
        n = k(run)
        if f.enc == 'b':
            n = run.getitem(I.ALPHA, n)
            return n
        return printf(run, '%%%dd' % f.width, n)
    return v, out


def expected(run, atts, vals):
    parts = []
    for a in atts:
        parts.append(I.header(a))
        for f in I.fields(a):
            v = vals.get((a, f.name))
            parts.append(' ' * (f.width or 1) if v is None else v[1](run))
    return parts


def lines(atts, present, w=None, free=False):
    def vals():
        return {(a, f.name): value(a, f, w, free) for a in atts for i, f in enumerate(I.fields(a)) if present(a, i, f)}

    def impl(run, a, k):
        rec = run.call(run.module('IMMA1').ns['IMMA'], [])
        vs = vals()
        for a_ in atts:
            for f in I.fields(a_):
                run.call_method(rec, '__setitem__', [f.name, vs[(a_, f.name)][0] if (a_, f.name) in vs else None])
        rec.attrs['attachments'] = AList(list(atts))
        out = []

        def write(run, a, k):
            out.append(a[0])
            return None
        fh = AObj(None, 'file')
        fh.attrs['write'] = PyFn('write', write)
        r = run.call_method(rec, 'write', [fh])
        from ..interp import mkstr
        return (r, canon(run, mkstr(out)))

    def ref(run, a, k):
        return (1, canon(run, mkstr(expected(run, atts, vals()) + ['\n'])))
    return impl, ref


def canon(run, s):
    """the pieces of a line, blanks at the end aside; a line ends with a line feed"""
    parts = list(s.parts) if isinstance(s, S) else [s]
    while parts and isinstance(parts[-1], Opq) and getattr(parts[-1], 'of', None):
        break
    nl = False
    if isinstance(parts[-1], str) and parts[-1].endswith('\n'):
        nl = True
        parts[-1] = parts[-1][:-1]
    out = []
    for p in parts:
        if getattr(p, 'istext', False):
            for g in p.groups():
                out.append(g if isinstance(g, str) else text([(g[0], i) for i in range(g[1], g[2])]))
        else:
            out.append(p)
    merged = []
    for p in out:
        if isinstance(p, str) and merged and isinstance(merged[-1], str):
            merged[-1] += p
        elif p != '':
            merged.append(p)
    while merged and isinstance(merged[-1], str):
        merged[-1] = merged[-1].rstrip(' ')
        if merged[-1]:
            break
        merged.pop()
    return (nl, AList(merged))


def check(c):
    c.batch()

    def one(name, *a, **k):
        impl, ref = lines(*a, **k)
        cfg = Config()
        cfg.overrides['spec_any.anything'] = ref
        c.equiv('IMMA1.IMMA.write', 'any.anything', lambda r: [], cfg=cfg, call=impl, spec_mk=lambda r: [], name=name)
    every = lambda a, i, f: True
    atts = sorted(x for x in I.TABLE if x not in (97,))
    for a in atts:
        seq = [0, a] if a else [0]
        one('attachments %s, every field present' % seq, seq, every)
        one('attachments %s, short text' % seq, seq, every, w=1)
        one('attachments %s, all fields of the last missing' % seq, seq, lambda x, i, f, a=a: x != a)
        one('attachments %s, no fields' % seq, seq, lambda x, i, f: False)
        for j, f in enumerate(I.fields(a)):
            one('attachments %s, all but %s' % (seq, f.name), seq, lambda x, i, f, a=a, j=j: x != a or i != j)
            if f.enc == 'd' and f.width and a != 99:
                one('attachments %s, only %s, any value' % (seq, f.name), seq, lambda x, i, f, a=a, j=j: x == a and i == j, free=True)
    for seq in ([0, 1, 5, 98], [0, 1, 5, 96, 98], [0, 1, 5, 6, 7, 98, 99], [0, 1, 5, 8, 98], [0, 1, 8, 9, 95, 98]):
        one('attachments %s' % seq, seq, every)
        one('attachments %s, alternate' % seq, seq, lambda a, i, f: i % 2 == 0)
    c.flush()
    c.need(len(c.instances), 400, 'instances')
