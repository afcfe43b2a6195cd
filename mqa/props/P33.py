"""Reading IMMA records: the reader is interpreted over records of known length whose fields are unknown; what it
stores for every field is compared with an independent table of the record layout."""
from ..equiv import *
from .. import imma as I
from ..text import text


def pattern(atts, present, cut=None, how='readstr', end='\n', blank99=None):
    def line():
        cs, want = I.record(atts, present, cut)
        if blank99:
            i = ''.join(c if isinstance(c, str) else '?' for c in cs).index('99 0')
            cs[i:i + 4] = list(blank99)
        return text(cs + list(end)), want

    def impl(run, a, k):
        m = run.module('IMMA1')
        ln = line()[0]
        given = [0]

        def readline(run, a, k):
            given[0] += 1
            return ln if given[0] == 1 else ''
        fh = AObj(None, 'file')
        fh.attrs['readline'] = PyFn('readline', readline)
        if how == 'module':
            rec, r = run.call(lookup(run, 'IMMA1.read'), [fh]), 1
        else:
            rec = run.call(m.ns['IMMA'], [])
            r = run.call_method(rec, 'readstr', [ln]) if how == 'readstr' else run.call_method(rec, 'read', [fh])
        got = []
        for a_ in sorted(set(atts)):
            for f in I.fields(a_):
                got.append((f.name, run.call_method(rec, '__getitem__', [f.name]), run.getitem(rec.attrs['data'], f.name)))
        return AList([r, rec.attrs['attachments'], len(rec.attrs['data'].k)] + got)

    def ref(run, a, k):
        want = line()[1]
        out = []
        for a_ in sorted(set(atts)):
            for f in I.fields(a_):
                out.append((f.name, want[f.name], want[f.name]))
        return AList([1, AList(list(atts)), len(want)] + out)
    return impl, ref


def check(c):
    c.batch()

    def one(name, *a, **k):
        impl, ref = pattern(*a, **k)
        cfg = Config()
        cfg.overrides['spec_any.anything'] = ref
        c.equiv('IMMA1.IMMA.readstr', 'any.anything', lambda r: [], cfg=cfg, call=impl, spec_mk=lambda r: [], name=name)
    every = lambda a, i, f: True
    none = lambda a, i, f: False
    atts = sorted(x for x in I.TABLE if x not in (97,))
    for a in atts:
        seq = [0, a] if a else [0]
        one('attachments %s, every field present' % seq, seq, every)
        if a != 99:
            one('attachments %s, all fields of the last blank' % seq, seq, lambda x, i, f, a=a: x != a)
        n = len(I.fields(a))
        for j in range(n):
            f = I.fields(a)[j]
            one('attachments %s, all but %s' % (seq, f.name), seq, lambda x, i, f, a=a, j=j: x != a or i != j)
            one('attachments %s, only %s' % (seq, f.name), seq, lambda x, i, f, a=a, j=j: x == a and i == j)
            if f.width is not None and j < n - 1 and a != 99:
                one('attachments %s, cut after %s' % (seq, f.name), seq, every, cut=j)
    for seq in ([0, 1, 5, 98], [0, 1, 5, 96, 96, 98], [0, 1, 5, 6, 7, 98, 99], [0, 1, 5, 8, 98], [0, 1, 8, 9, 95, 98], [0, 1, 2, 3, 4, 99]):
        for nm, p in (('present', every), ('alternate', lambda a, i, f: i % 2 == 0), ('alternate', lambda a, i, f: i % 2 == 1 or f.width is None)):
            one('attachments %s, %s' % (seq, nm), seq, p)
    for end in ('', '\n'):
        for how in ('readstr', 'read', 'module'):
            one('%s with line end %r' % (how, end), [0, 1, 98], every, how=how, end=end)
    one('attachments [0, 97], every field present', [0, 97], every)
    one('length of attachment 99 blank', [0, 99], every, blank99='99  ')

    # the end of the file
    def impl(run, a, k):
        rec = run.call(run.module('IMMA1').ns['IMMA'], [])
        fh = AObj(None, 'file')
        fh.attrs['readline'] = PyFn('readline', lambda run, a, k: '')
        r = run.truth(run.call_method(rec, 'read', [fh]))
        return (r, rec.attrs['attachments'], len(rec.attrs['data'].k))
    cfg = Config()
    cfg.overrides['spec_any.anything'] = lambda run, a, k: (False, AList([]), 0)
    c.equiv('IMMA1.IMMA.read', 'any.anything', lambda r: [], cfg=cfg, call=impl, spec_mk=lambda r: [], name='end of file')
    c.flush()
    c.need(len(c.instances), 500, 'instances')
