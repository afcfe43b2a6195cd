"""Sequences of up to two flag assignments followed by a query are interpreted on a report with arbitrary
earlier flags, for every flag type (known or unknown) and every value, and compared with a dictionary
model; deck- and voyage-level setters are shown to reach exactly the reports they should."""
from ..equiv import *
from .. import report as R


def check(c):
    c.batch()
    types = lambda run: R.varlist(run) + ['POS', 'XYZ', '']
    ops_n = 2

    def mk(n):
        def f(r):
            ts = types(r)
            before = [('SSTa', Lazy('old', [0, 1, 9])), ('POSpos', 1)]
            rep = R.report(r, flags=dict(before))
            ops = []
            for i in range(n):
                t = Lazy('type%d' % i, ts if n == 1 else ['SST', 'POS', 'XYZ'])
                ops.append((t, Lazy('flag%d' % i, ['a', 'pos']) if n > 1 else 'a', integer('v%d' % i) if n == 1 else Lazy('v%d' % i, [0, 9, 10])))
            ask = (Lazy('asktype', ['SST', 'AT', 'POS']), Lazy('askflag', ['a', 'b', 'pos']))
            return rep, before, ops, ask
        return f
    for n in (0, 1, 2):
        m = mk(n)

        def impl(run, a, k, m=m):
            rep, before, ops, ask = a
            for t, f, v in ops:
                run.call_method(rep, 'set_qc', [t, f, v])
            return run.call_method(rep, 'get_qc', list(ask))
        c.equiv('Extended_IMMA.MarineReport.set_qc', 'rep.flag_store', lambda r, m=m: list(m(r)), call=impl,
                spec_mk=lambda r, m=m: [ADict(m(r)[1]), AList(m(r)[2]), m(r)[3]],
                observe=lambda run, a, res: a[0].attrs['qc'], spec_observe=lambda run, a, res: res[1], values=False,
                name='flag table after %d assignments' % n)
        c.equiv('Extended_IMMA.MarineReport.get_qc', 'rep.flag_store', lambda r, m=m: list(m(r)),
                call=impl, spec_mk=lambda r, m=m: [ADict(m(r)[1]), AList(m(r)[2]), m(r)[3]],
                observe=lambda run, a, res: res, spec_observe=lambda run, a, res: res[0], values=False,
                name='flag read after %d assignments' % n)
    # setters of a deck and of a voyage
    for klass in ('Deck', 'Voyage'):
        for n in range(0, 4):
            for pos in range(0, n if klass == 'Voyage' else 1):
                def mkc(r, n=n, klass=klass):
                    o = r.call(R.cls(r, klass), [])
                    reps = [R.report(r, prefix='r%d' % i, flags={'SSTa': 7}) for i in range(n)]
                    o.attrs['reps'] = AList(reps)
                    return [o, AList(reps)]

                def implc(run, a, k, klass=klass, pos=pos):
                    args = ['SST', 'a', 3]
                    run.call_method(a[0], 'set_qc', ([pos] if klass == 'Voyage' else []) + args)
                    return AList([run.call_method(x, 'get_qc', ['SST', 'a']) for x in a[1].items])
                want = lambda r, n=n, pos=pos, klass=klass: [AList([3 if klass == 'Deck' or i == pos else 7 for i in range(n)])]
                c.equiv('Extended_IMMA.%s.set_qc' % klass, 'any.same', mkc, call=implc, spec_mk=want,
                        name='%s.set_qc of %d reports%s' % (klass, n, ', position %d' % pos if klass == 'Voyage' else ''))
    c.flush()
    c.need(len(c.instances), 15, 'instances')
