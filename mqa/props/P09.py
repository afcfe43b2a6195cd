"""QC filters with up to three conditions (thorough: four) over reports whose flags are set to any value
or not set, and the splitting of decks of up to four reports, are interpreted and compared with a reference."""
from ..equiv import *
from .. import report as R


def check(c):
    c.batch()
    conds = [('SST', 'a'), ('POS', 'b'), ('SST', 'b'), ('POS', 'a')]
    for n in range(0, 5 if c.thorough() else 4):
        def mk(r, n=n):
            fl = {}
            for i, (t, f) in enumerate(conds[:n]):
                fl[t + f] = integer('flag%d' % i, lo=0, hi=9)
            unset = [Lazy('unset%d' % i, [True, False]) for i in range(n)]
            keep = ADict([(k, v) for (k, v), u in zip(fl.items(), unset) if not r.truth(r.force(u))])
            rep = R.report(r, flags={})
            rep.attrs['qc'] = keep
            return [rep, keep, AList([(t, f, integer('want%d' % i, lo=0, hi=9)) for i, (t, f) in enumerate(conds[:n])])]

        def impl(run, a, k):
            q = run.call(R.cls(run, 'QC_filter'), [])
            for t, f, v in a[2].items:
                run.call_method(q, 'add_qc_filter', [t, f, v])
            return run.call_method(q, 'test_report', [a[0]])
        c.equiv('Extended_IMMA.QC_filter.test_report', 'rep.passes', mk, call=impl, spec_mk=lambda r, mk=mk: mk(r)[1:],
                name='filter of %d conditions' % n)
    for n in range(0, 5):
        def mk(r, n=n):
            return [AList([R.report(r, prefix='r%d' % i, ident='r%d' % i, flags={'SSTa': Lazy('fl%d' % i, [0, 1])})
                           for i in range(n)])]

        def impl(run, a, k):
            d = run.call(R.cls(run, 'Deck'), [])
            for x in a[0].items:
                run.call_method(d, 'append', [x])
            q = run.call(R.cls(run, 'QC_filter'), [])
            run.call_method(q, 'add_qc_filter', ['SST', 'a', 0])
            good, bad = run.call_method(q, 'split_reports', [d])
            return tuple(AList([x.ident for x in run.iterate(o.attrs['reps'])]) for o in (good, bad))
        c.equiv('Extended_IMMA.QC_filter.split_reports', 'rep.split', mk, call=impl,
                spec_mk=lambda r, n=n: [AList(['r%d' % i for i in range(n)]), AList([Lazy('fl%d' % i, [0, 1]) for i in range(n)])],
                name='splitting %d reports' % n)
    c.flush()
    c.need(len(c.instances), 8, 'instances')
