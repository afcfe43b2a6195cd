"""Decks of up to four (thorough: five) reports with arbitrary identifiers and filter results: appending,
removing, sorting and grouping by identifier are interpreted and compared with reference definitions of
grouping and stable sorting; voyages likewise are sorted by time; the comparison operators of reports are
compared with their definition."""
from ..equiv import *
from .. import report as R


def quiet():
    cfg = Config()
    cfg.overrides['Extended_IMMA.MarineReport.__sub__'] = lambda run, a, k: (1, 1, 1, 1)
    return cfg


def reps(r, n):
    return [R.report(r, prefix='r%d' % i, ident='r%d' % i, flags={'SSTa': Lazy('fl%d' % i, [0, 1])}) for i in range(n)]


def deck(run, rs):
    d = run.call(R.cls(run, 'Deck'), [])
    for x in rs:
        run.call_method(d, 'append', [x])
    return d


def groups(run, d):
    return AList([AList([x.ident for x in run.iterate(run.call_method(v, 'rep_feed', []))])
                  for v in run.iterate(run.call_method(d, 'get_one_platform_at_a_time', []))])


def check(c):
    c.batch()
    N = 6 if c.thorough() else 5
    ids = lambda n: AList([Opq('r%dID' % i, kind='str') for i in range(n)])
    names = lambda n: AList(['r%d' % i for i in range(n)])
    times = lambda n: AList([Opq('r%ddt' % i, kind='time') for i in range(n)])
    fl = lambda n, f: AList([Lazy('fl%d' % i, [0, 1]) if f else 0 for i in range(n)])

    def filt(run, d):
        q = run.call(R.cls(run, 'QC_filter'), [])
        run.call_method(q, 'add_qc_filter', ['SST', 'a', 0])
        run.call_method(d, 'add_filter', [q])
    for n in range(0, N):
        for f in ((False, True) if n < 5 else (False,)):
            def impl(run, a, k, f=f):
                d = deck(run, a[0].items)
                if f:
                    filt(run, d)
                return groups(run, d)
            c.equiv('Extended_IMMA.Deck.get_one_platform_at_a_time', 'rep.platforms', lambda r, n=n: [AList(reps(r, n))],
                    cfg=quiet(), call=impl, spec_mk=lambda r, n=n, f=f: [names(n), ids(n), fl(n, f)],
                    name='grouping %d reports%s' % (n, ' with a filter' if f else ''))
    for n in range(1, 4):
        for pos in range(0, n):
            def impl(run, a, k, pos=pos):
                d = deck(run, a[0].items)
                x = run.call_method(d, 'pop', [pos] if pos else [])
                return (x.ident, groups(run, d))
            keep = lambda xs, pos: AList([x for i, x in enumerate(xs.items) if i != pos])
            c.equiv('Extended_IMMA.Deck.pop', 'rep.after_pop', lambda r, n=n: [AList(reps(r, n))], cfg=quiet(), call=impl,
                    spec_mk=lambda r, n=n, pos=pos: ['r%d' % pos, keep(names(n), pos), keep(ids(n), pos), AList([0] * (n - 1))],
                    name='grouping after removing report %d of %d' % (pos, n))
    for n in range(0, 4):
        def impl(run, a, k):
            d = deck(run, a[0].items)
            run.call_method(d, 'sort', [])
            return (AList([x.ident for x in run.iterate(d.attrs['reps'])]), groups(run, d))
        c.equiv('Extended_IMMA.Deck.sort', 'rep.sorted_groups', lambda r, n=n: [AList(reps(r, n))], cfg=quiet(), call=impl,
                spec_mk=lambda r, n=n: [names(n), ids(n), times(n), AList([0] * n)], name='sorting a deck of %d' % n)

        def implv(run, a, k):
            v = run.call(R.cls(run, 'Voyage'), [])
            for x in a[0].items:
                run.call_method(v, 'add_report', [x])
            run.call_method(v, 'sort', [])
            out = [x.ident for x in run.iterate(run.call_method(v, 'rep_feed', []))]
            size = run.call_method(v, '__len__', [])
            return (AList(out), size)

        def mkv(r, n=n):
            rs = reps(r, n)
            for x in rs:
                x.attrs['id'] = Opq('oneID', kind='str')
            return [AList(rs)]
        c.equiv('Extended_IMMA.Voyage.sort', 'rep.sorted_names', mkv, cfg=quiet(), call=implv,
                spec_mk=lambda r, n=n: [names(n), AList([Opq('oneID', kind='str')] * n), times(n)], name='sorting a voyage of %d' % n)
    for op, meth in (('eq', '__eq__'), ('gt', '__gt__'), ('ge', '__ge__'), ('le', '__le__')):
        def impl(run, a, k, meth=meth):
            return run.truth(run.call_method(a[0], meth, [a[1]]))

        def mk(r, op=op):
            out = reps(r, 2)
            for i, x in enumerate(out):
                x.attrs['dt'] = Lazy('dt%d' % i, [None, Opq('r%ddt' % i, kind='time')]) if op in ('eq', 'gt') else Opq('r%ddt' % i, kind='time')
            return out
        c.equiv('Extended_IMMA.MarineReport.' + meth, 'rep.compare', mk, call=impl,
                spec_mk=lambda r, mk=mk, op=op: [x.attrs[k] for x in mk(r) for k in ('id', 'dt')] + [op],
                name='report comparison ' + op)
    c.flush()
    c.need(len(c.instances), 25, 'instances')
