"""The MDS buddy check is interpreted over decks of up to three (thorough: four) observations in boxes near to and far
from each other, with unknown anomalies, spreads (missing and negative included) and filter verdicts; the limits
stored for each box and the verdicts are compared with the reference definition; the multiplier for every number of
observations is compared separately."""
from ..equiv import *
from .. import buddy as B
from .. import report as R

NB = [(180, 89, 0), (181, 89, 0), (180, 91, 72), (183, 85, 40)]
CLOSE = [(180, 89, 0), (181, 89, 0), (180, 90, 72)]
LIM = [[1, 1, 2], [2, 2, 2], [1, 1, 4], [2, 2, 4]]


def deck(run, n, var, boxes):
    """reports in boxes; the anomaly is value minus climatology; the deck filter asks for a flag of unknown value"""
    d = run.call(R.cls(run, 'Deck'), [])
    q = run.call(R.cls(run, 'QC_filter'), [])
    run.call_method(q, 'add_qc_filter', ['POS', 'day', 0])
    run.call_method(d, 'add_filter', [q])
    for i in range(n):
        lat, lon, m, dy = boxes(i)
        rep = R.report(run, prefix='r%d' % i, values={'LAT': lat, 'LON': lon, 'YR': 2000, 'MO': m, 'DY': dy, var: real('x%d' % i)},
                       flags={'POSday': Lazy('fail%d' % i, [0, 1]), var + 'bud': Lazy('bud%d' % i, [9, 0, 1]), var + 'bbud': Lazy('bbud%d' % i, [9, 0, 1])}, clim=(var,))
        rep.attrs['climate_variables'].v[0].attrs['clim'] = real('n%d' % i)
        run.call_method(d, 'append', [rep])
    return d


def obs(n, boxes):
    return [boxes(i) + (norm_diff(i),) for i in range(n)]


def norm_diff(i):
    return Num(padd(real('x%d' % i).p, real('n%d' % i).p, -1), False)


def verdicts(n):
    return AList([Lazy('fail%d' % i, [0, 1]) for i in range(n)])


def check(c):
    c.batch()
    for n in (1, 2, 3, 4):
        L = lambda n=n: [AList([integer('l%d' % i) for i in range(n)]), AList([real('m%d' % i) for i in range(n)])]
        c.equiv('Extended_IMMA.get_threshold_multiplier', 'buddy.multiplier', lambda r, L=L: [integer('total', lo=0)] + L(),
                name='multiplier, %d limits' % n)
    c.equiv('Extended_IMMA.get_threshold_multiplier', 'buddy.multiplier',
            lambda r: [integer('total', lo=0), AList([0, 5]), AList([real('m0')])], name='multiplier, unequal lists')
    pairs = [([180, 89, 0], b) for b in [(181, 89, 2), (178, 91, 2), (181, 88, 69), (182, 87, 69), (180, 89, 5), (183, 89, 0), (180, 89, 0)]]
    edges = [([180, 89, 0], b) for b in [(181, 90, 4), (182, 89, 3), (180, 91, 3), (182, 91, 4), (183, 89, 4), (180, 92, 1), (182, 91, 5)]]
    fixed = lambda: ([AList([0, integer('t1', lo=1)]) for _ in LIM], [AList([real('m%d' % i, lo=0, lo_open=True), real('k%d' % i, lo=0, lo_open=True)]) for i in range(4)])
    for meth, spec in (('get_buddy_limits_with_parameters', 'buddy_limits'), ('get_buddy_limits', 'old_buddy_limits')):
        for a, b in pairs + edges:
            for dup in (0, 1, 6) if (a, b) in pairs else (6,):
                o = lambda a=a, b=b, dup=dup: [B.centre(a) + (real('a0'),)] + [B.centre(b) + (real('b%d' % i),) for i in range(1 + dup)]

                def impl(run, args, k, meth=meth, o=o):
                    g = B.grid(run, o())
                    t, m = fixed()
                    extra = [AList([AList(x) for x in LIM]), AList(t), AList(m)] if meth != 'get_buddy_limits' else []
                    run.call_method(g, meth, [B.field('stdev')] + extra)
                    return B.read_limits(run, g, o())

                def smk(r, o=o, spec=spec):
                    t, m = fixed()
                    return [AList(o()), B.field('stdev')] + ([AList([AList(x) for x in LIM]), AList(t), AList(m)] if spec == 'buddy_limits' else [])
                if dup and spec != 'old_buddy_limits' and b != (181, 89, 2) and (a, b) in pairs:
                    continue
                c.equiv('Extended_IMMA.Np_Super_Ob.' + meth, 'buddy.' + spec, lambda r: [], cfg=B.config(), call=impl, spec_mk=smk,
                        name='%s: %s and %d more at %s' % (meth, tuple(a), dup + 1, b))
    N = 3
    deep = c.thorough()
    for var in ('SST', 'AT', 'DPT', 'SLP'):
        for n in range(0, N + 1):
            if n > 1 and var != 'AT' and (n > 2 or not deep):
                continue
            boxes = lambda i, n=n: B.pick('box%d' % i, (NB if n < 3 or deep else CLOSE) if i else NB[:1])
            lim = [LIM[0], LIM[3]] if n < 3 or deep else [[1, 0, 0], [0, 1, 1]]
            any_ = n < 2 or var == 'AT' and n < 3

            def par():
                return [AList([AList([0, 1]), AList([0])]), AList([AList([real('m0', lo=0, lo_open=True), real('m1', lo=0, lo_open=True)]),
                                                                   AList([real('k0', lo=0, lo_open=True)])])]

            def impl(run, args, k, var=var, n=n, boxes=boxes, lim=lim, any_=any_):
                d = deck(run, n, var, boxes)
                t, m = par()
                run.call_method(d, 'mds_buddy_check', [var, B.field('stdev', any_),
                                ADict([('limits', AList([AList(x) for x in lim])), ('number_of_obs_thresholds', t), ('multipliers', m)])])
                return AList([run.call_method(x, 'get_qc', [var, 'bud']) for x in run.iterate(d.attrs['reps'])])
            c.equiv('Extended_IMMA.Deck.mds_buddy_check', 'buddy.mds_check', lambda r: [], cfg=B.config(), call=impl,
                    spec_mk=lambda r, n=n, boxes=boxes, lim=lim, any_=any_: [AList(obs(n, boxes)), verdicts(n), B.field('stdev', any_),
                                                                  AList([AList(x) for x in lim])] + par(),
                    name='%s, %d observations' % (var, n))
    c.flush()
    c.need(len(c.instances), 40, 'instances')
