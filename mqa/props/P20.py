"""Voyages of up to four (thorough: five) reports at arbitrary places and times are built, sorted and queried
by interpreting the source; distance, course and time difference between two reports are uninterpreted
functions (decided by P19 and P21), so every pair used must be the right pair in the right order."""
from ..equiv import *
from .. import report as R
from .. import voyage as V

NAMES = ['speed', 'course', 'distance', 'time_diff']


def check(c):
    c.batch()
    N = 6 if c.thorough() else 5
    c.equiv('Extended_IMMA.MarineReport.__sub__', 'voy.difference',
            lambda r: V.reps(r, 2, lons=[real('lon0', lo=-180, hi=360), real('lon1', lo=-180, hi=360)]),
            cfg=V.config(True), call=lambda run, a, k: run.call_method(a[0], '__sub__', [a[1]]),
            spec_mk=lambda r: [V.place(i, real('lon%d' % i, lo=-180, hi=360)) for i in range(2)], name='difference of two reports')
    for n in range(0, N):
        miss = n < 4

        def impl(run, a, k):
            v = V.voyage(run, a)
            return AList([V.ext(run, x, NAMES) for x in run.iterate(run.call_method(v, 'rep_feed', []))])
        c.equiv('Extended_IMMA.Voyage.add_report', 'voy.steps', lambda r, n=n: V.reps(r, n), cfg=V.config(miss), call=impl,
                spec_mk=lambda r, n=n: [V.places(n)], name='speeds along a voyage of %d' % n)

        def impla(run, a, k):
            v = V.voyage(run, a)
            run.call_method(v, 'calc_alternate_speeds', [])
            return AList([V.ext(run, x, ['alt_' + q for q in NAMES]) for x in a])
        c.equiv('Extended_IMMA.Voyage.calc_alternate_speeds', 'voy.alternate', lambda r, n=n: V.reps(r, n), cfg=V.config(miss),
                call=impla, spec_mk=lambda r, n=n: [V.places(n)], name='alternate speeds along a voyage of %d' % n)
        c.equiv('Extended_IMMA.Voyage.meansp', 'voy.mean_speed', lambda r, n=n: V.reps(r, n), cfg=V.config(miss),
                call=lambda run, a, k: run.call_method(V.voyage(run, a), 'meansp', []),
                spec_mk=lambda r, n=n: [V.places(n)], name='mean speed of a voyage of %d' % n)
        if n < 4:
            def impls(run, a, k):
                v = V.voyage(run, a)
                run.call_method(v, 'sort', [])
                rs = run.iterate(run.call_method(v, 'rep_feed', []))
                ids = ['r%d' % i for i in range(len(rs))]
                return (AList([ids.index(x.ident) for x in rs]), AList([V.ext(run, x, NAMES) for x in rs]))
            c.equiv('Extended_IMMA.Voyage.sort', 'voy.sorted_steps', lambda r, n=n: V.reps(r, n), cfg=V.config(n < 3),
                    call=impls, spec_mk=lambda r, n=n: [V.places(n), AList([Opq('dt%d' % i, kind='time') for i in range(n)])],
                    name='speeds after sorting a voyage of %d' % n)
            c.equiv('Extended_IMMA.Voyage.predict_next_point', 'voy.predict', lambda r, n=n: V.reps(r, n), cfg=V.config(True),
                    call=lambda run, a, k: run.call_method(V.voyage(run, a), 'predict_next_point', [real('ahead')]),
                    spec_mk=lambda r, n=n: [V.places(n), real('ahead')], name='predicted point of a voyage of %d' % n)
    c.flush()
    c.need(len(c.instances), 18, 'instances')
