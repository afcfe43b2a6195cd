"""Drifting-buoy position checks: aground and excess-speed checks are interpreted over records of up to
four (thorough: five) reports at arbitrary places and non-decreasing times with missing values, for all
parameters, and compared with their reference definitions; distances are uninterpreted."""
from ..equiv import *
from .. import report as R
from .. import voyage as V


def steps(n, miss):
    out = []
    for i in range(n):
        d = real('gap%d' % i) if miss else real('gap%d' % i, lo=0)
        out.append(Lazy('gap%d' % i, [d, None]) if miss else d)
    return out


def where(n, miss, fixed=None):
    lat = [real('lat%d' % i, lo=-90, hi=90) for i in range(n)]
    lon = [real('lon%d' % i, lo=-180, hi=180) for i in range(n)]
    if fixed == 'lat':
        lat = [real('lat', lo=-90, hi=90)] * n
    if fixed == 'lon':
        lon = [real('lon', lo=-180, hi=180)] * n
    if miss:
        lat = [Lazy('lat%d' % i, [x, NAN]) for i, x in enumerate(lat)]
        lon = [Lazy('lon%d' % i, [x, NAN]) for i, x in enumerate(lon)]
    return lat, lon


def record(r, n, miss, fixed=None):
    lat, lon = where(n, miss, fixed)
    rs = V.reps(r, n, values=lambda i: {'LAT': lat[i], 'LON': lon[i], 'PT': 7},
                flags={'POSdrf_agr': 9, 'POSdrf_spd': 9, 'POSiquam_track': 9})
    for x, d in zip(rs[0:], steps(n, miss)):
        r.dict_set(x.attrs['ext'], 'time_diff', d)
    return rs


def spec_record(n, miss, fixed=None):
    lat, lon = where(n, miss, fixed)
    return [AList([R.none_for_nan(x) for x in lat]), AList([R.none_for_nan(x) for x in lon]), AList(steps(n, miss))]


def config():
    cfg = V.config()

    def iquam(run, a, k):
        v, par = a[0], (list(a[1:]) + list(k.values()))[0]
        rs = run.iterate(run.call_method(v, 'rep_feed', []))
        here = []
        for x in rs:
            here += [R.get(run, x, 'LAT'), R.get(run, x, 'LON'), R.get(run, x, 'PT'), run.call_method(x, 'get_qc', ['POS', 'iquam_track'])]
        here = tuple(V._nrm(run, here)) + (run.force(par),)
        for i, x in enumerate(rs):
            run.call_method(x, 'set_qc', ['POS', 'iquam_track', fnatom('u:iquam%d' % i, here, True, Fr(0), Fr(1))])
        return None
    cfg.overrides['qc.time_difference'] = lambda run, a, k: 1
    cfg.overrides['Extended_IMMA.Voyage.iquam_track_check'] = iquam
    return cfg


def flagged(flag):
    def f(run, rs):
        return AList([run.call_method(x, 'get_qc', ['POS', flag]) for x in rs])
    return f


def check(c):
    c.batch()
    T = c.thorough()
    par = lambda r: [integer('smooth'), integer('lo'), integer('hi')]
    for new in (False, True):
        fn = 'trackqc.new_aground_check' if new else 'trackqc.aground_check'

        def case(n, smooth, miss=False, fixed=None, sym=False, fn=fn, new=new):
            def args():
                lo, hi = integer('lo', lo=-1 if sym else 1), integer('hi', lo=-1 if sym else 1)
                return [smooth, lo] + ([None] if new else [hi])

            def impl(run, a, k):
                run.call(lookup(run, fn), [AList(a)] + [x for x in args() if x is not None])
                return flagged('drf_agr')(run, a)

            def mk(r):
                if not new and not sym:
                    r.constrain(padd(args()[2].p, args()[1].p, -1), '>=')
                return record(r, n, miss, fixed)

            def smk(r):
                mk(r)
                return spec_record(n, miss, fixed) + args()
            c.equiv(fn, 'drift.aground', mk, cfg=config(), call=impl, spec_mk=smk,
                    name='%s: %d reports, smoothing over %d%s%s' % (fn, n, smooth, ', missing values' if miss else '', ', same ' + fixed if fixed else ''))
        for n in (0, 1, 2):
            for smooth in (-1, 0, 1, 2, 3):
                case(n, smooth, True, None, True)
        for n in (3, 4) + ((5,) if T and new else ()):
            case(n, 1)
        for n in (4, 5) + ((6,) if T and new else ()):
            case(n, 3, False, 'lat')
            case(n, 3, False, 'lon')
        if T and new:
            case(7, 5, False, 'lat')

    for n in (0, 1, 2, 3, 4) + ((5,) if T else ()):
        for miss in (False, True):
            if miss and n > 2 or not miss and n < 3:
                continue

            def sp(miss=miss):
                k = dict() if miss else dict(lo=0)
                return [real('limit', **k), real('lo', **k), real('hi', **k)]

            def mk(r, n=n, miss=miss, sp=sp):
                if not miss:
                    r.constrain(sp()[1].p, '>')
                    r.constrain(padd(sp()[2].p, sp()[1].p, -1), '>=')
                return record(r, n, miss)

            def impl(run, a, k, sp=sp):
                run.call(lookup(run, 'trackqc.speed_check'), [AList(a)] + sp())
                return flagged('drf_spd')(run, a)

            def smk(r, n=n, miss=miss, mk=mk, sp=sp):
                mk(r)
                return spec_record(n, miss) + sp()
            c.equiv('trackqc.speed_check', 'drift.speeding', mk, cfg=config(), call=impl, spec_mk=smk,
                    name='trackqc.speed_check: %d reports%s' % (n, ', missing values' if miss else ''))

            def sp2(miss=miss):
                k = dict() if miss else dict(lo=0)
                return [real('limit', **k), real('lo', **k)]

            def mk2(r, n=n, miss=miss, sp2=sp2):
                if not miss:
                    r.constrain(sp2()[1].p, '>')
                return record(r, n, miss)

            def impl2(run, a, k, sp2=sp2):
                run.call(lookup(run, 'trackqc.new_speed_check'), [AList(a), Opq('parameters')] + sp2())
                return (flagged('drf_spd')(run, a), flagged('iquam_track')(run, a), AList([R.get(run, x, 'PT') for x in a]))

            def smk2(r, n=n, miss=miss, mk2=mk2, sp2=sp2):
                mk2(r)
                lat, lon, st = spec_record(n, miss)
                here = []
                for y, x in zip(lat.items, lon.items):
                    here += [y, x, 5, 0]

                def bad(i):
                    return lambda run, i=i: fnatom('u:iquam%d' % i, tuple(V._nrm(run, [run.force(z) for z in here])) + (Opq('parameters'),), True, Fr(0), Fr(1))
                return [lat, lon, st, AList([Lazy('badly placed %d' % i, [bad(i)]) for i in range(n)])] + sp2()
            c.equiv('trackqc.new_speed_check', 'drift.speeding_new_all', mk2, cfg=config(), call=impl2, spec_mk=smk2,
                    name='trackqc.new_speed_check: %d reports%s' % (n, ', missing values' if miss else ''))
    c.flush()
    c.need(len(c.instances), 30, 'instances')
