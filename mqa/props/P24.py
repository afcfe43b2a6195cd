"""Every pattern of disagreeing pairs among up to five (thorough: six) reports; besides, the IQUAM track check and the spike check are interpreted over voyages of up to three reports at arbitrary
places and times with all limits unknown, or one hour apart (thorough: up to four reports) for every neighbour distance, and compared with the reference definition."""
from ..equiv import *
from .. import report as R
from .. import voyage as V


def config(fixed_time):
    cfg = V.config(False)
    cfg.overrides['qc.id_is_generic'] = pure('generic', True, 0, 1)
    if fixed_time:
        cfg.overrides['qc.id_is_generic'] = lambda run, a, k: 0
        cfg.overrides['qc.time_difference'] = lambda run, a, k: 1
    return cfg


def pattern():
    """each pair of reports is either at the same place or very far apart, an hour apart in time"""
    cfg = config(True)
    dist = cfg.overrides['spherical_geometry.sphere_distance']

    def far(run, args, kw):
        d = dist(run, args, kw)
        return d if isinstance(d, int) else Lazy('far? ' + vkey(d), [0, 100000])
    cfg.overrides['spherical_geometry.sphere_distance'] = far
    return cfg


def positive(n):
    return sym(n, lo=0, lo_open=True)


def iq_par(fixed, dd=1):
    return [real('p.buoy', lo=0) if not fixed else 20, real('p.ship', lo=0) if not fixed else 10,
            positive('p.dd') if not fixed else dd, positive('p.dt') if not fixed else 1]


def sp_par(fixed):
    return [real('p.gs', lo=0) if not fixed else 1, real('p.gt', lo=0) if not fixed else 2,
            real('p.ship', lo=0) if not fixed else 3, real('p.buoy', lo=0) if not fixed else 4]


IQ = ['buoy_speed_limit', 'ship_speed_limit', 'delta_d', 'delta_t']
SP = ['max_gradient_space', 'max_gradient_time', 'ship_delta_t', 'buoy_delta_t']


def vals(n, fixed):
    if fixed:
        return [0] + [real('sst%d' % i) for i in range(1, n)]
    return [Lazy('sst%d' % i, [NAN, real('sst%d' % i)]) for i in range(n)]


def check(c):
    c.batch()
    cases = [(0, False, 1), (1, False, 1), (2, False, 0), (2, False, 1), (3, True, 0), (3, True, 1), (3, True, 2), (3, True, 5)]
    if c.thorough():
        cases += [(4, True, 1), (4, True, 2), (4, True, 3)]
    for n, fixed, nn in cases:
        name = '%%s of %d reports%s, %d neighbours' % (n, ' an hour apart' if fixed else '', nn)
        cfg = config(fixed)

        def mk(r, n=n, fixed=fixed):
            return V.reps(r, n, values=lambda i: {'PT': 7} if fixed else {}), iq_par(fixed, 0 if n > 3 else 1)

        def impl(run, a, k, nn=nn):
            v = V.voyage(run, a[0])
            run.call_method(v, 'iquam_track_check', [ADict(list(zip(IQ, a[1])) + [('number_of_neighbours', nn)])])
            return AList([run.call_method(x, 'get_qc', ['POS', 'iquam_track']) for x in a[0]])
        c.equiv('Extended_IMMA.Voyage.iquam_track_check', 'iqm.iquam', lambda r, mk=mk: list(mk(r)), cfg=cfg, call=impl,
                spec_mk=lambda r, n=n, fixed=fixed, nn=nn: [V.places(n), Opq('theID', kind='str'), 7 if fixed else
                R.none_for_nan(R.value('r0', 'PT')), AList(iq_par(fixed, 0 if n > 3 else 1)), nn], name=name % 'IQUAM track check')
        if n > 3:
            continue
        for var in (['SST'] if n > 1 else ['SST', 'AT']):
            def mks(r, n=n, fixed=fixed, var=var):
                vs = vals(n, fixed)
                return V.reps(r, n, values=lambda i: dict({'PT': 7} if fixed else {}, **{var: vs[i]})), sp_par(fixed)

            def impls(run, a, k, nn=nn, var=var):
                v = V.voyage(run, a[0])
                run.call_method(v, 'spike_check', [ADict(list(zip(SP, a[1])) + [('number_of_neighbours', nn)])] +
                                ([var] if var != 'SST' else []))
                return AList([run.call_method(x, 'get_qc', [var, 'spike']) for x in a[0]])
            c.equiv('Extended_IMMA.Voyage.spike_check', 'iqm.spike', lambda r, mks=mks: list(mks(r)), cfg=cfg, call=impls,
                    spec_mk=lambda r, n=n, fixed=fixed, nn=nn: [V.places(n), AList([R.none_for_nan(x) for x in vals(n, fixed)]),
                    7 if fixed else R.none_for_nan(R.value('r0', 'PT')), AList(sp_par(fixed)), nn], name=name % ('spike check on ' + var))
    pats = [(4, 1), (4, 2), (4, 4), (5, 2), (5, 3), (5, 5)] + ([(6, 2), (6, 3)] if c.thorough() else [])
    for n, nn in pats:
        def mk(r, n=n):
            return [V.reps(r, n, values=lambda i: {'PT': 5, 'SST': 100 * i}, flags={'POSiquam_track': 1, 'SSTspike': 1})]
        cfg = pattern()

        def impl(run, a, k, nn=nn):
            v = V.voyage(run, a[0])
            run.call_method(v, 'iquam_track_check', [ADict(list(zip(IQ, [20, 10, 1, 1])) + [('number_of_neighbours', nn)])])
            return AList([run.call_method(x, 'get_qc', ['POS', 'iquam_track']) for x in a[0]])

        def impls(run, a, k, nn=nn):
            v = V.voyage(run, a[0])
            run.call_method(v, 'spike_check', [ADict(list(zip(SP, [1, 1, 1, 1])) + [('number_of_neighbours', nn)])])
            return AList([run.call_method(x, 'get_qc', ['SST', 'spike']) for x in a[0]])
        c.equiv('Extended_IMMA.Voyage.iquam_track_check', 'iqm.iquam', mk, cfg=cfg, call=impl,
                spec_mk=lambda r, n=n, nn=nn: [V.places(n), Opq('theID', kind='str'), 5, AList([20, 10, 1, 1]), nn],
                name='IQUAM track check, patterns of %d reports, %d neighbours' % (n, nn))
        c.equiv('Extended_IMMA.Voyage.spike_check', 'iqm.spike', mk, cfg=cfg, call=impls,
                spec_mk=lambda r, n=n, nn=nn: [V.places(n), AList([100 * i for i in range(n)]), 5, AList([1, 1, 1, 1]), nn],
                name='spike check, patterns of %d reports, %d neighbours' % (n, nn))
    c.flush()
    c.need(len(c.instances), 15, 'instances')
