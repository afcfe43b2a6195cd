"""The ship track check: its components are interpreted over all their inputs, and the whole check over
voyages of up to four (thorough: five) reports at arbitrary places and times with reported speeds and courses
present or missing; distances, courses and projected positions are uninterpreted (decided by P19), so every
use of the right pair of reports, limit and unit is compared with the reference definition."""
from ..equiv import *
from .. import report as R
from .. import voyage as V

HEAD = [0, 45, 90, 135, 180, 225, 270, 315]


def modesp(run, args, kw):
    """most frequent speed: an unknown number of at least 8.5 knots for two or more speeds"""
    xs = [run.force(x) for x in run.iterate(args[0])]
    if len(xs) < 2:
        return None
    xs = tuple(norm(Num(run.subst_points(x.p), x.isint)) if isinstance(x, Num) else x for x in xs[1:])
    return fnatom('u:modesp', xs, False, Fr(85, 10) / Fr('0.539957'))


def component(name, dflt):
    """a component's verdict (0 or more) as an uninterpreted function; components are decided on their own"""
    def h(run, args, kw):
        a = V.bind(run, 'track_check.' + name, args, kw) if kw else list(args)
        if dflt is not None and len(a) == 3:
            a.append(dflt)
        return fnatom('u:' + name, tuple(V._nrm(run, a)), True, Fr(0), Fr(1))
    return h


def config(plain=False):
    """plain: consecutive reports at different times, identifier not generic"""
    cfg = V.config(False)
    cfg.overrides['track_check.modesp'] = modesp
    cfg.overrides['qc.id_is_generic'] = (lambda run, a, k: 0) if plain else pure('generic', True, 0, 1)
    for name, dflt in (('direction_continuity', 60), ('speed_continuity', 10), ('check_distance_from_estimate', None)):
        cfg.overrides['track_check.' + name] = component(name, dflt)
    td = V.time_difference(False)

    def ordered(run, args, kw):
        v = td(run, args, kw)
        v = run.force(v)
        if isinstance(v, Num):
            run.constrain(v.p, '>' if plain else '>=')
        return v
    cfg.overrides['qc.time_difference'] = ordered
    return cfg


def reported(n, mode, prefix=''):
    """reported speeds and courses: all missing, all present, or one report missing"""
    vs, ds = [], []
    for i in range(n):
        v, d = real('vsi%d' % i, lo=0), HEAD[(2 * i + 1) % 8]
        if mode == 'any':
            v, d = Lazy('vsi%d' % i, [None, v]), Lazy('dsi%d' % i, [None, d])
        elif mode == 'none':
            v, d = None, None
        vs.append(v)
        ds.append(d)
    return vs, ds


def voyage(n, mode, plain=False):
    def f(r):
        vs, ds = reported(n, mode)
        rs = V.reps(r, n, values=lambda i: {'PT': 1, 'DCK': 1} if plain else {})
        for i, x in enumerate(rs):
            r.dict_set(x.attrs['ext'], 'vsi', vs[i])
            r.dict_set(x.attrs['ext'], 'dsi', ds[i])
        return rs
    return f


def first(r, plain):
    if plain:
        return [1, 1]
    rep = V.reps(r, 1)[0]
    return [R.get(r, rep, 'PT'), R.get(r, rep, 'DCK')]


def parameters():
    return ADict([('max_direction_change', real('p.dir')), ('max_speed_change', real('p.change')),
                  ('max_absolute_speed', real('p.speed')), ('max_midpoint_discrepancy', real('p.mid'))])


PLIST = lambda: AList([real('p.dir'), real('p.change'), real('p.speed'), real('p.mid')])


def check(c):
    c.batch()
    for n in range(0, 5):
        c.equiv('track_check.modesp', 'trk.mode_speed', lambda r, n=n: [AList([real('v%d' % i) for i in range(n)])],
                name='most frequent speed of %d reports' % n)
    c.equiv('track_check.set_speed_limits', 'trk.limits', lambda r: [opt('mode')])
    cfg = V.config(False)
    c.equiv('track_check.increment_position', 'trk.increment',
            lambda r: [real('lat'), real('lon'), real('v'), real('course'), opt('t')], cfg=cfg)
    heads = [None] + HEAD + [360, real('odd')]
    for dflt in ('', '_default'):
        c.equiv('track_check.direction_continuity', 'trk.direction' + dflt,
                lambda r, dflt=dflt: [Lazy('dsi', heads), Lazy('prev', [None, 0, 135, 315, real('odd2')]), opt('course')] + ([] if dflt else [real('lim')]),
                name='direction continuity' + dflt)
        c.equiv('track_check.speed_continuity', 'trk.speed' + dflt,
                lambda r, dflt=dflt: [opt('vsi'), opt('prev'), opt('v')] + ([] if dflt else [real('lim')]),
                name='speed continuity' + dflt)
    c.equiv('track_check.check_distance_from_estimate', 'trk.distance',
            lambda r: [opt('vsi'), opt('prev'), opt('t'), opt('fwd'), opt('rev')])
    for n in range(0, 5):
        for meth, spec in (('distr1', 'distances'), ('distr2', 'distances_back'), ('midpt', 'midpoints')):
            def impl(run, a, k, meth=meth):
                return run.call_method(V.voyage(run, a), meth, [])
            if n == 0 or (n == 1 and meth == 'midpt'):
                continue
            c.equiv('Extended_IMMA.Voyage.' + meth, 'trk.' + spec, voyage(n, 'any' if n < 4 else 'all'), cfg=config(),
                    call=impl, spec_mk=lambda r, n=n: [V.places(n)] + [AList(x) for x in reported(n, 'any' if n < 4 else 'all')],
                    name='%s of %d reports' % (meth, n))
    cases = [(n, 'none', False) for n in range(0, 4)] + [(3, 'all', True), (3, 'any', True), (4, 'none', True), (4, 'all', True)]
    if c.thorough():
        cases += [(5, 'none', True)]
    for n, mode, plain in cases:
        def impl(run, a, k, n=n):
            v = V.voyage(run, a)
            run.call_method(v, 'track_check', [parameters()])
            return AList([(run.call_method(x, 'get_qc', ['POS', 'trk']), run.call_method(x, 'get_qc', ['POS', 'few'])) for x in a])
        c.equiv('Extended_IMMA.Voyage.track_check', 'trk.track', voyage(n, mode, plain), cfg=config(plain), call=impl,
                spec_mk=lambda r, n=n, mode=mode, plain=plain: [V.places(n)] + [AList(x) for x in reported(n, mode)] +
                [Opq('theID', kind='str')] + first(r, plain) + [PLIST()],
                name='track check of %d reports, reported speeds and courses %s%s' % (n, mode, ', distinct times' if plain else ''))
    c.flush()
    c.need(len(c.instances), 25, 'instances')
