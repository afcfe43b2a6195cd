"""Each base QC entry point is interpreted on an abstract report; for every flag the report space is
partitioned completely over the quantities that flag is defined from (present/missing, every ordering
against limits) while the other quantities are all missing or all present, and the flag's final value is
compared with its reference definition; the set of flags and the observations left behind are compared too."""
from ..equiv import *
from .. import report as R

NORM = ['SST', 'AT', 'AT2', 'DPT', 'SLP']
F = {
    'POS': {'isbuoy': 'PT', 'isdrifter': 'PT', 'isship': 'PT', 'is780': 'DCK', 'pos': 'LAT LON', 'date': 'YR MO DY',
            'time': 'HR DCK YR', 'blklst': 'PT DCK LON', 'day': 'LAT LON HR|HR DCK YR|YR MO DY'},
    'SST': {'noval': 'SST', 'freez': 'SST p.SST.fp p.SST.ns', 'clim': 'SST SST.norm p.SST.max', 'nonorm': 'SST.norm',
            'hardlimit': 'SST p.SST.hard'},
    'AT': {'noval': 'AT', 'clim': 'AT AT.norm p.AT.max', 'nonorm': 'AT.norm', 'hardlimit': 'AT p.AT.hard',
           'mat_blacklist': 'PT DCK YR'},
    'DPT': {'noval': 'DPT', 'clim': 'DPT DPT.norm DPT.sd p.DPT.maxsd p.DPT.sd', 'nonorm': 'DPT.norm', 'ssat': 'DPT AT',
            'hum_blacklist': 'PT', 'hardlimit': 'AT p.AT.hard DPT p.DPT.hard SHU p.SHU.hard CRH p.RH.hard'},
    'SLP': {'noval': 'SLP', 'clim': 'SLP SLP.norm SLP.sd p.SLP.maxsd p.SLP.low', 'nonorm': 'SLP.norm'},
    'W': {'noval': 'W', 'hardlimit': 'W p.W.hard', 'consistency': 'W D p.W.var', 'wind_blacklist': 'DCK'},
    'AT2': {'clim': 'AT AT2.norm AT2.sd p.AT.maxsd p.AT.sd', 'noval': 'AT', 'nonorm': 'AT2.norm', 'hardlimit': 'AT p.AT.hard'},
}
COMMON = ['isbuoy', 'isship', 'isdrifter', 'pos', 'date', 'time', 'blklst']
ENTRY = {
    'perform_base_qc': [(v, t) for v in F for t in F[v]],
    'perform_base_wind_qc': [('POS', t) for t in COMMON] + [('W', t) for t in F['W']],
    'perform_base_slp_qc': [('POS', t) for t in COMMON + ['is780', 'day']] + [('SLP', t) for t in F['SLP']],
    'perform_base_sst_qc': [('POS', t) for t in COMMON + ['is780', 'day']] + [('SST', t) for t in F['SST']],
}


def parameters(r):
    def lim(n):
        lo = real(n + '.lo')
        return AList([lo, r.binop('Add', lo, sym(n + '.width', lo=0, lo_open=True))])

    def sdlim(n):
        def late(run):
            lo, hi = real(n + '.lo', lo=0, lo_open=True), real(n + '.hi')
            run.constrain(padd(hi.p, lo.p, -1), '>')
            return AList([lo, hi])
        return Lazy(n, [late])
    pos = lambda n: sym(n, lo=0, lo_open=True)
    d = {}
    for v in ['SST', 'AT', 'DPT', 'SLP', 'W', 'SHU', 'RH', 'CRH']:
        d[v] = ADict([('hard_limits', lim('p.%s.hard' % v)), ('maximum_anomaly', real('p.%s.max' % v)),
                      ('minmax_standard_deviation', sdlim('p.%s.sd' % v)),
                      ('maximum_standardised_anomaly', pos('p.%s.maxsd' % v)), ('lowbar', real('p.%s.low' % v)),
                      ('freezing_point', real('p.%s.fp' % v)), ('freeze_check_n_sigma', real('p.%s.ns' % v)),
                      ('variable_limit', real('p.%s.var' % v))])
    d['base'] = ADict([('time_since_sun_above_horizon', real('p.sun'))])
    return ADict(list(d.items()))


def mkrep(r, values=None):
    at = R.value('', 'AT')
    vals = {'AT': at, 'AT2': at, 'YR': integer('YR', lo=1, hi=9999)}
    vals.update(values or {})
    return R.report(r, values=vals, present=('LAT', 'LON', 'YR', 'MO'), clim=NORM, stdev=['AT2', 'DPT', 'SLP'])


def config(name, policy):
    """split on the named quantities only (None: on everything)"""
    cfg = Config()
    if name is not None:
        names = set(name.split())
        names |= set(n + x for n in list(names) if n.startswith('p.') for x in ('.lo', '.hi', '.width'))
        cfg.focus = lambda s: all(x in names or x.startswith('leap') for x in s)
    cfg.overrides['qc.day_test'] = pure('day_test', True, 0, 1)
    cfg.overrides['qc.blacklist'] = pure('blacklist', True, 0, 1)
    cfg.policy = policy
    return cfg


def check(c):
    c.batch()
    for entry, flags in ENTRY.items():
        for var, test in flags:
            need = F[var][test]
            for part in need.split('|'):
                for policy in (0, 1):
                    cfg = config(part, policy)

                    def mk(r, part=part, test=test):
                        values = {}
                        if test == 'day':
                            values = {'LAT': real('LATok', lo=-90, hi=90), 'LON': real('LONok', lo=-180, hi=180),
                                      'HR': real('HRok', lo=0, hi=23), 'MO': 6, 'DY': 15,
                                      'YR': integer('YRok', lo=1860, hi=2024)}
                            for x in part.split():
                                values.pop(x, None)
                        return [mkrep(r, values), parameters(r)]

                    def impl(run, a, k, entry=entry, var=var, test=test):
                        rep, par = a
                        run.call_method(rep, entry, [par])
                        return run.call_method(rep, 'get_qc', [var, test])

                    def specargs(r, var=var, test=test, mk=mk):
                        rep, par = mk(r)
                        return [(var, test), R.observed(r, rep)] + norms(r, rep) + [par]
                    c.equiv('Extended_IMMA.MarineReportQC.' + entry, 'base.flag', mk, cfg=cfg, spec_mk=specargs,
                            call=impl, name='%s: %s %s (%s; others %s)' % (
                                entry, var, test, part, ('missing', 'present')[policy]))
    # the set of flags each entry point leaves behind, and the observations, do not depend on the path taken
    for entry, flags in ENTRY.items():
        for policy in (0, 1):
            cfg = config('DCK YR HR', policy)

            def impl(run, a, k, entry=entry):
                rep, par = a
                run.call_method(rep, entry, [par])
                return 0

            def seen(run, a, res):
                rep = a[0]
                return (ASet(list(rep.attrs['qc'].k)), R.observed(run, rep))

            def specargs(r):
                rep, par = mkrep(r), parameters(r)
                return [rep, R.observed(r, rep)]

            def expect(run, a, res, flags=flags):
                o = ADict(list(zip(a[1].k, a[1].v)))
                run.dict_set(o, 'HR', res)
                return (ASet([v + t for v, t in flags]), o)
            c.equiv('Extended_IMMA.MarineReportQC.' + entry, 'base.hour_after', lambda r: [mkrep(r), parameters(r)], cfg=cfg,
                    spec_mk=specargs, call=impl, observe=seen, spec_observe=expect, values=False,
                    name='%s: flags set and observations kept (policy %d)' % (entry, policy))
    # classification and day flag in full
    def day_guard(r):
        fl = {'POS' + t: Lazy('flag ' + t, [0, 1]) for t in ('pos', 'date', 'time')}
        return fl
    def mkday(r):
        rep = R.report(r, values={'LAT': real('LAT', lo=-90, hi=90), 'LON': real('LON', lo=-180, hi=360)},
                       present=('YR', 'MO', 'DY', 'HR'), flags=day_guard(r))
        return [rep, real('t')]

    def dayimpl(run, a, k):
        run.call_method(a[0], 'do_day_check', [a[1]])
        return run.call_method(a[0], 'get_qc', ['POS', 'day'])

    def dayargs(r):
        rep, t = mkday(r)
        return [day_guard(r), R.observed(r, rep), t]
    c.equiv('Extended_IMMA.MarineReportQC.do_day_check', 'base.day_from_flags', mkday, cfg=config(None, 0), call=dayimpl,
            spec_mk=lambda r: [ADict(list(day_guard(r).items())), R.observed(r, mkday(r)[0]), real('t')],
            name='day flag from the position, date and time flags')

    def mkmat(r):
        return [R.report(r, present=('LAT', 'LON', 'YR'))]

    def matimpl(run, a, k):
        run.call_method(a[0], 'mat_blacklist', [])
        return run.call_method(a[0], 'get_qc', ['AT', 'mat_blacklist'])
    c.equiv('Extended_IMMA.MarineReportQC.mat_blacklist', 'base.mat_of', mkmat, call=matimpl,
            spec_mk=lambda r: [R.observed(r, mkmat(r)[0])], name='air temperature black list, every position')
    c.flush()
    c.need(len(c.instances), 150, 'flag instances')


def norms(run, rep):
    out = []
    for which in ('clim', 'stdev'):
        d = []
        for v in NORM:
            f, o = run.dict_find(rep.attrs['climate_variables'], v)
            d.append((v, o.attrs[which]))
        out.append(ADict(d))
    return out
