"""Building a report from a record with any quantity present or missing, reading and changing its quantities,
its date-time and its decoded ship speed and course are interpreted and compared with reference definitions;
Julian day and time difference are interpreted for all dates and hours and compared with the Gregorian calendar."""
from ..equiv import *
from .. import report as R

TIME = ['YR', 'MO', 'DY', 'HR']


def record(r, items):
    rec = AObj(None, name='record')
    rec.attrs['data'] = ADict(items)
    return rec


def num_of(v):
    kw = dict(lo=1, hi=9999) if v == 'YR' else {}
    return integer(v, **kw) if v in R.INTS else real(v)


def voyage(c, n, pos):
    def vals(r):
        return [Lazy('SST%d' % i, [NAN, real('SST%d' % i)]) for i in range(n)]

    def impl(run, a, k):
        reps = [R.report(run, prefix='r%d' % i, values=dict(SST=x), flags={'SSTrep': integer('f%d' % i, lo=0, hi=9)}) for i, x in enumerate(vals(run))]
        v = run.call(R.cls(run, 'Voyage'), [])
        run.iterate(v.attrs['reps'])
        v.attrs['reps'].items.extend(reps)

        def same(x):
            return [i for i, y in enumerate(reps) if y is x]
        before = [run.call_method(v, 'getvar', [i, 'SST']) for i in range(n)]
        run.call_method(v, 'setvar', [pos, 'SST', a[0]])
        after = [run.call_method(x, 'getvar', ['SST']) for x in reps]
        return (AList(before), AList(after), run.call_method(v, 'get_qc', [pos, 'SST', 'rep']), run.call_method(v, 'get_qc', [pos, 'SST', 'bud']),
                AList(same(run.call_method(v, 'getrep', [pos]))), AList(same(run.call_method(v, 'last_rep', []))),
                run.call_method(v, '__len__', []), AList([same(x)[0] for x in run.iterate(run.call_method(v, 'rep_feed', []))]))
    c.equiv('Extended_IMMA.Voyage.setvar', 'dt.voyage', lambda r: [real('new')], call=impl, name='report %d of a voyage of %d' % (pos, n),
            spec_mk=lambda r: [real('new'), AList([R.none_for_nan(x) for x in vals(r)]), AList([integer('f%d' % i, lo=0, hi=9) for i in range(n)]), pos])


def check(c):
    c.batch()
    I = integer
    c.equiv('qc.jul_day', 'cal.julian', lambda r: [I('y'), I('m'), I('d')])

    def mk(r):
        out = []
        for i in '12':
            out += [I('y' + i), I('m' + i, lo=1, hi=12), I('d' + i, lo=1, hi=31), opt('h' + i)]
        return out
    c.equiv('qc.time_difference', 'cal.hours_between', mk)
    # construction: date-time
    for order in (TIME, TIME[::-1]):
        def mkt(r, order=order):
            vals = {v: Lazy(v, [None, num_of(v)]) for v in TIME}
            return [vals, record(r, [(v, vals[v]) for v in order])]

        def impl(run, a, k):
            o = run.call(R.cls(run, 'MarineReportQC'), [a[1]])
            return (o.attrs['dt'], AList([run.call_method(o, 'getvar', [v]) for v in TIME]))
        c.equiv('Extended_IMMA.MarineReport.__init__', 'dt.built', mkt, call=impl,
                spec_mk=lambda r, mkt=mkt: [mkt(r)[0][v] for v in TIME], name='report from a record, fields ' + ' '.join(order))
    # changing one component
    for var in TIME:
        def mks(r, var=var):
            vals = {v: Lazy(v, [None, num_of(v)]) for v in TIME if v != var}
            new = I('new', lo=1, hi=9999) if var == 'YR' else I('new') if var != 'HR' else real('new')
            first = {'YR': 1999, 'MO': 2, 'DY': 1, 'HR': 3}[var]
            return [vals, record(r, [(v, vals.get(v, first)) for v in TIME]), new]

        def impl(run, a, k, var=var):
            o = run.call(R.cls(run, 'MarineReportQC'), [a[1]])
            run.call_method(o, 'setvar', [var, a[2]])
            return (o.attrs['dt'], AList([run.call_method(o, 'getvar', [v]) for v in TIME]))
        c.equiv('Extended_IMMA.MarineReport.setvar', 'dt.built', mks, call=impl,
                spec_mk=lambda r, mks=mks, var=var: [mks(r)[0].get(v, mks(r)[2]) for v in TIME], name='report after changing ' + var)
    # every other quantity
    allv = [v for v in ['LAT', 'LON', 'DS', 'VS', 'SLP', 'AT', 'AT2', 'SST', 'DCK', 'PT', 'SID', 'DPT', 'SHU', 'VAP', 'CRH', 'CWB',
                        'DPD', 'W', 'WI', 'D', 'DI', 'WW', 'ID', 'UID', 'XYZ']]
    for v in allv:
        def mkv(r, v=v):
            if v in ('ID', 'UID', 'XYZ'):
                x = Lazy(v, [None, Opq(v, kind='str')])
            elif v == 'DS':
                x = Lazy(v, [None, I(v, lo=0, hi=9)])
            else:
                x = Lazy(v, [None, num_of(v)])
            return [x, record(r, [('YR', 1950), (v, x)])]

        def impl(run, a, k, v=v):
            o = run.call(R.cls(run, 'MarineReportQC'), [a[1]])
            return AList([run.call_method(o, 'getvar', [w]) for w in allv])
        c.equiv('Extended_IMMA.MarineReport.getvar', 'dt.only', mkv, call=impl,
                spec_mk=lambda r, v=v, mkv=mkv: [v, mkv(r)[0], AList(allv)], name='reading back ' + v)
    for v in allv[:-1]:
        def mkw(r, v=v):
            x = Opq('new' + v, kind='str') if v in ('ID', 'UID') else Lazy('new' + v, [None, I('new' + v) if v in R.INTS else real('new' + v)])
            return [x, record(r, [('YR', 1950), ('DS', 3), ('VS', 2)] + [(w, 4) for w in allv if w not in ('ID', 'UID', 'XYZ', 'DS', 'VS')])]

        def impl(run, a, k, v=v):
            o = run.call(R.cls(run, 'MarineReportQC'), [a[1]])
            run.call_method(o, 'setvar', [v, a[0]])
            return AList([run.call_method(o, 'getvar', [w]) for w in allv])
        c.equiv('Extended_IMMA.MarineReport.setvar', 'dt.changed', mkw, call=impl,
                spec_mk=lambda r, v=v, mkw=mkw: [v, mkw(r)[0], AList(allv)], name='changing ' + v)
    # decoded speed and course
    def mkd(r):
        vals = [Lazy('YR', [None, I('YR', lo=1, hi=9999)]), Lazy('DS', [None] + list(range(10))), Lazy('VS', [None] + list(range(10)))]
        return vals

    def impl_dec(run, a, k, again=False):
        o = run.call(R.cls(run, 'MarineReportQC'), [record(run, list(zip(['YR', 'DS', 'VS'], a)))])
        if again:
            run.call_method(o, 'setext', ['dsi', 77])
            run.call_method(o, 'setext', ['other', 78])
            run.call_method(o, 'reset_ext', [])
        return o.attrs['ext']
    c.equiv('Extended_IMMA.MarineReport.calculate_dsi_vsi', 'dt.decoded', mkd, call=impl_dec, name='decoded speed and course')
    c.equiv('Extended_IMMA.MarineReport.reset_ext', 'dt.decoded', mkd, call=lambda run, a, k: impl_dec(run, a, k, True),
            name='extra values reset')
    # position helpers
    c.equiv('Extended_IMMA.MarineReport.lon', 'dt.position',
            lambda r: [R.report(r, values={'LAT': real('lat'), 'LON': real('lon', lo=-180, hi=360)})],
            spec_mk=lambda r: [real('lat'), real('lon', lo=-180, hi=360)],
            call=lambda run, a, k: (run.call_method(a[0], 'lat', []), run.call_method(a[0], 'lon', [])), name='latitude and longitude')
    # climatology and anomalies
    for meth, spec in (('getnorm', 'norm'), ('getanom', 'anom'), ('get_normalised_anom', 'nanom')):
        def mka(r):
            v, n, s = Lazy('SST', [NAN, real('SST')]), opt('n'), Lazy('s', [None, sym('s', lo=0, lo_open=True)])
            return [v, n, s]

        def impl(run, a, k, meth=meth):
            rep = R.report(run, values={'SST': a[0]})
            run.call_method(rep, 'add_climate_variable', ['SST', a[1], a[2]])
            if meth == 'getnorm':
                return tuple(run.call_method(rep, meth, x) for x in (['SST'], ['SST', 'stdev'], ['AT'], ['AT', 'stdev']))
            return tuple(run.call_method(rep, meth, x) for x in (['SST'], ['AT']))
        c.equiv('Extended_IMMA.MarineReport.' + meth, 'dt.' + spec, mka, call=impl,
                spec_mk=lambda r, mka=mka: [R.none_for_nan(mka(r)[0])] + mka(r)[1:], name=meth)
    # the reports of a voyage
    for n in (1, 2, 3):
        for pos in list(range(n)) + [-1]:
            voyage(c, n, pos)
    c.flush()
    c.need(len(c.instances), 72, 'instances')
