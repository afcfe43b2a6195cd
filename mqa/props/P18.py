"""The humidity functions are interpreted for all temperatures and pressures (present or missing), with and without
rounding, and compared as rational expressions over exponential, logarithm and square root with the published
formulas.
A report's humidity variables are compared with the same functions, uninterpreted, of its own quantities."""
from ..equiv import *
from .. import report as R, voyage as V

HUM = ['SHU', 'VAP', 'CRH', 'CWB', 'DPD']


def check(c):
    c.batch()
    for fn, args in (('vap', 'dtp'), ('sh', 'dtp'), ('rh', 'dtp'), ('wb', 'dtp'), ('dpd', 'dt'), ('vap_from_sh', 'qp'),
                     ('sh_from_vap', 'ep'), ('td_from_vap', 'ept')):
        for roundit in (True, False, None):
            def mk(r, args=args, roundit=roundit, spec=False):
                miss = args[0] == 'd'
                lo = dict(d=Fr(-100), t=Fr(-100), p=800, q=0, e=0)
                hi = dict(d=60, t=60, p=1100, q=100, e=100)
                out = []
                for x in args:
                    f = opt if miss else real
                    out.append(f(x, lo=lo[x], hi=hi[x], lo_open=True) if x in 'qe' else f(x, lo=lo[x], hi=hi[x]))
                return out + ([roundit] if roundit is not None else [True] if spec else [])
            c.equiv('CalcHums.' + fn, 'hum.' + fn, mk, spec_mk=lambda r, mk=mk: mk(r, spec=True), name='CalcHums.%s, rounding %s' % (fn, roundit))
    reports(c)
    c.flush()
    c.need(len(c.instances), 27, 'instances')


def reports(c):
    """the humidity variables of a report"""
    def fn(name):
        def h(run, a, k):
            n = 2 if name == 'dpd' else 3
            rounded = run.truth(a[n]) if len(a) > n else True
            xs = [run.force(x) for x in a[:n]]
            if any(x is None for x in xs):
                return None
            return fnatom('u:' + name + ('' if rounded else ' unrounded'), tuple(V._nrm(run, xs)))
        return h
    cfg = Config()
    for f in ('vap', 'sh', 'rh', 'wb', 'dpd'):
        cfg.overrides['CalcHums.' + f] = fn(f)
        cfg.overrides['spec_hum.report_' + f] = fn(f)

    def build(run, slp, present):
        vals = {v: (R.value('', v) if v in ('AT', 'DPT', 'SLP') or v in HUM else NAN) for v in R.varlist(run)}
        rep = R.report(run, values=vals)
        if slp != 'none at all':
            run.call_method(rep, 'add_climate_variable', ['SLP', slp])
        run.call_method(rep, 'add_climate_variable', ['SLP2', sym('otherslp')])
        return rep, vals

    def impl(slp, hums):
        def f(run, a, k):
            rep, _ = build(run, slp, ())
            run.call_method(rep, 'calculate_humidity_variables', [AList(list(hums))])
            return tuple(run.call_method(rep, 'getvar', [v]) for v in HUM + ['AT', 'DPT', 'SLP'])
        return f

    def smk(slp, hums):
        def f(r):
            get = lambda v: R.none_for_nan(R.value('', v))
            return [get('AT'), get('DPT'), get('SLP'), slp, AList([get(v) for v in HUM]), AList(list(hums))]
        return f
    slp = Lazy('slpclim', [None, sym('slpclim')])
    for hums in (HUM, HUM[::-1], ['SHU', 'VAP', 'CRH', 'CWB', 'DPD'][2:] + HUM[:2]):
        c.equiv('Extended_IMMA.MarineReport.calculate_humidity_variables', 'hum.report', lambda r: [], cfg=cfg, call=impl(slp, hums),
                spec_mk=smk(slp, hums), name='humidity of a report, %s' % ' '.join(hums))
