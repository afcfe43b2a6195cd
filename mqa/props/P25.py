"""Repeated-value, whole-number and saturation checks are interpreted over voyages of up to three (saturation:
five) reports with values missing or present in every pattern of equal, whole and saturated values, and all
thresholds, and compared with reference definitions."""
from ..equiv import *
from .. import report as R
from .. import voyage as V


def still():
    cfg = V.config()
    cfg.overrides['qc.time_difference'] = lambda run, a, k: 1
    return cfg


def check(c):
    c.batch()
    N = 6 if c.thorough() else 5
    for n in range(0, N):
        for meth, spec, flag, types in (('find_repeated_values', 'repeated', 'rep', ['SST', 'AT', 'AT2', 'DPT', 'SLP']),
                                        ('find_multiple_rounded_values', 'rounded', 'round', ['SST', 'AT', 'AT2', 'DPT'])):
            for var in (types if n == 2 else ['AT']):
                def vals(n=n):
                    return [Lazy('x%d' % i, [NAN, real('x%d' % i)]) for i in range(n)]

                def mk(r, n=n, var=var, vals=vals):
                    xs = vals()
                    return V.reps(r, n, values=lambda i: {var: xs[i]}, flags={var + 'rep': 1, var + 'round': 1})

                def impl(run, a, k, meth=meth, var=var, flag=flag):
                    v = V.voyage(run, a)
                    d = {'SST': 'find_repeated_values', 'DPT': 'find_multiple_rounded_values'}
                    args = [ADict([('threshold', real('threshold')), ('min_count', integer('min', lo=0))])]
                    if d.get(var) != meth:
                        args.append(var)
                    run.call_method(v, meth, args)
                    return AList([run.call_method(x, 'get_qc', [var, flag]) for x in a])
                c.equiv('Extended_IMMA.Voyage.' + meth, 'runs.' + spec, mk, cfg=still(), call=impl,
                        spec_mk=lambda r, vals=vals: [AList([R.none_for_nan(x) for x in vals()]), real('threshold'), integer('min', lo=0)],
                        name='%s, %d reports, %s' % (meth, n, var))
    for n in range(0, 6):
        any_ = n < 3

        def pair(i, any_=any_):
            if any_:
                return Lazy('at%d' % i, [NAN, real('at%d' % i)]), Lazy('dp%d' % i, [NAN, real('dp%d' % i)])
            return 5, Lazy('dp%d' % i, [5, 4])

        def mk(r, n=n, pair=pair):
            ps = [pair(i) for i in range(n)]
            return V.reps(r, n, values=lambda i: {'AT': ps[i][0], 'DPT': ps[i][1]}, flags={'DPTrepsat': 1})

        def impl(run, a, k):
            v = V.voyage(run, a)
            run.call_method(v, 'find_saturated_runs', [ADict([('min_time_threshold', real('hours')), ('shortest_run', integer('short', lo=0))])])
            return AList([run.call_method(x, 'get_qc', ['DPT', 'repsat']) for x in a])
        cfg = V.config()
        if n > 3:
            td = V.time_difference(False)

            def positive(run, args, kw):
                v = run.force(td(run, args, kw))
                if isinstance(v, Num):
                    run.constrain(v.p, '>')
                return v
            cfg.overrides['qc.time_difference'] = positive
        c.equiv('Extended_IMMA.Voyage.find_saturated_runs', 'runs.saturated_runs', mk, cfg=cfg, call=impl,
                spec_mk=lambda r, n=n, pair=pair: [V.places(n), AList([R.none_for_nan(pair(i)[0]) for i in range(n)]),
                AList([R.none_for_nan(pair(i)[1]) for i in range(n)]), integer('short', lo=0), real('hours')],
                name='saturated runs, %d reports' % n)
    c.flush()
    c.need(len(c.instances), 20, 'instances')
