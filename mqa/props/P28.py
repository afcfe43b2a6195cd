"""The six drifting-buoy checks of a voyage are interpreted for every platform type, every order of up to three
reports and both settings of the sorting option, the underlying check recording how it is called; which check
runs, over which reports in which order and with which parameters is compared with the reference table."""
import itertools
from ..equiv import *
from ..models import mk_datetime
from .. import report as R
from .. import voyage as V

# method, check, names in the parameter dictionary in the order the check takes them
TABLE = [
    ('buoy_aground_check', 'aground_check', ['smooth_win', 'min_win_period', 'max_win_period']),
    ('new_buoy_aground_check', 'new_aground_check', ['smooth_win', 'min_win_period']),
    ('buoy_speed_check', 'speed_check', ['speed_limit', 'min_win_period', 'max_win_period']),
    ('new_buoy_speed_check', 'new_speed_check', ['speed_limit', 'min_win_period']),
    ('buoy_tail_check', 'sst_tail_check', ['long_win_len', 'long_err_std_n', 'short_win_len', 'short_err_std_n', 'short_win_n_bad',
                                           ('drif_inter', 'drift_inter'), 'drif_intra', 'background_err_lim']),
    ('buoy_bias_noise_check', 'sst_biased_noisy_check', ['n_eval', 'bias_lim', 'drif_intra', 'drif_inter', 'err_std_n', 'n_bad',
                                                         'background_err_lim']),
]


def check(c):
    for meth, fn, names in TABLE:
        args = ['iquam_parameters'] if fn == 'new_speed_check' else []
        args += [x if isinstance(x, str) else x[0] for x in names]
        keys = [x if isinstance(x, str) else x[1] for x in names]
        for n in range(0, 4):
            for perm in itertools.permutations(range(n)):
                for sort in (None, True, False) if n > 1 else (None,):
                    one(c, meth, fn, args, keys, perm, sort)
    c.need(len(c.instances), 100, 'instances')


def one(c, meth, fn, args, keys, perm, sort):
    n = len(perm)

    def pars():
        return [(k, real('p.' + k)) for k in keys]

    def pt():
        return Lazy('pt', [NAN, integer('pt')])

    def config(log):
        cfg = V.config()
        cfg.overrides['qc.time_difference'] = lambda run, a, k: 1
        for _, f, _n in TABLE:
            def h(run, a, k, f=f):
                fv = lookup(run, 'trackqc.' + f)
                pn = [x.arg for x in fv.node.args.args]
                a = list(a)
                got = dict(zip(pn, a))
                got.update(k)
                reps = got.pop(pn[0])
                if run.force(Lazy('the check fails', [False, True])):
                    raise PyExc('AssertionError', 'check')
                reps = run.force(reps)
                seen = [x.ident for x in run.iterate(reps)] if isinstance(reps, AList) else [reps]
                run.log.append((f, AList(seen), ADict(sorted(got.items()))))
                return None
            cfg.overrides['trackqc.' + f] = h
        return cfg

    def mk(r):
        t = pt()
        rs = V.reps(r, n, values=lambda i: {'PT': t})
        for i, x in enumerate(rs):
            x.attrs['dt'] = mk_datetime(r, [2001, 2, 1 + perm[i]], {})
        return rs

    def impl(run, a, k):
        v = V.voyage(run, a)
        run.log = []
        x = [Opq('iquam parameters')] if fn == 'new_speed_check' else []
        x.append(ADict(pars()))
        if sort is not None:
            x.append(sort)
        run.call_method(v, meth, x)
        return AList(run.log)

    def ref(run, a, k):
        if n == 0:
            return AList([])
        p = run.force(pt())
        if p is NAN or run.test(padd(num(p).p, pconst(-7)), '!='):
            return AList([])
        if run.force(Lazy('the check fails', [False, True])):
            raise PyExc('AssertionError', 'check')
        order = list(range(n))
        if sort is not False:
            order = sorted(order, key=lambda i: perm[i])
        vals = dict(zip(args, ([Opq('iquam parameters')] if fn == 'new_speed_check' else []) + [x for _, x in pars()]))
        return AList([(fn, AList(['r%d' % i for i in order]), ADict(sorted(vals.items())))])
    cfg = config(None)
    cfg.overrides['spec_any.anything'] = ref
    c.equiv('Extended_IMMA.Voyage.' + meth, 'any.anything', mk, cfg=cfg, call=impl, spec_mk=lambda r: [],
            name='%s, reports in order %s, sort %s' % (meth, ''.join(map(str, perm)), sort))
