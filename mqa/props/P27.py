"""Drifting-buoy temperature checks: the tail check and the bias-and-noise check are interpreted over records
of up to two reports with arbitrary values, backgrounds, ice, error variances and parameters, and over longer
records with every pattern of good and bad anomalies, uncertain and unusable backgrounds, and compared with
their reference definitions, as are the resistant mean and standard deviation."""
from ..equiv import *
from .. import report as R
from .. import voyage as V

EXT = ['OSTIA', 'ICE', 'BGVAR']
FLAGS = ['drf_tail1', 'drf_tail2', 'drf_bias', 'drf_noise', 'drf_short']


def config():
    cfg = V.config()
    cfg.overrides['qc.time_difference'] = lambda run, a, k: 1

    def day(run, a, k):
        a = V.bind(run, 'trackqc.track_day_test', a, k) if k else list(a)
        a += [-2.5] * (7 - len(a))
        a = [run.force(x) for x in a]
        if vkey(norm(num(a[6]))) != vkey(norm(num(-2.5))):
            raise AnalysisError('elevation limit')
        i = int(a[0].p.key[1:]) if isinstance(a[0], Num) else None
        want = V.place(i)
        if [vkey(x) for x in V._nrm(run, a[:6])] != [vkey(x) for x in V._nrm(run, list(want[2]) + [want[0], want[1]])]:
            return Opq('another place or time', kind='bool')
        return run.force(Lazy('daytime%d' % i, DAY[0]))
    cfg.overrides['trackqc.track_day_test'] = day
    return cfg


DAY = [[False, True]]


def record(r, vals, n):
    v = vals()
    rs = V.reps(r, n, values=lambda i: {'SST': v[0][i]}, flags=dict(('SST' + f, 9) for f in FLAGS))
    for i, x in enumerate(rs):
        for j, name in enumerate(EXT):
            r.dict_set(x.attrs['ext'], name, v[1 + j][i])
        r.dict_set(x.attrs['ext'], 'time_diff', v[4][i])
    return rs


def values(mode, n):
    """sst, background, ice, error variance, time step"""
    def f():
        idx = range(n)
        sst = [Lazy('sst%d' % i, [real('sst%d' % i)]) for i in idx]
        if mode == 'any':
            return ([Lazy('sst%d' % i, [real('sst%d' % i)]) for i in idx],
                    [Lazy('bg%d' % i, [real('bg%d' % i), None]) for i in idx],
                    [Lazy('ice%d' % i, [real('ice%d' % i), None]) for i in idx],
                    [Lazy('var%d' % i, [real('var%d' % i), None]) for i in idx],
                    [Lazy('gap%d' % i, [real('gap%d' % i), None]) for i in idx])
        if mode == 'real':
            return ([real('sst%d' % i) for i in idx], [real('bg%d' % i, lo=-5, hi=45) for i in idx], [0] * n,
                    [real('var%d' % i, lo=0, hi=10) for i in idx], [1] * n)
        # every pattern of good, bad, (uncertain), (unusable)
        alts = [(10, 10, 0, 0), (20, 10, 0, 0)]
        if 'u' in mode:
            alts.append((10, 10, 0, 1))
        if 'l' in mode:
            alts.append((10, None, 0, 0))
        cells = [Lazy('kind%d' % i, list(range(len(alts)))) for i in idx]

        def pick(i, j):
            return Lazy('kind%d.%d' % (i, j), [lambda run: alts[run.force(cells[i])][j]])
        return tuple([pick(i, j) for i in idx] for j in range(4)) + ([1] * n,)
    return f


def check(c):
    c.batch()
    T = c.thorough()

    def tail(n, mode, par, name, day):
        vals = values(mode, n)
        _run(c, 'trackqc.sst_tail_check', 'drift.tails', vals, n, par, name, day,
             lambda run, a: tuple(AList([run.call_method(x, 'get_qc', ['SST', f]) for x in a]) for f in FLAGS[:2]))

    def whole(n, mode, par, name, day):
        vals = values(mode, n)
        _run(c, 'trackqc.sst_biased_noisy_check', 'drift.whole', vals, n, par, name, day,
             lambda run, a: AList([AList([run.call_method(x, 'get_qc', ['SST', f]) for f in FLAGS[2:]]) for x in a]))

    def tpar(lw, sw, nb, fix=False, any_=False):
        def f():
            k = dict() if any_ else dict(lo=0)
            if fix:
                return [lw, 3, sw, 3, nb, norm(num(0.29)), 1, norm(num(0.3))]
            return [lw, real('long_n', **k), sw, real('short_n', **k), nb, real('inter', **k), real('intra', **k), real('limit', **k)]
        return f

    def wpar(ne, nb, fix=False, any_=False):
        def f():
            k = dict() if any_ else dict(lo=0)
            if fix:
                return [ne, norm(num(1.1)), 1, norm(num(0.29)), 3, nb, norm(num(0.3))]
            return [ne, real('bias', **k), real('intra', **k), real('inter', **k), real('nstd', **k), nb, real('limit', **k)]
        return f
    for n in (0, 1, 2):
        tail(n, 'any', tpar(5, 4, 1), 'tail check, %d reports, any values' % n, n < 2)
        whole(n, 'any', wpar(5, 3, True), 'bias and noise, %d reports, any values' % n, n < 2)
    for lw, sw, nb in ((-1, 1, 1), (0, 1, 1), (2, 1, 1), (1, 0, 1), (1, 1, 0), (1, 1, 1)):
        tail(0, 'any', tpar(lw, sw, nb, False, True), 'tail check parameters, windows %d and %d, %d' % (lw, sw, nb), False)
    for ne, nb in ((0, 1), (-1, 1), (1, 0), (1, 1)):
        whole(0, 'any', wpar(ne, nb, False, True), 'bias and noise parameters %d %d' % (ne, nb), False)
    for n, lw, sw, nb in ((1, 1, 1, 1), (2, 1, 5, 1), (2, 5, 1, 1), (3, 3, 5, 1), (2, 5, 2, 2), (2, 5, 2, 1)):
        tail(n, 'real', tpar(lw, sw, nb), 'tail check, %d reports, windows %d and %d, %d bad' % (n, lw, sw, nb), False)
    for n, ne, nb in ((1, 1, 1), (2, 2, 1), (1, 2, 1), (2, 3, 2), (2, 3, 1), (3, 3, 1)) + (((3, 4, 2),) if T else ()):
        whole(n, 'real', wpar(ne, nb), 'bias and noise, %d reports, %d needed, %d bad' % (n, ne, nb), False)
    for n, mode, lw, sw, nb in ((6, 'p', 3, 1, 1), (6, 'p', 3, 2, 1), (6, 'p', 9, 2, 1), (6, 'p', 9, 3, 2), (6, 'p', 5, 2, 1), (7, 'p', 3, 3, 2),
                                (4, 'pul', 3, 2, 1), (4, 'pul', 1, 2, 2), (5, 'pu', 3, 2, 1), (5, 'pl', 3, 1, 1), (5, 'pl', 9, 2, 1)) + (
                                ((8, 'p', 3, 2, 1), (8, 'p', 5, 2, 2), (6, 'pl', 3, 2, 1), (6, 'pu', 3, 2, 1), (5, 'pul', 3, 2, 2)) if T else ()):
        tail(n, mode, tpar(lw, sw, nb, True), 'tail check patterns %s of %d, windows %d and %d, %d bad' % (mode, n, lw, sw, nb), False)
    for n, mode, ne, nb in ((4, 'pul', 3, 1), (4, 'pul', 4, 2), (4, 'pul', 9, 2), (5, 'pu', 4, 1)):
        whole(n, mode, wpar(ne, nb, True), 'bias and noise patterns %s of %d, %d needed, %d bad' % (mode, n, ne, nb), False)
    for fn in ('trim_mean', 'trim_std'):
        for n in (1, 2, 3, 4):
            for t in (0, 2, 3, 4, 10, 100):
                if (n, t) == (1, 2) or n < t * 0 or n // t * 2 >= n if t else False:
                    continue
                c.equiv('trackqc.' + fn, 'drift.' + fn, lambda r, n=n, t=t: [AList([real('x%d' % i) for i in range(n)]), t],
                        name='%s(%d) of %d values' % (fn, t, n))
    c.flush()
    c.need(len(c.instances), 60, 'instances')


def _run(c, fn, spec, vals, n, par, name, day, flags):
    def mk(r):
        return record(r, vals, n)

    def impl(run, a, k):
        DAY[0] = [False, True] if day else [False]
        run.call(lookup(run, fn), [AList(a)] + par())
        return flags(run, a)

    def smk(r):
        v = vals()
        mk(r)
        alts = [False, True] if day else [False]
        return [AList(list(x)) for x in v] + [AList([Lazy('daytime%d' % i, alts) for i in range(n)])] + par()
    c.equiv(fn, spec, mk, cfg=config(), call=impl, spec_mk=smk, name=name)
