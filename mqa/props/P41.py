"""The sun's position is interpreted for every date, time and place (sine, cosine and their inverses uninterpreted, whole
turns removed) and compared with its reference definition: once for all dates, times and places with sines and cosines
too small for the guards against rounding errors to act, once with any sines and cosines for one date of each kind of year."""
from ..equiv import *
from ..models import f_trig, turned
from ..interp import PI


def small(cfg):
    def f(name, lo, hi):
        def h(run, a, k):
            r = f_trig(name)(run, a, k)
            for m in (num(r).p.t if isinstance(r, (Num, int)) else ()):
                for x, _ in m:
                    if x.kind == 'fn' and x.name == name:
                        run.constrain(padd(pconst(lo), patom(x), -1), '<=')
                        run.constrain(padd(patom(x), pconst(hi), -1), '<=')
            return r
        return h
    cfg.models['math.sin'] = cfg.models['np.sin'] = f('sin', Fr(-1, 2), Fr(1, 2))
    cfg.models['math.cos'] = cfg.models['np.cos'] = f('cos', Fr(1, 2), Fr(3, 5))
    cfg.models['math.asin'] = cfg.models['np.arcsin'] = f('asin', Fr(-6, 5), Fr(6, 5))
    return cfg


def check(c):
    c.batch()

    def free(r):
        return [integer('day'), real('hour'), real('minute'), real('sec'), real('zone'), real('dasvtm'), real('lat'), real('lon')]

    def noon(r):
        return [1, 12, 0, 0, 0, 0, real('lat', lo=-90, hi=90), 10]
    for r in range(4):
        for args, cfg in ((free, small(Config())), (noon, Config())):
            def year(run, r=r, args=args):
                return (integer('k') if args is free else 2), r

            def impl(run, a, k, year=year, args=args):
                n, r = year(run)
                y = norm(Num(padd(pscale(num(n).p, 4), pconst(1980 + r)), True))
                az, el, rta, hra, sid, dec = [run.force(x) for x in run.iterate(run.call(lookup(run, 'qc.sunangle'), [y] + args(run)))]
                rad = run.binop('Div', PI, 180)
                out = [el, dec, rta]
                for x in (hra, sid):
                    x = run.binop('Mult', x, rad)
                    out += [f_trig('sin')(run, [x], {}), f_trig('cos')(run, [x], {})]
                return tuple(out + [None if isinstance(az, int) and az in (0, 180) else az])        # in the zenith
            c.equiv('qc.sunangle', 'sun.position', lambda run: [], cfg=cfg, call=impl,
                    spec_mk=lambda run, year=year, args=args: list(year(run)) + args(run),
                    name='year 1980 + 4k + %d, %s' % (r, 'any date, time and place' if args is free else 'any sines and cosines'))
    c.flush()
    c.need(len(c.instances), 8, 'instances')
