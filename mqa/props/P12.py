"""The Bayesian buddy check is interpreted over decks of up to three (thorough: four) observations in near and far boxes,
with unknown anomalies, spreads (missing and negative included), measurement error and noise scaling; the stored mean
and spread of each box and the flag (tenth of the gross-error probability, itself uninterpreted here) are compared with
the reference definition."""
from ..equiv import *
from .. import buddy as B
from .. import voyage as V
from . import P11 as O


def check(c):
    c.batch()
    rads = [[1, 1, 2], [2, 2, 4]]
    others = [(181, 89, 2), (178, 91, 2), (180, 89, 5), (183, 89, 0), (180, 89, 0)]
    for rad in rads:
        for b in others:
            for dup in (0, 1):
                def o(b=b, dup=dup):
                    r = [B.centre(O.NB[0]) + (real('a0'),)] + [B.centre(b) + (real('b%d' % i),) for i in range(1 + dup)]
                    return r + [B.centre((180, 90, 1)) + (real('c'),)] if dup else r
                any_ = (others.index(b) + dup + rads.index(rad)) % 3 + 1
                F = lambda any_=any_, b=b, dup=dup: [B.field('f%d' % i, i == any_ or b == others[0] and not dup) for i in (1, 2, 3)]

                def impl(run, args, k, o=o, rad=rad, F=F):
                    g = B.grid(run, o())
                    run.call_method(g, 'get_new_buddy_limits', F() + [AList(rad), real('sm', lo=0), real('noise', lo=0)])
                    return B.read_limits(run, g, o())
                if (dup or b in others[3:]) and rad == rads[0] and not c.thorough():
                    continue
                c.equiv('Extended_IMMA.Np_Super_Ob.get_new_buddy_limits', 'buddy.new_buddy_limits', lambda r: [], cfg=B.config(), call=impl,
                        spec_mk=lambda r, o=o, rad=rad, F=F: [AList(o())] + F() + [AList(rad), real('sm', lo=0), real('noise', lo=0)],
                        name='limits: %s and %d more at %s, radius %s' % (O.NB[0], dup + 1, b, rad))
    o = lambda: [B.centre(O.NB[0]) + (real('a0'),), B.centre((182, 91, 4)) + (real('b0'),)]
    F0 = lambda: [B.field('f%d' % i, False) for i in (1, 2, 3)]

    def impl(run, args, k):
        g = B.grid(run, o())
        run.call_method(g, 'get_new_buddy_limits', F0())
        return B.read_limits(run, g, o())
    c.equiv('Extended_IMMA.Np_Super_Ob.get_new_buddy_limits', 'buddy.new_buddy_limits', lambda r: [], cfg=B.config(), call=impl,
            spec_mk=lambda r: [AList(o())] + F0() + [AList([2, 2, 4]), 1, 3], name='limits with default parameters')
    N = 3
    for var in ('SST', 'AT'):
        for n in range(0, N + 1):
            if n > 1 and var == 'SST' and not (c.thorough() and n < 3):
                continue
            boxes = lambda i, n=n: B.pick('box%d' % i, (O.NB if c.thorough() else O.NB[1:] if n < 3 else O.CLOSE) if i else O.NB[:1])
            rad = [2, 2, 4] if n < 3 else [1, 1, 1]
            F = lambda n=n: [B.field('f%d' % i, n < 2) for i in (1, 2, 3)]

            def cfg(n=n):
                x = B.config()

                def prob(run, a, k):
                    p = pure('qc.p_gross', lo=0, hi=1)(run, V.bind(run, 'qc.p_gross', a, k), {})
                    if n < 2:
                        return p
                    return Lazy('probability ' + vkey(p), [0, Num(pconst(Fr(7, 20))), 1])
                x.overrides['qc.p_gross'] = prob
                return x

            def impl(run, args, k, var=var, n=n, boxes=boxes, rad=rad, F=F):
                d = O.deck(run, n, var, boxes)
                bb = ADict([('prior_probability_of_gross_error', real('p0')), ('quantization_interval', real('q')), ('measurement_error', real('sm', lo=0)),
                            ('limits', AList(rad)), ('noise_scaling', real('noise', lo=0))])
                run.call_method(d, 'bayesian_buddy_check', [var] + F() + [ADict([('bayesian_buddy_check', bb), (var, ADict([('maximum_anomaly', real('hi'))]))])])
                return AList([run.call_method(x, 'get_qc', [var, 'bbud']) for x in run.iterate(d.attrs['reps'])])
            c.equiv('Extended_IMMA.Deck.bayesian_buddy_check', 'buddy.bayes_check', lambda r: [], cfg=cfg(), call=impl,
                    spec_mk=lambda r, n=n, boxes=boxes, rad=rad, F=F: [AList(O.obs(n, boxes)), O.verdicts(n)] + F() + [
                        AList(rad), real('sm', lo=0), real('noise', lo=0), real('p0'), real('q'), real('hi')],
                    name='%s, %d observations' % (var, n))
    c.flush()
    c.need(len(c.instances), 18, 'instances')
