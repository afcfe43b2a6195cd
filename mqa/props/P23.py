"""The stand-alone track check module: its projections, its single pass and its five-pass version are
interpreted over voyages of up to four reports and compared with the same reference as the voyage's own check."""
from ..equiv import *
from .. import report as R
from .. import voyage as V
from .P22 import config, voyage, reported


def check(c):
    c.batch()
    for n in range(1, 5):
        for fn, spec in (('distr1', 'distances'), ('distr2', 'distances_back'), ('midpt', 'midpoints')):
            if n == 1 and fn == 'midpt':
                continue
            mode = 'any' if n < 4 else 'all'

            def impl(run, a, k, fn=fn):
                return run.call(lookup(run, 'track_check.' + fn), [V.voyage(run, a)])
            c.equiv('track_check.' + fn, 'trk.' + spec, voyage(n, mode), cfg=config(), call=impl,
                    spec_mk=lambda r, n=n, mode=mode: [V.places(n)] + [AList(x) for x in reported(n, mode)],
                    name='%s of %d reports' % (fn, n))
    cases = [(0, 'none', False), (1, 'none', False), (2, 'none', False), (3, 'none', False), (3, 'all', True), (4, 'none', True)]
    if c.thorough():
        cases += [(3, 'any', True), (4, 'all', True)]
    for n, mode, plain in cases:
        def mk(r, n=n, mode=mode, plain=plain):
            if plain:
                return voyage(n, mode, True)(r)
            rs = voyage(n, mode)(r)
            for x in rs:
                x.attrs['data'].items[R.varlist(r).index('DCK')] = Lazy('deck', [NAN, 720, integer('deckno')])
            return rs

        def impl(run, a, k):
            v = V.voyage(run, a)
            run.call(lookup(run, 'track_check.mds_track_check'), [v])
            return tuple(AList([run.call_method(x, 'get_qc', ['POS', t]) for x in a]) for t in ('bad_track', 'fewsome_check'))
        c.equiv('track_check.mds_track_check', 'trk.flags_one', mk, cfg=config(plain), call=impl,
                spec_mk=lambda r, n=n, mode=mode, plain=plain: [V.places(n)] + [AList(x) for x in reported(n, mode)] +
                [Opq('theID', kind='str'), 1 if plain else R.none_for_nan(Lazy('deck', [NAN, 720, integer('deckno')]))],
                name='one pass over %d reports, reported speeds and courses %s%s' % (n, mode, ', distinct times' if plain else ''))
    for n in range(0, 7 if c.thorough() else 6):
        def impl(run, a, k):
            v = V.voyage(run, a)
            run.call(lookup(run, 'track_check.mds_full_track_check'), [v])
            return AList([run.call_method(x, 'get_qc', ['POS', 'bad_track']) for x in a])
        cfg = config(True)

        def verdicts(names, steps):
            return AList([0 if x in (names[0], names[-1]) else
                          fnatom('u:verdict %s' % x, (tuple(names), tuple(steps)), True, Fr(0), Fr(1)) for x in names])

        def one(run, a, k):
            rs = run.iterate(run.call_method(a[0], 'rep_feed', []))
            return verdicts([x.ident for x in rs], [tuple(V._nrm(run, V.ext(run, x, V.NAMES))) for x in rs])

        def ref(run, a, k):
            return verdicts([run.force(x) for x in run.iterate(a[0])], [tuple(V._nrm(run, run.force(x))) for x in run.iterate(a[1])])
        cfg.overrides['track_check.mds_track_check'] = one
        cfg.overrides['spec_trk.verdicts'] = ref
        c.equiv('track_check.mds_full_track_check', 'trk.full', voyage(n, 'none', True), cfg=cfg, call=impl,
                spec_mk=lambda r, n=n: [V.places(n), AList(['r%d' % i for i in range(n)])], name='five passes over %d reports' % n)
    # long voyages: which report fails in each pass is given ('-': none)
    for n, fails in ((9, '12345678'), (9, '4567123'), (10, '12345678'), (8, '123-'), (9, '1234-5'), (9, '7654321')):
        def impl(run, a, k):
            v = V.voyage(run, a)
            run.call(lookup(run, 'track_check.mds_full_track_check'), [v])
            return AList([run.call_method(x, 'get_qc', ['POS', 'bad_track']) for x in a])

        cfg = config(True)
        cfg.overrides['track_check.mds_track_check'] = lambda run, a, k, n=n, fails=fails: AList(
            [1 if x.ident == 'r' + fails[n - len(rs)] else 0 for rs in [run.iterate(run.call_method(a[0], 'rep_feed', []))] for x in rs])
        cfg.overrides['spec_trk.verdicts'] = lambda run, a, k, n=n, fails=fails: AList(
            [1 if x == 'r' + fails[n - len(rs)] else 0 for rs in [[run.force(y) for y in run.iterate(a[0])]] for x in rs])
        c.equiv('track_check.mds_full_track_check', 'trk.full', voyage(n, 'none', True), cfg=cfg, call=impl,
                spec_mk=lambda r, n=n: [V.places(n), AList(['r%d' % i for i in range(n)])], name='five passes over %d reports failing %s' % (n, fails))
    c.flush()
    c.need(len(c.instances), 26, 'instances')
