"""Writing the outputs of decks and ships is interpreted for reports with every pattern of missing values, dates and
flags listed below, with the values themselves unknown; the text written to each file is compared with a reference
definition of the files."""
from ..equiv import *
from .. import env, report as R, voyage as V
from ..interp import mkstr

EXT = ['OSTIA', 'ICE', 'BGVAR']
CLIM = ['AT', 'SST', 'DPT', 'SLP']
VARS = ['HR', 'LAT', 'LON', 'AT', 'SST', 'DPT', 'SLP', 'W', 'D']




def config(run_files=None):
    cfg = env.install(Config())

    def pent(run, a, k):
        m, d = run.force(a[0]), run.force(a[1])
        if m is None or d is None or not (run.order('GtE', m, 1) and run.order('LtE', m, 12) and run.order('GtE', d, 1)
                                          and run.order('LtE', d, 31)):
            raise PyExc('AssertionError')
        return fnatom('u:pentad', tuple(V._nrm(run, [m, d])), True, lo=Fr(1), hi=Fr(73))
    cfg.overrides['qc.which_pentad'] = pent
    cfg.overrides['spec_out.pentad'] = pent
    return cfg


class Case(object):
    """date: (y, m, d) values or None; has(name): whether a value is there; set_(key): whether a flag is set"""

    clim = CLIM

    def __init__(self, ident, date, has=lambda v: True, flag=lambda k: True, ext=True):
        self.ident, self.date, self.has, self.flag, self.ext = ident, date, has, flag, ext

    def build(self, r, i, keys):
        p = 'r%d' % i
        vals, seen = {}, {}
        vl = R.varlist(r)
        for v in vl:
            vals[v] = sym(p + v, v in R.INTS) if self.has(v) else NAN
            seen[v] = R.none_for_nan(vals[v])
        for v, x in zip(('YR', 'MO', 'DY'), self.date):
            vals[v] = NAN if x is None else x
            seen[v] = R.none_for_nan(vals[v])
        flags = {k: integer(p + 'flag' + k, lo=0, hi=9) for k in keys if self.flag(k)}
        rep = R.report(r, prefix=p, values=vals, flags=flags)
        rep.attrs['id'] = self.ident
        for v in self.clim:
            if self.has(v + '.var'):
                n = sym(p + 'norm' + v) if self.has(v + '.norm') else None
                r.call_method(rep, 'add_climate_variable', [v, n])
                seen[v + '_anom'] = r.binop('Sub', seen[v], n) if n is not None and self.has(v) else None
        for v in EXT:
            if self.ext:
                x = sym(p + v) if self.has(v) else None
                r.call_method(rep, 'setext', [v, x])
                seen[v] = x
        seen['ID'] = self.ident
        seen['UID'] = rep.attrs['uid']
        return rep, (ADict(list(seen.items())), ADict(list(flags.items())))


def keys_of(blocks):
    return sorted({t + n for t, ns in blocks for n in ns})


def const(run, name):
    v = lookup_value(run, 'out.' + name)
    return [(run.force(t), [run.force(x) for x in run.iterate(ns)]) for t, ns in run.iterate(v)]


def lookup_value(run, name):
    mod, n = name.split('.')
    return run.module('spec_' + mod).ns[n]


def out(run, w):
    return AList(sorted([(w.names[n], mkstr(list(t))) for n, t in w.written.items()], key=lambda x: env.name_of(run, run.resolved_text(x[0]))))


def canonical(run, v):
    return AList(sorted([(env.text_name(run, a), b) for a, b in run.iterate(v)], key=lambda x: env.name_of(run, run.resolved_text(x[0]))))


def check(c):
    c.batch()
    Y, M = integer('year', lo=1000, hi=9999), integer('month', lo=1, hi=12)
    D = integer('day', lo=1, hi=31)
    every = VARS + EXT + [v + '.norm' for v in CLIM] + [v + '.var' for v in CLIM]
    modes = [('everything present', {}), ('everything missing', dict(has=lambda v: False)),
             ('no flag set', dict(flag=lambda k: False)), ('nothing extended', dict(ext=False))]
    for v in every:
        modes.append(('%s missing' % v, dict(has=lambda x, v=v: x != v)))
    modes.append(('every other flag set', dict(flag=lambda k: len(k) % 2 == 0)))
    modes.append(('SST flags only', dict(flag=lambda k: k.startswith('SST'))))
    cases = [('one report, ' + n, [Case('SHIP     ', (Y, M, D), **k)]) for n, k in modes]
    cases += [('date %s' % (d,), [Case('SHIP     ', d)]) for d in
              [(Y, M, None), (Y, 2, 30), (Y, 4, 31), (2000, 2, 29), (1900, 2, 29), (None, M, D), (Y, None, D), (None, None, None)]]
    cases += [('identifier %r' % n, [Case(n, (Y, M, D))]) for n in ('A/B*C', '/', '**//', 'a b', '_')]
    many = [(1990, 12, 31), (1991, 1, 1), (1991, 1, 1), (1991, 2, 1), (1990, 1, 5), (None, 1, 5), (1991, None, 3), (1991, 1, None), (1991, 1, 31)]
    cases.append(('many reports', [Case('X/1', d, has=lambda v, i=i: (len(v) + i) % 3 > 0, flag=lambda k, i=i: (len(k) + i) % 2 > 0)
                                   for i, d in enumerate(many)]))
    cases.append(('reports of other months only', [Case('Y', d) for d in many[3:5]]))
    for label, reps in cases:
        y, m = (1991, 1) if len(reps) > 1 else (Y, M)
        writers(c, label, reps, y, m)
    for label, k in (('test', dict(test=True)), ('no test', dict(test=False))):
        writers(c, label, [Case('SHIP     ', (Y, M, D))], Y, M, kw=k)
    deck_writers(c, 'an empty deck', [], Y, M)
    c.flush()
    c.need(len(c.instances), 255, 'instances')


def writer(c, label, reps, y, m, cls, meth, spec, blocks, extra=(), spec_extra=(), kw=None, given=None):
    def built(r):
        ks = keys_of(const(r, blocks))
        return [x.build(r, i, ks) for i, x in enumerate(reps)]

    def impl(run, a, k):
        run.world = env.World()
        o = run.call(R.cls(run, cls), [])
        for rep, seen in built(run):
            if cls == 'Deck':
                run.call_method(o, 'append', [rep])
            else:
                run.iterate(o.attrs['reps'])
                o.attrs['reps'].items.append(rep)
        args = ['run1', '/out/dir', y, m] + ([given(run)] if given else [])
        run.call_method(o, meth, args, kw)
        return out(run, run.world)

    def ref(run):
        args = [AList([s for _, s in built(run)]), 'run1', '/out/dir', y, m] + \
            ([given(run, True)] if given else []) + list(spec_extra)
        return args
    c.equiv('Extended_IMMA.%s.%s' % (cls, meth), 'out.' + spec, lambda r: [], cfg=config(), call=impl, spec_mk=ref,
            post=canonical, name='%s.%s: %s' % (cls, meth, label))


def given_blocks(name):
    def f(run, spec=False):
        bs = const(run, name)
        if spec:
            return AList([(t, AList(list(ns))) for t, ns in bs])
        return ADict([(t, AList(list(ns))) for t, ns in bs])
    return f


def deck_writers(c, label, reps, y, m, kw=None):
    t = bool(kw and kw.get('test'))
    writer(c, label, reps, y, m, 'Deck', 'write_output', 'deck_files', 'DECK_FLAGS', spec_extra=[t, False], kw=kw)
    writer(c, label, reps, y, m, 'Deck', 'write_min_output', 'deck_files', 'MIN_FLAGS', spec_extra=[t, True], kw=kw)
    writer(c, label, reps, y, m, 'Deck', 'write_qc', 'flag_files', 'DECK_FLAGS', spec_extra=[t, ''], kw=kw,
           given=given_blocks('DECK_FLAGS'))


def writers(c, label, reps, y, m, kw=None):
    deck_writers(c, label, reps, y, m, kw)
    if kw:
        return
    writer(c, label, reps, y, m, 'Voyage', 'write_output', 'ship_files', 'SHIP_FLAGS')
    writer(c, label, reps, y, m, 'Voyage', 'write_qc', 'ship_flag_files', 'SHIP_FLAGS', given=given_blocks('SHIP_FLAGS'))
    writer(c, label, reps, y, m, 'Voyage', 'write_tracking_output', 'tracking_file', 'TRACK_FLAGS')
