"""The whole tracking QC of one drifter is interpreted, from the command line and the files of single months to the file
it writes, with the four checks themselves (decided elsewhere) answering anything; what is handed to each check and what
is written are compared with a reference definition."""
from ..equiv import *
from .. import env, report as R, voyage as V
from ..interp import mkstr
from ..interp import Num, pconst
from ..models import to_str
from .P35 import const, keys_of, canonical, out, config as out_config

CHECKS = {'new_buoy_aground_check': ('aground', ['POSdrf_agr']), 'new_buoy_speed_check': ('speed', ['POSdrf_spd']),
          'buoy_aground_check': ('old aground', ['POSdrf_agr']), 'buoy_speed_check': ('old speed', ['POSdrf_spd']),
          'buoy_tail_check': ('tail', ['SSTdrf_tail1', 'SSTdrf_tail2']),
          'buoy_bias_noise_check': ('bias and noise', ['SSTdrf_bias', 'SSTdrf_noise', 'SSTdrf_short'])}
PARAMETERS = [('runid', 'RUN'), ('new_buoy_aground_check', 'aground parameters'), ('buoy_aground_check', 'old aground parameters'),
              ('new_buoy_speed_check', 'speed parameters'), ('buoy_speed_check', 'old speed parameters'),
              ('IQUAM_track_check', 'iquam parameters'), ('buoy_tail_check', 'tail parameters'),
              ('buoy_bias_noise_check', 'bias parameters')]
COLUMNS = ['ID', 'YR', 'MO', 'DY', 'HR', 'LAT', 'LON', 'AT', 'AT_anom', 'SST', 'SST_anom', 'DPT', 'DPT_anom', 'SLP', 'SLP_anom',
           'OSTIA', 'ICE', 'BGVAR']
USED = ['isbuoy', 'date', 'time', 'pos', 'blklst', 'clim', 'nonorm', 'freez', 'noval', 'rep', 'hardlimit', 'bbud']


def result(run, a, k):
    f, uid = run.force(a[0]), run.force(a[1])
    if run.fixed is not None and uid not in run.fixed:
        return 0
    return integer('%s of %s' % (f, vkey(uid)), lo=0, hi=1)


def config():
    cfg = V.config()
    for k, v in out_config().overrides.items():
        cfg.overrides[k] = v
    env.install(cfg)
    cfg.loop_cap = 400
    cfg.overrides['spec_track.result'] = result

    cfg.overrides['Extended_IMMA.MarineReport.__sub__'] = lambda run, a, k: (1, 1, 1, 1)

    def set_qc(run, a, k):
        a = V.bind(run, 'Extended_IMMA.MarineReport.set_qc', a, k)
        run.dict_set(a[0].attrs['qc'], mkstr([a[1], a[2]]), a[3])
        return None
    cfg.overrides['Extended_IMMA.MarineReport.set_qc'] = set_qc
    for meth, (name, flags) in CHECKS.items():
        def check(run, a, k, meth=meth, name=name, flags=flags):
            a = V.bind(run, 'Extended_IMMA.Voyage.' + meth, a, k)
            n = 2 if meth == 'new_buoy_speed_check' else 1
            voy, pars, sort = a[0], a[1:1 + n], a[1 + n] if len(a) > 1 + n else True
            if run.truth(sort):
                run.call_method(voy, 'sort', [])
            reps = run.iterate(run.call_method(voy, 'rep_feed', []))
            if not reps:
                return None
            if run.force(run.call_method(reps[0], 'getvar', ['PT'])) != 7:
                run.called.append(('wrong platform type', AList([]), AList([])))
                return None
            uids = [run.call_method(r, 'getvar', ['UID']) for r in reps]
            run.called.append((name, AList(pars), AList(uids)))
            for r, u in zip(reps, uids):
                for f in flags:
                    run.dict_set(r.attrs['qc'], f, result(run, [f, u], {}))
            return None
        cfg.overrides['Extended_IMMA.Voyage.' + meth] = check
    return cfg


class Rep(object):
    """date: (y, m, d, h); flags: {key: value} (others 0, isbuoy 1; 'any': unknown); missing: columns without a value"""

    def __init__(self, uid, date, flags=None, missing=(), free=()):
        self.uid, self.date, self.flags, self.missing, self.free = uid, date, flags or {}, missing, free

    def value(self, col):
        if col in self.missing:
            return None
        if col in ('YR', 'MO', 'DY', 'HR'):
            v = self.date[('YR', 'MO', 'DY', 'HR').index(col)]
            return Num(pconst(v), False) if col == 'HR' else v
        return sym(self.uid + col)

    def flag(self, key):
        if key in self.flags:
            return self.flags[key]
        if key in self.free:
            return integer(self.uid + key, lo=0, hi=9)
        return 1 if key == 'POSisbuoy' else 0

    def line(self, r, ident):
        cs = [self.uid, '0000-00-00', '0']
        for c in COLUMNS:
            v = ('"%s"' % ident) if c == 'ID' else self.value(c)
            cs.append('\\N' if v is None else to_str(r, v))
        return joined(cs)

    def flagline(self, r, kind, names):
        return joined([self.uid] + [to_str(r, self.flag(kind + n)) for n in names])

    def seen(self, ident, keys):
        v = {c: self.value(c) for c in COLUMNS if c != 'ID'}
        v.update(ID=ident, UID=self.uid)
        return (ADict(list(v.items())), ADict([(k, self.flag(k)) for k in keys]))


def joined(cs):
    parts = []
    for i, c in enumerate(cs):
        parts += [',', c] if i else [c]
    return mkstr(parts + ['\n'])


def safe(x):
    return x.replace('/', '_').replace('*', '_')


class Files(object):
    """months: {(y, m): [Rep]}; spoil(files, name maker): damage done to the files"""

    def __init__(self, months, ident='DRIFTER1 ', spoil=None):
        self.months, self.ident, self.spoil = months, ident, spoil

    def name(self, kind, y, m):
        return '/in/%d/%02d/%s_%d%02d_%s_RUN.csv' % (y, m, kind, y, m, safe(self.ident))

    def build(self, r):
        files = {'/par': ['']}
        for (y, m), reps in self.months.items():
            files[self.name('Variables', y, m)] = [','.join(['UID', 'DATE', 'PENTAD'] + COLUMNS) + '\n'] + \
                [x.line(r, self.ident) for x in reps]
            for kind, names in const(r, 'SHIP_FLAGS'):
                files[self.name(kind + '_qc', y, m)] = [','.join(['UID'] + names) + '\n'] + \
                    [x.flagline(r, kind, names) for x in reps]
        if self.spoil:
            self.spoil(files, self.name)
        return files


def driver(c, label, files, edges, span, ident=None, tag='200001-200112', dirs=(), refuse=False, fixed=None):
    cfg = config()
    y1, m1, y2, m2 = span

    def impl(run, a, k):
        run.called = []
        run.fixed = fixed
        w = run.world = env.World(args=dict(config='conf.txt', id=ident if ident is not None else files.ident.strip(), yr1=y1, mn1=m1,
                                            yr2=y2, mn2=m2, edge=AList(list(edges)), runmonthid=tag),
                                  cfg={('Directories', 'out_dir'): '/in', ('Directories', 'track_out_dir'): '/track',
                                       ('Files', 'parameter_file'): '/par'}, files=files.build(run),
                                  json=lambda run, n: ADict(list(PARAMETERS) if n == '/par' else []), dirs=['/track'] + list(dirs))
        w.strict = True
        try:
            run.call(lookup(run, 'tracking_qc.main'), [AList([])])
        except PyExc as e:
            if e.cls == 'Unspecified':
                raise
            if not w.written:
                return 'refused'
            return ('failed after writing', e.cls)
        return (AList(list(run.called)), out(run, w))

    def smk(r):
        r.fixed = fixed
        keys = keys_of(const(r, 'SHIP_FLAGS'))
        ms = AList([AList([x.seen(files.ident, keys) for x in files.months[k]]) for k in sorted(files.months)
                    if (y1, m1) <= k <= (y2, m2)])
        return [ms, files.ident, 'RUN', '/track', y2, m2, AList(list(edges)), tag]

    def post(run, v):
        if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], AList):
            return (v[0], canonical(run, v[1]))
        return v
    if refuse:
        cfg.overrides['spec_any.anything'] = lambda run, a, k: 'refused'
    c.equiv('tracking_qc.main', 'any.anything' if refuse else 'track.track', lambda r: [], cfg=cfg, call=impl,
            spec_mk=(lambda r: []) if refuse else smk, post=None if refuse else post, name=label)


def check(c):
    c.batch()
    D = lambda d, h=0, m=1, y=2000: (y, m, d, h)
    pos = ['POS' + x for x in ('isbuoy', 'date', 'time', 'pos', 'blklst')]
    sst = ['SST' + x for x in ('clim', 'nonorm', 'freez', 'noval', 'rep', 'hardlimit', 'bbud')]
    other = [k for k in ('POSday', 'POSisship', 'POStrk', 'POSiquam_track', 'POSisdrifter', 'SSTbud', 'SSTnbud', 'SSTspike')]
    one = (2000, 1, 2000, 1)

    def flagged(label, *frees, **kw):
        driver(c, label, Files({(2000, 1): [Rep('U%d' % i, D(5 - i), free=f) for i, f in enumerate(frees)]}), ['regular'], one, **kw)
    flagged('one report, any position flags', pos)
    flagged('one report, any SST flags', sst, fixed=[])
    flagged('one report, any other flags', other)
    flagged('two reports, any position flags', pos[:2], pos[2:], fixed=[])
    flagged('two reports, any SST flags', sst[::3], sst[1::3], fixed=[])
    flagged('two reports, any outcomes', sst[:1], sst[-1:])
    if c.thorough():
        flagged('one report, any flags', pos + sst + other)
        flagged('two reports, any position flags, all of both', pos, pos, fixed=[])
        flagged('two reports, any SST flags and outcomes', sst, sst[-2:], fixed=['U1'])
    for m in COLUMNS:
        if m not in ('ID', 'YR', 'MO', 'DY', 'HR'):
            driver(c, 'one report without ' + m, Files({(2000, 1): [Rep('U1', D(5), missing=(m,))]}), ['regular'], one)
    # order of time, whole chunks, gaps
    several = {(1999, 11): [Rep('A', D(3, 12, 11, 1999)), Rep('B', D(3, 6, 11, 1999)), Rep('C', D(1, 6, 11, 1999))],
               (1999, 12): [], (2000, 1): [Rep('D', D(9)), Rep('E', D(9)), Rep('F', D(2))], (2000, 3): [Rep('G', D(1, 0, 3))],
               (2000, 4): [Rep('H', D(1, 0, 4))]}
    driver(c, 'several months', Files(several), ['regular'], (1999, 11, 2000, 3), fixed=['C', 'D'])
    driver(c, 'several months, reports left out', Files({k: [Rep(x.uid, x.date, free=['POSdate'] if x.uid in 'AEG' else []) for x in v]
                                                           for k, v in several.items() if k > (1999, 11)}), ['regular'], (1999, 12, 2000, 4), fixed=['E'])
    driver(c, 'part of the months', Files(several), ['new'], (1999, 12, 2000, 2), fixed=['F'])
    # kinds of chunks
    simple = {(2000, 2): [Rep('U1', D(5, 0, 2)), Rep('U2', D(6, 0, 2))]}
    feb = (2000, 2, 2000, 2)
    for edges in (['new'], ['regular'], ['start_edge_case'], ['end_edge_case'], ['start_edge_case', 'end_edge_case'],
                  ['start_edge_case', 'new'], ['new', 'regular']):
        driver(c, 'chunk ' + ' '.join(edges), Files(simple), edges, feb, fixed=[])
    for dirs in (['/track/TrackingQC'], ['/track/TrackingQC', '/track/TrackingQC/2000'],
                 ['/track/TrackingQC', '/track/TrackingQC/2000', '/track/TrackingQC/2000/02'],
                 ['/track/TrackingQC', '/track/TrackingQC/2000', '/track/TrackingQC/2000/02', '/track/TrackingQC/2000/02/end_edge_case_T']):
        driver(c, '%d directories there already' % len(dirs), Files(simple), ['new', 'end_edge_case'], feb, tag='T', dirs=dirs, fixed=[])
    # identifiers
    for ident in ('A        ', 'A/B*     ', '123456789', 'WITH SP  ', '1234567890'):
        driver(c, 'identifier %r' % ident, Files(simple, ident=ident), ['regular'], feb, fixed=[])
        if ident.endswith(' '):
            driver(c, 'padded identifier %r' % ident, Files(simple, ident=ident), ['regular'], feb, fixed=[], ident=ident)
    driver(c, 'no data at all', Files({}), ['regular'], feb)
    driver(c, 'no reports', Files({(2000, 2): []}), ['regular'], feb)
    driver(c, 'another identifier', Files(simple), ['regular'], feb, ident='OTHER', refuse=True)

    # damaged files
    def spoil(kind, f):
        def g(files, name):
            n = name(kind, 2000, 2)
            x = f(files[n])
            if x is None:
                del files[n]
            else:
                files[n] = x
        return g
    for kind in ('Variables', 'POS_qc', 'SST_qc'):
        damage = [('missing', lambda l: None), ('empty', lambda l: []), ('cut short', lambda l: l[:-1]),
                  ('only a header', lambda l: l[:1]), ('too long', lambda l: l + [l[-1]]),
                  ('for another report', lambda l: l[:1] + [mkstr(['OTHER', l[1][2:] if isinstance(l[1], str) else tail(l[1])])] + l[2:])]
        if kind == 'SST_qc':
            damage.append(('in another order', lambda l: l[:1] + [l[2], l[1]]))
        for what, f in damage:
            driver(c, '%s file %s' % (kind, what), Files(simple, spoil=spoil(kind, f)), ['regular'], feb, refuse=True)
    c.flush()
    c.need(len(c.instances), 60, 'instances')


def tail(line):
    """line without its first two characters"""
    p = line.parts
    return mkstr([p[0][2:]] + list(p[1:]))
