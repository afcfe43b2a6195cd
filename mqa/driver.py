"""One run of a quality control program, interpreted from its command line and the reports of each month's file to what
it hands to each check (decided elsewhere) and to the writers (decided elsewhere); the checks answer with given flags.
What is noted is compared, in no particular order, with what specs/drive.py notes for the same files."""
from .equiv import *
from . import env, report as R, voyage as V
from .interp import mkstr, pconst
from .models import to_str

PROGRAMS = {'all': 'marine_qc.main', 'hires': 'marine_qc_hires.main', 'track': 'marine_qc_track_only.main'}
FIELDS = [('SST', 'mean'), ('AT', 'mean'), ('SLP2', 'mean'), ('SHU', 'mean'), ('CRH', 'mean'), ('CWB', 'mean'), ('DPD', 'mean'),
          ('DPT', 'mean'), ('DPT', 'stdev'), ('AT2', 'mean'), ('AT2', 'stdev'), ('SLP', 'mean'), ('SLP', 'stdev')]
NORMALS = ['AT', 'AT2', 'CRH', 'CWB', 'DPD', 'DPT', 'SHU', 'SLP', 'SLP2', 'SST']
BASE = ['POSdate', 'POStime', 'POSpos', 'POSblklst', 'POSday', 'POSis780', 'POSisdrifter', 'POSisbuoy',
        'SSTnoval', 'SSTfreez', 'SSTclim', 'SSTnonorm', 'SSThardlimit', 'ATnoval', 'ATclim', 'ATnonorm', 'ATmat_blacklist', 'AThardlimit',
        'DPTnoval', 'DPTclim', 'DPTnonorm', 'DPThum_blacklist', 'DPThardlimit', 'DPTssat', 'SLPnoval', 'SLPclim', 'SLPnonorm',
        'Wnoval', 'Wconsistency', 'Whardlimit', 'Wwind_blacklist']
SHIP = {'track_check': ('track check', None), 'iquam_track_check': ('iquam check', None), 'spike_check': ('spike check', 'SST'),
        'find_saturated_runs': ('saturation', None), 'find_multiple_rounded_values': ('rounding', 'DPT'),
        'find_repeated_values': ('repeats', 'SST')}
SPREADS = [('Old_SST_stdev_climatology', '/oldspread'), ('SST_buddy_one_box_to_buddy_avg', '/spread1'),
           ('SST_buddy_one_ob_to_box_avg', '/spread2'), ('SST_buddy_avg_sampling', '/spread3')]
PARAMETERS = [('runid', 'RUN'), ('icoads_dir', 'icoads dirs'), ('icoads_filenames', 'icoads names'), ('background_dir', 'bg dirs'),
              ('background_filenames', 'bg names'), ('track_check', 'track parameters'), ('IQUAM_track_check', 'iquam parameters'),
              ('IQUAM_spike_check', 'spike parameters'), ('saturated_runs', 'saturation parameters'),
              ('multiple_rounded_values', 'rounding parameters'), ('find_repeated_values', 'repeat parameters'),
              ('mds_buddy_check', 'buddy parameters'), ('slp_buddy_check', 'slp buddy parameters'),
              ('bayesian_buddy_check', 'bayes parameters')]


class Report(object):
    def __init__(self, uid, ident='SHIP1    ', date=(2000, 1, 5), hour=6, readable=True, lat=10, lon=20, at=True, flags=None, free=(), trk=0,
                 reached=True, lacks=()):
        self.uid, self.ident, self.date, self.hour, self.readable, self.lat, self.lon = uid, ident, date, hour, readable, lat, lon
        self.at, self.flags, self.free, self.trk, self.reached, self.lacks = at, flags or {}, free, trk, reached, lacks

    def flag(self, k):
        if k in self.free:
            return integer(self.uid + k, lo=0, hi=9)
        return self.flags.get(k, 1 if k == 'POSisship' else 0)

    def track(self):
        return integer(self.uid + 'trk', lo=0, hi=9) if 'POStrk' in self.free else self.trk

    def data(self):
        y, m, d = self.date
        v = [('UID', self.uid), ('YR', y), ('MO', m), ('DY', d), ('HR', self.hour), ('LAT', self.lat), ('LON', self.lon),
             ('SST', sym(self.uid + 'SST')), ('AT', sym(self.uid + 'AT') if self.at else None),
             ('DCK', integer(self.uid + 'DCK')), ('SID', integer(self.uid + 'SID')), ('PT', integer(self.uid + 'PT'))]
        v = [x for x in v if x[0] not in self.lacks]
        return v + [('ID', self.ident)] if self.reached else v[:3]

    def seen(self):
        d = dict(self.data())
        return ADict([(k, d.get(k)) for k in ('UID', 'ID', 'YR', 'MO', 'DY', 'HR', 'LAT', 'LON', 'AT', 'SST', 'DCK', 'SID', 'PT')] +
                     [('readable', self.readable), ('trk', self.track()),
                      ('flags', ADict([(k, self.flag(k)) for k in BASE + ['POSisship']]))])




def fieldval(run, label, how, args):
    a = [run.force(x) for x in args]
    return sym('%s %s at %s' % (label, how, ' '.join(vkey(x) if x is not None else 'None' for x in V._nrm(run, a))))


def ostia(run, label, args):
    a = V._nrm(run, [run.force(x) for x in args])
    n = '%s at %s' % (label, ' '.join(vkey(x) for x in a))
    return Lazy(n, [None, sym(n)]) if run.missing_background else sym(n)


def field(run, name, var):
    """a field, or the fully masked one for no file"""
    o = AObj(None, 'field %s:%s' % (name, var))
    label = '%s:%s' % (name, var)
    order = {'get_value_mds_style': 4, 'get_value': 4, 'get_value_ostia': 2}

    def args(n, a, k):
        names = ['lat', 'lon', 'month', 'day'][:n]
        return list(a) + [k[x] for x in names[len(a):]]

    def make(how, short):
        def f(run, a, k):
            a = args(order[how], a, k)
            if how == 'get_value_ostia':
                return ostia(run, label, a) if name is not None else None
            if name is None:
                raise PyExc('AttributeError', 'masked field')
            return fieldval(run, label, short, a)
        return PyFn(how, f)
    o.attrs['get_value'] = make('get_value', 'plain')
    o.attrs['get_value_mds_style'] = make('get_value_mds_style', 'mds')
    o.attrs['get_value_ostia'] = make('get_value_ostia', 'ostia')
    o.attrs['label'] = label
    return o


def label_of(run, v):
    v = run.force(v)
    if isinstance(v, AObj) and 'label' in v.attrs:
        return v.attrs['label']
    return vkey(v) if not isinstance(v, str) else v


def param(run, v):
    v = run.force(v)
    return 'whole' if isinstance(v, ADict) and run.force(run.call_method(v, 'get', ['runid', None])) == 'RUN' else v


def flags_of(run, rep, keys):
    out = []
    for k in keys:
        for t in ('POS', 'SST', 'AT2', 'AT', 'DPT', 'SLP', 'W'):
            if k.startswith(t):
                break
        v = run.call_method(rep, 'get_qc', [t, k[len(t):]])
        out.append((k, v))
    return ADict(out)


ALL = sorted(BASE + ['POSisship', 'POSmonth_match', 'POStrk', 'POSiquam_track', 'SSTspike', 'DPTrepsat', 'DPTround'] +
             [v + 'rep' for v in ('SST', 'AT', 'AT2', 'DPT', 'SLP')] + [v + 'bud' for v in ('SST', 'AT', 'DPT', 'SLP')] +
             ['SSTbbud', 'ATbbud'])


def config(kinds, hires):
    """kinds: the kinds of notes that are compared"""
    cfg = V.config()
    env.install(cfg)
    cfg.loop_cap = 400
    o = cfg.overrides
    bind = lambda run, n, a, k: V.bind(run, n, a, k)

    def note(run, *a):
        if a[0] in kinds:
            run.notes.append(tuple(a))

    o['Extended_IMMA.MarineReport.__sub__'] = lambda run, a, k: (1, 1, 1, 1)

    def set_qc(run, a, k):
        a = bind(run, 'Extended_IMMA.MarineReport.set_qc', a, k)
        run.dict_set(a[0].attrs['qc'], mkstr([a[1], a[2]]), a[3])
        return None
    o['Extended_IMMA.MarineReport.set_qc'] = set_qc

    def readstr(run, a, k):
        a = bind(run, 'IMMA1.IMMA.readstr', a, k)
        x = run.lines[run.force(a[1])]
        for n, v in x.data():
            run.dict_set(a[0].attrs['data'], n, v)
        if not x.readable:
            raise PyExc('ValueError', 'unreadable')
        return None
    o['IMMA1.IMMA.readstr'] = readstr

    def from_filename(run, a, k):
        a = [x for x in a if not isinstance(x, ClassV)]
        name = a[0] if len(a) > 0 else k['infile']
        var = a[1] if len(a) > 1 else k['var']
        return field(run, run.force(name), run.force(var))
    o['Climatology.Climatology.from_filename'] = from_filename

    def icoads(run, a, k):
        a = [run.force(x) for x in bind(run, 'BackgroundField.icoads_filename_from_stub', a, k)]
        n = '/icoads/%d-%d' % (a[2], a[3])
        if a[0] != 'icoads dirs' or a[1] != 'icoads names':
            return '/wrong directories'
        return n if n in run.world.files or n in run.gone else None
    o['BackgroundField.icoads_filename_from_stub'] = icoads

    def background(run, a, k):
        a = [run.force(x) for x in bind(run, 'BackgroundField.get_background_filename', a, k)]
        if any(x is None for x in a[2:]):
            return None
        if a[0] != 'bg dirs' or a[1] != 'bg names':
            return 'wrong directories'
        return 'bg %d %d %d' % tuple(a[2:])
    o['BackgroundField.get_background_filename'] = background

    def humidity(run, a, k):
        a = bind(run, 'Extended_IMMA.MarineReport.calculate_humidity_variables', a, k)
        run.hums.setdefault(id(a[0]), set()).update(run.force(x) for x in run.iterate(a[1]))
        return None
    o['Extended_IMMA.MarineReport.calculate_humidity_variables'] = humidity

    def base(name):
        def f(run, a, k):
            a = bind(run, 'Extended_IMMA.MarineReportQC.perform_base_qc', a, k)
            rep = a[0]
            get = lambda v: run.force(run.call_method(rep, 'getvar', [v]))
            uid = get('UID')
            norms = []
            for v in NORMALS:
                n = run.force(run.call_method(rep, 'getnorm', [v]))
                s = run.force(run.call_method(rep, 'getnorm', [v, 'stdev']))
                if n is not None or s is not None:
                    norms.append((v, n, s))
            bg = (get('OSTIA'), get('ICE'), get('BGVAR'))
            note(run, name, uid, AList(norms), bg, AList(sorted(run.hums.get(id(rep), ()))),
                 get('AT2') if run.kind == 'all' else None, param(run, a[1]),
                 tuple(get(v) for v in ('ID', 'YR', 'MO', 'DY', 'HR', 'LAT', 'LON', 'AT', 'SST', 'DCK', 'SID', 'PT')))
            x = run.reports[uid]
            for kk in BASE + ['POSisship']:
                run.dict_set(rep.attrs['qc'], kk, x.flag(kk))
            return None
        return f
    for n, l in (('perform_base_qc', 'base'), ('perform_base_sst_qc', 'base sst'), ('perform_base_slp_qc', 'base slp'),
                 ('perform_base_wind_qc', 'base wind'), ('perform_base_dat_qc', 'base dat')):
        o['Extended_IMMA.MarineReportQC.' + n] = base(l)

    def uid(run, rep):
        return run.force(run.call_method(rep, 'getvar', ['UID']))

    def ship(meth, name, default):
        def f(run, a, k):
            a = bind(run, 'Extended_IMMA.Voyage.' + meth, a, k)
            reps = run.iterate(run.call_method(a[0], 'rep_feed', []))
            if not reps:
                return None
            var = run.force(a[2]) if len(a) > 2 else default
            note(run, name, var or '', param(run, a[1]), AList([uid(run, r) for r in reps]))
            for r in reps:
                q = r.attrs['qc']
                if meth == 'track_check':
                    run.dict_set(q, 'POStrk', run.reports[uid(run, r)].track())
                elif meth == 'iquam_track_check':
                    run.dict_set(q, 'POSiquam_track', 1)
                elif meth == 'spike_check':
                    run.dict_set(q, var + 'spike', 1)
                elif meth == 'find_saturated_runs':
                    run.dict_set(q, 'DPTrepsat', 1)
                elif meth == 'find_multiple_rounded_values':
                    run.dict_set(q, var + 'round', 1)
                else:
                    run.dict_set(q, var + 'rep', 1)
            return None
        return f
    for meth, (name, default) in SHIP.items():
        o['Extended_IMMA.Voyage.' + meth] = ship(meth, name, default)

    def passing(run, deck):
        out = set()
        for v in run.iterate(run.call_method(deck, 'get_one_platform_at_a_time', [])):
            out |= {uid(run, r) for r in run.iterate(run.call_method(v, 'rep_feed', []))}
        return out

    def all_reports(run, deck):
        return run.iterate(deck.attrs['reps'])

    def mds(run, a, k):
        a = bind(run, 'Extended_IMMA.Deck.mds_buddy_check', a, k)
        var, p = run.force(a[1]), passing(run, a[0])
        note(run, 'buddies', var, param(run, a[3]), AList([label_of(run, a[2])]),
             AList([u for u in [uid(run, r) for r in all_reports(run, a[0])] if u in p]))
        for r in all_reports(run, a[0]):
            run.dict_set(r.attrs['qc'], var + 'bud', 1 if uid(run, r) in p else 0)
        return None
    o['Extended_IMMA.Deck.mds_buddy_check'] = mds

    def bayes(run, a, k):
        a = bind(run, 'Extended_IMMA.Deck.bayesian_buddy_check', a, k)
        var, p = run.force(a[1]), passing(run, a[0])
        note(run, 'bayesian buddies', var, param(run, a[5]), AList([label_of(run, x) for x in a[2:5]]),
             AList([u for u in [uid(run, r) for r in all_reports(run, a[0])] if u in p]))
        for r in all_reports(run, a[0]):
            run.dict_set(r.attrs['qc'], var + 'bbud', 1 if uid(run, r) in p else 0)
        return None
    o['Extended_IMMA.Deck.bayesian_buddy_check'] = bayes

    def writer(cls, meth, name, nargs):
        def f(run, a, k):
            a = bind(run, 'Extended_IMMA.%s.%s' % (cls, meth), a, k)
            reps = all_reports(run, a[0])
            if reps:
                blocks = AList([])
                if nargs == 6:
                    b = run.force(a[5])
                    blocks = AList([(run.force(t), ns) for t, ns in (run.iterate(run.call_method(b, 'items', [])))])
                test = a[nargs] if len(a) > nargs else False
                note(run, name + (' as a test' if run.truth(test) else ''), env.text_name(run, a[1]), env.text_name(run, a[2]), a[3], a[4], blocks,
                     AList([(uid(run, r), flags_of(run, r, ALL)) for r in reps]))
            return None
        o['Extended_IMMA.%s.%s' % (cls, meth)] = f
    writer('Deck', 'write_output', 'month written', 5)
    writer('Deck', 'write_min_output', 'month written in short', 5)
    writer('Deck', 'write_qc', 'month flags written', 6)
    writer('Voyage', 'write_output', 'ship written', 5)
    writer('Voyage', 'write_qc', 'ship flags written', 6)
    writer('Voyage', 'write_tracking_output', 'tracking written', 5)

    # the same tables for the reference
    def spec_note(run, a, k):
        a = list(run.force(a[0]))
        if a[0] in kinds:
            if a[0].endswith('written') :
                full = []
                for u, q in run.iterate(a[6]):
                    full.append((u, ADict([(x, run.call_method(q, 'get', [x, 9])) for x in ALL])))
                a[6] = AList(full)
            if a[0].startswith('base'):
                a[2] = AList(sorted(run.iterate(a[2]), key=lambda x: x[0]))
            run.notes.append(tuple(a))
        return None
    o['spec_drive.note'] = spec_note
    o['spec_drive.value'] = lambda run, a, k: fieldval(run, run.force(a[0]), run.force(a[1]), a[2:])
    o['spec_drive.ostia'] = lambda run, a, k: ostia(run, run.force(a[0]), a[1:])
    o['spec_drive.safe'] = lambda run, a, k: a[0].replace('/', '_').replace('*', '_')
    return cfg


def key_of(n):
    return vkey(n) if not isinstance(n, tuple) else ' | '.join(key_of(x) for x in n)


def notes(run):
    return AList(sorted(run.notes, key=key_of))


CHECKS = ['track check', 'iquam check', 'spike check', 'saturation', 'rounding', 'repeats', 'buddies', 'bayesian buddies']
BASES = ['base', 'base sst', 'base slp', 'base wind', 'base dat']
WRITTEN = ['month written', 'month flags written', 'ship written', 'ship flags written', 'month written in short',
           'tracking written', 'month written as a test', 'month flags written as a test']


def drive(c, kind, label, files, span, kinds, tracking=False, excluded=(), gone=(), defaults=False):
    """files: {(y, m): [Report]}"""
    y1, m1, y2, m2 = span
    cfg = config(kinds, kind == 'hires')
    reports = {x.uid: x for rs in files.values() for x in rs}
    confs = {('Directories', 'ICOADS_dir'): '/unused', ('Directories', 'out_dir'): '/out', ('Files', 'IDs_to_exclude'): '/bad',
             ('Files', 'parameter_file'): '/par', ('Icoads', 'icoads_version'): '3.0'}
    for n, f in SPREADS:
        confs['Climatologies', n] = f
    for s in ('DJF', 'MAM', 'JJA', 'SON'):
        confs['Climatologies', s + '_ostia_background'] = '/bgvar ' + s

    def impl(run, a, k):
        run.missing_background = 'base' in kinds
        run.notes, run.hums, run.kind, run.reports, run.gone = [], {}, kind, reports, ['/icoads/%d-%d' % g for g in gone]
        run.lines = {}
        fs = {'/bad': [x + '\n' for x in excluded], '/par': ['']}
        for (y, m), rs in files.items():
            ls = []
            for i, x in enumerate(rs):
                l = 'record %d of %d-%d %s\n' % (i, y, m, x.uid)
                run.lines[l] = x
                ls.append(l)
            fs['/icoads/%d-%d' % (y, m)] = ls
        pars = list(PARAMETERS) + [
            ('climatologies', AList([AList([v, s, '/clim %s %s' % (v, s), 'v %s %s' % (v, s)]) for v, s in FIELDS])),
            ('hires_climatologies', AList([AList(['AT', 'mean', '/hires AT mean', 'x']), AList(['SST', 'mean', '/hires SST mean', 'sst']),
                                           AList(['SST', 'stdev', '/hires SST stdev', 'x'])]))]
        args = dict(config='conf.txt', year1=y1, month1=m1, year2=y2, month2=m2, tracking=tracking)
        w = run.world = env.World(args=args, cfg=confs, files=fs, json=lambda run, n: ADict(list(pars) if n == '/par' else []),
                                  dirs=['/out'])
        w.strict = True
        run.call(lookup(run, PROGRAMS[kind]), [AList([])])
        for n, t in w.written.items():
            for l in split_lines(t):
                if 'identifier' in kinds:
                    run.notes.append(('identifier', n, l))
        return notes(run)

    def smk(r):
        r.notes = []
        r.missing_background = 'base' in kinds
        fs = AList([(k, AList([x.seen() for x in rs])) for k, rs in sorted(files.items())])
        bad = AList([x.strip().ljust(9) if len(x.strip()) < 9 else x.strip() for x in excluded if x.strip()])
        return [kind, fs, bad, tracking, y1, m1, y2, m2, 'RUN']
    c.equiv(PROGRAMS[kind], 'drive.program', lambda r: [], cfg=cfg, call=impl, spec_mk=smk, post=lambda run, v: notes(run),
            name='%s: %s' % (kind, label))


def split_lines(texts):
    t = mkstr(list(texts))
    if not isinstance(t, str):
        raise AnalysisError('text of a listing is not known')
    return [x for x in t.splitlines(True)]
