"""What one run of a quality control program does, month by month.

kind: 'all' (marine_qc), 'hires' (marine_qc_hires), 'track' (marine_qc_track_only).
note, value and ostia are tables of the check that uses this definition."""
import cal
import rep

SHIP = [('POS', 'date', 0), ('POS', 'time', 0), ('POS', 'pos', 0), ('POS', 'blklst', 0)]
TRACKED = SHIP + [('POS', 'trk', 0)]
SST = TRACKED + [('POS', 'is780', 0), ('SST', 'noval', 0), ('SST', 'freez', 0), ('SST', 'clim', 0), ('SST', 'nonorm', 0)]
AT = TRACKED + [('POS', 'isship', 1), ('POS', 'day', 0), ('AT', 'mat_blacklist', 0), ('AT', 'noval', 0), ('AT', 'clim', 0),
                ('AT', 'nonorm', 0)]
DPT = TRACKED + [('DPT', 'hum_blacklist', 0), ('DPT', 'noval', 0), ('DPT', 'clim', 0), ('DPT', 'nonorm', 0)]
SLP = TRACKED + [('SLP', 'noval', 0), ('SLP', 'clim', 0), ('SLP', 'nonorm', 0)]
DRIFTERS = [('POS', 'month_match', 1), ('POS', 'isdrifter', 1)]
SPREADS = ['/spread1:sst', '/spread2:sst', '/spread3:sst']
HIRES = [('SST', ['bud', 'clim', 'nonorm', 'freez', 'noval', 'nbud', 'bbud', 'rep', 'spike', 'hardlimit'])]


def note(event):
    raise NotImplementedError()


def value(field, style, lat, lon, month, day):
    raise NotImplementedError()


def ostia(field, lat, lon):
    raise NotImplementedError()


def safe(x):
    raise NotImplementedError()


def two(n):
    return ('0' + str(n)) if n < 10 else str(n)


def before(y, m):
    return (y - 1, 12) if m == 1 else (y, m - 1)


def after(y, m):
    return (y + 1, 1) if m == 12 else (y, m + 1)


def season(m):
    if m == 12 or m <= 2:
        return 'DJF'
    if m <= 5:
        return 'MAM'
    if m <= 8:
        return 'JJA'
    return 'SON'


def day_before(y, m, d):
    """None for days that do not exist"""
    n = cal.mlen(y, m)
    if d < 1 or d > n:
        return None
    if d > 1:
        return (y, m, d - 1)
    p = before(y, m)
    return (p[0], p[1], cal.mlen(p[0], p[1]))


def east(lon):
    return lon - 360 if lon > 180 else lon


def background(r, tracking):
    """OSTIA temperature, ice and background variance for one report"""
    if not tracking or r['YR'] < 1985 or r['DY'] is None:
        return (None, None, None)
    day = day_before(r['YR'], r['MO'], r['DY'])
    lat, lon = r['LAT'], east(r['LON'])
    sst, ice = None, None
    if day is not None:
        name = 'bg %d %d %d' % day
        sst = ostia(name + ':analysed_sst', lat, lon)
        if sst is not None:
            sst = sst - 273.15
        ice = ostia(name + ':sea_ice_fraction', lat, lon)
    return (sst, ice, value('/bgvar ' + season(r['MO']) + ':bg_var', 'mds', lat, lon, r['MO'], r['DY']))


def field(name, stat):
    return '/clim ' + name + ' ' + stat + ':v ' + name + ' ' + stat


def normals(r, kind):
    lat, lon, m, d = r['LAT'], east(r['LON']), r['MO'], r['DY']
    if kind == 'hires':
        return [('SST', value('/hires SST mean:temperature', 'plain', lat, lon, m, d), None)]
    out = [('SST', value(field('SST', 'mean'), 'mds', lat, lon, m, d), None)]
    if kind == 'all':
        out.append(('AT', value(field('AT', 'mean'), 'mds', lat, lon, m, d), None))
        for v in ['SLP2', 'SHU', 'CRH', 'CWB', 'DPD']:
            out.append((v, value(field(v, 'mean'), 'plain', lat, lon, m, d), None))
        for v in ['DPT', 'AT2', 'SLP']:
            out.append((v, value(field(v, 'mean'), 'plain', lat, lon, m, d), value(field(v, 'stdev'), 'plain', lat, lon, m, d)))
    return out


def flag(r, kind, name):
    return r['qc'].get(kind + name, 9)


def passes(r, conditions):
    for kind, name, v in conditions:
        if flag(r, kind, name) != v:
            return False
    return True


def taken(r, read, excluded):
    return r['readable'] and r['ID'] not in excluded and r['YR'] == read[0] and r['MO'] == read[1]


def month(kind, files, excluded, tracking, y, m, run):
    deck = []
    for read in [before(y, m), (y, m), after(y, m)]:
        for when, records in files:
            if when[0] == read[0] and when[1] == read[1]:
                for x in records:
                    if taken(x, read, excluded):
                        r = {}
                        r.update(x)
                        r['qc'] = {}
                        r['qc'].update(x['flags'])
                        prepare(r, kind, tracking, read == (y, m))
                        deck.append(r)
    track(deck, kind)
    buddies(deck, kind)
    output(deck, kind, tracking, y, m, run)


def prepare(r, kind, tracking, match):
    if kind == 'hires':
        note(('base sst', r['UID'], normals(r, kind), background(r, False), [], None, 'whole', data(r)))
    else:
        note(('base', r['UID'], normals(r, kind), background(r, tracking),
             ['CRH', 'CWB', 'DPD', 'SHU', 'VAP'] if kind == 'all' else [], r['AT'] if kind == 'all' else None, 'whole', data(r)))
    r['qc']['POSmonth_match'] = 1 if match else 0


def data(r):
    return (r['ID'], r['YR'], r['MO'], r['DY'], r['HR'], r['LAT'], r['LON'], r['AT'], r['SST'], r['DCK'], r['SID'], r['PT'])


def ships(deck, conditions):
    """reports fulfilling the conditions by identifier"""
    ids = []
    for r in deck:
        if r['ID'] not in ids:
            ids.append(r['ID'])
    out = []
    for i in ids:
        s = [r for r in deck if r['ID'] == i and passes(r, conditions)]
        if s:
            out.append(s)
    return out


def uids(s):
    return [r['UID'] for r in s]


def track(deck, kind):
    for s in ships(deck, SHIP):
        note(('track check', '', 'track parameters', uids(s)))
        names = [('SSTrep', 1)]
        if kind != 'hires':
            note(('iquam check', '', 'iquam parameters', uids(s)))
            note(('spike check', 'SST', 'spike parameters', uids(s)))
            note(('saturation', '', 'saturation parameters', uids(s)))
            note(('rounding', 'DPT', 'rounding parameters', uids(s)))
            names = names + [('POSiquam_track', 1), ('SSTspike', 1), ('DPTrepsat', 1), ('DPTround', 1)]
        for v in ['SST', 'AT', 'AT2', 'DPT', 'SLP'] if kind == 'all' else ['SST']:
            note(('repeats', v, 'repeat parameters', uids(s)))
            names = names + [(v + 'rep', 1)]
        for r in s:
            r['qc']['POStrk'] = r['trk']
            for n, v in names:
                r['qc'][n] = v


def bayes(deck, var, conditions):
    note(('bayesian buddies', var, 'whole', SPREADS, [r['UID'] for r in deck if passes(r, conditions)]))
    mark(deck, var + 'bbud', conditions)


def mds(deck, var, conditions, spread, parameters):
    note(('buddies', var, parameters, [spread], [r['UID'] for r in deck if passes(r, conditions)]))
    mark(deck, var + 'bud', conditions)


def mark(deck, key, conditions):
    for r in deck:
        r['qc'][key] = 1 if passes(r, conditions) else 0


def buddies(deck, kind):
    bayes(deck, 'SST', SST)
    mds(deck, 'SST', SST, '/oldspread:sst', 'buddy parameters')
    if kind == 'all':
        bayes(deck, 'AT', AT)
        mds(deck, 'AT', AT, '/oldspread:sst', 'buddy parameters')
        mds(deck, 'DPT', DPT, field('DPT', 'stdev'), 'buddy parameters')
        mds(deck, 'SLP', SLP, field('SLP', 'stdev'), 'slp buddy parameters')


def flags(s):
    return [(r['UID'], r['qc']) for r in s]


def output(deck, kind, tracking, y, m, run):
    where = '/out/%d/%s' % (y, two(m))
    if deck and kind == 'all':
        note(('month written', run, where, y, m, [], flags(deck)))
    if deck and kind == 'hires':
        note(('month flags written', 'hires_' + run, where, y, m, HIRES, flags(deck)))
    if tracking:
        for s in ships(deck, DRIFTERS):
            i = s[0]['ID']
            if i is not None:
                note(('identifier', where + '/ID_file.txt', i + ',' + safe(i) + '\n'))
                if kind == 'hires':
                    note(('ship flags written', 'hires_' + run, where, y, m, HIRES, flags(s)))
                else:
                    note(('ship written', run, where, y, m, [], flags(s)))


def program(kind, files, excluded, tracking, y1, m1, y2, m2, run):
    y, m = y1, m1
    while (y, m) <= (y2, m2):
        month(kind, files, excluded, tracking, y, m, run)
        y, m = after(y, m)
