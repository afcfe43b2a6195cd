# Reference definitions: output files

DECK = ['ID', 'YR', 'MO', 'DY', 'HR', 'LAT', 'LON', 'AT', 'AT_anom', 'SST', 'SST_anom', 'DPT', 'DPT_anom', 'SLP', 'SLP_anom',
        'OSTIA', 'W', 'D']
MIN = ['ID', 'YR', 'MO', 'DY', 'HR', 'LAT', 'LON', 'AT', 'AT_anom', 'SST', 'SST_anom', 'DPT', 'DPT_anom']
SHIP = ['ID', 'YR', 'MO', 'DY', 'HR', 'LAT', 'LON', 'AT', 'AT_anom', 'SST', 'SST_anom', 'DPT', 'DPT_anom', 'SLP', 'SLP_anom',
        'OSTIA', 'ICE', 'BGVAR']

DECK_FLAGS = [
    ('POS', ['day', 'isship', 'trk', 'date', 'time', 'pos', 'blklst', 'isbuoy', 'iquam_track']),
    ('SST', ['bud', 'clim', 'nonorm', 'freez', 'noval', 'nbud', 'bbud', 'rep', 'spike', 'hardlimit']),
    ('AT', ['bud', 'clim', 'nonorm', 'freez', 'noval', 'mat_blacklist', 'bbud', 'rep', 'hardlimit']),
    ('DPT', ['bud', 'clim', 'nonorm', 'freez', 'noval', 'hum_blacklist', 'bbud', 'rep', 'ssat', 'repsat', 'round', 'hardlimit']),
    ('SLP', ['bud', 'clim', 'nonorm', 'noval', 'rep']),
    ('W', ['noval', 'hardlimit', 'consistency', 'wind_blacklist'])]
MIN_FLAGS = [
    ('POS', ['day', 'isship', 'trk', 'date', 'time', 'pos', 'blklst', 'isbuoy']),
    ('SST', ['bud', 'clim', 'nonorm', 'freez', 'noval', 'nbud', 'bbud', 'rep']),
    ('AT', ['bud', 'clim', 'nonorm', 'freez', 'noval', 'mat_blacklist', 'bbud', 'rep']),
    ('DPT', ['bud', 'clim', 'nonorm', 'freez', 'noval', 'hum_blacklist', 'bbud', 'rep', 'ssat', 'repsat', 'round'])]
SHIP_FLAGS = [
    ('POS', ['day', 'isship', 'trk', 'date', 'time', 'pos', 'blklst', 'isbuoy', 'iquam_track', 'isdrifter']),
    ('SST', ['bud', 'clim', 'nonorm', 'freez', 'noval', 'nbud', 'bbud', 'rep', 'spike', 'hardlimit'])]


def day_text(y, m, d):
    if y is None or m is None or d is None or m < 1 or m > 12 or d < 1 or d > length(y, m):
        return '0000-00-00'
    return '{:04}-{:02}-{:02}'.format(y, m, d)


def length(y, m):
    if m == 2:
        if y % 4 == 0 and (y % 100 != 0 or y % 400 == 0):
            return 29
        return 28
    if m == 4 or m == 6 or m == 9 or m == 11:
        return 30
    return 31


def pentad_text(m, d):
    if m is None or d is None or m < 1 or m > 12 or d < 1 or d > 31:
        return '0'
    return str(pentad(m, d))


def pentad(m, d):
    return 0            # given by the check


def cell(rep, column):
    v = rep[0].get(column)
    if v is None:
        return '\\N'
    if column == 'ID':
        return '"' + v + '"'
    return str(v)


def flag(rep, kind, name):
    return str(rep[1].get(kind + name, 9))


def variable_line(rep, columns):
    v = rep[0]
    return ','.join([v['UID'], day_text(v['YR'], v['MO'], v['DY']), pentad_text(v['MO'], v['DY'])] +
                    [cell(rep, x) for x in columns])


def in_month(reps, year, month):
    return [r for r in reps if r[0]['YR'] == year and r[0]['MO'] == month]


def variables(reps, year, month, columns):
    return ','.join(['UID', 'DATE', 'PENTAD'] + columns) + '\n' + \
        ''.join([variable_line(r, columns) + '\n' for r in in_month(reps, year, month)])


def flags(reps, year, month, kind, names):
    return ','.join(['UID'] + names) + '\n' + \
        ''.join([','.join([r[0]['UID']] + [flag(r, kind, n) for n in names]) + '\n' for r in in_month(reps, year, month)])


def safe(name):
    return name.replace('/', '_').replace('*', '_')


def stamp(year, month):
    return str(year) + '{:02}'.format(month)


def flag_files(reps, run, where, year, month, blocks, test, ship):
    out = []
    if len(reps) == 0:
        return out
    for kind, names in blocks:
        out.append((where + '/' + start(test) + kind + '_qc_' + stamp(year, month) + '_' + ship + run + '.csv',
                    flags(reps, year, month, kind, names)))
    return out


def start(test):
    if test:
        return 'Test_'
    return ''


def deck_files(reps, run, where, year, month, test, small):
    if len(reps) == 0:
        return []
    columns, blocks = DECK, DECK_FLAGS
    if small:
        columns, blocks = MIN, MIN_FLAGS
    return [(where + '/' + start(test) + 'Variables_' + stamp(year, month) + '_' + run + '.csv',
             variables(reps, year, month, columns))] + flag_files(reps, run, where, year, month, blocks, test, '')


def ship_name(reps):
    return safe(reps[0][0]['ID']) + '_'


def ship_files(reps, run, where, year, month):
    return [(where + '/Variables_' + stamp(year, month) + '_' + ship_name(reps) + run + '.csv',
             variables(reps, year, month, SHIP))] + flag_files(reps, run, where, year, month, SHIP_FLAGS, False, ship_name(reps))


def ship_flag_files(reps, run, where, year, month, blocks):
    return flag_files(reps, run, where, year, month, blocks, False, ship_name(reps))


FIRST = ['ID', 'LON', 'LAT', 'YR', 'MO', 'DY', 'HR']
LAST = ['SST', 'OSTIA', 'BGVAR', 'ICE']
TRACK_FLAGS = SHIP_FLAGS + [('POS', ['drf_agr', 'drf_spd']), ('SST', ['drf_tail1', 'drf_tail2', 'drf_bias', 'drf_noise', 'drf_short'])]


def tracking_file(reps, run, where, year, month):
    head = ['UID', 'DATE', 'PENTAD'] + FIRST
    for kind, names in TRACK_FLAGS:
        head = head + names
    text = ','.join(head + LAST) + '\n'
    for r in reps:
        cells = []
        for kind, names in TRACK_FLAGS:
            cells = cells + [flag(r, kind, n) for n in names]
        text = text + variable_line(r, FIRST) + ',' + ','.join(cells + [cell(r, x) for x in LAST]) + '\n'
    return [(where + '/Tracking_' + stamp(year, month) + '_' + ship_name(reps) + run + '.csv', text)]
