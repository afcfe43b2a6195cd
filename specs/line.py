# Reference definitions: reports as fixed-width lines

MISSING = -32768


def units(v, scale):
    """whole number of units, halves away from zero"""
    if v is None:
        return MISSING
    return int(round(v * scale))


def number(n):
    return '{:8d}'.format(n)


def name(v, width):
    if len(v) > width:
        return v[0:width]
    return v + ' ' * (width - len(v))


SHORT = [('AT', 10, False), ('AT', 100, True), ('SST', 10, False), ('SST', 100, True)]
LONG = SHORT + [('SLP', 10, False), ('DPT', 10, False), ('DPT', 100, True), ('SHU', 10, False), ('SHU', 100, True),
                ('VAP', 10, False), ('VAP', 100, True), ('CRH', 10, False), ('CRH', 100, True),
                ('CWB', 10, False), ('CWB', 100, True), ('DPD', 10, False), ('DPD', 100, True)]
SHORT_FLAGS = [
    ['POSday', 'POSland', 'POStrk', 'POSdate', 'POStime', 'POSpos', 'POSblklst', 'POSdup'],
    ['SSTbud', 'SSTclim', 'SSTnonorm', 'SSTfreez', 'SSTnoval', 'SSTnbud', 'SSTbbud', 'SSTrep'],
    ['ATbud', 'ATclim', 'ATnonorm', None, 'ATnoval', 'ATnbud', 'ATbbud', 'ATrep'],
    [None, None, None, None, None, None, None, None],
    ['POSfew', 'POSntrk', None, None, None, None, None, None]]
LONG_FLAGS = [
    ['POSday', 'POSland', 'POStrk', 'POSdate', 'POStime', 'POSpos', 'POSblklst', 'POSiquam_track'],
    ['SSTbud', 'SSTclim', 'SSTnonorm', 'SSTfreez', 'SSTnoval', 'SSTspike', 'SSTbbud', 'SSTrep'],
    ['ATbud', 'ATclim', 'ATnonorm', None, 'ATnoval', 'ATnbud', 'ATbbud', 'ATrep'],
    ['DPTbud', 'DPTclim', 'DPTnonorm', 'DPTssat', 'DPTnoval', 'DPTround', 'DPTbbud', 'DPTrep', 'DPTrepsat'],
    ['POSfew', 'POSntrk', None, None, None, None, None, None]]


def flag(flags, key):
    if key is None:
        return 9
    return flags.get(key, 9)


def line(vals, flags, columns, blocks):
    out = '         ' if vals['ID'] is None else name(vals['ID'], 9)
    out = out + ' ' + name(vals['UID'], 8)
    lon = vals['LON']
    if lon > 180:
        lon = lon - 360
    out = out + number(int(round(vals['LAT'] * 100))) + number(int(round(lon * 100)))
    out = out + number(vals['YR']) + number(vals['MO']) + number(units(vals['DY'], 1)) + number(units(vals['HR'], 100))
    for k, scale, anomaly in columns:
        v = vals[k]
        if anomaly:
            v = vals.get(k + '_anom')
        out = out + number(units(v, scale))
    if vals['DS'] is None or vals['VS'] is None:
        out = out + number(9999)
    else:
        out = out + number(vals['DS'] * 100 + vals['VS'])
    out = out + number(vals['DCK']) + number(units(vals['PT'], 1))
    for b in blocks:
        out = out + ' '
        for k in b:
            out = out + '{:d}'.format(flag(flags, k))
    return out + '\n'


def short_line(vals, flags):
    return line(vals, flags, SHORT, SHORT_FLAGS)


def long_line(vals, flags):
    return line(vals, flags, LONG, LONG_FLAGS)


def whole(v):
    return units(v, 1)
