# Reference definitions: records of the short formats
SHORT = [('YR', 4, 1), ('MO', 2, 1), ('DY', 2, 1), ('HR', 4, 0.01), ('LAT', 5, 0.01), ('LON', 6, 0.01), ('DS', 1, 1), ('VS', 1, 1),
         ('ID', 9, None), ('AT', 4, 0.1), ('SST', 4, 0.1), ('DPT', 4, 0.1), ('DCK', 3, 1), ('SID', 3, 1), ('PT', 2, 1), ('UID', 6, None)]
WHOLE = ['YR', 'MO', 'DY', 'DS', 'VS', 'DCK', 'SID', 'PT']
NONE = ['AT', 'SIM', 'DS', 'VS', 'DPT', 'C1', 'SI']


def short(line):
    """a number that cannot be read is missing; hours and degrees in hundredths, temperatures in tenths"""
    out = {}
    at = 0
    for name, width, unit in SHORT:
        part = line[at:at + width]
        at = at + width
        if unit is None:
            out[name] = part
        elif name in WHOLE:
            out[name] = whole(part)
        else:
            out[name] = fraction(part, unit)
    return out


def whole(part):
    try:
        return int(part)
    except ValueError:
        return None


def fraction(part, unit):
    try:
        return float(part) * unit
    except ValueError:
        return None


def listed(parts):
    """values in a list; -32768 stands for a missing hour or temperature"""
    hour = float(parts[7])
    sst = float(parts[11])
    return {'ID': parts[0], 'UID': parts[1], 'LAT': float(parts[2]), 'LON': float(parts[3]), 'YR': int(float(parts[4])),
            'MO': int(float(parts[5])), 'DY': int(float(parts[6])), 'HR': None if hour == -32768 else hour,
            'SST': None if sst == -32768 else sst, 'DCK': 999}


def realtime(ident, iso, date, lat, lon, sst):
    out = {'UID': 'NRT' + ident + iso, 'ID': ident, 'YR': date[0], 'MO': date[1], 'DY': date[2], 'HR': date[3] + date[4] / 60.0,
           'LAT': 200.0 if lat > 200 else lat, 'LON': 400.0 if lon > 400 else lon, 'SST': sst, 'DCK': 9999, 'PT': 7, 'SID': 9999}
    for k in NONE:
        out[k] = None
    return out
