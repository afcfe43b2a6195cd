# Reference definitions: elementary value checks.  1 = fail, 0 = pass.


def missing_fails(v):
    if v is None:
        return 1
    return 0


def hard_limit(val, limits):
    if not limits[1] > limits[0]:
        raise ValueError('limits')
    if val is None:
        return 1
    if val < limits[0]:
        return 1
    if val > limits[1]:
        return 1
    return 0


def supersat(td, t):
    if td is None or t is None:
        return 1
    if td > t:
        return 1
    return 0


def freeze(sst, unc, fp, ns):
    if unc is None or fp is None:
        raise ValueError('missing')
    if sst is None:
        return 0
    if sst - (fp - ns * unc) < 0:
        return 1
    return 0


def freeze_default(sst):
    return freeze(sst, 0.0, -1.8, 2.0)


def freeze_u(sst, unc):
    return freeze(sst, unc, -1.8, 2.0)


def adiff(a, b):
    if a > b:
        return a - b
    return b - a


def clim(v, norm, limit):
    if v is None or norm is None or limit is None:
        return 1
    if adiff(v, norm) > limit:
        return 1
    return 0


def clim_default(v, norm):
    return clim(v, norm, 8.0)


def clim_lowbar(v, norm, sd, limit, lowbar):
    if not limit > 0:
        raise ValueError('limit')
    if v is None or norm is None or sd is None:
        return 1
    if adiff(v, norm) > limit * sd and adiff(v, norm) > lowbar:
        return 1
    return 0


def clim_sd(v, norm, sd, sdl, limit):
    if not sdl[1] > sdl[0]:
        raise ValueError('limits')
    if not limit > 0:
        raise ValueError('limit')
    if v is None or norm is None or sd is None:
        return 1
    s = sd
    if s < sdl[0]:
        s = sdl[0]
    elif s > sdl[1]:
        s = sdl[1]
    if adiff(v, norm) > limit * s:
        return 1
    return 0


# ------------------------------------------------------------ position, date, time
def position(lat, lon):
    if lat is None or lon is None or lat != lat or lon != lon:
        raise ValueError('missing')
    if lat < -90 or lat > 90 or lon < -180 or lon > 360:
        return 1
    return 0


def hour(h):
    if h is None:
        return 1
    if h < 0 or h >= 24:
        return 1
    return 0


def date(y, m, d):
    if y is None or m is None:
        raise ValueError('missing')
    if y < 1850 or y > 2024:
        return 1
    if m < 1 or m > 12:
        return 1
    if d is None:
        return 1
    if d < 1 or d > mlen(y, m):
        return 1
    return 0


def mlen(y, m):
    if m == 2:
        if calendar.isleap(y):
            return 29
        return 28
    if m == 4 or m == 6 or m == 9 or m == 11:
        return 30
    return 31


def month_lengths(y):
    return [mlen(y, i) for i in range(1, 13)]


def wind(speed, direction, vlimit):
    if direction == 361 and speed != 0:
        return 1
    if direction == 362 and speed > vlimit:
        return 1
    return 0


import calendar
