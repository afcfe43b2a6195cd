# Reference definitions: contents of a marine report
from datetime import datetime
import math
from cal import mlen


def when(y, m, d, h):
    if y is None or m is None or d is None or h is None:
        return None
    if m < 1 or m > 12 or d < 1 or d > mlen(y, m) or h < 0 or h >= 24:
        return None
    hh = math.floor(h)
    return datetime(y, m, d, hh, math.floor(60 * (h - hh)))


def built(y, m, d, h):
    return when(y, m, d, h), [y, m, d, h]


def only(var, val, names):
    out = []
    for n in names:
        if n == var and n != 'XYZ':
            out.append(val)
        else:
            out.append(None)
    return out


def changed(var, val, names):
    out = []
    for n in names:
        if n == var:
            out.append(val)
        elif n == 'DS':
            out.append(3)
        elif n == 'VS':
            out.append(2)
        elif n == 'ID' or n == 'UID' or n == 'XYZ':
            out.append(None)
        else:
            out.append(4)
    return out


def decoded(y, ds, vs):
    course = None
    if ds is not None and ds < 9:
        course = 45 * ds
    speed = None
    if vs is not None:
        if vs == 0:
            speed = 0.0
        elif y is not None and y >= 1968:
            speed = 5.0 * vs - 2.0
        else:
            speed = 3.0 * vs - 1.0
    return {'dsi': course, 'vsi': speed}


def position(lat, lon):
    if lon > 180:
        return lat, lon - 360
    return lat, lon


def norm(v, n, s):
    return n, s, None, None


def anom(v, n, s):
    if v is None or n is None:
        return None, None
    return v - n, None


def nanom(v, n, s):
    if v is None or n is None or s is None:
        return None, None
    return (v - n) / s, None


def voyage(new, vals, flags, pos):
    n = len(vals)
    if pos < 0:
        pos = n - 1
    return (vals, vals[:pos] + [new] + vals[pos + 1:], flags[pos], 9, [pos], [n - 1], n, [i for i in range(n)])
