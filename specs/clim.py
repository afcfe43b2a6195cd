# Reference definitions: values of climatologies
import qc

DAYS = [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def exists(month, day):
    if month is None or day is None:
        return False
    return 1 <= month and month <= 12 and 1 <= day and day <= DAYS[month - 1]


def period(n, month, day):
    if n == 1:
        return 0
    if n == 73:
        return qc.which_pentad(month, day) - 1
    return qc.day_in_year(month, day) - 1


def box(field, n, res, lat, lon, month, day):
    if not exists(month, day):
        return None
    return value(field[period(n, month, day), qc.lat_to_yindex(lat, res), qc.lon_to_xindex(lon, res)])


def mds_box(field, n, lat, lon, month, day):
    if not exists(month, day):
        return None
    return value(field[period(n, month, day), qc.mds_lat_to_yindex(lat), qc.mds_lon_to_xindex(lon)])


def background(field, lat, lon):
    return value(field[0, qc.mds_lat_to_yindex(lat, 0.05), qc.mds_lon_to_xindex(lon, 0.05)])


def value(cell):
    return cell         # given by the check: missing when masked


def filled(a, b, c, d):
    """values at the corners, each missing one from its two neighbours, else from the opposite one"""
    return (corner(a, b, c, d), corner(b, a, d, c), corner(c, a, d, b), corner(d, b, c, a))


def corner(own, left, right, opposite):
    if own is not None:
        return own
    if left is not None and right is not None:
        return (left + right) / 2.0
    if left is not None:
        return left
    if right is not None:
        return right
    return opposite


def bilinear(x1, x2, y1, y2, x, y, q11, q12, q21, q22):
    if x < x1 or x > x2 or y < y1 or y > y2 or x1 >= x2 or y1 >= y2:
        raise AssertionError('corners')
    if q11 is None or q12 is None or q21 is None or q22 is None:
        raise AssertionError('values')
    u, v = (x - x1) / (x2 - x1), (y - y1) / (y2 - y1)
    z = q11 * (1 - u) * (1 - v) + q21 * u * (1 - v) + q12 * (1 - u) * v + q22 * u * v
    # a mean with weights between 0 and 1 lies between the values
    if z > 0.0001 + max([q11, q12, q21, q22]) or z < min([q11, q12, q21, q22]) - 0.0001:
        raise Unspecified()
    return z


def fl(x):
    import math
    return math.floor(x)


def around(lat, lon, polar):
    if lat < -90 or lat > 90 or lon < -180 or lon > 180:
        raise AssertionError('place')
    x1 = fl(lon - 0.5) + 0.5
    k = fl(90 - (lat + 0.5))    # row of the point half a degree north
    y2 = 90.5 - 1 - k
    if lat > 89.5:
        y2 = 89.5
        if polar == 0:
            y2 = 90.5
    k = fl(90 - (lat - 0.5))
    y1 = 89.5 - k
    if lat <= -89.5:
        y1 = -89.5
        if polar == 0:
            y1 = -90.5
    return x1, x1 + 1, y1, y2
