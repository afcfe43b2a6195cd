# Reference definitions: values looked up in, and interpolated from, gridded fields
import qc
import clim

DAYS = [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def place(lat, lon):
    if lat < -90 or lat > 90:
        raise AssertionError('latitude')
    if lon < -180 or lon > 360:
        raise Unspecified()


def date(month, day):
    if month is None or day is None or month < 1 or month > 12 or day < 1 or day > DAYS[month - 1]:
        raise AssertionError('date')


def sst(lat, lon, month, day, field, n):
    place(lat, lon)
    date(month, day)
    t = 0 if n == 1 else qc.which_pentad(month, day) - 1
    return clim.value(field[t, qc.lat_to_yindex(lat), qc.lon_to_xindex(lon)])


def single(lat, lon, field):
    place(lat, lon)
    return clim.value(field[0, qc.lat_to_yindex(lat), qc.lon_to_xindex(lon)])


def daily(lat, lon, month, day, field):
    place(lat, lon)
    date(month, day)
    return clim.value(field[qc.day_in_year(month, day) - 1, qc.mds_lat_to_yindex(lat), qc.mds_lon_to_xindex(lon)])


def hires(lat, lon, month, day, field):
    place(lat, lon)
    date(month, day)
    v = field[qc.day_in_year(month, day) - 1, 0, qc.lat_to_yindex(lat, 0.25), qc.lon_to_xindex(lon, 0.25)]
    return None if v == -999 else v


def of_report(lat, lon, month, day, field, n):
    """none for places and dates that do not exist"""
    if exists(lat, month, day):
        return sst(lat, lon, month, day, field, n)
    return None


def hires_of_report(lat, lon, month, day, field):
    if exists(lat, month, day):
        return hires(lat, lon, month, day, field)
    return None


def exists(lat, month, day):
    return clim.exists(month, day) and -90 <= lat and lat <= 90


def box(field, lat, lon, month, day):
    raise NotImplementedError()         # value of one box, given by the check; missing beyond the poles


def around(lat, lon, polar):
    raise NotImplementedError()         # the four corners, given by the check


def between(x1, x2, y1, y2, x, y, q11, q12, q21, q22):
    raise NotImplementedError()         # bilinear interpolation, given by the check


def interpolated(field, lat, lon, month, day):
    """missing where no box at or bordering on the place has a value"""
    e = 0.001
    if lat + e == 90 or lat - e == -90:
        raise Unspecified()
    near = [box(field, lat + a, lon + b, month, day) for a in (e, -e) for b in (e, -e)]
    if near[0] is None and near[1] is None and near[2] is None and near[3] is None:
        return None
    x1, x2, y1, y2 = around(lat, lon, 1)
    q = clim.filled(box(field, y1, x1, month, day), box(field, y2, x1, month, day), box(field, y1, x2, month, day),
                    box(field, y2, x2, month, day))
    x1, x2, y1, y2 = around(lat, lon, 0)
    return between(x1, x2, y1, y2, lon, lat, q[0], q[1], q[2], q[3])
