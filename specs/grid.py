# Reference definitions: grid boxes.  Row 0 is the northernmost, column 0 starts at 180W.


def row(lat, res, n):
    k = fl((90 - lat) / res)
    if k > n - 1:
        return n - 1
    if k < 0:
        return 0
    return k


def fl(x):
    import math
    return math.floor(x)


def row_res(lat, res):
    if lat < -90 or lat > 90:
        raise Unspecified()
    return row(lat, res, int(180 / res))


def col(lon, res, n):
    k = fl((lon + 180) / res)
    while k >= n:
        k = k - n
    while k < 0:
        k = k + n
    return k


def col_res(lon, res):
    if lon < -185 or lon > 365:
        raise Unspecified()
    return col(lon, res, int(360 / res))


def row_default(lat):
    return row_res(lat, 1)


def col_default(lon):
    return col_res(lon, 1)


def row_centre(i, res):
    if i < 0 or i >= 180 / res:
        raise ValueError('row')
    return 90 - res * i - 0.5 * res


def col_centre(i, res):
    if i < 0 or i >= 360 / res:
        raise ValueError('column')
    return -180 + res * i + 0.5 * res


def same_row(i, res):
    if i < 0 or i >= 180 / res:
        raise ValueError('row')
    return i


def same_col(i, res):
    if i < 0 or i >= 360 / res:
        raise ValueError('column')
    return i


def mds_row(lat, res):
    """boxes closed towards the nearer pole; the poles themselves belong to the last box"""
    if lat < -90 or lat > 90:
        raise Unspecified()
    n = int(180 / res)
    if lat == 90:
        return 0
    if lat == -90:
        return n - 1
    if lat > 0:
        return n // 2 - 1 - fl(lat / res)
    return n // 2 + fl(-lat / res)


def mds_col(lon, res):
    """boxes closed away from Greenwich; the date line belongs to the last box on its side"""
    if lon < -180 or lon > 180:
        raise Unspecified()
    n = int(360 / res)
    if lon == 180:
        return n - 1
    if lon == -180:
        return 0
    if lon > 0:
        return n // 2 + fl(lon / res)
    return n // 2 - 1 - fl(-lon / res)


def mds_row_default(lat):
    return mds_row(lat, 1)


def mds_col_default(lon):
    return mds_col(lon, 1)
