# Reference definitions: points, distances and courses on the sphere.  Angles in degrees, distances in km
import numpy as np

RADIUS = 6371.0088
DEG = np.pi / 180


def given(*xs):
    for x in xs:
        if x is None:
            raise ValueError('missing')


def angle(lat1, lon1, lat2, lon2):
    given(lat1, lon1, lat2, lon2)
    a, b, d = lat1 * DEG, lat2 * DEG, abs(lon1 * DEG - lon2 * DEG)
    across = np.cos(b) * np.sin(d)
    up = np.cos(a) * np.sin(b) - np.sin(a) * np.cos(b) * np.cos(d)
    along = np.sin(a) * np.sin(b) + np.cos(a) * np.cos(b) * np.cos(d)
    return np.arctan2(np.sqrt(across * across + up * up), along)


def distance(lat1, lon1, lat2, lon2):
    return RADIUS * angle(lat1, lon1, lat2, lon2)


def reached(lat1, lon1, course, dist):
    a, c, d = lat1 * DEG, course * DEG, dist / RADIUS
    lat = np.arcsin(np.sin(a) * np.cos(d) + np.cos(a) * np.sin(d) * np.cos(c))
    east = np.arctan2(np.sin(c) * np.sin(d) * np.cos(a), np.cos(d) - np.sin(a) * np.sin(lat))
    x = lon1 * DEG + east + np.pi
    lon = x - 2 * np.pi * np.floor(x / (2 * np.pi)) - np.pi
    return lat / DEG, lon / DEG


def course(lat1, lon1, lat2, lon2):
    d = angle(lat1, lon1, lat2, lon2)
    if d == 0:
        return 0.0
    a, b, e = lat1 * DEG, lat2 * DEG, lon2 * DEG - lon1 * DEG
    if np.cos(a) < 0.0000001:
        if a > 0:
            return 180.0
        return 360.0
    c = (np.sin(b) - np.sin(a) * np.cos(d)) / (np.sin(d) * np.cos(a))
    if c > 1 or c < -1:
        raise Unspecified()     # cannot happen with exact arithmetic
    t = np.arccos(c)
    if np.sin(e) > 0:
        return t / DEG
    return (2 * np.pi - t) / DEG


def between(lat1, lon1, lat2, lon2, f):
    if f > 1:
        raise ValueError('beyond')
    d = angle(lat1, lon1, lat2, lon2)
    if d == 0:
        return lat1, lon1
    p, q = np.sin((1 - f) * d) / np.sin(d), np.sin(f * d) / np.sin(d)
    x = p * np.cos(lat1 * DEG) * np.cos(lon1 * DEG) + q * np.cos(lat2 * DEG) * np.cos(lon2 * DEG)
    y = p * np.cos(lat1 * DEG) * np.sin(lon1 * DEG) + q * np.cos(lat2 * DEG) * np.sin(lon2 * DEG)
    z = p * np.sin(lat1 * DEG) + q * np.sin(lat2 * DEG)
    return np.arctan2(z, np.sqrt(x * x + y * y)) / DEG, np.arctan2(y, x) / DEG
