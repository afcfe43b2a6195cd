# Reference definition: position of the sun
import math
import numpy as np


def position(k, r, day, hour, minute, sec, zone, dasvtm, lat, lon):
    """year 1980 + 4k + r; angles in degrees.  Elevation, declination, right ascension; sine and cosine of the hour angle and
    of the local sidereal time; azimuth"""
    if day <= 0 or day > 366 or hour < 0 or hour >= 24 or minute < 0 or minute >= 60 or sec < 0 or sec >= 60 or lat < -90 or lat > 90:
        raise AssertionError('outside the domain')
    rad = np.pi / 180
    years = 4 * k + r
    hours = hour + minute / 60.0 + sec / 3600.0 + zone - dasvtm
    time = 365 * years + k + (1 if r > 0 else 0) - 1 + day - 1 + hours / 24.0          # every fourth year has a day more
    theta = 360 * time / 365.25 * rad
    anomaly = theta - 0.031271 - 4.5396e-7 * time
    longitude = theta + 4.900968 + 3.6747e-7 * time + (0.033434 - 2.3e-9 * time) * math.sin(anomaly) + 0.000349 * math.sin(2 * anomaly)
    tilt = 0.409140 - 6.2149e-9 * time
    ascension = math.atan2(math.sin(longitude) * math.cos(tilt), math.cos(longitude))
    if ascension < 0:
        ascension = ascension + 2 * np.pi
    declination = math.asin(math.sin(longitude) * math.sin(tilt))
    sidereal = 1.759335 + 2 * np.pi * (time / 365.25 - years) + 3.694e-7 * time + (hours * 15 + lon) * rad
    angle = sidereal - ascension
    sine = limited(math.sin(lat * rad) * math.sin(declination) + math.cos(lat * rad) * math.cos(declination) * math.cos(angle))
    elevation = math.asin(sine)
    d = elevation - np.pi / 2
    if d <= 0.000001 and d >= -0.000001:
        azimuth = None              # in the zenith
    else:
        azimuth = math.asin(limited(math.cos(declination) * math.sin(angle) / math.cos(elevation))) / rad
        if math.sin(elevation) * math.sin(lat * rad) < math.sin(declination):
            # on the side of the pole of the north
            if azimuth < 0:
                azimuth = -180 - azimuth
            else:
                azimuth = 180 - azimuth
        azimuth = azimuth + 180
    return (elevation / rad, declination / rad, ascension / rad, math.sin(angle), math.cos(angle), math.sin(sidereal), math.cos(sidereal), azimuth)


def limited(x):
    if x > 1:
        return 1.0
    if x < -1:
        return -1.0
    return x
