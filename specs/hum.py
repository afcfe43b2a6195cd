# Reference definitions: humidity formulas (Buck 1981, Jensen et al. 1990, Peixoto and Oort 1996).
# Temperatures in degrees C, pressures in hPa, specific humidity in g/kg, relative humidity in per cent
import numpy as np


def water(td, p):
    f = 1 + 0.0007 + 0.00000346 * p
    return 6.1121 * f * np.exp((18.729 - td / 227.3) * td / (257.87 + td))


def ice(td, p):
    f = 1 + 0.0003 + 0.00000418 * p
    return 6.1115 * f * np.exp((23.036 - td / 333.7) * td / (279.82 + td))


def wet(e, td, t, p):
    a = 0.000066 * p
    b = 409.8 * e / ((td + 237.3) * (td + 237.3))
    return (a * t + b * td) / (a + b)


def vapour(td, t, p):
    e = water(td, p)
    if wet(e, td, t, p) <= 0:
        e = ice(td, p)
    return e


def tenths(x, roundit):
    if roundit:
        return round(x * 10) / 10
    return x


def specific(e, p):
    return 1000 * (0.622 * e) / (p - 0.378 * e)


def vap(td, t, p, roundit):
    if td is None or t is None or p is None:
        return None
    return tenths(vapour(td, t, p), roundit)


def vap_from_sh(q, p, roundit):
    return tenths(q * 0.001 * p / (0.622 + 0.378 * (q * 0.001)), roundit)


def sh(td, t, p, roundit):
    if td is None or t is None or p is None:
        return None
    return tenths(specific(vapour(td, t, p), p), roundit)


def sh_from_vap(e, p, roundit):
    return tenths(specific(e, p), roundit)


def rh(td, t, p, roundit):
    if td is None or t is None or p is None:
        return None
    return tenths(vapour(td, t, p) / vapour(t, t, p) * 100, roundit)


def wb(td, t, p, roundit):
    if td is None or t is None or p is None:
        return None
    return tenths(wet(vapour(td, t, p), td, t, p), roundit)


def dpd(td, t, roundit):
    if td is None or t is None:
        return None
    return tenths(t - td, roundit)


def inverse(r, top, scale, shift):
    """dew point whose vapour pressure is exp(r) times the factor: the smaller root"""
    b = scale * r - top * scale
    c = shift * scale * r
    return (0 - b - np.sqrt(b * b - 4 * c)) / 2


def td_from_vap(e, p, t, roundit):
    td = inverse(np.log(e / (6.1121 * (1 + 0.0007 + 0.00000346 * p))), 18.729, 227.3, 257.87)
    if wet(e, td, t, p) <= 0:
        td = inverse(np.log(e / (6.1115 * (1 + 0.0003 + 0.00000418 * p))), 23.036, 333.7, 279.82)
    return tenths(td, roundit)


def report_vap(td, t, p):
    return vap(td, t, p, True)


def report_sh(td, t, p):
    return sh(td, t, p, True)


def report_rh(td, t, p):
    return rh(td, t, p, True)


def report_wb(td, t, p):
    return wb(td, t, p, True)


def report_dpd(td, t):
    return dpd(td, t, True)


def report(at, dpt, slp, slpclim, old, names):
    """specific humidity, vapour pressure, relative humidity, wet bulb, depression; then the quantities measured"""
    none = (None, None, None, None, None, at, dpt, slp)
    if slpclim is None or at is None or dpt is None:
        return none
    crh = report_rh(dpt, at, slpclim)
    if crh < 0 or crh > 150:
        return none
    return (report_sh(dpt, at, slpclim), report_vap(dpt, at, slpclim), crh, report_wb(dpt, at, slpclim), report_dpd(dpt, at), at, dpt, slp)
