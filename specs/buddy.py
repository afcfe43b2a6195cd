# Reference definitions: buddy checks on 1-degree, five-day boxes.  A grid maps (column, row, period) to the
# list of anomalies put there.
import math
import cal
import grid


def box(lat, lon, month, day):
    return (grid.mds_col(lon, 1), grid.mds_row(lat, 1), cal.pentad(month, day) - 1)


def fill(obs):
    """observations (lat, lon, month, day, anomaly)"""
    g = {}
    for lat, lon, month, day, a in obs:
        if a is not None:
            b = box(lat, lon, month, day)
            if b in g:
                g[b].append(a)
            else:
                g[b] = [a]
    return g


def mean(x):
    t = 0.0
    for v in x:
        t = t + v
    return t / len(x)


def is_near(b, c, rad):
    """within the search radius: rad[0] degrees of longitude at the equator (widened with latitude), rad[1] rows,
    rad[2] periods; columns and periods wrap around, rows do not"""
    if b == c:
        return False
    x, y, p = c
    wide = int(rad[0] / math.cos((89.5 - y) * 3.141592653589793 / 180))
    dx = abs(b[0] - x)
    if 360 - dx < dx:
        dx = 360 - dx
    dp = abs(b[2] - p)
    if 73 - dp < dp:
        dp = 73 - dp
    return dx <= wide and abs(b[1] - y) <= rad[1] and dp <= rad[2]


def near(g, c, rad):
    return [(mean(g[b]), len(g[b])) for b in sorted(g) if is_near(b, c, rad)]


def near_obs(obs, c, rad):
    return near(fill(obs), c, rad)


def multiplier(total, limits, mults):
    n = len(limits)
    if n == 0 or len(mults) != n or limits[0] != 0:
        raise ValueError('lists')
    for i in range(1, n):
        if limits[i] <= limits[i - 1]:
            raise ValueError('order')
    for m in mults:
        if m <= 0:
            raise ValueError('multiplier')
    if total < 0:
        raise Unspecified()
    if total == 0:
        return 4.0
    r = 0
    for i in range(n):
        if total > limits[i]:
            r = mults[i]
    return r


def spread(field, c, style):
    x, y, p = c
    m, d = cal.first_day_of_pentad(p + 1)
    if style:
        s = field.get_value_mds_style(89.5 - y, -179.5 + x, m, d)
    else:
        s = field.get_value(89.5 - y, -179.5 + x, m, d)
    if s is None or s < 0:
        return 1.0
    return s


def limits_for(g, c, field, limits, thresholds, mults):
    """mean and half-width of the accepted range for a filled box"""
    s = spread(field, c, True)
    for i in range(len(limits)):
        found = near(g, c, limits[i])
        if len(found) > 0:
            total = 0
            for a, n in found:
                total = total + n
            return mean([a for a, n in found]), multiplier(total, thresholds[i], mults[i]) * s
    return 0.0, 500.0


def buddy_limits(obs, field, limits, thresholds, mults):
    g = fill(obs)
    return [limits_for(g, box(o[0], o[1], o[2], o[3]), field, limits, thresholds, mults) for o in obs]


OLD = [[1, 1, 2], [2, 2, 2], [1, 1, 4], [2, 2, 4]]


def old_buddy_limits(obs, field):
    return buddy_limits(obs, field, OLD, [[0, 5, 15, 100], [0], [0, 5, 15, 100], [0]],
                        [[4.0, 3.5, 3.0, 2.5], [4.0], [4.0, 3.5, 3.0, 2.5], [4.0]])


def new_limits_for(g, c, f1, f2, f3, rad, sigma_m, noise):
    s1 = spread(f1, c, False)
    s2 = spread(f2, c, False)
    s3 = spread(f3, c, False)
    found = near(g, c, rad)
    n = len(found)
    if n == 0:
        return 0.0, 500.0
    err = 0.0
    for a, k in found:
        err = err + (sigma_m * sigma_m + noise * s2 * s2) / (1.0 * k)
    var = sigma_m * sigma_m + s1 * s1 + noise * s2 * s2 + err / (n * n * 1.0) + s3 * s3 / (n * 1.0)
    return mean([a for a, k in found]), math.sqrt(var)


def new_buddy_limits(obs, f1, f2, f3, rad, sigma_m, noise):
    g = fill(obs)
    return [new_limits_for(g, box(o[0], o[1], o[2], o[3]), f1, f2, f3, rad, sigma_m, noise) for o in obs]


def passing(obs, verdict):
    return [o for o, v in zip(obs, verdict) if v == 0]


def mds_check(obs, verdict, field, limits, thresholds, mults):
    g = fill(passing(obs, verdict))
    out = []
    for o, v in zip(obs, verdict):
        if v != 0:
            out.append(0)
            continue
        m, s = limits_for(g, box(o[0], o[1], o[2], o[3]), field, limits, thresholds, mults)
        if abs(o[4] - m) >= s:
            out.append(1)
        else:
            out.append(0)
    return out


def bayes_check(obs, verdict, f1, f2, f3, rad, sigma_m, noise, p0, q, hi):
    import qc
    g = fill(passing(obs, verdict))
    out = []
    for o, v in zip(obs, verdict):
        if v != 0:
            out.append(0)
            continue
        m, s = new_limits_for(g, box(o[0], o[1], o[2], o[3]), f1, f2, f3, rad, sigma_m, noise)
        p = qc.p_gross(p0, q, hi, -hi, o[4], m, s)
        k = math.floor(10 * p)
        if k > 9:
            k = 9
        out.append(k)
    return out
