# Reference definitions: drifting-buoy checks
import math
import spherical_geometry
import qc
import trackqc


# ---- times since the first report, in hours
def hours(steps):
    for d in steps[1:]:
        if d is None or d < 0:
            raise ValueError('times missing or not in order')
    out = []
    t = 0
    for i in range(len(steps)):
        if i > 0:
            t = t + steps[i]
        out.append(t)
    return out


def placed(lat, lon):
    for x in lat + lon:
        if x is None:
            raise ValueError('place missing')


def last_within(t, i, limit):
    k = i
    for j in range(len(t)):
        if t[j] <= t[i] + limit:
            k = j
    return k


def middle(v):
    v = sorted(v)
    return v[(len(v) - 1) // 2]


# ---- aground: lo, hi in days (hi None: compare with the last report only)
def aground(lat, lon, steps, smooth, lo, hi):
    if smooth < 1 or smooth % 2 == 0 or lo < 1 or (hi is not None and hi < lo):
        raise ValueError('parameters')
    n = len(lat)
    if n <= smooth:
        return [0 for x in lat]
    placed(lat, lon)
    t = hours(steps)
    half = (smooth - 1) // 2
    m = n - smooth + 1
    sy = [middle(lat[i:i + smooth]) for i in range(m)]
    sx = [middle(lon[i:i + smooth]) for i in range(m)]
    st = [t[i + half] for i in range(m)]
    near = spherical_geometry.sphere_distance(0, 0, 0.01, 0.01)
    start = None
    for i in range(m):
        if st[m - 1] - st[i] < lo * 24:
            break
        k = m - 1
        if hi is not None:
            k = last_within(st, i, hi * 24)
        if st[k] - st[i] < lo * 24:
            continue
        if spherical_geometry.sphere_distance(sy[i], sx[i], sy[k], sx[k]) > near:
            start = None
        elif start is None:
            start = i
    out = []
    for i in range(n):
        f = 0
        if start is not None and (start == 0 or i >= start + half):
            f = 1
        out.append(f)
    return out


# ---- speed over the longest period within the window
def speeding(lat, lon, steps, limit, lo, hi):
    if limit < 0 or lo < 0 or hi < lo:
        raise ValueError('parameters')
    n = len(lat)
    out = [0 for x in lat]
    if n <= 1:
        return out
    placed(lat, lon)
    t = hours(steps)
    if lo == 0:
        raise Unspecified()
    for i in range(n):
        if t[n - 1] - t[i] < lo * 24:
            break
        k = last_within(t, i, hi * 24)
        if t[k] - t[i] < lo * 24:
            continue
        d = spherical_geometry.sphere_distance(lat[i], lon[i], lat[k], lon[k])
        if d * 1000 > limit * 3600 * (t[k] - t[i]):
            for j in range(i, k + 1):
                out[j] = 1
    return out


# ---- speed over the shortest period beyond the minimum, badly placed reports left out
def speeding_new(lat, lon, steps, bad, limit, lo):
    if limit < 0 or lo < 0:
        raise ValueError('parameters')
    n = len(lat)
    out = [0 for x in lat]
    if n <= 1:
        return out
    placed(lat, lon)
    t = hours(steps)
    if lo == 0:
        raise Unspecified()
    for i in range(n):
        if t[n - 1] - t[i] < lo * 24:
            break
        if bad[i] != 0:
            continue
        for k in range(n):
            if bad[k] == 0 and t[k] - t[i] >= lo * 24:
                d = spherical_geometry.sphere_distance(lat[i], lon[i], lat[k], lon[k])
                if d * 1000 > limit * 3600 * (t[k] - t[i]):
                    for j in range(i, k + 1):
                        out[j] = 1
                break
    return out


# ---- day or night
def sun(year, day, hour, minute, lat, lon):
    if lat == 0:
        lat = 0.0001
    if lon == 0:
        lon = 0.0001
    return qc.sunangle(year, day, hour, minute, 0, 0, 0, lat, lon)[1]


def daytime(year, month, day, hour, lat, lon, limit):
    for x in (year, month, day, hour, lat, lon):
        if x is None:
            raise ValueError('missing')
    if month < 1 or month > 12 or day < 1 or day > 31 or hour < 0 or hour > 24 or lat < -90 or lat > 90:
        raise ValueError('out of range')
    h = math.floor(hour)
    return sun(year, qc.dayinyear(year, month, day), h, (hour - h) * 60, lat, lon) > limit


def day_before(year, month, day, hour, lat, lon, ago):
    if month < 1 or month > 12 or day < 1 or day > 31 or hour < 0 or hour > 24 or lat < -90 or lat > 90:
        raise ValueError('out of range')
    h = math.floor(hour)
    m = (hour - h) * 60
    d = qc.dayinyear(year, month, day)
    h = h - ago
    if h < 0:
        h = h + 24
        d = d - 1
        if d < 1:
            year = year - 1
            d = qc.dayinyear(year, 12, 31)
    if sun(year, d, h, m, lat, lon) > 0:
        return 1
    return 0


# ---- sea-surface temperature records against a background
def mean(v):
    s = 0
    for x in v:
        s = s + x
    return s * (1.0 / len(v))


def spread(v):
    m = mean(v)
    return math.sqrt(mean([(x - m) * (x - m) for x in v]))


def resistant(v, trim, f):
    if trim == 0:
        return f(v)
    v = sorted(v)
    k = int(math.floor(len(v) * (1.0 / trim)))
    return f(v[k:len(v) - k])


def trim_mean(v, trim):
    return resistant(v, trim, mean)


def trim_std(v, trim):
    return resistant(v, trim, spread)


def usable(sst, bg, ice, var, steps, day, limit):
    """positions, anomalies and error variances of the reports that can be assessed; whether any was too uncertain"""
    ix = []
    an = []
    ev = []
    masked = False
    for i in range(len(sst)):
        c = ice[i]
        if c is None:
            c = 0
        if c < 0 or c > 1:
            raise ValueError('ice')
        if i > 0 and (steps[i] is None or steps[i] < 0):
            raise ValueError('times')
        unsure = limit is not None and var[i] is not None and var[i] > limit
        if unsure:
            masked = True
        if day[i] or bg[i] is None or c > 0.15 or unsure:
            continue
        if bg[i] < -5 or bg[i] > 45 or var[i] is None or var[i] < 0 or var[i] > 10:
            raise ValueError('background')
        if sst[i] is None:
            raise ValueError('no sst')
        ix.append(i)
        an.append(sst[i] - bg[i])
        ev.append(var[i])
    return ix, an, ev, masked


def long_fails(an, ev, n, inter, intra):
    a = mean(an)
    if a < 0:
        a = -a
    e = mean([math.sqrt(x) for x in ev])
    return a > n * math.sqrt(inter * inter + e * e) or spread(an) > math.sqrt(intra * intra + mean(ev))


def wild(an, ev, n, inter, intra):
    k = 0
    for i in range(len(an)):
        lim = n * math.sqrt(ev[i] + inter * inter + intra * intra)
        if an[i] > lim or an[i] < -lim:
            k = k + 1
    return k


def leading(an, ev, w, limit, fails):
    """number of windows of w failing from the start on, before a passing one or one of uncertain background"""
    k = 0
    for i in range(len(an) - w + 1):
        for x in ev[i:i + w]:
            if math.sqrt(x) > math.sqrt(limit):
                return k
        if not fails(an[i:i + w], ev[i:i + w]):
            return k
        k = k + 1
    return k


def tails(sst, bg, ice, var, steps, day, long_w, long_n, short_w, short_n, n_bad, inter, intra, limit):
    if long_w < 1 or long_w % 2 == 0 or long_n < 0 or short_w < 1 or short_n < 0 or n_bad < 1 or inter < 0 or intra < 0 or limit < 0:
        raise ValueError('parameters')
    ix, an, ev, masked = usable(sst, bg, ice, var, steps, day, None)
    n = len(ix)
    one = [0 for x in sst]
    two = [0 for x in sst]
    lo = 0          # assessed reports lo .. hi are good
    hi = n - 1
    half = (long_w - 1) // 2

    def bad_long(a, e):
        return long_fails(a, e, long_n, inter, intra)

    def bad_short(a, e):
        return wild(a, e, short_n, inter, intra) >= n_bad
    if n >= long_w:
        k = leading(an, ev, long_w, limit, bad_long)
        if k > 0:
            lo = k + half
        k = leading(an[::-1], ev[::-1], long_w, limit, bad_long)
        if k > 0:
            hi = n - 1 - k - half
    m = hi - lo + 1
    if m >= short_w and m > 0:
        a = an[lo:hi + 1]
        e = ev[lo:hi + 1]
        k = leading(a, e, short_w, limit, bad_short)
        if k == m - short_w + 1:
            k = k - 1 + short_w
        j = leading(a[::-1], e[::-1], short_w, limit, bad_short)
        if j == m - short_w + 1:
            j = j - 1 + short_w
        lo = lo + k
        hi = hi - j
    if lo <= hi:
        for i in range(len(sst)):
            if lo > 0 and i <= ix[lo - 1]:
                one[i] = 1
            if hi < n - 1 and i >= ix[hi + 1]:
                two[i] = 1
    return one, two


def whole(sst, bg, ice, var, steps, day, n_eval, bias, intra, inter, n_std, n_bad, limit):
    if n_eval < 1 or bias < 0 or intra < 0 or inter < 0 or n_std < 0 or n_bad < 1 or limit < 0:
        raise ValueError('parameters')
    ix, an, ev, masked = usable(sst, bg, ice, var, steps, day, limit)
    r = [0, 0, 0]
    if len(an) >= n_eval:
        a = mean(an)
        if a > bias or a < -bias:
            r[0] = 1
        if spread(an) > math.sqrt(intra * intra + mean(ev)):
            r[1] = 1
    elif len(an) > 0 and not masked:
        if wild(an, ev, n_std, inter, intra) >= n_bad:
            r[2] = 1
    return [r for x in sst]


def speeding_new_all(lat, lon, steps, bad, limit, lo):
    return (speeding_new(lat, lon, steps, bad, limit, lo), [9 for x in lat], [7 for x in lat])
