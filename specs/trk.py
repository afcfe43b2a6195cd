# Reference definitions: the ship track check (Met Office MDS track check on a spherical Earth)
import spherical_geometry as sph
import track_check as tc
import qc
import math
from voy import between

KN = 0.539957   # nautical miles per kilometre


def mode_speed(speeds):
    """most frequent 3-knot bin of all speeds but the first, at least 8.5 knots"""
    if len(speeds) < 2:
        return None
    best = -1
    centre = None
    for b in range(12):
        n = 0
        for s in speeds[1:]:
            k = s * KN
            if (b == 0 or k >= 3 * b) and (b == 11 or k < 3 * (b + 1)):
                n = n + 1
        if n > best:
            best = n
            centre = 3 * b + 1.5
    if centre < 8.5:
        centre = 8.5
    return centre / KN


def limits(mode):
    if mode is None or mode <= 8.51 / KN:
        return 15 / KN, 20 / KN, 0.0
    return mode * 1.25, 30 / KN, mode * 0.75


def increment(lat, lon, v, course, t):
    if t is None:
        return None, None
    a, b = sph.lat_lon_from_course_and_distance(lat, lon, course, v * t / 2)
    return a - lat, b - lon


def heading(d):
    return d is None or d == 0 or d == 45 or d == 90 or d == 135 or d == 180 or d == 225 or d == 270 or d == 315 or d == 360


def away(a, b, lim):
    x = abs(a - b)
    return x > lim and x < 360 - lim


def direction(dsi, prev, course, lim):
    if not heading(dsi) or not heading(prev):
        raise ValueError('heading')
    if dsi is None or prev is None or course is None:
        return 0
    if away(dsi, course, lim) or away(prev, course, lim):
        return 10
    return 0


def speed(vsi, prev, v, lim):
    if vsi is None or prev is None or v is None:
        return 0
    if abs(vsi / KN - v) > lim / KN and abs(prev / KN - v) > lim / KN:
        return 10
    return 0


def distance(vsi, prev, t, fwd, rev):
    if vsi is None or prev is None or t is None:
        return 0
    if vsi > 0 and prev > 0 and t > 0:
        if fwd is None or rev is None:
            return 0
        a = t * (vsi + prev) / 2 / KN
        if fwd > a and rev > a:
            return 10
    return 0


def direction_default(dsi, prev, course):
    return direction(dsi, prev, course, 60)


def speed_default(vsi, prev, v):
    return speed(vsi, prev, v, 10)


def leg(pts, i):
    """hours and so on from the previous point; None for the first"""
    if i == 0:
        return None, None, None, None
    return between(pts[i - 1], pts[i])


def forward(pts, vsi, dsi, back):
    out = []
    for i in range(len(pts)):
        if i == 0 or vsi[i] is None or vsi[i - 1] is None or dsi[i] is None or dsi[i - 1] is None:
            out.append(None)
            continue
        t = leg(pts, i)[3]
        a, b = i - 1, i
        turn = 0
        if back:
            a, b = i, i - 1
            turn = 180
        d1 = increment(pts[a][0], pts[a][1], vsi[a] / KN, dsi[a] - turn, t)
        d2 = increment(pts[b][0], pts[b][1], vsi[b] / KN, dsi[b] - turn, t)
        out.append(sph.sphere_distance(pts[b][0], pts[b][1], pts[a][0] + d1[0] + d2[0], pts[a][1] + d1[1] + d2[1]))
    if back and len(pts) > 0:
        return out[1:] + [None]
    return out


def distances(pts, vsi, dsi):
    return forward(pts, vsi, dsi, False)


def distances_back(pts, vsi, dsi):
    """entry i: the leg from point i to point i + 1 taken backwards"""
    return forward(pts, vsi, dsi, True)


def between_neighbours(pts, i):
    t0 = leg(pts, i)[3]
    t1 = leg(pts, i + 1)[3]
    f = 0.0
    if t0 + t1 != 0:
        f = t0 / (t0 + t1)
    a, b = sph.intermediate_point(pts[i - 1][0], pts[i - 1][1], pts[i + 1][0], pts[i + 1][1], f)
    return sph.sphere_distance(pts[i][0], pts[i][1], a, b)


def midpoints(pts, vsi, dsi):
    out = []
    for i in range(len(pts)):
        if i == 0 or i == len(pts) - 1:
            out.append(None)
        else:
            out.append(between_neighbours(pts, i))
    return out


def more(a, b):
    return a is not None and b is not None and a > b


def fails(pts, vsi, dsi, i, amax, p):
    """a report strictly inside the voyage"""
    n = len(pts)
    s = leg(pts, i)
    s1 = leg(pts, i + 1)
    altb = None
    alta = None
    if i - 1 > 0:
        altb = between(pts[i - 2], pts[i])[0]
    if i + 1 < n - 1:
        alta = between(pts[i], pts[i + 2])[0]
    a = (more(s[0], amax) and more(altb, amax)) or (more(s1[0], amax) and more(alta, amax)) \
        or (more(s[0], amax) and more(s1[0], amax))
    if not a:
        return 0
    if not between_neighbours(pts, i) > p[3] / KN:
        return 0
    if s[0] > p[2] / KN:
        return 1
    if tc.speed_continuity(vsi[i], vsi[i - 1], s[0], p[1]) > 0:
        return 1
    if tc.direction_continuity(dsi[i], dsi[i - 1], s[1], p[0]) > 0:
        return 1
    if tc.check_distance_from_estimate(vsi[i], vsi[i - 1], s[3], distances(pts, vsi, dsi)[i], distances_back(pts, vsi, dsi)[i]) > 0:
        return 1
    return 0


def track(pts, vsi, dsi, ident, pt, dck, p):
    """(track flag, too-few flag) of every report"""
    n = len(pts)
    if n == 0:
        return []
    yr = pts[0][2][0]
    if qc.id_is_generic(ident, yr) or pt == 6 or pt == 7:
        return [(0, 0) for k in pts]
    if n < 3:
        few = 1
        if dck == 720 and yr < 1891:
            few = 0
        return [(0, few) for k in pts]
    amax = limits(tc.modesp([leg(pts, i)[0] for i in range(n)]))[0]
    out = []
    for i in range(n):
        if i == 0 or i == n - 1:
            out.append((0, 0))
        else:
            out.append((fails(pts, vsi, dsi, i, amax, p), 0))
    return out


def one_pass(pts, vsi, dsi, ident, dck):
    n = len(pts)
    if n == 0:
        return []
    yr = pts[0][2][0]
    if qc.id_is_generic(ident, yr):
        return [0 for k in pts]
    if n < 3:
        return [0 for k in pts]
    amax = limits(tc.modesp([leg(pts, i)[0] for i in range(n)]))[0]
    out = []
    for i in range(n):
        if i == 0 or i == n - 1:
            out.append(0)
        else:
            out.append(fails(pts, vsi, dsi, i, amax, [60, 10, 40, 150]))
    return out


def verdicts(names, steps):
    """verdicts of one pass over the named reports (a table of unknown verdicts)"""
    raise ValueError('replaced by the analysis')


def full(pts, names):
    """up to five passes, reports that failed left out of the later ones"""
    left = [i for i in range(len(pts))]
    result = [0 for k in pts]
    for k in range(5):
        r = verdicts([names[i] for i in left], [leg([pts[i] for i in left], j) for j in range(len(left))])
        keep = []
        some = False
        for j in range(len(left)):
            result[left[j]] = r[j]
            if r[j] == 0:
                keep.append(left[j])
            else:
                some = True
        if not some:
            return result
        left = keep
    return result


def flags_one(pts, vsi, dsi, ident, deck):
    """track flag and too-few flag (9: not set) after one pass"""
    r = one_pass(pts, vsi, dsi, ident, deck)
    n = len(pts)
    if n == 0:
        return [], []
    yr = pts[0][2][0]
    if qc.id_is_generic(ident, yr):
        return [0 for k in pts], [9 for k in pts]
    if n < 3 and not (deck == 720 and yr < 1891):
        return [9 for k in pts], [1 for k in pts]
    return r, [0 for k in pts]
