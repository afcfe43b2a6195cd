# Reference definitions: the IQUAM track and spike checks (Xu and Ignatov 2013)
import qc
import spherical_geometry as sph
from voy import between
from blk import isin


def prune(bad):
    """bad[i]: partners report i disagrees with.  The report with most disagreements (the first of equals) is
    flagged and dropped from the lists of the others, until no disagreement is left"""
    n = len(bad)
    left = [[j for j in row] for row in bad]
    flags = [0 for row in bad]
    for k in range(n):
        worst = -1
        most = 0
        for i in range(n):
            if len(left[i]) > most:
                most = len(left[i])
                worst = i
        if worst < 0:
            return flags
        flags[worst] = 1
        for j in range(n):
            left[j] = [m for m in left[j] if m != worst]
        left[worst] = []
    return flags


def apart(p, q):
    s, c, d, t = between(p, q)
    return d, abs(t)


def too_fast(p, q, dd, dt, limit):
    d, t = apart(p, q)
    if d <= dd:
        return 0 > limit
    return (d - dd) / (t + dt) > limit


def near(i, j, k):
    return i != j and j - i <= k and i - j <= k


def iquam(pts, ident, pt, par, k):
    n = len(pts)
    if n == 0:
        return []
    if qc.id_is_generic(ident, pts[0][2][0]):
        return [0 for p in pts]
    limit = par[1]
    if isin(pt, [6, 7]) == 1:
        limit = par[0]
    bad = [[] for p in pts]
    for i in range(n):
        for j in range(i):
            if near(i, j, k) and too_fast(pts[i], pts[j], par[2], par[3], limit):
                bad[i].append(j)
                bad[j].append(i)
    return prune(bad)


def spiky(p, q, v, w, lim, gs, gt):
    if v is None or w is None:
        return False
    d, t = apart(p, q)
    x = abs(v - w)
    return x > lim and x > d * gs and x > t * gt


def spike(pts, vals, pt, par, k):
    n = len(pts)
    if n == 0:
        return []
    lim = par[2]
    if isin(pt, [6, 7]) == 1:
        lim = par[3]
    bad = [[] for p in pts]
    for i in range(n):
        for j in range(i):
            if near(i, j, k) and spiky(pts[i], pts[j], vals[i], vals[j], lim, par[0], par[1]):
                bad[i].append(j)
                bad[j].append(i)
    return prune(bad)


def prune_pairs(n, bad):
    rows = [[] for i in range(n)]
    for i in range(n):
        for j in range(n):
            if i != j and bad[i][j]:
                rows[i].append(j)
    return prune(rows)
