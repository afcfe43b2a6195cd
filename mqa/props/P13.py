"""Observations put in boxes around a centre (with every combination of offsets just inside, at and just outside the
search radius, across the date line, the year end and near the poles) are searched for by interpreting the gridding
and neighbour search code; the neighbours found are compared with the definition of nearness.  Averaging and counting
are compared for every pattern of shared boxes and missing anomalies."""
from ..equiv import *
from .. import buddy as B
import math

FOUND = 'Extended_IMMA.Np_Super_Ob.get_neighbour_anomalies'


def search(run, g, rad, c):
    r = run.force(run.call_method(g, 'get_neighbour_anomalies', [AList(list(rad)), c[0], c[1], c[2]]))
    if not isinstance(r, (tuple, AList)) or len(run.iterate(r)) != 2:
        raise Unsupported('neighbour search result')
    a, n = [run.iterate(x) for x in run.iterate(r)]
    if len(a) != len(n):
        return AList(['lists of different length'])
    return AList(list(zip(a, n)))


def ordered(run, v):
    return AList(sorted(run.iterate(v), key=lambda t: vkey(run.force(t[0])) if isinstance(t, tuple) else ''))


def around(c, rad):
    """boxes at offsets just inside, at and beyond the radius in each direction"""
    x, y, p = c
    w = int(rad[0] / math.cos(math.radians(89.5 - y)))
    xs = sorted(set((x + d) % 360 for d in (-w - 1, -w, -w + 1, -1, 0, 1, w - 1, w, w + 1, 179, 180, 181)))
    ys = sorted(set((y + d) % 180 for d in (-rad[1] - 1, -rad[1], 0, rad[1], rad[1] + 1)))
    ps = sorted(set((p + d) % 73 for d in (-rad[2] - 1, -rad[2], 0, rad[2], rad[2] + 1)))
    return [(i, j, k) for i in xs for j in ys for k in ps]


def check(c):
    c.batch()
    rows = [0, 1, 2, 3, 7, 29, 30, 59, 60, 89, 90, 119, 120, 149, 150, 172, 177, 178, 179]
    centres = [(0, y, 0) for y in rows] + [(359, 44, 72), (179, 89, 36), (180, 90, 40), (1, 0, 1), (358, 179, 71)]
    radii = [[1, 1, 2], [2, 2, 4]] + ([[1, 1, 4], [2, 2, 2], [3, 1, 1]] if c.thorough() else [])
    for rad in radii:
        for ctr in centres:
            boxes = around(ctr, rad)
            if ctr[1] in (0, 1, 2, 3, 177, 178, 179):
                boxes = [b for b in boxes if b[2] in (ctr[2], (ctr[2] + rad[2]) % 73, (ctr[2] - rad[2] - 1) % 73) or b[0] == ctr[0]]

            def obs(boxes=boxes):
                o = [B.centre(b) + (real('a%d_%d_%d' % b),) for b in boxes]
                return o + [B.centre(b) + (real('b%d_%d_%d' % b),) for b in boxes[::5]]
            spec(c, ctr, rad, obs, 'boxes around %s, radius %s' % (ctr, rad))
    # which boxes are filled, and what they average to
    for rad, ctr in (([1, 1, 2], (180, 90, 0)), ([1, 0, 0], (0, 89, 72)), ([0, 1, 1], (359, 89, 72))):
        w = 1 if rad[0] else 0
        near = [((ctr[0] + w) % 360, ctr[1], ctr[2]), ((ctr[0] - w) % 360, ctr[1] + rad[1], (ctr[2] + rad[2]) % 73), ctr]
        for n in range(0, 4 if c.thorough() else 3):
            def obs(n=n, near=near):
                return [B.pick('box%d' % i, near) + (Lazy('a%d' % i, [None, real('a%d' % i)]),) for i in range(n)]
            spec(c, ctr, rad, obs, '%d observations, some sharing a box, around %s' % (n, ctr))

    # the box of an observation: edges between boxes
    for nm, la, lo in (('equator', (-1.5, 1.5), (-1.5, 1.5)), ('north', (88.5, 90), (178.5, 180)), ('south', (-90, -88.5), (-180, -178.5))):
        ctr = {'equator': (180, 89, 30), 'north': (358, 1, 30), 'south': (1, 178, 30)}[nm]

        def obs(la=la, lo=lo):
            return [(real('lat', lo=la[0], hi=la[1]), real('lon', lo=lo[0], hi=lo[1]), 6, 2, real('a'))]
        spec(c, ctr, [1, 1, 0], obs, 'an observation anywhere near %s' % nm)
    for m in range(1, 13):
        def obs(m=m):
            return [(Num(pconst(Fr(1, 2))), Num(pconst(Fr(1, 2))), m, integer('day', lo=1, hi=[31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]), real('a'))]
        spec(c, (180, 89, int(6.2 * m) - 5), [0, 0, 5], obs, 'an observation on any day of month %d' % m)
    c.flush()
    c.need(len(c.instances), 70, 'instances')


def spec(c, ctr, rad, obs, name):
    def impl(run, a, k):
        return search(run, B.grid(run, obs()), rad, ctr)
    c.equiv(FOUND, 'buddy.near_obs', lambda r: [], cfg=B.config(), call=impl, name=name,
            spec_mk=lambda r: [AList(obs()), ctr, AList(rad)], post=ordered)
