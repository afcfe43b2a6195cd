"""Emptiness of a convex polyhedron (polyhedra abstract domain): the linear constraints a partition is under,
with every monomial as one dimension.  Exact rational arithmetic."""
from .domain import *


def _simplex_max(rows, rhs, obj, limit=4000):
    """maximise obj.x subject to rows.x <= rhs, x >= 0 (sparse dicts).  -> value or None when empty;
    'inf' when unbounded; 'unknown' when the iteration limit is hit"""
    # dictionary form: basic variables s_i = rhs_i - rows_i.x
    n = 0
    for r in rows:
        for j in r:
            n = max(n, j + 1)
    for j in obj:
        n = max(n, j + 1)
    m = len(rows)
    basic = [n + i for i in range(m)]
    D = [dict((j, -c) for j, c in r.items() if c) for r in rows]     # s_i = B_i + sum D_i[j] x_j
    B = [Fr(x) for x in rhs]

    def pivot(i, j, objs):
        """nonbasic j enters, row i leaves"""
        r = D[i]
        c = r.pop(j)
        leave = basic[i]
        # leave = B + c*xj + rest -> xj = (leave - B - rest)/c
        nr = dict((k, -v / c) for k, v in r.items())
        nr[leave] = Fr(1) / c
        nb = -B[i] / c
        D[i], B[i], basic[i] = nr, nb, j
        for k in range(m):
            if k != i and j in D[k]:
                f = D[k].pop(j)
                B[k] += f * nb
                t = D[k]
                for q, v in nr.items():
                    w = t.get(q, 0) + f * v
                    if w:
                        t[q] = w
                    else:
                        t.pop(q, None)
        for o in objs:
            if j in o[1]:
                f = o[1].pop(j)
                o[0] += f * nb
                for q, v in nr.items():
                    w = o[1].get(q, 0) + f * v
                    if w:
                        o[1][q] = w
                    else:
                        o[1].pop(q, None)

    def optimise(o, objs):
        for _ in range(limit):
            enter = None
            for j in sorted(o[1]):
                if o[1][j] > 0:
                    enter = j
                    break
            if enter is None:
                return 'ok'
            best = None
            for i in range(m):
                c = D[i].get(enter, 0)
                if c < 0:
                    ratio = B[i] / -c
                    if best is None or ratio < best[0] or (ratio == best[0] and basic[i] < best[1]):
                        best = (ratio, basic[i], i)
            if best is None:
                return 'inf'
            pivot(best[2], enter, objs)
        return 'unknown'
    main = [Fr(0), dict(obj)]
    if m and min(B) < 0:
        x0 = n + m
        for i in range(m):
            D[i][x0] = Fr(1)
        aux = [Fr(0), {x0: Fr(-1)}]
        i = min(range(m), key=lambda k: B[k])
        pivot(i, x0, [aux, main])
        st = optimise(aux, [aux, main])
        if st == 'unknown':
            return 'unknown'
        if aux[0] < 0:
            return None
        if x0 in basic:
            i = basic.index(x0)
            js = [j for j in D[i]]
            if js:
                pivot(i, js[0], [aux, main])
            else:
                pass
        for k in range(m):
            D[k].pop(x0, None)
        main[1].pop(x0, None)
    st = optimise(main, [main])
    if st != 'ok':
        return st
    return main[0]


def constraints(run):
    """[(poly, strict)] meaning poly <= 0 (or < 0), plus equalities as two"""
    out = []
    seen = set()
    dims = set()

    def add(p, lo, hi, lo_open, hi_open):
        if lo is not None:
            out.append((padd(pconst(lo), p, -1), lo_open))
        if hi is not None:
            out.append((padd(p, pconst(hi), -1), hi_open))
    for key, iv in list(run.bounds.items()):
        p = run.subst_points(key)
        add(p, iv.lo, iv.hi, iv.lo_open, iv.hi_open)
    for a, q in list(run.subs.items()):
        q = run.subst_points(q)
        add(q, a.lo, a.hi, a.lo_open, a.hi_open)
    floors = set(a for a in run.subs if a.name == 'floor')
    for p in [p for p, st in out] + list(run.bounds):
        for m in p.t:
            for a, e in m:
                if a.name == 'floor':
                    floors.add(a)
    for a in sorted(floors, key=lambda a: a.key):
        if a.kind == 'fn' and len(a.args) == 1 and isinstance(a.args[0], Num):
            x, f = a.args[0].p, patom(a)
            if a in run.subs:
                f = run.subst_points(run.subs[a])
            out.append((padd(f, x, -1), False))                     # floor(x) <= x
            out.append((padd(padd(x, f, -1), pconst(-1)), True))    # x < floor(x) + 1
    if floors:
        for key, iv in list(run.bounds.items()):
            add(key, iv.lo, iv.hi, iv.lo_open, iv.hi_open)
    for p, st in list(out):
        for m in p.t:
            if m:
                dims.add(m)
    return out, dims, add


def empty(run, extra=()):
    """is the partition's set of states certainly empty?"""
    try:
        out, dims, add = constraints(run)
    except Exception as e:
        if type(e).__name__ == 'Infeasible':
            return True
        raise
    for p, st in extra:
        p = run.subst_points(p)
        out.append((p, st))
        dims.update(m for m in p.t if m)
    neqs = []
    for key, vals in list(run.neq.items()):
        p = run.subst_points(key)
        for m in p.t:
            if m:
                dims.add(m)
        for z in vals:
            neqs.append(padd(p, pconst(z), -1))
    for m in sorted(dims, key=mono_key):
        iv = run._mono_iv(m)
        add(Poly({m: Fr(1)}), iv.lo, iv.hi, iv.lo_open, iv.hi_open)
    idx = {m: i for i, m in enumerate(sorted(dims, key=mono_key))}
    n = len(idx)
    if n > 150 or len(out) > 400:
        return False
    rows, rhs, done = [], [], set()

    def row(p, strict, extra=True):
        c0 = p.t.get((), Fr(0))
        r = {}
        for m, c in p.t.items():
            if m:
                r[2 * idx[m]] = r.get(2 * idx[m], Fr(0)) + c
                r[2 * idx[m] + 1] = r.get(2 * idx[m] + 1, Fr(0)) - c
        if strict:
            r[2 * n] = Fr(1)
        return r, -c0
    strictness = False
    for p, st in out:
        if not [m for m in p.t if m]:
            c0 = p.t.get((), Fr(0))
            if c0 > 0 or (st and c0 == 0):
                return True
            continue
        k = (p.key, st)
        if k in done:
            continue
        done.add(k)
        r, b = row(p, st)
        strictness = strictness or st
        rows.append(r)
        rhs.append(b)
    rows.append({2 * n: Fr(1)})
    rhs.append(Fr(1))
    v = _simplex_max(rows, rhs, {2 * n: Fr(1)})
    if v is None or (strictness and v == 0):
        return True
    if v in ('unknown', 'inf'):
        return False
    for p in neqs:
        if not [m for m in p.t if m]:
            if not p.t:
                return True
            continue
        r, b = row(p, False)
        o = dict((j, c) for j, c in r.items())
        hi = _simplex_max(rows, rhs, o)
        if hi in ('inf', 'unknown') or hi is None:
            continue
        lo = _simplex_max(rows, rhs, dict((j, -c) for j, c in o.items()))
        if lo in ('inf', 'unknown') or lo is None:
            continue
        if hi == b and -lo == b:
            return True
    return False
