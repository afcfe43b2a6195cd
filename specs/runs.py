# Reference definitions: repeated, rounded and saturated values along a voyage
import math
from voy import between


def present(vals):
    n = 0
    for v in vals:
        if v is not None:
            n = n + 1
    return n


def repeated(vals, threshold, min_count):
    if threshold < 0 or threshold > 1:
        raise ValueError('threshold')
    n = present(vals)
    out = []
    for v in vals:
        f = 0
        if v is not None and n > min_count:
            same = 0
            for w in vals:
                if w is not None and w == v:
                    same = same + 1
            if same > threshold * n:
                f = 1
        out.append(f)
    return out


def whole(v):
    return v is not None and v == math.floor(v)


def rounded(vals, threshold, min_count):
    if threshold < 0 or threshold > 1:
        raise ValueError('threshold')
    n = present(vals)
    k = 0
    for v in vals:
        if whole(v):
            k = k + 1
    out = []
    for v in vals:
        f = 0
        if n > min_count and k >= threshold * n and whole(v):
            f = 1
        out.append(f)
    return out


def saturated_runs(pts, at, dpt, shortest, hours):
    n = len(pts)
    sat = [at[i] is not None and dpt[i] is not None and at[i] == dpt[i] for i in range(n)]
    out = [0 for p in pts]
    i = 0
    for k in range(n):
        if i >= n:
            break
        if not sat[i]:
            i = i + 1
            continue
        j = i
        for m in range(i, n):
            if not sat[m]:
                break
            j = m
        if j - i + 1 > shortest and between(pts[i], pts[j])[3] >= hours:
            for m in range(i, j + 1):
                out[m] = 1
        i = j + 1
    return out
