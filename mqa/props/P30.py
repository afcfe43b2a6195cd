"""The winsorised and trimmed means are interpreted for lists of 1-4 unknown values in every order and
of up to 12 (thorough 20) unknown values in ascending and in descending order, and compared with their
reference definitions; likewise the mean of the present values."""
from ..equiv import *


def lists(n, order):
    def mk(r):
        xs = [real('x%d' % i) for i in range(n)]
        if order:
            for a, b in zip(xs, xs[1:]):
                r.constrain(padd(b.p, a.p, -1), '>=' if order > 0 else '<=')
        return AList(xs)
    return mk


def check(c):
    E = c.equiv
    N = 12 if c.thorough() else 8
    cases = [(n, 0) for n in range(1, 5)] + [(n, o) for n in range(5, N + 1) for o in (1, -1)]
    for n, o in cases:
        tag = ' of %d values%s' % (n, {0: '', 1: ' ascending', -1: ' descending'}[o])
        L = lists(n, o)
        E('qc.winsorised_mean', 'stat.winsorised', lambda r: [L(r)], name='qc.winsorised_mean' + tag)
        for t in (0, 3, 4, 5, 10):
            E('qc.trimmed_mean', 'stat.trimmed', lambda r: [L(r), t], name='qc.trimmed_mean(%d)%s' % (t, tag))
    for n in range(0, 5):
        E('qc.missing_mean', 'stat.missing_mean', lambda r: [AList([opt('x%d' % i) for i in range(n)])],
          name='qc.missing_mean of %d' % n)
