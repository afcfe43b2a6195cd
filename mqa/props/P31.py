"""Whole runs of the three quality control programs are interpreted, the outcome of every check being a given or unknown
flag; which reports are handed to each check with which parameters and spreads, and what is handed to the writers, is
compared with a reference definition."""
from itertools import combinations
from ..driver import *

FILTERS = ['POSdate', 'POStime', 'POSpos', 'POSblklst', 'POStrk', 'POSday', 'POSisship', 'POSis780', 'POSisdrifter',
           'SSTnoval', 'SSTfreez', 'SSTclim', 'SSTnonorm', 'ATmat_blacklist', 'ATnoval', 'ATclim', 'ATnonorm',
           'DPThum_blacklist', 'DPTnoval', 'DPTclim', 'DPTnonorm', 'SLPnoval', 'SLPclim', 'SLPnonorm']


def check(c):
    c.batch()
    one = (2000, 1, 2000, 1)
    kinds = CHECKS + WRITTEN + ['identifier']
    D = lambda d, m=1, y=2000: (y, m, d)
    drifters = {'POSisdrifter': 1}
    for kind in PROGRAMS:
        def go(label, files, span=one, **kw):
            drive(c, kind, label, files, span, kinds, **kw)
        for t in (False, True):
            tr = ', tracking' if t else ''
            go('no reports' + tr, {}, tracking=t)
            go('two ships' + tr, {(2000, 1): [Report('A'), Report('B', 'SHIP2    ')]}, tracking=t)
            go('ships in turns' + tr, {(2000, 1): [Report(u, 'SHIP%s    ' % s, D(5 - i)) for i, (u, s) in
                                                   enumerate([('A', 1), ('B', 2), ('C', 1), ('D', 2)])]}, tracking=t)
        for k in FILTERS + [b for b in BASE if b not in FILTERS]:
            go('any ' + k, {(2000, 1): [Report('A', free=[k]), Report('B'), Report('C', 'SHIP2    ')]})
            if k.startswith('POS') or c.thorough():
                go('any %s of drifters' % k, {(2000, 1): [Report('A', free=[k], flags=drifters),
                                                         Report('B', flags=drifters), Report('C', 'SHIP2    ')]}, tracking=True)
        months = {(1999, 12): [Report('A', date=(1999, 12, 30), flags=drifters)],
                  (2000, 1): [Report('B', flags=drifters), Report('C', 'SHIP2    ', flags=drifters), Report('X', 'SHIP4    ')],
                  (2000, 2): [Report('D', date=(2000, 2, 1), flags=drifters), Report('E', 'SHIP3    ', (2000, 2, 2), flags=drifters)]}
        for t in (False, True):
            go('three months' + (', tracking' if t else ''), months, tracking=t)
            go('two months\' runs' + (', tracking' if t else ''), months, (2000, 1, 2000, 2), tracking=t)
        for ident in ('A/B*     ', 'WITH SP  ', '1234567', None):
            go('identifier %r' % ident, {(2000, 1): [Report('A', ident, flags=drifters), Report('B', flags=drifters)]}, tracking=True)
        go('two reports each failing something', {(2000, 1): [Report('A', free=['POStrk']), Report('B', free=['POSdate']),
                                                               Report('C', 'SHIP2    ', free=['SSTclim'])]})
        if c.thorough():
            for k, l in combinations(FILTERS, 2):
                go('any %s and %s' % (k, l), {(2000, 1): [Report('A', free=[k, l]), Report('B'), Report('C', 'SHIP2    ', free=[k])]})
    c.flush()
    c.need(len(c.instances), 120, 'instances')
