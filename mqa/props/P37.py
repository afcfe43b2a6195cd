"""Every calendar helper is interpreted over all years, months and days (months outside 1-12 and
days outside the month included) and compared with its reference definition; the month iterator is
interpreted for every start and end month with the end year 0, 1 or 2 years (thorough: 4) after an
arbitrary start year."""
from ..equiv import *


def check(c):
    E = c.equiv

    def month(n):
        return Lazy(n, list(range(1, 13)) + [integer(n + 'lo', hi=0), integer(n + 'hi', lo=13)])
    ymd = lambda r: [opt('y', True), opt('m', True), opt('d', True)]
    E('qc.get_month_lengths', 'cal.month_lengths', lambda r: [integer('y')])
    E('qc.month_match', 'cal.month_match', lambda r: [integer(x) for x in ('y1', 'm1', 'y2', 'm2')])
    E('qc.yesterday', 'cal.yesterday', ymd)
    E('qc.season', 'cal.season', lambda r: [integer('m')])
    E('qc.day_in_year', 'cal.noleap_day', lambda r: [integer('m'), integer('d')])
    E('qc.which_pentad', 'cal.pentad', lambda r: [integer('m'), integer('d')])
    E('qc.pentad_to_month_day', 'cal.first_day_of_pentad', lambda r: [integer('p')])

    def roundtrip(run, a, k):
        m, d = run.iterate(run.call(lookup(run, 'qc.pentad_to_month_day'), a))
        return run.call(lookup(run, 'qc.which_pentad'), [m, d])
    E('qc.which_pentad', 'cal.same_pentad', lambda r: [integer('p')], call=roundtrip,
      name='pentad of the first day of a pentad')
    E('qc.dayinyear', 'cal.day_of_year', lambda r: [integer('y'), integer('m'), integer('d')])
    E('qc.last_month_was', 'cal.month_before', lambda r: [integer('y'), integer('m', lo=1, hi=12)])
    E('qc.next_month_is', 'cal.month_after', lambda r: [integer('y'), integer('m', lo=1, hi=12)])
    for k in range(-1, 5 if c.thorough() else 3):
        def mk(r, k=k):
            y = integer('y')
            return [y, month('m1'), r.binop('Add', y, k), month('m2')]
        E('qc.year_month_gen', 'cal.months', mk, name='qc.year_month_gen, end year = start year%+d' % k)
    c.need(len(c.instances), 15, 'calendar instances')
