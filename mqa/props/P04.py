"""position_check, time_check, date_check and the month-length table are interpreted over all
inputs (missing, NaN or arbitrary numbers; the leap-year predicate is a fact about the year) and
compared with their reference definitions; an error raised for an existing value is a violation."""
from ..equiv import *


def check(c):
    def pos(r):
        return [Lazy('lat', [None, NAN, real('lat')]), Lazy('lon', [None, NAN, real('lon')])]
    c.equiv('qc.position_check', 'elem.position', pos)
    c.equiv('qc.time_check', 'elem.hour', lambda r: [opt('h')])
    c.equiv('qc.date_check', 'elem.date', lambda r: [opt('y', True), opt('m', True), opt('d', True)])
    c.equiv('qc.get_month_lengths', 'elem.month_lengths', lambda r: [integer('y')])
