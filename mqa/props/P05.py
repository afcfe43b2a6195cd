"""The wind consistency check is interpreted for every missing or present speed and direction
and every limit."""
from ..equiv import *


def check(c):
    c.equiv('qc.wind_consistency', 'elem.wind', lambda r: [opt('w'), opt('d'), real('lim')])
