"""The black list and the generic-identifier list are interpreted for every identifier, deck, year,
month, position and platform type (each possibly missing) and compared with reference tables."""
from ..equiv import *


def check(c):
    c.batch()
    ident = lambda: Lazy('id', [None, Opq('ID', kind='str')])
    years = [integer('y', hi=1957)] + list(range(1958, 1975)) + [integer('y2', lo=1975)]
    for k, y in enumerate(years):
        for deck in (732, None):
            if deck is None and 0 < k < len(years) - 1:
                continue
            c.equiv('qc.blacklist', 'blk.blacklist', lambda r, y=y, deck=deck: [
                Opq('ID', kind='str') if deck is None else 'X', deck if deck else opt('deck', True), y,
                integer('m') if deck is None else 6, real('lat', lo=-90, hi=90), real('lon', lo=-180, hi=360),
                opt('pt', True) if deck is None else 1], name='qc.blacklist year %s deck %s' % (vkey(y), deck or 'any'))
    c.equiv('qc.blacklist', 'blk.blacklist', lambda r: [ident(), opt('deck', True), integer('y'), integer('m'), 10, 20,
                                                        opt('pt', True)], name='qc.blacklist at one place')
    c.equiv('qc.blacklist', 'blk.blacklist_default', lambda r: [ident(), opt('deck', True), 1950, 6, real('lat'), real('lon')],
            name='qc.blacklist without platform type')
    c.equiv('qc.id_is_generic', 'blk.generic', lambda r: [ident(), integer('y')])
    c.flush()
    c.need(len(c.instances), 20, 'instances')
