"""Whole runs of the three quality control programs are interpreted for files with readable, unreadable, excluded and
misplaced records; which records are taken in, and the normals, background values and derived quantities each one has when
its basic checks start, are compared with a reference definition."""
from ..driver import *


def check(c):
    c.batch()
    one = (2000, 1, 2000, 1)
    kinds = BASES + WRITTEN + ['track check', 'identifier']

    def months(*ms):
        return {(y, m): [Report('%d-%d.%d' % (y, m, d), 'SHIP%d    ' % (d % 3), (y, m, d)) for d in (1, 2, 28)] for y, m in ms}
    year = months((1999, 10), (1999, 11), (1999, 12), (2000, 1), (2000, 2), (2000, 3), (2000, 4))
    for kind in PROGRAMS:
        def go(label, files, span=one, **kw):
            drive(c, kind, label, files, span, kinds, **kw)
        for span in (one, (1999, 12, 1999, 12), (2000, 2, 2000, 2), (1999, 11, 2000, 3), (1999, 12, 2000, 1)):
            go('run of %d-%d to %d-%d' % span, year, span)
        for gone in ((1999, 12), (2000, 1), (2000, 2)):
            rest = {k: v for k, v in year.items() if k != gone}
            go('no file for %d-%d' % gone, rest)
            go('vanished file for %d-%d' % gone, rest, gone=[gone])
            go('empty file for %d-%d' % gone, {**rest, gone: []})
        # records that do not belong
        for read in ((1999, 12), (2000, 1), (2000, 2)):
            y, m = read
            odd = [Report('A', date=(y, m, 3)), Report('B', date=(y - 1, m, 3)), Report('C', date=(y, m % 12 + 1, 3)),
                   Report('D', date=(None, m, 3)), Report('E', date=(y, None, 3)), Report('F', date=(y, m, None)), Report('G', date=(y, m, 3))]
            go('misplaced records in the file of %d-%d' % read, {read: odd})
        bad = lambda u, **k: Report(u, readable=False, **k)
        for n, rs in (('first', [bad('A'), Report('B'), Report('C')]), ('last', [Report('A'), bad('B')]),
                      ('every other', [Report('A'), bad('B'), Report('C'), bad('D', reached=False), Report('E')]),
                      ('all', [bad('A'), bad('B', reached=False)]), ('first, identifier not reached', [bad('A', reached=False), Report('B')])):
            go('unreadable: ' + n, {(2000, 1): rs})
        ids = [Report(u, i) for u, i in (('A', 'BAD      '), ('B', 'GOOD     '), ('C', '123456789'), ('D', 'BAD1     '), ('E', None), ('F', '         '))]
        for n, ex in (('none', []), ('short', ['BAD']), ('padded', ['BAD      ']), ('two', ['123456789', 'BAD1  ']), ('blank line', ['', 'BAD', ' ']),
                      ('others', ['BA', 'AD', 'bad'])):
            go('excluded identifiers: ' + n, {(2000, 1): ids}, excluded=ex)
        # background
        for n, (y, m), rs in [('1985', (1985, 1), [(1985, 1, 1), (1985, 1, 2)]), ('1984', (1984, 12), [(1984, 12, 31), (1984, 12, 31)]),
                              ('changing days', (2000, 1), [(2000, 1, 5), (2000, 1, 5), (2000, 1, 6), (2000, 1, 5), (2000, 1, None), (2000, 1, 5)]),
                              ('start of March', (2000, 3), [(2000, 3, 1), (2000, 3, 2)]), ('start of March in 1999', (1999, 3), [(1999, 3, 1)]),
                              ('days that do not exist', (2001, 2), [(2001, 2, 29), (2001, 2, 28), (2001, 2, 31)])]:
            span = (y, m, y, m)
            rs = [Report('R%d' % i, date=d) for i, d in enumerate(rs)]
            nx = [Report('N%d' % i, date=(y, m + 1, d)) for i, d in enumerate((5, 6)) if m < 12]
            go('background, ' + n, {(y, m): rs[:2] if n == 'changing days' else rs}, span, tracking=True)
            if len(rs) > 2:
                go('background, more ' + n, {(y, m): rs[2:5]}, span, tracking=True)
            go('no background, ' + n, {(y, m): rs}, span)
            if m < 12:
                go('background, next month after ' + n, {(y, m): rs[:1], (y, m + 1): nx[:1]}, span, tracking=True)
        go('background, same day in two months', {(2000, 1): [Report('A')], (2000, 2): [Report('B', date=(2000, 2, 5))]}, tracking=True)
        for m in range(1, 13):
            go('background in month %d' % m, {(2001, m): [Report('A', date=(2001, m, 7))]}, (2001, m, 2001, m), tracking=True)
        for n, la, lo in (('west', -10, -170), ('east beyond 180', 10, 190), ('180', 10, 180), ('anywhere', sym('lat', lo=-90, hi=90), sym('lon', lo=-180, hi=360))):
            for t in (False, True):
                go('position ' + n + (', tracking' if t else ''), {(2000, 1): [Report('A', lat=la, lon=lo)]}, tracking=t)
        go('records without some attachments', {(2000, 1): [Report('A'), Report('B', lacks=['DCK', 'SID', 'PT']), Report('C'),
                                                            Report('D', readable=False), Report('E', lacks=['DCK'])]})
        go('without air temperature', {(2000, 1): [Report('A', at=False), Report('B'), Report('C', at=False)]})
    c.flush()
    c.need(len(c.instances), 150, 'instances')
