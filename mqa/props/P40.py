"""The readers of the short record formats (SimpleIMMA, TestIMMA, NRT) are interpreted for lines whose fields are unknown
numbers, decimal fractions, other text or blank, cut after every character and cut in every field; what they hold
afterwards is compared with reference definitions of the formats."""
from ..equiv import *
from ..text import Field, cells, text

SHORT = [('YR', 4), ('MO', 2), ('DY', 2), ('HR', 4), ('LAT', 5), ('LON', 6), ('DS', 1), ('VS', 1), ('ID', 9), ('AT', 4), ('SST', 4),
         ('DPT', 4), ('DCK', 3), ('SID', 3), ('PT', 2), ('UID', 6)]
FREE = ('ID', 'UID')


def field(name, width, kind):
    if kind == 'blank':
        return [' '] * width
    if kind == 'number':
        return cells(Field(name, width, integer(name)))
    if kind == 'fraction':
        return cells(Field(name, width, real(name)))
    return cells(Field(name, width))


def data(run, rec):
    d = rec.attrs['data']
    ks = sorted(run.force(k) for k in run.iterate(d))
    return AList([(k, run.getitem(d, k)) for k in ks])


def want(run, d):
    return AList([(k, run.getitem(d, k)) for k in sorted(run.force(k) for k in run.iterate(d))])


def check(c):
    c.batch()
    short(c)
    listed(c)
    realtime(c)
    c.flush()
    c.need(len(c.instances), 122, 'instances')


def short(c):
    def one(name, kinds, cut=None, end='\n', before=None):
        def line(kinds=kinds):
            cs = []
            for n, w in SHORT:
                cs += field(n, w, kinds(n))
            return text(cs[:cut] + list(end)), text(cs[:cut])

        def impl(run, a, k):
            rec = run.call(lookup(run, 'SimpleIMMA.IMMA'), [])
            if before:
                run.call_method(rec, 'readstr', [line(before)[0]])
            run.call_method(rec, 'readstr', [line()[0]])
            return data(run, rec)

        def ref(run, a, k):
            return want(run, run.call(lookup_spec(run, 'short.short'), [line()[1]]))
        cfg = Config()
        cfg.overrides['spec_any.anything'] = ref
        c.equiv('SimpleIMMA.IMMA.readstr', 'any.anything', lambda r: [], cfg=cfg, call=impl, spec_mk=lambda r: [], name='short record, ' + name)
    numbers = lambda n: 'text' if n in FREE else 'number'
    one('all fields numbers', numbers)
    one('all fields numbers, no line end', numbers, end='')
    one('all fields blank', lambda n: 'blank')
    one('all fields text', lambda n: 'text' if n in FREE + ('YR', 'LON', 'PT') else 'blank')
    one('a blank one after one of numbers', lambda n: 'blank', before=numbers)
    one('an empty one after one of numbers', numbers, cut=0, before=numbers)
    for x, w in SHORT:
        for kind in ('text', 'blank', 'fraction'):
            if x in FREE and kind == 'fraction':
                continue
            one('%s a %s' % (x, kind), lambda n, x=x, kind=kind: kind if n == x else numbers(n))
    total = sum(w for _, w in SHORT)
    for cut in range(total):
        one('cut after %d characters' % cut, numbers, cut=cut, end='\n' if cut % 2 else '')


def listed(c):
    names = ['ID', 'UID', 'LAT', 'LON', 'YR', 'MO', 'DY', 'HR', 'x8', 'x9', 'x10', 'SST', 'x12']

    def parts(missing):
        out = []
        for n in names:
            if n in missing:
                out.append('-32768.')
            elif n in FREE or n[0] == 'x':
                out.append(text(cells(Field(n, 8))))
            elif n in ('YR', 'MO', 'DY'):
                out.append(text(cells(Field(n, 8, integer(n)))))
            else:
                out.append(text(cells(Field(n, 8, real(n)))))
        return AList(out)

    for missing in ((), ('HR',), ('SST',), ('HR', 'SST'), ('LAT', 'LON')):
        def impl(run, a, k, missing=missing):
            rec = run.call(lookup(run, 'TestIMMA.IMMA'), [])
            run.call_method(rec, 'readstr', [parts(missing)])
            return data(run, rec)

        def ref(run, a, k, missing=missing):
            return want(run, run.call(lookup_spec(run, 'short.listed'), [parts(missing)]))
        cfg = Config()
        cfg.overrides['spec_any.anything'] = ref
        c.equiv('TestIMMA.IMMA.readstr', 'any.anything', lambda r: [], cfg=cfg, call=impl, spec_mk=lambda r: [],
                name='list of values, -32768 for %s' % (', '.join(missing) or 'none'))


def realtime(c):
    DATE = ['year', 'month', 'day', 'hour', 'minute']

    def line(sst, end):
        f = lambda n, v=None: cells(Field(n, 7, v))
        cs = []
        for x in (f('id'), f('second'), f('date'), f('lat', real('lat')), f('lon', real('lon')), list('nan') if sst is None else f('sst', sst)):
            cs += x + [',']
        return text(cs[:-1] + list(end))
    for sst in ('none', 'value'):
        for end in ('\n', ''):
            val = (lambda: None) if sst == 'none' else lambda: real('sst')

            def parse(run, a, k):
                t = run.force(a[0])
                if getattr(t, 'whole', None) is None or t.whole() is None or t.whole().name != 'date':
                    raise PyExc('ValueError', 'not the date')
                o = AObj(None, 'datetime')
                for n in DATE + ['second', 'microsecond']:
                    o.attrs[n] = integer(n, lo=0, hi=60)
                return o

            def impl(run, a, k, val=val, end=end):
                rec = run.call(lookup(run, 'NRT.NRT'), [])
                first = run.call_method(rec, '__getitem__', ['ID'])
                run.call_method(rec, 'readstr', [line(val(), end)])
                return AList([first, run.call_method(rec, '__getitem__', ['SST']), data(run, rec)])

            def ref(run, a, k, val=val):
                d = run.call(lookup_spec(run, 'short.realtime'), [text(cells(Field('id', 7))), text(cells(Field('date', 7))),
                             AList([integer(n, lo=0, hi=60) for n in DATE]), real('lat'), real('lon'), val()])
                return AList([None, val(), want(run, d)])
            cfg = Config()
            cfg.models['dateutil.parser.parse'] = parse
            cfg.overrides['spec_any.anything'] = ref
            c.equiv('NRT.NRT.readstr', 'any.anything', lambda r: [], cfg=cfg, call=impl, spec_mk=lambda r: [],
                    name='near real time, temperature %s, line end %r' % (sst, end))

    def impl(run, a, k):
        rec = run.call(lookup(run, 'NRT.NRT'), [])
        run.call_method(rec, 'readstr', [''])
        run.call_method(rec, '__setitem__', ['PT', 5])
        return data(run, rec)
    cfg = Config()
    cfg.overrides['spec_any.anything'] = lambda run, a, k: AList([('ID', None), ('PT', 5)])
    c.equiv('NRT.NRT.readstr', 'any.anything', lambda r: [], cfg=cfg, call=impl, spec_mk=lambda r: [], name='near real time, empty line')
