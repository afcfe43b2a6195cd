"""The fixed-width lines of a report are interpreted with unknown values; the line is compared with a reference
definition of its columns."""
from ..equiv import *
from .. import report as R, voyage as V
from . import P35

CLIM = ['AT', 'SST', 'DPT', 'SHU', 'VAP', 'CRH', 'CWB', 'DPD']


class Case(P35.Case):
    clim = CLIM

    def build(self, r, i, keys):
        rep, (seen, flags) = P35.Case.build(self, r, i, keys)
        rep.attrs['uid'] = self.uid
        r.dict_set(seen, 'UID', self.uid)
        return rep, (seen, flags)


def case(uid='ABC123', ident='SHIP     ', **k):
    c = Case(ident, (integer('y'), integer('m'), integer('d')), ext=False, **k)
    c.uid = uid
    return c


def keys(run, name):
    return sorted({k for b in run.iterate(P35.lookup_value(run, 'line.' + name)) for k in run.iterate(b) if k is not None})


def one(c, label, cs):
    writer(c, label, cs, 'print_report', 'short_line', 'SHORT_FLAGS')
    writer(c, label, cs, 'print_longform_report', 'long_line', 'LONG_FLAGS')


def writer(c, label, cs, meth, spec, ks):
    def built(r):
        return cs.build(r, 0, keys(r, ks))

    def impl(run, a, k):
        rep, _ = built(run)
        return run.call_method(rep, meth, [])

    def ref(run):
        _, (seen, flags) = built(run)
        return [seen, flags]
    c.equiv('Extended_IMMA.MarineReport.' + meth, 'line.' + spec, lambda r: [], call=impl, spec_mk=ref,
            name='%s: %s' % (meth, label))


def single(c, v):
    def value(r):
        return Lazy(v, [NAN, sym(v, v in R.INTS)])

    def impl(run, a, k):
        rep = R.report(run, values={v: value(run)})
        return run.call_method(rep, 'printvar', [v])
    c.equiv('Extended_IMMA.MarineReport.printvar', 'line.whole', lambda r: [], call=impl, name='printing ' + v,
            spec_mk=lambda r: [None if v in ('XYZ', 'POS') else R.none_for_nan(value(r))])


def check(c):
    c.batch()
    must = ('LAT', 'LON', 'YR', 'MO', 'DCK')
    one(c, 'everything present', case())
    one(c, 'everything missing', case(has=lambda v: v in must))
    one(c, 'no flag set', case(flag=lambda k: False))
    for v in ['HR', 'AT', 'SST', 'SLP', 'DPT', 'SHU', 'VAP', 'CRH', 'CWB', 'DPD', 'DS', 'VS', 'PT'] + \
            [x + '.norm' for x in CLIM] + [x + '.var' for x in CLIM]:
        one(c, v + ' missing', case(has=lambda x, v=v: x != v))
        if '.' not in v:
            one(c, 'only %s present' % v, case(has=lambda x, v=v: x in must or x == v))
    for f in (lambda k: len(k) % 2 == 0, lambda k: k.startswith('SST'), lambda k: k.startswith('POS')):
        one(c, 'some flags', case(flag=f))
    for i in (None, '', 'AB', 'LONGIDENTIFIER', 'NINECHARS'):
        one(c, 'identifier %r' % i, case(ident=i))
    for u in ('', 'A', 'ABCDEFGH', 'ABCDEFGHIJ'):
        one(c, 'UID %r' % u, case(uid=u))
    for v in ['YR', 'MO', 'DY', 'HR', 'LAT', 'LON', 'SLP', 'AT', 'SST', 'PT', 'SID', 'DPT', 'W', 'XYZ', 'POS']:
        single(c, v)
    c.flush()
    c.need(len(c.instances), 129, 'instances')
