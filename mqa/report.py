"""Abstract marine reports: every observed quantity missing or an unknown number."""
from .equiv import *

INTS = ['YR', 'MO', 'DY', 'DS', 'VS', 'DCK', 'PT', 'SID']


def varlist(run):
    v = run.module('Extended_IMMA').ns.get('VARLIST')
    if v is None:
        raise AnalysisError('anchor vanished: Extended_IMMA.VARLIST')
    return [run.force(x) for x in run.iterate(v)]


def cls(run, name):
    c = run.module('Extended_IMMA').ns.get(name)
    if not isinstance(c, ClassV):
        raise AnalysisError('anchor vanished: Extended_IMMA.' + name)
    return c


def value(prefix, var, missing=True, **kw):
    s = sym(prefix + var, var in INTS, **kw)
    return Lazy(prefix + var, [NAN, s]) if missing else s


def report(run, prefix='', values=None, present=(), ident=None, klass='MarineReportQC', clim=(), stdev=(), flags=None,
           ext=None, dt=None):
    """values: overrides {var: abstract value}; present: variables that are not missing;
    clim/stdev: variables with a climate variable (value unknown or missing) / with stdev"""
    rec = AObj(None, name=prefix + 'imma')
    rec.attrs['data'] = ADict([])
    o = run.call(cls(run, klass), [rec])     # the real constructor, on an empty record
    o.name = prefix + 'rep'
    vl = varlist(run)
    values = values or {}
    arr = o.attrs.get('data')
    if not isinstance(arr, AList) or len(arr.items) != len(vl):
        raise AnalysisError('anchor vanished: report data vector')
    for i, v in enumerate(vl):
        arr.items[i] = values[v] if v in values else value(prefix, v, v not in present)
    o.attrs['id'] = Opq(prefix + 'ID', kind='str')
    o.attrs['uid'] = Opq(prefix + 'UID', kind='str')
    o.attrs['qc'] = ADict(list((flags or {}).items()))
    cv = []
    for v in clim:
        c = AObj(cls(run, 'ClimVariable'), name=prefix + 'clim' + v)
        c.attrs['clim'] = opt(prefix + v + '.norm')
        c.attrs['stdev'] = Lazy(prefix + v + '.sd', [None, sym(prefix + v + '.sd', lo=0, lo_open=True)]) \
            if v in stdev else None
        cv.append((v, c))
    o.attrs['climate_variables'] = ADict(cv)
    for k, x in (ext or {}).items():
        run.dict_set(o.attrs['ext'], k, x)
    o.attrs['dt'] = dt if dt is not None else Opq(prefix + 'dt', kind='time')
    if ident is not None:
        o.ident = ident
    return o


def none_for_nan(v):
    """same lazy choice, NaN read as None"""
    if v is NAN:
        return None
    if not isinstance(v, Lazy):
        return v

    def conv(run, v=v):
        x = run.force(v)
        return None if x is NAN else x
    return Lazy('val of ' + v.key, [conv], v.syms)


def get(run, rep, var):
    """observed value of a report as the specification sees it: None or a value"""
    if var == 'ID':
        return rep.attrs['id']
    return none_for_nan(rep.attrs['data'].items[varlist(run).index(var)])


def observed(run, rep):
    return ADict([(v, get(run, rep, v)) for v in varlist(run) + ['ID']])
