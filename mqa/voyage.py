"""Abstract voyages: reports at unknown places and times; distances, courses and time differences between
two reports are uninterpreted functions of their places and times."""
from .equiv import *
from .models import *
from . import report as R

NAMES = ['speed', 'course', 'distance', 'time_diff']
TIME = ['YR', 'MO', 'DY', 'HR']


def _nrm(run, args):
    out = []
    for x in args:
        x = run.force(x)
        if isinstance(x, (int, float, Fr)) and not isinstance(x, bool) or isinstance(x, Num):
            n = num(x)
            x = norm(Num(run.subst_points(n.p), n.isint))
        out.append(x)
    return out


def symmetric(name):
    """uninterpreted distance between two places: >= 0, the same in both directions, 0 from a place to itself"""
    def h(run, args, kw):
        if kw:
            args = bind(run, name, args, kw)
        a = _nrm(run, args)
        p, q = tuple(a[:2]), tuple(a[2:])
        if vkey(p) == vkey(q):
            return 0
        if vkey(q) < vkey(p):
            p, q = q, p
        return fnatom('u:' + name, p + q, False, Fr(0))
    return h


def bind(run, dotted, args, kw):
    f = lookup(run, dotted)
    names = [x.arg for x in f.node.args.args]
    return list(args) + [kw[n] for n in names[len(args):]]


def pure_or_missing(name, lo=None):
    """uninterpreted number, or missing"""
    def h(run, args, kw):
        if kw:
            args = bind(run, name, args, kw)
        a = _nrm(run, args)
        v = fnatom('u:' + name, tuple(a), False, lo)
        return Lazy('missing? ' + vkey(v), [v, None])
    return h


def pures(name, n):
    """uninterpreted tuple of numbers"""
    def h(run, args, kw):
        if kw:
            args = bind(run, name, args, kw)
        a = tuple(_nrm(run, args))
        return tuple(fnatom('u:%s.%d' % (name, i), a) for i in range(n))
    return h


def time_difference(missing=True):
    """hours from the first to the second time: antisymmetric"""
    def h(run, args, kw):
        name = 'qc.time_difference'
        if kw:
            args = bind(run, name, args, kw)
        a = _nrm(run, args)
        p, q = tuple(a[:4]), tuple(a[4:])
        if vkey(p) == vkey(q):
            return 0
        sgn = 1
        if vkey(q) < vkey(p):
            p, q, sgn = q, p, -1
        v = fnatom('u:' + name, p + q)
        v = run.binop('Mult', sgn, v)
        if not missing:
            return v
        return Lazy('missing? ' + vkey(p) + vkey(q), [v, None])
    return h


def config(missing=False):
    cfg = Config()
    o = cfg.overrides
    o['spherical_geometry.sphere_distance'] = symmetric('spherical_geometry.sphere_distance')
    o['spherical_geometry.course_between_points'] = pure('spherical_geometry.course_between_points')
    o['qc.time_difference'] = time_difference(missing)
    o['spherical_geometry.lat_lon_from_course_and_distance'] = pures('spherical_geometry.lat_lon_from_course_and_distance', 2)
    o['spherical_geometry.intermediate_point'] = pures('spherical_geometry.intermediate_point', 2)
    return cfg


def place(i, lon=None):
    return (real('lat%d' % i, lo=-90, hi=90), lon if lon is not None else real('lon%d' % i, lo=-180, hi=180),
            (integer('y%d' % i, lo=1, hi=9999), integer('m%d' % i, lo=1, hi=12), integer('d%d' % i, lo=1, hi=31),
             real('h%d' % i, lo=0, hi=23)))


def reps(r, n, values=None, lons=None, **kw):
    out = []
    for i in range(n):
        lat, lon, t = place(i, lons and lons[i])
        v = {'LAT': lat, 'LON': lon}
        v.update(zip(TIME, t))
        v.update(values(i) if values else {})
        rep = R.report(r, prefix='r%d' % i, values=v, ident='r%d' % i, dt=Opq('dt%d' % i, kind='time'), **kw)
        rep.attrs['id'] = Opq('theID', kind='str')
        out.append(rep)
    return out


def places(n):
    return AList([place(i) for i in range(n)])


def voyage(run, rs):
    v = run.call(R.cls(run, 'Voyage'), [])
    for x in rs:
        run.call_method(v, 'add_report', [x])
    return v


def ext(run, rep, names):
    return tuple(run.call_method(rep, 'getext', [n]) for n in names)
