"""Climatology lookups are interpreted for every place and date (grid indices are those of the index functions, decided
under P03, P16 and P37) and every pattern of empty cells; reading a file is interpreted for every arrangement of its axes,
following every cell of the field to its place; the interpolation functions are interpreted for all values.  All are
compared with reference definitions."""
from ..equiv import *
from .. import env
from ..field import Grid, Masked, cells, install, norm_idx
from ..interp import ExtV


def index(name, defaults):
    """uninterpreted index of a place or date"""
    def h(run, a, k):
        f = lookup(run, 'qc.' + name)
        names = [x.arg for x in f.node.args.args]
        vals = dict(zip(names, a))
        vals.update(k)
        args = []
        for i, n in enumerate(names):
            v = run.force(vals[n]) if n in vals else Num(pconst(defaults.get(n)), False) if not isinstance(defaults.get(n), int) else defaults[n]
            args.append(norm(Num(run.subst_points(num(v).p), False)))
        return fnatom('u:' + name, tuple(args), True, Fr(0))
    return h


FNS = {'mds_lat_to_yindex': {'res': 1}, 'mds_lon_to_xindex': {'res': 1}, 'lat_to_yindex': {'res': 1}, 'lon_to_xindex': {'res': 1},
       'which_pentad': {}, 'day_in_year': {}}


def config():
    cfg = install(Config())
    for n, d in FNS.items():
        cfg.overrides['qc.' + n] = index(n, d)
    cfg.overrides['spec_clim.value'] = lambda run, a, k: None if isinstance(run.force(a[0]), Masked) else run.force(a[0])
    return cfg


def date():
    return [Lazy('month', [None, integer('month')]), Lazy('day', [None, integer('day')])]


def place():
    return [real('lat', lo=-90, hi=90), real('lon', lo=-180, hi=360)]


def check(c):
    c.batch()
    for n in (1, 73, 365):
        for ny, nx, f in ((180, 360, 'f'), (36, 72, 'f'), (720, 1440, 'f'), (180, 360, 'f32')):
            g = lambda ny=ny, nx=nx, n=n, f=f: Grid((n, ny, nx), cells(f))
            res = Fr(180, ny)

            def call(meth, g=g):
                def f(run, a, k):
                    o = run.call(run.module('Climatology').ns['Climatology'], [g()])
                    return run.call_method(o, meth, a)
                return f
            what = ', %d periods, %s degrees%s' % (n, res, ', single precision' if f == 'f32' else '')
            num_res = lambda res=res: norm(Num(pconst(res), False))
            c.equiv('Climatology.Climatology.get_value', 'clim.box', lambda r: place() + date(), cfg=config(), call=call('get_value'),
                    spec_mk=lambda r, g=g, n=n, nr=num_res: [g(), n, nr()] + place() + date(), name='value' + what)
            if ny == 180:
                c.equiv('Climatology.Climatology.get_value_mds_style', 'clim.mds_box', lambda r: place() + date(), cfg=config(),
                        call=call('get_value_mds_style'), spec_mk=lambda r, g=g, n=n: [g(), n] + place() + date(), name='value, MDS style' + what)
    for f in ('f', 'f32'):
        g = lambda f=f: Grid((1, 3600, 7200), cells(f))

        def ostia(run, a, k, g=g):
            o = run.call(run.module('Climatology').ns['Climatology'], [g()])
            return run.call_method(o, 'get_value_ostia', a)
        c.equiv('Climatology.Climatology.get_value_ostia', 'clim.background', lambda r: place(), cfg=config(), call=ostia,
                spec_mk=lambda r, g=g: [g()] + place(), name='background value' + (', single precision' if f == 'f32' else ''))
    shapes(c)
    files(c)
    vals = lambda r: [opt('q11'), opt('q12'), opt('q21'), opt('q22')]
    c.equiv('qc.fill_missing_vals', 'clim.filled', vals)
    for dx in (1, Fr(1, 2), 5, 0, -1):
        for dy in (1, 2, 0, -1):
            def mk(r, dx=dx, dy=dy):
                x1, y1 = real('x1'), real('y1')
                far = lambda v, d: norm(Num(padd(v.p, pconst(d)), False))
                return [x1, far(x1, dx), y1, far(y1, dy), real('x'), real('y')] + vals(r)
            c.equiv('qc.bilinear_interp', 'clim.bilinear', mk, name='corners %s by %s apart' % (dx, dy))
    c.equiv('qc.get_four_surrounding_points', 'clim.around', lambda r: [real('lat'), real('lon'), Lazy('polar', [0, 1])])
    c.flush()
    c.need(len(c.instances), 30, 'instances')


def shapes(c):
    for n in (0, 1, 2, 12, 72, 73, 74, 364, 365, 366):
        def impl(run, a, k, n=n):
            run.call(run.module('Climatology').ns['Climatology'], [Grid((n, 180, 360), cells('f'))])
            return True

        def ref(run, a, k, n=n):
            if n not in (1, 73, 365):
                raise PyExc('AssertionError', 'shape')
            return True
        cfg = config()
        cfg.overrides['spec_any.anything'] = ref
        c.equiv('Climatology.Climatology.__init__', 'any.anything', lambda r: [], cfg=cfg, call=impl, spec_mk=lambda r: [],
                name='field of %d periods' % n)


def files(c):
    th = c.thorough()
    for ny in (36, 180, 720) if th else (36, 180):
        nx = 2 * ny
        res = Fr(180, ny)
        lats = [90 - res * (2 * y + 1) / 2 for y in range(ny)]
        for south in (False, True):
            for lon0 in (-180 + res / 2, res / 2):
                if lon0 > 1:
                    lon0 = None         # boxes wider than two degrees starting at Greenwich are not recognised by design
                if lon0 is None:
                    continue
                lons = [(lon0 + res * x) for x in range(nx)]
                la = lats[::-1] if south else lats
                for order in ('t y x', 't z y x') + (('t x y',) if ny == 180 else ()):
                    for t in (1, 73) if order != 't x y' else (1,):
                        for names in (('lat', 'lon'), ('latitudes', 'longs')) if ny == 36 else (('latitude', 'longitude'),):
                            one_file(c, ny, nx, t, la, lons, order, names)

    def none(run, a, k):
        run.world = env.World()
        cl = run.module('Climatology').ns['Climatology']
        o = run.call(run.getattr_(cl, 'from_filename'), [None, 'sst'])
        return (o.attrs['n'], o.attrs['res'], run.call_method(o, 'get_value_ostia', place()))
    cfg = config()
    cfg.overrides['spec_any.anything'] = lambda run, a, k: (1, norm(Num(pconst(Fr(1, 20)), False)), None)
    c.equiv('Climatology.Climatology.from_filename', 'any.anything', lambda r: [], cfg=cfg, call=none, spec_mk=lambda r: [], name='no file')


def one_file(c, ny, nx, t, lats, lons, order, names):
    def cell(run, idx):
        d = dict(zip(order.split(), idx))
        lon = lons[d['x']]
        return (d['t'], lats[d['y']], lon - 360 if lon > 180 else lon)
    dims = dict(t=t, y=ny, x=nx, z=1)

    def impl(run, a, k):
        def dataset(run, a, k):
            o = AObj(None, 'dataset')
            o.attrs['variables'] = ADict([(names[0], Grid((ny,), lambda run, i: norm(Num(pconst(lats[i[0]]), False)), 'lats')),
                                          (names[1], Grid((nx,), lambda run, i: norm(Num(pconst(lons[i[0]]), False)), 'lons')),
                                          ('sst', Grid([dims[x] for x in order.split()], cell))])

            def nothing(run, a, k):
                return None
            o.attrs['close'] = PyFn('close', nothing)
            return o
        run.cfg.models['netCDF4.Dataset'] = dataset
        cl = run.module('Climatology').ns['Climatology']
        o = run.call(run.getattr_(cl, 'from_filename'), ['file.nc', 'sst'])
        f = run.force(o.attrs['field'])
        if tuple(f.shape) != (t, ny, nx):
            return 'shape %s' % (f.shape,)
        res = Fr(180, ny)
        for z in sorted({0, t - 1, t // 2}):
            for y in range(ny):
                for x in range(nx):
                    got = f.cell(run, (z, y, x))
                    want = (z, 90 - res * (2 * y + 1) / 2, -180 + res * (2 * x + 1) / 2)
                    if got != want:
                        return 'cell %s holds %s instead of %s' % ((z, y, x), tuple(map(str, got)), tuple(map(str, want)))
        return 'every cell in its place'
    cfg = config()
    cfg.overrides['spec_any.anything'] = lambda run, a, k: 'every cell in its place'
    c.equiv('Climatology.Climatology.from_filename', 'any.anything', lambda r: [], cfg=cfg, call=impl, spec_mk=lambda r: [],
            name='file with axes %s, %d latitudes from %s, longitudes from %s, names %s' % (order, ny, lats[0], lons[0], '/'.join(names)))
