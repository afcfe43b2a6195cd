"""Looking up and interpolating gridded values is interpreted for all places and dates and every pattern of empty cells;
indices of boxes, the corners around a place and the bilinear formula are uninterpreted functions (decided under P03, P16,
P17 and P37)."""
from ..equiv import *
from .. import report as R, voyage as V
from ..field import Grid, cells
from .P17 import config as field_config, place, date


def corners(run, a, k):
    lat, lon = V._nrm(run, a[:2])
    polar = run.force(a[2]) if len(a) > 2 else 1
    return tuple(fnatom('u:corner %s %s' % (n, polar), (lat, lon)) for n in ('x1', 'x2', 'y1', 'y2'))


def between(run, a, k):
    xs = [run.force(x) for x in a]
    if any(x is None for x in xs):
        raise PyExc('AssertionError', 'missing value')
    return fnatom('u:bilinear', tuple(V._nrm(run, xs)))


def config(run=None):
    cfg = field_config()
    o = cfg.overrides
    o['qc.get_four_surrounding_points'] = o['spec_look.around'] = corners
    o['qc.bilinear_interp'] = o['spec_look.between'] = between
    return cfg


def one_box(refuse):
    """value of a box: missing or unknown; beyond the poles refused by the program's function, missing in the reference"""
    def h(run, a, k):
        lat, lon, mo, dy = V._nrm(run, a)
        if isinstance(lat, (Num, Fr, int)) and not (run.order('LtE', lat, 90) and run.order('GtE', lat, -90)):
            if refuse:
                raise PyExc('AssertionError', 'latitude')
            return None
        n = 'box of %s %s on %s %s' % tuple(vkey(x) for x in (lat, lon, mo, dy))
        return Lazy(n, [None, sym(n)])
    return h


def check(c):
    c.batch()
    wide = lambda: [real('lat', lo=-100, hi=100), real('lon', lo=-180, hi=360)]
    grid = lambda n, f='f': Grid((n, 180, 360), cells(f))
    for n in (1, 73):
        for f in ('f', 'f32'):
            c.equiv('qc.get_sst', 'look.sst', lambda r, n=n, f=f: place() + date() + [grid(n, f)], cfg=config(),
                    spec_mk=lambda r, n=n, f=f: place() + date() + [grid(n, f), n], name='get_sst, %d fields%s' % (n, ', single precision' * (f != 'f')))
    c.equiv('qc.get_sst_single_field', 'look.single', lambda r: wide() + [grid(1, 'f32')], cfg=config(), name='single field, single precision')
    c.equiv('qc.get_sst_daily', 'look.daily', lambda r: wide() + date() + [grid(365, 'f32')], cfg=config(), name='daily field, single precision')
    c.equiv('qc.get_sst', 'look.sst', lambda r: wide() + date() + [grid(73)], cfg=config(),
            spec_mk=lambda r: wide() + date() + [grid(73), 73], name='get_sst, places beyond the poles')
    c.equiv('qc.get_sst_single_field', 'look.single', lambda r: wide() + [grid(1)], cfg=config())
    c.equiv('qc.get_sst_daily', 'look.daily', lambda r: wide() + date() + [grid(365)], cfg=config())
    hires = lambda: Grid((365, 1, 720, 1440), plain)
    c.equiv('qc.get_hires_sst', 'look.hires', lambda r: wide() + date() + [hires()], cfg=config())

    def report(r, lon):
        vals = {v: NAN for v in R.varlist(r)}
        lat, mo, dy = real('lat', lo=-90, hi=90), *date()
        vals['LAT'], vals['LON'] = lat, lon
        nan = lambda v: Lazy('nan ' + v.key, [lambda run, v=v: NAN if run.force(v) is None else run.force(v)])
        vals['MO'], vals['DY'] = nan(mo), nan(dy)
        return R.report(r, values=vals), [lat, lon, mo, dy]
    lons = [('west or east', lambda: real('lon', lo=-180, hi=180)), ('east of 180', lambda: real('lon', lo=180, hi=360, lo_open=True))]
    less = lambda v: norm(Num(padd(v.p, pconst(-360)), False))
    for what, lon in lons:
        shift = less if what != 'west or east' else lambda v: v

        def seen(r, lon=lon, shift=shift):
            rep, s = report(r, lon())
            s[1] = shift(s[1])
            return s
        for n in (1, 73):
            c.equiv('qc.get_clim', 'look.of_report', lambda r, n=n, lon=lon: [report(r, lon())[0], grid(n)], cfg=config(),
                    spec_mk=lambda r, n=n, seen=seen: seen(r) + [grid(n), n], name='get_clim, %d fields, %s' % (n, what))
        c.equiv('qc.get_hires_clim', 'look.hires_of_report', lambda r, lon=lon: [report(r, lon())[0], hires()], cfg=config(),
                spec_mk=lambda r, seen=seen: seen(r) + [hires()], name='get_hires_clim, ' + what)

    # interpolation: the value of each box is missing or unknown
    def inside(a):
        return [real('lat', lo=-90, hi=90), real('lon', lo=-180, hi=180), 1, 15]
    cfg = config()
    cfg.overrides['Climatology.Climatology.get_value'] = lambda run, a, k: one_box(False)(run, a[1:5], k)
    cfg.overrides['spec_look.box'] = lambda run, a, k: one_box(False)(run, a[1:5], k)

    def method(run, a, k):
        o = run.call(run.module('Climatology').ns['Climatology'], [grid(73)])
        return run.call_method(o, 'get_interpolated_value', a)
    c.equiv('Climatology.Climatology.get_interpolated_value', 'look.interpolated', inside, cfg=cfg, call=method,
            spec_mk=lambda r: [grid(73)] + inside(r), name='interpolated value')
    cfg2 = config()
    cfg2.overrides['qc.get_sst'] = lambda run, a, k: one_box(True)(run, a[:4], k)
    cfg2.overrides['spec_look.box'] = lambda run, a, k: one_box(False)(run, a[1:5], k)

    def rep2(r):
        vals = {v: NAN for v in R.varlist(r)}
        vals['LAT'], vals['LON'], vals['MO'], vals['DY'] = inside(r)
        return R.report(r, values=vals)
    c.equiv('qc.get_clim_interpolated', 'look.interpolated', lambda r: [rep2(r), grid(73)], cfg=cfg2,
            spec_mk=lambda r: [grid(73)] + inside(r), name='get_clim_interpolated')
    c.flush()
    c.need(len(c.instances), 18, 'instances')


def plain(run, idx):
    return fnatom('u:hires', tuple(V._nrm(run, idx)))
