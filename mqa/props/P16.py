"""Grid-box functions are interpreted for every latitude and longitude in range at each grid
resolution used (1, 0.25, 0.5, 2 and 5 degrees), so every index is shown to lie inside the grid and to
be the box the reference definition names; box centres map back to their own box."""
from ..equiv import *

RES = [1, Num(pconst(1)), Num(pconst(Fr(1, 4))), Num(pconst(Fr(1, 2))), Num(pconst(2)), Num(pconst(5))]


def check(c):
    E = c.equiv
    E('qc.lat_to_yindex', 'grid.row_default', lambda r: [real('lat')], name='qc.lat_to_yindex default')
    E('qc.lon_to_xindex', 'grid.col_default', lambda r: [real('lon')], name='qc.lon_to_xindex default')
    E('qc.mds_lat_to_yindex', 'grid.mds_row_default', lambda r: [real('lat')], name='qc.mds_lat_to_yindex default')
    E('qc.mds_lon_to_xindex', 'grid.mds_col_default', lambda r: [real('lon')], name='qc.mds_lon_to_xindex default')
    for res in RES:
        def comp(f, g):
            def h(run, a, k):
                mid = run.call(lookup(run, 'qc.' + f), [a[0], res])
                return run.call(lookup(run, 'qc.' + g), [mid, res])
            return h
        n = ' at %s degrees%s' % (vkey(res), '' if isinstance(res, int) else ' (real)')
        E('qc.lat_to_yindex', 'grid.row_res', lambda r: [real('lat'), res], name='qc.lat_to_yindex' + n)
        E('qc.lon_to_xindex', 'grid.col_res', lambda r: [real('lon'), res], name='qc.lon_to_xindex' + n)
        E('qc.mds_lat_to_yindex', 'grid.mds_row', lambda r: [real('lat'), res], name='qc.mds_lat_to_yindex' + n)
        E('qc.mds_lon_to_xindex', 'grid.mds_col', lambda r: [real('lon'), res], name='qc.mds_lon_to_xindex' + n)
        E('qc.yindex_to_lat', 'grid.row_centre', lambda r: [integer('i'), res], name='qc.yindex_to_lat' + n)
        E('qc.xindex_to_lon', 'grid.col_centre', lambda r: [integer('i'), res], name='qc.xindex_to_lon' + n)
        E('qc.lat_to_yindex', 'grid.same_row', lambda r: [integer('i'), res], name='row of a row centre' + n,
          call=comp('yindex_to_lat', 'lat_to_yindex'))
        E('qc.lon_to_xindex', 'grid.same_col', lambda r: [integer('i'), res], name='column of a column centre' + n,
          call=comp('xindex_to_lon', 'lon_to_xindex'))
    c.need(len(c.instances), 52, 'grid instances')
