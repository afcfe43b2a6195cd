"""Every elementary value check is interpreted over all inputs (each quantity missing or an
arbitrary real, limits arbitrary) and compared on every partition with its reference definition."""
from ..equiv import *


def check(c):
    def lim(r):
        return AList([real('lo'), real('hi')])
    E = c.equiv
    E('qc.value_check', 'elem.missing_fails', lambda r: [opt('v')])
    E('qc.no_normal_check', 'elem.missing_fails', lambda r: [opt('v')])
    E('qc.hard_limit', 'elem.hard_limit', lambda r: [opt('v'), lim(r)])
    E('qc.supersat_check', 'elem.supersat', lambda r: [opt('td'), opt('t')])
    E('qc.sst_freeze_check', 'elem.freeze', lambda r: [opt('sst'), opt('unc'), opt('fp'), real('ns')])
    E('qc.sst_freeze_check', 'elem.freeze_default', lambda r: [opt('sst')], name='qc.sst_freeze_check(defaults)')
    E('qc.sst_freeze_check', 'elem.freeze_u', lambda r: [opt('sst'), real('unc')], name='qc.sst_freeze_check(uncertainty)')
    E('qc.climatology_check', 'elem.clim', lambda r: [opt('v'), opt('n'), opt('lim')])
    E('qc.climatology_check', 'elem.clim_default', lambda r: [opt('v'), opt('n')], name='qc.climatology_check(default)')
    E('qc.climatology_plus_stdev_with_lowbar', 'elem.clim_lowbar',
      lambda r: [opt('v'), opt('n'), Lazy('sd', [None, real('sd', lo=0, lo_open=True)]), real('limit'), real('bar')])
    E('qc.climatology_plus_stdev_check', 'elem.clim_sd',
      lambda r: [opt('v'), opt('n'), opt('sd'), AList([real('slo', lo=0, lo_open=True), real('shi')]), real('limit')])
    c.need(len(c.instances), 11, 'check instances')
