"""Day-or-night decisions are interpreted for all dates, times and places (the sun's position is an
uninterpreted function of year, day number, hour, minute, latitude and longitude) and compared with
reference definitions."""
from ..equiv import *
from .. import voyage as V


def config():
    cfg = Config()

    def sun(run, a, k):
        a = V._nrm(run, V.bind(run, 'qc.sunangle', a, k) if k else a)
        return tuple([Opq('azimuth')] + [fnatom('u:elevation', tuple(a))] + [Opq('other%d' % i) for i in range(4)])
    cfg.overrides['qc.sunangle'] = sun

    def din(run, a, k):
        a = V._nrm(run, V.bind(run, 'qc.dayinyear', a, k) if k else a)
        return fnatom('u:dayinyear', tuple(a), True, Fr(1), Fr(366))
    cfg.overrides['qc.dayinyear'] = din
    return cfg


def check(c):
    def mk(miss):
        f = opt if miss else sym
        return lambda r: [f('year', True), f('month', True), f('day', True), f('hour'), f('lat'), f('lon')]
    c.equiv('trackqc.track_day_test', 'drift.daytime', lambda r: mk(True)(r) + [real('limit')], cfg=config(),
            post=lambda run, v: run.truth(v), name='track_day_test')
    c.equiv('trackqc.track_day_test', 'drift.daytime', mk(False), cfg=config(), post=lambda run, v: run.truth(v),
            spec_mk=lambda r: mk(False)(r) + [norm(num(-2.5))], name='track_day_test with the default elevation')
    c.equiv('qc.day_test', 'drift.day_before', lambda r: mk(False)(r) + [real('ago', lo=0, hi=24)], cfg=config(), name='day_test')
    c.equiv('qc.day_test', 'drift.day_before', mk(False), cfg=config(), spec_mk=lambda r: mk(False)(r) + [1],
            name='day_test with the default of one hour')
    c.need(len(c.instances), 4, 'instances')
