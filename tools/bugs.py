"""The planted bugs: python3 tools/bugs.py [--check] [id ...]"""
import sys
from plant import plant
BUGS = []


def B(*a):
    BUGS.append(a)


REP = '''
import Extended_IMMA as ex
from IMMA1 import IMMA


def rep(**k):
    r = IMMA()
    r.data.update(dict(ID='SHIP1', UID='AAAAAA', YR=2000, MO=6, DY=10, HR=12.0, LAT=10.0, LON=20.0, DCK=700, PT=5, SID=1))
    r.data.update(k)
    m = ex.MarineReportQC(r)
    m.setext('time_diff', None)
    return m
'''

B('buddy-zero-anomaly', 'P13', [('Extended_IMMA.py', '        if anom is not None:\n            self.grid[xindex]', '        if anom:\n            self.grid[xindex]')],
  '''
import Extended_IMMA as ex
g = ex.Np_Super_Ob()
g.add_rep(0.5, 1.5, 2000, 1, 2, 4.0)
g.add_rep(0.5, 1.5, 2000, 1, 2, 0.0)
g.take_average()
a, n = g.get_neighbour_anomalies([1, 1, 2], 180, 89, 0)
assert list(a) == [2.0] and list(n) == [2], (a, n)
''', 'an observation exactly equal to its climatology', 'anomalies of exactly zero are left out of the box average')

B('buddy-filtered-count', 'P11', [('Extended_IMMA.py', """            if self.filter.test_report(rep) == 0:
                grid.add_rep(rep.lat(), rep.lon(),
                             rep.getvar('YR'), rep.getvar('MO'),
                             rep.getvar('DY'), rep.getanom(intype))

        grid.take_average()
        grid.get_buddy_limits_with""", """            if self.filter.test_report(rep) == 0 or rep.get_qc(intype, 'bud') == 0:
                grid.add_rep(rep.lat(), rep.lon(),
                             rep.getvar('YR'), rep.getvar('MO'),
                             rep.getvar('DY'), rep.getanom(intype))

        grid.take_average()
        grid.get_buddy_limits_with""")], REP + '''
class F:
    def get_value_mds_style(self, *a):
        return 1.0


def deck():
    d = ex.Deck()
    q = ex.QC_filter()
    q.add_qc_filter('POS', 'day', 0)
    d.add_filter(q)
    for lon, x, f in ((0.5, 5.0, 0), (1.5, 5.0, 1), (0.5, 5.0, 0)):
        r = rep(LAT=0.5, LON=lon, SST=x)
        r.add_climate_variable('SST', 0.0)
        r.set_qc('POS', 'day', f)
        d.append(r)
    return d


P = dict(limits=[[1, 1, 2]], number_of_obs_thresholds=[[0, 5]], multipliers=[[4.0, 3.0]])
d = deck()
d.mds_buddy_check('SST', F(), P)
first = [r.get_qc('SST', 'bud') for r in d.reps]
d.reps[1].setvar('SST', -5.0)
d.mds_buddy_check('SST', F(), P)
assert [r.get_qc('SST', 'bud') for r in d.reps] == first == [0, 0, 0], (first, [r.get_qc('SST', 'bud') for r in d.reps])
''', 'a report failing the filter that has already been through the check once (flag 0) and disagrees with its neighbours',
  'reports failing the filter are used as neighbours in a second run of the check')

B('bayes-exchanged-spreads', 'P12', [('Extended_IMMA.py', "            if stdev3_ex is None or stdev3_ex < 0.0:\n                stdev3_ex = 1.0",
                                      "            if stdev3_ex is None or stdev3_ex < 0.0:\n                stdev3_ex = stdev2_ex")],
  '''
import Extended_IMMA as ex


class F:
    def __init__(self, v):
        self.v = v

    def get_value(self, *a):
        return self.v


g = ex.Np_Super_Ob()
g.add_rep(0.5, 0.5, 2000, 1, 2, 1.0)
g.add_rep(0.5, 1.5, 2000, 1, 2, 2.0)
g.take_average()
g.get_new_buddy_limits(F(0.0), F(4.0), F(None), [1, 1, 2], 0.0, 1.0)
assert abs(g.get_buddy_stdev(0.5, 0.5, 1, 2) - (16 + 16 + 1) ** 0.5) < 1e-9, g.get_buddy_stdev(0.5, 0.5, 1, 2)
''', 'a box where only the third spread field is missing', 'a missing third spread is replaced by the second instead of 1')

B('alt-speed-sort', 'P20', [('Extended_IMMA.py', "            for i in range(1, len(self.reps)):\n                shpspd, shpdis, shpdir, tdiff = self.reps[i] - self.reps[i - 1]\n                self.reps[i].setext('speed', shpspd)",
                             "            for i in range(1, len(self.reps)):\n                shpspd, shpdis, shpdir, tdiff = self.reps[i] - self.reps[i - 1]\n                if tdiff == 0:\n                    continue\n                self.reps[i].setext('speed', shpspd)")],
  REP + '''
v = ex.Voyage()
for h, lon in ((12.0, 20.0), (6.0, 21.0), (12.0, 25.0)):
    v.add_report(rep(HR=h, LON=lon))
v.sort()
d = v.reps[2] - v.reps[1]
assert v.reps[2].getext('distance') == d[1] and v.reps[2].getext('time_diff') == 0, (v.reps[2].getext('distance'), d)
''', 'sorting brings two reports with the same time next to each other', 'a report with the same time as its new predecessor keeps the values it had before sorting')

B('spike-time-sign', 'P24', [('Extended_IMMA.py', "abs(time_diff) * max_gradient_time", "time_diff * max_gradient_time")],
  REP + '''
P = {"max_gradient_space": 0.0, "max_gradient_time": 1.0, "ship_delta_t": 2.0, "buoy_delta_t": 1.0, "number_of_neighbours": 5}
v = ex.Voyage()
for h, x in ((2.0, 20.0), (8.0, 24.0)):
    v.add_report(rep(HR=h, SST=x))
v.spike_check(P, 'SST')
got = [v.get_qc(i, 'SST', 'spike') for i in range(2)]
assert got == [0, 0], got
''', 'a difference beyond the fixed limit that the time between the reports explains', 'the time gradient is ignored when looking back to an earlier report')

B('minute-rounding', 'P21', [('Extended_IMMA.py', "rounded_minute = int(math.floor(60 *", "rounded_minute = int(round(60 *"),
                           ], REP + '''
import datetime
for h, m in ((12.5, 30), (11.995, 59), (23.25, 15)):
    r = rep(HR=h)
    assert r.dt == datetime.datetime(2000, 6, 10, int(h), m), (h, r.dt)
''', 'an hour whose fraction is within half a minute of a full hour or of the next minute', 'minutes are rounded to nearest, giving another minute or minute 60 (an error)')

B('saturated-tail', 'P25', [('Extended_IMMA.py', "        if len(satcount) > shortest_run:\n\n            shpspd, shpdis, shpdir, tdiff = \\\n                self.reps[satcount[len(satcount) - 1]] - self.reps[satcount[0]]\n\n            if tdiff >= min_time_threshold:\n                for loc in satcount:\n                    self.reps[loc].set_qc('DPT', 'repsat', 1)\n\n        return",
                             "        if len(satcount) > shortest_run:\n\n            shpspd, shpdis, shpdir, tdiff = \\\n                self.reps[satcount[len(satcount) - 1]] - self.reps[satcount[0]]\n\n            if tdiff > min_time_threshold:\n                for loc in satcount:\n                    self.reps[loc].set_qc('DPT', 'repsat', 1)\n\n        return")],
  REP + '''
P = dict(min_time_threshold=3.0, shortest_run=2)
for tail in (0, 1):
    v = ex.Voyage()
    for i in range(4):
        v.add_report(rep(HR=float(i), AT=10.0, DPT=10.0))
    if tail:
        v.add_report(rep(HR=5.0, AT=10.0, DPT=8.0))
    v.find_saturated_runs(P)
    got = [v.get_qc(i, 'DPT', 'repsat') for i in range(4)]
    assert got == [1, 1, 1, 1], (tail, got)
''', 'a saturated run at the very end of a voyage lasting exactly the minimum time', 'the time limit is exclusive for a run at the end of the voyage only')

B('filter-unset', 'P09', [('Extended_IMMA.py', "            if rep.get_qc(filt[0], filt[1]) != filt[2]:\n                result = 1  # fail\n        return result",
                           "            if rep.get_qc(filt[0], filt[1]) != filt[2]:\n                result = 1  # fail\n            elif filt[2] == 9:\n                result = 0  # not set: nothing to test\n        return result")],
  REP + '''
r = rep()
r.set_qc('SST', 'bud', 1)
q = ex.QC_filter()
q.add_qc_filter('SST', 'bud', 0)
q.add_qc_filter('AT', 'bud', 9)
assert q.test_report(r) == 1
''', 'a filter with a failing condition before one that asks for an unset flag', 'a later condition asking for an unset flag undoes an earlier failure')

B('track-alt-neighbour', 'P22', [('Extended_IMMA.py', "            elif (self.getvar(i + 1, 'speed') > amax and\n                  self.getvar(i + 1, 'alt_speed') > amax):",
                                  "            elif (self.getvar(i + 1, 'speed') > amax and\n                  self.getvar(i, 'alt_speed') > amax):")],
  REP + '''
P = dict(max_direction_change=60.0, max_speed_change=10.0, max_absolute_speed=40.0, max_midpoint_discrepancy=150.0)


def verdicts(lons):
    v = ex.Voyage()
    for i, x in enumerate(lons):
        r = rep(DY=10 + i // 4, HR=6.0 * (i % 4), LON=x, LAT=0.0, DS=2, VS=3)
        v.add_report(r)
    v.track_check(P)
    return [v.get_qc(i, 'POS', 'trk') for i in range(len(lons))]


from itertools import product
import hashlib
out = []
for steps in product([0.0, 1.0, 8.0, -8.0], repeat=5):
    x, lons = 0.0, []
    for s in [1.0] + list(steps):
        lons.append(x)
        x += s
    out.append(verdicts(lons))
text = ''.join(''.join(map(str, o)) for o in out)
assert hashlib.md5(text.encode()).hexdigest() == 'f498c87aa6a16b507c67d050704dcf87', hashlib.md5(text.encode()).hexdigest()
''', 'a report with a high speed after it whose two-step speed on one side only is high', 'the second speed criterion looks at the wrong two-step speed')

B('full-check-last-pass', 'P23', [('track_check.py', "while max(qcs) > 0 and repititions < 4:", "while max(qcs) > 0 and repititions < 4 and len(invoyage) - sum(master_qc) > 3:")],
  REP + '''
import track_check as tc
v = ex.Voyage()
for i in range(5):
    v.add_report(rep(HR=float(i)))
script = [[0, 1, 1, 0, 0], [0, 1, 0], [0, 0]]
calls = []


def one(voy):
    calls.append(len(voy))
    return list(script[len(calls) - 1])


tc.mds_track_check = one
tc.mds_full_track_check(v)
got = [v.get_qc(i, 'POS', 'bad_track') for i in range(5)]
assert got == [0, 1, 1, 1, 0], got
''', 'a voyage of which only three reports are left after a pass that failed some', 'the check stops before examining the last three reports again')

B('day-new-year', 'P07', [('qc.py', '''            if day2 <= 0:
                year2 = year2 - 1
                day2 = dayinyear(year2, 12, 31)''', '''            if day2 <= 0:
                day2 = dayinyear(year2, 12, 31)
                year2 = year2 - 1''')],
  '''
import qc
seen = []


def sun(a, day, hour, minute, sec, zone, dst, lat, lon):
    seen.append((a, day))
    return 0, 1, 0, 0, 0, 0


qc.sunangle = sun
qc.day_test(2001, 1, 1, 0.5, 10.0, 20.0)
assert seen == [(2000, 366)], seen
''', 'an observation in the first hour of 1 January after a leap year', 'the sun is computed for 30 December')

B('aground-gap', 'P26', [('trackqc.py', '''        win_len = hrs_smooth[f_win][-1] - hrs_smooth[i]
        if win_len < min_win_period_hours:
            i += 1
''', '''        win_len = hrs_smooth[f_win][-1] - hrs_smooth[i]
        if win_len < min_win_period_hours:
            is_aground = False
            i += 1
''')],
  REP + '''
import trackqc
reps = []
for h, d in ((0, 0), (24, 24), (30, 6), (100, 70), (124, 24), (148, 24)):
    r = rep(PT=7, LAT=1.0, LON=2.0)
    r.setext('time_diff', float(d))
    reps.append(r)
trackqc.aground_check(reps, 1, 1, 1)
got = [r.get_qc('POS', 'drf_agr') for r in reps]
assert got == [1, 1, 1, 1, 1, 1], got
''', 'a gap in the record of a drifter that is aground on both sides of it', 'a gap ends the aground stretch, so the reports before it are not flagged')

B('short-window-exact', 'P27', [('trackqc.py', 'if npass < short_win_len:', 'if npass <= short_win_len:')],
  REP + '''
import trackqc
trackqc.track_day_test = lambda *a: False
reps = []
for i, x in enumerate((0.7, 0.0, 0.7, 10.0)):
    r = rep(PT=7, SST=10.0 + x, HR=float(i))
    for k, v in (('OSTIA', 10.0), ('ICE', 0.0), ('BGVAR', 0.01), ('time_diff', 1.0)):
        r.setext(k, v)
    reps.append(r)
trackqc.sst_tail_check(reps, 3, 3.0, 2, 0.5, 1, 0.29, 1.0, 0.3)
a = [r.get_qc('SST', 'drf_tail1') for r in reps]
b = [r.get_qc('SST', 'drf_tail2') for r in reps]
assert (a, b) == ([0] * 4, [0] * 4), (a, b)  # the whole record failed
''', 'a record of which exactly one short window is left after the long windows', 'the last short window is not examined')

B('bias-spreads', 'P28', [('Extended_IMMA.py', '''                                       parameters['drif_intra'], parameters['drif_inter'],
                                       parameters['err_std_n'], parameters['n_bad'],''', '''                                       parameters['drif_inter'], parameters['drif_intra'],
                                       parameters['err_std_n'], parameters['n_bad'],''')],
  REP + '''
import trackqc
v = ex.Voyage()
v.add_report(rep(PT=7))
seen = []
trackqc.sst_biased_noisy_check = lambda reps, *a, **k: seen.append(a)
ex.tqc.sst_biased_noisy_check = trackqc.sst_biased_noisy_check
v.buoy_bias_noise_check(dict(n_eval=30, bias_lim=1.1, drif_intra=1.0, drif_inter=0.29, err_std_n=3.0, n_bad=2, background_err_lim=0.3))
assert seen == [(30, 1.1, 1.0, 0.29, 3.0, 2, 0.3)], seen
''', 'a long record whose spread lies between the two drifter errors', 'the spread of biases is used as the random error and the other way round')

B('fill-diagonal', 'P17', [('qc.py', "        outq21 = missing_mean([q11, q22])", "        outq21 = missing_mean([outq11, outq22])")],
  '''
import qc
assert qc.fill_missing_vals(None, 1.0, None, 3.0) == (1.0, 1.0, 3.0, 3.0), qc.fill_missing_vals(None, 1.0, None, 3.0)
assert qc.fill_missing_vals(None, 1.0, 2.0, None) == (1.5, 1.0, 2.0, 1.5)
''', 'two of the four boxes around a place missing, one on each side', 'a filled-in box is used to fill in the next')

B('daily-edge', 'P36', [('qc.py', """    dindex = day_in_year(month, day) - 1
    yindex = mds_lat_to_yindex(lat)
    xindex = mds_lon_to_xindex(lon)

    result = sst[dindex, yindex, xindex]""", """    dindex = day_in_year(month, day) - 1
    yindex = lat_to_yindex(lat)
    xindex = mds_lon_to_xindex(lon)

    result = sst[dindex, yindex, xindex]""")], '''
import numpy as np
import qc
f = np.zeros((365, 180, 360))
f[:, 79, :] = 7.0
f[:, 80, :] = 3.0
assert qc.get_sst_daily(10.0, 20.5, 3, 4, f) == 7.0
assert qc.get_sst_daily(9.5, 20.5, 3, 4, f) == 3.0
''', 'a position exactly on the border of two boxes in the northern hemisphere', 'the daily field is read in the box south of the border')

B('record-leading-blank', 'P34', [('IMMA1.py', "        Result=Result.rstrip()\n", "        Result=Result.strip()\n")], '''
import io
from IMMA1 import IMMA
def line(s):
    r = IMMA()
    r.readstr(s)
    f = io.StringIO()
    r.write(f)
    return f.getvalue()
def core(yr, hr):
    return "%4s%2s%2s%4s%5s%6s" % (yr, 6, 10, hr, 1050, 2025) + " " * 85
assert line(core(1950, 1200)).startswith("1950 61012")
q = IMMA()
q.readstr(line(core("", 1200)))
assert q.data["YR"] is None and q.data["MO"] == 6 and q.data["DY"] == 10, q.data
''', 'a record without a year', 'all fields of the written record move to the left')

B('silly-keeps-rh', 'P18', [('Extended_IMMA.py', """                    (self.getvar('CRH') > 150.)):
                for var in hum_vars:
                    self.setvar(var, None)""", """                    (self.getvar('CRH') > 150.)):
                for var in hum_vars:
                    if var != 'CRH':
                        self.setvar(var, None)""")], REP + '''
H = ['SHU', 'VAP', 'CRH', 'CWB', 'DPD']
def hum(at, dpt):
    r = rep(AT=at, DPT=dpt)
    r.add_climate_variable('SLP', 1010.0)
    r.calculate_humidity_variables(H)
    return [r.getvar(v) for v in H]
assert all(v is not None for v in hum(15.0, 10.0))
assert hum(0.0, 20.0) == [None] * 5, hum(0.0, 20.0)
''', 'a dew point far above the air temperature', 'an impossible relative humidity is kept')

B('stub-order', 'P39', [('BackgroundField.py', """    for fname in candidatefilenames:
        if outfilename is None:
            if os.path.isfile(fname):
                outfilename = fname

    return outfilename


def icoads_filename(""", """    for fname in candidatefilenames:
        if os.path.isfile(fname):
            outfilename = fname

    return outfilename


def icoads_filename(""")], '''
import os, tempfile, shutil
import BackgroundField as bf
d = tempfile.mkdtemp()
try:
    for n in ("a_199003", "b_199003"):
        open(os.path.join(d, n), "w").close()
    got = bf.icoads_filename_from_stub([d + "/", d + "/"], ["a_YYYYMMMM", "b_YYYYMMMM"], 1990, 3)
    assert os.path.basename(got) == "a_199003", got
finally:
    shutil.rmtree(d)
''', 'files of the month in two of the configured directories', 'the last of the configured files is taken, not the first')

B('nrt-zero', 'P40', [('NRT.py', """        else:
            sst = float(sst)
""", """        else:
            sst = float(sst) or None
""")], '''
from NRT import NRT
r = NRT()
r.readstr("62001,x,2019-03-04T05:30:00,45.2,-5.0,0.0\\n")
assert r.data["SST"] == 0.0, r.data["SST"]
r.readstr("62001,x,2019-03-04T05:30:00,45.2,-5.0,nan\\n")
assert r.data["SST"] is None
''', 'a temperature of exactly zero degrees', 'zero degrees is read as missing')

B('sun-leap-floor', 'P41', [('qc.py', "    leap = int(delyear / 4.)", "    leap = int(math.floor(delyear / 4.))")], '''
import qc
a = qc.sunangle(1976, 366, 23, 59, 59, 0, 0, 40.0, -10.0)
b = qc.sunangle(1977, 1, 0, 0, 0, 0, 0, 40.0, -10.0)
assert abs(a[2] - b[2]) < 0.2, (a, b)
''', 'years before 1980 that are not leap years', 'the calendar jumps by a day')

B('leap-century', 'P37', [('qc.py', "    if calendar.isleap(year):\n", "    if year % 4 == 0:\n")], '''
import qc
assert qc.get_month_lengths(1900)[1] == 28 and qc.get_month_lengths(2000)[1] == 29 and qc.get_month_lengths(1904)[1] == 29
''', 'the years 1900 and 2100', 'a 29 February 1900 exists')

B('hour-midnight', 'P04', [('qc.py', "inhour is not None and (inhour >= 24 or", "inhour is not None and (inhour > 24 or")], '''
import qc
assert qc.time_check(24.0) == 1 and qc.time_check(23.99) == 0
''', 'an hour of exactly 24', 'hour 24 is accepted')

B('deck732-both', 'P08', [('qc.py', "if thisreg[0] <= inlon <= thisreg[2] and thisreg[1] <= inlat <= thisreg[3]:", "if thisreg[0] <= inlon < thisreg[2] and thisreg[1] <= inlat < thisreg[3]:")], '''
import qc
assert qc.blacklist('', 732, 1974, 1, -47, -60) == 1
assert qc.blacklist('', 732, 1974, 1, -45, -55) == 1
''', 'a report exactly on the eastern or northern side of a region', 'reports on two sides of a region are not black-listed')

B('calm-missing', 'P05', [('qc.py', "    if winddirection == 361 and windspeed != 0:", "    if winddirection == 361 and windspeed:")], '''
import qc
assert qc.wind_consistency(0, 361, 10) == 0 and qc.wind_consistency(3, 361, 10) == 1
assert qc.wind_consistency(None, 361, 10) == 1
''', 'a calm without a wind speed', 'calm with a missing speed passes')

B('deck732-border', 'P08', [], '', '', '')
B('base-mat-clim', 'P06', [], '', '', '')
BUGS = [b for b in BUGS if b[3]]

if __name__ == '__main__':
    want = [a for a in sys.argv[1:] if not a.startswith('--')]
    for b in BUGS:
        if not want or b[0] in want:
            plant(*b)
