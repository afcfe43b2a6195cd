# Reference definitions: the flags base QC sets on one report.  v: observed values (None = missing),
# n: climatological averages, s: their standard deviations, p: parameters
from elem import missing_fails, hard_limit, supersat, freeze, clim, clim_lowbar, clim_sd, position, hour, date, wind
from blk import ship, humidity, mat, isin
import qc


def fixed_hour(v):
    if v['HR'] is None and v['DCK'] == 701 and v['YR'] < 1860:
        return 0
    return v['HR']


def west(lon):
    if lon > 180:
        return lon - 360
    return lon


def day(v, p):
    h = fixed_hour(v)
    if position(v['LAT'], v['LON']) == 0 and date(v['YR'], v['MO'], v['DY']) == 0 and hour(h) == 0:
        return qc.day_test(v['YR'], v['MO'], v['DY'], h, v['LAT'], west(v['LON']), p['base']['time_since_sun_above_horizon'])
    return 1


def flag(name, v, n, s, p):
    var, test = name
    if var == 'POS':
        if test == 'isbuoy':
            return isin(v['PT'], [6, 7])
        if test == 'isdrifter':
            return isin(v['PT'], [7])
        if test == 'isship':
            return ship(v['PT'])
        if test == 'is780':
            return isin(v['DCK'], [780])
        if test == 'pos':
            return position(v['LAT'], v['LON'])
        if test == 'date':
            return date(v['YR'], v['MO'], v['DY'])
        if test == 'time':
            return hour(fixed_hour(v))
        if test == 'blklst':
            return qc.blacklist(v['ID'], v['DCK'], v['YR'], v['MO'], v['LAT'], west(v['LON']), v['PT'])
        if test == 'day':
            return day(v, p)
    if test == 'hum_blacklist':
        return humidity(v['PT'])
    if test == 'wind_blacklist':
        return isin(v['DCK'], [708, 780])
    if test == 'mat_blacklist':
        return mat(v['PT'], v['DCK'], v['YR'], v['LAT'], v['LON'])
    if test == 'noval':
        return missing_fails(v[var])
    if test == 'nonorm':
        return missing_fails(n[var])
    if test == 'freez':
        return freeze(v['SST'], 0.0, p['SST']['freezing_point'], p['SST']['freeze_check_n_sigma'])
    if test == 'ssat':
        return supersat(v['DPT'], v['AT2'])
    if test == 'consistency':
        return wind(v['W'], v['D'], p['W']['variable_limit'])
    if test == 'hardlimit':
        if var == 'DPT':
            r = 0
            for x, k in [('AT', 'AT'), ('DPT', 'DPT'), ('SHU', 'SHU'), ('CRH', 'RH')]:
                if hard_limit(v[x], p[k]['hard_limits']) == 1:
                    r = 1
            return r
        if var == 'AT2':
            return hard_limit(v['AT'], p['AT']['hard_limits'])
        return hard_limit(v[var], p[var]['hard_limits'])
    if test == 'clim':
        if var == 'SST' or var == 'AT':
            return clim(v[var], n[var], p[var]['maximum_anomaly'])
        if var == 'SLP':
            return clim_lowbar(v[var], n[var], s[var], p[var]['maximum_standardised_anomaly'], p[var]['lowbar'])
        k = 'AT' if var == 'AT2' else var
        return clim_sd(v[var], n[var], s[var], p[k]['minmax_standard_deviation'], p[k]['maximum_standardised_anomaly'])
    raise ValueError(test)


def hour_after(rep, v):
    return fixed_hour(v)


def day_from_flags(f, v, t):
    if f['POSpos'] == 0 and f['POSdate'] == 0 and f['POStime'] == 0:
        return qc.day_test(v['YR'], v['MO'], v['DY'], v['HR'], v['LAT'], west(v['LON']), t)
    return 1


def mat_of(v):
    return mat(v['PT'], v['DCK'], v['YR'], v['LAT'], v['LON'])
