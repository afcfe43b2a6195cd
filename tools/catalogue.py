# The properties.  `tools/gen.py` turns this into properties.jsonl and MANIFEST.json.
PROPS = []
NOT_APPLICABLE = {}
NOTES = ('All checks are static: they parse /repo/*.py on every run and never import or execute it. '
         'Exit 2 = an anchor vanished or a construct is outside the analysed subset.')


def P(id, title, statement, forall, why, files, mech, **kw):
    d = dict(id=id, title=title, statement=statement, forall=forall, why=why, files=files, mech=mech)
    d.update(kw)
    PROPS.append(d)


P('P03', 'Elementary value checks decide exactly their definition',
  'A missing value fails the missing-value and missing-climatology checks and every limit or climatology check; otherwise a hard limit check fails exactly the values outside the closed limits, the supersaturation check fails exactly when dew point exceeds air temperature (or one is missing), and the freezing check fails exactly values more than the given number of standard uncertainties below the freezing point, a missing value passing it. '
  'The plain climatology check (default limit 8) fails exactly anomalies whose size exceeds the limit; the standardised check first clips the standard deviation into its allowed range and fails anomalies larger than the limit times it; the low-bar version fails only anomalies exceeding both the limit times the standard deviation and the low bar. '
  'Unusable parameters (limits not ascending, limit not positive, missing uncertainty or freezing point) raise an error instead of giving a verdict.',
  'all present or missing values, climatologies, standard deviations and all limits, including values exactly on a limit',
  'Tests try a handful of values per check; the verdict must be right for every value, in particular at and around each limit and for every combination of missing inputs.',
  ['qc.py'], [('value_check, no_normal_check', 'qc.py'), ('hard_limit', 'qc.py'), ('supersat_check', 'qc.py'), ('sst_freeze_check', 'qc.py'), ('climatology_check and the two standard-deviation variants', 'qc.py')])

P('P04', 'Position, date and time checks accept exactly real places, days and hours',
  'The position check passes exactly latitudes in [-90, 90] with longitudes in [-180, 360] and raises an error for a missing or not-a-number coordinate. '
  'The time check passes exactly hours in [0, 24), and the date check passes exactly the existing days of the Gregorian calendar in the years 1850 to 2024; a missing hour or day, a month outside 1 to 12 or a day outside the month fails, and a missing year or month raises an error. '
  'Month lengths are those of the Gregorian calendar for every year.',
  'all coordinates, hours, years, months and days, present or missing',
  'Tests sample a few dates and positions; the boundaries of every month in every kind of year and non-existing months were not covered (a month outside 1-12 crashed).',
  ['qc.py'], [('position_check', 'qc.py'), ('time_check', 'qc.py'), ('date_check', 'qc.py'), ('get_month_lengths', 'qc.py')])

P('P15', 'Gross-error probability is Bayes\' rule on the stated distributions',
  'The probability of a quantised observation given it is good is the normal probability mass of its quantisation interval divided by the mass of the whole allowed range widened by half a quantum at both ends; given it is a gross error it is one over one plus the range divided by the quantum. '
  'The posterior gross-error probability combines the two with the prior by Bayes\' rule. '
  'Inputs outside the stated domain (prior outside 0 to 1, non-positive quantum or spread, limits not ascending, observation outside the limits) raise an error.',
  'all real priors, quanta, limits, observations, means and spreads',
  'Tests check a few numeric points; a wrong term in a formula can agree at those points.',
  ['qc.py'], [('p_data_given_good', 'qc.py'), ('p_data_given_gross', 'qc.py'), ('p_gross', 'qc.py')])

P('P16', 'Every position falls in exactly one grid box, with an index inside the grid',
  'At each grid resolution in use (5, 2, 1, 0.5 and 0.25 degrees), every latitude in [-90, 90] and every longitude in [-180, 360] is mapped to an index inside the grid, in both the cell-range and the file-style (rounding away from the equator or the Greenwich meridian) conventions. '
  'The index is the one whose box contains the position, longitudes 360 degrees apart share a column, and a position on the edge between two boxes always goes to the same documented side. '
  'The centre of every box maps back to that box.',
  'all latitudes and longitudes in range at five resolutions, including every box edge, the poles, the date line and 0/360 degrees',
  'Tests try tens of points out of a continuum; off-by-one errors live at poles, box edges and the date line.',
  ['qc.py'], [('lat_to_yindex, lon_to_xindex', 'qc.py'), ('mds_lat_to_yindex, mds_lon_to_xindex', 'qc.py'), ('yindex_to_lat, xindex_to_lon', 'qc.py')])

P('P30', 'Winsorised, trimmed and missing-value means depend only on the values, not order',
  'The winsorised mean of n values replaces the lowest and highest quarter (n/4 rounded down, none below four values) by the nearest remaining value and averages all n. '
  'The trimmed mean drops the lowest and highest n/t values (rounded down; none when t is 0) and averages the rest. '
  'The mean of a list with missing entries is the mean of the present ones, and missing when there are none; none of these results depends on the order of the list.',
  'all lists: every order of up to four values and sorted or reversed lists of up to eight (thorough: twelve) values, all trims in use',
  'Tests use a few fixed lists; the result must not depend on order or on ties for any list.',
  ['qc.py'], [('winsorised_mean', 'qc.py'), ('trimmed_mean', 'qc.py'), ('missing_mean', 'qc.py')])

P('P37', 'Calendar arithmetic agrees with the Gregorian calendar for every date',
  'The day before a date, the month before and after a month, the day number in the year (leap and no-leap), the five-day period of a date, the first date of a period, the season and the sequence of months between two months are those of the calendar, and 29 February shares the period and day number of 1 March in the no-leap numbering. '
  'The month sequence yields every month from start to end once in order and is finite whenever start and end are real months. '
  'Dates that do not exist are reported (an error, or missing for the day before) rather than turned into another date.',
  'all years, months and days, and all month ranges up to several years',
  'Tests sample a few dates; month ends, leap years, year wraps and non-existing months form many cases (season of month 0 and an unreachable end month were wrong).',
  ['qc.py'], [('yesterday, last_month_was, next_month_is', 'qc.py'), ('dayinyear, day_in_year', 'qc.py'), ('which_pentad, pentad_to_month_day', 'qc.py'), ('season, year_month_gen, month_match', 'qc.py')])

P('P01', 'Quality-control flags behave as a table: last value set wins, unset reads 9',
  'Setting a flag stores exactly that value under its variable and test name and changes no other flag; reading it back returns the last value set, and a flag never set reads 9. '
  'Only the known variables (the report variables and POS) and the values 0 to 9 are accepted; any other variable or value raises an error and stores nothing. '
  'Setting a flag at one position of a voyage changes that report only, and setting it on a deck changes every report of the deck.',
  'all sequences of up to two assignments over every known and unknown variable and every integer value, on reports already carrying flags',
  'Tests set and read a few flags; isolation between flags must hold for every pair of variables, tests and values.',
  ['Extended_IMMA.py'], [('MarineReport.set_qc/get_qc', 'Extended_IMMA.py'), ('Deck.set_qc', 'Extended_IMMA.py'), ('Voyage.set_qc', 'Extended_IMMA.py')])

P('P05', 'Wind consistency fails exactly calm-but-blowing and variable-but-strong reports',
  'The wind consistency check fails when the direction code is 361 (calm) and the speed is missing or other than zero, and when the code is 362 (variable) and the speed is present and exceeds the limit given. '
  'Every other combination passes, a missing direction included.',
  'all wind speeds, direction codes (present or missing) and limits',
  'Tests try six combinations; the verdict must be right for every speed, at the limit included, and every code.',
  ['qc.py'], [('wind_consistency', 'qc.py')])

P('P06', 'Each base quality-control flag is its check applied to the right quantities',
  'After base QC of a report, every flag (position, date, time, day, platform class and black lists; and per variable: missing value, climatology, missing climatology, hard limits, freezing, supersaturation, wind consistency) equals its elementary check applied to the observed quantities, climatology and configured limits of that same variable. '
  'The combined humidity limit flag fails when any of air temperature, dew point, specific humidity or relative humidity is outside its limits; the day flag is the daylight test only when position, date and time all pass and 1 otherwise. '
  'Each of the four entry points (all variables, wind only, pressure only, sea temperature only) sets exactly its own set of flags on every report, and QC changes no observation except that a missing hour becomes 0 in deck 701 before 1860.',
  'all reports: each flag over all values (present or missing) of the quantities it depends on, other quantities all missing or all present, and all limits',
  'Tests exercise single checks; base QC wires dozens of checks to variables, climatologies and limits, and a wrong wire shows only for particular combinations of present and missing values.',
  ['Extended_IMMA.py', 'qc.py'], [('MarineReportQC.perform_base_*_qc', 'Extended_IMMA.py'), ('do_base_*_qc and the black-list methods', 'Extended_IMMA.py')])

P('P08', 'Black list and generic identifiers contain exactly the documented reports',
  'A report is black-listed exactly when its deck is 874, its platform type is 13, its identifier is SUPERIGORINA, it lies exactly at 0 N 0 E, it is from deck 732 in one of the bad regions of its year (1958 to 1974, borders included), or it is one of the 28 listed drifters between November 2005 and January 2006. '
  'Longitudes above 180 are read as the same place west of Greenwich. '
  'An identifier is generic exactly when it is missing or one of the listed identifiers padded to nine characters, some of them (2, 00002, 3, 7 and 00007) only within their listed years.',
  'all identifiers, decks, years, months, positions (region borders included) and platform types, present or missing',
  'Tests hit a few regions and identifiers; the tables have over a hundred year-region entries and each border matters.',
  ['qc.py'], [('blacklist', 'qc.py'), ('id_is_generic', 'qc.py')])

P('P09', 'A QC filter passes exactly the reports whose flags equal every requested value',
  'A filter passes a report (0) exactly when every flag it lists has the requested value, a flag that was never set counting as 9, and fails it (1) otherwise; a filter without conditions passes everything. '
  'Splitting a deck by a filter puts every report into exactly one of the two decks, passing ones in the first, in their original order.',
  'all flag values, set or unset, for filters of up to three conditions (thorough: four), and decks of up to four reports',
  'Tests use one or two filters; the verdict must hold for every combination of set and unset flags.',
  ['Extended_IMMA.py'], [('QC_filter.test_report', 'Extended_IMMA.py'), ('QC_filter.split_reports', 'Extended_IMMA.py')])

P('P10', 'Grouping a deck by platform and sorting lose, duplicate and mix no report',
  'Taking a deck one platform at a time yields one voyage per identifier, in order of first appearance, holding exactly the reports of that identifier that pass the deck filter, in deck order; this stays true after reports are removed from the deck. '
  'Sorting a deck or a voyage orders its reports by identifier and then by time, keeps the order of reports with equal identifier and time, and loses or duplicates none. '
  'Reports compare equal exactly when identifier and time agree and otherwise compare by identifier, then by time.',
  'all decks of up to four reports (thorough: five) with any pattern of equal and different identifiers, times and filter results',
  'Tests use one small deck; grouping and sorting must be right for every pattern of repeated identifiers, ties and removals.',
  ['Extended_IMMA.py'], [('Deck.get_one_platform_at_a_time, index_by_id, pop', 'Extended_IMMA.py'), ('Deck.sort, Voyage.sort', 'Extended_IMMA.py'), ('MarineReport comparison operators', 'Extended_IMMA.py')])

P('P21', 'A report reads back what its record held and keeps its date-time in step',
  'A report built from a record returns every quantity the record holds unchanged and every other quantity as missing, and setting one quantity, on a report or at a position of a voyage, changes that one only. '
  'Its date-time is that of its year, month, day and hour, fraction of the hour as minutes rounded down, whenever these are all present and exist in the calendar, and is missing otherwise, also after any of the four is changed; ship course and speed are decoded from their codes (course 45 degrees times the code below 9; speed 0 for code 0, otherwise 5 v - 2 from 1968 on and 3 v - 1 before). '
  'Anomalies are value minus climatology (divided by the standard deviation when normalised) and missing when any part is; the Julian day and the hours between two dates agree with the Gregorian calendar.',
  'all records with any quantity present or missing, all single changes, years 1 to 9999',
  'Tests build a few reports; the combinations of present and missing date parts, non-existing dates and later changes were not covered (setting the month did not update the date-time).',
  ['Extended_IMMA.py', 'qc.py'], [('MarineReport.__init__, setvar, getvar', 'Extended_IMMA.py'), ('calculate_dt, calculate_dsi_vsi, reset_ext', 'Extended_IMMA.py'), ('getnorm, getanom, get_normalised_anom', 'Extended_IMMA.py'), ('jul_day, time_difference', 'qc.py')])

P('P20', 'Speeds, courses and distances along a voyage join the right two reports',
  'The difference of two reports is the great-circle distance, course (from the earlier operand to the later one) and hours between their positions and times, and the speed is distance over hours, or the distance itself with a time step of 0 when the time step is missing or zero. '
  'After adding reports to a voyage or sorting it, each report carries these values relative to the report before it and the first carries none; the alternate values join its two neighbours and the end reports carry none; the mean speed averages all but the first and is missing below two reports. '
  'The predicted next point is the only or the last position when there is one report or no time step, and otherwise continues from the last but one position along its course at the last speed for the last time step plus the time asked for.',
  'all positions and times (missing ones included) for voyages of up to four reports (thorough: five), in any time order',
  'Tests use a few tracks; off-by-one pairings and stale values show only for particular orders and repeated times (sorting left stale values on the first report).',
  ['Extended_IMMA.py'], [('MarineReport.__sub__', 'Extended_IMMA.py'), ('Voyage.add_report, sort, calc_alternate_speeds', 'Extended_IMMA.py'), ('Voyage.meansp, predict_next_point', 'Extended_IMMA.py')])

P('P22', 'The ship track check flags exactly the reports its rule condemns',
  'A report strictly inside a voyage of three or more is flagged exactly when two of its neighbouring speeds (to it, from it, or over two steps) exceed the limit derived from the most frequent speed, it lies further than the midpoint limit from the time-proportional point between its neighbours, and either its speed exceeds the absolute limit or its reported course, reported speeds or the distances projected from them disagree by more than their limits; the first and last report are never flagged. '
  'Voyages with a generic identifier or from buoys (platform types 6 and 7) are never flagged; voyages of fewer than three reports get the too-few flag instead, except deck 720 before 1891. '
  'The most frequent speed is the centre of the fullest 3-knot bin (lowest of equals, top bin open), at least 8.5 knots, and its derived limits, the courtesy of missing reported values and the unit conversions follow the documented rule.',
  'all positions, times, reported speeds and courses (missing ones included) and limits for voyages of up to four reports (thorough: five); bins for up to four reports',
  'Tests check components on a few numbers; the combination of three criteria with neighbours on both sides has many cases, and a wrong neighbour or unit rarely shows.',
  ['Extended_IMMA.py', 'track_check.py'], [('Voyage.track_check, distr1, distr2, midpt', 'Extended_IMMA.py'), ('modesp, set_speed_limits, increment_position', 'track_check.py'), ('direction_continuity, speed_continuity, check_distance_from_estimate', 'track_check.py')])

P('P23', 'The stand-alone track check applies the same rule, in up to five passes',
  'One pass of the stand-alone track check gives each report the verdict of the voyage track check rule with the fixed limits 60 degrees, 10 knots, 40 knots and 150 nautical miles. '
  'The full check repeats the pass, at most five times, on the voyage without the reports already failed, recomputing speeds between the remaining neighbours, and stops when a pass fails nothing; a report is bad exactly when some pass failed it. '
  'Voyages with a generic identifier are never flagged and voyages of fewer than three reports get only the too-few flag.',
  'all voyages of up to four reports for one pass and up to five (thorough: six) for the repeated passes with any verdicts',
  'Tests run a few tracks; the bookkeeping between passes matters only when several reports fail in different passes.',
  ['track_check.py'], [('mds_track_check', 'track_check.py'), ('mds_full_track_check', 'track_check.py'), ('distr1, distr2, midpt', 'track_check.py')])

P('P24', 'IQUAM track and spike checks flag the worst offenders until none is left',
  'Two reports of a voyage at most the given number of positions apart disagree when the distance beyond the allowance exceeds the speed limit times the time between them plus the time allowance (track check; buoy limit for platform types 6 and 7), or when their values differ by more than the largest of the fixed limit and the space and time gradients times their separation (spike check; a missing value never disagrees). '
  'The report with most disagreements, the first of equals, is flagged and removed from the counts, repeatedly until no disagreement is left; every other report is flagged 0. '
  'The track check passes every report of a voyage with a generic identifier.',
  'all positions, times, values and limits for two reports, all patterns of disagreeing pairs among up to four reports (thorough: five), all neighbour distances',
  'Tests use a few tracks; counting and tie-breaking after removals depends on the pattern of disagreeing pairs.',
  ['Extended_IMMA.py'], [('Voyage.iquam_track_check', 'Extended_IMMA.py'), ('Voyage.spike_check', 'Extended_IMMA.py')])

P('P25', 'Repeated, rounded and saturated-run flags follow their rules exactly',
  'When a voyage holds more than the minimum count of present values, a value is flagged repeated exactly when more than the threshold fraction of the present values equal it, and flagged rounded exactly when it is a whole number and at least the threshold fraction of the present values are whole; everything else, and every report when there are too few values, gets flag 0. '
  'A report is flagged as saturated exactly when it lies in a maximal run of consecutive reports with equal air temperature and dew point that has more than the shortest-run number of reports and lasts at least the minimum number of hours from its first to its last report. '
  'A threshold outside 0 to 1 is refused.',
  'all voyages of up to four reports (thorough: five; saturation: five) with every pattern of missing, equal and whole values, all thresholds',
  'Tests use long hand-made series; thresholds met exactly, runs at the end of the voyage and missing values in between are not covered.',
  ['Extended_IMMA.py'], [('Voyage.find_repeated_values', 'Extended_IMMA.py'), ('Voyage.find_multiple_rounded_values', 'Extended_IMMA.py'), ('Voyage.find_saturated_runs', 'Extended_IMMA.py')])

P('P11', 'The MDS buddy check rejects exactly the anomalies far from their neighbours',
  'Every report passing the deck filter is compared with the mean anomaly of the filled neighbouring boxes inside the first search radius of the list that contains any; it is flagged 1 exactly when it differs from that mean by at least the multiplier for the total number of neighbouring observations times the standard deviation of its own box (1 where that is missing or negative), and against mean 0 and half-width 500 when no radius contains a neighbour. '
  'Reports failing the filter take no part, neither as neighbours nor in their own box, and are flagged 0. '
  'The multiplier is that of the highest limit strictly below the number of observations (4 for none), and unusable lists of limits or multipliers are refused.',
  'all anomalies, spreads, filter results and multipliers for decks of up to three reports in every arrangement of near, farther and far boxes, all lists of up to four limits',
  'Tests use one arrangement of eight neighbours; the verdict depends on which radius is hit first, on counts exactly at a limit and on filtered reports.',
  ['Extended_IMMA.py'], [('Deck.mds_buddy_check', 'Extended_IMMA.py'), ('Np_Super_Ob.get_buddy_limits_with_parameters, get_buddy_limits', 'Extended_IMMA.py'), ('get_threshold_multiplier', 'Extended_IMMA.py')])

P('P12', 'The Bayesian buddy check flags each report with its gross-error tenth',
  'Every report passing the deck filter gets as flag its posterior gross-error probability times ten, rounded down and at most 9, given the mean of the filled neighbouring boxes and a standard deviation whose square adds the measurement error, the neighbourhood and point variances and the uncertainty of the neighbour mean; boxes without neighbours use mean 0 and standard deviation 500. '
  'The uncertainty of the mean of n boxes is the sum over boxes of (measurement variance plus scaled point variance) divided by the observations in the box, divided by n squared, plus the neighbour-mean variance divided by n, a missing or negative spread counting as 1. '
  'Reports failing the filter take no part and are flagged 0.',
  'all anomalies, spreads, parameters and filter results for decks of up to three reports in every arrangement of near and far boxes',
  'Tests compare one configuration with equal spreads; exchanged spreads, wrong scaling or counting show only when the three fields and counts differ.',
  ['Extended_IMMA.py'], [('Deck.bayesian_buddy_check', 'Extended_IMMA.py'), ('Np_Super_Ob.get_new_buddy_limits', 'Extended_IMMA.py')])

P('P13', 'Buddy-check boxes hold every observation once and are found from every side',
  'Each observation with an anomaly is added to exactly the 1-degree, five-day box of its position and date (rows and columns in the file-style convention, 29 February counting as 1 March), and after averaging a box holds the mean and the number of its observations; observations without an anomaly change nothing. '
  'The neighbours of a box are the filled boxes, each once and never the box itself, at most the radius in rows and periods and at most the longitude radius divided by the cosine of the latitude of the box (rounded down) in columns away. '
  'Columns wrap around the globe and periods around the year, rows do not wrap.',
  'centres at the poles, the equator, the date line, the year ends and in between, with boxes just inside, at and beyond each radius; all patterns of up to two (thorough: three) observations sharing boxes; all days',
  'Tests search one place in mid-ocean; wrapping, poles and radius edges were not covered (boxes beyond a pole were found on the other side of the Earth, and near the poles boxes were counted twice).',
  ['Extended_IMMA.py'], [('Np_Super_Ob.add_rep, take_average', 'Extended_IMMA.py'), ('Np_Super_Ob.get_neighbour_anomalies', 'Extended_IMMA.py')])

P('P07', 'Day and night are decided from the sun one hour earlier, or at the time itself',
  'The marine-air-temperature day test answers 1 exactly when the sun, at the place of the report and the given number of hours (one by default) before the whole hour plus the minutes of the report, is above the horizon, going back over midnight to the previous day and over New Year to 31 December of the previous year. '
  'The tracking day test answers true exactly when the sun is higher than the given limit (-2.5 degrees by default) at the time of the report. '
  'Both take latitude or longitude 0 as 0.0001 and refuse a month, day, hour or latitude out of range; the tracking test also refuses missing values.',
  'all dates, times, places and limits; the sun position itself is an uninterpreted function of year, day of the year, hour, minute, latitude and longitude',
  'Tests look at a few dates; the roll-over at midnight and New Year, a place on the equator or Greenwich and exact limits need particular inputs.',
  ['qc.py', 'trackqc.py'], [('day_test', 'qc.py'), ('track_day_test', 'trackqc.py')])

P('P26', 'Aground and speed checks flag exactly the drifter reports their rules name',
  'With positions smoothed by a running median, the aground checks compare each position with the last one at most the maximum period later (new version: with the last of the record) at least the minimum period away, and flag every report from the start of the final unbroken stretch of comparisons within the displacement of 0.01 degrees of latitude and longitude at the equator, or all reports when that stretch starts at the first smoothed position; records no longer than the smoothing window, and all other reports, get 0. '
  'The speed check flags every report from one to the last within the maximum period of it when they are at least the minimum period apart and the speed between them exceeds the limit; the new one uses the first report at least the minimum period later, leaves out reports failing the IQUAM track check run as for a ship, and changes neither the IQUAM flags nor the platform type of the reports. '
  'Missing positions or times, times out of order and unusable parameters are refused.',
  'all positions, times and parameters for records of up to four reports (thorough: five), windows of one and three reports (five reports; thorough: five of seven), minimum periods above zero',
  'Tests use long hand-made tracks; the verdict depends on gaps in time, the last report inside a period and where a stretch begins.',
  ['trackqc.py'], [('aground_check, new_aground_check', 'trackqc.py'), ('speed_check, new_speed_check', 'trackqc.py')])

P('P27', 'Tail and bias checks judge drifter temperatures exactly by their windows',
  'Night-time, ice-free reports with a background are assessed by their difference from it; windows move from each end of the record while they fail (the long window by mean or spread, the short one, on what the long one left, by its number of outlying values), stopping at a window that passes or holds a background variance above the limit, and the reports up to the centre of the last failing long window, one more for each failing short window, or the whole short window when all fail, are flagged as tails, none when the whole record fails. '
  'The bias check flags all reports biased when the mean difference of a record with enough assessed values exceeds the limit and noisy when the spread exceeds the combined drifter and background error, and flags all reports of a shorter record that had no uncertain background when it holds enough outlying values. '
  'Ice, background or variance out of range, missing times and unusable parameters are refused.',
  'all values and parameters for records of up to two or three reports and every pattern of good, outlying, uncertain and unusable reports in records of up to seven (thorough: eight)',
  'Tests use a few hand-made records; how far the two windows move from both ends over unusable reports depends on the pattern.',
  ['trackqc.py'], [('sst_tail_check', 'trackqc.py'), ('sst_biased_noisy_check', 'trackqc.py'), ('trim_mean, trim_std', 'trackqc.py')])

P('P28', 'Drifter checks of a voyage run on drifters only, in time order, as configured',
  'Each of the six drifting-buoy checks of a voyage does nothing for an empty voyage or one whose platform type is not 7, and otherwise runs its own check once over all reports with every parameter taken from the entry of its name in the parameter dictionary. '
  'The reports are put in order of time first unless sorting is turned off. '
  'A check that cannot run raises an assertion error.',
  'all platform types, parameters, orders of up to three reports and both settings of the option',
  'Tests call the checks with one set of parameters; exchanged parameters of equal type and unsorted voyages go unnoticed.',
  ['Extended_IMMA.py'], [('Voyage.buoy_aground_check, new_buoy_aground_check', 'Extended_IMMA.py'), ('Voyage.buoy_speed_check, new_buoy_speed_check', 'Extended_IMMA.py'), ('Voyage.buoy_tail_check, buoy_bias_noise_check', 'Extended_IMMA.py')])

P('P33', 'Reading an IMMA record gives every field its value, blanks as missing',
  'After reading a line, every field of every attachment on it, in the order of the published layout (core first, then each attachment named by its two-character number and length), holds its text, its whole number divided by the units of the field, or its base-36 digit, and None when it is blank or beyond the end of the line. '
  'The attachments are listed in the order they were read, attachments 8 (length 2U) and 99 (length 0 or blank, running to the end of the line) included. '
  'Reading a record returns a true value and leaves nothing unread, and at the end of the file reading returns a false value and changes nothing.',
  'all field values; every field present, blank or alone, every line cut after a field, and representative sequences of all attachments',
  'Tests read no records; a field shifted by one column or a wrong unit shows only in that field.',
  ['IMMA1.py'], [('IMMA.readstr, IMMA.read, IMMA.decode', 'IMMA1.py'), ('parameters, definitions', 'IMMA1.py'), ('decode_base36', 'IMMA1.py')])

P('P34', 'Writing an IMMA record puts every field back where reading finds it',
  'The line written for a record holds the core and its attachments in order, each attachment after the first preceded by its two-character number and length (2U for 8, 0 for 99), and ends with a line feed. '
  'Every field takes its published width: numbers right-aligned as the nearest whole number of units of the field (halves upwards, negative values included), base-36 fields as their digit, text left-aligned, and missing values as blanks, blanks at the end of the line aside. '
  'Writing returns 1.',
  'all values that fit their fields; every field present, missing or alone, short text, and representative sequences of attachments',
  'Tests write no records; a wrong width, rounding or length header spoils only particular fields when the record is read back.',
  ['IMMA1.py'], [('IMMA.write, IMMA.encode', 'IMMA1.py'), ('encode_base36', 'IMMA1.py'), ('parameters, definitions', 'IMMA1.py')])

P('P18', 'Humidity quantities follow their published formulas, missing inputs give none',
  'Vapour pressure, specific and relative humidity, wet-bulb temperature and dew-point depression are the published functions (Buck 1981, Jensen 1990, Peixoto and Oort 1996) of dew point, air temperature and pressure, rounded to one decimal unless rounding is turned off, and missing when any input is missing. '
  'Vapour pressure is taken over water unless the wet-bulb temperature computed with it is at or below freezing, in which case all quantities are taken over ice. '
  'The conversions between vapour pressure, specific humidity and dew point are the matching inverses, the dew point likewise over ice when the wet-bulb temperature it gives is at or below freezing; the five humidity variables of a report are these functions of its own dew point and air temperature and the climatological pressure, all missing when one of the three is missing or the relative humidity is outside 0 to 150.',
  'all temperatures from -100 to 60 degrees and pressures from 800 to 1100 hPa, every pattern of missing inputs, rounding on, off and by default; exponential, logarithm and root are uninterpreted',
  'Tests use about ten values to one decimal; a changed digit of a coefficient, or the wrong branch near freezing, shows only elsewhere.',
  ['CalcHums.py', 'Extended_IMMA.py'], [('vap, vap_from_sh', 'CalcHums.py'), ('sh, sh_from_vap', 'CalcHums.py'), ('rh, wb, dpd, td_from_vap', 'CalcHums.py'), ('MarineReport.calculate_humidity_variables', 'Extended_IMMA.py')])

P('P19', 'Distances, courses and points on the sphere are consistent and in range',
  'The distance between two places is the Earth radius (6371.0088 km) times the angle between them, the same both ways and 0 between equal places, and a place reached along a course has its longitude from -180 up to but not including 180. '
  'The course is 0 between equal places, 180 from the north pole, 360 from the south pole and otherwise the great-circle bearing, above 180 exactly when the destination lies to the west; the intermediate point at a fraction of the great circle is refused for a fraction above 1. '
  'Missing or not-a-number coordinates are refused by distance, course and intermediate point.',
  'all places (longitudes -180 to 360), courses, distances and fractions; sines and cosines are uninterpreted but for cos^2 = 1 - sin^2',
  'Tests use a dozen places; courses across the date line and places reached going west over it were not covered (the longitude came out below -180).',
  ['spherical_geometry.py'], [('angular_distance, sphere_distance', 'spherical_geometry.py'), ('lat_lon_from_course_and_distance', 'spherical_geometry.py'), ('course_between_points, intermediate_point', 'spherical_geometry.py')])

P('P38', 'Drifter records are cut at long gaps and each piece is submitted once',
  'The months with data of an identifier are cut into chunks exactly where at least the given number of months in a row hold no data, each chunk running from its first to its last month with data. '
  'A chunk is a start edge case when fewer than that many months precede it in the series, an end edge case when fewer than that many follow it, new when exactly that many follow, and regular when it is neither edge case. '
  'For every identifier the wrapper submits exactly one tracking job per chunk (all), per regular chunk (standard), per new chunk (new) or per chunk that is no end edge case (noend), with the identifier, first and last month, classes and run period as arguments, and refuses any other mode.',
  'every pattern of months with data in series of up to seven months (thorough: nine), patterns in long series, gaps of 1 to 13 months, all modes, one and two identifiers',
  'Tests use one gap length and no wrapper; chunks at the start or end of the series and gaps of exactly the limit need particular patterns.',
  ['YMCounter.py', 'Tracking_QC_wrapper.py'], [('YMCounter.get_chunks, yield_start_and_end_dates', 'YMCounter.py'), ('main, write_submission', 'Tracking_QC_wrapper.py')])

P('P39', 'Input and background files are the first that exist in the configured lists',
  'ICOADS and background files are looked for in the order of the lists of directories and names, with YYYY, MMMM and DDDD replaced by the four-digit year, two-digit month and two-digit day; the first that exists (and, for background files, is not empty) is used, none when none exists or a part of the date is missing, and lists of different lengths are refused. '
  'A background file that exists with the ending .bz2 is used before the plain one of the same place, and unpacked from exactly that file into the scratch directory under its plain name unless it is there already. '
  'The list of bad identifiers holds every line of its file that is not blank, without trailing white space and padded with blanks to nine characters; the ICOADS file of release 2.5 or 3.0 is that of the part holding its year (2.5.2 from 2008 to 2014, 3.0.1 from 2015), other releases are refused.',
  'all dates and states of up to three candidate files (plain and packed, missing, empty or filled), representative lists of names and lines',
  'Tests need files at fixed places on another machine and fail here; the order of preference and the unpacking were never run (the ending .bz2 was added twice, so nothing could be unpacked).',
  ['BackgroundField.py'], [('get_background_filename, icoads_filename_from_stub', 'BackgroundField.py'), ('process_string, make_filename', 'BackgroundField.py'), ('process_bad_id_file', 'BackgroundField.py')])

P('P35', 'Output files hold one line per report of the month, with its values and flags',
  'The variables file and the flag files of a month hold a header naming their columns and then one line for each report of that year and month, in the order of the deck or ship: its UID, in the variables file its ISO date (0000-00-00 if there is none) and pentad (0 if there is none), and under each column the value, anomaly or flag of that name. '
  'Missing values are written \\N and flags that were never set 9; the tracking file holds every report of a drifter on one line in the same way, with variables, flags and background values. '
  'Files are named by kind, year and two-digit month, ship (with / and * written as _) and run, and an empty deck writes none.',
  'all values, dates (years 1000 to 9999) and flags of a report, each quantity missing alone, with all others or not at all; nine reports in and out of the month; identifiers with and without special characters',
  'The writers have no tests of what they write: a column exchanged or a report left out would go unnoticed, and files of some ships could not be written at all.',
  ['Extended_IMMA.py'], [('Deck.write_output, write_min_output, write_qc', 'Extended_IMMA.py'), ('Voyage.write_output, write_qc, write_tracking_output', 'Extended_IMMA.py'), ('print_variable_block, print_qc_block, datestring', 'Extended_IMMA.py')])

P('P29', 'Tracking QC of a drifter passes each check the right reports and writes them all',
  'The tracking QC of one drifter reads every month of its chunk that has files (variables, position flags and SST flags of the identifier, padded to nine characters), and stops with an error without writing anything if one of the three files is missing, empty or of another length, if a line belongs to another report (UID), or if there are no reports. '
  'In order of time, the aground and speed checks get exactly the reports whose position flags are isbuoy 1 and date, time, pos and blklst 0; the tail check those of them with SST flags clim, nonorm, freez, noval, rep and hardlimit 0, bbud below 4 and drf_agr and drf_spd 0; the bias and noise check those of them with drf_tail1 and drf_tail2 0, each with its own parameters. '
  'Afterwards all reports, with the flags read and set, are written in order of time for the last month of the chunk: into TrackingQC/year/month for a new or regular chunk, and into its subdirectory start_edge_case_ or end_edge_case_ with the tag of the run for those.',
  'all flag values of one report, combinations of two, all outcomes of the checks; chunks of up to six months with gaps and reports out of order; every kind of chunk; each missing value; each kind of damaged file',
  'The program has no test at all; it depends on files written by another program and on the flags of four checks building on each other.',
  ['tracking_qc.py', 'Extended_IMMA.py', 'BackgroundField.py'], [('main, EasyImma', 'tracking_qc.py'), ('safe_make_tracking_dir, safe_make_edge_dir', 'tracking_qc.py'), ('safe_make_dir_generic', 'BackgroundField.py'), ('Voyage.write_tracking_output', 'Extended_IMMA.py')])

P('P31', 'Track and buddy checks see exactly the reports passing the checks before them',
  'In marine_qc, marine_qc_hires and marine_qc_track_only, after the basic checks of all reports of a run, each identifier is track checked and checked for repeats (outside hires also by the IQUAM track and spike, saturated-run and rounding checks) with exactly its reports whose flags date, time, pos and blklst are 0, the repeat check running on SST and in marine_qc also on AT, AT2, DPT and SLP. '
  'Then the buddy checks get exactly the reports whose flags date, time, pos, blklst and trk are 0 and besides: for SST is780, noval, freez, clim and nonorm 0; in marine_qc for AT isship 1, day, mat_blacklist, noval, clim and nonorm 0, for DPT hum_blacklist, noval, clim and nonorm 0 and for SLP noval, clim and nonorm 0; SST and AT both the Bayesian (three spreads) and the old check (old SST spread), DPT and SLP the old one with the spread of their own climatology, each check with its own parameters. '
  'After all checks all reports of a marine_qc run are written to the month\'s directory (hires: their SST flags), and with -tracking in all three programs the reports of each identifier with flags month_match and isdrifter 1 are written and the identifier listed in ID_file.txt with its file-safe form, one line each.',
  'all values of each flag of a report, one at a time (thorough: every pair), among other reports of the same and another ship; runs with and without tracking over one to three months',
  'The programs have no tests at all; a filter forgotten or a check run before the one it depends on shows only in which reports reach the later checks.',
  ['marine_qc.py', 'marine_qc_hires.py', 'marine_qc_track_only.py', 'Extended_IMMA.py', 'BackgroundField.py'], [('main', 'marine_qc.py'), ('main', 'marine_qc_hires.py'), ('main', 'marine_qc_track_only.py'), ('QC_filter, Deck.add_filter, Deck.get_one_platform_at_a_time', 'Extended_IMMA.py'), ('safe_make_dir', 'BackgroundField.py')])

P('P32', 'Each run takes in exactly its reports, with the normals of their place and date',
  'For every month asked for, marine_qc, marine_qc_hires and marine_qc_track_only take in from the files of the month before, the month and the month after (missing files are passed over) exactly the records that can be read, whose identifier is not an excluded one (padded to nine characters) and whose year and month are those of the file, unaffected by any other record, and give month_match 1 exactly to those of the month itself. '
  'When its basic checks start each report has the values of the configured climatologies at its latitude, longitude (above 180 counted west), month and day: marine_qc means of SST and AT (MDS style), SLP2, SHU, CRH, CWB and DPD, means and standard deviations of DPT, AT2 and SLP, AT2 equal to AT and the five humidity variables calculated; marine_qc_track_only SST (MDS style); hires SST of the high-resolution climatology. '
  'With -tracking, outside hires, reports since 1985 with a day also have the OSTIA temperature in Celsius and ice of the day before and the background variance (MDS style) of the season, none where there is none.',
  'runs of one and several months over year ends; records unreadable, excluded, misplaced or without date at every position; missing files; all positions; every month, changes of day and month, days that do not exist, years before and after 1985',
  'The programs have no tests at all; a value kept from the record or day before shows only in the next report.',
  ['marine_qc.py', 'marine_qc_hires.py', 'marine_qc_track_only.py', 'Extended_IMMA.py', 'BackgroundField.py', 'qc.py'], [('main', 'marine_qc.py'), ('main', 'marine_qc_hires.py'), ('main', 'marine_qc_track_only.py'), ('ClimatologyLibrary, MarineReport', 'Extended_IMMA.py'), ('process_bad_id_file', 'BackgroundField.py'), ('yesterday, season, last_month_was, next_month_is, year_month_gen', 'qc.py')])

P('P17', 'A climatology gives the value of the box and period of a report, or none',
  'A climatology read from a file holds every value in the box of its latitude and longitude, whichever way round the file has its latitudes, longitudes from 180 West or Greenwich, axes and an extra level axis, and is refused unless it has 1, 73 or 365 periods; without a file every value is missing. '
  'Looking up a place and date returns the value of the box of the place and the only field, the five-day period or the day of the year of the date, and none for an empty box or a date that is missing or does not exist (29 February exists). '
  'Interpolation fills missing corners from their neighbours, the opposite corner last, and weights the four corners around a place linearly by distance.',
  'all places and dates, all cells of files of one, five and (thorough) quarter degrees in every arrangement; all corner values and patterns of missing corners',
  'Tests need climatology files of another machine and fail here; only whole fields of one arrangement were ever looked at.',
  ['Climatology.py', 'qc.py'], [('Climatology.from_filename, get_tindex', 'Climatology.py'), ('Climatology.get_value, get_value_mds_style, get_value_ostia', 'Climatology.py'), ('fill_missing_vals, bilinear_interp, get_four_surrounding_points', 'qc.py')])

P('P36', 'Gridded look-ups and interpolation use the boxes at and around the place',
  'Reading a sea-surface temperature field (one or 73 five-day fields of 1 degree, daily fields, quarter-degree daily fields whose -999 means none, or a single field) returns the value of the box of the latitude and longitude and of the period of the date, none for an empty box, and raises an error for a latitude beyond the poles or a month and day that do not exist; the look-ups by report give none instead of the error. '
  'Interpolating a climatology gives none when none of the four boxes at 0.001 degrees from the place has a value, and otherwise the bilinear interpolation between the centres of the four surrounding boxes, their missing values filled from the others.',
  'all latitudes and longitudes (-180 to 360), all dates present, missing or not existing, all patterns of empty boxes',
  'Tests look up a few places in constant fields; a swapped index or corner shows only where neighbouring boxes differ or are empty.',
  ['qc.py', 'Climatology.py'], [('get_sst, get_sst_single_field, get_sst_daily, get_hires_sst', 'qc.py'), ('get_clim, get_hires_clim, get_clim_interpolated', 'qc.py'), ('Climatology.get_interpolated_value', 'Climatology.py')])

P('P40', 'Short-format records are read field by field, unreadable numbers as missing',
  'Reading a line of the short IMMA format sets all its quantities from their own columns (YR 4, MO 2, DY 2, HR 4, LAT 5, LON 6, DS 1, VS 1, ID 9, AT 4, SST 4, DPT 4, DCK 3, SID 3, PT 2, UID 6), hours and degrees in hundredths and temperatures in tenths, and a number that is blank, cut off or unreadable is missing, whatever was read before; the list format takes ID, UID, LAT, LON, YR, MO, DY, HR from its first eight values and SST from the twelfth, -32768 standing for a missing hour or SST, with deck 999. '
  'Reading a near-real-time line (identifier, unused, ISO date, latitude, longitude, SST) sets those quantities, the UID "NRT" followed by identifier and date, the hour with minutes as its fraction, deck and source 9999, platform type 7 and no other observation; latitude is capped at 200, longitude at 400, and SST nan is missing.',
  'all numbers, decimal fractions, blanks and unreadable texts in each field of a line, lines cut anywhere',
  'No test reads damaged or cut lines, or a line after another one with the same object.',
  ['SimpleIMMA.py', 'TestIMMA.py', 'NRT.py'], [('IMMA.readstr, trint, trfloat', 'SimpleIMMA.py'), ('IMMA.readstr', 'TestIMMA.py'), ('NRT.readstr', 'NRT.py')])

P('P41', "The sun's position follows its formula for every date, on both hemispheres",
  'The elevation, declination, right ascension, hour angle and local sidereal time of the sun are those of the documented formula (elliptical orbit, obliquity changing slowly) for the time since 1980, every fourth year counting 366 days also before 1980, with time zone hours added and daylight saving subtracted. '
  'The azimuth is measured in degrees east of north for latitudes of both hemispheres. Days outside 1 to 366, hours, minutes and seconds outside their ranges and latitudes beyond the poles are refused.',
  'all years, days, times, zones and places',
  'Tests look at four moments after 1990 and allow some degrees; the day count of earlier years and the azimuth were never checked, and were wrong.',
  ['qc.py'], [('sunangle', 'qc.py')])

P('P42', 'A report prints as a line with every value and flag in its fixed column',
  'The short and the long form of a report hold its identifier (blank when missing) in nine columns and its UID in eight after a blank, then, right-aligned in eight columns each and rounded to whole units, latitude and longitude (-180 to 180) in hundredths, year, month, day, hour in hundredths, air and sea temperature in tenths and their anomalies in hundredths, in the long form also pressure, dew point and the five humidity variables likewise with anomalies, then course and speed code as DS times 100 plus VS, deck and platform type. '
  'A missing value is -32768 and a missing course or speed code 9999; halves are rounded away from zero. '
  'The single digits of the quality flags follow in blocks separated by blanks, 9 for a flag never set and for the spare places.',
  'all values, positions and flags; each quantity missing alone, present alone, with all others or not at all; identifiers and UIDs of all lengths',
  'No test reads the lines: a flag in the place of another or a wrong scale goes unnoticed.',
  ['Extended_IMMA.py'], [('MarineReport.print_report, print_longform_report', 'Extended_IMMA.py'), ('printvar, pvar', 'Extended_IMMA.py')])
