# Reference definition: the tracking QC of one drifter
import out

PLACED = [('POS', 'isbuoy', 1), ('POS', 'date', 0), ('POS', 'time', 0), ('POS', 'pos', 0), ('POS', 'blklst', 0)]
SOUND = PLACED + [('SST', 'clim', 0), ('SST', 'nonorm', 0), ('SST', 'freez', 0), ('SST', 'noval', 0), ('SST', 'rep', 0),
                  ('SST', 'hardlimit', 0), ('POS', 'drf_agr', 0), ('POS', 'drf_spd', 0)]
WHOLE = SOUND + [('SST', 'drf_tail1', 0), ('SST', 'drf_tail2', 0)]


def passing(reps, wanted, buddy):
    good = []
    for r in reps:
        ok = True
        for t, n, v in wanted:
            if r[1].get(t + n, 9) != v:
                ok = False
                break
        if ok and buddy and r[1].get('SSTbbud', 9) >= 4:
            ok = False
        if ok:
            good.append(r)
    return good


def when(r):
    v = r[0]
    return v['YR'], v['MO'], v['DY'], v['HR']


def in_order(reps):
    done = []
    for r in reps:
        k = len(done)
        while k > 0 and when(done[k - 1]) > when(r):
            k = k - 1
        done.insert(k, r)
    return done


def step(calls, reps, wanted, buddy, name, parameters, flags):
    good = passing(reps, wanted, buddy)
    if len(good) == 0:
        return
    calls.append((name, parameters, [r[0]['UID'] for r in good]))
    for r in good:
        for f in flags:
            r[1][f] = result(f, r[0]['UID'])


def result(f, uid):
    return 0            # given by the check


def track(months, name, run, where, year, month, edges, tag):
    reps = []
    for m in months:
        for r in m:
            reps.append(r)
    if len(reps) == 0:
        return 'refused'
    reps = in_order(reps)
    calls = []
    step(calls, reps, PLACED, False, 'aground', ['aground parameters'], ['POSdrf_agr'])
    step(calls, reps, PLACED, False, 'speed', ['iquam parameters', 'speed parameters'], ['POSdrf_spd'])
    step(calls, reps, SOUND, True, 'tail', ['tail parameters'], ['SSTdrf_tail1', 'SSTdrf_tail2'])
    step(calls, reps, WHOLE, True, 'bias and noise', ['bias parameters'], ['SSTdrf_bias', 'SSTdrf_noise', 'SSTdrf_short'])
    base = where + '/TrackingQC/' + str(year) + '/' + '{:02}'.format(month)
    files = []
    if 'new' in edges or 'regular' in edges:
        files = files + out.tracking_file(reps, run, base, year, month)
    if 'start_edge_case' in edges:
        files = files + out.tracking_file(reps, run, base + '/start_edge_case_' + tag, year, month)
    if 'end_edge_case' in edges:
        files = files + out.tracking_file(reps, run, base + '/end_edge_case_' + tag, year, month)
    return calls, files
