# Reference definitions: marine reports, voyages, decks (abstract data types)


def flag_store(before, ops, ask):
    d = {}
    for k in before:
        d[k] = before[k]
    for t, f, v in ops:
        if v != 0 and v != 1 and v != 2 and v != 3 and v != 4 and v != 5 and v != 6 and v != 7 and v != 8 and v != 9:
            raise ValueError('flag value')
        if t not in KNOWN:
            raise ValueError('flag type')
        d[t + f] = v
    key = ask[0] + ask[1]
    if key in d:
        return d[key], d
    return 9, d


KNOWN = ['YR', 'MO', 'DY', 'HR', 'LAT', 'LON', 'DS', 'VS', 'SLP', 'AT', 'AT2', 'SST', 'DCK', 'PT', 'SID', 'DPT', 'SHU', 'VAP',
         'CRH', 'CWB', 'DPD', 'W', 'WI', 'D', 'DI', 'WW', 'POS']


def passes(flags, filt):
    for t, f, v in filt:
        x = 9
        if t + f in flags:
            x = flags[t + f]
        if x != v:
            return 1
    return 0


def split(names, results):
    a = []
    b = []
    for n, r in zip(names, results):
        if r == 0:
            a.append(n)
        else:
            b.append(n)
    return a, b


def platforms(names, ids, results):
    """one group per identifier in order of first appearance, members passing the filter in order"""
    order = []
    groups = []
    for n, i, r in zip(names, ids, results):
        where = -1
        for k in range(len(order)):
            if order[k] == i:
                where = k
                break
        if where < 0:
            order.append(i)
            groups.append([])
            where = len(order) - 1
        if r == 0:
            groups[where].append(n)
    return groups


def sorted_by(names, ids, times):
    """stable order by identifier, then time"""
    out = []
    for k in range(len(names)):
        p = 0
        for j in range(len(out)):
            if later_or_same(ids[k], times[k], ids[out[j]], times[out[j]]):
                p = j + 1
        out.insert(p, k)
    return [names[k] for k in out]


def later_or_same(i1, t1, i2, t2):
    if i1 == i2:
        return t1 >= t2
    return i1 > i2


def compare(i1, t1, i2, t2, op):
    if op == 'eq':
        return i1 == i2 and t1 == t2
    if op == 'gt' or op == 'lt':
        a, b, c, d = i1, t1, i2, t2
        if op == 'lt':
            a, b, c, d = i2, t2, i1, t1
        if a > c:
            return True
        return a == c and b is not None and d is not None and b > d
    if i1 == i2:
        if op == 'ge':
            return t1 >= t2
        return t1 <= t2
    if op == 'ge':
        return i1 > i2
    return i1 < i2


def after_pop(gone, names, ids, results):
    return gone, platforms(names, ids, results)


def sorted_groups(names, ids, times, results):
    s = sorted_by(names, ids, times)
    pos = [index(names, x) for x in s]
    return s, platforms(s, [ids[k] for k in pos], results)


def sorted_names(names, ids, times):
    return sorted_by(names, ids, times), len(names)


def index(xs, x):
    for i in range(len(xs)):
        if xs[i] == x:
            return i
