# Reference definitions: months with data, and the chunks of a drifter's record


def chunks(months, data, gap):
    out = []
    last = None
    for i in range(len(months)):
        if data[i]:
            if last is None or i - last - 1 >= gap:
                out.append([i, i])
            else:
                out[-1][1] = i
            last = i
    return out


def classes(n, first, last, gap):
    after = n - 1 - last            # months of the series after the chunk
    c = []
    if first < gap:
        c.append('start_edge_case')
    if after < gap:
        c.append('end_edge_case')
    if after == gap:
        c.append('new')
    if first >= gap and after >= gap:
        c.append('regular')
    return c


def dates(months, data, gap):
    out = []
    for first, last in chunks(months, data, gap):
        y1, m1 = months[first]
        y2, m2 = months[last]
        out.append((y1, m1, y2, m2, classes(len(months), first, last, gap)))
    return out


def submitted(edge, cl):
    if edge == 'all':
        return True
    if edge == 'standard':
        return 'regular' in cl
    if edge == 'new':
        return 'new' in cl
    return 'end_edge_case' not in cl


def jobs(months, ids, gap, edge):
    out = []
    for name, data in ids:
        for y1, m1, y2, m2, cl in dates(months, data, gap):
            if submitted(edge, cl):
                out.append((name, y1, m1, y2, m2, cl))
    return out
