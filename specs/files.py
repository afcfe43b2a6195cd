# Reference definitions: names of input and background files, lists of bad identifiers


def filled(stub, year, month, day):
    return stub.replace('YYYY', '{:04}'.format(year)).replace('MMMM', '{:02}'.format(month)).replace('DDDD', '{:02}'.format(day))


def under(folder, name):
    if folder.endswith('/'):
        return folder + name
    return folder + '/' + name


def icoads(dirs, names, year, month):
    if year is None or month is None:
        return None
    if len(dirs) != len(names):
        raise AssertionError('lists')
    for d, n in zip(dirs, names):
        f = under(filled(d, year, month, 1), filled(n, year, month, 1))
        if is_file(f):
            return f
    return None


def background(dirs, names, year, month, day, scratch):
    """name of the file, and what has to be unpacked from where"""
    if year is None or month is None or day is None:
        return None, None, None
    if len(dirs) != len(names):
        raise AssertionError('lists')
    for d, n in zip(dirs, names):
        f = under(filled(d, year, month, day), filled(n, year, month, day))
        if filled_file(f + '.bz2'):
            to = under(scratch, filled(n, year, month, day))
            if is_file(to):
                return to, None, None
            return to, f + '.bz2', to
        if filled_file(f):
            return f, None, None
    return None, None, None


def is_file(f):
    return False        # given by the check


def filled_file(f):
    return False        # given by the check


def bad(lines):
    out = []
    for l in lines:
        l = l.rstrip()
        if l != '':
            if len(l) < 9:
                l = l + '         '[:9 - len(l)]
            out.append(l)
    return out


def release(top, year, month, version):
    y, m = str(year), '{:02}'.format(month)
    if version == '2.5':
        if 2008 <= year <= 2014:
            return top + '/R2.5.2.' + y + '.' + m + '.gz'
        return top + '/ICOADS.2.5.1/R2.5.1.' + y + '.' + m + '.gz'
    if version == '3.0':
        part = '3.0.0' if year < 2015 else '3.0.1'
        return top + '/ICOADS.' + part + '/IMMA1_R' + part + '_' + y + '-' + m + '.gz'
    raise AssertionError('release')
