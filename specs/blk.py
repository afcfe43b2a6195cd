# Reference definitions: black lists, generic identifiers, platform classes.
# Written from the description in the documentation: deck 732 regions by year (Rayner et al. 2006).

BOX = [None,
       (-175, -170, 40, 55), (-165, -160, 40, 60), (-145, -140, 40, 50), (-140, -135, 30, 40),
       (-140, -130, 50, 55), (-70, -60, 35, 40), (-50, -40, 45, 50), (5, 10, 70, 80),
       (0, 10, -10, 0), (-30, -25, -25, -20), (-60, -55, -50, -45), (75, 80, -20, -15),
       (50, 60, -30, -20), (30, 40, -40, -30), (20, 25, 60, 65), (0, 10, -40, -30), (-135, -130, 30, 40)]

YEARS = [(1958, [1, 2, 3, 4, 5, 6, 14, 15]), (1959, [1, 2, 3, 4, 5, 6, 14, 15]),
         (1960, [1, 2, 3, 5, 6, 9, 14, 15]), (1961, [1, 2, 3, 5, 6, 14, 15, 16]),
         (1962, [1, 2, 3, 5, 12, 13, 14, 15, 16]), (1963, [1, 2, 3, 5, 6, 12, 13, 14, 15, 16]),
         (1964, [1, 2, 3, 5, 6, 12, 13, 14, 16]), (1965, [1, 2, 6, 10, 12, 13, 14, 15, 16]),
         (1966, [1, 2, 6, 9, 14, 15, 16]), (1967, [1, 2, 5, 6, 9, 14, 15]),
         (1968, [1, 2, 3, 5, 6, 9, 14, 15]), (1969, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 14, 15, 16]),
         (1970, [1, 2, 3, 4, 5, 6, 8, 9, 14, 15]), (1971, [1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 14, 16]),
         (1972, [4, 7, 8, 9, 10, 11, 13, 16, 17]), (1973, [4, 7, 8, 10, 11, 13, 16, 17]),
         (1974, [4, 7, 8, 10, 11, 16, 17])]

DRIFTERS = ['53521', '53522', '53566', '53567', '53568', '53571', '53578', '53580', '53582', '53591', '53592',
            '53593', '53594', '53595', '53596', '53599', '53600', '53601', '53602', '53603', '53604', '53605',
            '53606', '53607', '53608', '53609', '53901', '53902']


def blacklist(ident, deck, year, month, lat, lon, pt):
    if deck == 874 or pt == 13 or ident == 'SUPERIGORINA':
        return 1
    if lon > 180:
        lon = lon - 360
    if lat == 0 and lon == 0:
        return 1
    if deck == 732:
        for y, boxes in YEARS:
            if year == y:
                for k in boxes:
                    w, e, s, n = BOX[k]
                    if lon >= w and lon <= e and lat >= s and lat <= n:
                        return 1
    if (year == 2005 and (month == 11 or month == 12)) or (year == 2006 and month == 1):
        for d in DRIFTERS:
            if ident == d + '    ':
                return 1
    return 0


def blacklist_default(ident, deck, year, month, lat, lon):
    return blacklist(ident, deck, year, month, lat, lon, 1)


ALWAYS = ['1', '58', 'RIGG', '     RIGG', 'SHIP', 'ship', '     SHIP', 'PLAT', '     PLAT', '', '0120', '0204',
          '0205', '0206', '0207', '0208', '0209', 'MASKST', 'MASKSTID', 'MASK', 'XXXX', '/////']


def generic(ident, year):
    if ident is None:
        return True
    for g in ALWAYS:
        if ident == (g + '         ')[0:9]:
            return True
    if year >= 1921 and year <= 1941 and (ident == '2        ' or ident == '00002    '):
        return True
    if year >= 1930 and year <= 1937 and ident == '3        ':
        return True
    if year >= 1934 and year <= 1954 and (ident == '7        ' or ident == '00007    '):
        return True
    return False


def isin(x, xs):
    for y in xs:
        if x == y:
            return 1
    return 0


def ship(pt):
    return isin(pt, [0, 1, 2, 3, 4, 5, 10, 11, 12, 17])


def humidity(pt):
    return 1 - isin(pt, [0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 15])


def mat(pt, deck, year, lat, lon):
    if pt == 5 and deck == 780:
        return 1
    if lon > 180:
        lon = lon - 360
    if deck == 193 and year >= 1880 and year <= 1892:
        for w, e, s, n in [(-80, 0, 40, 55), (-10, 30, 35, 45), (15, 45, -10, 40), (15, 95, -10, 15), (95, 105, -10, 5)]:
            if lon >= w and lon <= e and lat >= s and lat <= n:
                return 1
    return 0
