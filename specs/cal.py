# Reference definitions: calendar helpers
import calendar


def mlen(y, m):
    if m == 2:
        if calendar.isleap(y):
            return 29
        return 28
    if m == 4 or m == 6 or m == 9 or m == 11:
        return 30
    return 31


def month_lengths(y):
    return [mlen(y, i) for i in range(1, 13)]


def month_match(y1, m1, y2, m2):
    if y1 == y2 and m1 == m2:
        return 1
    return 0


def yesterday(y, m, d):
    if y is None or m is None or d is None:
        return None, None, None
    if y < 1 or y > 9999 or m < 1 or m > 12 or d < 1 or d > mlen(y, m):
        return None, None, None
    if d > 1:
        return y, m, d - 1
    if m > 1:
        return y, m - 1, mlen(y, m - 1)
    if y == 1:
        return None, None, None
    return y - 1, 12, 31


def season(m):
    if m < 1 or m > 12:
        return None
    if m == 12 or m <= 2:
        return 'DJF'
    if m <= 5:
        return 'MAM'
    if m <= 8:
        return 'JJA'
    return 'SON'


CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
LONG = [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def noleap_day(m, d):
    """day 1-365 of a 365-day year, 29 February counting as 1 March"""
    if m < 1 or m > 12:
        raise ValueError('month')
    if d < 1 or d > LONG[m - 1]:
        raise ValueError('day')
    if m == 2 and d == 29:
        return 60
    return CUM[m - 1] + d


def pentad(m, d):
    n = noleap_day(m, d)
    return 1 + (n - 1) // 5


def first_day_of_pentad(p):
    if p < 1 or p > 73:
        raise ValueError('pentad')
    n = 5 * (p - 1) + 1
    m = 12
    while CUM[m - 1] >= n:
        m = m - 1
    return m, n - CUM[m - 1]


def same_pentad(p):
    if p < 1 or p > 73:
        raise ValueError('pentad')
    return p


def day_of_year(y, m, d):
    if m < 1 or m > 12 or d < 1 or d > mlen(y, m):
        raise ValueError('date')
    n = d
    for i in range(1, m):
        n = n + mlen(y, i)
    return n


def month_before(y, m):
    if m == 1:
        return y - 1, 12
    return y, m - 1


def month_after(y, m):
    if m == 12:
        return y + 1, 1
    return y, m + 1


def months(y1, m1, y2, m2):
    if y2 < y1 or m1 < 1 or m1 > 12 or m2 < 1 or m2 > 12 or (y1 == y2 and m2 < m1):
        raise ValueError('no such interval')
    out = []
    for k in range(0, 12 * (y2 - y1) + m2 - m1 + 1):
        n = m1 - 1 + k
        out.append((y1 + n // 12, 1 + n % 12))
    return out


def julian(y, m, d):
    """days: consecutive calendar dates differ by one.  Reference formula written from the
    definition of the proleptic Gregorian calendar."""
    if m < 1 or m > 12 or d < 1 or d > 31:
        raise ValueError('date')
    if m <= 2:
        yy = y - 1
        mm = m + 12
    else:
        yy = y
        mm = m
    # days before month mm counting from 1 March: 0 31 61 92 122 153 184 214 245 275 306 337
    before = [0, 31, 61, 92, 122, 153, 184, 214, 245, 275, 306, 337][mm - 3]
    return d + before + 365 * yy + yy // 4 - yy // 100 + yy // 400 + 1721119


def hours_between(y1, m1, d1, h1, y2, m2, d2, h2):
    if h1 is None or h2 is None:
        return None
    if h1 < 0 or h1 >= 24 or h2 < 0 or h2 >= 24:
        raise ValueError('hour')
    return 24 * (julian(y2, m2, d2) - julian(y1, m1, d1)) + h2 - h1
