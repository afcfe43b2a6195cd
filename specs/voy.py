# Reference definitions: speed, course and distance along a voyage.  A point is (lat, lon, date-and-hour tuple)
import spherical_geometry as sph
import qc


def between(p, q):
    """from p to q: speed, course, distance, hours"""
    d = sph.sphere_distance(p[0], p[1], q[0], q[1])
    t = qc.time_difference(p[2][0], p[2][1], p[2][2], p[2][3], q[2][0], q[2][1], q[2][2], q[2][3])
    c = sph.course_between_points(p[0], p[1], q[0], q[1])
    if t is None or t == 0:
        return d, c, d, 0.0
    return d / t, c, d, t


def west(lon):
    if lon > 180:
        return lon - 360
    return lon


def difference(p, q):
    s, c, d, t = between((q[0], west(q[1]), q[2]), (p[0], west(p[1]), p[2]))
    return s, d, c, t


def steps(pts):
    out = []
    for i in range(len(pts)):
        if i == 0:
            out.append((None, None, None, None))
        else:
            out.append(between(pts[i - 1], pts[i]))
    return out


def sorted_steps(pts, times):
    order = []
    for k in range(len(pts)):
        p = 0
        for j in range(len(order)):
            if times[k] >= times[order[j]]:
                p = j + 1
        order.insert(p, k)
    s = [pts[k] for k in order]
    return order, steps(s)


def alternate(pts):
    out = []
    for i in range(len(pts)):
        if i == 0 or i == len(pts) - 1:
            out.append((None, None, None, None))
        else:
            out.append(between(pts[i - 1], pts[i + 1]))
    return out


def mean_speed(pts):
    if len(pts) < 2:
        return None
    t = 0
    for s in steps(pts)[1:]:
        t = t + s[0]
    return t / (len(pts) - 1)


def predict(pts, ahead):
    if ahead < 0 or len(pts) == 0:
        raise ValueError('prediction')
    last = pts[len(pts) - 1]
    if len(pts) == 1:
        return last[0], last[1]
    prev = pts[len(pts) - 2]
    s, c, d, t = between(prev, last)
    if abs(t) < 0.00001:
        return last[0], last[1]
    return sph.lat_lon_from_course_and_distance(prev[0], prev[1], c, s * (t + ahead))
