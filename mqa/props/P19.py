"""The functions of the sphere are interpreted for all coordinates (present or missing), courses, distances and
fractions and compared with their reference definitions; that the distance is the same both ways and zero between
equal points is derived from the interpreted formula with the identity cos^2 = 1 - sin^2."""
from ..equiv import *
from ..report import none_for_nan
from ..domain import Poly


def place(i, miss=True):
    f = (lambda n, **k: Lazy(n, [None, NAN, sym(n, **k)])) if miss else real
    return [f('lat%d' % i, lo=-90, hi=90), f('lon%d' % i, lo=-180, hi=360)]


def tidy(p):
    """cos^2 of anything replaced by 1 - sin^2"""
    while True:
        for m, c in p.t.items():
            hit = [(a, e) for a, e in m if a.kind == 'fn' and a.name == 'cos' and e >= 2]
            if hit:
                a, e = hit[0]
                s = [b for n, k in p.t.items() for b, _ in n if b.kind == 'fn' and b.name == 'sin' and b.args == a.args]
                sin = s[0] if s else atom('fn', 'sin', a.args, lo=Fr(-1), hi=Fr(1))
                rest = Poly({tuple((b, k) if b is not a else (b, k - 2) for b, k in m if b is not a or k > 2): c})
                q = padd(pconst(1), pmul(patom(sin), patom(sin)), -1)
                p = padd(padd(p, Poly({m: c}), -1), pmul(rest, q))
                break
        else:
            return p


def parts(run, v):
    """radius, and the squares of the two arguments of the arc tangent"""
    v = run.force(v)
    if isinstance(v, (int,)) or v.p.const() == 0:
        return None
    (m, c), = v.p.t.items()
    at = [a for a, e in m if a.kind == 'fn' and a.name == 'atan2']
    y, x = at[0].args
    return c, tidy(pmul(num(y).p, num(y).p)), tidy(num(x).p)


def check(c):
    c.batch()
    two = lambda *more: dict(spec_mk=lambda r: [none_for_nan(x) for x in place(1) + place(2)] + [real(x) for x in more])
    c.equiv('spherical_geometry.sphere_distance', 'geo.distance', lambda r: place(1) + place(2), **two())
    c.equiv('spherical_geometry.angular_distance', 'geo.angle', lambda r: place(1) + place(2), **two())
    c.equiv('spherical_geometry.lat_lon_from_course_and_distance', 'geo.reached', lambda r: place(1, False) + [real('course'), real('d', lo=0)])
    c.equiv('spherical_geometry.course_between_points', 'geo.course', lambda r: place(1) + place(2), **two())
    c.equiv('spherical_geometry.intermediate_point', 'geo.between', lambda r: place(1) + place(2) + [real('f')], **two('f'))

    def both(run, a, k, meridian=False):
        p, q = place(1, False), place(2, False)
        if meridian:
            q[1] = p[1]
        else:
            run.constrain(padd(p[1].p, q[1].p, -1), '!=')
        there = parts(run, run.call(lookup(run, 'spherical_geometry.sphere_distance'), p + q))
        back = parts(run, run.call(lookup(run, 'spherical_geometry.sphere_distance'), q + p))
        return (there[0] == back[0], tidy(padd(there[1], back[1], -1)).const() == 0, tidy(padd(there[2], back[2], -1)).const() == 0)

    def law(run, a, k):
        """sine squared and cosine of the angle belong together, and the cosine is the one of the law of cosines"""
        c_, y2, x = parts(run, run.call(lookup(run, 'spherical_geometry.sphere_distance'), place(1, False) + place(2, False)))
        return tidy(padd(padd(y2, pmul(x, x)), pconst(-1))).const() == 0

    def same(run, a, k):
        p = parts(run, run.call(lookup(run, 'spherical_geometry.sphere_distance'), place(1, False) + place(1, False)))
        return p is None or p[1].const() == 0
    for name, f, want in (('the same distance both ways', both, (True, True, True)),
                          ('the same distance both ways on a meridian', lambda run, a, k: both(run, a, k, True), (True, True, True)), ('sine and cosine of one angle', law, True),
                          ('no distance between equal points', same, True)):
        cfg = Config()
        cfg.overrides['spec_any.anything'] = lambda run, a, k, want=want: want
        c.equiv('spherical_geometry.sphere_distance', 'any.anything', lambda r: [], cfg=cfg, call=f, spec_mk=lambda r: [], name=name)
    c.flush()
    c.need(len(c.instances), 8, 'instances')
