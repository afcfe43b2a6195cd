"""Abstract inputs for the buddy checks: observations in boxes picked from a short list, unknown anomalies."""
import math
from .equiv import *
from .models import *
from .interp import PI
from . import report as R


def const_trig(name):
    """trigonometric function of a constant, folded"""
    def h(run, args, kw):
        x = run.tonum(args[0])
        v = Fr(0)
        for mono, c in run.subst_points(x.p).t.items():
            for a, e in mono:
                if patom(a).key != PI.p.key:
                    raise Unsupported('trigonometric function of an unknown here')
                c = c * Fr(math.pi) ** e
            v += c
        return Num(pconst(Fr(getattr(math, name)(float(v)))))
    return h


def config():
    cfg = Config()
    for n in ('math.cos', 'np.cos'):
        cfg.models[n] = const_trig('cos')
    for n in ('math.sin', 'np.sin'):
        cfg.models[n] = const_trig('sin')
    cfg.max_steps = 4000000
    cfg.loop_cap = 20000
    return cfg


def midday(p):
    """a month and day inside five-day period p (0-72)"""
    n = 5 * p + 3
    for i, k in enumerate([31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]):
        if n <= k:
            return i + 1, n
        n -= k


def centre(b):
    m, d = midday(b[2])
    return (Num(pconst(Fr(179 - 2 * b[1], 2))), Num(pconst(Fr(2 * b[0] - 359, 2))), m, d)


def pick(name, boxes):
    """(lat, lon, month, day) of a box picked from a list: four values that belong together"""
    which = Lazy(name, list(range(len(boxes))))

    def part(j):
        return Lazy('%s.%d' % (name, j), [lambda run: centre(boxes[run.force(which)])[j]])
    return tuple(part(j) for j in range(4))


def field(name, any_=True):
    """a climatology field: an unknown or (any_) missing value for every place and date"""
    o = AObj(None, name=name)

    def look(style):
        def h(run, args, kw):
            if kw or len(args) != 4:
                raise Unsupported('climatology lookup arguments')
            key = '%s.%s(%s)' % (name, style, ','.join(num(run.force(a)).p.key for a in args))
            return Lazy(key, [sym(key), None]) if any_ else sym(key, lo=0, lo_open=True)
        return PyFn('climatology ' + style, h)
    for s in ('get_value', 'get_value_mds_style', 'get_value_ostia'):
        o.attrs[s] = look(s)
    return o


def grid(run, obs):
    g = run.call(R.cls(run, 'Np_Super_Ob'), [])
    for lat, lon, m, d, a in obs:
        run.call_method(g, 'add_rep', [lat, lon, 2000, m, d, a])
    run.call_method(g, 'take_average', [])
    return g


def read_limits(run, g, obs):
    return AList([tuple(run.call_method(g, f, [lat, lon, m, d]) for f in ('get_buddy_mean', 'get_buddy_stdev'))
                  for lat, lon, m, d, a in obs])
