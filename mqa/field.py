"""Gridded fields of known shape whose cells are told apart by where they lie, with the array operations that move them."""
from .equiv import *
from .interp import Val, ExtV, SliceV
from .models import FArr

FULL = SliceV(None, None, None)


class Masked(Val):
    def vkey(self):
        return 'masked'

    def vsyms(self):
        return frozenset()

    def typeop(self, run):
        return ExtV('np.ma.core.MaskedConstant')

    def getattrop(self, run, name):
        if name == 'mask':
            return True


class Grid(Val):
    def __init__(self, shape, cell, name='field'):
        self.shape, self.cell, self.name = tuple(shape), cell, name

    def vkey(self):
        return '%s%s' % (self.name, self.shape)

    def vsyms(self):
        return frozenset()

    def getattrop(self, run, name):
        if name == 'shape':
            return tuple(self.shape)
        if name == 'ndim':
            return len(self.shape)
        if name == 'size':
            n = 1
            for x in self.shape:
                n *= x
            return n

    def lenop(self, run):
        return self.shape[0]

    def getitemop(self, run, i):
        idx = list(i) if isinstance(i, tuple) else [i]
        if len(idx) > len(self.shape):
            raise PyExc('IndexError', 'too many indices')
        idx += [FULL] * (len(self.shape) - len(idx))
        keep, axes = [], []
        for ax, x in enumerate(idx):
            n = self.shape[ax]
            if isinstance(x, SliceV):
                a, b, s = [None if y is None else run.concretize(y, 'slice') for y in (x.a, x.b, x.c)]
                r = range(n)[a:b:s]
                axes.append(lambda k, r=r: r[k])
                keep.append((ax, len(r)))
            else:
                x = run.force(x)
                if not isinstance(x, (int, Num)) or isinstance(x, Num) and not x.isint:
                    raise PyExc('IndexError', 'index')
                if isinstance(x, int) and not -n <= x < n:
                    raise PyExc('IndexError', 'index beyond axis')
                if isinstance(x, int) and x < 0:
                    x += n
                axes.append(x)
        if not keep:
            return self.cell(run, tuple(axes))

        def cell(run, sub):
            full = list(axes)
            for (ax, _), k in zip(keep, sub):
                full[ax] = axes[ax](k) if isinstance(k, int) else k
            return self.cell(run, tuple(full))
        return Grid([n for _, n in keep], cell, self.name)

    def methop(self, run, name, a, k):
        if name == 'transpose':
            p = [run.concretize(x) for x in (run.iterate(a[0]) if len(a) == 1 else a)]
            return transposed(self, p or list(range(len(self.shape)))[::-1])
        if name in ('copy', 'squeeze') and (name == 'copy' or 1 not in self.shape):
            return self
        return NotImplemented


def transposed(g, p):
    def cell(run, idx):
        old = [None] * len(p)
        for new, ax in enumerate(p):
            old[ax] = idx[new]
        return g.cell(run, tuple(old))
    return Grid([g.shape[ax] for ax in p], cell, g.name)


def flipped(run, a, k):
    g = run.force(a[0])
    ax = run.concretize(a[1] if len(a) > 1 else k['axis'])
    n = g.shape[ax]

    def cell(run, idx):
        j = list(idx)
        j[ax] = n - 1 - j[ax]
        return g.cell(run, tuple(j))
    return Grid(g.shape, cell, g.name)


def rolled(run, a, k):
    g = run.force(a[0])
    by = run.concretize(a[1] if len(a) > 1 else k['shift'])
    ax = run.concretize(a[2] if len(a) > 2 else k['axis'])
    n = g.shape[ax]

    def cell(run, idx):
        j = list(idx)
        j[ax] = (j[ax] - by) % n
        return g.cell(run, tuple(j))
    return Grid(g.shape, cell, g.name)


def install(cfg):
    old_zeros = None
    from . import models

    def zeros(run, a, k):
        sh = run.force(a[0])
        dims = [run.concretize(x) for x in (run.iterate(sh) if isinstance(sh, (tuple, AList)) else [sh])]
        n = 1
        for d in dims:
            n *= d
        if n <= 2000 or len(dims) < 3:
            return models.npzeros(run, a, k)
        return Grid(dims, lambda run, idx: 0, 'zeros')

    def ma_array(run, a, k):
        g = run.force(a[0])
        m = run.force(k.get('mask', False))
        if isinstance(g, Grid) and m is True:
            return Grid(g.shape, lambda run, idx: Masked(), 'masked')
        if isinstance(g, Grid) and m is False:
            return g
        return models.nparray(run, a, k)

    def tp(run, a, k):
        v = run.force(a[0])
        if isinstance(v, Num) and is_cell(v):
            return ExtV('np.float32' if is_cell(v, 'f32') else 'np.float64')
        return models.f_type(run, a, k)

    def masked_all(run, a, k):
        sh = run.force(a[0])
        return Grid([run.concretize(x) for x in run.iterate(sh)], lambda run, idx: Masked(), 'masked')

    for n in ('np.zeros', 'np.ones', 'np.empty'):
        cfg.models[n] = zeros
    cfg.models['np.ma.array'] = cfg.models['np.ma.masked_array'] = cfg.models['np.ma.MaskedArray'] = ma_array
    cfg.models['np.ma.masked_all'] = masked_all
    cfg.models['np.flip'] = flipped
    cfg.models['np.flipud'] = lambda run, a, k: flipped(run, [a[0], 0], {})
    cfg.models['np.roll'] = rolled
    cfg.models['np.transpose'] = lambda run, a, k: transposed(run.force(a[0]), [run.concretize(x) for x in run.iterate(a[1])] if len(a) > 1 else list(range(len(a[0].shape)))[::-1])
    cfg.models['np.swapaxes'] = lambda run, a, k: swap(run, a)
    cfg.models['builtins.type'] = tp

    def isinst(run, a, k):
        v = run.force(a[0])
        if isinstance(v, Num) and is_cell(v):
            own = ['np.float32'] if is_cell(v, 'f32') else ['np.float64', 'builtins.float']
            ts = a[1] if isinstance(a[1], tuple) else (a[1],)
            return any(getattr(run.force(t), 'name', '') in own + ['np.floating', 'np.number', 'np.generic'] for t in ts)
        return models.f_isinstance(run, a, k)
    cfg.models['builtins.isinstance'] = isinst
    cfg.models['np.ma.is_masked'] = lambda run, a, k: isinstance(run.force(a[0]), Masked)
    return cfg


def swap(run, a):
    g = run.force(a[0])
    p = list(range(len(g.shape)))
    i, j = run.concretize(a[1]), run.concretize(a[2])
    p[i], p[j] = p[j], p[i]
    return transposed(g, p)


def is_cell(v, what=''):
    """a value of a field (of the given name: f32 holds single precision values)"""
    return any(x.kind == 'fn' and x.name.startswith('cell' + (':' + what if what else '')) for m in v.p.t for x, _ in m)


def cells(name):
    """cells hold unknown values or nothing"""
    def cell(run, idx):
        v = fnatom('cell:' + name, tuple(norm_idx(run, x) for x in idx))
        return Lazy('masked? ' + vkey(v), [v, Masked()])
    return cell


def norm_idx(run, x):
    x = run.force(x)
    if isinstance(x, Num):
        return norm(Num(run.subst_points(x.p), x.isint))
    return x
