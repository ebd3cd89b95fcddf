"""Independent oracles and helpers shared by the obligations.

All of them work on symbolic and on float data."""
from __future__ import annotations
import itertools
import numpy as np
from symx.harness import Ob


def dot(a, b):
    r = 0
    for x, y in zip(np.reshape(a, -1), np.reshape(b, -1)):
        r = r + x * y
    return r


def total(a):
    r = 0
    for x in np.reshape(a, -1):
        r = r + x
    return r


def absv(x):
    return x if x >= 0 else -x


def maxv(xs):
    xs = list(xs)
    m = xs[0]
    for x in xs[1:]:
        if x > m:
            m = x
    return m


def sq(x):
    return dot(x, x)


def sqrtv(x):
    return np.sqrt(x)


def l2(x):
    return np.sqrt(sq(x))


# ---- norms: value, domain (list of expressions that must be <= 0)

class Norm(object):
    def __init__(self, name, val, dom, dual, dual_le):
        self.name = name
        self.val = val
        self.dom = dom
        self.dual = dual            # name of the gauge of the polar set
        self.le = dual_le           # le(x, c): expressions <=0 iff val(x)<=c and dom


def _l1(x):
    return total([absv(v) for v in x])


def _sup(x):
    return maxv([absv(v) for v in x])


def _pos(x):
    return total([v if v > 0 else 0 * v for v in x])


def _maxpos(x):
    return maxv([0 * x[0]] + list(x))


NORMS = {
    'l1norm': Norm('l1norm', _l1, lambda x: [], 'supnorm', lambda x, c: [_l1(x) - c]),
    'supnorm': Norm('supnorm', _sup, lambda x: [], 'l1norm',
                    lambda x, c: [v - c for v in x] + [-v - c for v in x]),
    'l2norm': Norm('l2norm', l2, lambda x: [], 'l2norm', lambda x, c: [-c, sq(x) - c * c]),
    'positive_part': Norm('positive_part', _pos, lambda x: [], 'constrained_max',
                          lambda x, c: [_pos(x) - c]),
    'constrained_max': Norm('constrained_max', lambda x: maxv(x), lambda x: [-v for v in x],
                            'positive_part', lambda x, c: [v - c for v in x] + [-v for v in x]),
    'constrained_positive_part': Norm('constrained_positive_part', lambda x: total(x),
                                      lambda x: [-v for v in x], 'max_positive_part',
                                      lambda x, c: [total(x) - c] + [-v for v in x]),
    'max_positive_part': Norm('max_positive_part', _maxpos, lambda x: [], 'constrained_positive_part',
                              lambda x, c: [-c + 0 * x[0]] + [v - c for v in x]),
}


def le0(ctx, exprs, label, known=None):
    for i, e in enumerate(exprs):
        ctx.le(e, 0, '%s #%d' % (label, i), known)


def check_subgrad(ctx, norm, g, u, lam, label, known=None):
    """g in lam * d norm(u): g in lam*C, <g,u> = lam*norm(u), u in the domain"""
    N = NORMS[norm] if isinstance(norm, str) else norm
    D = NORMS[N.dual] if isinstance(N.dual, str) else N.dual
    le0(ctx, N.dom(u), label + ': minimiser in the domain', known)
    le0(ctx, D.le(g, lam), label + ': residual in the dual ball', known)
    ctx.eq(dot(g, u), lam * N.val(u), label + ': Fenchel equality', known)


def check_projection(ctx, norm, x, u, b, label, known=None):
    """u = projection of x on {norm <= b}"""
    N = NORMS[norm] if isinstance(norm, str) else norm
    D = NORMS[N.dual] if isinstance(N.dual, str) else N.dual
    le0(ctx, N.le(u, b), label + ': feasible', known)
    r = x - u
    le0(ctx, D.dom(r), label + ': residual in the polar domain', known)
    ctx.eq(dot(r, u), b * D.val(r), label + ': normal cone', known)


LEVELS = (3., -1.5, .25, 0., 3., 2., -3., -.5, 1.5, -1.)


def wide_point(ctx, n, free=True):
    """a long point with ties and zeros (longer ones have fewer distinct values); the middle coordinate is free"""
    vals = LEVELS if n <= 16 else LEVELS[:5]
    x = ctx.arr(np.array([vals[(7 * i) % len(vals)] for i in range(n)]))
    if free:
        x[n // 2] = ctx.real('t', lo=-8, hi=8)
    return x


class Wide(object):
    """the same obligation at a larger size: vectors and matrices are numeric with ties and zeros except one free
    entry of the named ones; levels stay symbolic unless fixed"""
    wide = True

    def __init__(self, ctx, free=('x',), fix=None, data=None, only=None):
        self.__dict__.update(_ctx=ctx, _free=tuple(free), _fix=fix or {}, _data=data or {}, _only=only)

    def __getattr__(self, k):
        return getattr(self._ctx, k)

    def real(self, name, **kw):
        if name in self._fix:
            return self._ctx.num(self._fix[name])
        return self._ctx.real(name, **kw)

    def vec(self, name, n, pos=False, nonneg=False, **kw):
        if self._only is not None and name not in self._only:
            return self._ctx.vec(name, n, pos=pos, nonneg=nonneg, **kw)
        if name in self._data:
            x = self._ctx.arr(np.array(self._data[name], float))
            assert len(x) == n
        else:
            vals = LEVELS if n <= 16 else LEVELS[:5]
            k = sum(map(ord, name)) if name != 'x' else 0
            v = np.array([vals[(7 * i + k) % len(vals)] for i in range(n)])
            x = self._ctx.arr(np.fabs(v) + .25 * pos if pos or nonneg else v)
        if name in self._free:
            x[n // 2] = self._ctx.real(name, lo=0 if pos or nonneg else -8, hi=8)
        return x

    def mat(self, name, r, c, **kw):
        return self.vec(name, r * c, **kw).reshape((r, c))


def wide(ctx, fn, free=('x',), fix=None, data=None, only=None, **kw):
    return fn(Wide(ctx, free, fix, data, only), **kw)


def snapshot(a):
    return np.array(a, copy=True, dtype=a.dtype) if not hasattr(a, 'flat') else a.copy()


def unchanged(ctx, a, b, label):
    ctx.eq(a, b, label)


def shares(a, b):
    return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and np.shares_memory(a, b)


def deriv(ctx, f, x, fx=None):
    """gradient of the scalar function f at x: exact symbolic differentiation of the value on the current path, central
    differences in replay"""
    x = np.asarray(x) if not isinstance(x, np.ndarray) else x
    out = ctx.zeros(x.shape)
    if ctx.symbolic:
        from symx import core
        v = core.S.of(f(x) if fx is None else fx)
        for i in np.ndindex(*x.shape):
            out[i] = core.diff(v, core.S.of(x[i]))
        return out
    h = 1e-4
    for i in np.ndindex(*x.shape):
        a, b = x.copy(), x.copy()
        a[i] += h
        b[i] -= h
        out[i] = (float(f(a)) - float(f(b))) / (2 * h)
    return out


# ---- a level or bound given in the call replaces the stored one

def override(ctx, make, shape, signature=False):
    """make(lagrange=..) / make(bound=..): a call with an explicit level on any
    instance equals the call on an instance built with that level"""
    shape = (shape,) if isinstance(shape, int) else shape
    n = int(np.prod(shape))
    x = ctx.arr(np.array([.7 * (-1) ** i * (1 + i) for i in range(n)]))
    x[n - 1] = ctx.real('t')
    x = x.reshape(shape)
    lam = ctx.real('lam', nonneg=True)
    count = 0
    for stored in ('lagrange', 'bound'):
        for call, fns in (('lagrange', ('seminorm', 'lagrange_prox')), ('bound', ('constraint', 'bound_prox'))):
            for fn in fns:
                try:
                    want = getattr(make(**{call: lam}), fn)(x)
                except (NotImplementedError, ValueError):   # documented as not available
                    continue
                a = make(**{stored: 3.})
                try:
                    got = getattr(a, fn)(x, **{call: lam})
                except TypeError:                           # takes no explicit level
                    continue
                tag = '%s(%s=..) with stored %s' % (fn, call, stored)
                if fn == 'constraint':
                    ctx.true((want == 0) == (got == 0), tag)
                else:
                    ctx.eq(got, want, tag)
                ctx.true(getattr(a, stored) == 3., 'stored %s kept' % stored)
                count += 1
    ctx.true(count >= 2, 'explicit levels are accepted')
