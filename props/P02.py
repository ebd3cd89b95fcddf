"""bound-form proximal maps are exact projections onto the ball"""
from .common import *

BOUNDS = 'dimension 1..3 (quick), 1..4 (thorough), 12 and 120 with numeric data and one free coordinate; bound symbolic nonnegative real; data symbolic reals'


WIDE = (12, 120)


def bound_prox(ctx, name, n):
    import regreg.atoms.seminorms as S
    x = ctx.vec('x', n)
    x0 = x.copy()
    b = ctx.real('b', nonneg=True)
    a = getattr(S, name)((n,), bound=b)
    u = a.bound_prox(x)
    ctx.eq(x, x0, 'argument not modified')
    ctx.eq(np.asarray(u).shape[0], n, 'shape')
    check_projection(ctx, name, x, u, b, name)


def bound_prox_kw(ctx, name, n):
    import regreg.atoms.seminorms as S
    x = ctx.vec('x', n)
    b = ctx.real('b', nonneg=True)
    a = getattr(S, name)((n,), lagrange=0.7)
    u = a.bound_prox(x, bound=b)
    check_projection(ctx, name, x, u, b, name)


def bound_prox_wide(ctx, name, n):
    import regreg.atoms.seminorms as S
    x = wide_point(ctx, n)
    x0 = x.copy()
    b = ctx.real('b', nonneg=True, hi=256)
    a = getattr(S, name)((n,), bound=b)
    u = a.bound_prox(x)
    ctx.eq(x, x0, 'argument not modified')
    check_projection(ctx, name, x, u, b, name)


def obligations(tier):
    for name in NORMS:
        for n in WIDE:
            yield Ob('%s.bound_prox[n=%d]' % (name, n), bound_prox_wide, dict(name=name, n=n))
    ns = [1, 2, 3] if tier == 'quick' else [1, 2, 3, 4]
    for name in NORMS:
        for n in ns:
            yield Ob('%s.bound_prox[n=%d]' % (name, n), bound_prox, dict(name=name, n=n))
        yield Ob('%s.bound_prox(kw)[n=2]' % name, bound_prox_kw, dict(name=name, n=2))
