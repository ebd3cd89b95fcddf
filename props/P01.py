"""lagrange-form proximal maps of the seminorm atoms are exact minimisers"""
from .common import *

BOUNDS = 'dimension 1..3 (quick), 1..4 (thorough), 12 and 120 with numeric data and one free coordinate; lagrange and lipschitz symbolic positive reals'


WIDE = (12, 120)


def lagrange_prox(ctx, name, n):
    import regreg.atoms.seminorms as S
    x = ctx.vec('x', n)
    x0 = x.copy()
    lam = ctx.real('lam', nonneg=True)
    L = ctx.real('L', pos=True)
    a = getattr(S, name)((n,), lagrange=lam)
    u = a.lagrange_prox(x, lipschitz=L)
    ctx.eq(x, x0, 'argument not modified')
    check_subgrad(ctx, name, L * (x - u), u, lam, name)


def lagrange_prox_kw(ctx, name, n):
    """explicit lagrange argument overrides, bound-form atoms included"""
    import regreg.atoms.seminorms as S
    x = ctx.vec('x', n)
    lam = ctx.real('lam', nonneg=True)
    a = getattr(S, name)((n,), bound=1.5)
    u = a.lagrange_prox(x, lipschitz=2., lagrange=lam)
    check_subgrad(ctx, name, 2. * (x - u), u, lam, name)


def lagrange_prox_wide(ctx, name, n):
    import regreg.atoms.seminorms as S
    x = wide_point(ctx, n)
    x0 = x.copy()
    lam = ctx.real('lam', nonneg=True, hi=256)
    a = getattr(S, name)((n,), lagrange=lam)
    u = a.lagrange_prox(x, lipschitz=2.)
    ctx.eq(x, x0, 'argument not modified')
    check_subgrad(ctx, name, 2. * (x - u), u, lam, name)


def obligations(tier):
    for name in NORMS:
        for n in WIDE:
            yield Ob('%s.lagrange_prox[n=%d]' % (name, n), lagrange_prox_wide, dict(name=name, n=n))
    ns = [1, 2, 3] if tier == 'quick' else [1, 2, 3, 4]
    for name in NORMS:
        for n in ns:
            yield Ob('%s.lagrange_prox[n=%d]' % (name, n), lagrange_prox, dict(name=name, n=n))
        yield Ob('%s.lagrange_prox(kw)[n=2]' % name, lagrange_prox_kw, dict(name=name, n=2))
