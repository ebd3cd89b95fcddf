"""values and feasibility reported by the seminorm atoms"""
from .common import *
from .P12 import mkq, qval

BOUNDS = 'dimension 1..2 (quick), 3 (thorough), 12 and 120 with one free coordinate; feasibility is left free within a relative 1e-3 of the boundary'


def value(ctx, name, n, off, aq):
    """objective of the Lagrange form"""
    import regreg.atoms.seminorms as S
    lam = ctx.real('lam', nonneg=True)
    x = ctx.vec('x', n)
    x0 = x.copy()
    o = ctx.vec('o', n) if off else None
    o0 = o.copy() if off else ctx.zeros(n)
    q, p = mkq(ctx, 'a', aq, n, 'any') if aq else (None, (0, ctx.zeros(n), ctx.zeros(n), 0))
    a = getattr(S, name)((n,), lagrange=lam, offset=o, quadratic=q)
    N = NORMS[name]
    indom = all(d <= 0 for d in N.dom(x - o0))
    v = a.nonsmooth_objective(x, check_feasibility=True)
    if indom:
        want = lam * N.val(x - o0) + qval(p, x)
        ctx.eq(v, want, 'value with feasibility check')
        ctx.eq(a.nonsmooth_objective(x), want, 'value')
        ctx.eq(a.objective(x), want, 'objective')
        ctx.eq(a.seminorm(x - o0, lagrange=2.), 2 * N.val(x - o0), 'seminorm with explicit multiplier')
        ctx.eq(a.seminorm(x - o0), lam * N.val(x - o0), 'seminorm')
    elif any(d > 1e-3 for d in N.dom(x - o0)):
        ctx.eq(v, np.inf, 'infeasible argument')
    ctx.eq(x, x0, 'argument not modified')


def feasible(ctx, name, n, off, aq):
    """objective of the bound form: 0 inside, infinity clearly outside"""
    import regreg.atoms.seminorms as S
    b = ctx.real('b', nonneg=True)
    x = ctx.vec('x', n)
    o = ctx.vec('o', n) if off else None
    o0 = o.copy() if off else ctx.zeros(n)
    q, p = mkq(ctx, 'a', aq, n, 'any') if aq else (None, (0, ctx.zeros(n), ctx.zeros(n), 0))
    a = getattr(S, name)((n,), bound=b, offset=o, quadratic=q)
    N = NORMS[name]
    y = x - o0
    ctx.eq(a.nonsmooth_objective(x), qval(p, x), 'no check: only the quadratic')
    v = a.nonsmooth_objective(x, check_feasibility=True)
    indom = all(d <= 0 for d in N.dom(y))
    nv = N.val(y)
    if indom and nv <= b:
        ctx.eq(v, qval(p, x), 'feasible')
        ctx.eq(a.constraint(y, bound=b), 0, 'feasible with explicit bound')
    elif any(d > 1e-3 for d in N.dom(y)) or nv > b * (1 + 1e-3) + 1e-3:
        ctx.eq(v, np.inf, 'infeasible')


def needs_parameter(ctx, name):
    """the wrong form without an explicit parameter is an error, never a silent default"""
    import regreg.atoms.seminorms as S
    x = ctx.vec('x', 2)
    cls = getattr(S, name)
    l, b = cls((2,), lagrange=1.), cls((2,), bound=1.)
    for f, tag in [(lambda: l.constraint(x), 'constraint'), (lambda: l.bound_prox(x), 'bound_prox'),
                   (lambda: b.seminorm(x), 'seminorm'), (lambda: b.lagrange_prox(x), 'lagrange_prox')]:
        try:
            f()
        except ValueError:
            ctx.true(True, 'rejected ' + tag)
        else:
            ctx.true(False, 'rejected ' + tag)


def norm_axioms(ctx, name, n):
    """positively homogeneous and subadditive on the domain"""
    import regreg.atoms.seminorms as S
    a = getattr(S, name)((n,), lagrange=1.)
    x, y = ctx.vec('x', n), ctx.vec('y', n)
    t = ctx.real('t', pos=True)
    for d in list(NORMS[name].dom(x)) + list(NORMS[name].dom(y)):
        ctx.assume_ge(-d)
    ctx.eq(a.seminorm(t * x), t * a.seminorm(x), 'homogeneous')
    if name != 'l2norm':
        ctx.le(a.seminorm(x + y), a.seminorm(x) + a.seminorm(y), 'subadditive')


def obligations(tier):
    for name in NORMS:
        for n in (12, 120):
            f = dict(free=('x',), fix={'ca': .5, 'ka': 2.}, name=name, n=n, off=True, aq=('vec', 'vec') if n < 20 else None)
            yield Ob('%s.value[%d]' % (name, n), wide, dict(fn=value, **f))
            yield Ob('%s.feasible[%d]' % (name, n), wide, dict(fn=feasible, **f))
    V = ('vec', 'vec')
    for name in NORMS:
        for n in ([1, 2] if tier == 'quick' else [1, 2, 3]):
            yield Ob('%s.value[%d]' % (name, n), value, dict(name=name, n=n, off=False, aq=None))
            yield Ob('%s.feasible[%d]' % (name, n), feasible, dict(name=name, n=n, off=False, aq=None))
        yield Ob('%s.value[full]' % name, value, dict(name=name, n=2, off=True, aq=V))
        yield Ob('%s.feasible[full]' % name, feasible, dict(name=name, n=2, off=True, aq=V))
        yield Ob('%s.needs_parameter' % name, needs_parameter, dict(name=name))
        yield Ob('%s.norm_axioms' % name, norm_axioms, dict(name=name, n=2))
