"""matrix norms built from row norms: sum and maximum over rows"""
from .common import *
from .P12 import mkq, qval, qgrad

BOUNDS = ('matrices 2x1, 2x2, 3x1, many rows with one free entry (3x2 and 1x3 thorough); levels, offsets and data symbolic; for maps coupling the '
          'rows of 2x2 l2-row matrices the signs of all but one entry are fixed')

NAMED = {'l1_l2': ('sum', 'l2norm'), 'linf_l2': ('max', 'l2norm'), 'l1_l1': ('sum', 'l1norm'),
         'linf_linf': ('max', 'supnorm')}
PAIR = {'l1_l2': 'linf_l2', 'linf_l2': 'l1_l2', 'l1_l1': 'linf_linf', 'linf_linf': 'l1_l1'}


def make(ctx, kind, shape, **kw):
    import regreg.atoms.block_norms as B
    import regreg.atoms.seminorms as S
    if isinstance(kind, str):
        return getattr(B, kind)(shape, **kw), NAMED[kind]
    how, row = kind
    return {'sum': B.block_sum, 'max': B.block_max}[how](getattr(S, row), shape, **kw), kind


def rowsof(X):
    return [[X[i, j] for j in range(X.shape[1])] for i in range(X.shape[0])]


def val(X, how, row):
    v = [NORMS[row].val(r) for r in rowsof(X)]
    return total(v) if how == 'sum' else maxv(v)


def le(X, how, row, c):
    if how == 'max':
        return sum([list(NORMS[row].le(r, c)) for r in rowsof(X)], [])
    return [val(X, how, row) - c]


def dualof(how, row):
    return ('max' if how == 'sum' else 'sum'), NORMS[row].dual


def cert(ctx, how, row, mode, G, U, lam, label):
    if (how, mode) == ('sum', 'lagrange'):
        for i, (g, u) in enumerate(zip(rowsof(G), rowsof(U))):
            check_subgrad(ctx, row, np.array(g), np.array(u), lam, '%s row' % label)
        return
    if (how, mode) == ('max', 'bound'):
        for i, (g, u) in enumerate(zip(rowsof(G), rowsof(U))):
            check_projection(ctx, row, np.array(u) + np.array(g), np.array(u), lam, '%s row' % label)
        return
    dh, dr = dualof(how, row)
    if mode == 'lagrange':
        le0(ctx, le(G, dh, dr, lam), label + ': residual in the dual ball')
        ctx.eq(dot(G, U), lam * val(U, how, row), label + ': Fenchel equality')
    else:
        le0(ctx, le(U, how, row, lam), label + ': feasible')
        ctx.eq(dot(G, U), lam * val(G, dh, dr), label + ': normal cone')


def mat(ctx, name, shape, fixed):
    X = ctx.mat(name, *shape)
    if fixed and not hasattr(ctx, 'wide'):
        for k, v in enumerate(X.reshape(-1)):
            if k:
                ctx.assume_ge(v * (1 if k % 2 else -1))
    return X


def prox(ctx, kind, shape, mode, fixed=False, zero=False):
    lam = ctx.real('lam', nonneg=True)
    a, (how, row) = make(ctx, kind, shape, **{mode: lam})
    X = mat(ctx, 'x', shape, fixed)
    if zero:
        X[0] = 0.
    X0 = X.copy()
    L = ctx.real('L', pos=True) if mode == 'lagrange' and shape[1] == 1 else 1.
    U = a.lagrange_prox(X, lipschitz=L) if mode == 'lagrange' else a.bound_prox(X)
    ctx.eq(X, X0, 'argument not modified')
    ctx.eq(U.shape == shape, True, 'shape kept')
    cert(ctx, how, row, mode, L * (X - U), U, lam, 'prox')
    V = a.lagrange_prox(X.reshape(-1), lipschitz=L) if mode == 'lagrange' else a.bound_prox(X.reshape(-1))
    ctx.eq(V.reshape(shape), U, 'flat argument')


def full(ctx, kind, mode, aq):
    """proximal with offset and quadratics; the norm's own map is abstract"""
    shape = (2, 2)
    lam = ctx.real('lam', nonneg=True)
    o = ctx.mat('o', *shape)
    from regreg.identity_quadratic import identity_quadratic as Q
    l, m = ctx.mat('l', *shape), ctx.mat('m', *shape)
    c1 = ctx.real('c1', nonneg=True) if aq else 0
    c2 = ctx.real('c2', pos=True)
    q1 = Q(c1, None, l, 0) if aq else None
    a, (how, row) = make(ctx, kind, shape, offset=o, quadratic=q1, **{mode: lam})
    q2 = Q(c2, m, 0, 0)
    log = []
    if ctx.symbolic:
        def lp(arg, lipschitz=1, lagrange=None):
            U = ctx.mat('u', *shape)
            log.append((arg.copy(), lipschitz, a.lagrange if lagrange is None else lagrange, U.copy()))
            return U

        def bp(arg, bound=None):
            U = ctx.mat('u', *shape)
            log.append((arg.copy(), None, a.bound if bound is None else bound, U.copy()))
            return U
        a.lagrange_prox, a.bound_prox = lp, bp
    U = a.proximal(q2)
    G = -c2 * (U - m) - (c1 * U + l if aq else 0 * U)
    if ctx.symbolic:
        arg, L, par, V = log[-1]
        ctx.eq(par, lam, 'parameter')
        ctx.eq(V, U - o, 'solution')
        ctx.eq((c1 + c2 if L is None else L) * (arg - V), G, 'optimality')
    else:
        cert(ctx, how, row, mode, G, U - o, lam, 'prox')


def value(ctx, kind, shape):
    lam = ctx.real('lam', nonneg=True)
    o = ctx.mat('o', *shape)
    X = ctx.mat('x', *shape) if shape != (2, 2) else o + mat(ctx, 't', shape, True)
    a, (how, row) = make(ctx, kind, shape, lagrange=lam, offset=o)
    ctx.eq(a.nonsmooth_objective(X), lam * val(X - o, how, row), 'value')
    ctx.eq(a.seminorm(X - o, lagrange=2.), 2. * val(X - o, how, row), 'explicit level')


def levels(ctx, kind):
    """levels can be changed later"""
    shape = (2, 1)
    lam = ctx.real('lam', nonneg=True)
    X = ctx.mat('x', *shape)
    a, (how, row) = make(ctx, kind, shape, lagrange=.5)
    a.lagrange = lam
    ctx.eq(a.nonsmooth_objective(X), lam * val(X, how, row), 'changed level')
    b, _ = make(ctx, kind, shape, bound=.5)
    b.bound = lam
    ctx.eq(b.bound, lam, 'changed bound')
    v = b.nonsmooth_objective(X, check_feasibility=True)
    feas(ctx, v, val(X, how, row), lam)


def feas(ctx, v, h, lam):
    if h < lam * (1 - 1e-9):
        ctx.eq(v, 0, 'feasible')
    elif h > lam * (1 + 1e-3) + 1e-3:
        ctx.eq(v, np.inf, 'infeasible')


def member(ctx, kind, shape):
    lam = ctx.real('lam', nonneg=True)
    X = mat(ctx, 'x', shape, True)
    a, (how, row) = make(ctx, kind, shape, bound=lam)
    feas(ctx, a.nonsmooth_objective(X, check_feasibility=True), val(X, how, row), lam)
    if how == 'max':
        feas(ctx, a.constraint(X), val(X, how, row), lam)


def conj(ctx, kind, mode, shape):
    lam = ctx.real('lam', nonneg=True)
    o = ctx.mat('o', *shape)
    l = ctx.mat('l', *shape)
    from regreg.identity_quadratic import identity_quadratic as Q
    a, (how, row) = make(ctx, kind, shape, offset=o, quadratic=Q(0, 0, l, 0), **{mode: lam})
    c = a.conjugate
    dh, dr = dualof(how, row)
    om = {'lagrange': 'bound', 'bound': 'lagrange'}[mode]
    ctx.eq(getattr(c, om), lam, 'dual parameter')
    ctx.true(getattr(c, mode) is None, 'other form unset')
    if isinstance(kind, str):
        ctx.true(type(c).__name__ == PAIR[kind], 'dual class')
    y = ctx.mat('y', *shape)
    want = dot(y - l, o)
    if om == 'lagrange':
        want = want + lam * val(y - l, dh, dr)
    ctx.eq(c.nonsmooth_objective(y), want, 'conjugate value')
    cc = c.conjugate
    ctx.eq(cc.nonsmooth_objective(y), a.nonsmooth_objective(y), 'double conjugate value')


def moreau(ctx, kind, shape):
    from regreg.identity_quadratic import identity_quadratic as Q
    lam = ctx.real('lam', nonneg=True)
    a, (how, row) = make(ctx, kind, shape, lagrange=lam)
    Z = mat(ctx, 'z', shape, True)
    u = a.proximal(Q(2., Z, 0, 0))
    v = a.conjugate.proximal(Q(.5, 2. * Z, 0, 0))
    ctx.eq(2. * u + v, 2. * Z, 'Moreau decomposition')


def explicit(ctx, kind):
    override(ctx, lambda **kw: make(ctx, kind, (2, 2), **kw)[0], (2, 2))


# rows of rational length: the fourth has a free entry, the fifth is zero, the last repeats the first
ROWS = [3., 4., 0., -1., 2., 2., 0., 0., -5., 0., 0., 0., 0., 0., 0., 2., -6., 9., 3., 4., 0.]


def obligations(tier):
    for kind in list(NAMED) + [('sum', 'l1norm'), ('sum', 'supnorm'), ('max', 'l1norm'), ('max', 'supnorm'), ('sum', 'positive_part'), ('max', 'constrained_max')]:
        how, row = NAMED[kind] if isinstance(kind, str) else kind
        tag = kind if isinstance(kind, str) else '%s of %s' % kind
        f = dict(data=dict(x=ROWS, o=[0.] * 21, t=ROWS), kind=kind, shape=(7, 3), fix=dict(L=2.))
        for mode in (('lagrange', 'bound') if isinstance(kind, str) else (('lagrange',) if how == 'sum' else ('bound',))):
            yield Ob('%s.%s.prox[many rows]' % (tag, mode), wide, dict(fn=prox, mode=mode, **f))
        yield Ob('%s.value[many rows]' % tag, wide, dict(fn=value, **f))
        if row != 'constrained_max':
            yield Ob('%s.member[many rows]' % tag, wide, dict(fn=member, **f))
    for kind in list(NAMED) + [('sum', 'l2norm'), ('max', 'l1norm')]:
        yield Ob('explicit level[%s]' % (kind if isinstance(kind, str) else '/'.join(kind)), explicit, dict(kind=kind))
    T = tier == 'thorough'
    gens = [('sum', 'l1norm'), ('sum', 'supnorm'), ('sum', 'l2norm'),
            ('max', 'l1norm'), ('max', 'supnorm'), ('max', 'l2norm'), ('sum', 'positive_part'), ('max', 'constrained_max')]
    for kind in list(NAMED) + gens:
        how, row = NAMED[kind] if isinstance(kind, str) else kind
        tag = kind if isinstance(kind, str) else '%s of %s' % kind
        modes = ('lagrange', 'bound') if isinstance(kind, str) else (('lagrange',) if how == 'sum' else ('bound',))
        for mode in modes:
            separable = (how, mode) in (('sum', 'lagrange'), ('max', 'bound'))
            for shape in ((2, 1), (2, 2)) + (((3, 1), (1, 3), (3, 2)) if T else ()):
                yield Ob('%s.%s.prox%s' % (tag, mode, shape), prox,
                         dict(kind=kind, shape=shape, mode=mode, fixed=shape != (2, 1)))
            yield Ob('%s.%s.prox[zero row]' % (tag, mode), prox,
                     dict(kind=kind, shape=(2, 2), mode=mode, fixed=False, zero=True))
            if isinstance(kind, str):
                for aq in (False, True):
                    yield Ob('%s.%s.full[%s]' % (tag, mode, aq), full, dict(kind=kind, mode=mode, aq=aq))
        for shape in ((2, 1), (2, 2), (1, 2)):
            yield Ob('%s.value%s' % (tag, shape), value, dict(kind=kind, shape=shape))
            if row != 'constrained_max':
                yield Ob('%s.member%s' % (tag, shape), member, dict(kind=kind, shape=shape))
        yield Ob('%s.levels' % tag, levels, dict(kind=kind))
        for mode in ('lagrange', 'bound'):
            for shape in ((2, 1), (1, 2)):
                yield Ob('%s.%s.conjugate%s' % (tag, mode, shape), conj, dict(kind=kind, mode=mode, shape=shape))
        if isinstance(kind, str) or how == 'sum':
            yield Ob('%s.moreau' % tag, moreau, dict(kind=kind, shape=(2, 2)))
