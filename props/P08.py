"""sparse group lasso (l1 + group l2), its dual, and the matrix version with one group per row"""
from .common import *
from .P12 import mkq, qval, qgrad
from .P07 import LAYOUTS, FIXED, MANY

BOUNDS = ('3-4 coefficients in 1-3 groups, many groups with one free coordinate, 2x1..2x2 matrices (3x2 thorough); levels and data symbolic, '
          'weights symbolic for a single group and numeric (including 0) with several groups; the gauge obtained by '
          'bisection is decided for at most 2 doublings/halvings and a coarse tolerance')

LW = {'one': [.5, 1.], 'mixed': [.5, 0., 1.], 'pairs': [0., 1., .5, 0.], 'three': [1., .5, 0.], 'many': [.5, 1., 0., 1.5] * 3 + [.5, 1.]}


def setup(ctx, layout, sym=False, gw=None):
    labels, _ = LAYOUTS[layout]
    ids = sorted(set(labels))
    idx = {g: [i for i, l in enumerate(labels) if l == g] for g in ids}
    if sym:
        w = {g: ctx.real('w%d' % g, nonneg=True) for g in ids}
        lw = ctx.vec('lw', len(labels), nonneg=True)
    else:
        w = dict((g, FIXED[g]) for g in ids)
        if gw is not None:
            w[ids[gw]] = 0.
        lw = np.array(LW[layout])
    return labels, idx, w, lw


def many(t):
    """a point that is MANY after shrinking by t times the l1 weights"""
    return [v + (1 if v > 0 else -1 if v < 0 else 0) * t * w for v, w in zip(MANY, LW['many'])]


def svec(ctx, name, n, free=1):
    """the sign of all but the first coordinates is fixed (signs are covered with all-free vectors elsewhere)"""
    x = ctx.vec(name, n)
    for i in range(free, n if not hasattr(ctx, 'wide') else 0):
        ctx.assume_ge(x[i] * (1 if i % 2 else -1))
    return x


def soft(v, t):
    return v - t if v > t else (v + t if v < -t else 0 * v)


def val(x, idx, w, lw):
    return total([w[g] * l2([x[i] for i in idx[g]]) for g in idx]) + total([lw[i] * absv(x[i]) for i in range(len(x))])


def in_dual(g, idx, w, lw, c):
    """<=0 expressions: g in c * polar ball"""
    out = [-c]
    for k in idx:
        s = [soft(g[i], c * lw[i]) for i in idx[k]]
        out.append(sq(s) - c * c * w[k] * w[k])
    return out


def fenchel(ctx, idx, w, lw, g, u, lam, label):
    """<g,u> = lam * value(u), group by group (equivalent given g in the dual ball)"""
    for k in idx:
        ui = [u[i] for i in idx[k]]
        h = w[k] * l2(ui) + total([lw[i] * absv(u[i]) for i in idx[k]])
        ctx.eq(dot([g[i] for i in idx[k]], ui), lam * h, label)


def cert_lagrange(ctx, idx, w, lw, g, u, lam, label):
    le0(ctx, in_dual(g, idx, w, lw, lam), label + ': residual in the dual ball')
    fenchel(ctx, idx, w, lw, g, u, lam, label + ': Fenchel equality')


def cert_dual_bound(ctx, idx, w, lw, r, u, b, label):
    """u projection on {dual gauge <= b}, residual r"""
    le0(ctx, in_dual(u, idx, w, lw, b), label + ': feasible')
    fenchel(ctx, idx, w, lw, u, r, b, label + ': normal cone')


def prox(ctx, layout, sym, gw=None, override=False):
    import regreg.atoms.sparse_group_lasso as G
    labels, idx, w, lw = setup(ctx, layout, sym, gw)
    n = len(labels)
    x = ctx.vec('x', n) if sym else svec(ctx, 'x', n)
    x0 = x.copy()
    lam = ctx.real('lam', nonneg=True)
    L = ctx.real('L', pos=True) if layout == 'three' else 2.
    a = G.sparse_group_lasso(labels, lw, weights=dict(w), lagrange=3. if override else lam)
    kw = dict(lagrange=lam) if override else {}
    u = a.lagrange_prox(x, lipschitz=L, **kw)
    ctx.eq(x, x0, 'argument not modified')
    u0 = u.copy()
    cert_lagrange(ctx, idx, w, lw, L * (x - u), u, lam, 'sparse group lasso')
    a.lagrange_prox(ctx.zeros(n), lipschitz=1., **kw)
    ctx.eq(u, u0, 'earlier result untouched')


def dual_prox(ctx, layout, sym, gw=None, change=False):
    import regreg.atoms.sparse_group_lasso as G
    labels, idx, w, lw = setup(ctx, layout, sym, gw)
    n = len(labels)
    x = ctx.vec('x', n) if sym else svec(ctx, 'x', n)
    x0 = x.copy()
    b = ctx.real('lam', nonneg=True)
    a = G.sparse_group_lasso_dual(labels, lw, weights=dict(w), bound=1. if change else b)
    if change:
        a.bound_prox(ctx.zeros(n))
        a.bound = b
    u = a.bound_prox(x)
    ctx.eq(x, x0, 'argument not modified')
    cert_dual_bound(ctx, idx, w, lw, x - u, u, b, 'dual')


def value(ctx, layout, sym, gw=None):
    import regreg.atoms.sparse_group_lasso as G
    import copy
    labels, idx, w, lw = setup(ctx, layout, sym, gw)
    n = len(labels)
    x, o = ctx.vec('x', n), ctx.vec('o', n)
    lam = ctx.real('lam', nonneg=True)
    q, p = mkq(ctx, 'q', ('vec', 'vec'), n, 'nonneg')
    a = G.sparse_group_lasso(labels, lw, weights=dict(w), lagrange=lam, offset=o, quadratic=q)
    want = lam * val(x - o, idx, w, lw) + qval(p, x)
    for b, tag in ((a, 'atom'), (copy.copy(a), 'copy')):
        ctx.eq(b.nonsmooth_objective(x), want, tag + ' value')


def terms(ctx, layout, sym):
    import regreg.atoms.sparse_group_lasso as G
    labels, idx, w, lw = setup(ctx, layout, sym)
    x = ctx.vec('x', len(labels))
    a = G.sparse_group_lasso(labels, lw, weights=dict(w), lagrange=1.)
    t = a.terms(x)
    for j, g in enumerate(sorted(idx)):
        ctx.eq(t[j], w[g] * l2([x[i] for i in idx[g]]) + total([lw[i] * absv(x[i]) for i in idx[g]]), 'terms')


def member(ctx, layout):
    import regreg.atoms.sparse_group_lasso as G
    labels, idx, w, lw = setup(ctx, layout)
    n = len(labels)
    x = svec(ctx, 'x', n)
    lam = ctx.real('lam', nonneg=True)
    c = G.sparse_group_lasso(labels, lw, weights=dict(w), bound=lam)
    v = c.nonsmooth_objective(x, check_feasibility=True)
    h = val(x, idx, w, lw)
    if h < lam * (1 - 1e-9):
        ctx.eq(v, 0, 'feasible')
    elif h > lam * (1 + 1e-3) + 1e-3:
        ctx.eq(v, np.inf, 'infeasible')


def dual_member(ctx, layout):
    """feasibility for the dual ball"""
    import regreg.atoms.sparse_group_lasso as G
    labels, idx, w, lw = setup(ctx, layout)
    n = len(labels)
    x = svec(ctx, 'x', n)
    for v in x:
        ctx.assume_ge(20 - v)
        ctx.assume_ge(v + 20)
    b = ctx.real('lam', lo=.5, hi=10) if layout != 'one' else 2.
    a = G.sparse_group_lasso_dual(labels, lw, weights=dict(w), bound=b)
    v = a.nonsmooth_objective(x, check_feasibility=True)
    inside = all([e <= 0 for e in in_dual(x, idx, w, lw, b)])
    far = False
    for k in idx:
        s = l2([soft(x[i], b * lw[i]) for i in idx[k]])
        far = far or bool(s > b * w[k] + 1e-3)
    if inside:
        ctx.eq(v, 0, 'feasible')
    elif far:
        ctx.eq(v, np.inf, 'infeasible')


def conj(ctx, mode):
    import regreg.atoms.sparse_group_lasso as G
    from regreg.identity_quadratic import identity_quadratic as Q
    labels, idx, w, lw = setup(ctx, 'mixed')
    n = len(labels)
    o, l, k = ctx.vec('o', n), ctx.vec('l', n), ctx.real('k')
    lam = ctx.real('lam', nonneg=True)
    kind = {'lagrange': 'sparse_group_lasso', 'bound': 'sparse_group_lasso_dual'}[mode]
    a = getattr(G, kind)(labels, lw, weights=dict(w), offset=o, quadratic=Q(0, 0, l, k), **{mode: lam})
    c = a.conjugate
    other = {'lagrange': 'sparse_group_lasso_dual', 'bound': 'sparse_group_lasso'}[mode]
    om = {'lagrange': 'bound', 'bound': 'lagrange'}[mode]
    ctx.true(type(c).__name__ == other, 'dual class')
    ctx.eq(getattr(c, om), lam, 'dual parameter')
    y = ctx.vec('y', n)
    want = dot(y - l, o) - k
    if om == 'lagrange':
        want = want + lam * val(y - l, idx, w, lw)
    ctx.eq(c.nonsmooth_objective(y), want, 'conjugate value')
    cc = c.conjugate
    ctx.true(type(cc).__name__ == kind, 'double conjugate class')
    ctx.eq(cc.nonsmooth_objective(y), a.nonsmooth_objective(y), 'double conjugate value')


def moreau(ctx):
    import regreg.atoms.sparse_group_lasso as G
    from regreg.identity_quadratic import identity_quadratic as Q
    labels, idx, w, lw = setup(ctx, 'mixed')
    z, o = ctx.vec('z', 3), svec(ctx, 'o', 3)
    for i in range(1, 3):
        ctx.assume_ge((z[i] - o[i]) * (1 if i % 2 else -1))
    lam = ctx.real('lam', nonneg=True)
    a = G.sparse_group_lasso(labels, lw, weights=dict(w), lagrange=lam, offset=o)
    u = a.proximal(Q(2., z, 0, 0))
    v = a.conjugate.proximal(Q(.5, 2. * z, 0, 0))
    ctx.eq(2. * u + v, 2. * z, 'Moreau decomposition')


def gauge(ctx, which):
    """bisection for the dual gauge: result brackets the true gauge"""
    n = 2
    tol = .6
    x = svec(ctx, 'x', n, 2 if which == 'strong' else 0)
    for v in x:
        ctx.assume_ge(8 - v)
        ctx.assume_ge(v + 8)
    ctx.assume_ge(absv(x[0]) + absv(x[1]), .5)
    if which == 'strong':
        import regreg.atoms.sparse_group_lasso as G
        lw, w = np.array([.5, 1.]), 2.
        r, _, _ = G._gauge_function_dual_strong(x, lw, w, tol=tol, max_iter=3)
        idx, W = {0: [0, 1]}, {0: w}
    elif which == 'atom':
        import regreg.atoms.sparse_group_lasso as G
        lw = np.array([.5, 1.])
        idx, W = {0: [0], 1: [1]}, {0: 2., 1: 1.}
        a = G.sparse_group_lasso([0, 1], lw, weights=dict(W), lagrange=1.)
        r = G.gauge_function_dual(a, x, tol=tol, max_iter=3)
    else:
        import regreg.atoms.sparse_group_block as G
        lw = np.array([.5, .5])
        idx, W = {0: [0], 1: [1]}, {0: 1., 1: 1.}
        r = G._gauge_function_dual(x.reshape((2, 1)), .5, 1., tol=tol, max_iter=3)
    lo, hi = .1, 20.
    if np.isinf(r):
        lo, hi = 7.9, 1e9
    elif r == 0:
        lo, hi = 0., .1251
    else:
        lo, hi = r * (1 - tol / 2 - .15), r * (1 + tol / 2 + .15)

    def inside(c):
        return all([e <= 0 for e in in_dual(x, idx, W, lw, c)])
    ctx.true(inside(hi), 'gauge not above the bracket')
    ctx.true(lo <= 0 or not inside(lo), 'gauge not below the bracket')


# ---------------------------------------------------------------- matrix version

def rows(shape):
    return {i: list(range(i * shape[1], (i + 1) * shape[1])) for i in range(shape[0])}


def block_setup(ctx, shape, sym):
    l1, l2w = (ctx.real('l1', nonneg=True), ctx.real('l2', nonneg=True)) if sym else (.5, 2.)
    idx = rows(shape)
    n = shape[0] * shape[1]
    return l1, l2w, idx, {i: l2w for i in idx}, [l1] * n, n


def block_prox(ctx, shape, sym, weights=None):
    import regreg.atoms.sparse_group_block as G
    l1, l2w, idx, w, lw, n = block_setup(ctx, shape, sym)
    if weights is not None:
        l1, l2w = weights
        w, lw = {i: l2w for i in idx}, [l1] * n
    X = (ctx.vec('x', n) if sym else svec(ctx, 'x', n, int(weights is not None))).reshape(shape)
    X0 = X.copy()
    lam = ctx.real('lam', nonneg=True)
    L = ctx.real('L', pos=True) if n < 3 else .5
    a = G.sparse_group_block(shape, l1, l2w, lagrange=lam)
    u = a.lagrange_prox(X, lipschitz=L)
    ctx.eq(X, X0, 'argument not modified')
    cert_lagrange(ctx, idx, w, lw, (L * (X - u)).reshape(-1), u.reshape(-1), lam, 'block')
    v = a.lagrange_prox(X.reshape(-1), lipschitz=L)
    ctx.eq(v.reshape(shape), u, 'flat argument')


def block_dual_prox(ctx, shape, sym, weights=None):
    import regreg.atoms.sparse_group_block as G
    l1, l2w, idx, w, lw, n = block_setup(ctx, shape, sym)
    if weights is not None:
        l1, l2w = weights
        w, lw = {i: l2w for i in idx}, [l1] * n
    X = (ctx.vec('x', n) if sym else svec(ctx, 'x', n, int(weights is not None))).reshape(shape)
    X0 = X.copy()
    lam = ctx.real('lam', nonneg=True)
    b = G.sparse_group_block_dual(shape, l1, l2w, bound=lam)
    v = b.bound_prox(X)
    ctx.eq(X, X0, 'argument not modified')
    cert_dual_bound(ctx, idx, w, lw, (X - v).reshape(-1), v.reshape(-1), lam, 'block dual')


def block_value(ctx, shape, sym):
    import regreg.atoms.sparse_group_block as G
    import copy
    l1, l2w, idx, w, lw, n = block_setup(ctx, shape, sym)
    X, o = ctx.mat('x', *shape), ctx.mat('o', *shape)
    lam = ctx.real('lam', nonneg=True)
    a = G.sparse_group_block(shape, l1, l2w, lagrange=lam, offset=o)
    y = (X - o).reshape(-1)
    for b, tag in ((a, 'atom'), (copy.copy(a), 'copy')):
        ctx.eq(b.nonsmooth_objective(X), lam * val(y, idx, w, lw), tag + ' value')


def block_terms(ctx, shape):
    import regreg.atoms.sparse_group_block as G
    l1, l2w, idx, w, lw, n = block_setup(ctx, shape, False)
    X = ctx.mat('x', *shape)
    t = G.sparse_group_block(shape, l1, l2w, lagrange=1.).terms(X)
    for i in idx:
        r = [X[i, j] for j in range(shape[1])]
        ctx.eq(t[i], w[i] * l2(r) + l1 * total([absv(v) for v in r]), 'terms')


def block_member(ctx, shape):
    import regreg.atoms.sparse_group_block as G
    l1, l2w, idx, w, lw, n = block_setup(ctx, shape, False)
    X = svec(ctx, 'x', n).reshape(shape)
    lam = ctx.real('lam', nonneg=True)
    c = G.sparse_group_block(shape, l1, l2w, bound=lam)
    v = c.nonsmooth_objective(X, check_feasibility=True)
    h = val(X.reshape(-1), idx, w, lw)
    if h < lam * (1 - 1e-9):
        ctx.eq(v, 0, 'feasible')
    elif h > lam * (1 + 1e-3) + 1e-3:
        ctx.eq(v, np.inf, 'infeasible')


def block_conj(ctx, mode):
    import regreg.atoms.sparse_group_block as G
    shape = (2, 2)
    l1, l2w, idx, w, lw, n = block_setup(ctx, shape, False)
    o = ctx.mat('o', *shape)
    lam = ctx.real('lam', nonneg=True)
    kind = {'lagrange': 'sparse_group_block', 'bound': 'sparse_group_block_dual'}[mode]
    a = getattr(G, kind)(shape, l1, l2w, offset=o, **{mode: lam})
    c = a.conjugate
    other = {'lagrange': 'sparse_group_block_dual', 'bound': 'sparse_group_block'}[mode]
    om = {'lagrange': 'bound', 'bound': 'lagrange'}[mode]
    ctx.true(type(c).__name__ == other, 'dual class')
    ctx.eq(getattr(c, om), lam, 'dual parameter')
    ctx.eq((c.l1_weight, c.l2_weight) == (l1, l2w), True, 'weights kept')
    y = ctx.mat('y', *shape)
    want = dot(y, o)
    if om == 'lagrange':
        want = want + lam * val(y.reshape(-1), idx, w, lw)
    ctx.eq(c.nonsmooth_objective(y), want, 'conjugate value')
    cc = c.conjugate
    ctx.true(type(cc).__name__ == kind, 'double conjugate class')
    ctx.eq(cc.nonsmooth_objective(y), a.nonsmooth_objective(y), 'double conjugate value')


def block_moreau(ctx):
    import regreg.atoms.sparse_group_block as G
    from regreg.identity_quadratic import identity_quadratic as Q
    shape = (2, 2)
    Z = svec(ctx, 'z', 4).reshape(shape)
    lam = ctx.real('lam', nonneg=True)
    a = G.sparse_group_block(shape, .5, 2., lagrange=lam)
    u = a.proximal(Q(2., Z, 0, 0))
    v = a.conjugate.proximal(Q(.5, 2. * Z, 0, 0))
    ctx.eq(2. * u + v, 2. * Z, 'Moreau decomposition')


def dual_lagrange(ctx):
    """the dual norm in Lagrange form scales with the level (numeric point: the bisection is not symbolic)"""
    import regreg.atoms.sparse_group_lasso as G
    labels, idx, w, lw = setup(ctx, 'three')
    lam = ctx.real('lam', pos=True, hi=10)
    a = G.sparse_group_lasso_dual(labels, lw, weights=dict(w), lagrange=lam)
    x = np.array([3., -4., 1.])
    r = a.seminorm(x) / lam
    ctx.true(all([e <= 0 for e in in_dual(x, idx, w, lw, r * (1 + 1e-5))]), 'gauge large enough')
    ctx.true(any([e > 0 for e in in_dual(x, idx, w, lw, r * (1 - 1e-5))]), 'gauge small enough')


def dual_numbers(ctx, which, point):
    """dual norm, its terms and dual feasibility at listed points (the bisection is not symbolic); any level or bound"""
    lam = ctx.real('lam', pos=True, hi=10)
    b = ctx.real('b', nonneg=True, hi=100)
    if which == 'block':
        import regreg.atoms.sparse_group_block as G
        X = np.array(point, float).reshape((2, 2))
        idx, w, lw = rows((2, 2)), {0: 1.5, 1: 1.5}, [.5] * 4
        make = lambda **kw: G.sparse_group_block_dual((2, 2), .5, 1.5, **kw)
    else:
        import regreg.atoms.sparse_group_lasso as G
        X = np.array(point, float)
        labels, idx, w, lw = setup(ctx, 'mixed' if len(X) == 3 else 'pairs')
        make = lambda **kw: G.sparse_group_lasso_dual(labels, lw, weights=dict(w), **kw)
    x, X0 = X.reshape(-1), X.copy()

    def is_gauge(r, ks, label):
        sub = {k: idx[k] for k in ks}
        inside = lambda c: all([e <= 0 for e in in_dual(x, sub, w, lw, c)])
        if not any(x[i] for k in ks for i in idx[k]):
            ctx.eq(r, 0, label)
            return
        ctx.true(inside(r * (1 + 1e-4)), label + ': large enough')
        ctx.true(not inside(r * (1 - 1e-4)), label + ': small enough')
    d = make(lagrange=lam)
    r = d.seminorm(X) / lam
    is_gauge(r, list(idx), 'dual norm')
    ctx.eq(make(lagrange=2.).seminorm(X, lagrange=lam), lam * r, 'level given in the call')
    t = d.terms(X)
    ctx.true(len(t) == len(idx), 'number of terms')
    for j, k in enumerate(sorted(idx)):
        is_gauge(t[j], [k], 'term %d' % j)
    if b < r * (1 - 1e-3):
        want = np.inf
    elif b > r * (1 + 1e-3):
        want = 0
    else:
        return
    ctx.true(float(make(bound=b).constraint(X)) == want, 'feasibility')
    ctx.true(bool(np.all(X == X0)), 'argument not modified')


POINTS = dict(lasso=((3., -4., 1.), (0., 0., 0.), (0., -.25, .5), (1., 0., -8., .125)),
              block=((3., -4., 1., .5), (0., 0., -.25, .125), (0., 0., 0., 0.)))


def strong(ctx, which):
    """sequential strong rule used by the path code"""
    import regreg.atoms.sparse_group_lasso as G
    c = ctx.real('c', pos=True)
    x = ctx.vec('x', 2)
    lw, w = np.array([.5, 1.]), 2.
    r = G._inside_set_strong(x, c, lw, w)
    s = l2([soft(x[i], c * lw[i]) for i in range(2)])
    if s <= c * w:
        ctx.true(bool(r), 'inside')
    elif s > c * w + 1e-3 * (1 + c):
        ctx.true(not r, 'outside')


def explicit(ctx, which):
    import regreg.atoms.sparse_group_lasso as G
    import regreg.atoms.sparse_group_block as B
    if 'block' in which:
        cls = getattr(B, which)
        if 'dual' in which:
            # the value of the dual is computed by bisection: only the projection here
            d = lambda **kw: cls((2, 2), .5, 1., **kw)
            lam, t = ctx.real('lam', nonneg=True), ctx.real('t')
            X = ctx.arr(np.array([[.7, -1.4], [2.1, 0.]]))
            X[1, 1] = t
            ctx.eq(d(bound=3.).bound_prox(X, bound=lam), d(bound=lam).bound_prox(X), 'projection')
            return
        override(ctx, lambda **kw: cls((2, 2), .5, 1., **kw), (2, 2))
        return
    cls = getattr(G, which)
    if 'dual' in which:
        d = lambda **kw: cls(np.array([4, 1, 4]), np.array([.5, 0., 1.]), weights={4: .5, 1: 2.}, **kw)
        lam, t = ctx.real('lam', nonneg=True), ctx.real('t')
        x = ctx.arr(np.array([.7, -1.4, 0.]))
        x[2] = t
        want = d(bound=lam).bound_prox(x)
        ctx.eq(d(bound=3.).bound_prox(x, bound=lam), want, 'projection')
        ctx.eq(d(lagrange=3.).bound_prox(x, bound=lam), want, 'projection, stored level')
        return
    override(ctx, lambda **kw: cls(np.array([4, 1, 4]), np.array([.5, 0., 1.]), weights={4: .5, 1: 2.}, **kw), 3)


def obligations(tier):
    for lam in (1., 3., 6.):
        yield Ob('prox[many groups,%g]' % lam, wide, dict(fn=prox, data=dict(x=many(lam / 2)), fix=dict(lam=lam), layout='many', sym=False))
        yield Ob('dual.prox[many groups,%g]' % lam, wide, dict(fn=dual_prox, data=dict(x=many(lam)), fix=dict(lam=lam), layout='many', sym=False))
    yield Ob('value[many groups]', wide, dict(fn=value, data=dict(x=MANY, o=[0.] * 14), fix=dict(cq=.5, kq=1.), layout='many', sym=False))
    for which in ('sparse_group_lasso', 'sparse_group_lasso_dual', 'sparse_group_block', 'sparse_group_block_dual'):
        yield Ob('explicit level[%s]' % which, explicit, dict(which=which))
    T = tier == 'thorough'
    for layout in ('one', 'mixed', 'pairs', 'three'):
        if layout == 'pairs' and not T:
            continue
        sym = layout == 'one'
        yield Ob('prox[%s]' % layout, prox, dict(layout=layout, sym=sym))
        yield Ob('dual.prox[%s]' % layout, dual_prox, dict(layout=layout, sym=sym))
        yield Ob('value[%s]' % layout, value, dict(layout=layout, sym=sym))
        yield Ob('terms[%s]' % layout, terms, dict(layout=layout, sym=sym))
        yield Ob('member[%s]' % layout, member, dict(layout=layout))
    yield Ob('prox[override]', prox, dict(layout='mixed', sym=False, override=True))
    yield Ob('dual.prox[changed bound]', dual_prox, dict(layout='mixed', sym=False, change=True))
    yield Ob('prox[zero group weight]', prox, dict(layout='mixed', sym=False, gw=0))
    yield Ob('dual.prox[zero group weight]', dual_prox, dict(layout='mixed', sym=False, gw=1))
    for layout in ('three',) + (('one', 'mixed') if T else ()):
        yield Ob('dual.member[%s]' % layout, dual_member, dict(layout=layout))
    for mode in ('lagrange', 'bound'):
        yield Ob('conjugate[%s]' % mode, conj, dict(mode=mode))
        yield Ob('block.conjugate[%s]' % mode, block_conj, dict(mode=mode))
    yield Ob('moreau', moreau)
    yield Ob('block.moreau', block_moreau)
    for w in ('strong', 'atom', 'block'):
        yield Ob('gauge[%s]' % w, gauge, dict(which=w))
    for shape in ((2, 1), (2, 2)) + (((3, 1), (1, 3)) if T else ()):
        yield Ob('block.prox%s' % (shape,), block_prox, dict(shape=shape, sym=shape == (2, 1)))
        yield Ob('block.dual.prox%s' % (shape,), block_dual_prox, dict(shape=shape, sym=shape == (2, 1)))
        yield Ob('block.value%s' % (shape,), block_value, dict(shape=shape, sym=shape == (2, 1)))
        yield Ob('block.terms%s' % (shape,), block_terms, dict(shape=shape))
        yield Ob('block.member%s' % (shape,), block_member, dict(shape=shape))
    for k, w in (('no l1', (0., 1.)), ('no l2', (1., 0.))):
        yield Ob('block.prox[%s]' % k, block_prox, dict(shape=(2, 2), sym=False, weights=w))
        yield Ob('block.dual.prox[%s]' % k, block_dual_prox, dict(shape=(2, 2), sym=False, weights=w))
    yield Ob('dual.seminorm[lagrange]', dual_lagrange)
    for which in POINTS:
        for i, x in enumerate(POINTS[which]):
            yield Ob('dual norm[%s,%d]' % (which, i), dual_numbers, dict(which=which, point=x))
    yield Ob('inside_set', strong, dict(which='x'))
