"""integer typed data and non contiguous views are just numbers"""
from .common import *
from .P13 import limits

BOUNDS = ('vectors of four to seven entries and matrices up to 3 by 2, two entries symbolic (integers in [-6,6] or reals), levels, '
          'offsets and curvatures symbolic; designs, weights and responses numeric integers')
LIMIT = {}
BASE = [2, -1, 3, -4, 1, 0, 5, -2, 6, -3, 4, -5]
SEMI = ('l1norm', 'supnorm', 'l2norm', 'positive_part', 'constrained_positive_part', 'constrained_max', 'max_positive_part')
CONES = ('nonnegative', 'nonpositive', 'zero', 'zero_constraint', 'l2_epigraph', 'l2_epigraph_polar', 'l1_epigraph',
         'l1_epigraph_polar', 'linf_epigraph', 'linf_epigraph_polar')
GEPI = ('group_lasso_epigraph', 'group_lasso_epigraph_polar', 'group_lasso_dual_epigraph', 'group_lasso_dual_epigraph_polar')
BLOCKS = ('l1_l2', 'linf_l2', 'linf_linf', 'l1_l1')


def ints(ctx, n, k=1, at=0, lo=-4, hi=4, shape=None):
    """an array of integers, k consecutive entries of it unknown"""
    x = ctx.iarr(BASE[:n])
    x[at:at + k] = ctx.ivec('x', k, lo, hi)
    return x if shape is None else x.reshape(shape)


def reals(ctx, n, k=1, at=0, shape=None):
    x = ctx.arr(np.array(BASE[:n]) + .25)
    for i in range(k):
        x[at + i] = ctx.real('x%d' % i, lo=-4, hi=4)
    return x if shape is None else x.reshape(shape)


def flat(r):
    if isinstance(r, (tuple, list)):
        return [v for q in r for v in flat(q)]
    if r is None:
        return []
    if hasattr(r, 'todense'):
        r = np.asarray(r.todense())
    if isinstance(r, np.ndarray):
        return [r.shape] + [r]
    return [r]


def agree(ctx, want, got, label):
    W, G = flat(want), flat(got)
    ctx.true(len(W) == len(G), label + ': number of results')
    for a, b in zip(W, G):
        if isinstance(a, tuple):
            ctx.true(a == b, label + ': shape')
        else:
            ctx.eq(b, a, label)


def same_int(ctx, op, x, label):
    r = ctx.real_of(x)
    keep = r.copy()
    want = op(r)
    got = op(x)
    agree(ctx, want, got, label + ' of integers')
    ctx.eq(x, keep, label + ': integers unchanged')
    ctx.eq(r, keep, label + ': reals unchanged')


def views(ctx, x):
    """(name, view with the entries of x, buffer behind it)"""
    if x.ndim == 1:
        n = x.shape[0]
        b = ctx.zeros(2 * n + 1)
        b[...] = 7.
        b[1::2] = x
        yield 'every second entry of a longer vector', b[1::2], b
        b = x[::-1].copy()
        yield 'reversed view', b[::-1], b
        b = ctx.zeros((n, 3))
        b[...] = 7.
        b[:, 1] = x
        yield 'column of a matrix', b[:, 1], b
    else:
        b = x.T.copy()
        yield 'transposed matrix', b.T, b
        b = ctx.zeros((x.shape[0], 2 * x.shape[1]))
        b[...] = 7.
        b[:, ::2] = x
        yield 'every second column', b[:, ::2], b


def same_view(ctx, op, x, label):
    keep = x.copy()
    want = op(x.copy())
    for nm, v, b in views(ctx, x):
        b0 = b.copy()
        agree(ctx, want, op(v), '%s of a %s' % (label, nm))
        ctx.eq(b, b0, '%s: %s unchanged' % (label, nm))
        ctx.eq(v, keep, '%s: %s same entries' % (label, nm))


def run(ctx, how, n, ops, k=1, at=0, shape=None, lo=-4, hi=4):
    """one operation at a time: the choice is one more unknown"""
    label, op = ops[ctx.choice('op', range(len(ops)))]
    if how == 'int':
        same_int(ctx, op, ints(ctx, n, k, at, lo, hi, shape), label)
    else:
        same_view(ctx, op, reals(ctx, n, k, at, shape), label)


def level(ctx):
    return ctx.real('lam', lo=.25, hi=3)


def iq(*a):
    from regreg.identity_quadratic import identity_quadratic
    return identity_quadratic(*a)


def norm_ops(make, form, lam, n, prox=True, value=True, block=False):
    a = make(**{form: lam})
    ops = []
    m = 'lagrange_prox' if form == 'lagrange' else 'bound_prox'
    if prox:
        ops.append((m, lambda v: getattr(a, m)(v)))
    ops.append(('proximal of a center', lambda v: a.proximal(iq(1., v, 0, 0))))
    ops.append(('proximal of a linear term', lambda v: a.proximal(iq(2., 0, v, 0))))
    if value:
        ops.append(('value', lambda v: a.seminorm(v, lagrange=lam)))
        if not block:
            ops.append(('feasibility', lambda v: a.constraint(v, bound=lam)))
        elif form == 'bound':
            ops.append(('feasibility', lambda v: a.constraint(v)))
        ops.append(('objective', lambda v: a.nonsmooth_objective(v, check_feasibility=True)))
    return ops


def semi(ctx, name, form, how, part, n=3):
    import regreg.atoms.seminorms as S
    lam = level(ctx)

    def make(**kw):
        return getattr(S, name)((n,), **kw)

    def shifted(**kw):
        o = ctx.arr(np.array([.5, -.25, 1., .75][:n]))
        return getattr(S, name)((n,), offset=o, quadratic=iq(.5, 0, ctx.arr(np.array([.25] * n)), 0), **kw)
    if part == 'plain':
        ops = norm_ops(make, form, lam, n)
    else:
        ops = norm_ops(shifted, form, lam, n, prox=False, value=False)
        a = shifted(**{form: lam})
        ops.append(('smooth part', lambda v: a.nonsmooth_objective(v)))
    proj = (name, form) in (('l1norm', 'bound'), ('supnorm', 'lagrange'))
    run(ctx, how, n, ops, k=2 if part == 'plain' and not proj else 1)


def cone(ctx, name, how, n=4):
    import regreg.atoms.cones as C
    a = getattr(C, name)((n,))
    ops = [('cone projection', lambda v: a.cone_prox(v)), ('feasibility', lambda v: a.constraint(v)),
           ('proximal of a center', lambda v: a.proximal(iq(1., v, 0, 0))),
           ('proximal of a linear term', lambda v: a.proximal(iq(2., 0, v, 0)))]
    run(ctx, how, n, ops, k=1, at=ctx.choice('at', (n - 1, 0)))


GR = np.array([1, 1, 2, 2, 3])


def group(ctx, name, form, how):
    import regreg.atoms.group_lasso as G
    lam = level(ctx)
    run(ctx, how, 5, norm_ops(lambda **kw: getattr(G, name)(GR, weights={1: 1., 2: .5, 3: 2.}, **kw), form, lam, 5))


def group_epi(ctx, name, how, at=5):
    import regreg.atoms.group_lasso as G
    a = getattr(G, name)(GR[:3], weights={1: 1., 2: .5})
    ops = [('cone projection', lambda v: a.cone_prox(v)), ('feasibility', lambda v: a.constraint(v)),
           ('proximal of a center', lambda v: a.proximal(iq(1., v, 0, 0)))]
    run(ctx, how, 4, ops, k=1, at=at)


def sparse_group(ctx, name, form, how):
    n = 5 if form == 'lagrange' else 3
    import regreg.atoms.sparse_group_lasso as G
    lam = level(ctx) if form == 'lagrange' else ctx.num(1.5)
    w = np.array([.5, 1., 0, .25, 1.]) if form == 'lagrange' else np.array([.5, 1., .5, .25, 1.])
    run(ctx, how, n, norm_ops(lambda **kw: getattr(G, name)(GR[:n], ctx.arr(w[:n]), weights={1: 1., 2: .5, 3: 2.}, **kw), form, lam, n,
                                  value=form == 'lagrange'))


def block(ctx, name, form, how):
    import regreg.atoms.block_norms as B
    lam = level(ctx)
    run(ctx, how, 6, norm_ops(lambda **kw: getattr(B, name)((3, 2), **kw), form, lam, 6, block=True), shape=(3, 2))


def sg_block(ctx, name, form, how):
    import regreg.atoms.sparse_group_block as G
    lam = level(ctx) if form == 'lagrange' else ctx.num(1.5)
    a = getattr(G, name)((3, 2), .5, 1., **{form: lam})
    m = 'lagrange_prox' if form == 'lagrange' else 'bound_prox'
    ops = [(m, lambda v: getattr(a, m)(v)), ('proximal of a center', lambda v: a.proximal(iq(1., v, 0, 0))),
           ('value', lambda v: a.seminorm(v, lagrange=1.))]
    run(ctx, how, 6, ops[:3 if form == 'lagrange' else 2], shape=(3, 2))


def weighted(ctx, name, form, how, wint):
    import regreg.atoms.weighted_atoms as W
    lam = level(ctx)
    w = np.array([1, 2, 3]) if wint else ctx.arr(np.array([1., 2., .5]))
    a = getattr(W, name)(w, **{form: lam})
    ops = norm_ops(lambda **kw: a, form, lam, 3)
    run(ctx, how, 3, ops, k=1)
    if wint:                                    # integer weights mean what the same real weights mean
        b = getattr(W, name)(ctx.arr(w), **{form: lam})
        x = reals(ctx, 3, 1)
        for (nm, f), (_, g) in zip(ops, norm_ops(lambda **kw: b, form, lam, 3)):
            agree(ctx, g(x), f(x), nm + ' with integer weights')


def other(ctx, name, how):
    lam = level(ctx)
    if name.startswith('slope'):
        import regreg.atoms.slope as SL
        w = np.array([3, 2, 1]) if name == 'slope int' else ctx.arr(np.array([2., 1., .5]))
        a = SL.slope(w, lagrange=lam)
        ops = [('lagrange_prox', lambda v: a.lagrange_prox(v, lipschitz=1.)), ('value', lambda v: a.seminorm(v, lagrange=1.)),
               ('proximal of a center', lambda v: a.proximal(iq(1., v, 0, 0)))]
        n = 3
    elif name == 'simplex':
        import regreg.atoms.simplex as SX
        a = SX.simplex_constraint((3,))
        ops = [('proximal of a center', lambda v: a.proximal(iq(1., v, 0, 0))), ('feasibility', lambda v: a.constraint(v))]
        n = 3
    elif name == 'maximum':
        import regreg.atoms.simplex as SX
        a = SX.maximum((3,))
        ops = [('proximal of a center', lambda v: a.proximal(iq(1., v, 0, 0))), ('value', lambda v: a.nonsmooth_objective(v))]
        n = 3
    elif name in ('projection', 'projection_complement'):
        import regreg.atoms.linear_constraints as LC
        a = getattr(LC, name)((3,), ctx.arr(np.array([[.6, .8, 0]])))
        ops = [('proximal of a center', lambda v: a.proximal(iq(1., v, 0, 0))), ('cone projection', lambda v: a.cone_prox(v))]
        n = 3
    elif name in ('mixed', 'mixed dual'):
        import regreg.atoms.mixed_lasso as M
        ps = np.array([-1, -2, -3, 0, 0])
        a = M.mixed_lasso(ps, lam, weights={0: 1.}) if name == 'mixed' else M.mixed_lasso_dual(ps, lam, weights={0: 1.})
        ops = [('proximal of a center', lambda v: a.proximal(iq(1., v, 0, 0))), ('objective', lambda v: a.nonsmooth_objective(v))]
        n = 5
    run(ctx, how, n, ops, k=1)


def column_svd(ctx):
    """singular value decomposition of one column"""
    def svd(X, full_matrices=True, compute_uv=True, **k):
        nrm = l2(X[:, 0])
        U = ctx.zeros(X.shape)
        D = ctx.zeros(1)
        D[0] = nrm
        if nrm > 0:
            for i in range(X.shape[0]):
                U[i, 0] = X[i, 0] / nrm
        else:
            U[0, 0] = 1.
        return U, D, ctx.arr(np.ones((1, 1)))
    from .P21 import Quiet2, Nothing
    import regreg.atoms.svd_norms as M
    return Quiet2(M.np.linalg, 'svd', svd) if ctx.symbolic else Nothing()


def matrix(ctx, name, form, how):
    import regreg.atoms.svd_norms as M
    with column_svd(ctx):
        if form == 'cone':
            a = getattr(M, name)((2, 1))
            run(ctx, how, 3, [('cone projection', lambda v: a.cone_prox(v)), ('feasibility', lambda v: a.constraint(v)),
                              ('proximal of a center', lambda v: a.proximal(iq(1., v, 0, 0)))], k=1, at=ctx.choice('at', (0, 2)))
        else:
            lam = level(ctx)
            run(ctx, how, 2, norm_ops(lambda **kw: getattr(M, name)((2, 1), **kw), form, lam, 2), shape=(2, 1))


XI = np.array([[1, 2], [0, 1], [3, -1]])


def design(ctx, how, x=None):
    """the numeric design in the layout asked for, and as plain reals"""
    D = XI if x is None else x
    if how == 'int':
        return ctx.iarr(D), ctx.arr(D)
    if how == 'transposed':
        return ctx.arr(D.T.copy()).T, ctx.arr(D)
    b = ctx.zeros((D.shape[0], 2 * D.shape[1]))
    b[...] = 7.
    b[:, ::2] = ctx.arr(D)
    return b[:, ::2], ctx.arr(D)


def transform(ctx, name, how):
    import regreg.affine as A
    off = np.array([1, 2, -1])
    o2 = np.array([1, 2, -1]) if how == 'int' else ctx.arr(off)
    D, R = design(ctx, how)
    if name == 'linear':
        T, U = A.linear_transform(D), A.linear_transform(R)
    elif name == 'affine':
        T, U = A.affine_transform(D, o2), A.affine_transform(R, ctx.arr(off))
    elif name == 'normalize':
        T, U = A.normalize(D, center=True, scale=True, value=2), A.normalize(R, center=True, scale=True, value=2)
    elif name == 'normalize center':
        T, U = A.normalize(D, center=True, scale=False), A.normalize(R, center=True, scale=False)
    elif name == 'normalize scale':
        T, U = A.normalize(D, center=False, scale=True), A.normalize(R, center=False, scale=True)
    elif name == 'adjoint':
        T, U = A.adjoint(A.linear_transform(D)), A.adjoint(A.linear_transform(R))
    elif name == 'composition':
        E = np.array([[1, -1, 2], [0, 3, 1]])
        T = A.composition(A.linear_transform(np.array(E) if how == 'int' else ctx.arr(E)), A.affine_transform(D, o2))
        U = A.composition(A.linear_transform(ctx.arr(E)), A.affine_transform(R, ctx.arr(off)))
    elif name == 'scalar':
        T, U = A.scalar_multiply(A.linear_transform(D), 2), A.scalar_multiply(A.linear_transform(R), 2.)
    D0 = ctx.arr(XI)
    x = ints(ctx, T.input_shape[0]) if how == 'int' else reals(ctx, T.input_shape[0])
    y = ints(ctx, T.output_shape[0]) if how == 'int' else reals(ctx, T.output_shape[0])
    xr, yr = ctx.real_of(x), ctx.real_of(y)
    agree(ctx, U.linear_map(xr), T.linear_map(x), 'linear map')
    agree(ctx, U.affine_map(xr), T.affine_map(x), 'affine map')
    agree(ctx, U.adjoint_map(yr), T.adjoint_map(y), 'adjoint map')
    ctx.eq(D, D0, 'matrix unchanged')
    ctx.eq(o2, off, 'offset unchanged')
    ctx.eq(x, xr, 'argument unchanged')
    ctx.eq(y, yr, 'argument of the adjoint unchanged')


CONTAINERS = ('selector of a block', 'selector of a slice', 'selector before a matrix', 'scaler', 'reshape', 'centering', 'vstack',
              'hstack', 'product', 'block_columns', 'block_rows', 'affine_sum', 'diagonal', 'image', 'gaps', 'adjoint of a matrix', 'tensorize')


def containers(ctx, name, P):
    import regreg.affine as A
    from regreg.affine.block_maps import block_columns, block_rows
    M, N = np.array([[1, 2], [3, -1], [0, 2]]), np.array([[2, 0], [-1, 1], [1, 1]])
    o = np.array([1, -2, 2])
    if name == 'selector of a block':
        return A.selector(np.s_[0:2, 1:3], (2, 3), reshape=(4,))
    if name == 'selector of a slice':
        return A.selector(slice(1, 5), (6,), reshape=(2, 2))
    if name == 'selector before a matrix':
        return A.selector(np.array([True, False, True, False]), (4,), A.affine_transform(P(M), P(o)))
    if name == 'scaler':
        return A.scaler(P(np.array([2, -1, 3])))
    if name == 'reshape':
        return A.reshape((2, 3), (3, 2))
    if name == 'centering':
        return A.centering((3,))
    if name == 'vstack':
        return A.vstack([A.affine_transform(P(M), P(o)), A.linear_transform(P(N))])
    if name == 'hstack':
        return A.hstack([A.affine_transform(P(M), P(o)), A.linear_transform(P(N))])
    if name == 'product':
        return A.product([A.affine_transform(P(M), P(o)), A.linear_transform(P(N))])
    if name == 'block_columns':
        return block_columns([A.affine_transform(P(M), P(o)), A.linear_transform(P(N))])
    if name == 'block_rows':
        return block_rows([A.affine_transform(P(M), P(o)), A.linear_transform(P(N))])
    if name == 'affine_sum':
        return A.affine_sum([A.affine_transform(P(M), P(o)), A.linear_transform(P(N))], [2, -1])
    if name == 'image':
        from regreg.affine.image2d import image2d_differences
        return image2d_differences((2, 3))
    if name == 'gaps':
        from regreg.affine.fused_lasso import difference_transform
        return difference_transform(np.array([0, 1, 3, 4]), order=2, transform=True)
    if name == 'adjoint of a matrix':
        return A.adjoint(A.linear_transform(P(M)))
    if name == 'tensorize':
        return A.tensorize(A.affine_transform(P(M), P(o)), 2)
    return A.linear_transform(P(np.array([2, -1, 3])), diag=True)


def implicit(ctx, name, how):
    """transforms without a matrix"""
    import regreg.affine as A
    if name == 'selector':
        T = A.selector(np.array([0, 2]), (4,))
    elif name == 'identity':
        T = A.identity((4,))
    elif name == 'multiscale':
        from regreg.affine.multiscale import multiscale
        T = multiscale(4, minsize=2)
    elif name == 'trend':
        from regreg.affine.fused_lasso import trend_filter_inverse
        T = trend_filter_inverse(np.arange(4.), order=1)
    elif name == 'residual':
        T = A.residual(np.array([[1, 2], [3, -1]]) if how == 'int' else ctx.arr(np.array([[1, 2], [3, -1]])))
    elif name == 'add_intercept':
        T = A.add_intercept(ctx.iarr(XI) if how == 'int' else ctx.arr(XI))
    elif name == 'posneg':
        T = A.posneg(ctx.iarr(XI) if how == 'int' else ctx.arr(XI))
    elif name in CONTAINERS:
        T = containers(ctx, name, (lambda v: ctx.iarr(v)) if how == 'int' else (lambda v: ctx.arr(v)))
    n, m = int(np.prod(T.input_shape)), int(np.prod(T.output_shape))
    if ctx.choice('side', (0, 1)):
        run(ctx, how, m, [('adjoint map', T.adjoint_map)], shape=T.output_shape)
    else:
        run(ctx, how, n, [('linear map', T.linear_map), ('affine map', T.affine_map)], shape=T.input_shape)


RESP = dict(gaussian=[2, -1, 3], logistic=[1, 0, 1], probit=[1, 0, 1], cloglog=[1, 0, 1], poisson=[2, 0, 3], huber=[2, -1, 3],
            huber_svm=[1, 0, 1])


def glm_loss(ctx, kind, how):
    import regreg.smooth.glm as G
    D, R = design(ctx, how)
    y, w, o = np.array(RESP[kind]), np.array([1, 2, 3]), np.array([1, -1])
    args = (.5,) if kind in ('huber', 'huber_svm') else ()
    f = getattr(G.glm, kind)
    integer = how == 'int'
    P = lambda v: np.array(v) if integer else ctx.arr(v)
    A = f(D, P(y), *args, case_weights=P(w), offset=P(o))
    B = f(R, ctx.arr(y), *args, case_weights=ctx.arr(w), offset=ctx.arr(o))
    x = ints(ctx, 2, lo=-2, hi=2) if integer else reals(ctx, 2)
    xr = ctx.real_of(x)
    b = [dot(XI[i], [xr[j] - o[j] for j in range(2)]) for i in range(3)]
    if kind in ('logistic', 'probit', 'cloglog', 'poisson', 'huber', 'huber_svm'):
        top = 2 if kind == 'cloglog' else 6
        for v in b:
            ctx.assume_ge(top, v)
            ctx.assume_ge(v, -top)
    for mode in ('func', 'grad', 'both'):
        agree(ctx, B.smooth_objective(xr, mode), A.smooth_objective(x, mode), mode)
    if kind not in ('huber', 'huber_svm'):
        agree(ctx, B.hessian(xr), A.hessian(x), 'hessian')
    if not integer:
        v = ctx.zeros(5)
        v[...] = 7.
        v[::4] = xr
        agree(ctx, B.smooth_objective(xr, 'both'), A.smooth_objective(v[::4], 'both'), 'strided coefficients')
    ctx.eq(D, XI, 'design unchanged')
    ctx.eq(x, xr, 'coefficients unchanged')
    L = getattr(A, 'saturated_loss')
    M = getattr(B, 'saturated_loss')
    e = ctx.iarr([0, 1, -2]) if integer else ctx.arr(np.array([0, 1, -2.]))
    e[:1] = x[:1]
    er = ctx.real_of(e)
    for mode in ('func', 'grad'):
        agree(ctx, M.smooth_objective(er, mode), L.smooth_objective(e, mode), 'saturated ' + mode)
        agree(ctx, M.smooth_objective(er, mode, case_weights=ctx.arr(w)), L.smooth_objective(e, mode, case_weights=P(w)),
              'saturated weighted ' + mode)


def cox_loss(ctx, how):
    import regreg.smooth.glm as G
    D, R = design(ctx, how)
    T, C = np.array([3, 1, 2]), np.array([1, 1, 0])
    integer = how == 'int'
    A = G.glm.cox(D, T, C)
    B = G.glm.cox(R, np.array([3., 1., 2.]), C)
    x = ints(ctx, 2, lo=-2, hi=2) if integer else reals(ctx, 2)
    xr = ctx.real_of(x)
    for i in range(3):
        ctx.assume_ge(6, dot(XI[i], xr))
        ctx.assume_ge(dot(XI[i], xr), -6)
    for mode in ('func', 'grad'):
        agree(ctx, B.smooth_objective(xr, mode), A.smooth_objective(x, mode), mode)
    agree(ctx, B.hessian(xr), A.hessian(x), 'hessian')
    L, M = A.saturated_loss, B.saturated_loss
    e = ints(ctx, 3, lo=-2, hi=2) if integer else reals(ctx, 3)
    er = ctx.real_of(e)
    d = np.array([1, 0, -2])
    for mode in ('func', 'grad'):
        agree(ctx, M.smooth_objective(er, mode), L.smooth_objective(e, mode), 'saturated ' + mode)
    agree(ctx, M.hessian_mult(er, ctx.arr(d)), L.hessian_mult(e, d), 'product with the hessian')
    b = ctx.zeros(6)
    b[...] = 7.
    b[::2] = er
    agree(ctx, M.smooth_objective(er, 'both'), L.smooth_objective(b[::2], 'both'), 'strided predictor')
    agree(ctx, M.hessian_mult(er, er), L.hessian_mult(b[::2], b[::2]), 'strided product with the hessian')
    ctx.eq(e, er, 'predictor unchanged')


def multi_loss(ctx, how):
    import regreg.smooth.mglm as G
    Y = np.array([[1, 0, 2], [0, 2, 1]])
    D, R = design(ctx, how, np.array([[1, 2], [3, -1]]))
    integer = how == 'int'
    Yi, Yr = design(ctx, how, Y)
    x = ints(ctx, 6, lo=-2, hi=2, shape=(2, 3)) if integer else reals(ctx, 6, shape=(2, 3))
    xr = ctx.real_of(x)
    v = x if integer else xr.T.copy().T
    for kind in ('multinomial', 'baseline'):
        A, B = G.mglm.multinomial(D, Yi, baseline=kind == 'baseline'), G.mglm.multinomial(R, Yr, baseline=kind == 'baseline')
        k = A.shape[1]
        for mode in ('func', 'grad'):
            agree(ctx, B.smooth_objective(xr[:, :k], mode), A.smooth_objective(v[:, :k], mode), kind + ' ' + mode)
        ctx.eq(v, xr, kind + ' coefficients unchanged')
        ctx.eq(Yi, Y, kind + ' responses unchanged')
    for kind, T in (('gaussian', np.array([[2, -1], [1, 3], [0, 1]])), ('logistic', np.array([[1, 0], [1, 1], [0, 1]])),
                    ('poisson', np.array([[2, 0], [1, 3], [0, 1]]))):
        f = getattr(G.stacked_common_loglike, kind)
        L = f(T if integer else [design(ctx, 'strided', T)[0][i] for i in range(3)])
        M = f(ctx.arr(T))
        for mode in ('func', 'grad'):
            agree(ctx, M.smooth_objective(xr, mode), L.smooth_objective(v, mode), 'stacked %s %s' % (kind, mode))
        ctx.eq(v, xr, kind + ' predictors unchanged')


def quadratics(ctx, how):
    import regreg.api as rr
    integer = how == 'int'
    x = ints(ctx, 2) if integer else reals(ctx, 2)
    xr = ctx.real_of(x)
    c, l = np.array([1, -2]), np.array([3, 1])
    P = (lambda v: np.array(v)) if integer else (lambda v: np.repeat(ctx.arr(v), 2)[::2])
    q, r = iq(2, P(c), P(l), 3), iq(2., ctx.arr(c), ctx.arr(l), 3.)
    for mode in ('func', 'grad', 'both'):
        agree(ctx, r.objective(xr, mode), q.objective(x, mode), 'quadratic ' + mode)
    for a, b in ((q.collapsed(), r.collapsed()), (q.recenter(P(c))[1], r.recenter(ctx.arr(c))[1]),
                 (q.recenter(ctx.arr(c) / 2)[1], r.recenter(ctx.arr(c) / 2)[1]), (q + q, r + r)):
        agree(ctx, b.objective(xr, 'both'), a.objective(x, 'both'), 'rewritten quadratic')
    Q = np.array([[2, 1], [1, 3]])
    A = rr.quadratic_loss((2,), Q=P(Q.reshape(-1)).reshape(2, 2) if integer else design(ctx, 'strided', Q)[0], offset=P(c))
    B = rr.quadratic_loss((2,), Q=ctx.arr(Q), offset=ctx.arr(c))
    for mode in ('func', 'grad', 'both'):
        agree(ctx, B.smooth_objective(xr, mode), A.smooth_objective(x, mode), 'quadratic loss ' + mode)
    A, B = rr.signal_approximator(P(c)), rr.signal_approximator(ctx.arr(c))
    for mode in ('func', 'grad'):
        agree(ctx, B.smooth_objective(xr, mode), A.smooth_objective(x, mode), 'signal approximator ' + mode)
    D, R = design(ctx, how)
    A, B = rr.squared_error(D, P(np.array([2, -1, 3]))), rr.squared_error(R, ctx.arr(np.array([2, -1, 3])))
    for mode in ('func', 'grad'):
        agree(ctx, B.smooth_objective(xr, mode), A.smooth_objective(x, mode), 'squared error ' + mode)
    ctx.eq(x, xr, 'argument unchanged')


def composed(ctx, how):
    """atoms of transforms and their smoothed and dual versions"""
    import regreg.api as rr
    lam = level(ctx)
    D, R = design(ctx, how)
    integer = how == 'int'
    o = np.array([1, -2, 1])
    P = (lambda v: np.array(v)) if integer else (lambda v: np.repeat(ctx.arr(v), 2)[::2])
    A, B = rr.l1norm.affine(D, P(o), lagrange=lam), rr.l1norm.affine(R, ctx.arr(o), lagrange=lam)
    x = ints(ctx, 2) if integer else reals(ctx, 2)
    xr = ctx.real_of(x)
    agree(ctx, B.nonsmooth_objective(xr), A.nonsmooth_objective(x), 'objective')
    SA, SB = A.smoothed(iq(.5, 0, 0, 0)), B.smoothed(iq(.5, 0, 0, 0))
    agree(ctx, SB.smooth_objective(xr, 'both'), SA.smooth_objective(x, 'both'), 'smoothed atom')
    y = ints(ctx, 3) if integer else reals(ctx, 3)
    yr = ctx.real_of(y)
    TA, CA = A.dual
    TB, CB = B.dual
    agree(ctx, CB.nonsmooth_objective(yr), CA.nonsmooth_objective(y), 'dual atom')
    agree(ctx, CB.proximal(iq(1., yr, 0, 0)), CA.proximal(iq(1., y, 0, 0)), 'proximal of the dual atom')
    s = rr.l1norm.shift(P(np.array([1, -2])), lagrange=lam)
    t = rr.l1norm.shift(ctx.arr(np.array([1, -2])), lagrange=lam)
    agree(ctx, t.proximal(iq(1., xr, 0, 0)), s.proximal(iq(1., x, 0, 0)), 'proximal of a shifted atom')


def obligations(tier):
    for how in ('int', 'view'):
        for name in SEMI:
            for form in ('lagrange', 'bound'):
                for part in ('plain', 'shifted'):
                    yield Ob('%s %s %s %s' % (how, name, form, part), semi, dict(name=name, form=form, how=how, part=part))
        for name in CONES:
            yield Ob('%s %s' % (how, name), cone, dict(name=name, how=how))
        for name, form in (('group_lasso', 'lagrange'), ('group_lasso', 'bound'), ('group_lasso_dual', 'lagrange'),
                           ('group_lasso_dual', 'bound')):
            yield Ob('%s %s %s' % (how, name, form), group, dict(name=name, form=form, how=how))
        for name in GEPI:
            for at in (0, 3):
                yield Ob('%s %s at %d' % (how, name, at), group_epi, dict(name=name, how=how, at=at))
        for name, form in (('sparse_group_lasso', 'lagrange'), ('sparse_group_lasso_dual', 'bound')):
            yield Ob('%s %s %s' % (how, name, form), sparse_group, dict(name=name, form=form, how=how))
        for name in BLOCKS:
            for form in ('lagrange', 'bound'):
                yield Ob('%s %s %s' % (how, name, form), block, dict(name=name, form=form, how=how))
        for name, form in (('sparse_group_block', 'lagrange'), ('sparse_group_block_dual', 'bound')):
            yield Ob('%s %s' % (how, name), sg_block, dict(name=name, form=form, how=how))
        for name in ('l1norm', 'supnorm'):
            for form in ('lagrange', 'bound'):
                for wint in (False, True):
                    yield Ob('%s weighted %s %s%s' % (how, name, form, ', integer weights' if wint else ''), weighted,
                             dict(name=name, form=form, how=how, wint=wint))
        for name in ('slope', 'slope int', 'simplex', 'maximum', 'projection', 'projection_complement', 'mixed', 'mixed dual'):
            yield Ob('%s %s' % (how, name), other, dict(name=name, how=how))
        for name in ('nuclear_norm', 'operator_norm'):
            for form in ('lagrange', 'bound'):
                yield Ob('%s %s %s' % (how, name, form), matrix, dict(name=name, form=form, how=how))
        for name in ('nuclear_norm_epigraph', 'nuclear_norm_epigraph_polar', 'operator_norm_epigraph',
                     'operator_norm_epigraph_polar'):
            yield Ob('%s %s' % (how, name), matrix, dict(name=name, form='cone', how=how))
        for name in ('selector', 'identity', 'multiscale', 'trend', 'residual', 'add_intercept', 'posneg') + CONTAINERS:
            yield Ob('%s transform %s' % (how, name), implicit, dict(name=name, how=how))
    for how in ('int', 'transposed', 'strided'):
        for name in ('linear', 'affine', 'normalize', 'normalize center', 'normalize scale', 'adjoint', 'composition', 'scalar'):
            yield Ob('%s transform %s' % (how, name), transform, dict(name=name, how=how))
        for kind in ('gaussian', 'logistic', 'probit', 'cloglog', 'poisson', 'huber', 'huber_svm'):
            yield Ob('%s %s loss' % (how, kind), glm_loss, dict(kind=kind, how=how))
        yield Ob('%s cox loss' % how, cox_loss, dict(how=how))
        yield Ob('%s matrix losses' % how, multi_loss, dict(how=how))
        yield Ob('%s quadratics' % how, quadratics, dict(how=how))
        yield Ob('%s composed atoms' % how, composed, dict(how=how))
