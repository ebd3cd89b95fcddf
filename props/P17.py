"""smooth functions: quadratic losses, affine compositions, weighted sums, smooth conjugates"""
from .common import *
from .P12 import mkq, qval, qgrad
from .P13 import offvec, build, oracle, limits
from .P16 import base, wrap, mv, tr, off1, flat, Ref

BOUNDS = 'dimension 2-3 (quadratics, some constructors and sums also 12), every constructor; matrices, offsets, scales, weights, quadratics and arguments symbolic'
LIMIT = {}


def mtv(M, v):
    return mv(tr(M), v)


def modes(ctx, f, x, val, grad, tag='', shape=None):
    """all three evaluation modes report the expected value and gradient and leave the argument alone"""
    x0 = flat(x).copy()
    want = np.array(list(flat(grad)), dtype=object)
    ctx.eq(f.smooth_objective(x, 'func'), val, tag + 'value')
    g = f.smooth_objective(x, 'grad')
    ctx.true(tuple(np.shape(g)) == tuple(np.shape(x)), tag + 'gradient shape')
    ctx.eq(flat(g), want, tag + 'gradient')
    v, g2 = f.smooth_objective(x, 'both')
    ctx.eq(v, val, tag + 'value (both)')
    ctx.eq(flat(g2), want, tag + 'gradient (both)')
    v, g2 = f.smooth_objective(x)
    ctx.eq(v, val, tag + 'value (default)')
    ctx.eq(flat(x), x0, tag + 'argument unchanged')
    ctx.eq(flat(g), want, tag + 'earlier gradient kept')
    try:
        f.smooth_objective(x, 'nonsense')
        ok = False
    except ValueError:
        ok = True
    ctx.true(ok or type(f).__name__ == 'affine_smooth', tag + 'unknown mode refused')


def symmetric(ctx, n, name='Q'):
    M = ctx.mat(name, n, n)
    for i in range(n):
        for j in range(i):
            M[i, j] = M[j, i]
    return M


def qmatrix(ctx, how, n):
    """(keyword arguments, dense matrix)"""
    import regreg.affine as A
    import scipy.sparse as sp
    if how == 'none':
        return {}, [[1. * (i == j) for j in range(n)] for i in range(n)]
    if how == 'dense':
        M = symmetric(ctx, n)
        return dict(Q=M), [list(r) for r in M]
    if how == 'diag':
        d = ctx.vec('Q', n)
        return dict(Q=d, Qdiag=True), [[d[i] if i == j else 0. for j in range(n)] for i in range(n)]
    if how == 'sparse':
        M = np.array([[2., -1., 0.], [-1., 3., 1.], [0., 1., 1.]])[:n, :n]
        return dict(Q=sp.csr_matrix(M)), [list(r) for r in M]
    M = symmetric(ctx, n)
    return dict(Q=A.linear_transform(M)), [list(r) for r in M]


def quad(ctx, how, n, off, cf, q):
    """coef/2 (x-o)'Q(x-o) plus attached quadratic"""
    from regreg.smooth.quadratic import quadratic_loss
    kw, M = qmatrix(ctx, how, n)
    c = ctx.real('coef', nonneg=True) if cf else 1.
    o = offvec(ctx, 'o', n) if off else None
    o0 = o.copy() if off else np.zeros(n)
    if q:
        qq, p = mkq(ctx, '1', ('vec', 'vec'), n, 'any')
        kw['quadratic'] = qq
    f = quadratic_loss((n,), coef=c, offset=o, **kw)
    x = ctx.vec('x', n)
    r = x - o0
    val = c * dot(r, mv(M, r)) / 2.
    grad = [c * v for v in mv(M, r)]
    modes(ctx, f, x, val, grad)
    ctx.eq(f.objective(x), val + (qval(p, x) if q else 0), 'objective')
    ctx.eq(f.nonsmooth_objective(x), qval(p, x) if q else 0, 'attached quadratic')
    if off:
        ctx.eq(o, o0, 'offset unchanged')
    if q:
        z = ctx.vec('z', n)
        ctx.assume_gt(p[0], 0)
        qz, pz = mkq(ctx, '2', ('vec', 'vec'), n)
        u = f.proximal(qz)
        ctx.eq(qgrad(p, u) + qgrad(pz, u), np.zeros(n), 'proximal map of the quadratic part')


def made(ctx, how, n=2, p=2):
    """constructors of quadratic losses"""
    import regreg.affine as A
    from regreg.smooth import quadratic as Qm
    QL = Qm.quadratic_loss
    c = ctx.real('coef', nonneg=True)
    x = ctx.vec('x', p)
    R = base(ctx, 'csr' if 'sparse' in how else ('dense+o' if 'transform' in how else 'dense'), n, p)
    y = offvec(ctx, 'y', n)
    y0 = y.copy()
    M = np.array([list(r) for r in R.M])
    import scipy.sparse as sp
    D = sp.csr_matrix(np.array(R.M, dtype=float)) if 'sparse' in how else (R.T if 'transform' in how else M)
    kind = how.split(',')[0]
    if kind == 'affine':
        f = QL.affine(D, y, coef=c)
        r = np.array(mv(R.M, x)) + np.array(R.a) + y0
    elif kind == 'linear':
        f = QL.linear(D, coef=c, offset=y)
        r = np.array(mv(R.M, x)) + np.array(R.a) - y0
    elif kind == 'linear0':
        f = QL.linear(D, coef=c)
        r = np.array(mv(R.M, x)) + np.array(R.a)
    elif kind == 'squared_error':
        f = Qm.squared_error(D, y, coef=c)
        r = np.array(mv(R.M, x)) + np.array(R.a) - y0
    elif kind == 'diag':
        d = ctx.vec('d', p)
        f = QL.affine(d, y, coef=c, diag=True)
        r = d * x + y0
        return modes(ctx, f, x, c * sq(r) / 2., c * d * r)
    elif kind == 'diaglinear':
        d = ctx.vec('d', p)
        f = QL.linear(d, coef=c, diag=True)
        r = d * x
        return modes(ctx, f, x, c * sq(r) / 2., c * d * r)
    elif kind in ('shift', 'signal'):
        f = QL.shift(y, coef=c) if kind == 'shift' else Qm.signal_approximator(y, coef=c)
        return modes(ctx, f, x, c * sq(x - y0) / 2., c * (x - y0))
    elif kind in ('fromarray', 'diagonal', 'squared'):
        q, pq = mkq(ctx, '1', ('vec', 'vec'), p, 'any')
        if kind == 'fromarray':
            S = symmetric(ctx, p)
            f, W = QL.fromarray(S, offset=y, quadratic=q), [list(r) for r in S]
        elif kind == 'diagonal':
            d = ctx.vec('d', p)
            f, W = QL.diagonal(d, offset=y, quadratic=q), [[d[i] if i == j else 0. for j in range(p)] for i in range(p)]
        else:
            f = QL.squared_transform(D, offset=y, quadratic=q)
            r = np.array(mv(R.M, x - y0))
            modes(ctx, f, x, sq(r) / 2., mtv(R.M, r))
            return ctx.eq(f.objective(x), sq(r) / 2. + qval(pq, x), 'objective')
        r = x - y0
        modes(ctx, f, x, dot(r, mv(W, r)) / 2., mv(W, r))
        return ctx.eq(f.objective(x), dot(r, mv(W, r)) / 2. + qval(pq, x), 'objective')
    modes(ctx, f, x, c * sq(r) / 2., [c * v for v in mtv(R.M, r)])
    ctx.eq(y, y0, 'response unchanged')
    c2 = ctx.real('c2', nonneg=True)
    f.coef = c2
    ctx.eq(f.coef, c2, 'scale reported')
    modes(ctx, f, x, c2 * sq(r) / 2., [c2 * v for v in mtv(R.M, r)], 'after rescaling: ')


def refused(ctx, how):
    """negative scales and weights are refused for every value"""
    from regreg.smooth import sum as S, zero
    from regreg.smooth.quadratic import quadratic_loss
    t = ctx.real('t')
    ctx.assume_ge(-1e-3, t)
    try:
        if how == 'coef':
            quadratic_loss((2,), coef=t)
        elif how == 'weights':
            S([quadratic_loss((2,)), quadratic_loss((2,))], weights=np.array([ctx.num(1), t]))
        else:
            S([quadratic_loss((2,)), quadratic_loss((2,))], weights=[1., 2., 3.])
        ok = False
    except ValueError:
        ok = True
    ctx.true(ok, 'refused')


def fenchel(ctx, how, n, off, q):
    """conjugate: Fenchel equality at gradients and inverse gradient map"""
    from regreg.smooth.quadratic import quadratic_loss
    kw = {}
    c = ctx.real('coef', pos=True)
    o = offvec(ctx, 'o', n) if off else None
    if q:
        kw['quadratic'], p = mkq(ctx, '1', ('vec', 'vec'), n, q)
    if how == 'diag':
        kw.update(Q=ctx.vec('Q', n, pos=True), Qdiag=True)
    elif how == 'factor':
        kw['Q'] = ctx.arr([[2., 1.], [1., 3.]])
    f = quadratic_loss((n,), coef=c, offset=o, **kw)
    F = f.get_conjugate(factor=True) if how == 'factor' else f.conjugate
    x = ctx.vec('x', n)
    g = f.smooth_objective(x, 'grad') + (qgrad(p, x) if q else 0)
    # the function a smooth object stands for is smooth part plus attached quadratic
    ctx.eq(F.objective(g), dot(g, x) - f.objective(x), 'Fenchel equality')
    G = F.smooth_objective(g, 'grad') + F.quadratic.objective(g, 'grad')
    ctx.eq(G, x, 'gradient of the conjugate inverts the gradient')
    v, G2 = F.smooth_objective(g, 'both')
    ctx.eq(v, F.smooth_objective(g, 'func'), 'value (both)')
    ctx.eq(G2 + F.quadratic.objective(g, 'grad'), x, 'gradient (both)')
    if how != 'factor' and not q:
        FF = F.conjugate
        y = ctx.vec('y', n)
        if how == 'none':
            ctx.eq(FF.nonsmooth_objective(y), f.objective(y), 'conjugate of the conjugate')
        else:
            ctx.eq(FF.objective(y), f.objective(y), 'conjugate of the conjugate')


def inverse_map(ctx, how):
    """factorised matrix: the transform inverts it, is its own adjoint and can be part of a larger transform"""
    from regreg.smooth.quadratic import cholesky
    from regreg.smooth import affine_smooth
    from regreg.smooth.quadratic import quadratic_loss
    if how == 'dense':
        n, D = 3, np.array([[4., 1., .5], [1., 3., -1.], [.5, -1., 5.]])
    else:
        n, D = 4, np.array([[4., 1., 0, 0], [1., 3., -1., 0], [0, -1., 5., 2.], [0, 0, 2., 6.]])
        if how == 'wide':
            D = D + np.diag([.5, -.5], 2) + np.diag([.5, -.5], -2)
    d = ctx.real('d', pos=True, lo=4, hi=8)
    M = ctx.arr(D)
    M[0, 0] = d
    if how == 'dense':
        T = cholesky(M.copy())
    else:
        b = 2 if how == 'wide' else 1
        ab = ctx.zeros((b + 1, n))
        for i in range(n):
            for j in range(i, min(n, i + b + 1)):
                ab[b - (j - i), j] = M[i, j]
        T = cholesky(ab, banded=True)
    ctx.true(tuple(T.input_shape) == (n,) and tuple(T.output_shape) == (n,), 'shapes')
    x, w = ctx.vec('x', n), ctx.arr(np.array([1., -2., .5, 3.][:n]))
    u = T.linear_map(x.copy())
    ctx.eq(np.dot(M, u), x, 'inverts the matrix')
    ctx.eq(T.affine_map(x.copy()), u, 'affine map')
    ctx.eq(T.adjoint_map(x.copy()), u, 'adjoint')
    f = affine_smooth(quadratic_loss((n,), coef=2.), T)
    ctx.true(tuple(f.shape) == (n,), 'shape of a composition')
    ctx.eq(f.smooth_objective(x, 'func'), sq(u), 'composition')


def chain(ctx, kind, off, cw, loss_kind):
    """f(Ax+a) for a loss f: value and A' grad f"""
    from regreg.smooth import affine_smooth
    import regreg.affine as A
    n = 2
    c = ctx.real('coef', nonneg=True)
    if kind == 'none+o':
        R = base(ctx, kind, n)
    elif kind in ('compose', 'scalar_multiply', 'adjoint', 'affine_sum', 'residual'):
        R = wrap(ctx, kind, base(ctx, 'dense+o', 2, 2))
    else:
        R = base(ctx, kind, n, 2)
    p = R.ish[0]
    x = ctx.vec('x', p)
    eta = np.array(mv(R.M, x)) + np.array(list(R.a))
    loss, data = build(ctx, loss_kind, n, coef=c)
    limits(ctx, loss_kind, eta)
    want = loss.smooth_objective(eta, 'grad')
    val = loss.smooth_objective(eta, 'func')
    T = R.T if off != 'array' else np.array([list(r) for r in R.M])
    f = affine_smooth(loss, T, store_grad=cw)
    modes(ctx, f, x, val, mtv(R.M, want))
    if cw:
        f.smooth_objective(x, 'both')
        ctx.eq(f.grad, want, 'stored inner gradient')
    ctx.eq(f.objective(x), val, 'objective')
    q, pq = mkq(ctx, '1', ('vec', 'vec'), p, 'any')
    f.quadratic = q
    ctx.eq(f.objective(x), val + qval(pq, x), 'objective with quadratic')
    ctx.eq(f.nonsmooth_objective(x), qval(pq, x), 'quadratic part')


def doubled(ctx):
    """composition of compositions"""
    from regreg.smooth import affine_smooth
    from regreg.smooth.quadratic import quadratic_loss
    c = ctx.real('coef', nonneg=True)
    A1, A2 = base(ctx, 'dense+o', 2, 2, 'A'), base(ctx, 'dense+o', 2, 3, 'B')
    f = affine_smooth(affine_smooth(quadratic_loss((2,), coef=c), A1.T), A2.T)
    x = ctx.vec('x', 3)
    r = np.array(mv(A1.M, np.array(mv(A2.M, x)) + np.array(A2.a))) + np.array(A1.a)
    modes(ctx, f, x, c * sq(r) / 2., [c * v for v in mtv(A2.M, mtv(A1.M, r))])


def chain_dual(ctx):
    """the dual of a composed loss: its transform and the conjugate of the loss"""
    from regreg.smooth import affine_smooth
    from regreg.smooth.quadratic import quadratic_loss
    c = ctx.real('coef', pos=True)
    R = base(ctx, 'dense+o', 2, 3)
    f = affine_smooth(quadratic_loss((2,), coef=c), R.T)
    T, g = f.dual
    x, u = ctx.vec('x', 3), ctx.vec('u', 2)
    ctx.eq(T.affine_map(x), np.array(mv(R.M, x)) + np.array(R.a), 'transform')
    ctx.eq(T.adjoint_map(u), mtv(R.M, u), 'adjoint')
    ctx.eq(g.smooth_objective(u, 'func') * c, sq(u) / 2., 'conjugate of the loss')
    ctx.eq(g.smooth_objective(u, 'grad') * c, u, 'gradient of the conjugate')


def matrixarg(ctx, q):
    """matrix-valued coefficients"""
    import regreg.affine as A
    from regreg.smooth import affine_smooth
    from regreg.smooth.quadratic import quadratic_loss
    M = ctx.mat('A', 2, 2)
    Y = ctx.mat('Y', 2, q, nonzero=True)
    c = ctx.real('coef', nonneg=True)
    f = affine_smooth(quadratic_loss((2, q), coef=c, offset=Y), A.affine_transform(M, None, input_shape=(2, q)))
    X = ctx.mat('x', 2, q)
    R = [[dot(M[i], X[:, k]) - Y[i, k] for k in range(q)] for i in range(2)]
    G = [c * total([M[i, j] * R[i][k] for i in range(2)]) for j in range(2) for k in range(q)]
    modes(ctx, f, X, c * total([sq(r) for r in R]) / 2., np.array(G).reshape((2, q)))


def summed(ctx, weights, n, quads, off):
    """weighted sum of smooth functions with their quadratics"""
    from regreg.smooth import sum as S, affine_smooth, zero
    from regreg.smooth.quadratic import quadratic_loss
    c1, c2 = ctx.real('c1', nonneg=True), ctx.real('c2', nonneg=True)
    w = ctx.vec('w', 3, nonneg=True) if weights else None
    w0 = list(w) if weights else [1.] * 3
    o = offvec(ctx, 'o', n)
    B = base(ctx, 'dense+o', 2, n)
    f1 = quadratic_loss((n,), coef=c1, offset=o)
    f2 = affine_smooth(quadratic_loss((2,), coef=c2), B.T)
    f3 = zero((n,))
    extra = lambda x: 0
    if quads:
        q1, p1 = mkq(ctx, '1', ('vec', 'vec'), n, 'any')
        q2, p2 = mkq(ctx, '2', ('none', 'vec'), n, 'any')
        f1.quadratic, f2.quadratic = q1, q2
        extra = lambda x: w0[0] * qval(p1, x) + w0[1] * qval(p2, x)
    f = S([f1, f2, f3], weights=w)
    x = ctx.vec('x', n)
    s = ctx.zeros(n)
    if off:
        f.offset = offvec(ctx, 'so', n)
        s = f.offset.copy()
    r1, r2 = x - s - o, np.array(mv(B.M, x - s)) + np.array(B.a)
    val = w0[0] * c1 * sq(r1) / 2. + w0[1] * c2 * sq(r2) / 2.
    grad = w0[0] * c1 * r1 + w0[1] * c2 * np.array(mtv(B.M, r2))
    modes(ctx, f, x, val, grad)
    ctx.eq(f.objective(x), val + extra(x), 'objective with the quadratic parts')
    if quads:
        ctx.eq(f1.objective(x), c1 * sq(x - o) / 2. + qval(p1, x), 'summand unchanged')


def nested_sum(ctx):
    from regreg.smooth import sum as S
    from regreg.smooth.quadratic import quadratic_loss
    n = 2
    cs = ctx.vec('c', 3, nonneg=True)
    w = ctx.vec('w', 2, nonneg=True)
    fs = [quadratic_loss((n,), coef=v) for v in cs]
    f = S([S(fs[:2]), fs[2]], weights=w)
    x = ctx.vec('x', n)
    k = w[0] * (cs[0] + cs[1]) + w[1] * cs[2]
    modes(ctx, f, x, k * sq(x) / 2., k * x)


def zerof(ctx, n):
    from regreg.smooth import zero
    x = ctx.vec('x', n)
    f = zero((n,), quadratic=mkq(ctx, '1', ('vec', 'vec'), n, 'any')[0])
    modes(ctx, f, x, 0, np.zeros(n))
    ctx.eq(f.objective(x), f.quadratic.objective(x, 'func'), 'objective')


def lipschitz(ctx, kind):
    """the recorded curvature bound counts the attached quadratic"""
    import regreg.smooth.glm as glm
    from regreg.smooth import sum as smooth_sum
    from regreg.smooth.quadratic import quadratic_loss
    y = ctx.arr(np.array([1., -2.]))
    if kind == 'gaussian':
        F = glm.gaussian_loglike((2,), y)
    elif kind == 'quadratic':
        F = quadratic_loss((2,), ctx.arr(np.array([[2., .5], [.5, 1.]])))
    else:
        F = smooth_sum([glm.gaussian_loglike((2,), y), glm.gaussian_loglike((2,), -y)])
    q, p = mkq(ctx, 'a', ('vec', 'none'), 2, 'nonneg')
    F.quadratic = q
    ctx.eq(F.lipschitz, p[0], 'only the quadratic is known')
    L = ctx.real('L')
    try:
        F.lipschitz = L
        ok = True
    except ValueError:
        ok = False
    if L >= 0:
        ctx.true(ok, 'accepted')
        ctx.eq(F.lipschitz, L + p[0], 'bound of the sum')
    else:
        ctx.true(not ok, 'refused')


def smoothconj(ctx, name, how):
    """conjugate of (penalty + quadratic): value, gradient, Lipschitz constant, and its own conjugate"""
    import regreg.atoms.seminorms as SM
    from regreg.problems.composite import smooth_conjugate
    n = 2
    lam = ctx.real('lam', pos=True)
    N = NORMS[name]
    o = offvec(ctx, 'o', n) if 'offset' in how else None
    o0 = o.copy() if o is not None else np.zeros(n)
    a = getattr(SM, name)((n,), lagrange=lam, offset=o)
    qa, pa = mkq(ctx, 'a', ('none', 'vec'), n)
    a.quadratic = qa
    extra = None
    if 'extra' in how:
        extra, pe = mkq(ctx, 'e', ('none', 'vec'), n, 0 if 'linear' in how else 'pos')
    F = smooth_conjugate(a, extra) if extra is not None else smooth_conjugate(a)
    k = pa[0] + (pe[0] if extra is not None else 0)
    ctx.eq(F.lipschitz * k, 1, 'Lipschitz constant')
    y = ctx.vec('y', n)
    u = F.smooth_objective(y, 'grad')
    full = lambda z: lam * N.val(z - o0) + qval(pa, z) + (qval(pe, z) if extra is not None else 0)
    g = y - qgrad(pa, u) - (qgrad(pe, u) if extra is not None else 0)
    check_subgrad(ctx, N, g, u - o0, lam, 'gradient is the maximiser')
    modes(ctx, F, y, dot(u, y) - full(u), u)
    ctx.eq(F.grad, u, 'stored maximiser')
    C = F.conjugate
    x = ctx.vec('x', n)
    for d in N.dom(x - o0):
        ctx.assume_ge(-d)
    ctx.eq(C.nonsmooth_objective(x), full(x), 'conjugate of the conjugate')
    ctx.eq(a.nonsmooth_objective(x), lam * N.val(x - o0) + qval(pa, x), 'penalty unchanged')


def smoothconj_q(ctx, name, r, off):
    """conjugate of a smooth conjugate with a quadratic attached"""
    import regreg.atoms.seminorms as SM
    from regreg.problems.composite import smooth_conjugate
    n = 2 if r == 'lin' else 1
    lam = ctx.real('lam', pos=True)
    N = NORMS[name]
    o = offvec(ctx, 'o', n) if off else None
    o0 = o.copy() if off else np.zeros(n)
    a = getattr(SM, name)((n,), lagrange=lam, offset=o)
    qa, pa = mkq(ctx, 'a', ('none', 'vec'), n)
    a.quadratic = qa
    F = smooth_conjugate(a)
    qf, pf = mkq(ctx, 'f', ('none', 'vec'), n, 0 if r == 'lin' else 'pos')
    F.quadratic = qf
    C = F.conjugate
    if r == 'lin':
        # translate by the linear term, drop the constant
        x = ctx.vec('x', n)
        z = x - pf[2]
        for d in N.dom(z - o0):
            ctx.assume_ge(-d)
        ctx.eq(C.nonsmooth_objective(x), lam * N.val(z - o0) + qval(pa, z) - pf[3], 'conjugate value')
        return
    # at the gradient of F + quadratic: Fenchel equality and inverse gradient
    y = ctx.vec('y', n)
    u = F.smooth_objective(y, 'grad')
    v = u + qgrad(pf, y)
    u = u.copy()
    val = dot(v, y) - (F.smooth_objective(y, 'func') + qval(pf, y))
    modes(ctx, C, v, val, y)
    ctx.eq(C.lipschitz * pf[0], 1, 'Lipschitz constant')


def obligations(tier):
    for how in ('dense', 'banded', 'wide'):
        yield Ob('factorised[%s]' % how, inverse_map, dict(how=how))
    deep = tier != 'quick'
    for kind in ('gaussian', 'quadratic', 'sum'):
        yield Ob('lipschitz[%s]' % kind, lipschitz, dict(kind=kind))
    for how in ('none', 'dense', 'diag', 'sparse', 'transform'):
        for off in (False, True):
            for q in (False, True):
                yield Ob('quadratic[%s,%s,%s]' % (how, off, q), quad, dict(how=how, n=3 if deep else 2, off=off, cf=off or q, q=q))
    for how in ('affine', 'affine,sparse', 'affine,transform', 'linear', 'linear,sparse', 'linear,transform', 'linear0',
                'squared_error', 'squared_error,sparse', 'diag', 'diaglinear', 'shift', 'signal', 'fromarray', 'diagonal',
                'squared', 'squared,sparse', 'squared,transform'):
        yield Ob('constructor[%s]' % how, made, dict(how=how, p=3 if deep and how != 'squared' else 2))
    for how in ('coef', 'weights', 'length'):
        yield Ob('refused[%s]' % how, refused, dict(how=how))
    for how in ('none', 'diag', 'factor'):
        for off in (False, True):
            for q in (False, 'nonneg') if how != 'factor' else (False,):
                yield Ob('conjugate[%s,%s,%s]' % (how, off, q), fenchel, dict(how=how, n=2, off=off, q=q))
    for kind in ('dense', 'dense+o', 'csr+o', 'csc', 'diag+o', 'row', 'none+o', 'identity', 'centering', 'compose',
                 'scalar_multiply', 'adjoint', 'affine_sum', 'residual', 'reshape'):
        if kind in ('row', 'reshape'):
            continue
        yield Ob('chain[%s]' % kind, chain, dict(kind=kind, off=None, cw=kind != 'csc', loss_kind='gaussian'))
    yield Ob('chain[array]', chain, dict(kind='dense', off='array', cw=True, loss_kind='gaussian'))
    for d in ('poisson', 'logistic'):
        yield Ob('chain[dense+o,%s]' % d, chain, dict(kind='dense+o', off=None, cw=True, loss_kind=d))
    yield Ob('chain dual', chain_dual, {})
    yield Ob('chain twice', doubled, {})
    yield Ob('matrix argument', matrixarg, dict(q=2))
    for w in (False, True):
        for q in (False, True):
            for off in (False, True):
                yield Ob('sum[%s,%s,%s]' % (w, q, off), summed, dict(weights=w, n=2, quads=q, off=off))
    yield Ob('sum of sums', nested_sum, {})
    yield Ob('zero', zerof, dict(n=2))
    for nm in ('l1norm', 'supnorm', 'positive_part', 'l2norm', 'constrained_positive_part'):
        for how in ('plain', 'linear extra', 'offset', 'extra,offset'):
            if not deep and how != 'plain' and (nm in ('supnorm', 'l2norm') or nm == 'positive_part' and 'extra' in how):
                continue
            yield Ob('smooth conjugate[%s,%s]' % (nm, how), smoothconj, dict(name=nm, how=how))
        yield Ob('smooth conjugate + linear[%s]' % nm, smoothconj_q, dict(name=nm, r='lin', off=nm != 'l2norm'))
        yield Ob('smooth conjugate + quadratic[%s]' % nm, smoothconj_q, dict(name=nm, r='quad', off=nm == 'l1norm'))
    for how in ('none', 'dense', 'diag'):
        yield Ob('quadratic[%s,12]' % how, quad, dict(how=how, n=12, off=how != 'dense', cf=True, q=how == 'diag'))
    for how in ('affine,sparse', 'linear,sparse', 'diag', 'shift', 'signal'):
        yield Ob('constructor[%s,12]' % how, made, dict(how=how, n=12, p=12))
    yield Ob('sum[12]', summed, dict(weights=True, n=12, quads=False, off=False))
