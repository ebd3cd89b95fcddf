"""problem objects: the composite problem that is handed to a solver is the stated problem"""
from .common import *
from .P12 import mkq, qval, qgrad
from .P13 import offvec
from .P16 import mv, tr

BOUNDS = ('dimension 2-3, one to three terms (separable: up to 11 groups of 48 numeric coordinates, one free); matrices, offsets, weights, quadratics, points and the answer of the '
          'iterative solver symbolic')
LIMIT = {}


class Patch(object):
    """replace a module attribute for the duration of a block"""

    def __init__(self, obj, name, new):
        self.obj, self.name, self.new = obj, name, new

    def __enter__(self):
        self.old = getattr(self.obj, self.name)
        setattr(self.obj, self.name, self.new)

    def __exit__(self, *a):
        setattr(self.obj, self.name, self.old)


def stub(ctx, answer, probe, log):
    """an iterative solver that records the problem it is given and returns an arbitrary point"""

    class Solver(object):
        perform_backtrack = True
        debug = False
        step = 1.

        def __init__(self, composite):
            self.composite = composite

        def fit(self, **kw):
            c = self.composite
            log.append(dict(composite=c, kw=kw, start=np.array(c.coefs, copy=True) if not ctx.symbolic else c.coefs.copy(),
                            obj=c.smooth_objective(probe.copy(), 'func') + c.nonsmooth_objective(probe.copy()) if probe is not None else None))
            if answer is not None:
                if hasattr(c, 'smooth_objective') and answer.shape == c.coefs.shape:
                    c.coefs[:] = answer
            return []
    return Solver


def atom_(ctx, name, n, lam, off=False, q=False, tag=''):
    import regreg.atoms.seminorms as SM
    o = offvec(ctx, 'o' + tag, n) if off else None
    a = getattr(SM, name)((n,), lagrange=lam, offset=o)
    p = None
    if q:
        qq, p = mkq(ctx, 'a' + tag, ('vec', 'vec'), n, 'nonneg')
        a.quadratic = qq
    o0 = o.copy() if off else np.zeros(n)
    val = lambda x: lam * NORMS[name].val(x - o0) + (qval(p, x) if q else 0)
    return a, val, o0, p


def loss_(ctx, n, q=False, tag='', m=2):
    """squared error loss; value, gradient, quadratic"""
    from regreg.smooth.quadratic import quadratic_loss
    X = ctx.mat('X' + tag, m, n)
    y = ctx.vec('y' + tag, m, nonzero=True)
    l = quadratic_loss.affine(X, -y)
    p = None
    if q:
        l.quadratic, p = mkq(ctx, 'l' + tag, ('vec', 'vec'), n, 'nonneg')
    r = lambda x: np.array([dot(X[i], x) - y[i] for i in range(m)])
    val = lambda x: sq(r(x)) / 2.
    grad = lambda x: np.array([dot(X[:, j], r(x)) for j in range(n)])
    return l, val, grad, p


def qv(p, x):
    return qval(p, x) if p is not None else 0


def qg(p, x):
    return qgrad(p, x) if p is not None else 0


# ---------------------------------------------------------------- simple problems

def simple(ctx, name, n, aq, lq, pq, how):
    """simple_problem: objective, proximal map, and the problem it hands to its solver"""
    import regreg.problems.simple as SP
    lam = ctx.real('lam', pos=True)
    a, aval, o, pa = atom_(ctx, name, n, lam, True, aq)
    if how == 'nonsmooth':
        prob = SP.simple_problem.nonsmooth(a)
        lval, lgrad, pl = (lambda x: 0), (lambda x: np.zeros(n)), None
    elif how == 'smooth':
        l, lval, lgrad, pl = loss_(ctx, n, lq)
        prob = SP.simple_problem.smooth(l)
        aval, pa = (lambda x: 0), None
    else:
        l, lval, lgrad, pl = loss_(ctx, n, lq)
        prob = SP.simple_problem(l, a)
    pp = None
    if pq:
        prob.quadratic, pp = mkq(ctx, 'p', ('vec', 'vec'), n, 'nonneg')
    x = ctx.vec('x', n)
    for d in NORMS[name].dom(x - o):
        ctx.assume_ge(-d)
    ctx.eq(prob.smooth_objective(x, 'func'), lval(x), 'smooth part')
    ctx.eq(prob.smooth_objective(x, 'grad'), lgrad(x), 'smooth gradient')
    v, g = prob.smooth_objective(x, 'both')
    ctx.eq(v, lval(x), 'smooth part (both)')
    ctx.eq(g, lgrad(x), 'smooth gradient (both)')
    rest = lambda z: aval(z) + qv(pl, z) + qv(pp, z)
    ctx.eq(prob.nonsmooth_objective(x), rest(x), 'nonsmooth part')
    ctx.eq(prob.objective(x), lval(x) + rest(x), 'objective')
    q, pz = mkq(ctx, 'z', ('vec', 'vec'), n)
    u = prob.proximal(q)
    g = -(qgrad(pz, u) + qg(pl, u) + qg(pp, u) + qg(pa, u))
    if how == 'smooth':
        ctx.eq(g, np.zeros(n), 'proximal map')
    else:
        check_subgrad(ctx, name, g, u - o, lam, 'proximal map')
    ctx.eq(q.objective(x, 'func'), qval(pz, x), 'argument unchanged')


def simple_solve(ctx, n, extra, opt):
    import regreg.problems.simple as SP
    lam = ctx.real('lam', pos=True)
    a, aval, o, pa = atom_(ctx, 'l1norm', n, lam)
    l, lval, lgrad, pl = loss_(ctx, n, True)
    prob = SP.simple_problem(l, a)
    prob.quadratic, pp = mkq(ctx, 'p', ('vec', 'vec'), n, 'nonneg')
    pe = None
    args = {}
    if extra:
        args['quadratic'], pe = mkq(ctx, 'e', ('vec', 'vec'), n, 'nonneg')
    z, ans = ctx.vec('z', n), ctx.vec('s', n)
    ans0 = ans.copy()
    log = []
    with Patch(SP, 'FISTA', stub(ctx, ans, z, log)):
        out = prob.solve(return_optimum=opt, tol=1e-3, **args)
    full = lambda t: lval(t) + aval(t) + qv(pl, t) + qv(pp, t)
    ctx.eq(log[0]['obj'], full(z) + qv(pe, z), 'problem handed to the solver')
    ctx.true(log[0]['kw'] == dict(tol=1e-3), 'fitting arguments passed on')
    if opt:
        ctx.eq(out[0], full(ans0) + qv(pe, ans0), 'optimal value')
        out = out[1]
    ctx.eq(out, ans0, 'solution')
    ctx.eq(prob.coefs, ans0, 'solution stored')
    ctx.eq(prob.objective(z), full(z), 'problem restored')
    log2 = []
    with Patch(SP, 'FISTA', stub(ctx, None, z, log2)):
        prob.solve()
    ctx.eq(log2[0]['start'], ans0, 'warm start')
    ctx.eq(log2[0]['obj'], full(z), 'second solve does not see the first quadratic')


def gengrad(ctx, name, n, lq):
    """one step of generalised gradient descent is the proximal step at the start"""
    import regreg.problems.simple as SP
    lam = ctx.real('lam', pos=True)
    a, aval, o, pa = atom_(ctx, name, n, lam, True)
    l, lval, lgrad, pl = loss_(ctx, n, lq)
    prob = SP.simple_problem(l, a)
    L = ctx.real('L', pos=True)
    x = ctx.vec('x', n)
    prob.coefs[:] = x
    z = ctx.vec('w', n)
    calls = []
    real = prob.proximal

    def prox(q):
        # later steps only matter for the stopping rule: let them stay where they are
        calls.append((q.objective(z, 'func'), real(q) if not calls else calls[0][1]))
        return calls[-1][1].copy()
    prob.proximal = prox
    prob.nonsmooth_objective = lambda z: 0.           # only feeds the (unused) objective stopping rule
    u = SP.gengrad(prob, L, max_its=1, tol=0, coef_stop=True)
    ctx.true(len(calls) >= 1, 'proximal step taken')
    ctx.eq(calls[0][0], L * sq(z - x) / 2. + dot(lgrad(x), z), 'local model')
    v = calls[0][1]
    g = -(L * (v - x) + lgrad(x) + qg(pl, v))
    check_subgrad(ctx, name, g, v - o, lam, 'step')
    if len(calls) > 1:
        ctx.eq(u, v, 'iterate returned')
    else:
        ctx.eq(u, x, 'start returned')


def gengrad_fixed(ctx, n):
    """an optimum stays put"""
    import regreg.problems.simple as SP
    from regreg.smooth.quadratic import quadratic_loss
    lam = ctx.real('lam', pos=True)
    a, aval, o, pa = atom_(ctx, 'l1norm', n, lam)
    c = ctx.real('c', pos=True)
    m = ctx.vec('m', n)
    x = ctx.zeros(n)                    # soft thresholding by hand
    for i in range(n):
        if c * m[i] > lam:
            x[i] = m[i] - lam / c
        elif c * m[i] < -lam:
            x[i] = m[i] + lam / c
    prob = SP.simple_problem(quadratic_loss.shift(m, coef=c), a)
    prob.coefs[:] = x
    L = ctx.real('L', pos=True)
    ctx.eq(SP.gengrad(prob, L, max_its=2, coef_stop=True), x, 'optimum is a fixed point')


# ---------------------------------------------------------------- separable

GROUPS = {
    'slices': ([slice(0, 1), slice(1, 3)], 3),
    'partial': ([slice(1, 3)], 3),
    'lists': ([[0, 2], [1]], 3),
    'masks': ([np.array([True, False, True]), np.array([False, True, False])], 3),
    'strided': ([slice(0, 3, 2), slice(1, 2)], 3),
    'whole': ([slice(None)], 2),
    'empty': ([], 2),
    'reverse': ([slice(2, 0, -1), slice(0, 1)], 3),
    'many': ([slice(0, 1), [7, 1, 3, 5], np.isin(np.arange(42), range(8, 13)), slice(14, 40, 3), slice(40, 13, -3),
              [12 + 3], [41]][:6], 42),
    'blocks': ([slice(4 * i, 4 * i + 4) for i in range(11)], 48),
}
KIND = ['l1norm', 'positive_part', 'supnorm']


def sep_make(ctx, layout, q):
    import regreg.atoms.seminorms as SM
    from regreg.problems.separable import separable
    groups, n = GROUPS[layout]
    idx = [np.arange(n)[g] for g in groups]
    lams = [ctx.real('lam%d' % i, pos=True) for i in range(len(groups))]
    kinds = (['l1norm', 'positive_part'] if layout != 'whole' else ['supnorm'])[:len(groups)]
    if len(groups) > 3:
        kinds = [KIND[i % 3] for i in range(len(groups))]
    offs = [offvec(ctx, 'o%d' % i, len(ix)) if i == 0 and len(ix) == 1 else None for i, ix in enumerate(idx)]
    atoms = [getattr(SM, k)((len(ix),), lagrange=l, offset=o) for k, ix, l, o in zip(kinds, idx, lams, offs)]
    offs = [o if o is not None else np.zeros(len(ix)) for o, ix in zip(offs, idx)]
    S = separable((n,), atoms, groups)
    p = None
    if q:
        S.quadratic, p = mkq(ctx, 's', ('vec', 'vec'), n, 'nonneg')

    def val(x):
        return total([0 * x[0]] + [l * NORMS[k].val(x[ix] - o) for k, ix, l, o in zip(kinds, idx, lams, offs)]) + qv(p, x)

    def cert(g, u, what):
        seen = set()
        for k, ix, l, o in zip(kinds, idx, lams, offs):
            check_subgrad(ctx, k, g[ix], u[ix] - o, l, what)
            seen |= set(ix)
        for i in range(n):
            if i not in seen:
                ctx.eq(g[i], 0, what + ' (uncovered)')
    return S, n, p, val, cert


def sep(ctx, layout, q):
    S, n, p, val, cert = sep_make(ctx, layout, q)
    free = total([1] + [a.lagrange for a in S.atoms])
    x = ctx.vec('x', n)
    for v in x[1:]:
        ctx.assume_ge(v, 3)             # one coordinate of free sign (both sides of the shrinkage there)
    x0 = x.copy()
    ctx.eq(S.nonsmooth_objective(x), val(x), 'value')
    ctx.eq(S.objective(x), val(x), 'objective')
    qz, pz = mkq(ctx, 'z', ('vec', 'vec'), n)
    for i in range(1, n):
        ctx.assume_ge(pz[0] * pz[1][i] - pz[2][i] + (p[0] * p[1][i] - p[2][i] if q else 0), free)
    u = S.proximal(qz)
    cert(-(qgrad(pz, u) + qg(p, u)), u, 'proximal map')
    ctx.eq(qz.objective(x, 'func'), qval(pz, x), 'argument unchanged')
    u0 = u.copy()
    v, w = S.solve(qz, return_optimum=True)
    ctx.eq(w, u0, 'solve')
    ctx.eq(v, val(w) + qval(pz, w), 'optimal value')
    ctx.eq(u, u0, 'earlier result kept')
    ctx.eq(x, x0, 'point unchanged')


def sep_norm(ctx, layout, mode):
    """sum of the norms of the groups with a level given in the call, and common membership"""
    import regreg.atoms.seminorms as SM
    from regreg.problems.separable import separable
    groups, n = GROUPS[layout]
    idx = [np.arange(n)[g] for g in groups]
    kinds = [KIND[i % 3] for i in range(len(groups))]
    lams = [ctx.real('lam%d' % i, pos=True) for i in range(len(groups))]
    S = separable((n,), [getattr(SM, k)((len(ix),), **{mode: l}) for k, ix, l in zip(kinds, idx, lams)], groups)
    x = ctx.vec('x', n)
    for v in x[1:]:
        ctx.assume_ge(v)
    x0 = x.copy()
    h = [NORMS[k].val(x[ix]) for k, ix in zip(kinds, idx)]
    b = ctx.real('b', pos=True)
    if mode == 'lagrange':
        ctx.eq(S.seminorm(x), total([0 * x[0]] + [l * v for l, v in zip(lams, h)]), 'norm at the stored levels')
        ctx.eq(S.seminorm(x, lagrange=b), b * total([0 * x[0]] + h), 'norm at a given level')
        ctx.eq(S.seminorm(x, check_feasibility=True), total([0 * x[0]] + [l * v for l, v in zip(lams, h)]), 'norm, checked')
    else:
        for bound, bs in ((None, lams), (b, [b] * len(groups))):
            v = S.constraint(x) if bound is None else S.constraint(x, bound=bound)
            if all([t <= c for t, c in zip(h, bs)]):
                ctx.eq(v, 0, 'inside every ball')
            elif any([t > 1.001 * c + 1e-3 for t, c in zip(h, bs)]):
                ctx.eq(v, np.inf, 'outside one ball')
    ctx.eq(x, x0, 'point unchanged')


def sep_wide(ctx, layout, at, q):
    """many groups: numeric data (ties, zeros) except one free coordinate of the point and of the centre"""
    groups, n = GROUPS[layout]
    fix = dict(('lam%d' % i, .5 + .25 * (i % 4)) for i, g in enumerate(groups)
               if i % 3 == 2 or at not in np.arange(n)[g])
    S, n, p, val, cert = sep_make(Wide(ctx, (), fix=dict(fix, cs=.5)), layout, q)
    x = wide_point(ctx, n, False)
    x[at] = ctx.real('t', lo=-8, hi=8)
    ctx.eq(S.nonsmooth_objective(x), val(x), 'value')
    W = Wide(ctx, (), fix={'cz': 2.})
    qz, pz = mkq(W, 'z', ('vec', 'vec'), n)
    m = qz.center if qz.center is not None else None
    m[at] = ctx.real('m', lo=-8, hi=8)
    pz[1][at] = m[at]
    u = S.proximal(qz)
    cert(-(qgrad(pz, u) + qg(p, u)), u, 'proximal map')
    ctx.eq(S.proximal(qz), u.copy(), 'repeatable')


def sep_scalar(ctx, layout, k):
    """quadratics with scalar or absent terms"""
    from regreg.identity_quadratic import identity_quadratic as Q
    S, n, p, val, cert = sep_make(ctx, layout, False)
    c = ctx.real('c', pos=True)
    m = ctx.vec('m', n)
    free = total([1] + [a.lagrange for a in S.atoms])
    for v in m[1:]:
        ctx.assume_ge(c * v if k in (0, 3) else -v, free)
    q, g = ((Q(c, m, None, 0), lambda u: c * (u - m)), (Q(c, None, m, 0), lambda u: c * u + m),
            (Q(c, 0, m, 1), lambda u: c * u + m), (Q(c, m, 0, None), lambda u: c * (u - m)))[k]
    u = S.proximal(q)
    cert(-g(u), u, 'proximal map')


def sep_conjugate(ctx, layout, q):
    """Fenchel value of the conjugate at subgradients, conjugate of the conjugate"""
    S, n, p, val, cert = sep_make(ctx, layout, q)
    if q:
        ctx.assume_gt(p[0], 0)
    C = S.conjugate
    x = ctx.vec('x', n)
    if q:
        u = C.smooth_objective(x, 'grad')
        cert(x - qgrad(p, u), u, 'gradient of the smooth conjugate')
        ctx.eq(C.smooth_objective(x, 'func'), dot(u, x) - val(u), 'value of the smooth conjugate')
        return
    qz, pz = mkq(ctx, 'z', ('vec', 'vec'), n)
    # Moreau: prox of S and of its conjugate split a point
    u = S.proximal(ident(ctx.num(1), x))
    v = C.proximal(ident(ctx.num(1), x))
    ctx.eq(u + v, x, 'Moreau decomposition')
    ctx.eq(C.nonsmooth_objective(v), dot(u, v) - val(u), 'Fenchel equality at the decomposition')
    ctx.eq(C.conjugate.nonsmooth_objective(x), val(x), 'conjugate of the conjugate')
    ctx.eq(S.nonsmooth_objective(x), val(x), 'original unchanged')


def ident(c, m):
    from regreg.identity_quadratic import identity_quadratic as Q
    return Q(c, m, 0, 0)


def sep_shapes(ctx, layout, q):
    """groups that are reshaped before they are penalised"""
    import regreg.atoms.group_lasso as GL
    import regreg.atoms.block_norms as BN
    import regreg.atoms.seminorms as SM
    from regreg.problems.separable import separable
    n = 5
    if layout == 'front':
        groups, ix = [slice(0, 4), slice(4, 5)], np.arange(4)
    elif layout == 'strided':
        n = 7
        groups, ix = [slice(0, 7, 2), slice(1, 6, 2)], np.arange(0, 7, 2)
    else:
        groups, ix = [[4, 2, 0, 1], [3]], np.array([4, 2, 0, 1])
    other = np.array([i for i in range(n) if i not in set(ix)])
    l1, l2_ = ctx.real('lam1', pos=True), ctx.real('lam2', pos=True)
    a = SM.l1norm((2, 2), lagrange=l1)
    b = SM.supnorm((len(other),), lagrange=l2_) if len(other) == 1 else SM.l1norm((len(other),), lagrange=l2_)
    S = separable((n,), [a, b], groups, shapes=[(2, 2), None])
    p = None
    if q:
        S.quadratic, p = mkq(ctx, 's', ('vec', 'vec'), n, 'nonneg')
    x = ctx.vec('x', n)
    for i in range(1, n):
        ctx.assume_ge(x[i], 1)
    x0 = x.copy()
    ctx.eq(S.nonsmooth_objective(x), l1 * total([absv(v) for v in x[ix]]) + l2_ * total([absv(v) for v in x[other]]) + qv(p, x), 'value')
    m, lt, c = ctx.vec('m', n), ctx.vec('l', n), ctx.real('c', pos=True)
    from regreg.identity_quadratic import identity_quadratic as Q
    for i in range(1, n):            # one free sign
        ctx.assume_ge(c * m[i] - lt[i] - (p[2][i] - p[0] * p[1][i] if q else 0), l1 + l2_)
    for k, qq, g in ((0, Q(c, m, lt, 0), lambda u: c * (u - m) + lt),):
        u = S.proximal(qq)
        r = -(g(u) + qg(p, u))
        check_subgrad(ctx, 'l1norm', r[ix], u[ix], l1, 'proximal map')
        check_subgrad(ctx, 'l1norm', r[other], u[other], l2_, 'proximal map')
        ctx.eq(qq.objective(x0, 'func'), c * sq(x0 - m) / 2. + dot(lt, x0), 'argument unchanged')
    ctx.eq(x, x0, 'point unchanged')
    ctx.true(x.shape == (n,), 'point keeps its shape')
    sel = S.selectors
    ctx.true(tuple(sel[0].output_shape) == (2, 2), 'selector shape')
    ctx.eq(sel[0].linear_map(x), x0[ix].reshape((2, 2)), 'selector')
    ctx.eq(sel[1].linear_map(x), x0[other], 'selector')
    w = ctx.mat('w', 2, 2)
    want = np.zeros(n, dtype=object)
    want[ix] = np.asarray(w).reshape(-1)
    ctx.eq(sel[0].adjoint_map(w), want, 'adjoint of the selector')


def sep_matrix(ctx, how):
    """blocks and columns of a matrix penalised after reshaping; sums of norms and of constraints"""
    import regreg.atoms.seminorms as SM
    from regreg.problems.separable import separable
    sh = (3, 2)
    groups = {'block': [np.s_[:2, :1], np.s_[2]], 'column': [np.s_[:, 1], np.s_[:2, 0]],
              'rows': [np.s_[1:], np.s_[0]], 'strided': [np.s_[::2, ::-1], np.s_[1, :]]}[how]
    shapes = {'block': [(2,), None], 'column': [(3, 1), (2, 1)], 'rows': [(4,), (1, 2)], 'strided': [(4,), None]}[how]
    I = np.arange(6).reshape(sh)
    ix = [I[g].reshape(-1) for g in groups]
    shp = [s or I[g].shape for s, g in zip(shapes, groups)]
    l1, l2_ = ctx.real('lam1', pos=True, hi=8), ctx.real('lam2', pos=True, hi=8)
    S = separable(sh, [SM.l1norm(shp[0], lagrange=l1), SM.l1norm(shp[1], lagrange=l2_)], groups, shapes=shapes)
    C = separable(sh, [SM.l1norm(shp[0], bound=l1), SM.supnorm(shp[1], bound=l2_)], groups, shapes=shapes)
    X = ctx.arr(np.array([[1., -2.], [.5, 4.], [-3., 1.5]]))
    t = ctx.real('t', lo=-8, hi=8)
    X[0, 0] = t
    X0 = X.copy()
    x = X.reshape(-1)
    a, b = total([absv(x[i]) for i in ix[0]]), total([absv(x[i]) for i in ix[1]])
    m = maxv([absv(x[i]) for i in ix[1]])
    ctx.eq(S.nonsmooth_objective(X), l1 * a + l2_ * b, 'value')
    ctx.eq(S.seminorm(X), l1 * a + l2_ * b, 'sum of norms')
    ctx.eq(S.seminorm(X, lagrange=3.), 3. * (a + b), 'sum of norms at a level given in the call')
    tol = 1e-3
    for B in (None, 2.):
        ba, bb = (l1, l2_) if B is None else (B, B)
        if a < ba * (1 - tol) and m < bb * (1 - tol):
            want = 0
        elif a > ba * (1 + tol) or m > bb * (1 + tol):
            want = np.inf
        else:
            continue
        ctx.true(float(C.constraint(X) if B is None else C.constraint(X, bound=B)) == want, 'sum of constraints')
        if B is None:
            ctx.true(float(C.nonsmooth_objective(X, check_feasibility=True)) == want, 'feasibility')
    U = S.proximal(ident(2., X))
    R = 2. * (X - U)
    check_subgrad(ctx, 'l1norm', R.reshape(-1)[ix[0]], U.reshape(-1)[ix[0]], l1, 'proximal map')
    check_subgrad(ctx, 'l1norm', R.reshape(-1)[ix[1]], U.reshape(-1)[ix[1]], l2_, 'proximal map')
    for i in set(range(6)) - set(ix[0]) - set(ix[1]):
        ctx.eq(R.reshape(-1)[i], 0, 'uncovered')
    ctx.eq(X, X0, 'point unchanged')
    ctx.true(X.shape == sh, 'point keeps its shape')
    for k, sel in enumerate(S.selectors):
        ctx.eq(sel.linear_map(X), x[ix[k]].reshape(shp[k]), 'selector %d' % k)


def overlap(ctx, n):
    """overlap test for pairs of slices with every pair of end points"""
    from regreg.problems.separable import has_overlap, separable
    import regreg.atoms.seminorms as SM
    b = [ctx.choice('b%d' % i, list(range(n + 1))) for i in range(4)]
    g = [slice(b[0], b[1]), slice(b[2], b[3])]
    A = [set(np.arange(n)[s]) for s in g]
    want = bool(A[0] & A[1])
    ctx.true(has_overlap((n,), g) == want, 'overlap of %s' % (g,))
    x = ctx.vec('x', n)
    ctx.true(has_overlap((n,), [np.isin(np.arange(n), list(a)) for a in A]) == want, 'overlap of masks')
    try:
        separable((n,), [SM.l1norm((max(len(a), 1),), lagrange=1.) for a in A], g, test_for_overlap=True)
        ok = True
    except ValueError:
        ok = False
    ctx.true(ok != want, 'overlapping groups refused')


def sep_problem(ctx, how):
    from regreg.problems.separable import separable_problem, separable
    import regreg.atoms.seminorms as SM
    n = 2
    l, lval, lgrad, pl = loss_(ctx, n, True)
    lam = [ctx.real('lam%d' % i, pos=True) for i in range(2)]
    if how == 'singleton':
        a = SM.l1norm((n,), lagrange=lam[0])
        prob = separable_problem.singleton(a, l)
        val = lambda x: lam[0] * (absv(x[0]) + absv(x[1]))
        lams = [lam[0], lam[0]]
    else:
        atoms = [SM.l1norm((1,), lagrange=v) for v in lam]
        S = separable((n,), atoms, [slice(0, 1), slice(1, 2)])
        prob = separable_problem.fromatom(S, l) if how == 'fromatom' else \
            separable_problem(l, (n,), atoms, [slice(0, 1), slice(1, 2)])
        lams = lam
        val = lambda x: lam[0] * absv(x[0]) + lam[1] * absv(x[1])
        ctx.true(len(prob.selectors) == 2, 'selectors')
        start = ctx.vec('start', n)
        S = separable((n,), atoms, [slice(0, 1), slice(1, 2)], initial=start)
        ctx.eq(S.coefs, start, 'initial coefficients')
        S.coefs[:] = 0
        ctx.true(S.coefs is not start, 'initial coefficients copied')
    x = ctx.vec('x', n)
    ctx.eq(prob.objective(x), lval(x) + qv(pl, x) + val(x), 'objective')
    q, pz = mkq(ctx, 'z', ('vec', 'vec'), n)
    u = prob.proximal(q)
    g = -(qgrad(pz, u) + qg(pl, u))
    for i in range(n):
        check_subgrad(ctx, 'l1norm', g[i:i + 1], u[i:i + 1], lams[i], 'proximal map')


def sep_problem_shapes(ctx):
    """the problem's penalty acts on reshaped groups; overlapping groups refused on request"""
    from regreg.problems.separable import separable_problem, separable
    import regreg.atoms.seminorms as SM
    n = 5
    l, lval, lgrad, pl = loss_(ctx, n, False, m=1)
    lam = [ctx.real('lam%d' % i, pos=True) for i in range(2)]
    groups, shapes = [slice(0, 4), slice(4, 5)], [(2, 2), (1,)]
    atoms = lambda: [SM.l1norm(s, lagrange=v) for s, v in zip(shapes, lam)]
    x = ctx.vec('x', n)
    for i in range(1, n):
        ctx.assume_ge(x[i], 0)
    val = lam[0] * total([absv(v) for v in x[:4]]) + lam[1] * absv(x[4])
    w = ctx.vec('w', n)
    for how in ('direct', 'fromatom'):
        P = separable_problem(l, (n,), atoms(), groups, shapes=list(shapes)) if how == 'direct' else \
            separable_problem.fromatom(separable((n,), atoms(), groups, shapes=list(shapes)), l)
        ctx.eq(P.objective(x), lval(x) + val, 'objective')
        ctx.eq(P.nonsmooth_objective(x), val, 'penalty')
        for k, (g, s) in enumerate(zip(groups, shapes)):
            sel = P.selectors[k]
            ctx.true(tuple(sel.output_shape) == s, 'selector shape')
            ctx.eq(sel.linear_map(w), w[g].reshape(s), 'selector')
    for over, want in ((False, False), (True, True)):
        try:
            separable_problem(l, (n,), atoms(), [slice(0, 4), slice(3 if over else 4, 4 if over else 5)], test_for_overlap=True,
                              shapes=list(shapes))
            refused = False
        except ValueError:
            refused = True
        ctx.true(refused == want, 'overlapping groups refused')


# ---------------------------------------------------------------- containers and duals

def terms(ctx, kinds, n, rows=2):
    """penalties composed with linear maps: object, matrix (rows), offset, (norm, weight)"""
    import regreg.atoms.seminorms as SM
    import regreg.affine as A
    out = []
    for k, kind in enumerate(kinds):
        lam = ctx.real('lam%d' % k, pos=True)
        name, _, how = kind.partition(':')
        klass = getattr(SM, name)
        if how == '':
            out.append((klass((n,), lagrange=lam), np.eye(n), np.zeros(n), name, lam))
        elif how == 'off':
            o = offvec(ctx, 'o%d' % k, n)
            out.append((klass((n,), lagrange=lam, offset=o), np.eye(n), -o.copy(), name, lam))
        elif how == 'lin':
            D = ctx.mat('D%d' % k, rows, n)
            out.append((klass.linear(D, lagrange=lam), D, np.zeros(rows), name, lam))
        elif how == 'aff':
            D, o = ctx.mat('D%d' % k, rows, n), offvec(ctx, 'o%d' % k, rows)
            out.append((klass.affine(D, o, lagrange=lam), D, o.copy(), name, lam))
        elif how == 'sel':
            from regreg.atoms import affine_atom
            ix = slice(0, 2)
            out.append((affine_atom(klass((2,), lagrange=lam), A.selector(ix, (n,))), np.eye(n)[:2], np.zeros(2), name, lam))
        elif how == 'sellin':
            from regreg.atoms import affine_atom
            ix = slice(0, 2)
            M = ctx.mat('M%d' % k, 2, 2)
            S = A.selector(ix, (n,), A.linear_transform(M))
            D = np.array([[M[i, j] if j < 2 else 0. for j in range(n)] for i in range(2)], dtype=object)
            out.append((affine_atom(klass((2,), lagrange=lam), S), D, np.zeros(2), name, lam))
    return out


def app(D, o, x):
    return np.array([dot(D[i], x) + o[i] for i in range(len(o))])


def tapp(D, u):
    return np.array([dot([D[i][j] for i in range(len(u))], u) for j in range(len(D[0]))])


def conj_value(ctx, T, u, what):
    """conjugate of lam*h(v + o) at u: -<o, u> on the dual ball"""
    obj, D, o, name, lam = T
    return -dot(o, u)


def cont_make(ctx, kinds, n, losses, lq, cq):
    from regreg.problems.container import container
    T = terms(ctx, kinds, n)
    L = [loss_(ctx, n, lq, tag=str(i), m=1) for i in range(losses)]
    C = container(*([l[0] for l in L] + [t[0] for t in T]))
    p = None
    if cq:
        C.quadratic, p = mkq(ctx, 'c', ('vec', 'vec'), n, 'nonneg')
    quad = lambda x: total([0] + [qv(l[3], x) for l in L]) + qv(p, x)
    qgr = lambda x: sum([qg(l[3], x) for l in L], 0) + qg(p, x)
    return C, T, L, quad, qgr


def cont_value(ctx, kinds, n, losses, lq, cq):
    C, T, L, quad, qgr = cont_make(ctx, kinds, n, losses, lq, cq)
    x = ctx.vec('x', n)
    x0 = x.copy()
    sv = total([0] + [l[1](x) for l in L])
    sg = sum([l[2](x) for l in L], np.zeros(n))
    ctx.eq(C.smooth_objective(x, 'func'), sv, 'smooth part')
    ctx.eq(C.smooth_objective(x, 'grad'), sg, 'smooth gradient')
    v, g = C.smooth_objective(x, 'both')
    ctx.eq(v, sv, 'smooth part (both)')
    ctx.eq(g, sg, 'smooth gradient (both)')
    nv = total([0] + [t[4] * NORMS[t[3]].val(app(t[1], t[2], x)) for t in T]) + quad(x)
    ctx.eq(C.nonsmooth_objective(x), nv, 'nonsmooth part')
    ctx.eq(C.objective(x), sv + nv, 'objective')
    ctx.eq(x, x0, 'argument unchanged')


def cont_prox(ctx, kinds, n, losses, lq, cq, hist=False):
    """the proximal map of several composed penalties is recovered from an arbitrary dual optimum"""
    from regreg.problems.container import container
    C, T, L, quad, qgr = cont_make(ctx, kinds, n, losses, lq, cq)
    m = [len(t[2]) for t in T]
    N = sum(m)
    u = ctx.vec('u', N)
    u0 = u.copy()
    log = []
    q, pz = mkq(ctx, 'z', ('vec', 'vec'), n)
    ref = ctx.real('ref', pos=True)

    class Solver(object):
        perform_backtrack = True
        debug = False

        def __init__(self, composite):
            self.composite = composite

        def fit(self, **kw):
            c = self.composite
            log.append(dict(comp=c, kw=kw, backtrack=self.perform_backtrack))
            c.coefs[:] = u
            return ['history']
    with Patch(container, 'default_solver', Solver):
        args = dict(dual_reference_lipschitz=ref)
        if hist:
            args['return_objective_hist'] = True
        x = C.proximal(q, prox_control=args)
    if hist:
        ctx.true(isinstance(x, tuple) and x[1] == ['history'], 'history returned')
        x = x[0]
    ctx.true(len(log) == 1, 'dual solved once')
    comp = log[0]['comp']
    pos = np.cumsum([0] + m)
    Dtu = sum([tapp(t[1], u0[pos[i]:pos[i + 1]]) for i, t in enumerate(T)], np.zeros(n))
    # stationarity of the primal answer for the dual point the solver stopped at
    ctx.eq(qgrad(pz, x) + qgr(x) + Dtu, np.zeros(n), 'primal solution from the dual one')
    # the dual problem that was solved: smooth part f*(-D'u), penalty g*
    g = comp.smooth_objective(u0, 'grad')
    Dx = np.array([v for t in T for v in app(t[1], np.zeros(len(t[2])), x)])
    ctx.eq(g, -Dx, 'dual gradient')
    v = comp.smooth_objective(u0, 'func')
    ctx.eq(v, -dot(Dtu, x) - (qval(pz, x) + quad(x)), 'dual value')
    # a Lipschitz constant of the dual gradient, given one of D D'
    tot = ctx.num(1) * pz[0] + total([0] + [l[3][0] for l in L if l[3] is not None]) + (C.quadratic.coef if cq else 0)
    ctx.eq(comp.lipschitz * tot, ref, 'dual step size')
    ctx.true(not log[0]['backtrack'], 'fixed step')
    # penalty: proximal map of g*(u) = sum_i (lam_i h_i)*(u_i) - <o_i, u_i>
    qd, pd = mkq(ctx, 'd', ('none', 'vec'), N)
    w = comp.proximal(qd)
    for i, t in enumerate(T):
        s = slice(pos[i], pos[i + 1])
        r = -qgrad(pd, w)[s] + t[2]
        # r in the subdifferential of (lam h)* at w <=> w in lam * d h(r)
        check_subgrad(ctx, t[3], w[s], r, t[4], 'dual proximal map')
    z = ctx.vec('zz', n)
    ctx.eq(q.objective(z, 'func'), qval(pz, z), 'argument unchanged')


def cont_direct(ctx, kind, n, losses, lq, cq):
    """one penalty, on all or a part of the coordinates: the proximal map is closed form"""
    C, T, L, quad, qgr = cont_make(ctx, [kind], n, losses, lq, cq)
    q, pz = mkq(ctx, 'z', ('vec', 'vec'), n)
    t = T[0]
    x = C.proximal(q)
    g = -(qgrad(pz, x) + qgr(x))
    m = len(t[2])
    check_subgrad(ctx, t[3], g[:m], x[:m] + t[2], t[4], 'proximal map')
    ctx.eq(g[m:], np.zeros(n - m), 'unpenalised coordinates')


def cont_smooth(ctx, n, lq):
    """no penalty at all"""
    C, T, L, quad, qgr = cont_make(ctx, [], n, 2, lq, True)
    x = ctx.vec('x', n)
    ctx.eq(C.objective(x), total([l[1](x) for l in L]) + quad(x), 'objective')
    q, pz = mkq(ctx, 'z', ('vec', 'vec'), n)
    u = C.proximal(q)
    ctx.eq(qgrad(pz, u) + qgr(u), np.zeros(n), 'proximal map')


def cont_solve(ctx, n, extra, opt):
    import regreg.problems.container as CM
    C, T, L, quad, qgr = cont_make(ctx, ['l1norm', 'l1norm:lin'], n, 1, True, True)
    pe = None
    args = {}
    if extra:
        args['quadratic'], pe = mkq(ctx, 'e', ('vec', 'vec'), n, 'nonneg')
    z, ans = ctx.vec('z', n), ctx.vec('s', n)
    for v in ans[1:]:
        ctx.assume_ge(v, 1)
    for v in z[1:]:
        ctx.assume_ge(v, 1)
    ans0 = ans.copy()
    log = []
    with Patch(CM, 'FISTA', stub(ctx, ans, z, log)):
        out = C.solve(return_optimum=opt, **args)
    full = lambda x: total([l[1](x) for l in L]) + quad(x) + total([t[4] * NORMS[t[3]].val(app(t[1], t[2], x)) for t in T])
    ctx.eq(log[0]['obj'], full(z) + qv(pe, z), 'problem handed to the solver')
    if opt:
        ctx.eq(out[0], full(ans0) + qv(pe, ans0), 'optimal value')
        out = out[1]
    ctx.eq(out, ans0, 'solution')
    ctx.eq(C.objective(z), full(z), 'problem restored')


def cont_refused(ctx):
    from regreg.problems.container import container
    import regreg.atoms.seminorms as SM
    lam = ctx.real('lam', pos=True)
    for args in ([], [SM.l1norm((2,), lagrange=lam), 3], ['atom']):
        try:
            container(*args)
            ok = False
        except ValueError:
            ok = True
        ctx.true(ok, 'refused')


def dual(ctx, kinds, n, opt):
    """dual problem built from a primal one: value, gradient, primal point, proximal map, weak duality"""
    import regreg.problems.dual_problem as DP
    from regreg.smooth.quadratic import quadratic_loss
    T = terms(ctx, kinds, n)
    c = ctx.real('c', pos=True)
    m = offvec(ctx, 'm', n)
    f = quadratic_loss.shift(m, coef=c)
    f.quadratic, pf = mkq(ctx, 'f', ('vec', 'vec'), n, 'nonneg')
    fval = lambda x: c * sq(x - m) / 2. + qval(pf, x)
    D = DP.dual_problem.fromprimal(f, *[t[0] for t in T])
    sizes = [len(t[2]) for t in T]
    pos = np.cumsum([0] + sizes)
    N = sum(sizes)
    u = ctx.vec('u', N)
    u0 = u.copy()
    Dtu = sum([tapp(t[1], u0[pos[i]:pos[i + 1]]) for i, t in enumerate(T)], np.zeros(n))
    k = c + pf[0]
    x = (c * m + pf[0] * pf[1] - pf[2] - Dtu) / k          # argmax <-D'u, x> - f(x)
    val = -dot(Dtu, x) - fval(x)
    o = -dot(np.concatenate([t[2] for t in T]), u0)
    g = -np.array([v for t in T for v in app(t[1], np.zeros(len(t[2])), x)])
    ctx.eq(D.smooth_objective(u, 'grad'), g, 'gradient')
    ctx.eq(D.primal, x, 'primal point')
    v, g2 = D.smooth_objective(u, 'both')
    ctx.eq(g2, g, 'gradient (both)')
    # constants and the linear part of the conjugates may be accounted for in either part
    ctx.eq(v, D.smooth_objective(u, 'func'), 'value (both)')
    ctx.eq(D.objective(u), val + o, 'dual objective')
    ctx.eq(u, u0, 'argument unchanged')
    qd, pd = mkq(ctx, 'd', ('none', 'vec'), N)
    w = D.proximal(qd)
    for i, t in enumerate(T):
        s = slice(pos[i], pos[i + 1])
        check_subgrad(ctx, t[3], w[s], -qgrad(pd, w)[s] + t[2], t[4], 'dual proximal map')
    log = []
    with Patch(DP, 'FISTA', stub(ctx, u0, None, log)):
        D.smooth_objective(u0, 'both')
        out = D.solve(return_optimum=opt)
    if opt:
        ctx.eq(out[0], val + o, 'optimal value')
        out = out[1]
    ctx.eq(out, x, 'primal solution')


# ---------------------------------------------------------------- conjugate objects

def conj(ctx, name, neg, quad, atomq):
    from regreg.problems.conjugate import conjugate
    n = 2
    lam = ctx.real('lam', pos=True)
    a, aval, o, pa = atom_(ctx, name, n, lam, True, atomq)
    args = {}
    p = None
    if quad:
        args['quadratic'], p = mkq(ctx, 'q', ('vec', 'vec') if quad != 'bare' else ('none', 'none'), n)
    else:
        ctx.assume_gt(pa[0], 0)
    C = conjugate(a, negate=neg, **args)
    x = ctx.vec('x', n)
    s = -1 if neg else 1
    full = lambda z: aval(z) + qv(p, z)
    for k in range(2):
        g = C.smooth_objective(x, 'grad')
        u = s * g
        check_subgrad(ctx, name, s * x - qg(pa, u) - qg(p, u), u - o, lam, 'gradient is the maximiser')
        ctx.eq(C.smooth_objective(x, 'func'), s * dot(u, x) - full(u), 'value')
        v, g2 = C.smooth_objective(x, 'both')
        ctx.eq(v, s * dot(u, x) - full(u), 'value (both)')
        ctx.eq(g2, g, 'gradient (both)')
    z = ctx.vec('z', n)
    ctx.eq(a.nonsmooth_objective(z), aval(z), 'penalty unchanged')
    if quad:
        ctx.eq(args['quadratic'].objective(z, 'func'), qval(p, z), 'quadratic unchanged')


def conj_smooth(ctx, neg):
    from regreg.problems.conjugate import conjugate
    import regreg.problems.simple as SP
    n = 2
    l, lval, lgrad, pl = loss_(ctx, n, True)
    q, p = mkq(ctx, 'q', ('vec', 'vec'), n)
    C = conjugate(l, quadratic=q, negate=neg)
    x, z, ans = ctx.vec('x', n), ctx.vec('z', n), ctx.vec('s', n)
    ans0 = ans.copy()
    s = -1 if neg else 1
    full = lambda t: lval(t) + qv(pl, t) + qval(p, t)
    for mode in ('both', 'func', 'grad'):
        log = []
        with Patch(SP, 'FISTA', stub(ctx, ans, z, log)):
            out = C.smooth_objective(x, mode)
        ctx.eq(log[0]['obj'], full(z) - s * dot(x, z), 'problem handed to the solver')
        v, g = out if mode == 'both' else ((out, None) if mode == 'func' else (None, out))
        if v is not None:
            ctx.eq(v, s * dot(ans0, x) - full(ans0), 'value (%s)' % mode)
        if g is not None:
            ctx.eq(g, s * ans0, 'gradient (%s)' % mode)
    ctx.eq(q.objective(z, 'func'), qval(p, z), 'quadratic unchanged')


# ---------------------------------------------------------------- smoothing schemes

def capture(ctx, answers, probe, log):
    """stand-in for simple_problem.solve"""
    def solve(self, quadratic=None, return_optimum=False, **kw):
        k = len(log)
        log.append(dict(obj=self.objective(probe.copy()) + (quadratic.objective(probe, 'func') if quadratic is not None else 0),
                        kw=kw, prob=self, quadratic=quadratic))
        self.coefs[:] = answers[k]
        # leave the smooth part evaluated at the answer, as an exact solver would
        self.smooth_objective(self.coefs, 'grad')
        return self.coefs
    return solve


def nesta(ctx, kind, steps, lossq, pen, extra, start):
    """each stage solves loss + penalty + smoothed term + quadratic; dual points follow the smoothed term"""
    import regreg.problems.simple as SP
    n = 1 if kind in ('l1norm', 'l1norm:off') else 2
    t = terms(ctx, [kind], n, 1)[0]
    obj, D, o, name, lam = t
    m = len(o)
    loss, lval, lgrad, pl = loss_(ctx, n, lossq, m=1) if lossq is not None else (None, lambda x: 0, None, None)
    a, aval = None, lambda x: 0
    if pen:
        mu = ctx.real('mu', pos=True)
        a, aval, oa, pa = atom_(ctx, 'l1norm', n, mu, False, False, 'p')
    pe = None
    args = {}
    if extra:
        args['quadratic'], pe = mkq(ctx, 'e', ('vec', 'vec'), n, 'nonneg')
    u = ctx.zeros(m)
    if start:
        args['initial_dual'] = ctx.vec('u', m)
        u = args['initial_dual'].copy()
    eps = [ctx.real('eps%d' % k, pos=True) for k in range(steps)]
    xs = [ctx.vec('x%d' % k, n) for k in range(steps)]
    z = ctx.vec('z', n)
    if pen:
        for v in z:
            ctx.assume_ge(v, 1)
    log = []
    with Patch(SP.simple_problem, 'solve', capture(ctx, [x.copy() for x in xs], z, log)):
        primal, dualc = SP.nesta(loss, a, obj, epsilon=eps, tol=1e-9, min_iters=steps + 1, **args)
    ctx.true(len(log) == steps, 'number of stages')
    u0 = u.copy()
    for k in range(steps):
        # smoothed term at z: max_w <w, Dz + o> - (lam h)*(w) - eps/2 |w - u|^2, attained at the projection w of
        # u + (Dz+o)/eps on the dual ball; checked through the optimality of the recorded stage
        S = log[k]['obj'] - lval(z) - qv(pl, z) - aval(z) - qv(pe, z)
        v = app(D, o, z)
        w = argmax(ctx, name, lam, u + v / eps[k], 'w%d' % k)
        ctx.eq(S, dot(w, v) - eps[k] * sq(w - u) / 2., 'stage %d' % k)
        v = app(D, o, xs[k])
        w = argmax(ctx, name, lam, u + v / eps[k], 'v%d' % k)
        u = w + (ctx.num(k) / (k + 3)) * (w - u)
    ctx.eq(primal, xs[-1], 'primal solution')
    ctx.eq(dualc, u, 'dual solution')
    if start:
        ctx.eq(args['initial_dual'], u0, 'initial dual unchanged')


def argmax(ctx, name, lam, v, tag):
    """projection of v on the dual ball of lam * norm, coordinatewise (l1norm / positive_part)"""
    w = ctx.zeros(len(v))
    for i in range(len(v)):
        lo = -lam if name == 'l1norm' else 0 * lam
        w[i] = lam if v[i] > lam else (lo if v[i] < lo else v[i])
    return w


def tfocs(ctx, off, steps, extra):
    """stages of the TFOCS scheme"""
    import regreg.problems.simple as SP
    import regreg.affine as A
    import regreg.atoms.seminorms as SM
    n, m = 1, 1
    lam = ctx.real('lam', pos=True)
    f = SM.l1norm((n,), lagrange=lam)
    D = ctx.mat('D', m, n) if steps == 1 else ctx.arr(np.array([[1.]]))
    o = offvec(ctx, 'o', m) if off else None
    o0 = o.copy() if off else np.zeros(m)
    T = A.affine_transform(D, o)
    mu = ctx.real('mu', pos=True)
    h = SM.l1norm((m,), bound=mu)                     # dual penalty
    pe = None
    args = {}
    if extra:
        args['quadratic'], pe = mkq(ctx, 'e', ('none', 'vec'), n, 'nonneg')
    eps = [ctx.real('eps%d' % k, pos=True) for k in range(steps)]
    us = [ctx.vec('u%d' % k, m) for k in range(steps)]
    z = ctx.vec('z', m)
    for v in us + [z]:
        for w in v:
            ctx.assume_ge(mu, w)
            ctx.assume_ge(w, -mu)
    if steps == 2:
        ctx.assume_ge(-us[0][0] - lam, 1)           # the first answer is on one known piece
    log = []
    with Patch(SP.simple_problem, 'solve', capture(ctx, [x.copy() for x in us], z, log)):
        primal, dualc = SP.tfocs(f, T, h, epsilon=eps, tol=1e-9, coef_tol=0., **args)
    x = ctx.zeros(n)

    def inner(w, k, x):
        """max_x <-D'w, y> - lam|y| - eps/2 |y - x|^2 - extra(y)"""
        c = eps[k] + (pe[0] if pe is not None else 0)
        v = -tapp(D, w) + eps[k] * x - (pe[2] if pe is not None else 0)
        y = ctx.zeros(n)
        for i in range(n):
            y[i] = (v[i] - lam) / c if v[i] > lam else ((v[i] + lam) / c if v[i] < -lam else 0 * v[i])
        val = -dot(tapp(D, w), y) - lam * total([absv(t) for t in y]) - eps[k] * sq(y - x) / 2. - qv(pe, y)
        return y, val
    done = len(log)
    for k in range(done):
        y, val = inner(z, k, x)
        # the dual problem minimises f*_eps(-D'u) - <o, u> + h*(u)
        ctx.eq(log[k]['obj'], val - dot(o0, z), 'stage %d' % k)
        y, val = inner(us[k], k, x)
        last = x
        x = y + (ctx.num(k) / (k + 3)) * (y - x)
    ctx.eq(dualc, us[done - 1], 'dual solution')
    ctx.true(done == steps, 'number of stages')
    ctx.eq(primal, x, 'primal solution')


def obligations(tier):
    deep = tier != 'quick'
    for aq in (False, True):
        for lq in (False, True):
            for pq in (False, True):
                yield Ob('simple[l1norm,%s,%s,%s]' % (aq, lq, pq), simple, dict(name='l1norm', n=2, aq=aq, lq=lq, pq=pq, how='both'))
    for nm in ('supnorm', 'positive_part', 'constrained_positive_part'):
        yield Ob('simple[%s]' % nm, simple, dict(name=nm, n=2 if deep else 1, aq=False, lq=True, pq=False, how='both'))
    for how in ('smooth', 'nonsmooth'):
        yield Ob('simple[%s]' % how, simple, dict(name='l1norm', n=2, aq=how == 'nonsmooth', lq=True, pq=True, how=how))
    for extra in (False, True):
        for opt in (False, True):
            yield Ob('simple.solve[%s,%s]' % (extra, opt), simple_solve, dict(n=2 if deep else 1, extra=extra, opt=opt))
    for nm in ('l1norm', 'positive_part'):
        for lq in (False, True):
            yield Ob('gengrad step[%s,%s]' % (nm, lq), gengrad, dict(name=nm, n=2 if deep else 1, lq=lq))
    yield Ob('gengrad fixed point', gengrad_fixed, dict(n=2 if deep else 1))
    for layout in [k for k in GROUPS if k not in ('many', 'blocks')]:
        for q in (False, True):
            yield Ob('separable[%s,%s]' % (layout, q), sep, dict(layout=layout, q=q))
        if layout in ('slices', 'whole', 'partial'):
            for k in range(4):
                yield Ob('separable, scalar terms[%s,%d]' % (layout, k), sep_scalar, dict(layout=layout, k=k))
    for layout in ('slices', 'lists', 'whole', 'strided'):
        for q in (False, True):
            yield Ob('separable conjugate[%s,%s]' % (layout, q), sep_conjugate, dict(layout=layout, q=q))
    for layout in ('front', 'strided', 'list'):
        for q in (False, True):
            yield Ob('separable shapes[%s,%s]' % (layout, q), sep_shapes, dict(layout=layout, q=q))
    for layout in ('slices', 'partial', 'lists', 'strided'):
        for mode in ('lagrange', 'bound'):
            yield Ob('separable norm[%s,%s]' % (layout, mode), sep_norm, dict(layout=layout, mode=mode))
    for layout, ats in (('many', (0, 3, 10, 13, 14, 39)), ('blocks', (2, 41, 9, 46))):
        for at in ats:
            yield Ob('separable[%s,%d]' % (layout, at), sep_wide, dict(layout=layout, at=at, q=at % 2 == 0))
    for how in ('block', 'column', 'rows', 'strided'):
        yield Ob('separable matrix[%s]' % how, sep_matrix, dict(how=how))
    yield Ob('overlap', overlap, dict(n=4 if deep else 3))
    for how in ('singleton', 'fromatom', 'direct'):
        yield Ob('separable problem[%s]' % how, sep_problem, dict(how=how))
    yield Ob('separable problem[shapes]', sep_problem_shapes)
    two = [('l1norm', 'l1norm:lin'), ('positive_part', 'l1norm:aff'), ('l1norm:off', 'positive_part:lin')]
    for kinds in two:
        for losses, lq, cq in ((1, False, False), (2, True, True), (0, False, True)):
            yield Ob('container value[%s,%d,%s,%s]' % ('+'.join(kinds), losses, lq, cq), cont_value,
                     dict(kinds=kinds, n=2, losses=losses, lq=lq, cq=cq))
    for kinds in two + [('l1norm:lin',), ('l1norm:aff',), ('l1norm:sellin',), ('l1norm:sel', 'l1norm')]:
        for lq, cq in ((False, False), (True, False), (False, True), (True, True)):
            yield Ob('container prox[%s,%s,%s]' % ('+'.join(kinds), lq, cq), cont_prox,
                     dict(kinds=kinds, n=3 if 'sel' in kinds[0] else 2, losses=1, lq=lq, cq=cq, hist=lq and cq))
    for kind in ('l1norm', 'l1norm:off', 'l1norm:sel', 'supnorm', 'supnorm:sel', 'positive_part:sel'):
        for losses, lq, cq in ((1, True, True), (0, False, False)):
            yield Ob('container direct[%s,%d]' % (kind, losses), cont_direct,
                     dict(kind=kind, n=3 if 'sel' in kind else 2, losses=losses, lq=lq, cq=cq))
    yield Ob('container smooth', cont_smooth, dict(n=2, lq=True))
    for extra in (False, True):
        for opt in (False, True):
            yield Ob('container.solve[%s,%s]' % (extra, opt), cont_solve, dict(n=2, extra=extra, opt=opt))
    yield Ob('container refused', cont_refused, {})
    for kinds in two + [('l1norm',), ('l1norm:aff',), ('supnorm:off',)]:
        yield Ob('dual[%s]' % '+'.join(kinds), dual, dict(kinds=kinds, n=2, opt=kinds[0] == 'l1norm'))
    for nm in ('l1norm', 'positive_part', 'supnorm'):
        for neg in (False, True):
            for quad, atomq in (('full', True), ('bare', False), (None, True)):
                if nm == 'supnorm' and quad == 'full' and not deep:
                    continue
                yield Ob('conjugate[%s,%s,%s,%s]' % (nm, neg, quad, atomq), conj, dict(name=nm, neg=neg, quad=quad, atomq=atomq))
    for neg in (False, True):
        yield Ob('conjugate of a loss[%s]' % neg, conj_smooth, dict(neg=neg))
    for kind, steps, lossq, pen, extra, start in (
            ('l1norm', 1, False, True, True, True), ('l1norm:aff', 1, True, True, True, True),
            ('l1norm:off', 1, None, True, False, True), ('l1norm:off', 2, None, True, False, True), ('positive_part:lin', 1, False, False, True, False)):
        if not deep and (steps == 2 or kind == 'l1norm:aff'):
            continue
        yield Ob('nesta[%s,%d]' % (kind, steps), nesta, dict(kind=kind, steps=steps, lossq=lossq, pen=pen, extra=extra, start=start))
    for off in (False, True):
        for extra in (False, True):
            yield Ob('tfocs[%s,%s]' % (off, extra), tfocs, dict(off=off, steps=1, extra=extra))
    if deep:
        yield Ob('tfocs, two stages', tfocs, dict(off=True, steps=2, extra=False))
