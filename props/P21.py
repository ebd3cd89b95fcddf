"""nuclear and operator norms, their epigraphs and factored matrices: exact spectral maps"""
from .common import *
from .P12 import mkq, qval, qgrad
from .P18 import Patch


BOUNDS = ('two by two, three by two and two by three matrices with given singular vectors (rational orthonormal systems) and '
          'symbolic singular values, levels, bounds and curvatures; the singular value decomposition of the external '
          'library enters by its definition')
LIMIT = {}
INF = float('inf')
PAIR = {'nuclear_norm': ('l1norm', 'operator_norm'), 'operator_norm': ('supnorm', 'nuclear_norm')}


def bases(shape, case=0):
    """left and right singular vectors with rational entries"""
    n, p = shape
    k = min(n, p)
    R = np.array([[.6, -.8], [.8, .6]])
    T = np.array([[1., 2., 2.], [2., 1., -2.], [2., -2., 1.]])
    U = {1: np.ones((1, 1)), 2: R if case == 0 else np.eye(2), 3: T}[n][:, :k]
    V = {1: np.ones((1, 1)), 2: R.T[::-1] if case == 0 else -R, 3: T[::-1]}[p][:k]
    return U, V


class World(object):
    """matrices with known singular vectors: U diag(d) V"""

    def __init__(self, ctx, shape, case=0):
        self.ctx, self.shape = ctx, shape
        U, V = bases(shape, case)
        # exact rationals: 0.6 and 0.8 as 3/5 and 4/5, thirds as quotients
        q = lambda M, d: ctx.arr(np.array([[ctx.num(int(round(x * d))) / ctx.num(d) for x in r] for r in M], object)) if ctx.symbolic else np.array(M) * 1.
        n, p = shape
        self.U = q(U / (3. if n == 3 else 1.) if n == 3 else U, 3 if n == 3 else 5) if ctx.symbolic else U / (3. if n == 3 else 1.)
        self.V = q(V / (3. if p == 3 else 1.) if p == 3 else V, 3 if p == 3 else 5) if ctx.symbolic else V / (3. if p == 3 else 1.)
        self.k = min(shape)
        self.known = []

    def singular(self, name='d', fixed=None):
        ctx = self.ctx
        d = ctx.vec(name, self.k)
        for i in range(self.k):
            ctx.assume_ge(d[i])
            if i:
                ctx.assume_ge(d[i - 1] - d[i])
        return d

    def mat(self, d):
        ctx = self.ctx
        n, p = self.shape
        X = ctx.zeros((n, p))
        for i in range(n):
            for j in range(p):
                X[i, j] = total([self.U[i, k] * d[k] * self.V[k, j] for k in range(self.k)])
        return X

    def know(self, d):
        self.known.append(d)
        return self.mat(d)

    def diag(self, X, label):
        """the spectral values of X in these bases; X must be spanned by them"""
        ctx = self.ctx
        e = [total([self.U[i, k] * X[i, j] * self.V[k, j] for i in range(self.shape[0]) for j in range(self.shape[1])]) for k in range(self.k)]
        ctx.eq(self.mat(e), X, label + ': same singular vectors')
        out = ctx.zeros(self.k)
        for i, x in enumerate(e):
            out[i] = x
        return out

    def svd(self):
        """stand-in for the library's decomposition, by its definition, on the matrices this world knows"""
        world = self

        def svd(X, full_matrices=True, compute_uv=True, **k):
            ctx = world.ctx
            ctx.true(not full_matrices or world.shape[0] == world.shape[1], 'economy decomposition')
            ctx.true(tuple(np.shape(X)) == tuple(world.shape), 'shape of the decomposed matrix')
            d = world.known[-1]
            ctx.eq(X, world.mat(d), 'decomposed matrix')
            out = ctx.zeros(world.k)
            for i in range(world.k):
                out[i] = d[i]
            return world.U.copy(), out, world.V.copy()
        import regreg.atoms.svd_norms as M
        return Quiet2(M.np.linalg, 'svd', svd) if self.ctx.symbolic else Nothing()


def normal(ctx, M):
    """random starting blocks do not matter: the decomposition enters by its definition"""
    return Quiet2(M.np.random, 'standard_normal', lambda shape: ctx.arr(np.ones(shape)))


class Nothing(object):

    def __enter__(self):
        pass

    def __exit__(self, *a):
        pass


class Quiet2(Patch):

    def __enter__(self):
        self.own = self.name in vars(self.obj)
        self.old = vars(self.obj).get(self.name)
        setattr(self.obj, self.name, self.new)

    def __exit__(self, *a):
        if self.own:
            setattr(self.obj, self.name, self.old)
        else:
            delattr(self.obj, self.name)


def value(ctx, name, shape, case):
    import regreg.atoms.svd_norms as M
    W = World(ctx, shape, case)
    d = W.singular()
    X = W.know(d)
    X0 = X.copy()
    lam = ctx.real('lam', nonneg=True)
    N = NORMS[PAIR[name][0]]
    with W.svd():
        a = getattr(M, name)(shape, lagrange=lam)
        ctx.eq(a.seminorm(X), lam * N.val(d), 'norm')
        ctx.eq(a.seminorm(X, lagrange=2.), 2 * N.val(d), 'norm with the level of the call')
        ctx.eq(a.nonsmooth_objective(X), lam * N.val(d), 'objective')
        for call in (False, True):
            b = getattr(M, name)(shape, bound=lam if not call else 7.)
            v = b.constraint(X, bound=lam) if call else b.constraint(X)
            if N.val(d) <= lam:
                ctx.true(v == 0, 'feasible')
            elif N.val(d) > lam * ctx.num(1.001):
                ctx.true(v == INF, 'infeasible')
    ctx.eq(X, X0, 'argument not modified')


def maps(ctx, name, shape, case, form, call):
    import regreg.atoms.svd_norms as M
    W = World(ctx, shape, case)
    d = W.singular()
    X = W.know(d)
    X0 = X.copy()
    lam = ctx.real('lam', nonneg=True)
    L = ctx.real('L', pos=True)
    with W.svd():
        if form == 'lagrange':
            a = getattr(M, name)(shape, **(dict(bound=5.) if call else dict(lagrange=lam)))
            B = a.lagrange_prox(X, lipschitz=L, lagrange=lam) if call else a.lagrange_prox(X, lipschitz=L)
        else:
            a = getattr(M, name)(shape, **(dict(lagrange=5.) if call else dict(bound=lam)))
            B = a.bound_prox(X, bound=lam) if call else a.bound_prox(X)
    ctx.eq(X, X0, 'argument not modified')
    e = W.diag(B, 'result')
    if form == 'lagrange':
        check_subgrad(ctx, PAIR[name][0], L * (d - e), e, lam, 'proximal map')
    else:
        check_projection(ctx, PAIR[name][0], d, e, lam, 'projection')


def step(ctx, name, shape, form, off):
    """proximal step with offset and an attached quadratic (spectral data in one basis)"""
    import regreg.atoms.svd_norms as M
    from regreg.identity_quadratic import identity_quadratic as Q
    W = World(ctx, shape)
    d = W.singular()
    o = ctx.arr(np.array([.5, -1., .25])[:W.k])
    lt = ctx.arr(np.array([1., .5, -.5])[:W.k])
    lam = ctx.real('lam', nonneg=True)
    c = ctx.real('c', nonneg=True)
    # argument of the spectral map is U diag(d) V: choose the centre accordingly
    L = ctx.num(2.)
    t = c + L
    ctr = [(d[i] * t + (t * o[i] if off else 0) + lt[i]) / L for i in range(W.k)]
    W.know(d)
    with W.svd():
        a = getattr(M, name)(shape, offset=W.mat(o) if off else None, quadratic=Q(c, None, W.mat(lt), 0), **{form: lam})
        B = a.proximal(Q(L, W.mat(ctr), None, 0))
    e = W.diag(B, 'result')
    g = np.array([L * (ctr[i] - e[i]) - c * e[i] - lt[i] for i in range(W.k)])
    v = e - o if off else e
    N = NORMS[PAIR[name][0]]
    if form == 'lagrange':
        check_subgrad(ctx, PAIR[name][0], g, v, lam, 'proximal step')
    else:
        D = NORMS[N.dual]
        le0(ctx, N.le(v, lam), 'feasible')
        ctx.eq(dot(g, v), lam * D.val(g), 'normal cone')


def conj(ctx, name, shape, form):
    import regreg.atoms.svd_norms as M
    W = World(ctx, shape)
    d = W.singular()
    X = W.know(d)
    lam = ctx.real('lam', pos=True)
    N = NORMS[PAIR[name][0]]
    D = NORMS[N.dual]
    with W.svd():
        a = getattr(M, name)(shape, **{form: lam})
        C = a.conjugate
        ctx.true(type(C) is getattr(M, PAIR[name][1]), 'dual norm')
        if form == 'lagrange':
            v = C.nonsmooth_objective(X, check_feasibility=True)
            if D.val(d) <= lam:
                ctx.true(v == 0, 'domain')
            elif D.val(d) > lam * ctx.num(1.001):
                ctx.true(v == INF, 'outside the domain')
            B = a.lagrange_prox(X) + C.bound_prox(X)
        else:
            ctx.eq(C.nonsmooth_objective(X), lam * D.val(d), 'support function')
            B = a.bound_prox(X) + C.lagrange_prox(X)
        ctx.eq(B, X, 'decomposition')
        ctx.true(C.conjugate == a, 'biconjugate')


def copies(ctx, name, shape):
    from copy import copy
    import regreg.atoms.svd_norms as M
    W = World(ctx, shape)
    d = W.singular()
    lam = ctx.real('lam', nonneg=True)
    o = [ctx.num(.5)] * W.k
    W.know([d[i] - o[i] for i in range(W.k)])
    X = W.mat(d)
    with W.svd():
        a = getattr(M, name)(shape, lagrange=lam, offset=W.mat(o))
        v = a.nonsmooth_objective(X)
        b = copy(a)
        ctx.eq(b.nonsmooth_objective(X), v, 'copy')
        b.lagrange = lam + 1
        ctx.eq(a.nonsmooth_objective(X), v, 'original not affected')


# ---------------------------------------------------------------- epigraphs

def _vec(W, d, t):
    n, p = W.shape
    out = W.ctx.zeros(n * p + 1)
    out[:-1] = W.mat(d).reshape(-1)
    out[-1] = t
    return out


CONES = {'nuclear_norm_epigraph': ('l1norm', 1), 'nuclear_norm_epigraph_polar': ('supnorm', -1),
         'operator_norm_epigraph': ('supnorm', 1), 'operator_norm_epigraph_polar': ('l1norm', -1)}


def epi_member(ctx, name, shape):
    import regreg.atoms.svd_norms as M
    W = World(ctx, shape)
    d = W.singular()
    W.know(d)
    t = ctx.real('t')
    N, s = CONES[name]
    a = getattr(M, name)(shape)
    v = _vec(W, d, t)
    v0 = v.copy()
    with W.svd():
        r = a.constraint(v)
    ctx.eq(v, v0, 'argument not modified')
    if NORMS[N].val(d) <= s * t:
        ctx.true(r == 0, 'point of the cone')
    elif NORMS[N].val(d) > s * t * ctx.num(1.001) + ctx.num(2. ** -10):
        ctx.true(r == INF, 'point outside the cone')


def epi_project(ctx, name, shape, via):
    import regreg.atoms.svd_norms as M
    from regreg.identity_quadratic import identity_quadratic as Q
    W = World(ctx, shape)
    d = W.singular()
    W.know(d)
    t = ctx.real('t')
    N, s = CONES[name]
    a = getattr(M, name)(shape)
    v = _vec(W, d, t)
    v0 = v.copy()
    with W.svd():
        r = a.cone_prox(v) if via == 'direct' else a.proximal(Q(2., v, 0, 0))
    ctx.eq(v, v0, 'argument not modified')
    n, p = shape
    e = W.diag(r[:-1].reshape(shape), 'result')
    u = r[-1]
    # in the cone, residual in the polar cone, orthogonal
    le0(ctx, NORMS[N].le(e, s * u), 'feasible')
    f, w = d - e, t - u
    le0(ctx, NORMS[NORMS[N].dual].le(f, -s * w), 'residual in the polar cone')
    ctx.eq(dot(e, f) + u * w, 0, 'orthogonal')


def epi_conj(ctx, name, shape):
    import regreg.atoms.svd_norms as M
    W = World(ctx, shape)
    d = W.singular()
    W.know(d)
    t = ctx.real('t')
    a = getattr(M, name)(shape)
    v = _vec(W, d, t)
    C = a.conjugate
    ctx.true(C.matrix_shape == a.matrix_shape and C.shape == a.shape, 'shape of the polar cone')
    with W.svd():
        ctx.eq(a.cone_prox(v) + C.cone_prox(v), v, 'decomposition')
    ctx.true(type(C.conjugate) is type(a), 'bipolar')


# ---------------------------------------------------------------- factored matrices

def factored(ctx, shape, rank, off):
    from regreg.affine.factored_matrix import factored_matrix
    n, p = shape
    U = ctx.mat('U', n, rank) if hasattr(ctx, 'mat') else ctx.vec('U', n * rank).reshape((n, rank))
    D = ctx.vec('D', rank)
    V = ctx.vec('V', rank * p).reshape((rank, p))
    o = ctx.vec('o', n) if off else None
    F = factored_matrix([U, D, V], affine_offset=o)
    A = np.array([[total([U[i, k] * D[k] * V[k, j] for k in range(rank)]) for j in range(p)] for i in range(n)])
    x, u = ctx.vec('x', p), ctx.vec('u', n)
    ctx.true(tuple(F.input_shape) == (p,) and tuple(F.output_shape) == (n,), 'shapes')
    lin = np.array([dot(A[i], x) for i in range(n)])
    aff = lin + o if off else lin
    for G, tag in ((F, ''), (F.copy(), ' of a copy')):
        ctx.eq(np.reshape(G.linear_map(x), -1), lin, 'linear map' + tag)
        ctx.eq(np.reshape(G.adjoint_map(u), -1), np.array([dot(A[:, j], u) for j in range(p)]), 'adjoint map' + tag)
        ctx.eq(np.reshape(G.affine_map(x), -1), aff, 'affine map' + tag)
        ctx.eq(G.X, A, 'matrix' + tag)
    G = F.copy()
    keep = F.linear_map(x).copy()
    G.factors[0][0, 0] = G.factors[0][0, 0] + 1
    ctx.eq(F.linear_map(x), keep, 'copy shares nothing')


def dense(ctx, T, n, p, cast=lambda v: v):
    """the matrix of a linear map"""
    cols = []
    for j in range(p):
        z = np.zeros(p)
        z[j] = 1
        cols.append(np.reshape(T.linear_map(cast(z)), -1))
    A = ctx.zeros((n, p))
    for i in range(n):
        for j in range(p):
            A[i, j] = cols[j][i]
    return A


def leading(W, d, calls=None):
    """stand-in for the iteration that finds leading singular triplets, by its definition: the requested number of them
    and the padding, without those that vanish"""
    ctx = W.ctx

    def partial(T, rank=1, padding=5, max_its=1000, tol=1e-8, warm_start=None, return_full=False, debug=False, stopping_rule=None):
        from regreg.affine import astransform
        T = astransform(T)
        n, p = T.output_shape[0], T.input_shape[0]
        ctx.true(n >= p, 'decomposed with the long side in front')
        A = dense(ctx, T, n, p)
        flip = (n, p) != tuple(W.shape)
        ctx.eq(A.T if flip else A, W.mat(d), 'decomposed matrix')
        if warm_start is not None:
            ctx.true(warm_start.shape[0] == n, 'start has the long dimension')
        r = int(min(rank, p))
        q = min(r + padding, p)
        keep = [i for i in range(q if return_full else r) if d[i] > 1e-12]
        if calls is not None:
            calls.append(r)
        U, V = (W.V.T, W.U.T) if flip else (W.U, W.V)
        if not keep:
            return U[:, 0].copy(), np.zeros((1, 1)), V[0].copy()
        out = ctx.zeros(len(keep))
        for j, i in enumerate(keep):
            out[j] = d[i]
        return U[:, keep].copy(), out, V[keep].copy()
    return partial


def iteration(ctx, shape, rank, padding, cols, full, flat=False):
    """the power iteration started at the singular vectors stays there; orthonormalisation enters by its definition"""
    import regreg.affine.factored_matrix as M
    W = World(ctx, shape)
    d = W.singular()
    ctx.assume_ge(d[0] - ctx.num(1) / 2)
    X = W.mat(d)
    n, p = shape

    def qr(A, *a, **k):
        Q = W.V.T if A.shape[0] == p and (p != n or len(seen) % 2 == 0) else W.U
        seen.append(1)
        Q = Q[:, :A.shape[1]]
        R = ctx.zeros((Q.shape[1], Q.shape[1]))
        for i in range(Q.shape[1]):
            R[i, i] = dot(Q[:, i], A[:, i])
        B = ctx.zeros(A.shape)
        for i in range(A.shape[0]):
            for j in range(A.shape[1]):
                B[i, j] = Q[i, j] * R[j, j]
        ctx.eq(A, B, 'iterate is spanned by the singular vectors')
        return Q.copy(), R
    seen = []
    warm = ctx.zeros((n, cols))
    for j in range(cols):
        for i in range(n):
            warm[i, j] = W.U[i, j] if j < W.k else ctx.num(1)
    keep = warm.copy()
    with Quiet2(M.np.linalg, 'qr', qr), normal(ctx, M):
        U, D, V = M.partial_svd(X, rank=rank, padding=padding, warm_start=warm[:, 0] if flat else warm, return_full=full)
    ctx.eq(warm, keep, 'start not modified')
    want = [i for i in range(min(rank + padding, p) if full else min(rank, p)) if d[i] > 1e-12]
    ctx.eq(D, np.array([d[i] for i in want]), 'singular values')
    ctx.eq(U, W.U[:, want], 'left vectors')
    ctx.eq(V, W.V[want], 'right vectors')


def factored_prox(ctx, name, shape, form, rank=2, zero=False, before=None):
    """proximal maps of the factored norms; the power iteration enters by its definition"""
    import regreg.affine.factored_matrix as M
    W = World(ctx, shape)
    d = ctx.zeros(W.k) if zero else W.singular()
    for x in d:
        if not zero and x <= 1e-12:           # dropped by the iteration as zero
            ctx.assume(x == 0)
    X = W.know(d)
    X0 = X.copy()
    lam = ctx.real('lam', pos=True)
    L = ctx.real('L', pos=True)
    for x in (L, lam, d[0]):
        ctx.assume_ge(64 - x)
    for x in (L, lam):
        ctx.assume_ge(64 * x - 1)
    with normal(ctx, M):
        a = getattr(M, name)(shape, initial_rank=rank, **{form: lam})
    if before is not None:                    # an earlier call at another matrix
        with Patch(M, 'partial_svd', leading(W, ctx.arr(np.array(before)))), normal(ctx, M):
            Z = W.mat(before)
            a.lagrange_prox(Z, lipschitz=1, lagrange=ctx.num(1)) if form == 'lagrange' else a.bound_prox(Z, bound=ctx.num(1))
    with Patch(M, 'partial_svd', leading(W, d)), normal(ctx, M):
        B = a.lagrange_prox(X, lipschitz=L) if form == 'lagrange' else a.bound_prox(X)
    ctx.eq(X, X0, 'argument not modified')
    Bm = dense(ctx, B, *shape)
    e = W.diag(Bm, 'result')
    if form == 'lagrange':
        check_subgrad(ctx, PAIR[name][0], L * (d - e), e, lam, 'proximal map')
    else:
        check_projection(ctx, PAIR[name][0], d, e, lam, 'projection')


def factored_conj(ctx, name, shape, form):
    import regreg.affine.factored_matrix as M
    lam = ctx.real('lam', pos=True)
    with normal(ctx, M):
        a = getattr(M, name)(shape, initial_rank=2, **{form: lam})
        C = a.conjugate
    ctx.true(type(C) is getattr(M, PAIR[name][1]), 'dual norm')
    ctx.true(tuple(C.shape) == tuple(shape), 'shape')
    if form == 'lagrange':
        ctx.eq(C.bound, lam, 'level')
        ctx.true(C.lagrange is None, 'form')
    else:
        ctx.eq(C.lagrange, lam, 'level')
        ctx.true(C.bound is None, 'form')
    with normal(ctx, M):
        ctx.true(type(C.conjugate) is type(a), 'biconjugate')


def obligations(tier):
    deep = tier != 'quick'
    shapes = ((2, 2), (3, 2), (2, 3)) + (((3, 3),) if deep else ())
    for shape in shapes:
        s = '%dx%d' % shape
        for name in PAIR:
            for case in (0, 1) if shape == (2, 2) else (0,):
                yield Ob('value[%s,%s,%d]' % (name, s, case), value, dict(name=name, shape=shape, case=case))
                for form in ('lagrange', 'bound'):
                    for call in (False, True):
                        yield Ob('maps[%s,%s,%d,%s%s]' % (name, s, case, form, ',call' if call else ''), maps, dict(name=name, shape=shape, case=case, form=form, call=call))
            for form in ('lagrange', 'bound'):
                for off in (False, True):
                    yield Ob('step[%s,%s,%s,%s]' % (name, s, form, off), step, dict(name=name, shape=shape, form=form, off=off))
                yield Ob('conjugate[%s,%s,%s]' % (name, s, form), conj, dict(name=name, shape=shape, form=form))
                for rank in (1, 2) + ((4,) if deep else ()):
                    yield Ob('factored[%s,%s,%s,%d]' % (name, s, form, rank), factored_prox, dict(name=name, shape=shape, form=form, rank=rank))
                for b, before in enumerate(((3., 0.), (3., 2.), (0., 0.))):
                    if len(before) == min(shape):
                        yield Ob('factored again[%s,%s,%s,%d]' % (name, s, form, b), factored_prox, dict(name=name, shape=shape, form=form, before=before))
                yield Ob('factored at zero[%s,%s,%s]' % (name, s, form), factored_prox, dict(name=name, shape=shape, form=form, zero=True))
                yield Ob('factored conjugate[%s,%s,%s]' % (name, s, form), factored_conj, dict(name=name, shape=shape, form=form))
            yield Ob('copies[%s,%s]' % (name, s), copies, dict(name=name, shape=shape))
        for name in CONES:
            yield Ob('member[%s,%s]' % (name, s), epi_member, dict(name=name, shape=shape))
            for via in ('direct', 'proximal'):
                yield Ob('project[%s,%s,%s]' % (name, s, via), epi_project, dict(name=name, shape=shape, via=via))
            yield Ob('polar[%s,%s]' % (name, s), epi_conj, dict(name=name, shape=shape))
        if shape[0] > shape[1]:
            for rank, pad, cols, full in ((1, 0, 1, True), (1, 5, 2, True), (1, 5, 2, False), (2, 0, 2, True), (2, 0, 3, True), (5, 0, 4, True), (1, 1, 3, True)):
                yield Ob('iteration[%s,%d,%d,%d,%s]' % (s, rank, pad, cols, full), iteration, dict(shape=shape, rank=rank, padding=pad, cols=cols, full=full))
            yield Ob('iteration[%s,vector]' % s, iteration, dict(shape=shape, rank=1, padding=0, cols=1, full=True, flat=True))
        for rank in (1, 2):
            for off in (False, True):
                yield Ob('factored map[%s,%d,%s]' % (s, rank, off), factored, dict(shape=shape, rank=rank, off=off))
