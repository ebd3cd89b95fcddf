"""linear operators and affine maps: the adjoint is the transpose, the affine map is linear part plus offset"""
from .common import *

BOUNDS = ('matrices up to 3x3 (single and once nested transforms also 11x12) with symbolic entries (sparse and difference operators: listed entries), symbolic offsets '
          'with entries at least 1, symbolic arguments with at most 9 entries; every listed nesting of two transforms')
LIMIT = {}


def mat(rows):
    return np.array(rows, dtype=object)


class Ref(object):
    """reference: dense matrix on C-ordered flattened arguments, offset, shapes"""

    def __init__(self, T, M, a, ish, osh):
        self.T, self.M, self.a, self.ish, self.osh = T, M, a, tuple(ish), tuple(osh)


def size(sh):
    r = 1
    for s in sh:
        r *= int(s)
    return r


def mv(M, x):
    return [dot(row, x) for row in M]


def tr(M):
    return [[M[i][j] for i in range(len(M))] for j in range(len(M[0]))]


def mm(A, B):
    return [[dot(row, col) for col in tr(B)] for row in A]


def off1(ctx, name, n):
    o = ctx.vec(name, n)
    for v in o:
        ctx.assume_ge(v, 1)
    return o


def eye(n):
    return [[1. * (i == j) for j in range(n)] for i in range(n)]


NUM = [[1., 0., -2.], [0., 0., 3.], [.5, -1., 0.]]


def numeric(n, p, k=0):
    return np.array([[NUM[(i + k) % 3][(j + k) % 3] for j in range(p)] for i in range(n)])


def base(ctx, kind, n=2, p=3, tag='A'):
    """a transform R^p -> R^n with a symbolic or listed matrix"""
    import regreg.affine as A
    import scipy.sparse as sp
    form, _, off = kind.partition('+')
    o = off1(ctx, 'o' + tag, n) if off else None
    ov = o.copy() if off else [0.] * n
    oo = o
    if form == 'dense':
        M = ctx.mat(tag, n, p)
        T = A.affine_transform(M, oo)
    elif form == 'linear':
        M = ctx.mat(tag, n, p)
        T = A.linear_transform(M)
    elif form == 'array':
        M = ctx.mat(tag, n, p)
        T = M
    elif form in ('csr', 'csc'):
        M = numeric(n, p)
        T = A.affine_transform(getattr(sp, form + '_matrix')(M), oo)
    elif form == 'diag':
        d = ctx.vec(tag, n)
        M = [[d[i] if i == j else 0. for j in range(n)] for i in range(n)]
        T = A.affine_transform(d, oo, diag=True)
    elif form == 'row':
        d = ctx.vec(tag, p)
        M = [list(d)]
        o = off1(ctx, 'o1' + tag, 1) if off else None
        ov = o if off else [0.]
        T = A.affine_transform(d, o)
    elif form == 'none':
        M = eye(n)
        T = A.affine_transform(None, oo)
    elif form == 'scaler':
        d = ctx.vec(tag, n)
        M = [[d[i] if i == j else 0. for j in range(n)] for i in range(n)]
        T = A.scaler(d)
    elif form == 'identity':
        M = eye(n)
        T = A.identity((n,))
    elif form == 'centering':
        M = [[ctx.num(i == j) - ctx.num(1) / n for j in range(n)] for i in range(n)]
        T = A.centering((n,))
    elif form == 'reshape':
        M = eye(n)
        T = A.reshape((n,), (n, 1))
        return Ref(T, M, [0.] * n, (n,), (n, 1))
    else:
        raise ValueError(form)
    M = [[v for v in row] for row in M]
    return Ref(T, M, list(ov), (len(M[0]),), (len(M),))


def arg(ctx, name, sh):
    v = ctx.vec(name, size(sh))
    return v if len(sh) == 1 else v.reshape(sh)


def flat(x):
    return np.asarray(x).reshape(-1)


def agree(ctx, got, want, sh, what):
    ctx.true(tuple(np.shape(got)) == tuple(sh), what + ': shape %s instead of %s' % (np.shape(got), tuple(sh)))
    ctx.eq(flat(got), np.array(want, dtype=object), what)


def check(ctx, R, attribute=True, transposed=True, tag=''):
    T, M, a = R.T, R.M, R.a
    Mt = tr(M)
    x, u = arg(ctx, 'x' + tag, R.ish), arg(ctx, 'u' + tag, R.osh)
    fx, fu = flat(x).copy(), flat(u).copy()
    ctx.true(tuple(T.input_shape) == R.ish, 'input shape')
    ctx.true(tuple(T.output_shape) == R.osh, 'output shape')
    lin = mv(M, fx)
    aff = [v + w for v, w in zip(lin, a)]
    adj = mv(Mt, fu)
    l1, f1, a1 = T.linear_map(x), T.affine_map(x), T.adjoint_map(u)
    agree(ctx, l1, lin, R.osh, 'linear part')
    agree(ctx, f1, aff, R.osh, 'affine map')
    agree(ctx, a1, adj, R.ish, 'adjoint')
    ctx.eq(flat(x), fx, 'argument of the map unchanged')
    ctx.eq(flat(u), fu, 'argument of the adjoint unchanged')
    ctx.true(tuple(np.shape(u)) == R.osh and tuple(np.shape(x)) == R.ish, 'arguments keep their shape')
    if attribute:
        at = T.affine_offset
        if at is None:
            # an offset within the documented closeness to zero may be reported as none
            for v in a:
                ctx.le(absv(v), 1e-7, 'reported offset (none)')
        else:
            ctx.eq(flat(np.asarray(at) + np.zeros(R.osh)), np.array(list(a), dtype=object), 'reported offset')
    # a second round does not disturb what was returned before
    x2, u2 = arg(ctx, 'y' + tag, R.ish), arg(ctx, 'w' + tag, R.osh)
    agree(ctx, T.adjoint_map(u2), mv(Mt, flat(u2)), R.ish, 'adjoint (second call)')
    agree(ctx, T.affine_map(x2), [v + w for v, w in zip(mv(M, flat(x2)), a)], R.osh, 'affine map (second call)')
    agree(ctx, T.linear_map(x2), mv(M, flat(x2)), R.osh, 'linear part (second call)')
    agree(ctx, l1, lin, R.osh, 'earlier linear result kept')
    agree(ctx, f1, aff, R.osh, 'earlier affine result kept')
    agree(ctx, a1, adj, R.ish, 'earlier adjoint result kept')
    if transposed and hasattr(T, 'T'):
        agree(ctx, T.dot(x2), mv(M, flat(x2)), R.osh, 'dot')
        agree(ctx, T.T.linear_map(u2), mv(Mt, flat(u2)), R.ish, 'transposed operator')
        agree(ctx, T.T.affine_map(u2), mv(Mt, flat(u2)), R.ish, 'transposed operator has no offset')
        agree(ctx, T.T.adjoint_map(x2), mv(M, flat(x2)), R.osh, 'adjoint of the transposed operator')
        ctx.true(tuple(T.T.input_shape) == R.osh and tuple(T.T.output_shape) == R.ish, 'transposed shapes')


def single(ctx, kind, n, p):
    check(ctx, base(ctx, kind, n, p))


def columns(ctx, kind, n, p, q):
    """matrix arguments are mapped column by column"""
    import regreg.affine as A
    if kind == 'declared':
        M = ctx.mat('A', n, p)
        T = A.affine_transform(M, None, input_shape=(p, q))
        ctx.true(tuple(T.input_shape) == (p, q) and tuple(T.output_shape) == (n, q), 'declared shapes')
        R = Ref(T, [list(r) for r in M], [0.] * n, (p,), (n,))
    elif kind == 'tensorize':
        B = base(ctx, 'dense+o', n, p)
        R = Ref(A.tensorize(B.T, q), B.M, B.a, B.ish, B.osh)
        ctx.true(tuple(R.T.input_shape) == B.ish + (q,) and tuple(R.T.output_shape) == B.osh + (q,), 'shapes')
    else:
        R = base(ctx, kind, n, p)
    X, U = arg(ctx, 'x', R.ish + (q,)), arg(ctx, 'u', R.osh + (q,))
    X0, U0 = X.copy(), U.copy()
    L, F, Ad = R.T.linear_map(X), R.T.affine_map(X), R.T.adjoint_map(U)
    for k in range(q):
        lin = mv(R.M, X0[:, k])
        ctx.eq(np.asarray(L)[:, k], np.array(lin, dtype=object), 'linear part of column %d' % k)
        ctx.eq(np.asarray(F)[:, k], np.array([v + w for v, w in zip(lin, R.a)], dtype=object), 'affine map of column %d' % k)
        ctx.eq(np.asarray(Ad)[:, k], np.array(mv(tr(R.M), U0[:, k]), dtype=object), 'adjoint of column %d' % k)
    ctx.eq(X, X0, 'argument unchanged')
    ctx.eq(U, U0, 'argument of the adjoint unchanged')


# ------------------------------------------------------------------ nesting

def wrap(ctx, how, B, tag='B'):
    """transform built from B"""
    import regreg.affine as A
    from regreg.affine.block_maps import block_columns, block_rows
    M, a, n, p = B.M, B.a, len(B.M), len(B.M[0])
    if how == 'affine_transform':
        return Ref(A.linear_transform(B.T), M, a, B.ish, B.osh)
    if how == 'affine_transform+':
        o = off1(ctx, 'oo', n)
        return Ref(A.affine_transform(B.T, o), M, [v + w for v, w in zip(a, o)], B.ish, B.osh)
    if how == 'aslinear':
        return Ref(A.aslinear(B.T), M, [0.] * n, B.ish, B.osh)
    if how == 'adjoint':
        return Ref(A.adjoint(B.T), tr(M), [0.] * p, B.osh, B.ish)
    if how == 'scalar_multiply':
        s = ctx.real('s', lo=-5, hi=5)
        return Ref(A.scalar_multiply(A.astransform(B.T), s), [[s * v for v in r] for r in M], [s * v for v in a], B.ish, B.osh)
    if how == 'scalar_one':
        return Ref(A.scalar_multiply(A.astransform(B.T), 1.), M, a, B.ish, B.osh)
    if how == 'residual':
        return Ref(A.residual(B.T), [[1. * (i == j) - M[i][j] for j in range(p)] for i in range(n)], [-v for v in a],
                   B.ish, B.osh)
    if how == 'add_intercept':
        return Ref(A.add_intercept(B.T), [[1.] + list(r) for r in M], a, (p + 1,), B.osh)
    if how == 'posneg':
        return Ref(A.posneg(B.T), [list(r) + [-v for v in r] for r in M], [0.] * n, (2,) + B.ish, B.osh)
    if how.startswith('selector'):
        k = p + 2
        idx = {'slice': slice(1, p + 1), 'mask': np.array([True] * (p - 1) + [False, True, False]),
               'fancy': np.array([p, 0, 1][:p])}[how.split(':')[1]]
        pos = np.arange(k)[idx]
        W = [[0.] * k for _ in range(n)]
        for i in range(n):
            for j, q in enumerate(pos):
                W[i][q] = M[i][j]
        return Ref(A.selector(idx, (k,), A.astransform(B.T)), W, a, (k,), B.osh)
    if how == 'compose':
        C = base(ctx, 'dense+o', p, 2, tag)
        return Ref(A.composition(B.T, C.T), mm(M, C.M), [v + w for v, w in zip(mv(M, C.a), a)], C.ish, B.osh)
    if how == 'dot':
        C = base(ctx, 'dense+o', p, 2, tag)
        return Ref(A.astransform(B.T).dot(C.T), mm(M, C.M), [v + w for v, w in zip(mv(M, C.a), a)], C.ish, B.osh)
    if how == 'compose3':
        C = base(ctx, 'dense', 2, n, tag)
        D = base(ctx, 'diag+o', p, p, 'C')
        N = mm(C.M, M)
        return Ref(A.composition(C.T, B.T, D.T), mm(N, D.M), [v + w for v, w in zip(mv(N, D.a), mv(C.M, a))], D.ish, C.osh)
    C = base(ctx, 'dense+o', n, p, tag)
    if how == 'affine_sum':
        w = ctx.vec('wt', 2)
        for v in w:
            ctx.assume_ge(v, 1)
        return Ref(A.affine_sum([B.T, C.T], w), [[w[0] * v + w[1] * z for v, z in zip(r, q)] for r, q in zip(M, C.M)],
                   [w[0] * v + w[1] * z for v, z in zip(a, C.a)], B.ish, B.osh)
    if how == 'affine_sum1':
        return Ref(A.affine_sum([B.T, C.T]), [[v + z for v, z in zip(r, q)] for r, q in zip(M, C.M)],
                   [v + z for v, z in zip(a, C.a)], B.ish, B.osh)
    if how == 'vstack':
        C = base(ctx, 'dense+o', n + 1, p, tag)
        return Ref(A.vstack([B.T, C.T]), M + C.M, list(a) + list(C.a), B.ish, (2 * n + 1,))
    if how == 'hstack':
        C = base(ctx, 'dense+o', n, p + 1, tag)
        return Ref(A.hstack([B.T, C.T]), [list(r) + list(q) for r, q in zip(M, C.M)], [v + z for v, z in zip(a, C.a)],
                   (2 * p + 1,), B.osh)
    C = base(ctx, 'dense+o', n + 1, p + 1, tag)
    if how == 'product':
        W = [list(r) + [0.] * (p + 1) for r in M] + [[0.] * p + list(r) for r in C.M]
        return Ref(A.product([B.T, C.T]), W, list(a) + list(C.a), (2 * p + 1,), (2 * n + 1,))
    if how == 'block_columns':
        C = base(ctx, 'dense+o', n + 1, p, tag)
        # argument (p, 2), C order: entry (j, k) at 2 j + k
        W = [[z for v in r for z in (v, 0.)] for r in M] + [[z for v in r for z in (0., v)] for r in C.M]
        return Ref(block_columns([B.T, C.T]), W, list(a) + list(C.a), (p, 2), (2 * n + 1,))
    if how == 'block_rows':
        C = base(ctx, 'dense+o', n, p + 1, tag)
        W, b = [], []
        for i in range(n):
            W.append(list(M[i]) + [0.] * (p + 1))
            W.append([0.] * p + list(C.M[i]))
            b += [a[i], C.a[i]]
        return Ref(block_rows([B.T, C.T]), W, b, (2 * p + 1,), (n, 2))
    raise ValueError(how)


def nested(ctx, how, kind, n, p):
    # the offset a plain transform reports is its own, not that of an operator it wraps
    check(ctx, wrap(ctx, how, base(ctx, kind, n, p)), attribute=not how.startswith('affine_transform'))


def twice(ctx, outer, inner, kind, n, p):
    B = wrap(ctx, inner, base(ctx, kind, n, p))
    check(ctx, wrap(ctx, outer, B, 'E'), attribute=not outer.startswith('affine_transform'))


def reshaped(ctx, how):
    """transforms with matrix-shaped arguments or values inside the stacking operators"""
    import regreg.affine as A
    if how == 'selector':
        M = ctx.mat('A', 2, 4)
        T = A.selector(np.array([[True, False], [True, True], [False, True]]), (3, 2), A.linear_transform(M))
        W = [[0.] * 6 for _ in range(2)]
        for i in range(2):
            for j, q in enumerate([0, 2, 3, 5]):
                W[i][q] = M[i, j]
        return check(ctx, Ref(T, W, [0.] * 2, (3, 2), (2,)))
    if how == 'selector_reshape':
        T = A.selector(slice(1, 5), (6,), reshape=(2, 2))
        W = [[1. * (j == i + 1) for j in range(6)] for i in range(4)]
        return check(ctx, Ref(T, W, [0.] * 4, (6,), (2, 2)))
    if how == 'selector_default':
        T = A.selector(slice(0, 2), (4,))
        return check(ctx, Ref(T, [[1., 0, 0, 0], [0, 1., 0, 0]], [0.] * 2, (4,), (2,)))
    B = base(ctx, 'dense+o', 2, 4)
    R = A.reshape((4,), (2, 2))
    if how == 'vstack':
        return check(ctx, Ref(A.vstack([R, B.T]), eye(4) + B.M, [0.] * 4 + list(B.a), (4,), (6,)))
    if how == 'hstack':
        T = A.hstack([B.T, A.composition(B.T, A.reshape((2, 2), (4,)))])
        return check(ctx, Ref(T, [list(r) + list(r) for r in B.M], [2 * v for v in B.a], (8,), (2,)))
    if how == 'product':
        W = [r + [0.] * 4 for r in eye(4)] + [[0.] * 4 + list(r) for r in B.M]
        return check(ctx, Ref(A.product([R, B.T]), W, [0.] * 4 + list(B.a), (8,), (6,)))
    if how == 'composition':
        T = A.composition(B.T, A.reshape((2, 2), (4,)))
        return check(ctx, Ref(T, B.M, B.a, (2, 2), (2,)))


# ------------------------------------------------- statistics and smoothing

# columns whose scale is a power of two, by (center, ddof)
DES = {(True, 1): [[3., 6.], [3., -2.], [3., 6.], [-1., 6.]], (True, 0): [[4., 3.], [2., 3.], [4., -1.], [2., -1.]],
       (False, 1): [[2., 0.], [2., 4.], [-2., 0.], [2., 0.]], (False, 0): [[1., 0.], [2., 4.], [0., 2.], [0., 0.]]}


def normalized(ctx, how, center, scale, intercept, ddof, value):
    """centre the columns, scale them to a standard deviation of `value`, prepend an intercept"""
    import regreg.affine as A
    import scipy.sparse as sp
    n, p = (3, 1) if how == 'symbolic' else (4, 2)
    if how == 'symbolic':
        X = ctx.mat('X', n, p)
        ctx.assume_ge(X[0, 0], X[1, 0] + 1)
        if not center:
            ctx.assume_ge(X[1, 0], 0)
        X0 = [list(r) for r in X]
    else:
        X0 = DES[center, ddof]
        X = np.array(X0) if how == 'dense' else getattr(sp, how + '_matrix')(np.array(X0))
    T = A.normalize(X, center=center, scale=scale, intercept=intercept, ddof=ddof, value=value)
    cols = tr(X0)
    out = []
    for c in cols:
        m = total(c) / n
        z = [v - m for v in c] if center else list(c)
        if scale:
            s = np.sqrt(sq(z) / (n - ddof if center else n - (ddof - 1)))
            z = [v / s * value for v in z]
        out.append(z)
    if intercept:
        out = [[1.] * n] + out
    M = tr(out)
    check(ctx, Ref(T, M, [0.] * n, (p + intercept,), (n,)))


def diffmat(ctx, t, order):
    """divided differences (each row of the next order divides by the widening gap)"""
    n = len(t)
    D = eye(n)
    for j in range(1, order + 1):
        D = [[(D[i + 1][k] - D[i][k]) * (ctx.num(1) / (t[i + j] - t[i])) for k in range(n)]
             for i in range(len(D) - 1)]
    return D


def trend(ctx, order, perm, what):
    import regreg.affine.fused_lasso as F
    n = len(perm)
    t = ctx.vec('t', n)
    for i in range(n - 1):
        ctx.assume_ge(t[i + 1], t[i] + 1)
    knots = np.array([t[i] for i in perm])
    ts = list(t)
    D = diffmat(ctx, ts, order)
    if what == 'filter':
        return check(ctx, Ref(F.trend_filter(knots, order=order), D, [0.] * (n - order), (n,), (n - order,)))
    if what == 'difference':
        T = F.difference_transform(knots, order=order, transform=True)
        return check(ctx, Ref(T, D, [0.] * (n - order), (n,), (n - order,)))
    # pseudo-inverse of the first differences: D P D = D, P D is centring, columns of P sum to zero
    T = F.trend_filter_inverse(knots)
    gaps = [ts[i + 1] - ts[i] for i in range(n - 1)]
    P = [[gaps[j] * ((1 if i > j else 0) - ctx.num(n - 1 - j) / n) for j in range(n - 1)] for i in range(n)]
    check(ctx, Ref(T, P, [0.] * n, (n - 1,), (n,)))
    x = ctx.vec('z', n)
    d = F.trend_filter(knots).linear_map(x)
    m = total(x) / n
    ctx.eq(T.linear_map(d), x - m, 'inverts the differences of a centred vector')
    X, U = ctx.mat('XX', n - 1, 2), ctx.mat('UU', n, 2)
    L, Ad = T.linear_map(X), T.adjoint_map(U)
    for k in range(2):
        ctx.eq(np.asarray(L)[:, k], np.array(mv(P, X[:, k]), dtype=object), 'column %d' % k)
        ctx.eq(np.asarray(Ad)[:, k], np.array(mv(tr(P), U[:, k]), dtype=object), 'adjoint of column %d' % k)


def grid(ctx, order, n):
    import regreg.affine.fused_lasso as F
    D = diffmat(ctx, [ctx.num(i) for i in range(n)], order)
    check(ctx, Ref(F.trend_filter.grid(n, order=order), D, [0.] * (n - order), (n,), (n - order,)))
    S = F.difference_transform(np.arange(n), order=order)
    x = ctx.vec('z', n)
    if order > 2:
        return
    ctx.eq(np.asarray(S * x), np.array(mv(D, x), dtype=object), 'sparse difference matrix')


def image(ctx, m, n, off):
    """every horizontal and vertical neighbour difference occurs once, up to sign"""
    from regreg.affine.image2d import image2d_differences
    o = ctx.mat('o', m * n - 1, 2) if False else None
    T = image2d_differences((m, n))
    x = ctx.mat('x', m, n)
    L = T.linear_map(x)
    ctx.true(tuple(np.shape(L)) == tuple(T.output_shape), 'shape')
    v = np.asarray(T.D.toarray())
    want = []
    for i in range(m):
        for j in range(n):
            for a, b in ((i + 1, j), (i, j + 1)):
                if a < m and b < n:
                    r = [0.] * (m * n)
                    r[i * n + j], r[a * n + b] = 1., -1.
                    want.append(tuple(r))
    rows = [tuple(r) for r in v]
    ctx.true(sorted(r for r in rows if any(r)) == sorted(want), 'the rows are the neighbour differences')
    M = []
    k = m * n - 1
    for i in range(k):
        for c in range(2):
            M.append(list(rows[c * k + i]))
    check(ctx, Ref(T, M, [0.] * (2 * k), (m, n), (k, 2)))


def edges(ctx, m, n):
    """the compact difference matrix has each neighbouring pair exactly once"""
    from regreg.affine.image2d import formD_smaller
    D = formD_smaller(m, n)
    ctx.true(D.shape == (2 * (m - 1) * (n - 1) + (m - 1) + (n - 1), m * n), 'shape')
    rows = [tuple(r) for r in D.toarray()]
    pairs = []
    for i in range(m):
        for j in range(n):
            for a, b in ((i + 1, j), (i, j + 1)):
                if a < m and b < n:
                    pairs.append((i * n + j, a * n + b))
    got = []
    for r in rows:
        nz = [k for k in range(m * n) if r[k]]
        ctx.true(len(nz) == 2 and r[nz[0]] == 1. and r[nz[1]] == -1., 'a difference')
        got.append(tuple(nz))
    ctx.true(sorted(got) == sorted(pairs), 'each edge once')
    x = ctx.vec('x', m * n)
    ctx.eq(np.asarray(D * x), np.array([x[a] - x[b] for a, b in got], dtype=object), 'differences')


def power(ctx, how, its):
    """largest squared singular value by power iterations from any starting point"""
    import regreg.affine as A
    c = ctx.real('c', lo=.25, hi=4)
    v = ctx.arr(np.array([3., -4.]))
    if how == 'one':                                 # all singular values equal
        X = c * ctx.arr(np.array([[0., 1.], [-1., 0.], [0., 0.]]))
        want = c * c
        if c * c * 5 < 1 + 1e-3 and c * c * 5 > 1 - 1e-3:    # a start whose first image has norm one stops at once
            return ctx.true(True, 'excluded start')
    else:                                            # starting in the leading direction
        X = ctx.arr(np.array([[3., -4.], [0., 0.], [4., 3.]]))
        X[0] = c * X[0]
        X[2] = X[2] / ctx.num(16)
        want = 25 * c * c
    T = X if its == 'matrix' else A.affine_transform(X, ctx.arr(np.array([1., 2., 3.])))
    X0 = X.copy()
    from .P21 import Quiet2
    with Quiet2(A.np.random, 'standard_normal', lambda shape: v.copy()):
        r = A.power_L(T)
    ctx.eq(r, want, 'largest squared singular value')
    ctx.eq(X, X0, 'matrix not modified')


def inverse_grid(ctx, n):
    import regreg.affine.fused_lasso as F
    P = [[ctx.num(1 if i > j else 0) - ctx.num(n - 1 - j) / n for j in range(n - 1)] for i in range(n)]
    check(ctx, Ref(F.trend_filter_inverse.grid(n), P, [0.] * n, (n - 1,), (n,)))


def msc(ctx, p, how, scaling):
    """averages of the centred vector over intervals"""
    from regreg.affine.multiscale import multiscale
    if how in ('all', 'default'):
        T = multiscale(p, minsize=2, scaling=None) if how == 'all' else multiscale(p)
        small = 2 if how == 'all' else min(range(1, p + 1), key=lambda k: abs(k - p ** (1 / 3.)))
        iv = [(i, j) for i in range(p) for j in range(p) if j - i >= small]
    elif how == 'slices':
        iv = [(0, 2), (1, p), (2, 3)]
        T = multiscale(p, slices=iv)
    else:
        iv = [(1, 3), (0, p)]
        T = multiscale(p, minsize=1)
        if how == 'typed':
            T.update_slices(np.array(iv, T.dtype))
        else:
            T.update_slices(iv)
    if scaling:
        s = ctx.vec('s', len(iv))
        T.scaling = s
    else:
        s = [1.] * len(iv)
    got = [tuple(int(v) for v in r) for r in T.slices]
    ctx.true(sorted(got) == sorted(iv), 'intervals')
    M = []
    for k, (i, j) in enumerate(got):
        row = [(ctx.num(1) / (j - i) if i <= q < j else 0) - ctx.num(1) / p for q in range(p)]
        M.append([v * s[k] for v in row])
    from copy import copy
    C = copy(T)
    check(ctx, Ref(T, M, [0.] * len(iv), (p,), (len(iv),)))
    xc, uc = ctx.vec('xc', p), ctx.arr(np.array([1.5 - k for k in range(len(iv))]) + .25)
    ctx.eq(C.linear_map(xc), np.array(mv(M, xc), dtype=object), 'copy')
    ctx.eq(C.adjoint_map(uc), np.array(mv(tr(M), uc), dtype=object), 'adjoint of the copy')
    C.update_slices([(0, 1)])
    C.scaling = None
    x = ctx.vec('z', p)
    ctx.eq(C.linear_map(x), np.array([x[0] - total(x) / p], dtype=object), 'copy with another interval')
    ctx.eq(T.linear_map(x), np.array(mv(M, x), dtype=object), 'original unaffected by its copy')
    F, ln = T.form_matrix([(0, 2), (1, p)])
    for k, (i, j) in enumerate([(0, 2), (1, p)]):
        ctx.eq(ln[k], j - i, 'length of interval %d' % k)
        r = np.sqrt(ctx.num(j - i))
        for q in range(p):
            ctx.eq(F[q, k] * r, (1 if i <= q < j else 0) - ctx.num(j - i) / p, 'column %d of the matrix' % k)


def smuce(ctx, p, how, given, scaled):
    """the multiscale statistic: the largest penalised standardised mean and the interval it belongs to"""
    from copy import copy
    from regreg.affine.multiscale import multiscale, SMUCE_stat
    T = multiscale(p, minsize=1 if given else 2) if how == 'all' else multiscale(p, slices=[(0, 4), (2, 3), (0, 1)])
    s = ctx.vec('s', len(T.slices)) if scaled else None
    T.scaling = None if s is None else s.copy()
    z = ctx.vec('z', p)
    z0 = z.copy()
    iv = [tuple(int(v) for v in r) for r in T.slices]
    zbar = total(list(z)) / p
    if given:
        sig = ctx.real('sigma', lo=.125)
        val, at = SMUCE_stat(T, z, sigma=sig)
    else:
        ctx.assume(ctx.abs(z[0] - z[1]) >= .25) if hasattr(ctx, 'abs') else ctx.assume(z[0] - z[1] >= .25)
        val, at = SMUCE_stat(T, z)
        sig = np.sqrt(total([(v - zbar) * (v - zbar) for v in z]) / p)
    sizes = ctx.arr(np.array([j - i for i, j in iv]) * 1.)
    pen, root = np.sqrt(2 * np.log(ctx.num(p) / sizes)), np.sqrt(sizes)
    at = tuple(int(v) for v in at)
    ctx.true(at in iv, 'an interval of the transform')
    for k, (i, j) in enumerate(iv):
        m = (total([z[q] for q in range(i, j)]) / (j - i) - zbar) * root[k] / sig
        r = m if m >= 0 else -m
        (ctx.eq if (i, j) == at else ctx.ge)(val, r - pen[k], 'statistic against interval %d' % k)
    ctx.eq(z, z0, 'data unchanged')
    if s is None:
        ctx.true(T.scaling is None, 'scaling of the transform unchanged')
    else:
        ctx.eq(T.scaling, s, 'scaling of the transform unchanged')
    C = copy(T)
    for nm, f in (('linear_map', lambda q: q.linear_map(z)), ('adjoint_map', lambda q: q.adjoint_map(np.arange(1., len(iv) + 1)))):
        ctx.eq(f(C), f(T), 'copy: ' + nm)
    if s is not None:
        C.scaling[0] = s[0] + 1
        ctx.eq(T.scaling, s, 'the copy has its own scaling')
    F, L = T.form_matrix(T.slices)
    for k, (i, j) in enumerate(iv):
        ctx.eq(L[k], j - i, 'length')
        for q in range(p):
            ctx.eq(F[q, k] * root[k], (ctx.num(1) if i <= q < j else ctx.num(0)) - (ctx.num(j - i) / p), 'column')


def factored(ctx, rank):
    from regreg.affine.factored_matrix import factored_matrix
    U, D, V = ctx.mat('U', 3, rank), ctx.vec('D', rank), ctx.mat('V', rank, 2)
    U0, D0, V0 = U.copy(), D.copy(), V.copy()
    o = ctx.vec('o', 3)
    T = factored_matrix([U, D, V], affine_offset=o)
    M = [[total([U0[i, k] * D0[k] * V0[k, j] for k in range(rank)]) for j in range(2)] for i in range(3)]
    check(ctx, Ref(T, M, list(o), (2,), (3,)), transposed=False)
    ctx.eq(flat(T.X), flat(np.array(M, dtype=object)), 'matrix form')
    C = T.copy()
    C.factors[1][:] = C.factors[1] * 2
    x = ctx.vec('q', 2)
    ctx.eq(T.linear_map(x), np.array(mv(M, x), dtype=object), 'copy is independent')


def dense(ctx, kind, n, p):
    import regreg.affine as A
    B = base(ctx, kind, n, p)
    D = A.todense(A.astransform(B.T))
    ctx.eq(flat(D), flat(np.array(B.M, dtype=object)), 'dense form')


def atom(ctx, how, lag):
    """a penalty composed with an affine map"""
    import regreg.affine as A
    import regreg.atoms.seminorms as S
    from regreg.atoms import affine_atom
    n, p = 2, 2
    x = ctx.vec('x', p)
    lam = ctx.real('lam', pos=True)
    inner = ctx.vec('c', n, nonzero=True) if 'offset' in how else None
    c = inner.copy() if inner is not None else np.zeros(n)
    at = S.l1norm((n,), lagrange=lam, offset=inner)
    if 'compose' in how:
        R = wrap(ctx, 'compose', base(ctx, 'dense+o', n, 2))
    elif 'sum' in how:
        R = wrap(ctx, 'affine_sum1', base(ctx, 'dense', n, p))
    elif 'classmethod' in how:
        R = base(ctx, 'dense+o', n, p)
        L = S.l1norm.affine(np.array(R.M), np.array(list(R.a)), lagrange=lam)
    else:
        R = base(ctx, how.split(',')[0], n, p)
    if 'compose' in how:
        for v in R.a:
            ctx.assume_ge(v, 1)
    arg = np.array([v + w for v, w in zip(mv(R.M, x), R.a)]) - c
    if 'classmethod' not in how:
        L = affine_atom(at, R.T)
    ctx.eq(L.nonsmooth_objective(x), lam * total([absv(v) for v in arg]), 'value')
    if inner is not None:
        ctx.eq(inner, c, 'offset of the penalty not modified')
        ctx.eq(at.offset, c, 'penalty not modified')


LINEAR = ('dense', 'linear', 'array', 'csr', 'csc', 'row', 'diag', 'scaler', 'identity', 'centering', 'reshape')
AFFINE = ('dense+o', 'csr+o', 'csc+o', 'row+o', 'diag+o', 'none+o')
RECT = ('affine_transform', 'affine_transform+', 'aslinear', 'adjoint', 'scalar_multiply', 'scalar_one', 'add_intercept',
        'posneg', 'selector:slice', 'selector:mask', 'selector:fancy', 'compose', 'dot', 'compose3', 'affine_sum', 'affine_sum1',
        'vstack', 'hstack', 'product', 'block_columns', 'block_rows')


def obligations(tier):
    deep = tier != 'quick'
    for k in LINEAR + AFFINE:
        if k == 'array':
            continue
        yield Ob('single[%s]' % k, single, dict(kind=k, n=3 if k.split('+')[0] in ('diag', 'scaler', 'identity', 'none') else 2, p=3))
    for k in ('dense', 'dense+o', 'csr', 'csr+o', 'csc+o', 'diag', 'diag+o', 'none+o', 'declared', 'tensorize', 'identity', 'centering'):
        yield Ob('columns[%s]' % k, columns, dict(kind=k, n=2, p=3 if k[:4] not in ('diag', 'none', 'iden', 'cent') else 2, q=2))
    for h in RECT:
        ks = ('dense+o', 'csr+o') if h not in ('dot', 'scalar_one') else ('dense+o',)
        if h in ('compose', 'vstack', 'affine_sum'):
            ks += ('dense', 'array', 'diag+o')
        if deep:
            ks = LINEAR[:-1] + AFFINE
        for k in ks:
            if h == 'posneg' and '+' in k:
                k = k[:-2]
            if k.startswith('none') and h not in ('compose', 'vstack', 'scalar_multiply'):
                continue
            sq_ = k.split('+')[0] in ('diag', 'scaler', 'identity', 'centering', 'none')
            n, p = (1, 2) if k.startswith('row') else ((2, 2) if sq_ else (2, 3))
            if h == 'compose3' and not sq_:
                p = 2
            yield Ob('nested[%s,%s]' % (h, k), nested, dict(how=h, kind=k, n=n, p=p))
    for k in ('dense', 'dense+o', 'diag+o', 'centering'):
        yield Ob('nested[residual,%s]' % k, nested, dict(how='residual', kind=k, n=2, p=2))
    for outer in RECT:
        for inner in (('compose', 'scalar_multiply') if not deep else RECT):
            if 'posneg' in (inner,) or inner in ('block_rows', 'block_columns') or (outer == 'dot'):
                continue
            if inner.startswith('affine_transform') and outer != 'compose':
                continue
            if outer == 'posneg' and inner not in ('aslinear', 'adjoint'):
                continue
            if outer == 'add_intercept' and inner == 'posneg':
                continue
            yield Ob('twice[%s,%s]' % (outer, inner), twice, dict(outer=outer, inner=inner, kind='dense+o', n=2, p=2))
    for inner in ('scalar_multiply', 'residual', 'compose'):
        yield Ob('twice[residual,%s]' % inner, twice, dict(outer='residual', inner=inner, kind='dense+o', n=2, p=2))
    for h in ('selector', 'selector_reshape', 'selector_default', 'vstack', 'hstack', 'product', 'composition'):
        yield Ob('reshaped[%s]' % h, reshaped, dict(how=h))
    for how in ('symbolic', 'dense', 'csr', 'csc'):
        for center, scale in itertools.product((True, False), repeat=2):
            for intercept, ddof, value in ((False, 1, 1), (True, 0, 2)):
                yield Ob('normalize[%s,%s,%s,%s]' % (how, center, scale, intercept), normalized,
                         dict(how=how, center=center, scale=scale, intercept=intercept, ddof=ddof, value=value))
    for perm in ((0, 1, 2), (2, 0, 1)) + (((3, 1, 0, 2),) if deep else ()):
        for order in (1, 2, 3)[:len(perm) - 1]:
            yield Ob('trend[%d,%s]' % (order, perm), trend, dict(order=order, perm=perm, what='filter'))
            yield Ob('difference[%d,%s]' % (order, perm), trend, dict(order=order, perm=perm, what='difference'))
        yield Ob('trend_inverse[%s]' % (perm,), trend, dict(order=1, perm=perm, what='inverse'))
    for n, order in ((4, 1), (4, 2), (5, 2)):
        yield Ob('grid[%d,%d]' % (n, order), grid, dict(order=order, n=n))
    for m, n in ((2, 2), (2, 3), (3, 2)) + (((3, 3),) if deep else ()):
        yield Ob('image[%d,%d]' % (m, n), image, dict(m=m, n=n, off=False))
        yield Ob('edges[%d,%d]' % (m, n), edges, dict(m=m, n=n))
    for how in ('one', 'leading'):
        for its in ('matrix', 'affine'):
            yield Ob('power iterations[%s,%s]' % (how, its), power, dict(how=how, its=its))
    for n in (2, 4):
        yield Ob('inverse on a grid[%d]' % n, inverse_grid, dict(n=n))
    for how in ('all', 'slices', 'updated', 'typed'):
        for s in (False, True):
            yield Ob('multiscale[%s,%s]' % (how, s), msc, dict(p=4, how=how, scaling=s))
    for how in ('all', 'slices'):
        for given in (True, False):
            yield Ob('multiscale statistic[%s,%s]' % (how, given), smuce, dict(p=4 if how == 'slices' else 3, how=how, given=given, scaled=given))
    for r in (1, 2):
        yield Ob('factored[%d]' % r, factored, dict(rank=r))
    for k in ('dense', 'csr', 'diag', 'identity', 'centering', 'row'):
        yield Ob('todense[%s]' % k, dense, dict(kind=k, n=2, p=3))
    for how in ('dense', 'dense+o', 'csr+o', 'diag+o', 'dense+o,offset', 'compose', 'compose,offset', 'sum', 'classmethod'):
        yield Ob('penalty[%s]' % how, atom, dict(how=how, lag=True))
    # larger sizes
    for k in LINEAR + AFFINE:
        if k != 'array':
            yield Ob('single[%s,12]' % k, single, dict(kind=k, n=12 if k.split('+')[0] in ('diag', 'scaler', 'identity', 'none', 'centering') else 11, p=12))
    for k in ('dense+o', 'csr+o', 'diag+o', 'centering'):
        yield Ob('columns[%s,12]' % k, columns, dict(kind=k, n=12, p=12, q=3))
    for h in RECT:
        if h not in ('dot', 'scalar_one', 'compose', 'selector:fancy'):
            for k in (('dense', 'csr') if h == 'posneg' else ('dense+o', 'csr+o')):
                yield Ob('nested[%s,%s,12]' % (h, k), nested, dict(how=h, kind=k, n=11, p=12))
    perm = (7, 2, 11, 0, 5, 9, 1, 3, 10, 4, 8, 6)
    t = [0., 1., 3., 4., 6., 7., 8., 12., 13., 15., 16., 20.]
    for order in (1, 2, 3, 4):
        for w in ('filter', 'difference') + (('inverse',) if order == 1 else ()):
            yield Ob('%s[%d,12]' % (w, order), wide, dict(fn=trend, data={'t': t}, only=('t',), free=(), order=order, perm=perm, what=w))
        if order < 3:
            yield Ob('grid[12,%d]' % order, grid, dict(order=order, n=12))
    yield Ob('inverse on a grid[12]', inverse_grid, dict(n=12))
    for m, n in ((3, 5), (5, 3), (1, 4)):
        yield Ob('image[%d,%d]' % (m, n), image, dict(m=m, n=n, off=False))
        yield Ob('edges[%d,%d]' % (m, n), edges, dict(m=m, n=n))
    for p in (3, 4, 8):
        yield Ob('multiscale default[%d]' % p, msc, dict(p=p, how='default', scaling=p == 4))
    for how in ('all', 'slices', 'updated'):
        yield Ob('multiscale[%s,12]' % how, msc, dict(p=12, how=how, scaling=how != 'all'))
