"""saturated losses and generalised linear models: values follow their definition and gradients are the exact
derivatives of the reported values"""
from .common import *

BOUNDS = ('2-3 and 12 observations (Cox: 3, one ordering of 8 and 12, thorough 4, every ordering with ties through symbolic times or listed orderings, '
          'every censoring pattern), 2 coefficients; natural parameters, responses, weights, offsets, coef symbolic; '
          'counts concrete; |natural parameter| below the documented clipping thresholds')


def logv(x):
    return np.log(x)


def expv(x):
    return np.exp(x)


def Phi(x):
    from scipy.stats import norm
    if hasattr(x, 'n'):
        from symx import core
        return core.sPhi(x)
    return norm.cdf(x)


# ---- definitions: sum over observations of weight * term(x_i, data_i)

def t_gauss(x, y, aux):
    return (x - y) * (x - y) / 2.


def t_pois(x, y, aux):
    return expv(x) - y * x


def t_logit(x, s, n):
    return n * logv(1 + expv(x)) - s * x


def t_probit(x, s, n):
    return -s * logv(Phi(x)) - (n - s) * logv(Phi(-x))


def t_cloglog(x, s, n):
    return -s * logv(1 - expv(-expv(x))) + (n - s) * expv(x)


def t_huber(x, y, eps):
    r = absv(x - y)
    return r * r / (2 * eps) if r <= eps else r - eps / 2.


def g_huber(x, y, eps):
    r = x - y
    return r / eps if absv(r) <= eps else (1. if r > 0 else -1.)


def g_hsvm(x, s, eps):
    h = 1 - (2 * s - 1) * x
    return (2 * s - 1) * (0. if h <= 0 else (-h / eps if h <= eps else -1.))


def t_hsvm(x, s, eps):
    h = 1 - (2 * s - 1) * x
    if h <= 0:
        return 0 * h
    return h * h / (2 * eps) if h <= eps else h - eps / 2.


TERM = dict(gaussian=t_gauss, poisson=t_pois, logistic=t_logit, probit=t_probit, cloglog=t_cloglog,
            huber=t_huber, huber_svm=t_hsvm)
LIM = dict(probit=20, cloglog=5, logistic=100)
SUCC = [2, 0, 3, 1, 0, 4, 2, 1, 1, 0, 5, 2]
TRIALS = [3, 2, 3, 1, 1, 5, 2, 4, 2, 3, 5, 3]
BIN = [1, 0, 1, 0, 0, 1, 1, 1, 0, 1, 0, 0]
COUNTS = [2, 0, 3, 1, 1, 0, 4, 7, 0, 2, 1, 3]


def build(ctx, kind, n, coef=1., offset=None, cw=None, trials=True, eps=None, quadratic=None):
    """loss instance, list of (response, auxiliary)"""
    import regreg.smooth.glm as G
    kw = dict(coef=coef, offset=offset, case_weights=cw, quadratic=quadratic)
    if kind == 'gaussian':
        y = ctx.vec('y', n)
        return G.gaussian_loglike((n,), y, **kw), [(v, None) for v in y]
    if kind == 'poisson':
        y = ctx.arr(COUNTS[:n])
        return G.poisson_loglike((n,), y, **kw), [(v, None) for v in y]
    if kind in ('logistic', 'probit', 'cloglog'):
        klass = getattr(G, kind + '_loglike')
        if trials:
            return klass((n,), ctx.arr(SUCC[:n]), trials=ctx.arr(TRIALS[:n]), **kw), list(zip(SUCC, TRIALS))[:n]
        return klass((n,), ctx.arr(BIN[:n]), **kw), [(b, 1) for b in BIN[:n]]
    eps = ctx.real('eps', pos=True) if eps is None else eps
    if kind == 'huber':
        y = ctx.vec('y', n)
        return G.huber_loss((n,), y, eps, **kw), [(v, eps) for v in y]
    return G.huber_svm((n,), ctx.arr(BIN[:n]), eps, **kw), [(b, eps) for b in BIN[:n]]


def offvec(ctx, name, *shape):
    """an offset with no zero entry (an all-zero one is dropped by the code; decided with the atoms)"""
    return (ctx.vec if len(shape) == 1 else ctx.mat)(name, *shape, nonzero=True)


def limits(ctx, kind, x):
    if kind in LIM:
        top = LIM[kind] if len(x) < 8 else min(LIM[kind], 20)
        for v in x:
            ctx.assume_ge(top, v)
            ctx.assume_ge(v, -top)
        if kind == 'logistic' and len(x) >= 8:
            for v in x[1:]:
                ctx.assume_ge(x[0], v)


def oracle(kind, data, x, w):
    return total([wi * TERM[kind](xi, *d) for wi, xi, d in zip(w, x, data)])


def terms(ctx, kind, n, cf, off, own, call, trials=True):
    c = ctx.real('coef', nonneg=True) if cf else 1.
    o = offvec(ctx, 'o', n) if off else None
    w = ctx.vec('w', n, nonneg=True) if own else None
    v = ctx.vec('v', n, nonneg=True) if call else None
    loss, data = build(ctx, kind, n, c, None if o is None else o.copy(), None if w is None else w.copy(), trials)
    eta = ctx.vec('eta', n)
    x = eta - o if off else eta
    limits(ctx, kind, x)
    one = [1.] * n
    W = [a * b for a, b in zip(w if own else one, v if call else one)]
    ref = c * oracle(kind, data, x, W)
    kw = {} if not call else dict(case_weights=v)
    v0 = v.copy() if call else None
    e0 = eta.copy()
    f = loss.smooth_objective(eta, 'func', **kw)
    ctx.eq(f, ref, 'value')
    g = loss.smooth_objective(eta, 'grad', **kw)
    if (ctx.symbolic or 'huber' not in kind) and not hasattr(ctx, 'wide'):     # central differences in a replay are inexact at kinks
        ctx.eq(g, deriv(ctx, lambda e: loss.smooth_objective(e, 'func', **kw), eta, f), 'gradient')
    if 'huber' in kind:
        ctx.eq(g, [c * W[i] * (g_huber if kind == 'huber' else g_hsvm)(x[i], *data[i]) for i in range(n)], 'gradient definition')
    f2, g2 = loss.smooth_objective(eta, 'both', **kw)
    ctx.eq(f2, f, 'value (both)')
    ctx.eq(g2, g, 'gradient (both)')
    ctx.eq(eta, e0, 'argument unchanged')
    if call:
        ctx.eq(v, v0, 'case weights unchanged')
    if own:
        ctx.eq(loss.case_weights, w, 'own case weights unchanged')


def overflow(ctx, mode):
    """very large linear predictors of a logistic model: log(1+e^x) is replaced by x, consistently in value,
    gradient and all positions"""
    import regreg.smooth.glm as G
    loss = G.logistic_loglike((3,), ctx.arr([2, 1, 3]), trials=ctx.arr([3, 2, 4]))
    x = ctx.vec('x', 3)
    ctx.assume_gt(x[0], 100)
    ctx.assume_ge(100, x[1])
    if mode == 'two':
        ctx.assume_gt(x[2], 100)
    else:
        ctx.assume_ge(100, x[2])
    ref = 0
    s, n = [2, 1, 3], [3, 2, 4]
    for i in range(3):
        big = i == 0 or (i == 2 and mode == 'two')
        ref = ref + n[i] * (x[i] if big else logv(1 + expv(x[i]))) - s[i] * x[i]
    perm = ctx.choice('p', [(0, 1, 2), (1, 0, 2), (1, 2, 0)])
    loss = G.logistic_loglike((3,), ctx.arr([s[i] for i in perm]), trials=ctx.arr([n[i] for i in perm]))
    z = ctx.zeros(3)
    for k, i in enumerate(perm):
        z[k] = x[i]
    f, g = loss.smooth_objective(z, 'both')
    ctx.eq(f, ref, 'value')
    ctx.eq(loss.smooth_objective(z, 'func'), ref, 'value (func)')
    ctx.eq(loss.smooth_objective(z, 'grad'), g, 'gradient modes agree')
    for k, i in enumerate(perm):
        big = i == 0 or (i == 2 and mode == 'two')
        p = 1. if big else expv(x[i]) / (1 + expv(x[i]))
        ctx.eq(g[k], n[i] * p - s[i], 'gradient[%d]' % i)
    h = loss.hessian(z)
    for k, i in enumerate(perm):
        big = i == 0 or (i == 2 and mode == 'two')
        if not big:
            e = expv(x[i])
            ctx.eq(h[k], n[i] * e / ((1 + e) * (1 + e)), 'hessian[%d]' % i)
        else:
            ctx.le(h[k], 1e-30, 'hessian[%d] negligible' % i)
            ctx.ge(h[k], 0, 'hessian[%d] nonnegative' % i)


# ------------------------------------------------------------------ Cox

def orderings(n):
    out = set()
    for t in itertools.product(range(n), repeat=n):
        s = sorted(set(t))
        out.add(tuple(s.index(v) for v in t))
    return sorted(out)


def cox_ref(eta, w, times, cens):
    r = 0
    for i in range(len(times)):
        if cens[i]:
            risk = [w[j] * expv(eta[j]) for j in range(len(times)) if times[j] >= times[i]]
            r = r + w[i] * (logv(total(risk)) - eta[i])
    return r


def cox(ctx, times, cens, cf=False, off=False, own=False, call=False):
    import regreg.smooth.glm as G
    n = len(times)
    c = ctx.real('coef', nonneg=True) if cf else 1.
    o = offvec(ctx, 'o', n) if off else None
    w = ctx.vec('w', n, pos=True) if own else None
    v = ctx.vec('v', n, pos=True) if call else None
    loss = G.cox_loglike((n,), np.array(times, float), np.array(cens), coef=c, offset=None if o is None else o.copy(),
                         case_weights=None if w is None else w.copy())
    eta = ctx.vec('eta', n)
    x = eta - o if off else eta
    one = [1.] * n
    W = [a * b for a, b in zip(w if own else one, v if call else one)]
    kw = {} if not call else dict(case_weights=v)
    v0 = v.copy() if call else None
    f = loss.smooth_objective(eta, 'func', **kw)
    ref = c * cox_ref(x, W, times, cens)
    ctx.eq(f, ref, 'value')
    g = loss.smooth_objective(eta, 'grad', **kw)
    ctx.eq(g, deriv(ctx, lambda e: c * cox_ref(e - o if off else e, W, times, cens), eta, ref), 'gradient')
    g0 = g.copy()
    f2, g2 = loss.smooth_objective(eta, 'both', **kw)
    ctx.eq(f2, f, 'value (both)')
    ctx.eq(g2, g0, 'gradient (both)')
    if call:
        ctx.eq(v, v0, 'case weights unchanged')
    if own:
        ctx.eq(loss.case_weights, w, 'own case weights unchanged')


LONG = [((3, 0, 3, 1, 5, 1, 4, 0), (1, 1, 0, 1, 0, 1, 1, 0)),
        ((2, 5, 1, 2, 4, 2, 0, 1, 5, 3, 0, 2), (1, 1, 0, 1, 1, 0, 0, 1, 0, 1, 1, 1))]


def cox_all(ctx, n, cens):
    for times in orderings(n):
        cox(ctx, times, cens)


def cox_drop(ctx, times, cens, drop):
    """weight zero removes an observation from the likelihood"""
    import regreg.smooth.glm as G
    n = len(times)
    keep = [i for i in range(n) if i not in drop]
    cw = np.ones(n)
    cw[list(drop)] = 0
    loss = G.cox_loglike((n,), np.array(times, float), np.array(cens), case_weights=cw)
    red = G.cox_loglike((len(keep),), np.array([times[i] for i in keep], float), np.array([cens[i] for i in keep]))
    eta = ctx.vec('eta', n)
    f, g = loss.smooth_objective(eta, 'both')
    sub = ctx.zeros(len(keep))
    for k, i in enumerate(keep):
        sub[k] = eta[i]
    F, Gr = red.smooth_objective(sub, 'both')
    ctx.eq(f, F, 'value')
    for k, i in enumerate(keep):
        ctx.eq(g[i], Gr[k], 'gradient')
    for i in drop:
        ctx.eq(g[i], 0, 'gradient of the dropped case')
    r = ctx.vec('r', n)
    h = loss.hessian_mult(eta, r)
    rs = ctx.zeros(len(keep))
    for k, i in enumerate(keep):
        rs[k] = r[i]
    H = red.hessian_mult(sub, rs)
    for k, i in enumerate(keep):
        ctx.eq(h[i], H[k], 'hessian product')
    for i in drop:
        ctx.eq(h[i], 0, 'hessian product of the dropped case')


# ---------------------------------------------------------- multinomial

MC = np.array([[1, 0, 2], [0, 3, 0]])


def multi(ctx, baseline, cf, off, own, call):
    import regreg.smooth.mglm as M
    n, J = MC.shape
    q = J - 1 if baseline else J
    c = ctx.real('coef', nonneg=True) if cf else 1.
    o = offvec(ctx, 'o', n, q) if off else None
    w = ctx.vec('w', n, nonneg=True) if own else None
    v = ctx.vec('v', n, nonneg=True) if call else None
    klass = M.multinomial_baseline_loglike if baseline else M.multinomial_loglike
    loss = klass((n, q), MC, coef=c, offset=None if o is None else o.copy(), case_weights=None if w is None else w.copy())
    eta = ctx.mat('eta', n, q)
    x = eta - o if off else eta
    for i in range(n):
        for j in range(q):
            ctx.assume_ge(50, x[i, j])
            ctx.assume_ge(x[i, j], -50)
    kw = {} if not call else dict(case_weights=v)
    ref = 0
    grad = ctx.zeros((n, q))
    for i in range(n):
        wi = (w[i] if own else 1.) * (v[i] if call else 1.)
        z = total([expv(x[i, j]) for j in range(q)]) + (1. if baseline else 0.)
        N = int(MC[i].sum())
        ref = ref + c * wi * (N * logv(z) - total([int(MC[i, j]) * x[i, j] for j in range(q)]))
        for j in range(q):
            grad[i, j] = c * wi * (N * expv(x[i, j]) / z - int(MC[i, j]))
    ctx.eq(loss.smooth_objective(eta, 'func', **kw), ref, 'value')
    ctx.eq(loss.smooth_objective(eta, 'grad', **kw), grad, 'gradient')
    f, g = loss.smooth_objective(eta, 'both', **kw)
    ctx.eq(f, ref, 'value (both)')
    ctx.eq(g, grad, 'gradient (both)')
    if own:
        ctx.eq(loss.case_weights, w, 'own case weights unchanged')


# ------------------------------------------------------------------ glm

XC = np.array([[1., -2.], [0.5, 3.], [2., 0.], [0., 1.], [-1., .5], [0., 0.], [1.5, 1.], [-.5, 2.], [1., -2.], [3., 1.],
               [-2., -1.], [.25, 0.]])


def design(ctx, how, n, p):
    import scipy.sparse as sp
    import regreg.affine as A
    if how == 'sym':
        return ctx.mat('X', n, p)
    X = XC[:n, :p].copy()
    return {'dense': X, 'sparse': sp.csr_matrix(X), 'csc': sp.csc_matrix(X), 'transform': A.astransform(X)}[how]


def dense(X):
    if hasattr(X, 'toarray'):
        return X.toarray()
    if hasattr(X, 'linear_operator'):
        return XC[:X.output_shape[0], :X.input_shape[0]].copy()
    return X


def glm(ctx, kind, how, n=2, off=False, sat=False, cw=False, cf=False, trials=True, extra=False):
    import regreg.smooth.glm as G
    X = design(ctx, how, n, 2)
    Xd = dense(X)
    c = ctx.real('coef', nonneg=True) if cf else 1.
    o = offvec(ctx, 'o', 2) if off else None
    s = offvec(ctx, 's', n) if sat else None
    w = ctx.vec('w', n, nonneg=True) if cw else None
    kw = dict(coef=c, offset=None if o is None else o.copy(), saturated_offset=None if s is None else s.copy(),
              case_weights=None if w is None else w.copy())
    lq, start = (ctx.vec('lin', 2), ctx.vec('start', 2)) if extra else (None, None)
    if extra:
        from regreg.identity_quadratic import identity_quadratic as Q
        kw.update(quadratic=Q(0, 0, lq.copy(), 1.), initial=start.copy())
    K = G.glm
    if kind == 'gaussian':
        y = ctx.vec('y', n)
        loss, data = K.gaussian(X, y, **kw), [(v, None) for v in y]
    elif kind == 'poisson':
        loss, data = K.poisson(X, ctx.arr(COUNTS[:n]), **kw), [(v, None) for v in COUNTS[:n]]
    elif kind in ('logistic', 'probit', 'cloglog'):
        if trials:
            loss = getattr(K, kind)(X, ctx.arr(SUCC[:n]), trials=ctx.arr(TRIALS[:n]), **kw)
            data = list(zip(SUCC, TRIALS))[:n]
        else:
            loss = getattr(K, kind)(X, ctx.arr(BIN[:n]), **kw)
            data = [(b, 1) for b in BIN[:n]]
    elif kind == 'huber':
        y = ctx.vec('y', n)
        loss, data = K.huber(X, y, .5, **kw), [(v, .5) for v in y]
    elif kind == 'huber_svm':
        loss, data = K.huber_svm(X, ctx.arr(BIN[:n]), .5, **kw), [(b, .5) for b in BIN[:n]]
    elif kind == 'cox':
        times, cens = [2., 1., 2.][:n], [1, 1, 0][:n]
        loss = K.cox(X, np.array(times), np.array(cens), **kw)
    b = ctx.vec('b', 2)
    bb = b - o if off else b
    lin = [dot(Xd[i], bb) for i in range(n)]
    x = [lin[i] - s[i] if sat else lin[i] for i in range(n)]
    limits(ctx, kind, x)
    W = list(w) if cw else [1.] * n
    if cw and kind == 'cox':
        for v in w:
            ctx.assume_gt(v, 0)
    ref = c * (cox_ref(x, W, times, cens) if kind == 'cox' else oracle(kind, data, x, W))
    if extra:
        ctx.eq(loss.coefs, start, 'initial')
        ctx.eq(loss.quadratic.objective(b, 'func'), dot(b, lq) + 1., 'quadratic')
    f = loss.smooth_objective(b, 'func')
    ctx.eq(f, ref, 'value')
    g = loss.smooth_objective(b, 'grad')
    if hasattr(ctx, 'wide'):
        gi = [W[i] * (g_huber if kind == 'huber' else g_hsvm)(x[i], *data[i]) for i in range(n)]
        ctx.eq(g, [c * total([gi[i] * Xd[i, k] for i in range(n)]) for k in range(2)], 'gradient')
    elif ctx.symbolic or 'huber' not in kind:
        ctx.eq(g, deriv(ctx, lambda e: loss.smooth_objective(e, 'func'), b, f), 'gradient')
    f2, g2 = loss.smooth_objective(b, 'both')
    ctx.eq(f2, ref, 'value (both)')
    ctx.eq(g2, g, 'gradient (both)')
    ctx.eq(loss.objective(b), ref, 'objective')
    ctx.eq(loss.gradient(b), g, 'gradient method')
    if cw:
        ctx.eq(loss.case_weights, w, 'case weights unchanged')


def mglm(ctx, how, baseline, off, sat, cw):
    import regreg.smooth.mglm as M
    n, J = MC.shape
    q = J - 1 if baseline else J
    X = design(ctx, how, n, 2)
    Xd = dense(X)
    o = offvec(ctx, 'o', 2, q) if off else None
    s = offvec(ctx, 's', n, q) if sat else None
    w = ctx.vec('w', n, nonneg=True) if cw else None
    from regreg.identity_quadratic import identity_quadratic as Q
    lq, start = ctx.mat('lin', 2, q), ctx.mat('start', 2, q)
    loss = M.mglm.multinomial(X, MC, baseline=baseline, offset=None if o is None else o.copy(),
                              saturated_offset=None if s is None else s.copy(), case_weights=None if w is None else w.copy(),
                              quadratic=Q(0, 0, lq.copy(), 1.), initial=start.copy())
    b = ctx.mat('b', 2, q)
    ctx.eq(loss.coefs, start, 'initial')
    ctx.eq(loss.quadratic.objective(b, 'func'), dot(b.reshape(-1), lq.reshape(-1)) + 1., 'quadratic')
    bb = b - o if off else b
    x = ctx.zeros((n, q))
    for i in range(n):
        for j in range(q):
            x[i, j] = dot(Xd[i], bb[:, j]) - (s[i, j] if sat else 0.)
            ctx.assume_ge(50, x[i, j])
            ctx.assume_ge(x[i, j], -50)
    ref = 0
    G = ctx.zeros((n, q))
    for i in range(n):
        wi = w[i] if cw else 1.
        z = total([expv(x[i, j]) for j in range(q)]) + (1. if baseline else 0.)
        N = int(MC[i].sum())
        ref = ref + wi * (N * logv(z) - total([int(MC[i, j]) * x[i, j] for j in range(q)]))
        for j in range(q):
            G[i, j] = wi * (N * expv(x[i, j]) / z - int(MC[i, j]))
    grad = ctx.zeros((2, q))
    for k in range(2):
        for j in range(q):
            grad[k, j] = total([Xd[i, k] * G[i, j] for i in range(n)])
    ctx.eq(loss.smooth_objective(b, 'func'), ref, 'value')
    ctx.eq(loss.smooth_objective(b, 'grad'), grad, 'gradient')
    f, g = loss.smooth_objective(b, 'both')
    ctx.eq(f, ref, 'value (both)')
    ctx.eq(g, grad, 'gradient (both)')


# -------------------------------------------------------------- stacked

def stacked(ctx, common, cf, off, own, call):
    import regreg.smooth.glm as G
    import regreg.smooth.mglm as M
    c = ctx.real('coef', nonneg=True) if cf else 1.
    y = ctx.vec('y', 2)
    l1 = G.gaussian_loglike((2,), y)
    l2 = G.logistic_loglike((2,), ctx.arr([1, 0]))
    n = 2 if common else 4
    sh = (2, 2) if common else (4,)
    w = ctx.vec('w', n, nonneg=True) if own else None
    v = ctx.vec('v', n, nonneg=True) if call else None
    o = (offvec(ctx, 'o', 2, 2) if common else offvec(ctx, 'o', 4)) if off else None
    klass = M.stacked_common_loglike if common else G.stacked_loglike
    loss = klass([l1, l2], coef=c, offset=None if o is None else o.copy(), case_weights=None if w is None else w.copy())
    eta = ctx.mat('eta', 2, 2) if common else ctx.vec('eta', 4)
    x = eta - o if off else eta
    W = [(w[i] if own else 1.) * (v[i] if call else 1.) for i in range(n)]
    if common:
        a, b, Wa, Wb = x[:, 0], x[:, 1], W, W
    else:
        a, b, Wa, Wb = x[:2], x[2:], W[:2], W[2:]
    limits(ctx, 'logistic', b)
    ref = c * (oracle('gaussian', [(t, None) for t in y], a, Wa) + oracle('logistic', [(1, 1), (0, 1)], b, Wb))
    ga = [c * Wa[i] * (a[i] - y[i]) for i in range(2)]
    gb = [c * Wb[i] * (expv(b[i]) / (1 + expv(b[i])) - (1, 0)[i]) for i in range(2)]
    grad = ctx.zeros(sh)
    for i in range(2):
        if common:
            grad[i, 0] = ga[i]
            grad[i, 1] = gb[i]
        else:
            grad[i] = ga[i]
            grad[2 + i] = gb[i]
    kw = {} if not call else dict(case_weights=v)
    ctx.eq(loss.smooth_objective(eta, 'func', **kw), ref, 'value')
    g = loss.smooth_objective(eta, 'grad', **kw)
    ctx.eq(g, grad, 'gradient')
    f, g2 = loss.smooth_objective(eta, 'both', **kw)
    ctx.eq(f, ref, 'value (both)')
    ctx.eq(g2, grad, 'gradient (both)')
    loss.smooth_objective(0 * eta, 'grad', **kw)
    ctx.eq(g, grad, 'earlier gradient not overwritten')
    if own:
        ctx.eq(loss.case_weights, w, 'own case weights unchanged')


def hinge(ctx, cf, off, labels):
    """the stand-alone Huberised hinge loss"""
    from regreg.smooth.losses import huberized_svm
    X = design(ctx, 'sym', 2, 2) if not off else design(ctx, 'dense', 3, 2)
    L = np.array(labels[:X.shape[0]])
    eps, c = ctx.real('eps', lo=.25), ctx.real('coef', pos=True) if cf else 1.
    o = offvec(ctx, 'o', 2) if off else None
    loss = huberized_svm(X, L, eps, coef=c, offset=None if o is None else o.copy())
    b = ctx.vec('b', 2)
    b0 = b.copy()
    d = b - o if off else b
    x = [dot(X[i], d) for i in range(X.shape[0])]
    s = [int(v == L.max()) for v in L]
    f, g = loss.smooth_objective(b, 'both')
    ctx.eq(f, c * total([t_hsvm(x[i], s[i], eps) for i in range(len(x))]), 'value')
    ctx.eq(loss.smooth_objective(b, 'func'), f, 'value alone')
    u = [-(2 * s[i] - 1) * (0. if 1 - (2 * s[i] - 1) * x[i] <= 0 else (
        (1 - (2 * s[i] - 1) * x[i]) / eps if 1 - (2 * s[i] - 1) * x[i] <= eps else 1.)) for i in range(len(x))]
    for j in range(2):
        ctx.eq(g[j], c * total([u[i] * X[i][j] for i in range(len(x))]), 'gradient')
    ctx.eq(loss.smooth_objective(b, 'grad'), g, 'gradient alone')
    ctx.eq(b, b0, 'argument unchanged')


def stacked_ctor(ctx, kind, common, more=False):
    """class constructors stack the loss they name"""
    import regreg.smooth.glm as G
    import regreg.smooth.mglm as M
    K = M.stacked_common_loglike if common else G.stacked_loglike
    c = 2.
    eta = ctx.mat('eta', 2, 2)
    kw, W, o, lin = dict(coef=c), [[1., 1.], [1., 1.]], ctx.zeros((2, 2)), None
    if more:
        from regreg.identity_quadratic import identity_quadratic as Q
        W = [[.5, 2.], [.5, 2.]] if common else [[.5, 2.], [0., 1.5]]
        o = ctx.arr(np.array([[.5, -1.], [2., .25]]))
        lin = ctx.vec('l', 4).reshape((2, 2) if common else (4,))
        kw.update(case_weights=np.array(W[0] if common else W[0] + W[1]), offset=ctx.arr(np.array(o.T if common else o.reshape(-1))),
                  quadratic=Q(0, 0, lin, 1.))
        start = ctx.vec('i', 4).reshape(lin.shape)
        kw['initial'] = start.copy()
    if kind == 'gaussian':
        ys = [ctx.vec('y', 2), ctx.vec('z', 2)]
        loss = K.gaussian(ys, **kw)
        data = [[(v, None) for v in y] for y in ys]
    elif kind in ('logistic', 'probit', 'cloglog'):
        s = [ctx.arr([2, 0]), ctx.arr([1, 1])]
        t = [ctx.arr([3, 2]), ctx.arr([1, 2])]
        loss = getattr(K, kind)(s, trials=t, **kw)
        data = [list(zip(*p)) for p in zip(s, t)]
    elif kind == 'poisson':
        s = [ctx.arr([2, 0]), ctx.arr([1, 4])]
        loss = K.poisson(s, **kw)
        data = [[(v, None) for v in q] for q in s]
    elif kind == 'huber':
        ys = [ctx.vec('y', 2), ctx.vec('z', 2)]
        loss = K.huber(None, ys, .5, **kw)
        data = [[(v, .5) for v in y] for y in ys]
    elif kind == 'huber_svm':
        s = [ctx.arr([1, 0]), ctx.arr([0, 1])]
        loss = K.huber_svm(None, s, .5, **kw)
        data = [[(v, .5) for v in q] for q in s]
    elif kind == 'cox':
        t = [np.array([2., 1.]), np.array([1., 1.])]
        cs = [ctx.arr([1, 1]), ctx.arr([1, 0])]
        loss = K.cox(None, t, cs, **kw)
    for k in range(2):
        limits(ctx, kind, eta[k] - o[k])
    if kind == 'cox':
        ref = total([cox_ref(eta[k] - o[k], W[k], t[k], cs[k]) for k in range(2)])
    else:
        ref = total([oracle(kind, data[k], eta[k] - o[k], W[k]) for k in range(2)])
    x = ctx.zeros((2, 2)) if common else ctx.zeros(4)
    for k in range(2):
        for i in range(2):
            if common:
                x[i, k] = eta[k, i]
            else:
                x[2 * k + i] = eta[k, i]
    ctx.eq(loss.smooth_objective(x, 'func'), c * ref, 'value')
    if more:
        ctx.eq(loss.coefs, start, 'initial')
        ctx.eq(loss.quadratic.objective(x, 'func'), dot(x.reshape(-1), lin.reshape(-1)) + 1., 'quadratic')
        ctx.eq(loss.objective(x), c * ref + dot(x.reshape(-1), lin.reshape(-1)) + 1., 'objective')


def wrappers(ctx, which):
    import regreg.smooth.glm as G
    import regreg.smooth.mglm as M
    X = design(ctx, 'dense', 3, 2)
    Xd = dense(X)
    if which == 'logistic_loss':
        s, t, c = ctx.arr([2, 0, 1]), ctx.arr([3, 2, 1]), ctx.real('coef', pos=True, hi=8)
        loss = G.logistic_loss(X, s, trials=t, coef=c)
        b = ctx.vec('b', 2)
        eta = [dot(Xd[i], b) for i in range(3)]
        limits(ctx, 'logistic', eta)
        ctx.eq(loss.smooth_objective(b, 'func'), c * oracle('logistic', list(zip(s, t)), eta, [1.] * 3), 'value')
        G1 = [c * (t[i] * expv(eta[i]) / (1 + expv(eta[i])) - s[i]) for i in range(3)]
        ctx.eq(loss.smooth_objective(b, 'grad'), np.array([dot(Xd[:, j], G1) for j in range(2)]), 'gradient')
        return
    y = ctx.vec('y', 3)
    losses = [G.gaussian_loglike((3,), y), G.logistic_loglike((3,), ctx.arr([1, 0, 1]))]
    c, o, so, w = 2., ctx.arr(np.array([[.5, -1.], [2., .25]])), ctx.arr(np.array([[.25, 1.], [-1., .5], [0., 2.]])), np.array([.5, 2., 0.])
    from regreg.identity_quadratic import identity_quadratic as Q
    lin = ctx.arr(np.array([[1., -2.], [3., .5]]))
    loss = M.mglm.stacked(X, losses, coef=c, offset=o.copy(), saturated_offset=so.copy(), case_weights=w.copy(), quadratic=Q(0, 0, lin, 0))
    b = ctx.mat('b', 2, 2)
    eta = ctx.zeros((3, 2))
    for i in range(3):
        for k in range(2):
            eta[i, k] = dot(Xd[i], (b - o)[:, k]) - so[i, k]
    limits(ctx, 'logistic', eta[:, 1])
    ref = c * (oracle('gaussian', [(v, None) for v in y], eta[:, 0], w) + oracle('logistic', [(1, 1), (0, 1), (1, 1)], eta[:, 1], w))
    ctx.eq(loss.smooth_objective(b, 'func'), ref, 'value')
    R = [[c * w[i] * (eta[i, 0] - y[i]) for i in range(3)], [c * w[i] * (expv(eta[i, 1]) / (1 + expv(eta[i, 1])) - (1, 0, 1)[i]) for i in range(3)]]
    ctx.eq(loss.smooth_objective(b, 'grad'), np.array([[dot(Xd[:, j], R[k]) for k in range(2)] for j in range(2)]), 'gradient')
    ctx.eq(loss.objective(b), ref, 'loss')
    ctx.eq(loss.nonsmooth_objective(b), dot(b.reshape(-1), lin.reshape(-1)), 'attached quadratic')


def quad_loss(ctx, how, cf, off):
    """quadratic_loss: x'Qx/2"""
    import regreg.smooth.quadratic as Q
    c = ctx.real('coef', nonneg=True) if cf else 1.
    o = offvec(ctx, 'o', 2) if off else None
    oc = None if o is None else o.copy()
    A = None
    if how == 'none':
        loss = Q.quadratic_loss((2,), coef=c, offset=oc)
        A = ctx.arr(np.identity(2))
    elif how == 'full':
        A = ctx.mat('q', 2, 2)
        A[0, 1] = A[1, 0]
        loss = Q.quadratic_loss((2,), Q=A.copy(), coef=c, offset=oc)
    elif how == 'fromarray':
        A = ctx.mat('q', 2, 2)
        A[0, 1] = A[1, 0]
        loss = Q.quadratic_loss.fromarray(A.copy(), offset=oc)
        c = 1.
    elif how == 'diagonal':
        d = ctx.vec('d', 2)
        A = ctx.zeros((2, 2))
        A[0, 0], A[1, 1] = d[0], d[1]
        loss = Q.quadratic_loss.diagonal(d.copy(), offset=oc)
        c = 1.
    elif how == 'squared':
        T = ctx.mat('t', 2, 2)
        A = ctx.zeros((2, 2))
        for i in range(2):
            for j in range(2):
                A[i, j] = dot(T[:, i], T[:, j])
        loss = Q.quadratic_loss.squared_transform(T.copy(), offset=oc)
        c = 1.
    x = ctx.vec('x', 2)
    z = x - o if off else x
    Az = ctx.zeros(2)
    for i in range(2):
        Az[i] = dot(A[i], z)
    ctx.eq(loss.smooth_objective(x, 'func'), c * dot(z, Az) / 2., 'value')
    ctx.eq(loss.smooth_objective(x, 'grad'), c * Az, 'gradient')
    f, g = loss.smooth_objective(x, 'both')
    ctx.eq(f, c * dot(z, Az) / 2., 'value (both)')
    ctx.eq(g, c * Az, 'gradient (both)')


def sq_error(ctx, which):
    import regreg.smooth.quadratic as Q
    c = ctx.real('coef', nonneg=True)
    y = ctx.vec('y', 2)
    b = ctx.vec('b', 2)
    if which == 'signal':
        loss = Q.signal_approximator(y.copy(), coef=c)
        r = b - y
        gr = c * r
    else:
        X = ctx.mat('X', 2, 2)
        loss = Q.squared_error(X, y.copy(), coef=c)
        r = ctx.zeros(2)
        gr = ctx.zeros(2)
        for i in range(2):
            r[i] = dot(X[i], b) - y[i]
        for j in range(2):
            gr[j] = c * dot(X[:, j], r)
    ctx.eq(loss.smooth_objective(b, 'func'), c * sq(r) / 2., 'value')
    ctx.eq(loss.smooth_objective(b, 'grad'), gr, 'gradient')
    f, g = loss.smooth_objective(b, 'both')
    ctx.eq(f, c * sq(r) / 2., 'value (both)')
    ctx.eq(g, gr, 'gradient (both)')


def obligations(tier):
    for kind in TERM:
        kink = 'huber' in kind
        for cfg in ((0, 0, 0, 1), (1, 1, 1, 0)):
            kw = dict(kind=kind, n=12, cf=cfg[0], off=cfg[1], own=cfg[2], call=cfg[3])
            nm = '%s.terms[12]%s' % (kind, cfg)
            yield Ob(nm, wide, dict(kw, fn=terms, free=('eta',), fix={'eps': .5})) if kink else Ob(nm, terms, kw)
        for how in ('dense', 'csc'):
            kw = dict(kind=kind, how=how, n=12, sat=True, cw=how == 'dense')
            nm = 'glm.%s[12,%s]' % (kind, how)
            yield Ob(nm, wide, dict(kw, fn=glm, free=('b',))) if kink else Ob(nm, glm, kw)
    for which in ('logistic_loss', 'mglm.stacked'):
        yield Ob('wrapper[%s]' % which, wrappers, dict(which=which))
    deep = tier == 'thorough'
    FULL = [(0, 0, 0, 0), (1, 1, 0, 0), (0, 0, 1, 1), (1, 1, 1, 1), (0, 1, 1, 0), (1, 0, 0, 1)]
    for kind in TERM:
        for cfg in FULL:
            yield Ob('%s.terms%s' % (kind, cfg), terms, dict(kind=kind, n=2, cf=cfg[0], off=cfg[1], own=cfg[2], call=cfg[3]))
        yield Ob('%s.terms[3]' % kind, terms, dict(kind=kind, n=3, cf=1, off=0, own=0, call=1))
        if kind in ('logistic', 'probit', 'cloglog'):
            yield Ob('%s.terms[binary]' % kind, terms, dict(kind=kind, n=2, cf=1, off=1, own=1, call=0, trials=False))
        for how in ('dense', 'sparse', 'transform'):
            yield Ob('glm.%s[%s]' % (kind, how), glm, dict(kind=kind, how=how, off=how == 'dense', sat=how != 'dense',
                                                          cw=how != 'transform', cf=how == 'sparse', extra=how == 'sparse'))
        yield Ob('glm.%s[csc]' % kind, glm, dict(kind=kind, how='csc', n=3, off=True, trials=False))
    yield Ob('glm.gaussian[sym]', glm, dict(kind='gaussian', how='sym', off=True, sat=True, cw=True))
    yield Ob('glm.logistic[sym]', glm, dict(kind='logistic', how='sym', off=True, sat=True, cw=True))
    yield Ob('glm.poisson[sym]', glm, dict(kind='poisson', how='sym', off=True, sat=True, cw=True))
    for how in ('dense', 'sparse'):
        yield Ob('glm.cox[%s]' % how, glm, dict(kind='cox', how=how, n=3, off=True, sat=how == 'sparse', cw=how == 'dense',
                                                 extra=how == 'dense'))
    for m in ('one', 'two'):
        yield Ob('logistic.overflow[%s]' % m, overflow, dict(mode=m))
    for cens in itertools.product((0, 1), repeat=3):
        if any(cens):
            yield Ob('cox[3,%s]' % (cens,), cox_all, dict(n=3, cens=cens))
    for cfg in FULL[1:]:
        yield Ob('cox.terms%s' % (cfg,), cox, dict(times=(1, 0, 1, 2), cens=(1, 1, 0, 1), cf=cfg[0], off=cfg[1],
                                                  own=cfg[2], call=cfg[3]))
    for times, cens in LONG:
        for cfg in ((0, 0, 0, 0), (0, 0, 0, 1)) + (((1, 1, 1, 0),) if len(times) < 12 else ()):
            yield Ob('cox.long[%d]%s' % (len(times), cfg), cox, dict(times=times, cens=cens, cf=cfg[0], off=cfg[1], own=cfg[2],
                                                                    call=cfg[3]))
    for times, cens, drop in [((0, 1, 2), (1, 1, 1), (2,)), ((0, 1, 2), (1, 1, 1), (0,)), ((2, 1, 1), (1, 1, 0), (0,)),
                              ((1, 0, 1), (1, 1, 1), (0, 2)), ((0, 0, 1), (1, 1, 1), (1,)), ((2, 0, 1, 2), (1, 1, 1, 1), (0, 3))]:
        yield Ob('cox.drop[%s,%s,%s]' % (times, cens, drop), cox_drop, dict(times=times, cens=cens, drop=drop))
    for b in (False, True):
        for cfg in FULL:
            yield Ob('multinomial[%s]%s' % (b, cfg), multi, dict(baseline=b, cf=cfg[0], off=cfg[1], own=cfg[2], call=cfg[3]))
        for how in ('dense', 'sparse'):
            yield Ob('mglm[%s,%s]' % (b, how), mglm, dict(how=how, baseline=b, off=True, sat=how == 'dense', cw=how == 'sparse'))
    for cfg in ((0, 0), (1, 0), (1, 1)):
        for labels in ([1, 0, 1], [-1, 1, 1]):
            yield Ob('hinge%s%s' % (cfg, labels), hinge, dict(cf=cfg[0], off=cfg[1], labels=labels))
    for common in (False, True):
        for cfg in FULL:
            yield Ob('stacked[%s]%s' % (common, cfg), stacked, dict(common=common, cf=cfg[0], off=cfg[1], own=cfg[2], call=cfg[3]))
        for k in ('gaussian', 'logistic', 'probit', 'cloglog', 'poisson', 'huber', 'huber_svm', 'cox'):
            if common and k in ('probit', 'cloglog'):
                continue
            yield Ob('stacked.%s[%s]' % (k, common), stacked_ctor, dict(kind=k, common=common))
            yield Ob('stacked.%s[%s,everything]' % (k, common), stacked_ctor, dict(kind=k, common=common, more=True))
    for how in ('none', 'full', 'fromarray', 'diagonal', 'squared'):
        for off in (False, True):
            yield Ob('quadratic_loss[%s,%s]' % (how, off), quad_loss, dict(how=how, cf=True, off=off))
    for w in ('signal', 'affine'):
        yield Ob('squared_error[%s]' % w, sq_error, dict(which=w))
    if deep:
        for cens in itertools.product((0, 1), repeat=4):
            if any(cens):
                yield Ob('cox[4,%s]' % (cens,), cox_all, dict(n=4, cens=cens), limit=600)
