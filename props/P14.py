"""Hessians of losses and of generalised linear models"""
from .common import *
from .P13 import (build, limits, Phi, expv, logv, cox_ref, LONG, orderings, design, dense, offvec, SUCC, TRIALS, BIN, COUNTS,
                  XC, cox_drop)

BOUNDS = ('2-3 and 12 observations (Cox: 3, one ordering of 8, thorough 4, every ordering with ties), 2 coefficients, natural parameters, weights, '
          'offsets and coef symbolic; |natural parameter| below the clipping thresholds')


def phi(x):
    if hasattr(x, 'n'):
        from symx import core
        return core.sphi(x)
    from scipy.stats import norm
    return norm.pdf(x)


def info(kind, x, s, n):
    """curvature of one term; probit and cloglog: expected information (the documented choice of weights)"""
    if kind == 'gaussian':
        return 1.
    if kind == 'poisson':
        return expv(x)
    if kind == 'logistic':
        e = expv(x)
        return n * e / ((1 + e) * (1 + e))
    if kind == 'probit':
        return n * phi(x) * phi(x) / (Phi(x) * (1 - Phi(x)))
    q = expv(-expv(x))
    d = expv(x) * q
    return n * d * d / (q * (1 - q))


def diag(ctx, kind, n, cf, off, own, call):
    c = ctx.real('coef', nonneg=True) if cf else 1.
    o = offvec(ctx, 'o', n) if off else None
    w = ctx.vec('w', n, nonneg=True) if own else None
    v = ctx.vec('v', n, nonneg=True) if call else None
    loss, data = build(ctx, kind, n, c, None if o is None else o.copy(), None if w is None else w.copy())
    eta = ctx.vec('eta', n)
    x = eta - o if off else eta
    limits(ctx, kind, x)
    one = [1.] * n
    W = [a * b for a, b in zip(w if own else one, v if call else one)]
    kw = {} if not call else dict(case_weights=v)
    v0 = v.copy() if call else None
    e0 = eta.copy()
    h = loss.hessian(eta, **kw)
    aux = [d[1] if d[1] is not None else 1 for d in data]
    for i in range(n):
        ctx.eq(h[i], c * W[i] * info(kind, x[i], data[i][0], aux[i]), 'hessian[%d]' % i)
    if kind in ('gaussian', 'poisson', 'logistic'):
        g = loss.smooth_objective(eta, 'grad', **kw)
        for i in range(n):
            def gi(e, i=i):
                return loss.smooth_objective(e, 'grad', **kw)[i]
            D = deriv(ctx, gi, eta, g[i])
            for j in range(n):
                ctx.eq(D[j], h[i] if i == j else 0, 'derivative of the gradient[%d,%d]' % (i, j))
    ctx.eq(eta, e0, 'argument unchanged')
    if call:
        ctx.eq(v, v0, 'case weights unchanged')
    if own:
        ctx.eq(loss.case_weights, w, 'own case weights unchanged')


def mean(ctx, kind):
    loss, data = build(ctx, kind, 2)
    x = ctx.vec('x', 2)
    limits(ctx, kind, x)
    m = loss.mean_function(x)
    for i in range(2):
        r = {'gaussian': lambda v: v, 'poisson': expv, 'logistic': lambda v: expv(v) / (1 + expv(v)), 'probit': Phi,
             'cloglog': lambda v: 1 - expv(-expv(v))}[kind](x[i])
        ctx.eq(m[i], r, 'mean[%d]' % i)


def cox_hess(ctx, times, cens, cf=False, off=False, own=False, call=False):
    import regreg.smooth.glm as G
    n = len(times)
    c = ctx.real('coef', nonneg=True) if cf else 1.
    o = offvec(ctx, 'o', n) if off else None
    w = ctx.vec('w', n, pos=True) if own else None
    v = ctx.vec('v', n, pos=True) if call else None
    loss = G.cox_loglike((n,), np.array(times, float), np.array(cens), coef=c, offset=None if o is None else o.copy(),
                         case_weights=None if w is None else w.copy())
    eta = ctx.vec('eta', n)
    x = eta - o if off else eta
    one = [1.] * n
    W = [a * b for a, b in zip(w if own else one, v if call else one)]
    kw = {} if not call else dict(case_weights=v)
    r = ctx.vec('r', n)
    r0 = r.copy()
    h = loss.hessian_mult(eta, r, **kw)
    # d/dx_j d/dx_k sum_i w_i c_i log sum_risk
    H = [[0] * n for _ in range(n)]
    for i in range(n):
        if not cens[i]:
            continue
        risk = [j for j in range(n) if times[j] >= times[i]]
        e = dict((j, W[j] * expv(x[j])) for j in risk)
        t = total([e[j] for j in risk])
        for j in risk:
            H[j][j] = H[j][j] + W[i] * e[j] / t
            for k in risk:
                H[j][k] = H[j][k] - W[i] * e[j] * e[k] / (t * t)
    for j in range(n):
        ctx.eq(h[j], c * total([H[j][k] * r[k] for k in range(n)]), 'product[%d]' % j)
    ctx.eq(r, r0, 'vector unchanged')
    h0 = h.copy()
    loss.hessian_mult(eta, 0 * r, **kw)
    loss.smooth_objective(0 * eta, 'both')
    ctx.eq(h, h0, 'result not overwritten')


def cox_all(ctx, n, cens):
    for t in orderings(n):
        cox_hess(ctx, t, cens)


def glm(ctx, kind, how, n=2, off=False, sat=False, cw=False, cf=False):
    import regreg.smooth.glm as G
    X = design(ctx, how, n, 2)
    Xd = dense(X)
    c = ctx.real('coef', nonneg=True) if cf else 1.
    o = offvec(ctx, 'o', 2) if off else None
    s = offvec(ctx, 's', n) if sat else None
    w = ctx.vec('w', n, nonneg=kind != 'cox', pos=kind == 'cox') if cw else None
    kw = dict(coef=c, offset=None if o is None else o.copy(), saturated_offset=None if s is None else s.copy(),
              case_weights=None if w is None else w.copy())
    K = G.glm
    aux = [(0, 1)] * n
    if kind == 'gaussian':
        loss = K.gaussian(X, ctx.vec('y', n), **kw)
    elif kind == 'poisson':
        loss = K.poisson(X, ctx.arr(COUNTS[:n]), **kw)
    elif kind == 'cox':
        times, cens = [2., 1., 2.][:n], [1, 1, 0][:n]
        loss = K.cox(X, np.array(times), np.array(cens), **kw)
    else:
        loss = getattr(K, kind)(X, ctx.arr(SUCC[:n]), trials=ctx.arr(TRIALS[:n]), **kw)
        aux = list(zip(SUCC, TRIALS))[:n]
    b = ctx.vec('b', 2)
    bb = b - o if off else b
    x = [dot(Xd[i], bb) - (s[i] if sat else 0.) for i in range(n)]
    limits(ctx, kind, x)
    W = list(w) if cw else [1.] * n
    H = loss.hessian(b)
    D = [[0.] * n for _ in range(n)]
    if kind == 'cox':
        for i in range(n):
            if not cens[i]:
                continue
            risk = [j for j in range(n) if times[j] >= times[i]]
            e = dict((j, W[j] * expv(x[j])) for j in risk)
            t = total([e[j] for j in risk])
            for j in risk:
                D[j][j] = D[j][j] + W[i] * e[j] / t
                for k in risk:
                    D[j][k] = D[j][k] - W[i] * e[j] * e[k] / (t * t)
    else:
        for i in range(n):
            D[i][i] = W[i] * info(kind, x[i], *aux[i])
    ctx.true(np.shape(H) == (2, 2), 'shape')
    for k in range(2):
        for l in range(2):
            ref = c * total([Xd[i, k] * D[i][j] * Xd[j, l] for i in range(n) for j in range(n) if i == j or kind == 'cox'])
            ctx.eq(H[k, l], ref, 'hessian[%d,%d]' % (k, l))
    if cw:
        ctx.eq(loss.case_weights, w, 'case weights unchanged')


def linpred(ctx, how):
    import regreg.smooth.glm as G
    X = design(ctx, how, 2, 2)
    Xd = dense(X)
    loss = G.glm.gaussian(X, ctx.vec('y', 2))
    b = ctx.vec('b', 2)
    ctx.eq(loss.linear_predictor(b), [dot(Xd[i], b) for i in range(2)], 'linear predictor')


def obligations(tier):
    FULL = [(0, 0, 0, 0), (1, 1, 0, 0), (0, 0, 1, 1), (1, 1, 1, 1)]
    for kind in ('gaussian', 'poisson', 'logistic', 'probit', 'cloglog'):
        for cfg in ((0, 0, 0, 1), (1, 1, 1, 0)):
            yield Ob('%s[12]%s' % (kind, cfg), diag, dict(kind=kind, n=12, cf=cfg[0], off=cfg[1], own=cfg[2], call=cfg[3]))
        for how in ('dense', 'csc'):
            yield Ob('glm.%s[12,%s]' % (kind, how), glm, dict(kind=kind, how=how, n=12, sat=True, cw=how == 'dense'))
    for kind in ('gaussian', 'poisson', 'logistic', 'probit', 'cloglog'):
        for cfg in FULL:
            yield Ob('%s%s' % (kind, cfg), diag, dict(kind=kind, n=2, cf=cfg[0], off=cfg[1], own=cfg[2], call=cfg[3]))
        yield Ob('%s[3]' % kind, diag, dict(kind=kind, n=3, cf=1, off=0, own=1, call=0))
        yield Ob('%s.mean' % kind, mean, dict(kind=kind))
    for cens in itertools.product((0, 1), repeat=3):
        if any(cens):
            yield Ob('cox[3,%s]' % (cens,), cox_all, dict(n=3, cens=cens))
    for cfg in FULL[1:]:
        yield Ob('cox.terms%s' % (cfg,), cox_hess, dict(times=(1, 0, 1, 2), cens=(1, 1, 0, 1), cf=cfg[0], off=cfg[1],
                                                       own=cfg[2], call=cfg[3]))
    for times, cens in LONG[:1]:
        for cfg in ((0, 0, 0, 0), (0, 0, 0, 1), (0, 0, 1, 0)):
            yield Ob('cox.long[%d]%s' % (len(times), cfg), wide, dict(
                fn=cox_hess, free=('r',) if any(cfg) else ('r', 'eta'), times=times, cens=cens, cf=cfg[0], off=cfg[1],
                own=cfg[2], call=cfg[3]))
    for kind in ('gaussian', 'poisson', 'logistic', 'probit', 'cloglog', 'cox'):
        for how in ('dense', 'sparse', 'csc'):
            yield Ob('glm.%s[%s]' % (kind, how), glm, dict(kind=kind, how=how, n=3 if kind == 'cox' or how == 'csc' else 2,
                                                          off=how != 'sparse', sat=how != 'csc', cw=how != 'csc', cf=how == 'sparse'))
    yield Ob('glm.logistic[sym]', glm, dict(kind='logistic', how='sym', cw=True))
    yield Ob('glm.gaussian[sym]', glm, dict(kind='gaussian', how='sym', cw=True, cf=True))
    for how in ('dense', 'sparse', 'transform', 'sym'):
        yield Ob('linear_predictor[%s]' % how, linpred, dict(how=how))
    if tier == 'thorough':
        for cens in itertools.product((0, 1), repeat=4):
            if any(cens):
                yield Ob('cox[4,%s]' % (cens,), cox_all, dict(n=4, cens=cens), limit=600)
