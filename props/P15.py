"""case weights, subsamples, copies and data of losses; repeated evaluation"""
from .common import *
from .P13 import build, limits, oracle, cox_ref, expv, logv, design, dense, offvec, SUCC, TRIALS, BIN, COUNTS, MC

BOUNDS = '3 observations (12 for subsamples of the losses), 2 coefficients; natural parameters, responses and weights symbolic; listed index sets'

IDX = {'list': [0, 2], 'one': [1], 'empty': [], 'bool': np.array([False, True, True]), 'slice': slice(0, 2),
       'repeat': [2, 2, 0], 'all': [0, 1, 2],
       'long': [0, 5, 5, 7, 11, 2, 8]}


def kept(idx, n=3):
    k = np.zeros(n, bool)
    k[idx] = True
    return [float(v) for v in k]


KINDS = ('gaussian', 'poisson', 'logistic', 'probit', 'cloglog', 'huber', 'huber_svm', 'cox')
SHORT = [k for k in IDX if k != "long"]
TIMES, CENS = [2., 1., 2., 3., 0., 3., 1., 5., 1., 4., 0., 2.], [1, 1, 1, 0, 1, 1, 0, 1, 1, 0, 1, 1]


def make(ctx, kind, own=True, coef=1., off=None, quadratic=None, n=3):
    """saturated loss, f(x, W): value by definition"""
    import regreg.smooth.glm as G
    w = ctx.vec('w', n, nonneg=kind != 'cox', pos=kind == 'cox') if own else None
    wc = None if w is None else w.copy()
    if kind == 'cox':
        loss = G.cox_loglike((n,), np.array(TIMES[:n]), np.array(CENS[:n]), case_weights=wc, coef=coef, offset=off,
                             quadratic=quadratic)
        return loss, lambda x, W: coef * cox_w(x, W), w
    loss, data = build(ctx, kind, n, cw=wc, eps=.5, coef=coef, offset=off, quadratic=quadratic)
    return loss, lambda x, W: coef * oracle(kind, data, x, W), w


def pieces(ctx, y, *points):
    """fix the piece of the Huber loss the second and third observation are on (the first stays free)"""
    for x in points:
        ctx.assume_gt(x[1] - y[1], 0)
        ctx.assume_gt(.4, x[1] - y[1])
        ctx.assume_gt(x[2] - y[2], 1)


def cox_w(x, W):
    """Cox likelihood in which zero weights drop observations"""
    keep = [i for i in range(len(W)) if not (isinstance(W[i], float) and W[i] == 0)]
    return cox_ref([x[i] for i in keep], [W[i] for i in keep], [TIMES[i] for i in keep], [CENS[i] for i in keep])


def weight(w, m):
    """product of weight and indicator, keeping exact zeros"""
    if m == 0:
        return 0.
    return w if w is not None else 1.


def subsample(ctx, kind, own, idx, n=3):
    c = ctx.real('coef', pos=True)
    loss, f, w = make(ctx, kind, own, coef=c, n=n)
    x = ctx.vec('x', n)
    limits(ctx, kind, x)
    sub = loss.subsample(IDX[idx])
    m = kept(IDX[idx], n)
    W0 = [weight(w[i] if own else None, 1.) for i in range(n)]
    W = [weight(w[i] if own else None, m[i]) for i in range(n)]
    ref = f(x, W)
    ctx.eq(sub.smooth_objective(x, 'func'), ref, 'value of the subsample')
    g = sub.smooth_objective(x, 'grad')
    ctx.eq(g, deriv(ctx, lambda e: f(e, W), x, ref) if ctx.symbolic or 'huber' not in kind else g, 'gradient of the subsample')
    ctx.eq(loss.smooth_objective(x, 'func'), f(x, W0), 'original unchanged')
    both = sub.subsample([0, 1])
    m2 = kept([0, 1], n)
    ctx.eq(both.smooth_objective(x, 'func'), f(x, [weight(w[i] if own else None, m[i] * m2[i]) for i in range(n)]),
           'subsample of a subsample')
    ctx.eq(sub.smooth_objective(x, 'func'), ref, 'first subsample unchanged')


def copies(ctx, kind, own, q):
    from copy import copy
    from regreg.identity_quadratic import identity_quadratic as Q
    c = ctx.real('coef', pos=True)
    o = offvec(ctx, 'o', 3)
    quad = None
    if q:
        quad = Q(ctx.real('qc', pos=True), None, ctx.vec('ql', 3), ctx.real('qk'))
    loss, f, w = make(ctx, kind, own, coef=c, off=o.copy(), quadratic=quad)
    x = ctx.vec('x', 3)
    limits(ctx, kind, x - o)
    W = [w[i] if own else 1. for i in range(3)]
    cp = copy(loss)
    ctx.eq(loss.smooth_objective(x, 'func'), f(x - o, W), 'value')
    ctx.eq(cp.smooth_objective(x, 'func'), f(x - o, W), 'value of the copy')
    ctx.eq(cp.objective(x), loss.objective(x), 'objective of the copy')
    ctx.eq(cp.nonsmooth_objective(x), loss.nonsmooth_objective(x), 'quadratic of the copy')
    ctx.true(np.shape(cp.coefs) == np.shape(loss.coefs), 'coefs shape')
    # changes to the copy do not reach the original
    cp.coef = c + 1
    if own:
        cp.case_weights *= 2.
    cp.offset = None
    cp.coefs[:] = 7.
    ctx.eq(loss.smooth_objective(x, 'func'), f(x - o, W), 'original after the copy changed')
    ctx.eq(loss.coefs, 0., 'coefs of the original after the copy changed')


def repeat(ctx, kind):
    """evaluations do not depend on earlier ones and do not change the instance"""
    c = ctx.real('coef', pos=True)
    loss, f, w = make(ctx, kind, True, coef=c)
    x = ctx.vec('x', 3)
    v = ctx.vec('v', 3, pos=True)
    limits(ctx, kind, x)
    if kind == 'huber':
        pieces(ctx, loss.data, x, 0.5 * x)
    W = list(w)
    a, g = loss.smooth_objective(x, 'both')
    g0 = g.copy()
    loss.smooth_objective(0.5 * x, 'both', case_weights=v)
    if kind == 'cox':
        loss.hessian_mult(x, v, case_weights=v)
    elif 'huber' not in kind:
        loss.hessian(x, case_weights=v)
    ctx.eq(g, g0, 'returned gradient kept')
    a2, g2 = loss.smooth_objective(x, 'both')
    ctx.eq(a2, a, 'value again')
    ctx.eq(g2, g0, 'gradient again')
    ctx.eq(a, f(x, W), 'value')


def setdata(ctx, kind):
    loss, f, w = make(ctx, kind, False)
    x = ctx.vec('x', 3)
    limits(ctx, kind, x)
    if kind == 'cox':
        t, cs = [1., 3., 2.], [1, 0, 1]
        loss.data = np.array([t, cs]).T
        ctx.eq(loss.smooth_objective(x, 'func'), cox_ref(x, [1.] * 3, t, cs), 'value with the new data')
        return
    if kind in ('logistic', 'probit', 'cloglog'):
        new, data = ctx.arr([1, 2, 0]), [(1, 3), (2, 2), (0, 3)]
    elif kind in ('gaussian', 'huber'):
        new = ctx.vec('z', 3)
        data = [(v, .5) for v in new]
    elif kind == 'huber_svm':
        new, data = ctx.arr([0, 1, 1]), [(0, .5), (1, .5), (1, .5)]
    else:
        new, data = ctx.arr([0, 1, 5]), [(0, None), (1, None), (5, None)]
    loss.data = new
    ctx.eq(loss.smooth_objective(x, 'func'), oracle(kind, data, x, [1.] * 3), 'value with the new data')


def glm_sub(ctx, kind, idx, own, how='dense'):
    """glm.subsample: own glm weights times the indicator; loss weights times again"""
    from copy import copy
    import regreg.smooth.glm as G
    X = design(ctx, how, 3, 2)
    Xd = dense(X)
    w = ctx.vec('w', 3, nonneg=kind != 'cox', pos=kind == 'cox') if own else None
    kw = dict(case_weights=None if w is None else w.copy())
    K = G.glm
    if kind == 'gaussian':
        y = ctx.vec('y', 3)
        loss, data = K.gaussian(X, y, **kw), [(v, None) for v in y]
    elif kind == 'poisson':
        loss, data = K.poisson(X, ctx.arr(COUNTS[:3]), **kw), [(v, None) for v in COUNTS[:3]]
    elif kind in ('logistic', 'probit', 'cloglog'):
        loss, data = getattr(K, kind)(X, ctx.arr(SUCC[:3]), trials=ctx.arr(TRIALS[:3]), **kw), list(zip(SUCC, TRIALS))[:3]
    elif kind == 'huber':
        y = ctx.vec('y', 3)
        loss, data = K.huber(X, y, .5, **kw), [(v, .5) for v in y]
    elif kind == 'huber_svm':
        loss, data = K.huber_svm(X, ctx.arr(BIN[:3]), .5, **kw), [(v, .5) for v in BIN]
    else:
        loss = K.cox(X, np.array(TIMES[:3]), np.array(CENS[:3]), **kw)
    b = ctx.vec('b', 2)
    x = [dot(Xd[i], b) for i in range(3)]
    limits(ctx, kind, x)
    if kind == 'huber':
        pieces(ctx, y, x, [0.5 * v for v in x])

    def ref(W):
        return cox_w(x, W) if kind == 'cox' else oracle(kind, data, x, W)
    m = kept(IDX[idx])
    sub = loss.subsample(IDX[idx])
    Wf = [weight(w[i] if own else None, 1.) for i in range(3)]
    Ws = [weight(w[i] if own else None, m[i]) for i in range(3)]
    ctx.eq(sub.smooth_objective(b, 'func'), ref(Ws), 'subsample')
    ctx.eq(loss.smooth_objective(b, 'func'), ref(Wf), 'original')
    f, g = sub.smooth_objective(b, 'both')
    g0 = g.copy()
    ctx.eq(f, ref(Ws), 'subsample again')
    comp = loss.subsample([i for i in range(3) if not m[i]])
    Wc = [weight(w[i] if own else None, 1 - m[i]) for i in range(3)]
    if kind != 'cox':
        ctx.eq(comp.smooth_objective(b, 'func') + f, ref(Wf), 'parts add up to the whole')
    else:
        ctx.eq(comp.smooth_objective(b, 'func'), ref(Wc), 'complement')
    cp = copy(loss)
    ctx.eq(cp.smooth_objective(b, 'func'), ref(Wf), 'copy')
    cp.case_weights[:] = 3.
    loss.smooth_objective(0.5 * b, 'both')
    ctx.eq(g, g0, 'returned gradient kept')
    ctx.eq(loss.smooth_objective(b, 'func'), ref(Wf), 'original after changing the copy')


def glm_data(ctx, kind):
    """giving a model new data"""
    import regreg.smooth.glm as G
    X = ctx.mat('X', 2, 2)
    Z = ctx.mat('Z', 2, 2)
    b = ctx.vec('b', 2)
    if kind == 'gaussian':
        y, z = ctx.vec('y', 2), ctx.vec('z', 2)
        loss = G.glm.gaussian(X, y)
        loss.data = (Z, z)
        ref = total([(dot(Z[i], b) - z[i]) * (dot(Z[i], b) - z[i]) / 2. for i in range(2)])
    else:
        loss = G.glm.logistic(X, ctx.arr([1, 0]))
        loss.data = (Z, ctx.arr([0, 1]))
        ref = total([logv(1 + expv(dot(Z[i], b))) - i * dot(Z[i], b) for i in range(2)])
        for i in range(2):
            ctx.assume_ge(100, dot(Z[i], b))
    ctx.eq(loss.smooth_objective(b, 'func'), ref, 'value with the new data')
    ctx.eq(loss.linear_predictor(b), [dot(Z[i], b) for i in range(2)], 'linear predictor with the new data')


def multi_sub(ctx, baseline, own, idx):
    import regreg.smooth.mglm as M
    n, J = MC.shape
    q = J - 1 if baseline else J
    w = ctx.vec('w', n, nonneg=True) if own else None
    klass = M.multinomial_baseline_loglike if baseline else M.multinomial_loglike
    loss = klass((n, q), MC, case_weights=None if w is None else w.copy())
    x = ctx.mat('x', n, q)
    for i in range(n):
        for j in range(q):
            ctx.assume_ge(50, x[i, j])
            ctx.assume_ge(x[i, j], -50)

    def ref(m):
        r = 0
        for i in range(n):
            z = total([expv(x[i, j]) for j in range(q)]) + (1. if baseline else 0.)
            r = r + m[i] * (w[i] if own else 1.) * (int(MC[i].sum()) * logv(z) - total([int(MC[i, j]) * x[i, j] for j in range(q)]))
        return r
    sub = loss.subsample(idx)
    m = kept(idx, n)
    ctx.eq(sub.smooth_objective(x, 'func'), ref(m), 'subsample')
    ctx.eq(loss.smooth_objective(x, 'func'), ref([1.] * n), 'original')


def mglm_sub(ctx, baseline, own, idx):
    import regreg.smooth.mglm as M
    from copy import copy
    n, J = MC.shape
    q = J - 1 if baseline else J
    X = design(ctx, 'dense', n, 2)
    w = ctx.vec('w', n, nonneg=True) if own else None
    loss = M.mglm.multinomial(X, MC, baseline=baseline, case_weights=None if w is None else w.copy())
    b = ctx.mat('b', 2, q)
    x = [[dot(X[i], b[:, j]) for j in range(q)] for i in range(n)]
    for r in x:
        for v in r:
            ctx.assume_ge(50, v)
            ctx.assume_ge(v, -50)

    def ref(m):
        r = 0
        for i in range(n):
            z = total([expv(x[i][j]) for j in range(q)]) + (1. if baseline else 0.)
            r = r + m[i] * (w[i] if own else 1.) * (int(MC[i].sum()) * logv(z) - total([int(MC[i, j]) * x[i][j] for j in range(q)]))
        return r
    sub = loss.subsample(idx)
    ctx.eq(sub.smooth_objective(b, 'func'), ref(kept(idx, n)), 'subsample')
    ctx.eq(loss.smooth_objective(b, 'func'), ref([1.] * n), 'original')
    ctx.eq(copy(loss).smooth_objective(b, 'func'), ref([1.] * n), 'copy')


def multi_data(ctx, baseline, how):
    """new counts handed to a multinomial loss, or to a multiresponse model with a new design"""
    import regreg.smooth.mglm as M
    from copy import copy
    NC = MC[::-1] + np.arange(MC.size).reshape(MC.shape)
    n, J = MC.shape
    q = J - 1 if baseline else J

    def ref(C, e):
        r = 0
        for i in range(n):
            z = total([expv(e[i][j]) for j in range(q)]) + (1. if baseline else 0.)
            r = r + int(C[i].sum()) * logv(z) - total([int(C[i, j]) * e[i][j] for j in range(q)])
        return r

    def clip(e):
        for r in e:
            for v in r:
                ctx.assume_ge(50, v)
                ctx.assume_ge(v, -50)
        return e
    if how == 'model':
        X, Z = design(ctx, 'dense', n, 2), ctx.arr([[1, -1], [2, 1], [0, 3]][:n])
        loss = M.mglm.multinomial(X, MC.copy(), baseline=baseline)
        old = copy(loss)
        b = ctx.mat('b', 2, q)
        ctx.eq(loss.data[0], X, 'design')
        loss.data = Z, NC.copy()
        ctx.eq(loss.smooth_objective(b, 'func'), ref(NC, clip([[dot(Z[i], b[:, j]) for j in range(q)] for i in range(n)])), 'value with the new data')
        ctx.eq(old.smooth_objective(b, 'func'), ref(MC, clip([[dot(X[i], b[:, j]) for j in range(q)] for i in range(n)])), 'earlier copy')
        return
    klass = M.multinomial_baseline_loglike if baseline else M.multinomial_loglike
    loss = klass((n, q), MC.copy())
    old = copy(loss)
    x = ctx.mat('x', n, q)
    clip(x)
    loss.data = NC.copy() if how == 'counts' else (NC.copy(), NC.sum(1))
    ctx.eq(loss.smooth_objective(x, 'func'), ref(NC, x), 'value with the new data')
    ctx.eq(old.smooth_objective(x, 'func'), ref(MC, x), 'earlier copy')
    got, trials = loss.data
    ctx.eq(got, NC, 'counts')
    ctx.eq(trials, NC.sum(1), 'trials')
    z = loss.smooth_objective(x, 'grad')
    for i in range(n):
        s = total([expv(x[i, j]) for j in range(q)]) + (1. if baseline else 0.)
        for j in range(q):
            ctx.eq(z[i, j] * s, int(NC[i].sum()) * expv(x[i, j]) - int(NC[i, j]) * s, 'gradient with the new data')


def stack(ctx, common, own):
    import regreg.smooth.glm as G
    import regreg.smooth.mglm as M
    y = ctx.vec('y', 2)
    l1, l2 = G.gaussian_loglike((2,), y.copy()), G.logistic_loglike((2,), ctx.arr([1, 2]), trials=ctx.arr([2, 3]))
    n = 2 if common else 4
    w = ctx.vec('w', n, nonneg=True) if own else None
    c = ctx.real('coef', pos=True)
    o = offvec(ctx, 'o', 2, 2) if common else offvec(ctx, 'o', 4)
    klass = M.stacked_common_loglike if common else G.stacked_loglike
    loss = klass([l1, l2], coef=c, offset=o.copy(), case_weights=None if w is None else w.copy())
    eta = ctx.mat('eta', 2, 2) if common else ctx.vec('eta', 4)
    e = eta - o
    a, b = (e[:, 0], e[:, 1]) if common else (e[:2], e[2:])
    limits(ctx, 'logistic', b)

    def ref(m, y=y, s=(1, 2)):
        W = [m[i] * (w[i] if own else 1.) for i in range(n)]
        Wa, Wb = (W, W) if common else (W[:2], W[2:])
        return c * (oracle('gaussian', [(v, None) for v in y], a, Wa) + oracle('logistic', [(s[0], 2), (s[1], 3)], b, Wb))
    return loss, w, eta, n, y, ref


def stacked_sub(ctx, common, own, idx):
    from copy import copy
    loss, w, eta, n, y, ref = stack(ctx, common, own)
    idx = [i for i in idx if i < n]
    sub = loss.subsample(idx)
    ctx.eq(sub.smooth_objective(eta, 'func'), ref(kept(idx, n)), 'subsample')
    ctx.eq(loss.smooth_objective(eta, 'func'), ref([1.] * n), 'original')
    ctx.eq(sub.subsample([0]).smooth_objective(eta, 'func'), ref([float(0 in idx and i == 0) for i in range(n)]), 'subsample twice')
    C = copy(loss)
    ctx.eq(C.smooth_objective(eta, 'func'), ref([1.] * n), 'copy')
    if own:
        C.case_weights[0] = 7.
        C.offset[0] = 5.
        ctx.eq(loss.smooth_objective(eta, 'func'), ref([1.] * n), 'original after the copy changed')


def stacked_data(ctx, common):
    from copy import copy
    loss, w, eta, n, y, ref = stack(ctx, common, True)
    z = ctx.vec('z', 2)
    for d, v in zip(loss.data.T if common else (loss.data[:2], loss.data[2:]), (y, [1, 2])):
        ctx.eq(d, v, 'responses')
    C = copy(loss)
    new = ctx.arr([[0, 2], [0, 1]]) if common else ctx.arr([0, 0, 2, 1])
    if common:
        new[:, 0] = z
    else:
        new[:2] = z
    C.data = new
    ctx.eq(C.smooth_objective(eta, 'func'), ref([1.] * n, z, (2, 1)), 'value with the new data')
    ctx.eq(loss.smooth_objective(eta, 'func'), ref([1.] * n), 'original of the copy')
    ctx.eq(C.data, new, 'new responses')


def bad_weights(ctx, kind):
    """negative weights and weights of the wrong length are refused"""
    import regreg.smooth.glm as G
    w = ctx.vec('w', 3)
    ctx.assume_gt(0, w[1])
    for bad in (w, np.ones(2)):
        try:
            if kind == 'glm':
                G.glm.gaussian(design(ctx, 'dense', 3, 2), ctx.vec('y', 3), case_weights=bad)
            elif kind == 'cox':
                if bad is not w:
                    continue
                G.cox_loglike((3,), np.array(TIMES[:3]), np.array(CENS[:3]), case_weights=bad)
            else:
                if kind == 'poisson' and bad is not w:
                    continue
                build(ctx, kind, 3, cw=bad, eps=.5)
        except ValueError:
            ctx.true(True, 'refused')
        else:
            ctx.true(False, 'accepted')


def obligations(tier):
    deep = tier == 'thorough'
    for kind in KINDS:
        for own in (False, True):
            for idx in (SHORT if deep else ('list', 'bool', 'slice', 'empty') if not own else ('list', 'one', 'repeat', 'all')):
                yield Ob('%s.subsample[%s,%s]' % (kind, idx, own), subsample, dict(kind=kind, own=own, idx=idx))
            for q in (False, True):
                yield Ob('%s.copy[%s,%s]' % (kind, own, q), copies, dict(kind=kind, own=own, q=q))
        if 'huber' not in kind:
            for own in (False, True):
                yield Ob('%s.subsample[12,%s]' % (kind, own), subsample, dict(kind=kind, own=own, idx='long', n=12))
        yield Ob('%s.repeat' % kind, repeat, dict(kind=kind))
        yield Ob('%s.data' % kind, setdata, dict(kind=kind))
        yield Ob('%s.bad weights' % kind, bad_weights, dict(kind=kind))
        for own, idx, how in ((True, 'list', 'dense'), (False, 'bool', 'sparse'), (True, 'one', 'csc'), (False, 'slice', 'dense'), (True, 'repeat', 'dense')) + (
                tuple((True, i, 'dense') for i in SHORT if i not in ('list', 'repeat')) if kind in ('gaussian', 'logistic') else ()):
            yield Ob('glm.%s.subsample[%s,%s,%s]' % (kind, own, idx, how), glm_sub, dict(kind=kind, own=own, idx=idx, how=how))
    yield Ob('glm.bad weights', bad_weights, dict(kind='glm'))
    for k in ('gaussian', 'logistic'):
        yield Ob('glm.data[%s]' % k, glm_data, dict(kind=k))
    for b in (False, True):
        for own in (False, True):
            for idx in ([0], [1]):
                yield Ob('multinomial.subsample[%s,%s,%s]' % (b, own, idx), multi_sub, dict(baseline=b, own=own, idx=idx))
                yield Ob('mglm.subsample[%s,%s,%s]' % (b, own, idx), mglm_sub, dict(baseline=b, own=own, idx=idx))
        for how in ('counts', 'pair', 'model'):
            yield Ob('multinomial.data[%s,%s]' % (b, how), multi_data, dict(baseline=b, how=how))
    for common in (False, True):
        for own in (False, True):
            for idx in ([0], [1, 3], []):
                yield Ob('stacked.subsample[%s,%s,%s]' % (common, own, idx), stacked_sub, dict(common=common, own=own, idx=idx))
        yield Ob('stacked.data[%s]' % common, stacked_data, dict(common=common))
