"""estimators for scikit-learn: the fitted problem, predictions and scores"""
from .common import *
from .P13 import TERM, limits, logv, expv, Phi, cox_ref, g_huber, g_hsvm
from .P18 import Patch

BOUNDS = ('two or three observations, two features, numeric feature matrices, binary or binomial responses, event times and '
          'counts numeric; case weights, offsets, continuous responses, scaling, penalty level, one coefficient of each point '
          'or fitted vector symbolic')
LIMIT = {}
XS = np.array([[1., -.5], [.5, 1.], [-1., .25]])
XT = np.array([[.5, 1.], [-.75, .5], [1., 2.]])
EPS = .5
BIN = [1., 0., 1.]
SUCC = [2., 0., 1.]
TRIALS = [3., 2., 2.]
TIMES = [2., 1., 3.]
CENS = [1., 1., 0.]
COUNTS = np.array([[1., 0., 2.], [0., 2., 1.], [2., 1., 1.]])
SLOPE = dict(gaussian=lambda x, y, a: x - y, huber=g_huber, huber_svm=g_hsvm,
             logistic=lambda x, s, n: n * expv(x) / (1 + expv(x)) - s,
             probit=lambda x, s, n: (n - s) * phi(x) / Phi(-x) - s * phi(x) / Phi(x),
             cloglog=lambda x, s, n: (n - s) * expv(x) - s * expv(x) * expv(-expv(x)) / (1 - expv(-expv(x))))
KINDS = ('gaussian', 'huber', 'huber_svm', 'logistic', 'probit', 'cloglog', 'cox', 'multinomial')
BINARY = ('logistic', 'probit', 'cloglog')
HALF = ('huber', 'huber_svm')


def phi(x):
    from scipy.stats import norm
    if hasattr(x, 'n'):
        from symx import core
        return core.sphi(x)
    return norm.pdf(x)


def responses(ctx, kind, n, tag, trials=False):
    """columns of the response, and the value of the loss at a linear predictor for given weights"""
    if kind == 'multinomial':
        C = COUNTS[:n]

        def val(x, w):
            r = 0
            for i in range(n):
                N = sum(C[i])
                r = r + w[i] * (N * logv(total([expv(v) for v in x[i]])) - total([C[i, j] * x[i, j] for j in range(3) if C[i, j]]))
            return r
        return [list(C[:, j]) for j in range(3)], val, None
    if kind == 'cox':
        return [TIMES[:n], CENS[:n]], lambda x, w: cox_ref(x, w, TIMES[:n], CENS[:n]), None
    if kind in ('gaussian', 'huber'):
        y = [ctx.real(tag + '0', lo=1, hi=3)] + [.75, -1.25][:n - 1]
        data = [(v, EPS) for v in y]
        cols = [y]
    elif kind == 'huber_svm':
        cols = [BIN[:n]]
        data = [(b, EPS) for b in BIN[:n]]
    elif trials:
        cols = [SUCC[:n], TRIALS[:n]]
        data = list(zip(SUCC, TRIALS))[:n]
    else:
        cols = [BIN[:n]]
        data = [(b, 1.) for b in BIN[:n]]
    return cols, lambda x, w: total([w[i] * TERM[kind](x[i], *data[i]) for i in range(n)]), data


def table(ctx, cols):
    n = len(cols[0])
    y = ctx.zeros((n, len(cols)))
    for j, c in enumerate(cols):
        for i in range(n):
            y[i, j] = c[i]
    return y


class Data(object):
    """feature matrix, response argument and the loss it stands for"""

    def __init__(self, ctx, kind, X, n, tag, cw=False, off=False, trials=False, pos=True):
        self.X = ctx.arr(X[:n])
        self.n, self.kind, self.ctx = n, kind, ctx
        cols, self.loss, self.data = responses(ctx, kind, n, tag + 'y', trials)
        self.cols = cols
        self.w = [1.] * n
        self.o = None
        extra = []
        if cw:
            self.w = [ctx.real(tag + 'w0', pos=True)] + [2., .5][:n - 1]
            extra.append(self.w)
        if off:
            self.o = [ctx.real(tag + 'o0', nonzero=True)] + [-.5, .25][:n - 1]
            extra.append(self.o)
        if len(cols) == 1 and not extra:
            self.y = table(ctx, cols).reshape(-1)
        else:
            self.y = table(ctx, cols + extra)
        self.X0, self.y0 = self.X.copy(), self.y.copy()

    def eta(self, b, offset=True):
        n = self.n
        x = [[dot(self.X0[i], b[:, j]) for j in range(b.shape[1])] for i in range(n)] if len(b.shape) == 2 else \
            [dot(self.X0[i], b) for i in range(n)]
        x = np.array(x, object) if len(b.shape) == 2 else x
        if self.o is not None and offset:
            x = [x[i] - self.o[i] for i in range(n)]
        return x

    def bound(self, b):
        x = self.eta(b)
        if self.kind == 'multinomial':
            for v in x.reshape(-1):
                self.ctx.assume_ge(50, v)
                self.ctx.assume_ge(v, -50)
        else:
            limits(self.ctx, self.kind, x)

    def value(self, b, weights=None):
        w = self.w if weights is None else [a * c for a, c in zip(self.w, weights)]
        return self.loss(self.eta(b), w)

    def untouched(self):
        self.ctx.eq(self.X, self.X0, 'features unchanged')
        self.ctx.eq(self.y, self.y0, 'responses unchanged')


def shape(kind):
    return (2, 3) if kind == 'multinomial' else (2,)


def point(ctx, kind, name):
    a = ctx.arr(np.array([.75, -.25, .5, -1., 1.5, .25])[:int(np.prod(shape(kind)))]).reshape(shape(kind))
    a.reshape(-1)
    if kind == 'multinomial':
        a[0, 0] = ctx.real(name)
    else:
        a[0] = ctx.real(name)
    return a


def solver(ctx, z, answer, log):
    class Solver(object):
        perform_backtrack = True
        debug = False
        step = 1.

        def __init__(self, composite):
            self.composite = composite

        def fit(self, **kw):
            c = self.composite
            f = lambda v: c.smooth_objective(v.copy(), 'func') + c.nonsmooth_objective(v.copy())
            log.append(dict(kw=kw, start=c.coefs.copy(), diff=f(z) - f(0 * answer)))
            c.coefs = answer.copy()
            return []
    return Solver


def estimator(ctx, kind, form, atom, **kw):
    """form: '' | 'lagrange' | 'classifier' | 'classifier_lagrange'"""
    import regreg.sklearn.api as E
    klass = getattr(E, kind + ('_' + form if form else ''))
    args = (EPS,) if kind in HALF else ()
    return klass(*(args + (atom, dict(flag=3))), **kw)


def norm_of(kind, z):
    """the penalty handed over: absolute values of the entries, or norms of the rows"""
    if len(z.shape) == 2:
        return total([l2(z[i]) for i in range(z.shape[0])])
    return total([absv(v) for v in z])


def maker(ctx, kind, lam, form, seen, enet=True):
    import regreg.atoms.seminorms as SM

    def make(*args, **kw):
        seen.append((args, kw))
        if len(shape(kind)) == 2:
            from regreg.atoms.block_norms import l1_l2
            return l1_l2(shape(kind), lagrange=lam)
        return SM.l1norm(shape(kind), lagrange=lam)
    return make


def patched(ctx, z, answer, log):
    import regreg.problems.simple as P
    return Patch(P, 'FISTA', solver(ctx, z, answer, log))


def fit(ctx, kind, form, cw, off, trials=False, alpha=0., n=2, start=False, cloned=False, opts=False):
    D = Data(ctx, kind, XS, n, 'f', cw, off, trials)
    lam = ctx.real('lam', pos=True)
    c = ctx.real('coef', pos=True)
    seen, log = [], []
    z, answer, init = point(ctx, kind, 'z'), point(ctx, kind, 'a'), point(ctx, kind, 'i')
    D.bound(z)
    zero = 0 * z
    D.bound(zero)
    lag = 'lagrange' in form
    kw = dict(coef=c)
    if 'classifier' not in form:
        kw['offset'] = off
    kw['case_weights'] = cw
    if lag:
        kw['enet_alpha'] = alpha
    if start:
        kw['initial'] = init
    if opts:
        kw['solve_args'] = dict(tol=1e-3, min_its=7)
    make = maker(ctx, kind, lam, form, seen)
    est = estimator(ctx, kind, form, make, **kw)
    if cloned:
        from sklearn.base import clone
        est.set_params(coef=.5)
        est = clone(est)
        c = .5
    with patched(ctx, z, answer, log):
        r = est.fit(D.X, D.y)
    ctx.true(r is est, 'fit returns the estimator')
    ctx.true(len(log) == 1, 'one problem is solved')
    L = log[0]
    pen = lam * norm_of(kind, z)
    if lag:
        sq = total([v * v for v in z.reshape(-1)])
        pen = (1 - alpha) * pen + alpha * lam * sq / 2.
    ctx.eq(L['diff'], c * (D.value(z) - D.value(zero)) + pen, 'problem')
    ctx.eq(L['start'], init if start else zero, 'start')
    ctx.true(L['kw'].get('tol') == (1e-3 if opts else L['kw'].get('tol')) and (not opts or L['kw'].get('min_its') == 7), 'options of the solver')
    ctx.eq(est._coefs, answer, 'stored solution')
    for args, kws in seen:
        ctx.true(kws == dict(flag=3), 'parameters of the atom')
        if not lag:
            ctx.true(args == (), 'no further argument of the atom')
    if lag:
        g = seen[-1][0][0]
        ctx.eq(g, grad0(ctx, D, kind, c), 'gradient at zero')
    D.untouched()


def grad0(ctx, D, kind, c):
    """gradient of the scaled loss at the zero coefficients: derivative per observation in closed form"""
    n = D.n
    if kind == 'multinomial':
        out = ctx.zeros((2, 3))
        for k in range(2):
            for j in range(3):
                out[k, j] = total([c * D.w[i] * D.X0[i, k] * (sum(COUNTS[i]) / ctx.num(3) - COUNTS[i, j]) for i in range(n)])
        return out
    e = [ctx.num(0) if D.o is None else -ctx.num(D.o[i]) for i in range(n)]
    if kind == 'cox':
        d = [0] * n
        for i in range(n):
            if CENS[i]:
                risk = [j for j in range(n) if TIMES[j] >= TIMES[i]]
                tot = total([D.w[j] * expv(e[j]) for j in risk])
                for j in risk:
                    d[j] = d[j] + D.w[i] * D.w[j] * expv(e[j]) / tot
                d[i] = d[i] - D.w[i]
    else:
        d = [D.w[i] * SLOPE[kind](e[i], *D.data[i]) for i in range(n)]
    return np.array([c * dot(D.X0[:, k], d) for k in range(2)])


def fitted(ctx, kind, form, answer, **kw):
    """an estimator that was fitted with the given answer of the solver"""
    tr_ = kw.pop('trials', False)
    D = Data(ctx, kind, XS, 2, 'f', kw.get('case_weights', False), kw.get('offset', False), tr_)
    seen, log = [], []
    est = estimator(ctx, kind, form, maker(ctx, kind, 1., form, seen), **kw)
    with patched(ctx, 0 * answer, answer, log):
        est.fit(D.X, D.y)
    return est


def predict(ctx, kind, form, off=False):
    b = point(ctx, kind, 'b')
    D = Data(ctx, kind, XT, 3, 's')
    kw = {} if 'classifier' in form else dict(offset=off)
    est = fitted(ctx, kind, form, b, **kw)
    x = D.eta(b, offset=False)
    y = est.predict(D.X)
    if 'classifier' not in form:
        ctx.eq(y, x, 'predictions')
    elif kind == 'multinomial':
        for i in range(3):
            k = int(y[i])
            for j in range(3):
                ctx.ge(x[i, k], x[i, j], 'predicted category %d' % i)
    else:
        for i in range(3):
            ctx.assume(x[i] != 0)
            if x[i] > 0:
                ctx.true(int(y[i]) == 1, 'label %d' % i)
            else:
                ctx.true(int(y[i]) == 0, 'label %d' % i)
    if 'classifier' in form:
        if kind == 'multinomial':
            for v in x.reshape(-1):
                ctx.assume_ge(50, v)
                ctx.assume_ge(v, -50)
        else:
            limits(ctx, kind, x)
        pr = est.predict_proba(D.X)
        if kind == 'multinomial':
            want = ctx.zeros((3, 3))
            for i in range(3):
                s = total([expv(v) for v in x[i]])
                for j in range(3):
                    want[i, j] = expv(x[i, j]) / s
        else:
            want = np.array([dict(logistic=lambda v: expv(v) / (1 + expv(v)), probit=Phi,
                                  cloglog=lambda v: 1 - expv(-expv(v)))[kind](v) for v in x])
        ctx.eq(pr, want, 'probabilities')
    D.untouched()


def link(kind, p):
    if kind == 'logistic':
        return logv(p / (1 - p))
    if kind == 'cloglog':
        return logv(-logv(1 - p))
    from scipy.stats import norm
    return norm.ppf(float(p))


def score(ctx, kind, form, method, cw=False, off=False, trials=False, sample=False, n=2):
    b = point(ctx, kind, 'b')
    D = Data(ctx, kind, XT, n, 's', cw, off, trials)
    D.bound(b)
    kw = dict(case_weights=cw, score_method=method)
    if 'classifier' not in form:
        kw['offset'] = off
    est = fitted(ctx, kind, form, b, trials=trials, **kw)
    skw = {}
    v = None
    if sample:
        v = [ctx.real('v0', pos=True), 1.5, .5][:n]
        skw['sample_weight'] = table(ctx, [v]).reshape(-1)
    got = est.score(D.X, D.y, **skw)
    f = 1. if kind in HALF else 2.
    loss = D.value(b, v)
    if method == 'deviance':
        want = -f * loss
    elif method == 'mean_deviance':
        want = -f * loss / ctx.num(n)
    elif method == 'R2':
        w = D.w if v is None else [a * c for a, c in zip(D.w, v)]
        if kind == 'multinomial':
            m = COUNTS[:n].sum(0)
            null = np.array([[logv(ctx.num(k) / n) for k in m]] * n, object)
        elif kind in BINARY:
            p = ctx.num(sum(SUCC[:n])) / sum(TRIALS[:n]) if trials else ctx.num(sum(BIN[:n])) / n
            null = [ctx.num(link(kind, p))] * n
            limits(ctx, kind, null)
        elif kind == 'cox':
            null = [ctx.num(0)] * n
        else:
            null = [total(D.cols[0]) / ctx.num(n)] * n
        base = D.loss(null, w)
        ctx.assume_gt(base, 0)
        want = 1 - loss / base
    else:
        x = D.eta(b)
        hits = 0
        for i in range(n):
            if kind == 'multinomial':
                for j, k in ((0, 1), (0, 2), (1, 2)):
                    ctx.assume(x[i, j] != x[i, k])
                best = 0
                for j in (1, 2):
                    if x[i, j] > x[i, best]:
                        best = j
                hits += int(best == int(np.argmax(COUNTS[i])))
            else:
                ctx.assume(x[i] != 0)
                hits += int((x[i] > 0) == (BIN[i] > 0))
        want = None
        ctx.le(got * n, hits + 1e-9, 'score')
        ctx.ge(got * n, hits - 1e-9, 'score')
    if want is not None:
        ctx.eq(got, want, 'score')
    D.untouched()
    if sample:
        ctx.eq(skw['sample_weight'], table(ctx, [v]).reshape(-1), 'sample weights unchanged')


def obligations(tier):
    deep = tier != 'quick'
    for kind in KINDS:
        offs = (False,) if kind == 'multinomial' else (False, True)
        forms = ('', 'lagrange') + (('classifier', 'classifier_lagrange') if kind in BINARY + ('multinomial',) else ())
        for form in forms:
            for cw in (False, True):
                for off in offs if 'classifier' not in form else (False,):
                    for alpha in (0., .25) if 'lagrange' in form else (0.,):
                        if not deep and alpha and cw != off and kind != 'gaussian':
                            continue
                        tag = ','.join(str(v) for v in (kind, form, cw, off, alpha))
                        simple = kind in HALF
                        yield Ob('fit[%s]' % tag, fit, dict(kind=kind, form=form, cw=cw, off=off, alpha=alpha,
                                                            start=not simple and cw, opts=not simple and 'classifier' not in form and off == cw))
                        if kind in BINARY and (deep or cw):
                            yield Ob('fit trials[%s]' % tag, fit, dict(kind=kind, form=form, cw=cw, off=off, alpha=alpha, trials=True))
            yield Ob('cloned[%s,%s]' % (kind, form), fit, dict(kind=kind, form=form, cw=True, off=offs[-1] and 'classifier' not in form, cloned=True))
            yield Ob('predict[%s,%s]' % (kind, form), predict, dict(kind=kind, form=form, off=offs[-1] and 'classifier' not in form))
            if 'classifier' in form:
                for cw in (False, True):
                    yield Ob('score[%s,%s,accuracy,%s]' % (kind, form, cw), score, dict(kind=kind, form=form, method='accuracy', cw=cw, n=3))
                continue
            methods = ('deviance', 'mean_deviance') + (('R2',) if kind != 'huber_svm' else ()) + (('accuracy',) if kind in BINARY + ('multinomial',) else ())
            for method in methods:
                for cw in (False, True):
                    for off in offs:
                        if method in ('R2', 'accuracy') and cw != off and not deep and kind != 'multinomial':
                            continue
                        tag = ','.join(str(v) for v in (kind, form, method, cw, off))
                        if deep or form == '' or (cw == off == True):
                            yield Ob('score[%s]' % tag, score, dict(kind=kind, form=form, method=method, cw=cw, off=off, n=2 if deep or off else 3))
                        if method != 'accuracy' and form == '' and (deep or method != 'mean_deviance'):
                            yield Ob('score weighted[%s]' % tag, score, dict(kind=kind, form=form, method=method, cw=cw, off=off, sample=True))
                        if kind in BINARY and method != 'accuracy' and form == '':
                            yield Ob('score trials[%s]' % tag, score, dict(kind=kind, form=form, method=method, cw=cw, off=off, trials=True))
            if form == '' and kind != 'multinomial':
                for cw, off in ((True, False), (True, True)):
                    yield Ob('score of one row[%s,%s,%s]' % (kind, cw, off), score, dict(kind=kind, form=form, method='deviance', cw=cw, off=off, n=1))
