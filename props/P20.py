"""regularisation paths: screening, subproblems, optimality checks, path drivers"""
from .common import *
from .P18 import Patch

BOUNDS = ('two to four coefficients in at most three groups, two or three observations, numeric designs (entries of the '
          'gradient, the solutions, the answers of the inner solver, the levels and one response symbolic); at most three '
          'inner solves per path and up to three levels')
LIMIT = {}
KINDS = ('lasso', 'group', 'sparse', 'common', 'block')
MULTI = ('common', 'block')


def X_(ctx, m, p):
    base = np.array([[1., .75, .25, 2.], [.5, 1., -1., .75], [-.25, .5, 1.5, -1.]])
    return ctx.arr(base[:m, :p])


class Solver0(object):
    """answers every inner solve by ctx-chosen points and keeps the problems it was given"""

    def __init__(self, ctx, answers, log, limit=99):
        outer = self
        self.ctx, self.answers, self.log, self.limit = ctx, answers, log, limit

        class Solver(object):
            perform_backtrack = True
            debug = False
            step = 1.

            def __init__(self, composite):
                self.composite = composite

            def fit(self, **kw):
                c = self.composite
                if len(log) >= outer.limit:
                    ctx.assume(False)
                shape = c.coefs.shape
                a = outer.answers(len(log), shape)
                f = lambda v: c.smooth_objective(v.copy(), 'func') + c.nonsmooth_objective(v.copy())
                z = probe(ctx, shape)
                log.append(dict(kw=kw, start=c.coefs.copy(), shape=shape, answer=a.copy(), z=z, diff=f(z) - f(ctx.zeros(shape))))
                c.coefs = a.copy()
                return []
        self.cls = Solver


def probe(ctx, shape):
    n = int(np.prod(shape))
    z = ctx.arr(np.array([(-1) ** i * (i + 1) / 2. for i in range(n)]))
    if n:
        z[0] = ctx.real('z')
    return z.reshape(shape)


class Quiet(Patch):
    """Patch for an attribute that may not be readable"""

    def __enter__(self):
        self.own = 'shuffle' in vars(self.obj)
        self.old = vars(self.obj).get(self.name)
        setattr(self.obj, self.name, self.new)

    def __exit__(self, *a):
        if self.own:
            setattr(self.obj, self.name, self.old)
        else:
            delattr(self.obj, self.name)


class Spec(object):
    """the path problem, written from its definition: squared error of the response at X b, plus the ridge term, plus the
    penalty"""

    def __init__(self, ctx, kind, p=3, m=2, alpha=1., unpen=None, log=None, null=None, l1_alpha=.25, enet=True, symY=True, weights=None, common=(.5, 2.), mix=None):
        import regreg.problems.simple as SP
        from regreg.smooth import glm
        from regreg.paths import lasso, group_lasso, sparse_group_lasso, sparse_group_block
        self.ctx, self.kind, self.p, self.m, self.alpha = ctx, kind, p, m, alpha
        self.X = X_(ctx, m, p)
        self.q = 2 if kind in MULTI else 1
        Y = ctx.arr(np.array([[2., -1.], [-3., .5], [1., 4.]])[:m, :self.q])
        if symY:
            Y[0, 0] = ctx.real('y')
        self.Y = Y if kind == 'common' else Y[:, 0].copy()
        if kind == 'block':                  # one design for each response, the responses one after the other
            self.Xs = [self.X, ctx.arr(np.array([[.5, 2., 1., .25], [-1., .75, .5, 1.], [1., .25, -.5, 2.]])[:m, :p])]
            self.Y = np.concatenate([Y[:, 0], Y[:, 1]])
        self.shape = (p, 2) if kind in MULTI else (p,)
        self.l1w = np.zeros(p)
        self.groups = None
        log = [] if log is None else log
        answers = null if null is not None else (lambda i, shape: ctx.vec('null', int(np.prod(shape))).reshape(shape))
        e = np.array([1., .5, 2., 1.5])[:p]
        if kind in MULTI:
            e = np.array([e, e[::-1]]).T.copy()
        if kind == 'lasso':
            w = np.array([1., 2., .5, 1.])[:p]
            if unpen is not None:
                w[unpen] = 0
            self.l1w = w
        else:
            g = dict(group=[2, 1, 2, 7], sparse=[2, 1, 2, 7]).get(kind, range(p))
            self.groups = np.array(list(g)[:p])
            self.gw = {1: 1., 2: 2., 7: .5}
            lw = np.array([1., .5, 2., 1.])[:p]
            if unpen is not None:
                self.gw[unpen] = 0.
                lw[self.groups == unpen] = 0
            if weights is not None:
                self.gw = dict(weights)
            self.gw = dict((k, v) for k, v in self.gw.items() if k in self.groups)
        self.enet = e if enet else None
        self.unpen = unpen
        self.unvars = np.zeros(p, bool)
        if unpen is not None:
            self.unvars = (np.arange(p) == unpen) if kind == 'lasso' else self.groups == unpen
        kw = dict(alpha=alpha, elastic_net_param=ctx.arr(e) if enet else None)
        if not enet:
            self.e = np.ones(self.shape)
        else:
            self.e = e
        mixed = common if mix is None else (common[0] * mix, common[1] * (1 - mix))
        solver = Solver0(ctx, answers, log)
        with Patch(SP, 'FISTA', solver.cls):
            if kind == 'lasso':
                self.path = lasso.lasso_path(glm.gaussian_loglike(self.Y.shape, self.Y), self.X, self.l1w.copy(), **kw)
            elif kind == 'group':
                self.path = group_lasso.group_lasso_path(glm.gaussian_loglike(self.Y.shape, self.Y), self.X, self.groups.copy(), weights=dict(self.gw), **kw)
            elif kind == 'sparse':
                self.path = sparse_group_lasso.sparse_group_lasso_path(glm.gaussian_loglike(self.Y.shape, self.Y), self.X, self.groups.copy(), lw.copy(),
                                                                       weights=dict(self.gw), l1_alpha=l1_alpha, **kw)
                self.l1w = lw * l1_alpha
                self.gw = dict((k, v * (1 - l1_alpha)) for k, v in self.gw.items())
            elif kind == 'block':
                loss = glm.stacked_loglike.gaussian([self.Y[:m], self.Y[m:]])
                self.path = sparse_group_block.sparse_group_block_path(loss, self.Xs, *common, l1_alpha=mix, **kw)
                self.common = mixed
            else:
                from regreg.smooth import mglm
                loss = mglm.stacked_common_loglike.gaussian(self.Y.T)
                self.path = sparse_group_block.sparse_group_common_path(loss, self.X, *common, l1_alpha=mix, **kw)
                self.common = mixed
        self.log = log

    # -- the parts of the problem
    def linpred(self, b):
        if self.kind == 'block':
            return np.array([dot(self.Xs[k][i], b[:, k]) for k in range(2) for i in range(self.m)])
        if self.kind == 'common':
            return np.array([[dot(self.X[i], b[:, k]) for k in range(2)] for i in range(self.m)])
        return np.array([dot(self.X[i], b) for i in range(self.m)])

    def loss(self, b):
        return sq(self.linpred(b) - self.Y) / 2

    def loss_grad(self, b):
        return self.back(self.linpred(b) - self.Y)

    def back(self, r):
        if self.kind == 'block':
            return np.array([[dot(self.Xs[k][:, j], r[k * self.m:(k + 1) * self.m]) for k in range(2)] for j in range(self.p)])
        if self.kind == 'common':
            return np.array([[dot(self.X[:, j], r[:, k]) for k in range(2)] for j in range(self.p)])
        return np.array([dot(self.X[:, j], r) for j in range(self.p)])

    def ridge(self, lam):
        a = self.ctx.num(1) - self.ctx.num(self.alpha)
        out = self.ctx.zeros(self.shape)
        for i in np.ndindex(*self.shape):
            out[i] = a * self.e[i] * (1 if self.unvars[i[0]] else lam)
        return out

    def enet_value(self, b, lam):
        return total(self.ridge(lam) * b * b) / 2

    def enet_grad(self, b, lam):
        return self.ridge(lam) * b

    def grad(self, b, lam):
        return self.loss_grad(b) + self.enet_grad(b, lam)

    def units(self):
        """index sets that are screened together, in the order of the path"""
        if self.kind in ('lasso',) + MULTI:
            return [np.array([i]) for i in range(self.p)]
        return [np.nonzero(self.groups == g)[0] for g in sorted(set(self.groups))]

    def ids(self, k):
        """what the path calls unit k"""
        return k if self.kind in ('lasso',) + MULTI else sorted(set(self.groups))[k]

    def uw(self, k):
        """l1 weights and l2 weight of unit k"""
        idx = self.units()[k]
        if self.kind == 'lasso':
            return self.l1w[idx], 0.
        if self.kind in MULTI:
            return np.ones(2) * self.common[0], self.common[1]
        return self.l1w[idx], self.gw[sorted(set(self.groups))[k]]

    def part(self, b, k):
        return np.reshape(b[self.units()[k]], -1)

    def penalty(self, b):
        r = 0
        for k in range(len(self.units())):
            v = self.part(b, k)
            lw, w = self.uw(k)
            r = r + total([lw[i] * absv(v[i]) for i in range(len(v)) if lw[i]])
            if w:
                r = r + w * l2(v)
        return r

    def objective(self, b, lam):
        return self.loss(b) + self.enet_value(b, lam) + self.ctx.num(self.alpha) * lam * self.penalty(b)

    def embed(self, v, mask):
        b = self.ctx.zeros(self.shape)
        b[mask] = v
        return b

    def is_unpen(self, k):
        lw, w = self.uw(k)
        return w == 0 and not np.any(lw)

    def inside(self, g, k, c, slack=0):
        """the gradient of unit k is within c times the dual ball of its penalty, if c >= 0"""
        lw, w = self.uw(k)
        s = [maxv([absv(g[i]) - c * lw[i], 0 * g[i]]) for i in range(len(g))]
        return sq(s), c * w + slack

    def mask(self, units):
        m = np.zeros(self.p, bool)
        for k in units:
            m[self.units()[k]] = True
        return m


def gradvec(ctx, S, units):
    """a symbolic gradient on some units"""
    g = ctx.arr(np.array([(-1) ** i * (i + 1) / 4. for i in range(int(np.prod(S.shape)))])).reshape(S.shape)
    for k in units:
        for i in S.units()[k]:
            if S.kind in MULTI:
                g[i, 0] = ctx.real('g%d' % i)
            else:
                g[i] = ctx.real('g%d' % i)
    return g


# ---------------------------------------------------------------- subproblems

def subproblem(ctx, kind, units, alpha, unpen=None, enet=True, mix=None):
    """the problem solved on a candidate set is the full problem with the other coefficients zero"""
    import regreg.problems.simple as SP
    S = Spec(ctx, kind, alpha=alpha, unpen=unpen, enet=enet, mix=mix)
    lam = ctx.real('lam', pos=True)
    start = ctx.vec('s', int(np.prod(S.shape))).reshape(S.shape)
    keep = start.copy()
    mask = S.mask(units)
    log = []
    ans = ctx.vec('a', int(np.prod(S.shape))).reshape(S.shape)[mask]
    with Patch(SP, 'FISTA', Solver0(ctx, lambda i, s: ans, log).cls):
        step, g, soln, lp, cand = S.path.solve_subproblem(start, [S.ids(k) for k in units], lam, tol=.5)
    ctx.true(len(log) == 1, 'one run')
    r = log[0]
    ctx.eq(r['start'], keep[mask], 'started at the given solution')
    ctx.eq(start, keep, 'solution not modified')
    ctx.true(r['kw'].get('tol') == .5, 'options handed on')
    z = S.embed(r['z'], mask)
    ctx.eq(r['diff'], S.objective(z, lam) - S.objective(ctx.zeros(S.shape), lam), 'restricted problem')
    ctx.true(np.all(np.asarray(cand, bool) == mask), 'candidate variables')
    ctx.eq(soln, ans, 'solution')
    b = S.embed(ans, mask)
    ctx.eq(lp, S.linpred(b), 'linear predictor')
    ctx.eq(g, S.grad(b, lam)[mask], 'gradient of the smooth part')


def pieces(ctx, kind, alpha, unpen=None, enet=True):
    """full loss, ridge term and gradients"""
    S = Spec(ctx, kind, alpha=alpha, unpen=unpen, enet=enet)
    P = S.path
    lam = ctx.real('lam', pos=True)
    b = ctx.vec('b', int(np.prod(S.shape))).reshape(S.shape)
    keep = b.copy()
    L = P.full_loss()
    ctx.eq(L.smooth_objective(b, 'func') - L.smooth_objective(ctx.zeros(S.shape), 'func'), S.loss(b) - S.loss(ctx.zeros(S.shape)), 'full loss')
    ctx.eq(L.smooth_objective(b, 'grad'), S.loss_grad(b), 'gradient of the full loss')
    ctx.eq(P.full_gradient(P.saturated_loss, S.linpred(b)), S.loss_grad(b), 'gradient from the linear predictor')
    e = P.enet_loss(lam)
    ctx.eq(e.smooth_objective(b, 'func'), S.enet_value(b, lam), 'ridge term')
    ctx.eq(e.smooth_objective(b, 'grad'), S.enet_grad(b, lam), 'gradient of the ridge term')
    ctx.eq(P.enet_grad(b, P._penalized_vars, lam), S.enet_grad(b, lam), 'ridge gradient')
    idx = np.nonzero(S.mask([0, len(S.units()) - 1]))[0]
    ctx.eq(P.enet_grad(b, P._penalized_vars, lam, subset=idx), S.enet_grad(b, lam)[idx], 'ridge gradient on a subset')
    ctx.eq(b, keep, 'point not modified')
    Xs = P.subsample_columns(P.X, idx)
    v = ctx.vec('v', len(idx) * S.q)
    if kind in MULTI:
        v = v.reshape((len(idx), 2))
    bb = S.embed(v, np.isin(np.arange(S.p), idx))
    ctx.eq(Xs.dot(v), S.linpred(bb), 'columns of the design')
    n = len(S.units())
    for sel in ([n - 1], [0], [], list(range(n))):
        flag = np.zeros(P.group_shape, bool)
        flag[sel] = True
        for arg in (sel, flag):
            ctx.true(sorted(P.updated_ever_active(arg)) == sorted(S.ids(k) for k in sel), 'units asked for %s' % sel)


def null(ctx, kind, alpha, unpen):
    """the starting point: only unpenalised coefficients, fitted alone"""
    log = []
    S = Spec(ctx, kind, alpha=alpha, unpen=unpen, log=log, p=4 if kind == 'group' else 3)
    P = S.path
    b = ctx.zeros(S.shape)
    if unpen is not None:
        ctx.true(len(log) == 1, 'null model solved')
        if not log:
            return
        r = log[0]
        ctx.true(r['shape'] == (int(S.unvars.sum()),), 'null model has the unpenalised coefficients')
        z = S.embed(r['z'], S.unvars)
        ctx.eq(r['diff'], S.loss(z) - S.loss(b) + S.enet_value(z, 1), 'null model')
        b = S.embed(r['answer'], S.unvars)
    else:
        ctx.true(len(log) == 0, 'nothing to solve')
    ctx.eq(P.solution, b, 'null solution')
    ctx.eq(P.grad_solution, S.grad(b, 1), 'gradient at the null solution')
    u = P.unpenalized
    want = [k for k in range(len(S.units())) if S.is_unpen(k)]
    ctx.true(list(u[0]) == [S.ids(k) for k in want], 'unpenalised groups')
    if kind not in MULTI:
        ctx.true(list(np.nonzero(np.asarray(u[1], bool))[0]) == want, 'unpenalised group indices')


def sequence(ctx, kind, alpha, nstep, prop):
    """the default levels start at the smallest level at which the null solution is optimal and fall geometrically"""
    from regreg.paths import default_lagrange_sequence
    S = Spec(ctx, kind, alpha=alpha)
    g = gradvec(ctx, S, [0])
    seq = default_lagrange_sequence(S.path.penalty, g, lagrange_proportion=prop, nstep=nstep, alpha=alpha)
    ctx.true(len(seq) == nstep, 'number of levels')
    top = seq[0] * ctx.num(alpha)
    tight = False
    for k in range(len(S.units())):
        a, r = S.inside(S.part(g, k), k, top)
        ctx.le(a, r * r * ctx.num(1 + 2. ** -20) + ctx.num(2. ** -20), 'null solution optimal at the first level %d' % k)
        a, r = S.inside(S.part(g, k), k, top * ctx.num(1 - 2. ** -10))
        if a >= r * r:
            tight = True
    ctx.true(tight, 'null solution not optimal below the first level')
    for i in range(nstep):
        t = ctx.num(prop) if i == nstep - 1 else ctx.num(float(prop ** (i / (nstep - 1.))))
        eps = ctx.num(2. ** -20)
        ctx.le(seq[i] - seq[0] * t, seq[0] * eps, 'geometric level %d' % i)
        ctx.le(seq[0] * t - seq[i], seq[0] * eps, 'geometric level %d' % i)


# ---------------------------------------------------------------- screening

def strong(ctx, kind, units, unpen=None, p=3):
    """the strong set: exactly the units whose gradient exceeds 2 new - current, and the unpenalised ones"""
    S = Spec(ctx, kind, unpen=unpen, p=p)
    g = gradvec(ctx, S, units)
    keep = g.copy()
    cur = ctx.real('cur', pos=True)
    new = ctx.real('new', pos=True)
    ctx.assume_ge(cur - new)
    ids, idx, vars = S.path.strong_set(cur, new, g)
    ctx.eq(g, keep, 'gradient not modified')
    idx = np.asarray(idx, bool)
    ctx.true(list(ids) == [S.ids(k) for k in range(len(S.units())) if idx[k]], 'groups of the strong set')
    ctx.true(list(vars) == list(np.nonzero(S.mask([k for k in range(len(S.units())) if idx[k]]))[0]), 'variables of the strong set')
    c = 2 * new - cur
    for k in range(len(S.units())):
        if S.is_unpen(k):
            ctx.true(idx[k], 'unpenalised unit %d kept' % k)
        elif c < 0:
            ctx.true(idx[k], 'unit %d kept when the rule discards nothing' % k)
        else:
            a, r = S.inside(S.part(g, k), k, c)
            if a > r * r + (1e-4 * c) * (2 * r + 1e-4 * c):
                ctx.true(idx[k], 'unit %d above the threshold is kept' % k)
            elif a < r * r or not idx[k]:
                ctx.true(not idx[k], 'unit %d below the threshold is dropped' % k)


# ---------------------------------------------------------------- optimality checks

def gauge_stub(ctx, hints=()):
    """the dual gauge by its definition (established separately): the v with |soft(point, v * l1)| = v * l2"""
    count = [0]

    def excess(p, lw, w, v):
        s = [maxv([absv(p[i]) - v * lw[i], 0 * p[i]]) for i in range(len(p))]
        return sq(s) - v * v * ctx.num(float(w)) * ctx.num(float(w))

    def gauge(point, lw, w, *a, **k):
        p = np.reshape(point, -1)
        lw = [ctx.num(float(x)) for x in np.ones(len(p)) * lw]
        v = None
        if len(p) == 1:
            v = absv(p[0]) / (lw[0] + w)
        elif all([x == 0 for x in p]):
            return 0, None, None
        elif not any([x != 0 for x in lw]):
            v = l2(p) / w
        else:
            for h in hints:
                if excess(p, lw, w, h) == 0:
                    v = h
                    break
        if v is None:
            count[0] += 1
            v = ctx.real('gauge%d' % count[0], pos=True)
            ctx.assume(excess(p, lw, w, v) == 0)
        soft = ctx.zeros(len(p))
        for i in range(len(p)):
            d = absv(p[i]) - v * lw[i]
            if d > 0:
                soft[i] = d if p[i] > 0 else -d
        return v, np.reshape(p - soft, np.shape(point)), np.reshape(soft, np.shape(point))
    return gauge


class Nothing(object):

    def __enter__(self):
        pass

    def __exit__(self, *a):
        pass


def stubbed(ctx, kind, hints=()):
    from regreg.paths import sparse_group_lasso, sparse_group_block
    M = dict(sparse=sparse_group_lasso, common=sparse_group_block, block=sparse_group_block).get(kind)
    return Nothing() if M is None else Patch(M, '_gauge_function_dual_strong', gauge_stub(ctx, hints))


def soft_grad(S, k, b, lam):
    """minus the gradient of lam times the penalty of an active unit: the gradient an optimum has there"""
    lw, w = S.uw(k)
    v = S.part(b, k)
    n = l2(v) if w else 1
    out = []
    for i in range(len(v)):
        s = 0 * v[i]
        if v[i] > 0:
            s = s + lw[i]
        elif v[i] < 0:
            s = s - lw[i]
        out.append(-lam * (s + (w * v[i] / n if w else 0)))
    return out


def kkt(ctx, kind, active, case, unpen=None, p=3, restrict=None):
    """quiet at an exact optimum; reports a clear violation; ranks the violations of inactive units"""
    S = Spec(ctx, kind, unpen=unpen, p=p)
    lam = ctx.real('lam', pos=True)
    U = S.units()
    b = ctx.zeros(S.shape)
    com = kind in MULTI
    C = [[(i, c) for i in u for c in range(2)] if com else [(i,) for i in u] for u in U]
    for k in active:
        for j, i in enumerate(C[k]):
            b[i] = ctx.real('b%d' % i[0], nonzero=True) if j == 0 else ctx.num(.75)
            if com and case == 'active' and j == 0:
                b[i] = ctx.num((-1.) ** k)
            elif j == 0 and case == 'active' and kind in ('sparse',) + MULTI:
                ctx.assume_ge(b[i] * b[i] - 1)
                ctx.assume_ge(10000 - b[i] * b[i])
    g = ctx.zeros(S.shape)
    un = [k for k in range(len(U)) if S.is_unpen(k)]
    rest = [k for k in range(len(U)) if k not in active and k not in un]
    for k in active:
        if k not in un:
            for i, v in zip(C[k], soft_grad(S, k, b, lam)):
                g[i] = v
    ratio = {}
    for n, k in enumerate(rest):
        lw, w = S.uw(k)
        # first coordinate moves, the others stay within reach of their own l1 weight
        t = ctx.real('t%d' % k, **({'pos': True} if com else {}))
        g[C[k][0]] = t
        for j, i in list(enumerate(C[k]))[1:]:
            g[i] = lam * ctx.num(.25) * (lw[j] if lw.any() else 0)
        c = lw[0] + w
        ratio[k] = absv(t) / (lam * c)
    if case == 'optimum':
        for k in rest:
            ctx.assume_ge(1 - ratio[k])
    elif case == 'active':
        k = active[0]
        d = ctx.real('d', pos=True)
        ctx.assume_ge(d - 1)
        ctx.assume_ge(d - lam * 4)
        i = C[k][0]
        g[i] = g[i] + (d if b[i] > 0 else -d)
        for k in rest:
            ctx.assume_ge(1 - ratio[k])
    elif case == 'unpenalised':
        i = C[un[0]][0]
        d = ctx.real('d')
        ctx.assume_ge(d * d - 1)
        g[i] = d
        for k in rest:
            ctx.assume_ge(1 - ratio[k])
    if case == 'inactive':
        for k in rest:
            if absv(ratio[k] - ctx.num(1.01)) <= 1e-6:
                ctx.assume(False)
    kg, kb = g.copy(), b.copy()
    with stubbed(ctx, kind, [lam] + [ratio[k] * lam for k in rest]):
        if restrict is not None:
            vars = np.nonzero(S.mask(restrict))[0]
            A, I = S.path.check_KKT(g[vars], b[vars], lam, penalty=S.path.restricted_penalty(vars))
            names = list(restrict)
        else:
            A, I = S.path.check_KKT(g, b, lam)
            names = list(range(len(U)))
    ctx.true(len(A) == len(names) and len(I) == len(names), 'one entry per unit')
    ctx.eq(g, kg, 'gradient not modified')
    ctx.eq(b, kb, 'solution not modified')
    A, I = dict(zip(names, A)), dict(zip(names, I))
    for k in names:
        bad = case == 'active' and k == active[0] or case == 'unpenalised' and k == un[0]
        ctx.true(bool(A[k]) == bool(bad), 'active check of unit %d' % k)
        if k in rest:
            fails = case == 'inactive' and ratio[k] > 1.01
            ctx.true(bool(I[k] >= 0) == bool(fails), 'inactive check of unit %d' % k)
        else:
            ctx.true(not I[k] >= 0, 'no inactive check of unit %d' % k)
    if case == 'inactive':
        for k in rest:
            for j in rest:
                if k in names and j in names and I[k] >= 0 and I[j] >= 0 and ratio[k] > ratio[j]:
                    ctx.true(I[k] < I[j], 'larger violations come first')


# ---------------------------------------------------------------- path drivers

def accept(ctx, S, b, lam, label, active=False):
    """the optimality conditions the driver promises for an accepted solution"""
    g = S.grad(b, lam)
    c = ctx.num(S.alpha) * lam
    for k in range(len(S.units())):
        v = S.part(b, k)
        if S.is_unpen(k):
            continue
        if all([x == 0 for x in v]):
            a, r = S.inside(S.part(g, k), k, c * ctx.num(1.0101))
            ctx.le(a, r * r + 1e-5 * c * (2 * r + 1e-5 * c), label + ': zero unit %d is optimal' % k)
        elif active and S.kind == 'lasso':
            i = S.units()[k][0]
            ctx.le(absv(g[i] + (c * S.l1w[i] if v[0] > 0 else -c * S.l1w[i])), .0101 * c * S.l1w[i], label + ': nonzero unit %d is optimal' % k)


def driver(ctx, which, kind, alpha, unpen=None, active=False, steps=1, limit=2, p=2, m=2, integer=False):
    """arbitrary inner answers: what is reported as solved passes the full check at its level, is the last answer put in its
    place, and every inner problem is the stated one"""
    import regreg.problems.simple as SP
    import regreg.paths as RP
    from regreg.paths.basil import basil_inner_loop, basil
    S = Spec(ctx, kind, p=p, m=m, alpha=alpha, unpen=unpen, symY=False, common=(0., 2.), null=lambda i, s: ctx.arr(np.array([1, -1, 2, 1] if integer else [.5, -.25, .75, 1.])[:int(np.prod(s))].reshape(s)))
    P = S.path
    if integer:                              # the same start in an array of integer type
        P.solution = ctx.iarr(np.array([int(float(v)) for v in P.solution.reshape(-1)]).reshape(P.solution.shape))
    # levels at which the screening rule of the first step discards one unit and keeps another
    seq = np.array(dict(common=[1., .875, .625], block=[1., .875, .625], lasso=[1., .875, .75], group=[2., 1.75, 1.25], sparse=[4., 3., 2.])[kind])[:steps + 1]
    if unpen is not None and active or kind in MULTI and which == 'inner':
        seq = (np.array([1.75, 1.25, .75]) if kind in MULTI else np.array([4., 3., 2.]))[:steps + 1]
    log = []
    cands = []

    def answers(i, shape):
        n = int(np.prod(shape))
        a = ctx.arr(np.array([.5 * (-1) ** j for j in range(n)]))
        free = [j for j in range(n)]
        if n:
            a[n - 1] = ctx.real('a%d' % i)
        return a.reshape(shape)
    real = P.solve_subproblem

    def solve(solution, cand, lam, **kw):
        cands.append((list(cand), lam, solution.copy()))
        r = real(solution, cand, lam, **kw)
        cands[-1] += (np.asarray(r[4], bool).copy(),)
        return r
    P.solve_subproblem = solve
    b0, g0 = P.solution.copy(), P.grad_solution.copy()
    init = (P.solution, P.grad_solution)
    with Patch(SP, 'FISTA', Solver0(ctx, answers, log, limit).cls), stubbed(ctx, kind):
        if which == 'strong':
            out = RP.strong_rules(P, seq, init, initial_step=1., check_active=active)
            betas = list(zip(seq, out['beta']))
            ctx.true(len(out['beta']) == len(seq), 'one solution per level')
            ctx.eq(out['beta'][0].T, b0, 'first solution is the initial one')
            ctx.eq(out['lagrange'], seq, 'levels')
            betas = betas[1:]
        elif which == 'inner':
            solved, sols, last, ever = basil_inner_loop(P, seq[1:], init, initial_step=1., check_active=active, step_nvar=1)
            ctx.true(len(solved) == len(sols), 'one solution per solved level')
            ctx.true(all([float(a) == float(b) for a, b in zip(solved, seq[1:])]), 'levels solved in order')
            betas = list(zip(solved, sols))
            if betas:
                ctx.eq(last, S.grad(betas[-1][1].T, betas[-1][0]), 'last gradient')
        else:
            g0 = P.grad_solution.copy()
            sols = basil(P, seq[1:], init, initial_step=1., check_active=active, step_nvar=1, step_lagrange=2)
            ctx.true(len(sols) == steps, 'one solution per level')
            betas = list(zip(seq[1:], sols))
    ctx.eq(P.solution, b0, 'initial solution not modified')
    if which != 'inner':                     # the inner loop updates its gradient in place
        ctx.eq(P.grad_solution, g0, 'initial gradient not modified')
    un = [S.ids(k) for k in range(len(S.units())) if S.is_unpen(k)]
    last = {}
    for (cand, lam, start, mask), r in zip(cands, log):
        ctx.true(all([u in cand for u in un]), 'unpenalised coefficients are always fitted')
        z = S.embed(r['z'], mask)
        ctx.eq(r['diff'], S.objective(z, lam) - S.objective(ctx.zeros(S.shape), lam), 'inner problem')
        ctx.eq(r['start'], start[mask], 'inner start')
        last[float(lam)] = S.embed(r['answer'], mask)
    for lam, b in betas:
        b = b.T
        ctx.true(float(lam) in last, 'level was solved')
        if float(lam) in last:
            ctx.eq(b, last[float(lam)], 'reported solution is the last inner answer')
        accept(ctx, S, b, ctx.num(float(lam)), 'level %s' % lam, active)


def warm(ctx, kind, alpha, unpen=None):
    """warm starts: the full problem at every level, started at the previous solution"""
    import regreg.problems.simple as SP
    import regreg.paths as RP
    S = Spec(ctx, kind, alpha=alpha, unpen=unpen, p=2 if kind in MULTI else 3, null=lambda i, s: ctx.arr(np.array([.5, -.25, .75, 1.])[:int(np.prod(s))].reshape(s)))
    P = S.path
    seq = np.array([3., 2.])
    log = []
    n = int(np.prod(S.shape))
    ans = [ctx.vec('a%d_' % i, n).reshape(S.shape) for i in range(2)]
    b0 = P.solution.copy()
    opts = {'max_its': 7}
    with Patch(SP, 'FISTA', Solver0(ctx, lambda i, s: ans[i], log).cls):
        out = RP.warm_start(P, seq, (P.solution, P.grad_solution), initial_step=1., solve_args=opts)
    ctx.true(opts == {'max_its': 7}, 'options not modified')
    ctx.eq(P.solution, b0, 'initial solution not modified')
    ctx.true(len(log) == 2 and len(out['beta']) == 2, 'one run per level')
    prev = b0
    for i in range(2):
        r = log[i]
        ctx.true(r['kw'].get('max_its') == 7, 'options handed on')
        if i == 0:
            ctx.true(float(r['kw'].get('start_step') or 0.) == 1., 'initial step handed on')
        ctx.eq(r['start'], prev, 'start %d' % i)
        lam = ctx.num(float(seq[i]))
        ctx.eq(r['diff'], S.objective(r['z'], lam) - S.objective(ctx.zeros(S.shape), lam), 'problem %d' % i)
        ctx.eq(out['beta'][i].T, ans[i], 'solution %d' % i)
        prev = ans[i]
    ctx.eq(out['lagrange'], seq, 'levels')
    r = [1 - (S.loss(ans[i])) / maxv([S.loss(ans[0]), S.loss(ans[1])]) for i in range(2)] if kind not in MULTI else None
    if r is not None and maxv([S.loss(ans[0]), S.loss(ans[1])]) > 0:
        ctx.eq(out['devratio'], np.array(r), 'deviance ratio')


def sub(ctx, kind, alpha, how, unpen=None, mix=None):
    """a subsampled path is the path of the kept observations"""
    import regreg.problems.simple as SP
    S = Spec(ctx, kind, alpha=alpha, unpen=unpen, m=3, mix=mix)
    keep = [True, False, True] + [False, True, True] * (kind == 'block')
    case = np.nonzero(keep)[0]
    arg = case if how == 'index' else np.array(keep)
    log = []
    with Patch(SP, 'FISTA', Solver0(ctx, lambda i, s: ctx.vec('null', int(np.prod(s))).reshape(s), log).cls):
        Q = S.path.subsample(arg)
    X, Y = S.X, S.Y
    lam = ctx.real('lam', pos=True)
    mask = S.mask([0, 1])
    ans = ctx.vec('a', int(mask.sum()) * S.q)
    if kind in MULTI:
        ans = ans.reshape((-1, 2))
    log2 = []
    with Patch(SP, 'FISTA', Solver0(ctx, lambda i, s: ans, log2).cls):
        step, g, soln, lp, cand = Q.solve_subproblem(ctx.zeros(S.shape), [S.ids(0), S.ids(1)], lam)
    r = log2[0]
    z = S.embed(r['z'], mask)
    zero = ctx.zeros(S.shape)
    loss = lambda b: sq((S.linpred(b) - Y)[case]) / 2
    diff = loss(z) - loss(zero) + S.enet_value(z, lam) + ctx.num(alpha) * lam * S.penalty(z)
    ctx.eq(r['diff'], diff, 'subsampled problem')
    ctx.true(np.all(np.asarray(cand, bool) == mask), 'candidate variables')
    if unpen is not None and log:
        z = S.embed(log[0]['z'], S.unvars)
        ctx.eq(log[0]['diff'], loss(z) - loss(zero) + S.enet_value(z, 1), 'subsampled null model')
    # the original path is unchanged
    b = ctx.vec('b', int(np.prod(S.shape))).reshape(S.shape)
    L = S.path.full_loss()
    ctx.eq(L.smooth_objective(b, 'func') - L.smooth_objective(zero, 'func'), S.loss(b) - S.loss(zero), 'original path unchanged')


def cv(ctx, kind, cvn, m=3, alt=False):
    """cross-validation: every fold is fitted without its held-out observations, with the loss scaled to the full sample
    size, and scored on the held-out ones only"""
    import regreg.paths.cross_validate as C
    S = Spec(ctx, kind, m=m, p=2)
    betas = []
    for i in range(cvn):
        b = [ctx.arr(np.array([.5, -1. + i])), ctx.arr(np.array([1.5, .25 * i]))]
        if kind in MULTI:
            b = [np.array([v, v[::-1] + 1]) for v in b]
        b[i % 2].reshape(-1)[0] = ctx.real('f%d' % i)
        betas.append(np.array(b))
    calls = []
    seq = np.array([2., 1.])
    b = ctx.arr(np.array([1., -.5])) if kind not in MULTI else ctx.arr(np.array([[1., -.5], [.25, 2.]]))
    init = (S.path.solution, S.path.grad_solution)

    def fitter(path, lagrange_seq, initial, inner_tol=None, **kw):
        L = path.full_loss()
        calls.append((path, lagrange_seq, L.smooth_objective(b, 'grad'), initial, inner_tol))
        return dict(beta=betas[len(calls) - 1])

    def fit_fold(lagrange_seq, test, train, path_fitter, initial, path):
        Q = path.subsample(train)
        Q.saturated_loss.coef *= train.shape[0] / train.sum()
        return path_fitter(Q, lagrange_seq, initial, inner_tol=.25)
    N = S.Y.shape[0]
    perm = np.array([2, 0, 1] if N == 3 else [2, 0, 5, 1, 4, 3])

    def shuffle(a):
        a[:] = a[perm]
    kw = dict(path_fitter=fitter, cv=cvn, n_jobs=1, verbose=False)
    if alt == 'initial':
        init = (ctx.zeros(S.shape), ctx.zeros(S.shape))
        kw.update(initial_data=init)
    with Quiet(C.np.random, 'shuffle', shuffle):
        if alt == 'alt':
            mean, std = C.cross_validate_alt(S.path, fit_fold, (S.path,), seq, **kw)
        else:
            mean, std = C.cross_validate(S.path, seq, inner_tol=.25, **kw)
    groups = np.floor(np.arange(N) / N * cvn).astype(int)[perm]
    names = np.unique(groups)
    ctx.true(len(calls) == len(names), 'one fit per fold')
    scores = []
    for f, g in enumerate(names):
        train, test = groups != g, groups == g
        r = S.linpred(b) - S.Y
        r[test] = 0
        want = S.back(r) * (ctx.num(N) / ctx.num(int(train.sum())))
        ctx.eq(calls[f][2], want, 'training problem of fold %d' % f)
        ctx.eq(calls[f][1], seq, 'levels of fold %d' % f)
        ctx.true(calls[f][4] == .25, 'tolerance of fold %d' % f)
        ctx.eq(calls[f][3][0], init[0], 'start of fold %d' % f)
        ctx.eq(calls[f][3][1], init[1], 'starting gradient of fold %d' % f)
        lp = [S.linpred(betas[f][l].T) for l in range(2)]
        scores.append([sq((lp[l] - S.Y)[test]) / ctx.num(int(test.sum())) for l in range(2)])
    for l in range(2):
        mu = total([s[l] for s in scores]) / len(scores)
        ctx.eq(mean[l], mu, 'mean score %d' % l)
        ctx.eq(std[l] * std[l], total([(s[l] - mu) * (s[l] - mu) for s in scores]) / len(scores), 'spread %d' % l)


def factories(ctx, name):
    """constructors of the paths with several responses"""
    from regreg.smooth import glm, mglm
    from regreg.paths import sparse_group_block as M
    X, Z = X_(ctx, 2, 2), ctx.arr(np.array([[.5, 2.], [-1., .75]]))
    Y = np.array([[1., 0.], [0., 1.]])
    if name in ('multinomial', 'multiresponse_gaussian'):
        if name == 'multinomial':
            P, want = M.multinomial(X, Y, .5, 2.), mglm.multinomial_loglike((2, 2), Y)
        else:
            Y = ctx.arr(np.array([[1., -2.], [.5, 3.]]))
            P, want = M.multiresponse_gaussian(X, Y, .5, 2.), mglm.stacked_common_loglike.gaussian([Y[:, 0], Y[:, 1]])
        eta = ctx.arr(np.array([[.25, -.5], [1., .75]]))
        eta[0, 0] = ctx.real('eta', lo=-2, hi=2)
        g = want.smooth_objective(ctx.zeros((2, 2)), 'grad')
        null = np.array([[dot(X[:, j], g[:, k]) for k in range(2)] for j in range(2)])
    else:
        Ys = [np.array([1., 0.]), np.array([0., 1.])]
        extra = (.5,) if name.startswith('huber') else ()
        if name == 'cox':
            Ts = [np.array([2., 1.]), np.array([1., 3.])]
            P, want = M.stacked_cox([X, Z], Ts, [np.array([1, 1]), np.array([1, 0])], .5, 2.), glm.stacked_loglike.cox([X, Z], Ts, [np.array([1, 1]), np.array([1, 0])])
        else:
            P, want = getattr(M, 'stacked_' + name)([X, Z], Ys, *(extra + (.5, 2.))), getattr(glm.stacked_loglike, name)(*(([X, Z],) if name.startswith('huber') else ()), Ys, *extra)
        eta = ctx.arr(np.array([.25, -.5, 1., .75]))
        eta[0] = ctx.real('eta', lo=-2, hi=2)
        g = want.smooth_objective(ctx.zeros(4), 'grad')
        null = np.array([[dot(D[:, j], h) for D, h in ((X, g[:2]), (Z, g[2:]))] for j in range(2)])
    ctx.eq(P.saturated_loss.smooth_objective(eta, 'func'), want.smooth_objective(eta, 'func'), 'loss')
    ctx.eq(P.saturated_loss.smooth_objective(eta, 'grad'), want.smooth_objective(eta, 'grad'), 'gradient')
    ctx.eq(P.grad_solution, null, 'null gradient')
    ctx.true(float(P.penalty.l1_weight) == .5 and float(P.penalty.l2_weight) == 2., 'penalties')


def ctors(ctx, kind, name):
    """the convenience constructors pose the named loss"""
    from regreg.smooth import glm
    from regreg.paths import lasso, group_lasso, sparse_group_lasso
    M = dict(lasso=lasso, group=group_lasso, sparse=sparse_group_lasso)[kind]
    X = X_(ctx, 2, 2)
    Y = np.array([1., 0.])
    eta = ctx.arr(np.array([.25, -.5]))
    eta[0] = ctx.real('eta', lo=-2, hi=2)
    args = dict(lasso=(np.ones(2),), group=(np.array([1, 2]),), sparse=(np.array([1, 2]), np.ones(2)))[kind]
    extra = (.5,) if name.startswith('huber') else ()
    if name == 'cox':
        T, C = np.array([2., 1.]), np.array([1, 1])
        P = M.cox(X, T, C, *args)
        want = glm.cox_loglike(T.shape, T, C)
    else:
        P = getattr(M, name)(X, Y, *(extra + args))
        ctor = {'huber': 'huber_loss', 'huber_svm': 'huber_svm'}.get(name, name + '_loglike')
        want = getattr(glm, ctor)(Y.shape, Y, *extra)
    ctx.eq(P.saturated_loss.smooth_objective(eta, 'func'), want.smooth_objective(eta, 'func'), 'loss')
    ctx.eq(P.saturated_loss.smooth_objective(eta, 'grad'), want.smooth_objective(eta, 'grad'), 'gradient')
    z = ctx.zeros(2)
    g = want.smooth_objective(z, 'grad')
    ctx.eq(P.grad_solution, np.array([dot(X[:, j], g) for j in range(2)]), 'null gradient')


def obligations(tier):
    deep = tier != 'quick'
    for kind in KINDS:
        un = {'lasso': (None, 1), 'group': (None, 2), 'sparse': (None, 2), 'common': (None,), 'block': (None,)}[kind]
        for u in un:
            for alpha in (1., .75):
                tag = '%s,%s%s' % (kind, alpha, '' if u is None else ',unpenalised')
                yield Ob('subproblem[%s]' % tag, subproblem, dict(kind=kind, units=(0, 1), alpha=alpha, unpen=u))
                if deep or alpha < 1:
                    yield Ob('subproblem one[%s]' % tag, subproblem, dict(kind=kind, units=(1,), alpha=alpha, unpen=u, enet=False))
                yield Ob('pieces[%s]' % tag, pieces, dict(kind=kind, alpha=alpha, unpen=u))
                yield Ob('null[%s]' % tag, null, dict(kind=kind, alpha=alpha, unpen=u))
                if deep or alpha < 1 or u is None:
                    yield Ob('warm[%s]' % tag, warm, dict(kind=kind, alpha=alpha, unpen=u))
                for how in ('index', 'bool'):
                    if deep or (how == 'bool') == (alpha < 1):
                        yield Ob('subsample[%s,%s]' % (tag, how), sub, dict(kind=kind, alpha=alpha, unpen=u, how=how))
            yield Ob('strong[%s,%s]' % (kind, u), strong, dict(kind=kind, units=(0,), unpen=u))
            if deep or kind == 'lasso':
                yield Ob('strong two[%s,%s]' % (kind, u), strong, dict(kind=kind, units=(0, 1), unpen=u))
        if kind in MULTI:
            yield Ob('subproblem mixed[%s]' % kind, subproblem, dict(kind=kind, units=(0, 1), alpha=.75, mix=.25))
            yield Ob('subsample mixed[%s]' % kind, sub, dict(kind=kind, alpha=1., how='index', mix=.25))
        for alpha in (1., .75):
            if kind in ('lasso', 'group'):
                for ns, pr in ((3, .25), (4, .05)) if deep else ((3, .25),):
                    yield Ob('levels[%s,%s,%d]' % (kind, alpha, ns), sequence, dict(kind=kind, alpha=alpha, nstep=ns, prop=pr))
    for kind in KINDS:
        k0 = {'lasso': 1, 'group': 2, 'sparse': 2, 'common': None, 'block': None}[kind]
        for act in ((), (0,), (0, 1)) if kind != 'block' or deep else ((0,),):
            for case in ('optimum', 'inactive', 'active'):
                if case == 'active' and not act:
                    continue
                yield Ob('check[%s,%s,%s]' % (kind, act, case), kkt, dict(kind=kind, active=act, case=case, p={'group': 4, 'common': 2, 'block': 2}.get(kind, 3)))
        if kind in MULTI:
            continue
        for case in ('optimum', 'inactive', 'unpenalised'):
            yield Ob('check[%s,unpenalised,%s]' % (kind, case), kkt, dict(kind=kind, active=(0,) if kind in ('lasso', 'sparse') else (1,), case=case, unpen=k0, p=4 if kind == 'group' else 3))
        for case in ('optimum', 'inactive', 'active'):
            yield Ob('check[%s,restricted,%s]' % (kind, case), kkt, dict(kind=kind, active=(0,), case=case, p=4 if kind in ('group', 'sparse') else 3, restrict=(0, 2)))
    for kind in KINDS:
        for u in (None, 1) if kind not in MULTI else (None,):
            for alpha in (1., .75):
                for act in (False, True):
                    if not deep and act and alpha < 1:
                        continue
                    tag = '%s,%s,%s,%s' % (kind, alpha, act, u)
                    yield Ob('basil inner[%s]' % tag, driver, dict(which='inner', kind=kind, alpha=alpha, unpen=u, active=act, steps=2 if deep or kind not in MULTI else 1, limit=2))
                    if kind in MULTI and act:             # no answer of this solver would be accepted
                        continue
                    if not act and alpha == 1.:
                        for which in ('strong', 'inner', 'basil'):
                            yield Ob('%s from integers[%s]' % (which, tag), driver, dict(which=which, kind=kind, alpha=alpha, unpen=u, steps=1, limit=2, integer=True))
                    yield Ob('strong rules[%s]' % tag, driver, dict(which='strong', kind=kind, alpha=alpha, unpen=u, active=act, steps=1 if not deep else 2, limit=2 if not deep else 4))
                    yield Ob('basil[%s]' % tag, driver, dict(which='basil', kind=kind, alpha=alpha, unpen=u, active=act, steps=1 if not deep else 2, limit=2 if not deep else 3))
    for kind in ('lasso', 'group', 'sparse'):
        for n in (2, 3):
            if deep or n == 3 or kind == 'lasso':
                yield Ob('cross-validation[%s,%d]' % (kind, n), cv, dict(kind=kind, cvn=n))
        for name in ('gaussian', 'logistic', 'poisson', 'probit', 'cloglog', 'huber', 'huber_svm', 'cox'):
            yield Ob('constructor[%s,%s]' % (kind, name), ctors, dict(kind=kind, name=name))
    for kind in MULTI + ('lasso',):
        for alt in ('', 'alt', 'initial'):
            if alt or kind != 'lasso':
                yield Ob('cross-validation[%s,3,%s]' % (kind, alt), cv, dict(kind=kind, cvn=3, alt=alt))
    for name in ('multinomial', 'multiresponse_gaussian', 'gaussian', 'logistic', 'poisson', 'probit', 'cloglog', 'huber', 'huber_svm', 'cox'):
        yield Ob('several responses[%s]' % name, factories, dict(name=name))
