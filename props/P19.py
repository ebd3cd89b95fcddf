"""iterative solvers: every step is the stated step"""
from .common import *
from .P12 import mkq, qval, qgrad
from .P13 import offvec
from .P18 import Patch, loss_, atom_, qv, qg

BOUNDS = ('one or two coefficients; up to three iterations (nine with numeric objective values) and two step reductions for an arbitrary objective whose values, '
          'gradients and proximal answers are symbolic; one or two iterations on quadratic losses; one ADMM and '
          'quasi-Newton step')
LIMIT = {}


def same(ctx, a, b):
    """structurally equal (symbolic), numerically equal (replay)"""
    a, b = np.reshape(a, -1), np.reshape(b, -1)
    if ctx.symbolic:
        from symx import core
        for x, y in zip(a, b):
            d = core.S.of(x) - core.S.of(y)
            if not (core.S.of(d).isconst() and core.S.of(d).constval() == 0):
                return False
        return True
    return bool(all(abs(float(x) - float(y)) <= 1e-9 * (1 + abs(float(x))) for x, y in zip(a, b)))


class Oracle(object):
    """an arbitrary composite problem: all values at distinct points are unconstrained"""

    def __init__(self, ctx, n, backtracks=1, positive=False, numeric=False):
        self.ctx, self.n = ctx, n
        self.coefs = ctx.vec('x', n)
        self.points = []
        self.log = []                    # proximal steps: (quadratic, control, answer)
        self.left = backtracks
        self.lipschitz = ctx.real('L', pos=True)
        self.positive, self.numeric = positive, numeric
        self.last = None                 # last point whose gradient was asked for

    def point(self, x):
        for i, p in enumerate(self.points):
            if same(self.ctx, p, x):
                return i
        self.points.append(x.copy())
        return len(self.points) - 1

    def f(self, i):
        if isinstance(self.numeric, tuple):   # a numeric schedule of values
            return self.ctx.num(self.numeric[min(i, len(self.numeric) - 1)])
        if self.numeric:                 # numeric values of the smooth part
            return self.ctx.num(20 - i)
        f = self.ctx.real('f%d' % i, nonneg=self.positive)
        return f + 1 if self.positive else f

    def h(self, i):
        if isinstance(self.numeric, tuple):
            return self.ctx.num(1)
        return self.ctx.real('h%d' % i, nonneg=self.positive)

    def g(self, i):
        return self.ctx.vec('g%d_' % i, self.n)

    def smooth_objective(self, x, mode='both', check_feasibility=False):
        i = self.point(x)
        if mode == 'func':
            return self.f(i)
        self.last = x.copy()
        if mode == 'grad':
            return self.g(i)
        return self.f(i), self.g(i)

    def nonsmooth_objective(self, x, check_feasibility=False):
        return self.h(self.point(x))

    def objective(self, x):
        i = self.point(x)
        return self.f(i) + self.h(i)

    def proximal_step(self, q, prox_control=None):
        p = self.ctx.vec('p%d_' % len(self.log), self.n)
        self.log.append((q, prox_control, p.copy(), self.last))
        return p


def reference(ctx, o, x0, its, tol, min_its, nesterov, restart, mono, coef_stop, back, start, alpha, maxback):
    """the accelerated proximal gradient method with backtracking, written from its description. yields nothing: compares
    the recorded proximal steps on the way and returns (history, final coefs)"""
    x, y, t = x0, x0, 1.
    prev = x0
    F = o.objective(x)
    hist = []
    step = start
    k = 0
    cnt = bad = 0
    while k < its:
        if np.isfinite(restart) and (k + 1) % restart == 0:
            t, y, prev = 1., x, x
        hist.append(F)
        first = True
        while True:
            ctx.true(cnt < len(o.log), 'proximal step %d is taken' % cnt)
            if cnt >= len(o.log):
                return hist, x, cnt
            q, control, p, w = o.log[cnt]
            cnt += 1
            if first:                            # the extrapolation weights are floats
                for a, b, c, e in zip(w, y, x, prev):
                    ctx.le(absv(a - b), 1e-9 * absv(c - e), 'working point of iteration %d' % k)
                y, iy, first = w, o.point(w), False
            s = step if back else 1 / o.lipschitz
            ctx.eq(q.coef * s, 1, 'proximal step %d uses the step size' % cnt)
            # the quadratic itself, wherever its centre is put
            for z in (p, y, x):
                ctx.eq(qquad(q, z), sq(z - y) / (2 * s) + dot(o.g(iy), z - y) + (qquad(q, y)), 'proximal step %d is taken at the working point' % cnt)
            if not back:
                break
            f, ip = o.f(iy), o.point(p)
            fp = o.f(ip)
            d = p - y
            den = fp if fp > 1 else 1
            if absv(fp - f) / den > 1e-10:
                ok = fp <= f + dot(d, o.g(iy)) + sq(d) / (2 * s)
            else:
                ok = absv(dot(d, o.g(iy) - o.g(ip))) <= sq(d) / (2 * s)
            if ok:
                break
            step = step / alpha
        Fp = o.objective(p)
        den = absv(F) if absv(F) > 1 else 1
        change = absv(Fp - F)
        rel = change / den
        if k >= min_its:
            if coef_stop:
                m = l2(p)
                if l2(x - p) / (m if m > 1 else 1) < tol:
                    break
            elif rel < tol or change < tol:
                break
        tn = (1 + np.sqrt(1 + 4 * t * t)) / 2 if nesterov else 1.
        if mono and k > 1 and F < Fp and rel > 1e-10:
            bad += t == 1.                       # not even a plain step decreased the objective: gives up after four of these
            if bad > 3:
                break
            t, y, prev = 1., x, x                # rejected: start again from the best point so far
        else:
            y = p + ((t - 1) / tn) * (p - x)
            prev, x, F, t = x, p, Fp, tn
        k += 1
    return hist, x, cnt


def qquad(q, z):
    return q.objective(z, 'func')


def general(ctx, n, its, positive=False, numeric=False, nesterov=True, restart=np.inf, mono=True, coef_stop=False, back=True, min_its=1, backtracks=1, control=None):
    """an arbitrary problem"""
    from regreg.algorithms import FISTA
    o = Oracle(ctx, n, backtracks, positive, numeric)
    x0 = o.coefs.copy()
    s = FISTA(o)
    s.perform_backtrack = back
    tol = ctx.num(1) / 1024
    start = ctx.real('s', pos=True) if back else 1.
    kw = dict(prox_control=control) if control else {}
    limit = its + backtracks
    real = o.proximal_step

    def prox(q, **k):
        if len(o.log) >= limit:
            ctx.assume(False)
        return real(q, **k)
    o.proximal_step = prox
    hist = s.fit(tol=tol, min_its=min_its, max_its=its, FISTA=nesterov, start_step=start, restart=restart, coef_stop=coef_stop,
                 monotonicity_restart=mono, **kw)
    for q, c, p, w in o.log:
        ctx.true((c or None) == (control or None), 'the proximal control is handed on')
    rh, rx, cnt = reference(ctx, o, x0, its, tol, min_its, nesterov, restart, mono, coef_stop, back, start, s.alpha, backtracks)
    ctx.true(cnt == len(o.log), 'no further proximal steps')
    ctx.true(len(hist) in (len(rh), len(rh) - 1), 'length of the history')
    for i in range(len(hist)):
        ctx.eq(hist[i], rh[i], 'objective history %d' % i)
    ctx.eq(o.coefs, rx, 'final coefficients')


# ---------------------------------------------------------------- on real problems

def problem1(ctx, name, n, a, offset=False):
    """sum_i a_i/2 (x_i-m_i)^2 + a penalty, through the public classes"""
    import regreg.problems.simple as SP
    from regreg.smooth.quadratic import quadratic_loss
    lam = ctx.real('lam', pos=True)
    at, aval, o, _ = atom_(ctx, name, n, lam, offset)
    m = ctx.vec('m', n)
    l = quadratic_loss.shift(m, coef=a)
    return SP.simple_problem(l, at), (lambda x: a * sq(x - m) / 2 + aval(x)), m, lam, o


def descent(ctx, name, a, its, back):
    """the objective never increases from one recorded value to the next, and the returned point is as good as the start"""
    from regreg.algorithms import FISTA
    prob, obj, m, lam, o = problem1(ctx, name, 1, a)
    x = ctx.vec('x', 1)
    prob.coefs[:] = x
    f0 = obj(x)
    if back:
        got = prob.solve(max_its=its, min_its=its, tol=1e-9)
        hist = prob.solver_results
    else:
        s = FISTA(prob)
        s.perform_backtrack = False
        prob.lipschitz = a * 1.25
        hist = s.fit(max_its=its, min_its=its, tol=1e-9)
        got = prob.coefs
    f1 = obj(got)
    hist = list(hist) + [f1]
    ctx.eq(hist[0], f0, 'first recorded objective')
    for i in range(len(hist) - 1):
        slack = 1e-9 * (absv(hist[i]) + 1) if i > 1 else 1e-12
        ctx.le(hist[i + 1], hist[i] + slack, 'objective does not increase %d' % i)


def stays(ctx, name, a, back, coef_stop):
    """an optimum stays put"""
    from regreg.algorithms import FISTA
    prob, obj, m, lam, o = problem1(ctx, name, 1, a, True)
    x = ctx.zeros(1)                    # by hand
    c = a * (m[0] - o[0])
    if c > lam:
        x[0] = m[0] - lam / a
    elif name == 'l1norm' and c < -lam:
        x[0] = m[0] + lam / a
    elif name == 'positive_part' and c < 0:
        x[0] = m[0]
    else:
        x[0] = o[0]
    prob.coefs[:] = x
    if back:
        got = prob.solve(max_its=4, min_its=2, tol=1e-9, coef_stop=coef_stop)
        its = len(prob.solver_results)
    else:
        s = FISTA(prob)
        s.perform_backtrack = False
        prob.lipschitz = a * 1.25
        its = len(s.fit(max_its=4, min_its=2, tol=1e-9, coef_stop=coef_stop))
        got = prob.coefs
    ctx.eq(got, x, 'optimum is a fixed point')
    ctx.true(its < 4, 'stops at the optimum')


def smooth_step(ctx, n, lq):
    """problems without penalty: proximal map and solve"""
    l, lval, lgrad, pl = loss_(ctx, n, lq)
    q, pz = mkq(ctx, 'z', ('vec', 'vec'), n)
    u = l.proximal(q)
    ctx.eq(qgrad(pz, u) + qg(pl, u), np.zeros(n), 'proximal map of a loss')
    z, w = ctx.vec('z', n), ctx.vec('w', n)
    e, pe = mkq(ctx, 'e', ('vec', 'vec'), n, 'nonneg')
    for opt in (False, True):
        log = []
        import regreg.problems.composite as C
        ans = ctx.vec('u%d' % opt, n)
        x = ctx.vec('x%d' % opt, n)
        l.coefs[:] = x
        with Patch(C, 'FISTA', recorder(ctx, ans, (z, w), log)):
            r = l.solve(e, return_optimum=opt)
        ctx.true(len(log) == 1, 'one run')
        full = lambda v: lval(v) + qv(pl, v) + qval(pe, v)
        ctx.eq(log[0]['diff'], full(z) - full(w), 'problem handed to the solver')
        ctx.eq(log[0]['start'], x, 'started at the current coefficients')
        if opt:
            ctx.eq(r[0], full(ans), 'optimal value')
            r = r[1]
        ctx.eq(r, ans, 'answer')
        ctx.eq(l.quadratic.objective(z, 'func'), qv(pl, z), 'own quadratic restored')


def recorder(ctx, answer, probes, log):
    """an iterative solver that records objective differences and answers with an arbitrary point"""
    z, w = probes

    class Solver(object):
        perform_backtrack = True
        debug = False
        step = 1.

        def __init__(self, composite):
            self.composite = composite

        def fit(self, **kw):
            c = self.composite
            f = lambda v: c.smooth_objective(v.copy(), 'func') + c.nonsmooth_objective(v.copy())
            log.append(dict(kw=kw, start=c.coefs.copy(), diff=f(z) - f(w)))
            a = answer[len(log) - 1] if isinstance(answer, list) else answer
            c.coefs = a.copy()
            return []
    return Solver


# ---------------------------------------------------------------- ADMM

def nq(ctx, tag, n):
    """a quadratic with a symbolic coefficient"""
    from regreg.identity_quadratic import identity_quadratic as Q
    c = ctx.real('c' + tag, pos=True)
    k = ord(tag)
    m = ctx.arr(np.array([(-1) ** i * (k + 1 + i) / 64. for i in range(n)]))
    l = ctx.arr(np.array([(-1) ** i * (3 * k + 1 + i) / 256. for i in range(n)]))
    return Q(c, m.copy(), l.copy(), ctx.num(k)), (c, m, l, ctx.num(k))


def admm(ctx, name, kind, lq, extra, aq):
    """one round of ADMM: augmented Lagrangian, proximal step, dual step"""
    import regreg.problems.composite as C
    import regreg.affine as A
    from regreg.problems.admm import admm_problem
    n, p = (1, 2) if kind in ('wide', 'wide+') else (2, 2)
    l, lval, lgrad, pl = loss_(ctx, p, False, m=1)
    if lq:
        l.quadratic, pl = nq(ctx, 'l', p)
    lam = ctx.real('lam', pos=True)
    a, aval, o, pa = atom_(ctx, name, n, lam, True, False)
    if aq:
        a.quadratic, pa = nq(ctx, 'a', n)
        bare = aval
        aval = lambda x: bare(x) + qval(pa, x)
    al = offvec(ctx, 'al', n) if kind.endswith('+') else None
    if kind.startswith('id'):
        D, T = np.identity(2), np.identity(2)
        T = A.astransform(D)
    elif kind.startswith('plain'):
        D = ctx.mat('D', n, p)
        T = D
    else:
        D = ctx.mat('D', n, p)
        T = A.affine_transform(D, al)
    alv = al.copy() if al is not None else np.zeros(n)
    rho = ctx.real('rho', pos=True)
    quad = pe = None
    if extra:
        quad, pe = nq(ctx, 'e', p)
    prob = admm_problem(l, a, T, rho, quadratic=quad)
    x0, z0, y0 = ctx.vec('x', p), ctx.vec('z', n), ctx.vec('y', n)
    prob.loss_coefs[:], prob.atom_coefs[:], prob.dual_coefs[:] = x0, z0, y0
    v, w = ctx.vec('v', p), ctx.vec('w', p)
    ans = ctx.vec('u', p)
    log = []
    with Patch(C, 'FISTA', recorder(ctx, ans, (v, w), log)):
        prob.solve(niter=1)
    ctx.true(len(log) == 1, 'one inner problem')
    fwd = lambda x: np.array([dot(D[i], x) + alv[i] for i in range(n)])
    AL = lambda x: lval(x) + qv(pl, x) + qv(pe, x) + dot(y0, fwd(x)) + rho * sq(fwd(x) - z0) / 2
    ctx.eq(log[0]['diff'], AL(v) - AL(w), 'augmented Lagrangian in the loss coefficients')
    ctx.eq(prob.loss_coefs, ans, 'loss coefficients')
    z = prob.atom_coefs
    g = y0 - rho * (z - fwd(ans)) - qg(pa, z)
    check_subgrad(ctx, name, g, z - o, lam, 'atom coefficients')
    ctx.eq(prob.dual_coefs, y0 + rho * (fwd(ans) - z), 'dual coefficients')


def admm_shapes(ctx):
    """transforms between spaces of different size are accepted, others refused"""
    from regreg.problems.admm import admm_problem
    l, lval, lgrad, pl = loss_(ctx, 2, False, m=1)
    from regreg.atoms.seminorms import l1norm
    a = l1norm(3, lagrange=1.)
    admm_problem(l, a, ctx.arr(np.arange(6.).reshape(3, 2)), 1.)
    refused = False
    try:
        admm_problem(l, l1norm(2, lagrange=1.), ctx.arr(np.arange(6.).reshape(2, 3)), 1.)
    except AssertionError:
        refused = True
    ctx.true(refused, 'a transform of another input size is refused')


# ---------------------------------------------------------------- quasi-Newton

def mquad(H, v):
    return total([H[i, j] * v[i] * v[j] for i in range(len(v)) for j in range(len(v))])


def quasi(ctx, name, n, lq, extra, two):
    """quasi-Newton: local model, line search along its minimiser, secant update"""
    import regreg.problems.simple as SP
    import regreg.problems.newton as N
    l, lval, lgrad, pl = loss_(ctx, n, False, m=n)
    if lq:
        l.quadratic, pl = nq(ctx, 'l', n)
    lam = ctx.real('lam', pos=True)
    a, aval, o, pa = atom_(ctx, name, n, lam)
    H0 = ctx.mat('H', n, n)
    for i in range(n):
        for j in range(i):
            H0[i, j] = H0[j, i]
    quad = pe = None
    if extra:
        quad, pe = nq(ctx, 'e', n)
    Hin = H0.copy()
    prob = N.quasi_newton(l, a, H0, quadratic=quad)
    mean = total([Hin[i, i] for i in range(n)]) / ctx.num(n)
    H = Hin.copy()
    for i in range(n):
        H[i, i] = H[i, i] + mean
    ctx.eq(prob.hessian, H, 'damped initial Hessian')
    x = ctx.vec('x', n)
    prob.coefs[:] = x
    v, w = ctx.vec('v', n, pos=True), ctx.vec('w', n, pos=True)
    ctx.eq(prob.objective(v), lval(v) + aval(v) + qv(pl, v) + qv(pe, v), 'objective')
    answers = [ctx.vec('u', n, pos=True), ctx.vec('t', n)]
    steps = [ctx.real('s', pos=True), ctx.real('r', pos=True)]
    tried = []

    def search(f, start, **kw):
        k = len(tried)
        r = ctx.num(3 + k) / 4
        tried.append((r, f(r)))
        return steps[k]
    log = []
    d = answers[0] - x
    xn = x + steps[0] * d
    gd = lgrad(xn) - lgrad(x)
    if not two:
        ctx.assume_gt(absv(xn[0] - x[0]))
    for i in range(n):
        ctx.assume_gt(absv(xn[i] - x[i]) - l2(xn) * 1e-6)
    ctx.assume_gt(dot(gd, xn - x))
    ctx.assume_gt(absv(mquad(H, xn - x)))
    model = lambda z, c, B: dot(lgrad(c), z) + mquad(B, z - c) / 2 + aval(z) + qv(pl, z) + qv(pe, z)
    hess = []
    with Patch(SP, 'FISTA', recorder(ctx, answers, (v, w), log)), Patch(N, 'fmin_powell', search):
        r = prob.solve(niter=1)
        ctx.eq(r, answers[0], 'answer')
        B = prob.hessian.copy()
        s = xn - x
        ctx.eq([dot(B[i], s) for i in range(n)], gd, 'secant equation')
        for i in range(n):
            for j in range(i):
                ctx.eq(B[i, j], B[j, i], 'updated Hessian is symmetric')
        if two:
            prob.coefs = ctx.vec('c', n)
            c = prob.coefs.copy()
            prob.solve_inner_loop()
            ctx.eq(log[1]['diff'], model(v, c, B) - model(w, c, B), 'the updated Hessian is used')
    ctx.eq(log[0]['diff'], model(v, x, H) - model(w, x, H), 'local model')
    ctx.eq(log[0]['start'], x, 'started at the current coefficients')
    q, f = tried[0]
    z = x + q * d
    ctx.eq(f, lval(z) + aval(z) + qv(pl, z) + qv(pe, z), 'line search objective')
    ctx.eq(prob.solver_results[-1], (lambda z: lval(z) + aval(z) + qv(pl, z) + qv(pe, z))(xn), 'recorded objective')


def quasi_zero(ctx, n):
    """starting at a solution that is zero"""
    import regreg.problems.newton as N
    l, lval, lgrad, pl = loss_(ctx, n, False, m=n)
    lam = ctx.real('lam', pos=True)
    for g in lgrad(np.zeros(n)):
        ctx.assume_ge(lam - absv(g))
    a, aval, o, pa = atom_(ctx, 'l1norm', n, lam)
    prob = N.quasi_newton(l, a, np.identity(n))
    log = []
    import regreg.problems.simple as SP
    with Patch(SP, 'FISTA', recorder(ctx, np.zeros(n), (np.ones(n), np.zeros(n)), log)), \
            Patch(N, 'fmin_powell', lambda f, *args, **kw: 1.):
        r = prob.solve(niter=3)
    ctx.eq(r, np.zeros(n), 'zero is returned')
    ctx.eq(prob.hessian, 2. * np.identity(n), 'Hessian stays finite')


def obligations(tier):
    deep = tier != 'quick'
    kinds = (('', {}), ('ista', dict(nesterov=False)), ('restart', dict(restart=2)), ('plain', dict(mono=False)),
             ('coefs', dict(coef_stop=True)), ('control', dict(control={'tol': .5})))
    for nm, kw in kinds:
        yield Ob('fista[%s,fixed]' % nm, general, dict(n=1, its=2, back=False, positive=not deep, **kw))
        if deep or nm in ('', 'control'):
            yield Ob('fista[%s,backtracking once]' % nm, general, dict(n=1, its=1, back=True, backtracks=1, positive=not deep, **kw))
        if deep:
            yield Ob('fista[%s,backtracking twice]' % nm, general, dict(n=1, its=1, back=True, backtracks=2, positive=True, **kw))
        if deep or nm not in ('coefs', 'control'):
            yield Ob('fista[%s,backtracking]' % nm, general, dict(n=1, its=2, back=True, min_its=2, numeric=not deep, positive=True, backtracks=1, **kw))
        if deep:
            yield Ob('fista[%s,backtracking,stopping]' % nm, general, dict(n=1, its=2, back=True, min_its=1, positive=True, backtracks=1, **kw))
        if nm != 'control' and (deep or nm != 'coefs'):
            yield Ob('fista[%s,fixed,three]' % nm, general, dict(n=1, its=3, back=False, min_its=2, positive=True, **kw))
            if deep:
                yield Ob('fista[%s,backtracking,three]' % nm, general, dict(n=1, its=3, back=True, min_its=3, backtracks=0, positive=True, **kw))
    # longer runs, with numeric objective values (points, gradients and answers stay symbolic): the values are listed in the
    # order in which the points turn up, so that increases fall on accepted, extrapolated and restarted steps
    for i, v in enumerate(((9, 8, 7, 7, 9, 6, 5, 4, 3, 2), (9, 8, 7, 6, 8, 9, 8, 9, 9, 9, 9), (5, 6, 7, 8, 9, 10, 11, 12, 13), (9, 8, 7, 6, 5, 4, 8, 3, 2, 9, 9))):
        for nm, kw in (('', {}), ('restart', dict(restart=3)), ('ista', dict(nesterov=False)), ('plain', dict(mono=False))):
            if deep or nm == '' or i == 1:
                for its in (4, 6) if not deep else (4, 5, 6, 7, 8, 9):
                    yield Ob('fista[%s,fixed,values %d,%d]' % (nm, i, its), general, dict(n=1, its=its, back=False, min_its=its, numeric=v, **kw))
    yield Ob('fista[two coefficients]', general, dict(n=2, its=2, back=False, positive=True))
    for name in ('l1norm', 'positive_part'):
        for a in (.5, 1.) if not deep else (.3, .5, 1., 1.05):
            for its, back in ((2, False),) if not deep else ((2, False), (3, False), (2, True)):
                if deep or a == .5:
                    yield Ob('descent[%s,%s,%d,%s]' % (name, a, its, back), descent, dict(name=name, a=a, its=its, back=back))
        for back in (False, True):
            for cs in (False, True):
                yield Ob('optimum[%s,%s,%s]' % (name, back, cs), stays, dict(name=name, a=.5, back=back, coef_stop=cs))
    for lq in (False, True):
        yield Ob('no penalty[%s]' % lq, smooth_step, dict(n=2, lq=lq))
    for kind in ('id', 'plain', 'square+', 'wide', 'wide+'):
        for name in ('l1norm', 'positive_part'):
            if not deep and name == 'l1norm' and not kind.startswith('wide'):
                continue
            for lq, extra, aq in ((False, False, False), (True, True, True)):
                if not deep and not lq and kind != 'id':
                    continue
                yield Ob('admm[%s,%s,%s]' % (name, kind, lq), admm, dict(name=name, kind=kind, lq=lq, extra=extra, aq=aq))
    yield Ob('admm shapes', admm_shapes, {})
    for name in ('l1norm', 'positive_part'):
        for lq, extra in ((True, False), (False, True), (True, True)):
            for two in (False, True):
                if not deep and (lq and extra or name == 'positive_part' and lq == two):
                    continue
                yield Ob('quasi-Newton[%s,%s,%s,%s]' % (name, lq, extra, two), quasi, dict(name=name, n=1 if not deep else 2, lq=lq, extra=extra, two=two))
    yield Ob('quasi-Newton at zero', quasi_zero, dict(n=1 if not deep else 2))
