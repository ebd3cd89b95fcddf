"""weighted l1 and sup norms, the sorted l1 norm, the simplex and the maximum, isotonic regression"""
from .common import *
from .P12 import mkq, qval, qgrad
from .P13 import offvec
from .P18 import Patch

BOUNDS = ('one to three coordinates, long vectors with one free coordinate (two to four for isotonic regression and the kernels), numeric weights including zero '
          'and infinite ones; points, levels, bounds, curvatures, offsets and attached quadratics symbolic')
LIMIT = {}
INF = float('inf')


def signed(ctx, name, n, free=1):
    """a vector with the signs of all but the first coordinates fixed"""
    v = ctx.vec(name, n)
    for i in range(free, n if not hasattr(ctx, 'wide') else 0):
        ctx.assume_ge(v[i] if i % 2 else -v[i])
    return v


# ---------------------------------------------------------------- norms by definition

def inv(w):
    return [INF if x == 0 else (0. if x == INF else 1. / x) for x in w]


def zero(xs):
    return [e for x in xs for e in (x, -x)]


def wl1(w):
    w = list(w)
    return Norm('weighted l1', lambda x: total([w[i] * absv(x[i]) for i in range(len(w)) if w[i] != INF]),
                lambda x: zero([x[i] for i in range(len(w)) if w[i] == INF]), None,
                lambda x, c: [total([w[i] * absv(x[i]) for i in range(len(w)) if w[i] != INF]) - c] + zero([x[i] for i in range(len(w)) if w[i] == INF]))


def wsup(w):
    w = list(w)
    fin = [i for i in range(len(w)) if w[i] != INF]
    return Norm('weighted sup', lambda x: maxv([w[i] * absv(x[i]) for i in fin]),
                lambda x: zero([x[i] for i in range(len(w)) if w[i] == INF]), None,
                lambda x, c: [w[i] * absv(x[i]) - c for i in fin] + zero([x[i] for i in range(len(w)) if w[i] == INF]))


def desc(x):
    out = []
    for v in x:
        v = absv(v)
        k = 0
        while k < len(out) and out[k] >= v:
            k += 1
        out.insert(k, v)
    return out


def cum(x):
    out, t = [], 0
    for v in x:
        t = t + v
        out.append(t)
    return out


def slope(w):
    return Norm('slope', lambda x: dot(desc(x), w), lambda x: [], None, lambda x, c: [dot(desc(x), w) - c])


def slopec(w):
    W = cum(w)
    return Norm('slope conjugate', lambda x: maxv([s / t for s, t in zip(cum(desc(x)), W)]), lambda x: [], None,
                lambda x, c: [s - c * t for s, t in zip(cum(desc(x)), W)])


def norm_pair(name, w):
    if name == 'l1norm':
        a, b = wl1(w), wsup(inv(w))
    elif name == 'supnorm':
        a, b = wsup(w), wl1(inv(w))
    elif name == 'slope':
        a, b = slope(w), slopec(w)
    else:
        a, b = slopec(w), slope(w)
    a.dual, b.dual = b, a
    return a, b


def make(name, w, **kw):
    if name in ('l1norm', 'supnorm'):
        import regreg.atoms.weighted_atoms as M
    else:
        import regreg.atoms.slope as M
    return getattr(M, name)(np.array(w), **kw)


def isotonic(y):
    """isotonic regression by its max-min formula"""
    n = len(y)
    S = [0] + cum(y)
    out = []
    for i in range(n):
        best = None
        for j in range(i + 1):
            m = None
            for k in range(i, n):
                v = (S[k + 1] - S[j]) / (k + 1 - j)
                m = v if m is None or v < m else m
            best = m if best is None or m > best else best
        out.append(best)
    return out


class Iso(object):
    """isotonic regression of the external library, by its definition; or the pure Python one"""

    def __init__(self, ctx, which):
        import regreg.atoms.slope as M
        self.M, self.ctx, self.which = M, ctx, which

    def __enter__(self):
        self.p = []
        if self.which == 'python':
            self.p.append(Patch(self.M.slope, 'use_sklearn', False))
        elif self.which == 'library' and self.ctx.symbolic:
            def iso(y):
                out = self.ctx.zeros(len(y))
                for i, v in enumerate(isotonic(y)):
                    out[i] = v
                return out
            self.p.append(Patch(self.M, 'isotonic_regression_sk', iso))
            self.p.append(Patch(self.M.slope, 'use_sklearn', True))
        for p in self.p:
            p.__enter__()

    def __exit__(self, *a):
        for p in self.p[::-1]:
            p.__exit__(*a)


# ---------------------------------------------------------------- obligations

def value(ctx, name, w):
    N, D = norm_pair(name, w)
    n = len(w)
    x = ctx.vec('x', n)
    x0 = x.copy()
    lam = ctx.real('lam', nonneg=True)
    a = make(name, w, lagrange=lam)
    inf = any([e != 0 for e in N.dom(x)])
    ctx.eq(a.seminorm(x), lam * N.val(x), 'norm')
    ctx.eq(a.seminorm(x, lagrange=2.), 2. * N.val(x), 'norm with the level of the call')
    v = a.seminorm(x, check_feasibility=True)
    if inf:
        ctx.true(v == INF, 'infinite outside the domain')
    else:
        ctx.eq(v, lam * N.val(x), 'norm, feasibility checked')
    v = a.nonsmooth_objective(x)
    ctx.eq(v, lam * N.val(x), 'objective')
    if hasattr(a, 'terms'):
        t = a.terms(x)
        fin = [t[i] for i in range(n) if w[i] != INF]
        ctx.eq(total(fin) if name == 'l1norm' else maxv(fin), N.val(x), 'terms make up the norm')
    ctx.eq(x, x0, 'argument not modified')


def feasible(ctx, name, w):
    N, D = norm_pair(name, w)
    n = len(w)
    x = signed(ctx, 'x', n)
    b = ctx.real('b', nonneg=True)
    for call in (False, True):
        a = make(name, w, bound=b if not call else 7.)
        out = not all([e <= 0 for e in N.dom(x)])
        v = a.constraint(x) if not call else a.constraint(x, bound=b)
        if not out and N.val(x) <= b:
            ctx.true(v == 0, 'feasible point')
        elif out or N.val(x) > b * ctx.num(1.001):
            ctx.true(v == INF, 'infeasible point')
        if not call:
            u = a.nonsmooth_objective(x, check_feasibility=True)
            ctx.true((u == 0) == (v == 0) and (u == INF) == (v == INF), 'indicator')
            ctx.true(a.nonsmooth_objective(x) == 0, 'not checked unless asked')


def lprox(ctx, name, w, call, which):
    N, D = norm_pair(name, w)
    n = len(w)
    x = signed(ctx, 'x', n)
    if which is not None and n > 2 and not hasattr(ctx, 'wide'):
        ctx.assume_ge(x[0])
    x0 = x.copy()
    lam = ctx.real('lam', pos=True)
    L = ctx.real('L', pos=True) if which is None or n < 3 else ctx.num(2.)
    with Iso(ctx, which):
        a = make(name, w, **(dict(bound=3.) if call else dict(lagrange=lam)))
        u = a.lagrange_prox(x, lipschitz=L, lagrange=lam) if call else a.lagrange_prox(x, lipschitz=L)
    ctx.eq(x, x0, 'argument not modified')
    check_subgrad(ctx, N, L * (x - u), u, lam, 'proximal map')


def bprox(ctx, name, w, call, which, positive=False):
    N, D = norm_pair(name, w)
    n = len(w)
    x = signed(ctx, 'x', n)
    if which is not None and n > 2 and not hasattr(ctx, 'wide'):
        ctx.assume_ge(x[0])
    x0 = x.copy()
    b = ctx.real('b', **({'pos': True} if positive else {'nonneg': True}))
    with Iso(ctx, which):
        a = make(name, w, **(dict(lagrange=3.) if call else dict(bound=b)))
        u = a.bound_prox(x, bound=b) if call else a.bound_prox(x)
    ctx.eq(x, x0, 'argument not modified')
    check_projection(ctx, N, x, u, b, 'projection')


def full(ctx, name, w, form, which):
    """proximal step with offset and attached quadratic, conjugate with both"""
    N, D = norm_pair(name, w)
    n = len(w)
    lam = ctx.num(1.5)
    o = offvec(ctx, 'o', n)
    if which is not None:
        o = ctx.arr(np.array([.5, -.25, 1.])[:n])
    with Iso(ctx, which):
        a = make(name, w, offset=o, **{form: lam})
        q, p = mkq(ctx, 'a', ('vec', 'vec') if which is None else ('none', 'vec'), n, 'nonneg')
        a.quadratic = q
        r, s = mkq(ctx, 'r', ('vec', 'vec') if which is None else ('vec', 'none'), n, 'pos')
        u = a.proximal(r)
    g = -(qgrad(p, u) + qgrad(s, u))
    v = u - o
    if form == 'lagrange':
        check_subgrad(ctx, N, g, v, lam, 'proximal step')
    else:
        le0(ctx, N.le(v, lam), 'feasible')
        le0(ctx, D.dom(g), 'residual in the polar domain')
        ctx.eq(dot(g, v), lam * D.val(g), 'normal cone')
    if form == 'lagrange':
        x = signed(ctx, 'x', n)
        ctx.eq(a.nonsmooth_objective(x), lam * N.val(x - o) + qval(p, x), 'objective')


def conj(ctx, name, w, form, off, lin):
    """the conjugate is the support function or the dual ball with the dual weights, shifted as it must be"""
    N, D = norm_pair(name, w)
    n = len(w)
    lam = ctx.real('lam', nonneg=True)
    o = offvec(ctx, 'o', n) if off else None
    if off and name.startswith('slope'):
        o = ctx.arr(np.array([.5, -.25, 1.])[:n])
    a = make(name, w, offset=o, **{form: lam})
    lt = ctx.num(0) * np.ones(n)
    c = 0
    if lin:
        q, p = mkq(ctx, 'a', ('none', 'vec'), n, None)
        if name.startswith('slope'):
            for i in range(1, n):
                ctx.assume_ge(p[2][i])
        a.quadratic = q
        z = ctx.zeros(n)
        lt, c = qgrad(p, z), qval(p, z)
    C = a.conjugate
    u = signed(ctx, 'u', n)
    oo = o if off else ctx.zeros(n)
    v = u - lt
    # f(x) = lam N(x - o) + <lt, x> + c: f*(u) = <u - lt, o> - c + (lam N)*(u - lt)
    base = dot(v, oo) - c
    if form == 'lagrange':
        ctx.eq(C.nonsmooth_objective(u), base, 'value of the conjugate')
        ctx.true(C.bound is not None and C.lagrange is None, 'form of the conjugate')
        ctx.eq(C.bound, lam, 'level of the conjugate')
        chk = C.constraint(v)
        bad = not all([e <= 0 for e in D.dom(v)])
        if not bad and D.val(v) <= lam:
            ctx.true(chk == 0, 'domain of the conjugate')
        elif bad or D.val(v) > lam * ctx.num(1.001):
            ctx.true(chk == INF, 'outside the domain of the conjugate')
    else:
        bad = not all([e <= 0 for e in D.dom(v)])
        val = C.nonsmooth_objective(u, check_feasibility=True)
        if bad:
            ctx.true(val == INF, 'outside the domain of the conjugate')
        else:
            ctx.eq(val, base + lam * D.val(v), 'value of the conjugate')
    CC = C.conjugate
    x = signed(ctx, 'x', n)
    ctx.true(type(CC) == type(a), 'biconjugate')
    ctx.eq(CC.nonsmooth_objective(x), a.nonsmooth_objective(x), 'biconjugate value')


def moreau(ctx, name, w, which):
    """the proximal maps of the norm and of its conjugate add up to the identity"""
    n = len(w)
    x = signed(ctx, 'x', n)
    lam = ctx.real('lam', pos=True)
    with Iso(ctx, which):
        a = make(name, w, lagrange=lam)
        C = a.conjugate
        ctx.eq(a.lagrange_prox(x) + C.bound_prox(x), x, 'decomposition')


def copies(ctx, name, w):
    from copy import copy
    n = len(w)
    lam = ctx.real('lam', nonneg=True)
    o = offvec(ctx, 'o', n)
    x = signed(ctx, 'x', n)
    a = make(name, w, lagrange=lam, offset=o)
    q, p = mkq(ctx, 'a', ('vec', 'vec'), n, 'nonneg')
    a.quadratic = q
    b = copy(a)
    v = a.nonsmooth_objective(x)
    ctx.eq(b.nonsmooth_objective(x), v, 'copy')
    b.lagrange = lam + 1
    b.weights[0] = 64.
    ctx.eq(a.nonsmooth_objective(x), v, 'original not affected by its copy')
    c = make(name, w, bound=2.)
    d = copy(c)
    ctx.true(d.bound == 2. and d.lagrange is None and c == d, 'copy in bound form')
    if name in ('l1norm', 'supnorm'):
        w2 = list(w)
        w2[0] = w2[0] + 1 if w2[0] != INF else 1.
        ctx.true(not make(name, w2, bound=2.) == c, 'different weights are not equal')


def smooth_conj(ctx, name, w, which):
    """conjugate of a norm with a quadratic term: Fenchel equality at its gradient"""
    N, D = norm_pair(name, w) if w is not None else (None, None)
    n = 2 if w is None else len(w)
    lam = ctx.num(1.5)
    u = signed(ctx, 'u', n)
    with Iso(ctx, which):
        if w is None:
            import regreg.atoms.simplex as SX
            a = getattr(SX, name)((n,))
        else:
            a = make(name, w, lagrange=lam)
        q, p = mkq(ctx, 'a', ('vec', 'vec'), n, 'pos')
        a.quadratic = q
        C = a.conjugate
        val = C.smooth_objective(u, 'func')
        x = C.smooth_objective(u, 'grad')
        f = a.nonsmooth_objective(x)
    ctx.eq(val + f, dot(u, x), 'Fenchel equality')
    g = u - qgrad(p, x)
    if w is not None:
        check_subgrad(ctx, N, g, x, lam, 'gradient')
    else:
        extreme(ctx, name, g, x, 1)


# ---------------------------------------------------------------- simplex and maximum

def extreme(ctx, name, g, x, L):
    """g in the normal cone of the simplex at x, or x -> max x with g a subgradient"""
    if name == 'simplex_constraint':
        ctx.eq(total(x), 1, 'sums to one')
        le0(ctx, [-v for v in x], 'nonnegative')
        ctx.eq(dot(g, x), maxv(list(g)), 'normal cone')
    else:
        ctx.eq(total(g), 1, 'subgradient sums to one')
        le0(ctx, [-v for v in g], 'subgradient nonnegative')
        ctx.eq(dot(g, x), maxv(list(x)), 'subgradient')


def simplex(ctx, name, n, off, q):
    import regreg.atoms.simplex as SX
    o = offvec(ctx, 'o', n) if off else None
    a = getattr(SX, name)((n,), offset=o)
    p = None
    if q:
        qq, p = mkq(ctx, 'a', ('vec', 'vec'), n, 'nonneg')
        a.quadratic = qq
    r, s = mkq(ctx, 'r', ('vec', 'vec') if q else ('vec', 'none'), n, 'pos')
    u = a.proximal(r)
    g = -qgrad(s, u) - (qgrad(p, u) if q else 0)
    v = u - o if off else u
    extreme(ctx, name, g, v, 1)


def simplex_value(ctx, name, n):
    from copy import copy
    import regreg.atoms.simplex as SX
    o = offvec(ctx, 'o', n)
    a = getattr(SX, name)((n,), offset=o)
    qq, p = mkq(ctx, 'a', ('vec', 'vec'), n, 'nonneg')
    a.quadratic = qq
    x = ctx.vec('x', n)
    x0 = x.copy()
    v = a.nonsmooth_objective(x)
    want = qval(p, x) + (maxv(list(x - o)) if name == 'maximum' else 0)
    ctx.eq(v, want, 'objective')
    ctx.eq(copy(a).nonsmooth_objective(x), v, 'copy')
    ctx.eq(x, x0, 'argument not modified')
    b = getattr(SX, name)((n,), offset=o)
    C = b.conjugate
    u = ctx.vec('u', n)
    # f(x) = g(x - o): f*(u) = <u, o> + g*(u)
    ctx.eq(C.nonsmooth_objective(u), dot(u, o) + (0 if name == 'maximum' else maxv(list(u))), 'value of the conjugate')
    ctx.eq(C.conjugate.nonsmooth_objective(x), b.nonsmooth_objective(x), 'biconjugate')


def simplex_member(ctx, n, case):
    import regreg.atoms.simplex as SX
    a = SX.simplex_constraint((n,))
    x = ctx.vec('x', n)
    if case == 'inside':
        for v in x[:-1]:
            ctx.assume_ge(v)
        x[-1] = 1 - total(x[:-1])
        ctx.assume_ge(x[-1])
        ctx.true(a.constraint(x) == 0, 'point of the simplex')
    else:
        x = ctx.arr(np.array([0., .75, .5])[:n])
        x[0] = ctx.real('x', lo=-2, hi=2)
        t = total(x) - 1
        if case == 'sum':
            ctx.assume_ge(t * t - .01)
        else:
            x[1] = ctx.num(1.) - total(x) + x[1]
            ctx.assume_ge(-x[0] - .1)
        ctx.true(a.constraint(x) == INF, 'point outside the simplex')


def simplex_linear(ctx, name):
    """composed with a linear map"""
    import regreg.atoms.simplex as SX
    A = np.array([[1., -2.], [.5, 1.], [0., 3.]])
    o = offvec(ctx, 'o', 3)
    a = getattr(SX, name).linear(ctx.arr(A), offset=o)
    x = ctx.vec('x', 2)
    y = [dot(A[i], x) - o[i] for i in range(3)]
    ctx.eq(a.nonsmooth_objective(x), maxv(y) if name == 'maximum' else 0, 'value')
    t, d = a.dual
    u = ctx.vec('u', 3)
    ctx.eq(t.linear_map(x), np.array([dot(A[i], x) for i in range(3)]), 'transform')
    ctx.eq(d.nonsmooth_objective(u), dot(u, o) + (0 if name == 'maximum' else maxv(list(u))), 'conjugate')


# ---------------------------------------------------------------- kernels

def pava(ctx, n):
    from regreg.atoms._isotonic_py import pav
    y = ctx.vec('y', n)
    y0 = y.copy()
    out = pav(y)
    ctx.eq(y, y0, 'argument not modified')
    for i in range(n - 1):
        ctx.le(out[i], out[i + 1], 'increasing')
    r = cum(y - out)
    for i in range(n):
        ctx.le(-r[i], 0, 'dual feasible') if i < n - 1 else ctx.eq(r[i], 0, 'same total')
    for i in range(n - 1):
        ctx.eq(r[i] * (out[i + 1] - out[i]), 0, 'complementary')


def kernel(ctx, which, w, slope):
    from regreg.atoms import piecewise_linear as PL
    n = len(w)
    x = ctx.vec('x', n)
    b = ctx.real('b', nonneg=True)
    f = lambda t: total([w[i] * maxv([x[i] - w[i] * t, 0 * t]) for i in range(n)])
    if which != 'uncon':
        for v in x:
            ctx.assume_ge(v)
    x0 = x.copy()
    if which == 'weighted':
        t = PL.find_solution_piecewise_linear(b, slope, x, np.array(w))
    elif which == 'unit':
        t = PL.find_solution_piecewise_linear_c(b, slope, x)
    else:
        ctx.assume_ge(b - ctx.num(2. ** -10))
        t = PL.find_solution_piecewise_linear_uncon(b, x)
    ctx.eq(x, x0, 'argument not modified')
    if which == 'uncon':
        ctx.eq(f(t), b, 'root')
        return
    ctx.le(0, t, 'nonnegative root')
    if f(ctx.num(0)) < b:
        ctx.eq(t, 0, 'no root')
    else:
        ctx.eq(f(t), slope * t + b, 'root')


W = {'l1norm': [(2.,), (1., .5), (0., 2.), (INF, 1.), (1., .5, 2.), (0., 2., INF), (0., 1., .5)],
     'supnorm': [(2.,), (1., .5), (0., 2.), (INF, 1.), (1., .5, 2.), (0., 2., INF), (0., 1., .5)],
     'slope': [(2.,), (2., 1.), (1., 1.), (2., 1., .5)],
     'slope_conjugate': [(2.,), (2., 1.), (1., 1.), (2., 1., .5)]}


LONG = {'l1norm': (1., 0., .5, 2., INF, 1., 4., 1., .5, 3., 0., 1.), 'slope': (4., 3., 3., 2., 1.5, 1., 1., .5, .25)}
LONG['supnorm'], LONG['slope_conjugate'] = LONG['l1norm'], LONG['slope']


def obligations(tier):
    deep = tier != 'quick'
    for name, w in LONG.items():
        sl = name.startswith('slope')
        f = dict(name=name, w=w)
        yield Ob('value[%s,long]' % name, wide, dict(fn=value, **f))
        yield Ob('feasible[%s,long]' % name, wide, dict(fn=feasible, **f))
        for which in ('library', 'python') if sl else (None,):
            for lev in (1., 4.) if sl else (None,):              # the level of the sorted norm is numeric
                fix = {} if lev is None else dict(lam=lev, b=lev)
                if name != 'slope_conjugate':
                    yield Ob('prox[%s,long,%s,%s]' % (name, which, lev), wide, dict(fn=lprox, call=False, which=which, fix=dict(fix, L=2.), **f))
                if name != 'slope':
                    yield Ob('projection[%s,long,%s,%s]' % (name, which, lev), wide, dict(fn=bprox, call=False, which=which, fix=fix, **f))
    for name in ('simplex_constraint', 'maximum'):
        yield Ob('prox[%s,long]' % name, wide, dict(fn=simplex, free=('mr', 'x'), fix=dict(cr=2.), name=name, n=12, off=False, q=False))
        yield Ob('value[%s,long]' % name, wide, dict(fn=simplex_value, fix=dict(ca=2.), name=name, n=12))
    yield Ob('isotonic[long]', wide, dict(fn=pava, free=('y',), n=10))
    for sl in (0, 1):
        yield Ob('kernel[weighted,long,%d]' % sl, wide, dict(fn=kernel, data=dict(x=[3., 1.5, 0., .25, 3., 2., 1., .5, 4.]), which='weighted', w=(1., 2., .5, 1., 3., .25, 1., 1., 2.), slope=sl))
        yield Ob('kernel[unit,long,%d]' % sl, wide, dict(fn=kernel, data=dict(x=[3., 1.5, 0., .25, 3., 2., 1., .5, 4.]), which='unit', w=(1.,) * 9, slope=sl))
    yield Ob('kernel[uncon,long]', wide, dict(fn=kernel, which='uncon', w=(1.,) * 12, slope=0))
    for name, ws in W.items():
        sl = name.startswith('slope')
        for w in ws:
            t = '%s,%s' % (name, ' '.join(['%g' % x for x in w]))
            yield Ob('value[%s]' % t, value, dict(name=name, w=w))
            yield Ob('feasible[%s]' % t, feasible, dict(name=name, w=w))
            if name != "slope_conjugate":
                yield Ob('moreau[%s]' % t, moreau, dict(name=name, w=w, which='library' if sl else None))
            for call in (False, True):
                for which in (('library', 'python') if sl else (None,)):
                    tt = t + (',call' if call else '') + (',%s' % which if sl else '')
                    if call and (which == 'python' or sl and len(w) > 2 and not deep):
                        continue
                    if name != 'slope_conjugate':
                        yield Ob('prox[%s]' % tt, lprox, dict(name=name, w=w, call=call, which=which))
                    if name != 'slope':
                        yield Ob('projection[%s]' % tt, bprox, dict(name=name, w=w, call=call, which=which))
        for w in ws:
            if len(w) > 2 and not deep:
                continue
            for form in ('lagrange', 'bound'):
                t = '%s,%s,%s' % (name, ' '.join(['%g' % x for x in w]), form)
                if len(w) == 2 and not (sl and (name == 'slope') == (form == 'bound')):
                    yield Ob('full[%s]' % t, full, dict(name=name, w=w, form=form, which='library' if sl else None))
                for off, lin in ((False, False), (True, True)):
                    yield Ob('conjugate[%s%s]' % (t, ',offset and linear term' if off else ''), conj, dict(name=name, w=w, form=form, off=off, lin=lin))
            if len(w) == 2:
                yield Ob('copies[%s,%s]' % (name, ' '.join(['%g' % x for x in w])), copies, dict(name=name, w=w))
                if name != 'slope_conjugate':
                    yield Ob('smooth conjugate[%s,%s]' % (name, ' '.join(['%g' % x for x in w])), smooth_conj, dict(name=name, w=w, which='library'))
    for name in ('simplex_constraint', 'maximum'):
        for n in (1, 2, 3):
            for off, q in ((False, False), (True, False), (True, True)):
                if n < 3 or not q:
                    yield Ob('prox[%s,%d,%s,%s]' % (name, n, off, q), simplex, dict(name=name, n=n, off=off, q=q))
            yield Ob('value[%s,%d]' % (name, n), simplex_value, dict(name=name, n=n))
        yield Ob('linear[%s]' % name, simplex_linear, dict(name=name))
        yield Ob('smooth conjugate[%s]' % name, smooth_conj, dict(name=name, w=None, which=None))
    for n in (2, 3):
        for case in ('inside', 'sum', 'negative'):
            yield Ob('member[%d,%s]' % (n, case), simplex_member, dict(n=n, case=case))
    for n in (1, 2, 3) + ((4,) if deep else ()):
        yield Ob('isotonic[%d]' % n, pava, dict(n=n))
    for sl in (0, 1):
        for w in ((1.,), (1., 2.), (.5, 1., 2.)) + (((.5, 1., 2., 1.),) if deep else ()):
            yield Ob('kernel[weighted,%d,%d]' % (len(w), sl), kernel, dict(which='weighted', w=w, slope=sl))
            yield Ob('kernel[unit,%d,%d]' % (len(w), sl), kernel, dict(which='unit', w=(1.,) * len(w), slope=sl))
    for n in (1, 2, 3):
        yield Ob('kernel[uncon,%d]' % n, kernel, dict(which='uncon', w=(1.,) * n, slope=0))
