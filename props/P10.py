"""mixed penalties: l1, positive part, nonnegative, unpenalised and grouped coefficients together"""
from .common import *
from .P12 import mkq, qval, qgrad

BOUNDS = ('2-5 coefficients mixing l1 / positive-part / nonnegative / unpenalised / grouped coefficients (groups of 1 '
          'and 2), and layouts of 14 and 15 coefficients with numeric data and one free coefficient; level, data, offsets symbolic; group weights symbolic for one group, numeric otherwise')

U, L1, PP, NN = -1, -2, -3, -4
LAYOUTS = {
    'separable': [L1, PP, NN, U],
    'group': [5, L1, 5],
    'all': [NN, 5, L1, U, 5, PP],
    'groups': [9, 2, 2, U],
    'l1': [L1, L1],
    'pp': [PP, U, PP],
    'nn': [NN, U],
    'singles': [4, L1, 3, PP],
    'small': [4, L1, PP],
    'pair': [3, L1, 4],
    'many': [L1, PP, 5, NN, 9, U, 2, 5, L1, 9, 2, PP, L1, NN],
    'many1': [L1, PP, 5, NN, 9, U, 2, L1, 5, 9, 2, PP, L1, NN, 3],
}
MANY = {'many': [3., -1.5, 1.5, .25, 3., 2., .75, 0., 3., -4., 1., 2., -.5, -1.],
        'many1': [3., -1.5, 1.5, .25, 3., 2., .75, 0., -2., -4., 1., 2., 3., 0., -.5]}
WTS = {5: 1.5, 9: 2., 2: .5, 4: 2., 3: .5}


def info(ctx, layout, default=False, zero=None):
    ps = LAYOUTS[layout]
    gs = sorted(set(p for p in ps if p >= 0))
    idx = {g: [i for i, p in enumerate(ps) if p == g] for g in gs}
    if default:
        return ps, idx, {g: np.sqrt(len(idx[g])) for g in gs}, {}
    if len(gs) == 1 and layout != 'all':
        w = {g: ctx.real('w', pos=True, lo=1e-2) for g in gs}
    else:
        w = {g: WTS[g] for g in gs}
    if zero is not None:
        w[gs[zero]] = 0.
    return ps, idx, w, dict(w)


def val(x, ps, idx, w):
    v = 0
    for i, p in enumerate(ps):
        if p == L1:
            v = v + absv(x[i])
        elif p == PP:
            v = v + (x[i] if x[i] > 0 else 0 * x[i])
    return v + total([w[g] * l2([x[i] for i in idx[g]]) for g in idx])


def dom(x, ps):
    return [-x[i] for i, p in enumerate(ps) if p in (PP, NN)]


def dual_le(g, ps, idx, w, c, slack=0):
    out = []
    for i, p in enumerate(ps):
        if p == L1:
            out += [g[i] - c, -g[i] - c]
        elif p == PP:
            out += [g[i] - c]
        elif p == NN:
            out += [g[i] - slack]
        elif p == U:
            out += [g[i] - slack, -g[i] - slack]
    for k in idx:
        out.append(sq([g[i] for i in idx[k]]) - c * c * w[k] * w[k])
    return out


def fenchel(ctx, g, u, ps, idx, w, c, label):
    """<g,u> = c*val(u) coefficient by coefficient / group by group"""
    for i, p in enumerate(ps):
        if p == L1:
            ctx.eq(g[i] * u[i], c * absv(u[i]), label)
        elif p == PP:
            ctx.eq(g[i] * u[i], c * u[i], label)
        elif p in (NN, U):
            ctx.eq(g[i] * u[i], 0, label)
    for k in idx:
        uk = [u[i] for i in idx[k]]
        ctx.eq(dot([g[i] for i in idx[k]], uk), c * w[k] * l2(uk), label)


def cert(ctx, g, u, ps, idx, w, c, label):
    le0(ctx, dom(u, ps), label + ': minimiser in the domain')
    le0(ctx, dual_le(g, ps, idx, w, c), label + ': residual in the dual ball')
    fenchel(ctx, g, u, ps, idx, w, c, label + ': Fenchel equality')


def prox(ctx, layout, default=False, zero=None):
    import regreg.atoms.mixed_lasso as M
    from regreg.identity_quadratic import identity_quadratic as Q
    ps, idx, w, wd = info(ctx, layout, default, zero)
    n = len(ps)
    lam = ctx.real('lam', nonneg=True)
    L = ctx.real('L', pos=True) if n < 5 else 2.
    x = ctx.vec('x', n)
    x0 = x.copy()
    a = M.mixed_lasso(ps, lam, weights=wd)
    u = a.proximal(Q(L, x, 0, 0))
    ctx.eq(x, x0, 'argument not modified')
    u0 = u.copy()
    cert(ctx, L * (x - u), u, ps, idx, w, lam, 'prox')
    a.proximal(Q(1., ctx.zeros(n), 0, 0))
    ctx.eq(u, u0, 'earlier result untouched')
    ctx.eq(a.proximal(Q(L, x, 0, 0)), u0, 'repeatable')


def dual_prox(ctx, layout, default=False, zero=None):
    import regreg.atoms.mixed_lasso as M
    from regreg.identity_quadratic import identity_quadratic as Q
    ps, idx, w, wd = info(ctx, layout, default, zero)
    n = len(ps)
    b = ctx.real('lam', nonneg=True)
    L = ctx.real('L', pos=True) if n < 5 else 2.
    x = ctx.vec('x', n)
    a = M.mixed_lasso_dual(ps, b, weights=wd)
    u = a.proximal(Q(L, x, 0, 0))
    u0 = u.copy()
    r = x - u0
    le0(ctx, dual_le(u0, ps, idx, w, b), 'dual: feasible')
    le0(ctx, dom(r, ps), 'dual: residual in the domain')
    fenchel(ctx, u0, r, ps, idx, w, b, 'dual: normal cone')
    a.proximal(Q(1., ctx.zeros(n), 0, 0))
    ctx.eq(u, u0, 'earlier result untouched')
    ctx.eq(a.proximal(Q(L, x, 0, 0)), u0, 'repeatable')


def full(ctx, layout, dual, off, aq):
    """offset and attached quadratic"""
    import regreg.atoms.mixed_lasso as M
    import copy
    ps, idx, w, wd = info(ctx, layout)
    n = len(ps)
    lam = ctx.real('lam', nonneg=True)
    o = ctx.vec('o', n) if off else ctx.zeros(n)
    q1, p1 = mkq(ctx, 'a', aq, n, 1.5 if aq[0] == 'vec' else 0)
    q2, p2 = mkq(ctx, 'q', ('vec', 'none'), n, .5)
    cls = M.mixed_lasso_dual if dual else M.mixed_lasso
    a = cls(ps, lam, weights=wd, offset=o if off else None, quadratic=q1)
    for b in (a, copy.copy(a)):
        u = b.proximal(q2)
        g = -(qgrad(p1, u) + qgrad(p2, u))
        y = u - o
        if dual:
            le0(ctx, dual_le(y, ps, idx, w, lam), 'dual: feasible')
            le0(ctx, dom(g, ps), 'dual: residual in the domain')
            fenchel(ctx, y, g, ps, idx, w, lam, 'dual: normal cone')
        else:
            cert(ctx, g, y, ps, idx, w, lam, 'prox')


def value(ctx, layout, off):
    import regreg.atoms.mixed_lasso as M
    import copy
    ps, idx, w, wd = info(ctx, layout)
    n = len(ps)
    lam = ctx.real('lam', nonneg=True)
    o = ctx.vec('o', n) if off else ctx.zeros(n)
    q, p = mkq(ctx, 'a', ('vec', 'vec'), n, 'nonneg')
    y = ctx.vec('y', n)
    x = y + o
    a = M.mixed_lasso(ps, lam, weights=wd, offset=o if off else None, quadratic=q)
    h = val(y, ps, idx, w)
    for b in (a, copy.copy(a)):
        ctx.eq(b.nonsmooth_objective(x), lam * h + qval(p, x), 'value')
    ctx.eq(a.seminorm(y), lam * h, 'norm value')


def member(ctx, layout, off):
    import regreg.atoms.mixed_lasso as M
    ps, idx, w, wd = info(ctx, layout)
    n = len(ps)
    o = ctx.vec('o', n) if off else ctx.zeros(n)
    y = ctx.vec('y', n)
    lam = ctx.real('lam', pos=True)
    a = M.mixed_lasso(ps, lam, weights=wd, offset=o if off else None)
    v = a.nonsmooth_objective(y + o, check_feasibility=True)
    d = dom(y, ps)
    if all([e <= 0 for e in d]):
        ctx.eq(v, lam * val(y, ps, idx, w), 'feasible')
    elif any([e >= 1e-3 for e in d]):
        ctx.eq(v, np.inf, 'infeasible')


def ball_member(ctx, layout):
    """membership in the ball of the mixed norm for a bound given in the call"""
    import regreg.atoms.mixed_lasso as M
    ps, idx, w, wd = info(ctx, layout)
    n = len(ps)
    y = ctx.vec('y', n)
    for e in dom(y, ps):
        ctx.assume_ge(-e)
    b = ctx.real('b', nonneg=True)
    a = M.mixed_lasso(ps, 1., weights=wd)
    h = val(y, ps, idx, w)
    v = a.constraint(y, b)
    if h <= b:
        ctx.eq(v, 0, 'inside')
    elif h > 1.001 * b + 1e-3:
        ctx.eq(v, np.inf, 'outside')
    try:
        a.constraint(y)
        ctx.true(False, 'a bound is required')
    except ValueError:
        pass


def dual_member(ctx, layout, off):
    import regreg.atoms.mixed_lasso as M
    ps, idx, w, wd = info(ctx, layout)
    n = len(ps)
    o = ctx.vec('o', n) if off else ctx.zeros(n)
    y = ctx.vec('y', n)
    b = ctx.real('lam', nonneg=True)
    q, p = mkq(ctx, 'a', ('none', 'vec'), n, 0)
    a = M.mixed_lasso_dual(ps, b, weights=wd, offset=o if off else None, quadratic=q)
    v = a.nonsmooth_objective(y + o, check_feasibility=True)
    ctx.eq(a.nonsmooth_objective(y + o), qval(p, y + o), 'value without feasibility check')
    d = dual_le(y, ps, idx, w, b)
    if all([e <= 0 for e in d]):
        ctx.eq(v, qval(p, y + o), 'feasible')
    elif any([e > 0 for e in dual_le(y, ps, idx, w, 1.001 * b + 1e-3, 1e-3)]):
        ctx.eq(v, np.inf, 'infeasible')


def conj(ctx, layout, dual):
    import regreg.atoms.mixed_lasso as M
    from regreg.identity_quadratic import identity_quadratic as Q
    ps, idx, w, wd = info(ctx, layout)
    n = len(ps)
    lam = ctx.real('lam', nonneg=True)
    o, l, k = ctx.vec('o', n), ctx.vec('l', n), ctx.real('k')
    cls, other = (M.mixed_lasso_dual, M.mixed_lasso) if dual else (M.mixed_lasso, M.mixed_lasso_dual)
    a = cls(ps, lam, weights=wd, offset=o, quadratic=Q(0, 0, l, k))
    c = a.conjugate
    ctx.true(type(c) is other, 'dual class')
    ctx.eq(c.lagrange if dual else c.bound, lam, 'dual parameter')
    t = ctx.vec('t', n)
    y = t + l
    want = dot(t, o) - k + (lam * val(t, ps, idx, w) if dual else 0)
    ctx.eq(c.nonsmooth_objective(y), want, 'conjugate value')
    cc = c.conjugate
    ctx.true(type(cc) is cls, 'double conjugate class')
    x = ctx.zeros(n) + o
    ctx.eq(cc.nonsmooth_objective(x), a.nonsmooth_objective(x), 'double conjugate value')


def moreau(ctx, layout):
    import regreg.atoms.mixed_lasso as M
    from regreg.identity_quadratic import identity_quadratic as Q
    ps, idx, w, wd = info(ctx, layout)
    n = len(ps)
    lam = ctx.real('lam', nonneg=True)
    z = ctx.vec('z', n)
    a = M.mixed_lasso(ps, lam, weights=wd)
    u = a.proximal(Q(2., z, 0, 0))
    v = a.conjugate.proximal(Q(.5, 2. * z, 0, 0))
    ctx.eq(2. * u + v, 2. * z, 'Moreau decomposition')


# ------------------------------------------------------------- kernels

def bufs(ctx, a):
    q = len(a._weight_array)
    return (a._l1_penalty, a._unpenalized, a._positive_part, a._nonnegative, a._groups,
            ctx.arr(a._weight_array), ctx.zeros(q), ctx.zeros(q), ctx.zeros(a.shape))


def bound_kernel(ctx, layout):
    """projection on the ball of the mixed norm"""
    import regreg.atoms.mixed_lasso as M
    ps, idx, w, wd = info(ctx, layout)
    n = len(ps)
    b = ctx.real('lam', pos=True)
    x = ctx.vec('x', n)
    x0 = x.copy()
    a = M.mixed_lasso(ps, 1., weights=wd)
    u = M.mixed_lasso_bound_prox(x, b, *bufs(ctx, a))
    ctx.eq(x, x0, 'argument not modified')
    r = x - u
    le0(ctx, dom(u, ps), 'ball: in the domain')
    ctx.le(val(u, ps, idx, w), b, 'ball: feasible')
    # r in t * dual ball with t the dual gauge of r; <r,u> = b t
    ts = [0 * x[0]]
    for i, p in enumerate(ps):
        if p == L1:
            ts.append(absv(r[i]))
        elif p == PP:
            ts.append(r[i])
        elif p == NN:
            ctx.le(r[i], 0, 'ball: residual')
        elif p == U:
            ctx.eq(r[i], 0, 'ball: residual')
    for k in idx:
        ts.append(l2([r[i] for i in idx[k]]) / w[k])
    ctx.eq(dot(r, u), b * maxv(ts), 'ball: normal cone')


def epi_kernel(ctx, layout):
    import regreg.atoms.mixed_lasso as M
    ps, idx, w, wd = info(ctx, layout)
    n = len(ps)
    c = ctx.vec('x', n + 1)
    c0 = c.copy()
    a = M.mixed_lasso(ps, 1., weights=wd)
    u = M.mixed_lasso_epigraph(c, *bufs(ctx, a))
    ctx.eq(c, c0, 'argument not modified')
    r = c - u
    le0(ctx, dom(u[:-1], ps), 'epigraph: in the domain')
    ctx.le(val(u[:-1], ps, idx, w), u[-1], 'epigraph: feasible')
    le0(ctx, dual_le(r[:-1], ps, idx, w, -r[-1]), 'epigraph: residual in the polar cone')
    ctx.le(r[-1], 0, 'epigraph: residual height')
    ctx.eq(dot(r, u), 0, 'epigraph: orthogonal')


# ------------------------------------------------------------- screening

def strong_set(ctx, layout, slope):
    import regreg.atoms.mixed_lasso as M
    ps, idx, w, wd = info(ctx, layout)
    n = len(ps)
    g = ctx.vec('g', n)
    new, cur = ctx.real('new', pos=True), ctx.real('cur', pos=True)
    ctx.assume_ge(cur - new)
    a = M.mixed_lasso(ps, 1., weights=wd)
    kw = {} if slope is None else dict(slope_estimate=slope)
    s = 1. if slope is None else slope
    keep, sel = M.strong_set(a, cur, new, g, **kw)
    thr = (s + 1) * new - s * cur
    for i, p in enumerate(ps):
        if p == L1:
            want = absv(g[i]) >= thr
        elif p == PP:
            want = -g[i] >= thr
        elif p == NN:
            want = -g[i] >= -s * absv(new - cur)
        elif p == U:
            want = True
        else:
            want = l2([g[j] for j in idx[p]]) >= w[p] * thr
        ctx.true(bool(keep[i]) == bool(want), 'strong rule for coefficient %d' % i)


def kkt(ctx, layout):
    """quiet at an optimum"""
    import regreg.atoms.mixed_lasso as M
    ps, idx, w, wd = info(ctx, layout)
    n = len(ps)
    lam = ctx.real('lam', pos=True, lo=.1)
    a = M.mixed_lasso(ps, lam, weights=wd)
    z = ctx.vec('z', n)
    from regreg.identity_quadratic import identity_quadratic as Q
    u = a.proximal(Q(1., z, 0, 0))
    f = M.check_KKT(a, u - z, u, lam)
    ctx.true(not np.any(f), 'quiet at an optimum')


def kkt_alarm(ctx, layout):
    """alarms when a multiplier clearly violates its bound, or an active one is clearly not tight"""
    import regreg.atoms.mixed_lasso as M
    ps, idx, w, wd = info(ctx, layout)
    n = len(ps)
    lam = ctx.real('lam', lo=.5, hi=10)
    a = M.mixed_lasso(ps, lam, weights=wd)
    which = ctx.choice('which', [i for i in range(n) if ps[i] != U])
    active = ctx.choice('active', [False, True])
    g = ctx.zeros(n)
    x = ctx.zeros(n)
    p = ps[which]
    if p == NN:
        # all other conditions hold at zero
        if active:
            x[which] = ctx.real('s', pos=True)
            g[which] = ctx.real('v', lo=.5)
        else:
            g[which] = -ctx.real('v', lo=.5)
            ctx.assume_gt(-g[which], lam)
    else:
        scale = lam * (w[p] if p >= 0 else 1.)
        if active:
            x[which] = ctx.real('s', pos=True)
            g[which] = -ctx.real('v', nonneg=True)
            ctx.assume_gt(.9 * scale + g[which])
        else:
            g[which] = -ctx.real('v', pos=True)
            ctx.assume_gt(-g[which] - 1.1 * scale)
    f = M.check_KKT(a, g, x, lam)
    ctx.true(bool(np.any(f)), 'violation found')
    ctx.true(bool(f[which]), 'violation located')


def obligations(tier):
    T = tier == 'thorough'
    lay = ['separable', 'group', 'groups', 'l1', 'pp', 'nn', 'singles'] + (['all'] if T else [])
    for l in lay:
        yield Ob('prox[%s]' % l, prox, dict(layout=l))
        yield Ob('dual.prox[%s]' % l, dual_prox, dict(layout=l))
        yield Ob('moreau[%s]' % l, moreau, dict(layout=l))
        yield Ob('conjugate[%s]' % l, conj, dict(layout=l, dual=False))
        if l != 'singles' or T:
            yield Ob('dual.conjugate[%s]' % l, conj, dict(layout=l, dual=True))
        if l == 'singles' and not T:
            yield Ob('value[%s]' % l, value, dict(layout=l, off=True))
            continue
        for off in (False, True):
            yield Ob('value[%s,%s]' % (l, off), value, dict(layout=l, off=off))
            yield Ob('member[%s,%s]' % (l, off), member, dict(layout=l, off=off))
            if not off or T or len(LAYOUTS[l]) < 4:
                yield Ob('dual.member[%s,%s]' % (l, off), dual_member, dict(layout=l, off=off))
        yield Ob('strong_set[%s]' % l, strong_set, dict(layout=l, slope=None))
        yield Ob('check_KKT[%s]' % l, kkt, dict(layout=l))
        yield Ob('check_KKT.alarm[%s]' % l, kkt_alarm, dict(layout=l))
    for l in ('separable', 'group', 'small', 'pair'):
        yield Ob('ball member[%s]' % l, ball_member, dict(layout=l))
    yield Ob('strong_set[slope]', strong_set, dict(layout='separable', slope=2.))
    for l in ('l1', 'pp', 'separable', 'small', 'pair') + (('group', 'singles') if T else ()):
        yield Ob('ball[%s]' % l, bound_kernel, dict(layout=l))
    for l in ('small', 'pair') + (('group', 'singles') if T else ()):
        yield Ob('epigraph[%s]' % l, epi_kernel, dict(layout=l))
    for d in (False, True):
        t = 'dual.' if d else ''
        yield Ob('%sprox[zero weight]' % t, dual_prox if d else prox, dict(layout='groups', zero=0))
        yield Ob('%sprox[default weights]' % t, dual_prox if d else prox, dict(layout='groups', default=True))
        for off in (False, True):
            for aq in (('none', 'vec'), ('vec', 'vec')):
                yield Ob('%sfull[%s,%s]' % (t, off, aq[0]), full, dict(layout='separable', dual=d, off=off, aq=aq))
    for l in ('many', 'many1'):
        for nm, fn, v, fr, pp in (('prox', prox, 'x', 'x', {}), ('dual.prox', dual_prox, 'x', 'x', {}),
                              ('value', value, 'y', 'y', dict(off=True)), ('member', member, 'y', 'y', dict(off=False)),
                              ('dual.member', dual_member, 'y', 'y', dict(off=False)),
                              ('moreau', moreau, 'z', 'z', {}), ('check_KKT', kkt, 'z', 'z', {}),
                              ('strong_set', strong_set, 'g', 'g', dict(slope=None))):
            yield Ob('%s[%s]' % (nm, l), wide, dict(fn=fn, data={v: MANY[l]}, free=(fr,), layout=l, **pp))
        yield Ob('check_KKT.alarm[%s]' % l, kkt_alarm, dict(layout=l))
