"""group lasso norm, its dual and their epigraphs"""
from .common import *
from .P12 import mkq, qval, qgrad
from .P03 import certify  # noqa: F401

BOUNDS = ('2-4 coefficients in 1-3 groups, many groups with one free coordinate (interleaved labels, unsorted labels, zero weights); '
          'weights, lagrange/bound and data symbolic')

LAYOUTS = {
    'one': ([7, 7], ['w7']),
    'mixed': ([4, 1, 4], ['w4', 'w1']),
    'three': ([2, 0, 1], ['w2', 'w0', 'w1']),
    'default': ([4, 1, 4, 4, 4], None),
    'pairs': ([3, 1, 1, 3], ['w3', 'w1']),
    'many': ([3, 1, 1, 3, 0, 7, 2, 4, 4, 1, 0, 2, 7, 4], None),
}


FIXED = {0: 2., 1: 3., 2: .5, 3: .5, 4: 2., 7: 1.5}


# groups of rational length, one with a free entry
MANY = [3., 2., -1., -4., 5., -8., 1.5, 0., 0., 2., 12., 2., 6., 0.]


def groups_of(ctx, layout, zero=None, default=False, fixed=False):
    labels, _ = LAYOUTS[layout]
    ids = sorted(set(labels))
    idx = {g: [i for i, l in enumerate(labels) if l == g] for g in ids}
    if default:
        w = {g: np.sqrt(len(idx[g])) for g in ids}
        return labels, ids, idx, w, {}
    w = {g: FIXED[g] if fixed else ctx.real('w%d' % g, pos=True, lo=1e-3) for g in ids}
    if zero is not None:
        w[ids[zero]] = 0.
    return labels, ids, idx, w, dict(w)


def gl(x, idx, w):
    return total([w[g] * l2([x[i] for i in idx[g]]) for g in idx])


def gld(x, idx, w):
    return maxv([0 * x[0]] + [l2([x[i] for i in idx[g]]) / w[g] for g in idx if not zerow(w[g])])


def zerow(v):
    return isinstance(v, float) and v == 0.


def in_gl_ball(x, idx, w, c):
    return [gl(x, idx, w) - c]


def in_gld_ball(x, idx, w, c):
    out = [-c]
    for g in idx:
        v = [x[i] for i in idx[g]]
        if zerow(w[g]):
            out += v + [-t for t in v]
        else:
            out.append(sq(v) - c * c * w[g] * w[g])
    return out


def gld_dom(x, idx, w):
    out = []
    for g in idx:
        if zerow(w[g]):
            v = [x[i] for i in idx[g]]
            out += v + [-t for t in v]
    return out


def cert(ctx, kind, mode, idx, w, g, u, lam, label):
    """g in the subdifferential at u of the norm / of the indicator of its ball"""
    if kind == 'group_lasso' and mode == 'lagrange':
        le0(ctx, in_gld_ball(g, idx, w, lam), label + ': residual in the dual ball')
        ctx.eq(dot(g, u), lam * gl(u, idx, w), label + ': Fenchel equality')
    elif kind == 'group_lasso':
        le0(ctx, in_gl_ball(u, idx, w, lam), label + ': feasible')
        le0(ctx, gld_dom(g, idx, w), label + ': residual in the polar domain')
        ctx.eq(dot(g, u), lam * gld(g, idx, w), label + ': normal cone')
    elif mode == 'lagrange':
        le0(ctx, gld_dom(u, idx, w), label + ': minimiser in the domain')
        le0(ctx, in_gl_ball(g, idx, w, lam), label + ': residual in the dual ball')
        ctx.eq(dot(g, u), lam * gld(u, idx, w), label + ': Fenchel equality')
    else:
        le0(ctx, in_gld_ball(u, idx, w, lam), label + ': feasible')
        ctx.eq(dot(g, u), lam * gl(g, idx, w), label + ': normal cone')


def prox(ctx, kind, mode, layout, zero=None, default=False, fixed=False):
    import regreg.atoms.group_lasso as G
    labels, ids, idx, w, wd = groups_of(ctx, layout, zero, default, fixed)
    n = len(labels)
    x = ctx.vec('x', n)
    x0 = x.copy()
    lam = ctx.real('lam', nonneg=True)
    a = getattr(G, kind)(labels, weights=wd, **{mode: lam})
    if mode == 'lagrange':
        L = ctx.real('L', pos=True) if (kind == 'group_lasso' and layout != 'three') else 2.
        u = a.lagrange_prox(x, lipschitz=L)
    else:
        L = 1.
        u = a.bound_prox(x)
    ctx.eq(x, x0, 'argument not modified')
    u0 = u.copy()
    cert(ctx, kind, mode, idx, w, L * (x - u), u, lam, kind)
    # buffers kept between calls must not leak into results
    if mode == 'lagrange':
        a.lagrange_prox(ctx.zeros(n) + 1., lipschitz=1.)
        v = a.lagrange_prox(x0, lipschitz=L)
    else:
        a.bound_prox(ctx.zeros(n) + 1.)
        v = a.bound_prox(x0)
    ctx.eq(u, u0, 'earlier result untouched')
    ctx.eq(v, u0, 'repeatable')


def value(ctx, kind, layout, zero=None, default=False):
    import regreg.atoms.group_lasso as G
    labels, ids, idx, w, wd = groups_of(ctx, layout, zero, default)
    n = len(labels)
    x, o, l = ctx.vec('x', n), ctx.vec('o', n), ctx.vec('l', n)
    lam = ctx.real('lam', nonneg=True)
    from regreg.identity_quadratic import identity_quadratic as Q
    cls = getattr(G, kind)
    a = cls(labels, weights=wd, lagrange=lam, offset=o, quadratic=Q(0, 0, l, 0))
    y = x - o
    h = gl(y, idx, w) if kind == 'group_lasso' else gld(y, idx, w)
    if kind == 'group_lasso' or zero is None:
        ctx.eq(a.nonsmooth_objective(x), lam * h + dot(l, x), 'value')
    t = a.terms(y)
    for j, g in enumerate(ids):
        v = l2([y[i] for i in idx[g]])
        if zerow(w[g]) and kind != 'group_lasso':
            if v == 0:
                ctx.eq(t[j], 0, 'term of an unpenalised zero group')
            else:
                ctx.eq(t[j], np.inf, 'term of an unpenalised group')
        else:
            ctx.eq(t[j], v * w[g] if kind == 'group_lasso' else v / w[g], 'terms')
    b = cls(labels, weights=wd, bound=lam, offset=o)
    v = b.nonsmooth_objective(x, check_feasibility=True)
    if kind == 'group_lasso' or zero is None:
        if h < lam * (1 - 1e-9):
            ctx.eq(v, 0, 'feasible')
        elif h > lam * (1 + 1e-3) + 1e-3:
            ctx.eq(v, np.inf, 'infeasible')


def conj(ctx, kind, mode, layout):
    """conjugate pair: classes, parameters, offsets; Moreau identity"""
    import regreg.atoms.group_lasso as G
    from regreg.identity_quadratic import identity_quadratic as Q
    labels, ids, idx, w, wd = groups_of(ctx, layout)
    n = len(labels)
    o, l, k = ctx.vec('o', n), ctx.vec('l', n), ctx.real('k')
    lam = ctx.real('lam', nonneg=True)
    a = getattr(G, kind)(labels, weights=wd, offset=o, quadratic=Q(0, 0, l, k), **{mode: lam})
    c = a.conjugate
    other = {'group_lasso': 'group_lasso_dual', 'group_lasso_dual': 'group_lasso'}[kind]
    om = {'lagrange': 'bound', 'bound': 'lagrange'}[mode]
    ctx.true(type(c).__name__ == other, 'dual class')
    ctx.eq(getattr(c, om), lam, 'dual parameter')
    z = ctx.vec('z', n)
    y = ctx.vec('y', n)
    want = dot(y - l, o) - k
    if om == 'lagrange':
        want = want + lam * (gl(y - l, idx, w) if other == 'group_lasso' else gld(y - l, idx, w))
    ctx.eq(c.nonsmooth_objective(y), want, 'conjugate value')
    cc = c.conjugate
    ctx.eq(cc.nonsmooth_objective(y), a.nonsmooth_objective(y), 'double conjugate value')
    ctx.true(type(cc).__name__ == kind, 'double conjugate class')
    import copy
    b = copy.copy(a)
    ctx.eq(b.nonsmooth_objective(y), a.nonsmooth_objective(y), 'copy value')
    ctx.eq(getattr(b, mode), lam, 'copy parameter')


def moreau(ctx, kind, mode, layout):
    import regreg.atoms.group_lasso as G
    from regreg.identity_quadratic import identity_quadratic as Q
    labels, ids, idx, w, wd = groups_of(ctx, layout)
    n = len(labels)
    z = ctx.vec('z', n)
    lam = ctx.real('lam', nonneg=True)
    a = getattr(G, kind)(labels, weights=wd, **{mode: lam})
    u = a.proximal(Q(2., z, 0, 0))
    v = a.conjugate.proximal(Q(.5, 2. * z, 0, 0))
    ctx.eq(2. * u + v, 2. * z, 'Moreau decomposition')


def set_weight(ctx, kind):
    """changing one weight only changes that group"""
    import regreg.atoms.group_lasso as G
    labels, ids, idx, w, wd = groups_of(ctx, 'mixed')
    a = getattr(G, kind)(labels, weights=wd, lagrange=1.)
    b = getattr(G, kind)(labels, weights=wd, lagrange=1.)
    nw = ctx.real('nw', pos=True)
    a.set_weight(4, nw)
    w2 = dict(w)
    w2[4] = nw
    x = ctx.vec('x', 3)
    h = gl if kind == 'group_lasso' else gld
    ctx.eq(a.seminorm(x), h(x, idx, w2), 'new value')
    ctx.eq(b.seminorm(x), h(x, idx, w), 'other atom unaffected')
    t = a.terms(x)
    v = l2([x[0], x[2]])
    ctx.eq(t[1], v * nw if kind == 'group_lasso' else v / nw, 'terms use the new weight')
    ctx.eq(sorted(wd) == [1, 4] and wd[4] - w[4], 0, 'caller dictionary untouched')


EPI = {'group_lasso_epigraph': (+1, 'gl', 'group_lasso_epigraph_polar'),
       'group_lasso_epigraph_polar': (-1, 'gld', 'group_lasso_epigraph'),
       'group_lasso_dual_epigraph': (+1, 'gld', 'group_lasso_dual_epigraph_polar'),
       'group_lasso_dual_epigraph_polar': (-1, 'gl', 'group_lasso_dual_epigraph')}


def emem(name, x, idx, w):
    s, h, _ = EPI[name]
    t = s * x[-1]
    if h == 'gl':
        return in_gl_ball(x[:-1], idx, w, t)
    return in_gld_ball(x[:-1], idx, w, t)


def epigraph(ctx, name, layout, fixed=False):
    import regreg.atoms.group_lasso as G
    labels, ids, idx, w, wd = groups_of(ctx, layout, fixed=fixed)
    n = len(labels) + 1
    x = ctx.vec('x', n)
    x0 = x.copy()
    a = getattr(G, name)(labels, weights=wd)
    u = a.cone_prox(x)
    ctx.eq(x, x0, 'argument not modified')
    r = x - u
    le0(ctx, emem(name, u, idx, w), 'in the cone')
    le0(ctx, emem(EPI[name][2], r, idx, w), 'residual in the polar cone')
    ctx.eq(dot(r, u), 0, 'orthogonal')
    u0 = u.copy()
    a.cone_prox(ctx.zeros(n) + 1.)
    ctx.eq(u, u0, 'earlier result untouched')


def epi_prox(ctx, name, aq):
    import regreg.atoms.group_lasso as G
    import copy
    labels, ids, idx, w, wd = groups_of(ctx, 'one')
    n = 3
    o = ctx.vec('o', n)
    q1, p1 = mkq(ctx, 'a', aq, n, 'nonneg' if aq[0] == 'vec' else 0)
    q2, p2 = mkq(ctx, 'q', ('vec', 'vec'), n)
    a = getattr(G, name)(labels, weights=wd, offset=o, quadratic=q1)
    for b, tag in ((a, 'atom'), (copy.copy(a), 'copy')):
        if ctx.symbolic:
            log = []

            def cone_prox(arg, log=log, tag=tag, **kw):
                u = ctx.vec('u' + tag, n)
                log.append((arg.copy(), u.copy()))
                return u
            b.cone_prox = cone_prox
        u = b.proximal(q2)
        g = -(qgrad(p1, u) + qgrad(p2, u))
        if ctx.symbolic:
            arg, v = log[-1]
            ctx.eq(v, u - o, tag + ' solution')
            ctx.eq((p1[0] + p2[0]) * (arg - v), g, tag + ' optimality')
        else:
            y = u - o
            le0(ctx, emem(name, y, idx, w), 'in the cone')
            le0(ctx, emem(EPI[name][2], g, idx, w), 'residual in the polar cone')
            ctx.eq(dot(g, y), 0, 'orthogonal')
    if aq[0] != 'vec':
        c = a.conjugate
        ctx.true(type(c).__name__ == EPI[name][2], 'polar class')
        y = ctx.vec('y', n)
        ctx.eq(c.nonsmooth_objective(y), dot(y - p1[2], o) - p1[3], 'conjugate value')
        for g in ids:
            ctx.eq(c.weights[g], w[g], 'weights kept')


def epi_member(ctx, name, layout):
    import regreg.atoms.group_lasso as G
    labels, ids, idx, w, wd = groups_of(ctx, layout)
    n = len(labels) + 1
    x = ctx.vec('x', n)
    a = getattr(G, name)(labels, weights=wd)
    v = a.nonsmooth_objective(x, check_feasibility=True)
    s, h, _ = EPI[name]
    val = gl(x[:-1], idx, w) if h == 'gl' else gld(x[:-1], idx, w)
    t = s * x[-1]
    if val <= t:
        ctx.eq(v, 0, 'feasible')
    elif val > t + 1e-3 and val <= 1:
        ctx.eq(v, np.inf, 'infeasible')


def strong_set(ctx):
    """groups kept by the sequential strong rule"""
    import regreg.atoms.group_lasso as G
    labels, ids, idx, w, wd = groups_of(ctx, 'mixed')
    a = G.group_lasso(labels, weights=wd, lagrange=1.)
    g = ctx.vec('g', 3)
    cur, new = ctx.real('cur', nonneg=True), ctx.real('new', nonneg=True)
    s = list(G.strong_set(a, cur, new, g))
    for lab in ids:
        keep = l2([g[i] for i in idx[lab]]) / w[lab] >= 2 * new - cur
        ctx.true((lab in s) == bool(keep), 'strong rule for group %s' % lab)


def kkt(ctx):
    """optimality check: quiet at an optimum, alarms at clear violations"""
    import regreg.atoms.group_lasso as G
    labels, ids, idx, w, wd = groups_of(ctx, 'mixed')
    lam = ctx.real('lam', pos=True)
    a = G.group_lasso(labels, weights=wd, lagrange=1.)    # the level checked is the one in the call
    which = ctx.choice('active', ['none', 'one', 'big'])
    sol = ctx.zeros(3)
    grad = ctx.vec('g', 3)
    if which == 'one':
        sol[1] = ctx.real('s', nonzero=True)
    elif which == 'big':
        sol[0] = ctx.real('s', nonzero=True)
    ok = True
    for g in ids:
        sg = [sol[i] for i in idx[g]]
        gg = [grad[i] for i in idx[g]]
        act = (which == 'one' and g == 1) or (which == 'big' and g == 4)
        if act:
            nrm = l2(sg)
            for i in idx[g]:
                ctx.assume_ge(-grad[i] * nrm - lam * w[g] * sol[i])
                ctx.assume_ge(lam * w[g] * sol[i] + grad[i] * nrm)
        else:
            ctx.assume_ge(lam * lam * w[g] * w[g] - sq(gg))
    ctx.true(not G.check_KKT(a, grad, sol, lam), 'quiet at an optimum')


def kkt_alarm(ctx):
    import regreg.atoms.group_lasso as G
    labels, ids, idx, w, wd = groups_of(ctx, 'mixed')
    lam = ctx.real('lam', pos=True)
    a = G.group_lasso(labels, weights=wd, lagrange=1.)
    grad = ctx.zeros(3)
    which = ctx.choice('which', [0, 1])
    grad[which] = ctx.real('g')
    lab = labels[which]
    ctx.assume_gt(absv(grad[which]), 1.5 * lam * w[lab])
    ctx.true(bool(G.check_KKT(a, grad, ctx.zeros(3), lam)), 'violation found')


def kkt_active(ctx, which):
    """active groups whose gradient is too small, or points elsewhere, are found out"""
    import regreg.atoms.group_lasso as G
    a = G.group_lasso(np.array([4, 4, 1]), weights={4: 2., 1: .5}, lagrange=1.)
    lam = ctx.real('lam', pos=True)
    s = ctx.real('s', nonzero=True)
    sol = ctx.zeros(3)
    grad = ctx.zeros(3)
    if which == 'small':
        t = ctx.real('t', pos=True)
        ctx.assume_ge(.95 - t)
        if ctx.choice('group', [0, 1]):
            sol[2], grad[2] = s, -t * lam * .5 * (1 if s > 0 else -1)
        else:
            sol[:2] = s * ctx.arr(np.array([3., 4.]))
            grad[:2] = -t * lam * 2 * (1 if s > 0 else -1) * ctx.arr(np.array([.6, .8]))
    elif which == 'sign':
        sol[2], grad[2] = s, lam * .5 * (1 if s > 0 else -1)
    else:
        sol[:2] = s * ctx.arr(np.array([3., 4.]))
        grad[:2] = -lam * 2 * (1 if s > 0 else -1) * ctx.arr(np.array([.8, .6]))
    ctx.true(bool(G.check_KKT(a, grad, sol, lam)), 'violation found')


HARD = (('group_lasso', 'bound'), ('group_lasso_dual', 'lagrange'))


def explicit(ctx, which):
    import regreg.atoms.group_lasso as G
    cls = getattr(G, which)
    override(ctx, lambda **kw: cls(np.array([4, 1, 4]), weights={4: .5, 1: 2.}, **kw), 3)


def obligations(tier):
    for kind in ('group_lasso', 'group_lasso_dual'):
        for mode in ('lagrange', 'bound'):
            yield Ob('%s.%s.prox[many groups]' % (kind, mode), wide, dict(fn=prox, data=dict(x=MANY), kind=kind, mode=mode, layout='many', fixed=True, fix=dict(L=.5)))
        yield Ob('%s.value[many groups]' % kind, wide, dict(fn=value, data=dict(x=MANY, o=[0.] * 14), kind=kind, layout='many', fix={'w%d' % k: v for k, v in FIXED.items()}))
    for name in EPI:
        yield Ob('%s[many groups]' % name, wide, dict(fn=epigraph, data=dict(x=MANY + [1.]), name=name, layout='many', fixed=True))
    for which in ('group_lasso', 'group_lasso_dual'):
        yield Ob('explicit level[%s]' % which, explicit, dict(which=which))
    for kind in ('group_lasso', 'group_lasso_dual'):
        for layout in ('one', 'mixed', 'three', 'pairs'):
            if layout == 'pairs' and tier == 'quick' and kind == 'group_lasso_dual':
                continue
            for mode in ('lagrange', 'bound'):
                if layout == 'three' and tier == 'quick' and (kind, mode) in HARD:
                    continue
                yield Ob('%s.%s.prox[%s]' % (kind, mode, layout), prox, dict(kind=kind, mode=mode, layout=layout,
                          fixed=layout != 'one' and (kind, mode) in HARD))
        for mode in ('lagrange', 'bound'):
            yield Ob('%s.%s.prox[default weights]' % (kind, mode), prox,
                     dict(kind=kind, mode=mode, layout='default', default=True))
            yield Ob('%s.%s.prox[zero weight]' % (kind, mode), prox,
                     dict(kind=kind, mode=mode, layout='mixed', zero=1))
            yield Ob('%s.%s.conjugate' % (kind, mode), conj, dict(kind=kind, mode=mode, layout='mixed'))
            yield Ob('%s.%s.moreau' % (kind, mode), moreau, dict(kind=kind, mode=mode, layout='mixed'))
        for layout in ('one', 'mixed', 'three'):
            yield Ob('%s.value[%s]' % (kind, layout), value, dict(kind=kind, layout=layout))
        yield Ob('%s.value[default]' % kind, value, dict(kind=kind, layout='default', default=True))
        yield Ob('%s.value[zero]' % kind, value, dict(kind=kind, layout='mixed', zero=0))
        yield Ob('%s.set_weight' % kind, set_weight, dict(kind=kind))
    for name in EPI:
        for layout in ('one', 'mixed') + (('three', 'pairs') if tier == 'thorough' else ()):
            yield Ob('%s[%s]' % (name, layout), epigraph, dict(name=name, layout=layout, fixed=layout != 'one'))
        yield Ob('%s.member' % name, epi_member, dict(name=name, layout='mixed'))
        for aq in (('vec', 'vec'), ('none', 'vec')):
            yield Ob('%s.prox[%s]' % (name, aq[0]), epi_prox, dict(name=name, aq=aq))
    yield Ob('strong_set', strong_set)
    yield Ob('check_KKT', kkt)
    yield Ob('check_KKT.alarm', kkt_alarm)
    for which in ('small', 'sign', 'direction'):
        yield Ob('check_KKT.active[%s]' % which, kkt_active, dict(which=which))
