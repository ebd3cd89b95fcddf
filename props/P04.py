"""conjugate atoms: Moreau identity, Fenchel equality, involution, smoothing"""
from .common import *
from .P12 import mkq, qval, qgrad
from .P03 import make, certify

BOUNDS = 'dimension 1..2; lagrange/bound, offset, linear term and constants symbolic'


def moreau(ctx, name, mode, n, off, lin):
    """prox of f and of its conjugate decompose every point; values satisfy Fenchel equality"""
    from regreg.identity_quadratic import identity_quadratic as Q
    a, lam, o, p1 = make(ctx, name, mode, n, off, ('lin', 'vec') if lin else None)
    z = ctx.vec('z', n)
    L = ctx.real('L', pos=True)
    u = a.proximal(Q(L, z, 0, 0))
    c = a.conjugate
    w = c.proximal(Q(1. / L, L * z, 0, 0))
    ctx.eq(L * u + w, L * z, 'Moreau decomposition')
    ctx.eq(a.nonsmooth_objective(u, check_feasibility=False) + c.nonsmooth_objective(w, check_feasibility=False),
           dot(u, w), 'Fenchel equality')


def young(ctx, name, mode, n):
    """Fenchel-Young inequality at arbitrary feasible points"""
    a, lam, o, p1 = make(ctx, name, mode, n, True, ('lin', 'vec'))
    c = a.conjugate
    x, y = ctx.vec('x', n), ctx.vec('y', n)
    N = NORMS[name]
    D = NORMS[N.dual]
    if mode == 'lagrange':
        cons = list(N.dom(x - o)) + list(D.le(y - p1[2], lam))
    else:
        cons = list(N.le(x - o, lam)) + list(D.dom(y - p1[2]))
    for d in cons:
        ctx.assume_ge(-d)
    ctx.ge(a.nonsmooth_objective(x) + c.nonsmooth_objective(y), dot(x, y), 'Fenchel-Young')


def involution(ctx, name, mode, n):
    """the conjugate of the conjugate is the original function"""
    import copy
    a, lam, o, p1 = make(ctx, name, mode, n, True, ('lin', 'vec'))
    c = a.conjugate
    cc = c.conjugate
    fresh = copy.copy(c).conjugate
    ctx.eq(cc.nonsmooth_objective(o), a.nonsmooth_objective(o), 'same value at the offset')
    x = ctx.vec('x', n)
    for d in NORMS[name].dom(x - o):
        ctx.assume_ge(-d)
    for b, tag in ((cc, 'cached'), (fresh, 'recomputed')):
        ctx.true(type(b).__name__ == name, tag + ' class')
        ctx.eq(b.nonsmooth_objective(x), a.nonsmooth_objective(x), tag + ' value')
        ctx.eq(getattr(b, mode), lam, tag + ' parameter')
    ctx.true(c.bound is None if mode == 'bound' else c.lagrange is None, 'conjugate swaps the form')


def stale(ctx, name, mode, n):
    """the conjugate reflects parameters changed after it was first computed"""
    a, lam, o, p1 = make(ctx, name, mode, n, True, ('lin', 'vec'))
    c0 = a.conjugate
    lam2 = ctx.real('lam2', nonneg=True)
    setattr(a, mode, lam2)
    c = a.conjugate
    ctx.eq(getattr(c, 'bound' if mode == 'lagrange' else 'lagrange'), lam2, 'parameter of the conjugate')
    o2 = ctx.vec('oo', n)
    a.offset = o2
    c = a.conjugate
    x, y = ctx.vec('x', n), ctx.vec('y', n)
    ctx.eq(c.nonsmooth_objective(x) - c.nonsmooth_objective(x) + dot(c.quadratic.objective(x, 'grad'), y),
           dot(o2, y), 'linear term of the conjugate')


def smoothed(ctx, name, mode, n, off):
    """smoothing replaces the norm by a differentiable function: the value is
    the maximum of the smoothed dual problem and the gradient is the maximiser"""
    from regreg.identity_quadratic import identity_quadratic as Q
    a, lam, o, p1 = make(ctx, name, mode, n, off, None)
    eps = ctx.real('eps', pos=True)
    x = ctx.vec('x', n)
    s = a.smoothed(Q(eps, 0, 0, 0))
    f = s.smooth_objective(x, 'func')
    g = s.smooth_objective(x, 'grad')
    f2, g2 = s.smooth_objective(x, 'both')
    ctx.eq(f, f2, 'value modes agree')
    ctx.eq(g, g2, 'gradient modes agree')
    # g maximises <x,u> - f*(u) - eps/2|u|^2, f*(u) = dual indicator + <o,u>
    N = NORMS[name]
    r = x - o - eps * g
    D = NORMS[N.dual]
    if mode == 'lagrange':
        check_projection(ctx, N.dual, g + r, g, lam, 'maximiser')
        ctx.eq(f, dot(x - o, g) - eps * sq(g) / 2., 'value')
    else:
        check_subgrad(ctx, N.dual, r, g, lam, 'maximiser')
        ctx.eq(f, dot(x - o, g) - lam * D.val(g) - eps * sq(g) / 2., 'value')
    ctx.eq(s.lipschitz * eps, 1, 'lipschitz constant of the gradient')


def smooth_conj(ctx, name, mode, n):
    """conjugate of an atom with a strongly convex quadratic is smooth: its
    gradient is the maximiser and its conjugate is the original atom"""
    from regreg.identity_quadratic import identity_quadratic as Q
    import regreg.atoms.seminorms as S
    lam = ctx.real('lam', nonneg=True)
    c = ctx.real('c', pos=True)
    a = getattr(S, name)((n,), quadratic=Q(c, 0, 0, 0), **{mode: lam})
    x = ctx.vec('x', n)
    s = a.conjugate
    f, g = s.smooth_objective(x, 'both')
    certify(ctx, name, mode, lam, x - c * g, g, 'maximiser')
    ctx.eq(f, dot(x, g) - c * sq(g) / 2. - (lam * NORMS[name].val(g) if mode == 'lagrange' else 0), 'value')
    ctx.true(s.conjugate is a or type(s.conjugate) is type(a), 'double conjugate')
    ctx.eq(s.conjugate.nonsmooth_objective(g), a.nonsmooth_objective(g), 'double conjugate value')


def smoothed_general(ctx, name, mode, n):
    """smoothing with a quadratic that has its own centre, linear term and constant, of a norm that has an offset, a
    linear term and a constant"""
    a, lam, o, p1 = make(ctx, name, mode, n, True, ('lin', 'vec'))
    q, p = mkq(ctx, 'q', ('vec', 'vec'), n)
    x = ctx.vec('x', n)
    for i in range(1, n):                 # one free sign
        ctx.assume_ge(x[i] - o[i] - p[2][i] + p[0] * (p[1][i] - p1[2][i]))
    s = a.smoothed(q)
    f, g = s.smooth_objective(x, 'both')
    D = NORMS[NORMS[name].dual]
    h = g - p1[2]
    r = x - o - qgrad(p, g)
    if mode == 'lagrange':
        check_projection(ctx, NORMS[name].dual, h + r, h, lam, 'maximiser')
        conj = 0
    else:
        check_subgrad(ctx, NORMS[name].dual, r, h, lam, 'maximiser')
        conj = lam * D.val(h)
    ctx.eq(f, dot(x, g) - qval(p, g) - (conj + dot(o, h) - p1[3]), 'value')
    ctx.eq(s.smooth_objective(x, 'func'), f, 'value alone')
    ctx.eq(s.smooth_objective(x, 'grad'), g, 'gradient alone')
    ctx.eq(a.nonsmooth_objective(o), p1[3] + dot(p1[2], o), 'norm unchanged')


def smooth_conj_general(ctx, name, mode, n):
    """conjugate of a norm with an offset and a strongly convex quadratic with centre, linear term and constant"""
    import regreg.atoms.seminorms as S
    lam = ctx.real('lam', nonneg=True)
    o = ctx.vec('o', n)
    q, p = mkq(ctx, 'q', ('vec', 'vec'), n)
    a = getattr(S, name)((n,), offset=o.copy(), quadratic=q, **{mode: lam})
    x = ctx.vec('x', n)
    s = a.conjugate
    f, g = s.smooth_objective(x, 'both')
    certify(ctx, name, mode, lam, x - qgrad(p, g), g - o, 'maximiser')
    ctx.eq(f, dot(x, g) - qval(p, g) - (lam * NORMS[name].val(g - o) if mode == 'lagrange' else 0), 'value')
    ctx.eq(s.conjugate.nonsmooth_objective(g), a.nonsmooth_objective(g), 'double conjugate value')


def smoothed_cone(ctx, name, n):
    """smoothing of a cone: half the squared distance to the cone, shifted and scaled"""
    import regreg.atoms.cones as C
    o = ctx.vec('o', n)
    a = getattr(C, name)((n,), offset=o.copy())
    q, p = mkq(ctx, 'q', ('vec', 'vec'), n)
    x = ctx.vec('x', n)
    s = a.smoothed(q)
    f, g = s.smooth_objective(x, 'both')
    r = x - o - qgrad(p, g)             # residual: in the cone, orthogonal to the maximiser, which is in the polar cone
    for v, k in zip(r, range(n)):
        if name == 'nonnegative':
            ctx.ge(v, 0, 'residual in the cone')
            ctx.le(g[k], 0, 'maximiser in the polar cone')
        elif name == 'nonpositive':
            ctx.le(v, 0, 'residual in the cone')
            ctx.ge(g[k], 0, 'maximiser in the polar cone')
        elif name == 'zero':
            ctx.eq(g[k], 0, 'maximiser in the polar cone')
        else:
            ctx.eq(v, 0, 'residual in the cone')
    ctx.eq(dot(r, g), 0, 'complementarity')
    ctx.eq(f, dot(x - o, g) - qval(p, g), 'value')


def affine_dual(ctx, name):
    """dual of a composition with a linear map: (map, conjugate); smoothing composes with the map"""
    from regreg.identity_quadratic import identity_quadratic as Q
    import regreg.atoms.seminorms as S
    lam = ctx.real('lam', nonneg=True)
    D = ctx.mat('D', 2, 2)
    o = ctx.vec('o', 2)
    a = getattr(S, name).affine(D, o, lagrange=lam)
    x = ctx.vec('x', 2)
    lt, c = a.dual
    ctx.eq(lt.linear_map(x), np.dot(D, x), 'linear map')
    ctx.eq(c.bound, lam, 'bound of the dual')
    w = ctx.vec('w', 2)
    for d in NORMS[NORMS[name].dual].le(w, lam):
        ctx.assume_ge(-d)
    # sup form of the penalty: lam N(Dx+o) >= <Dx, w> - c(w)
    y = np.dot(D, x) + o
    for d in NORMS[name].dom(y):
        ctx.assume_ge(-d)
    ctx.eq(c.nonsmooth_objective(w), -dot(o, w), 'dual value')


def dual_pair(ctx, cls, mode):
    """the dual of a penalty is the identity transform together with its conjugate"""
    import regreg.api as rr
    lam = ctx.real('lam', nonneg=True)
    kw = {mode: lam} if mode else {}
    arg, n = {'group_lasso': ([1, 2, 1], 3), 'group_lasso_dual': ([1, 2, 1], 3),
              'mixed_lasso': ([-1, -2, -4], 3)}.get(cls, ((3,), 3))
    o = ctx.vec('o', n)
    a = getattr(rr, cls)(arg, lam, offset=o) if cls == 'mixed_lasso' else getattr(rr, cls)(arg, offset=o, **kw)
    T, c = a.dual
    x = ctx.vec('x', n)
    for f in (T.linear_map, T.affine_map, T.adjoint_map):
        ctx.eq(f(x), x, 'identity transform')
    ctx.true(tuple(T.input_shape) == (n,) and tuple(T.output_shape) == (n,), 'shapes of the transform')
    d = a.conjugate
    ctx.true(type(c) is type(d), 'class of the conjugate')
    y = ctx.vec('y', n)
    for at in ('lagrange', 'bound'):
        if mode is not None or cls == 'mixed_lasso':
            l1, l2_ = getattr(c, at, None), getattr(d, at, None)
            ctx.true((l1 is None) == (l2_ is None), 'form of the conjugate')
            if l1 is not None:
                ctx.eq(l1, lam, 'level of the conjugate')
    ctx.eq(c.quadratic.objective(y, 'func'), dot(o, y), 'offset becomes a linear term')


def obligations(tier):
    for name in list(NORMS) + ['group_lasso', 'group_lasso_dual']:
        for mode in ('lagrange', 'bound'):
            yield Ob('dual[%s,%s]' % (name, mode), dual_pair, dict(cls=name, mode=mode))
    for name in ('nonnegative', 'nonpositive', 'zero', 'zero_constraint', 'l1_epigraph', 'l1_epigraph_polar', 'linf_epigraph',
                 'linf_epigraph_polar', 'l2_epigraph', 'l2_epigraph_polar'):
        yield Ob('dual[%s]' % name, dual_pair, dict(cls=name, mode=None))
    for name in ('nonnegative', 'nonpositive', 'zero', 'zero_constraint'):
        yield Ob('%s.smoothed' % name, smoothed_cone, dict(name=name, n=2))
    yield Ob('dual[mixed_lasso]', dual_pair, dict(cls='mixed_lasso', mode=None))
    for name in NORMS:
        for mode in ('lagrange', 'bound'):
            yield Ob('%s.%s.moreau[1,offset]' % (name, mode), moreau, dict(name=name, mode=mode, n=1, off=True, lin=True))
            yield Ob('%s.%s.moreau[2]' % (name, mode), moreau, dict(name=name, mode=mode, n=2, off=False, lin=False))
            yield Ob('%s.%s.young' % (name, mode), young, dict(name=name, mode=mode, n=1))
            yield Ob('%s.%s.involution' % (name, mode), involution, dict(name=name, mode=mode, n=2))
            yield Ob('%s.%s.stale' % (name, mode), stale, dict(name=name, mode=mode, n=2))
            yield Ob('%s.%s.smoothed' % (name, mode), smoothed, dict(name=name, mode=mode, n=2, off=False))
            yield Ob('%s.%s.smoothed[1,offset]' % (name, mode), smoothed, dict(name=name, mode=mode, n=1, off=True))
            yield Ob('%s.%s.smooth_conjugate' % (name, mode), smooth_conj, dict(name=name, mode=mode, n=2))
            for n in (1, 2):
                if name == 'l2norm' and n == 2 and tier == 'quick':
                    continue
                yield Ob('%s.%s.smoothed[%d,general]' % (name, mode, n), smoothed_general, dict(name=name, mode=mode, n=n))
                yield Ob('%s.%s.smooth_conjugate[%d,general]' % (name, mode, n), smooth_conj_general, dict(name=name, mode=mode, n=n))
            if tier == 'thorough':
                yield Ob('%s.%s.moreau[2,offset]' % (name, mode), moreau, dict(name=name, mode=mode, n=2, off=True, lin=True))
                yield Ob('%s.%s.young[2]' % (name, mode), young, dict(name=name, mode=mode, n=2))
                yield Ob('%s.%s.smoothed[2,offset]' % (name, mode), smoothed, dict(name=name, mode=mode, n=2, off=True))
        yield Ob('%s.affine_dual' % name, affine_dual, dict(name=name))
