"""full proximal / solve of seminorm atoms with offset and quadratic"""
from .common import *
from .P12 import mkq, qval, qgrad

BOUNDS = 'dimension 2 (3 for selected configurations); offset, centre, linear term, coefficients, lagrange/bound symbolic'


def make(ctx, name, mode, n, off, aq, **kw):
    import regreg.atoms.seminorms as S
    lam = ctx.real('lam', nonneg=True)
    o = ctx.vec('o', n) if off else None
    q, p = mkq(ctx, 'a', aq, n, 'nonneg' if aq[0] != 'lin' else 0) if aq else (None, (0, ctx.zeros(n), ctx.zeros(n), 0))
    o0 = o.copy() if off else ctx.zeros(n)
    a = getattr(S, name)((n,), offset=o, quadratic=q, **{mode: lam})
    return a, lam, o0, p


def abstract_prox(ctx, a, n):
    """Replace the norm's own proximal map (decided separately, exactly) by an
    arbitrary point u together with its optimality contract; in a replay the
    real map is used.  Returns the log of (argument, lipschitz, parameter, u)."""
    if not ctx.symbolic:
        return None
    log = []

    def fresh():
        u = ctx.vec('u%d_' % len(log), n)
        for d in NORMS[type(a).__name__].dom(u):        # part of the contract
            ctx.assume_ge(-d)
        return u

    def lagrange_prox(arg, lipschitz=1, lagrange=None):
        if lagrange is None:
            lagrange = a.lagrange
        ctx.true(lagrange is not None, 'lagrange form')
        u = fresh()
        log.append((arg.copy(), lipschitz, lagrange, u.copy(), 'lagrange'))
        return u

    def bound_prox(arg, bound=None):
        if bound is None:
            bound = a.bound
        ctx.true(bound is not None, 'bound form')
        u = fresh()
        log.append((arg.copy(), 1, bound, u.copy(), 'bound'))
        return u
    a.lagrange_prox = lagrange_prox
    a.bound_prox = bound_prox
    return log


def certify_abs(ctx, log, name, mode, lam, g, v, label, ctot):
    """the optimality condition of the full problem follows from the contract
    of the last abstract proximal map"""
    if log is None:
        return certify(ctx, name, mode, lam, g, v, label)
    arg, L, par, u, kind = log[-1]
    ctx.eq(u, v, label + ': solution is the proximal point')
    ctx.true(kind == mode, label + ': the right form of proximal map')
    ctx.eq(par, lam, label + ': parameter')
    if mode == 'lagrange':
        ctx.eq(L * (arg - u), g, label + ': same optimality condition')
    else:
        ctx.eq(ctot * (arg - u), g, label + ': same optimality condition')


def certify(ctx, name, mode, lam, g, v, label, known=None):
    if mode == 'lagrange':
        check_subgrad(ctx, name, g, v, lam, label, known)
    else:
        check_projection(ctx, name, v + g, v, lam, label, known)


def prox(ctx, name, mode, n, off, aq, pq, via='proximal', abstract=True):
    a, lam, o, p1 = make(ctx, name, mode, n, off, aq)
    q, p2 = mkq(ctx, 'q', pq, n)
    x = ctx.vec('x', n)
    log = abstract_prox(ctx, a, n) if abstract else None
    if via == 'proximal':
        u = a.proximal(q)
    elif via == 'step':
        u = a.proximal_step(q)
    elif via == 'solve':
        u = a.solve(q)
        ctx.eq(a.coefs, u, 'solution stored')
    elif via == 'optimum':
        v, u = a.solve(q, return_optimum=True)
        h = lam * NORMS[name].val(u - o) if mode == 'lagrange' else 0
        if not abstract or not ctx.symbolic or mode == 'bound':
            ctx.eq(v, h + qval(p1, u) + qval(p2, u), 'optimal value')
        else:
            ctx.eq(v, a.nonsmooth_objective(u) + qval(p2, u), 'optimal value')
    g = -(qgrad(p1, u) + qgrad(p2, u))
    certify_abs(ctx, log, name, mode, lam, g, u - o, '%s %s' % (name, mode), p1[0] + p2[0])
    ctx.eq(q.objective(x, 'func'), qval(p2, x), 'argument unchanged')
    ctx.eq(a.apply_offset(x), x - o, 'offset unchanged')
    if log is not None:
        return
    # a second call does not disturb the first answer and agrees with it
    u0 = u.copy()
    u1 = a.proximal(q)
    ctx.eq(u1, u0, 'repeatable')
    from regreg.identity_quadratic import identity_quadratic as Q
    a.proximal(Q(1., ctx.zeros(n), 0, 0))
    ctx.eq(u, u0, 'earlier result untouched')


def proximal_optimum(ctx, name, mode, n):
    a, lam, o, p1 = make(ctx, name, mode, n, True, ('vec', 'vec'))
    q, p2 = mkq(ctx, 'q', ('vec', 'vec'), n)
    abstract_prox(ctx, a, n)
    u, v = a.proximal_optimum(q)
    h = lam * NORMS[name].val(u - o) if mode == 'lagrange' else 0
    ctx.eq(v, h + qval(p1, u) + qval(p2, u), 'optimal value')


def choice(ctx):
    return ctx.choice('clear', [None, 0])


def set_parameters(ctx, name, mode, n):
    """changing offset / quadratic / multiplier later has the same effect as constructing with them"""
    import regreg.atoms.seminorms as S
    lam = ctx.real('lam', nonneg=True)
    a = getattr(S, name)((n,), **{mode: 0.25})
    o = ctx.vec('o', n)
    if mode == 'lagrange':
        a.lagrange = lam
    else:
        a.bound = lam
    a.offset = o
    q, p1 = mkq(ctx, 'a', ('vec', 'vec'), n, 'nonneg')
    a.quadratic = q
    q, p2 = mkq(ctx, 'q', ('vec', 'vec'), n)
    import copy
    b = copy.copy(a)
    log = abstract_prox(ctx, a, n)
    u = a.proximal(q)
    certify_abs(ctx, log, name, mode, lam, -(qgrad(p1, u) + qgrad(p2, u)), u - o, 'after setters', p1[0] + p2[0])
    log2 = abstract_prox(ctx, b, n)
    u = b.proximal(q)
    certify_abs(ctx, log2, name, mode, lam, -(qgrad(p1, u) + qgrad(p2, u)), u - o, 'copy', p1[0] + p2[0])
    a.offset = choice(ctx)
    a.quadratic = None or __import__('regreg.identity_quadratic').identity_quadratic.identity_quadratic(0, 0, 0, 0)
    w = a.proximal(q)
    certify_abs(ctx, log, name, mode, lam, -qgrad(p2, w), w, 'after clearing', p2[0])


def setter_modes(ctx, name):
    """an atom is in exactly one of the two forms"""
    import regreg.atoms.seminorms as S
    cls = getattr(S, name)
    lam = ctx.real('lam')
    for kw in ({}, dict(lagrange=1., bound=1.)):
        try:
            cls((2,), **kw)
        except ValueError:
            pass
        else:
            ctx.true(False, 'invalid form rejected %s' % sorted(kw))
    for k in ('lagrange', 'bound'):
        try:
            a = cls((2,), **{k: lam})
        except ValueError:
            ctx.true(bool(lam < 0), 'only negative parameters are rejected')
        else:
            ctx.ge(lam, 0, 'negative parameter rejected')
            ctx.eq(getattr(a, k), lam, 'parameter kept')
            other = 'bound' if k == 'lagrange' else 'lagrange'
            ctx.true(getattr(a, other) is None, 'other form unset')
            try:
                setattr(a, other, 1.)
            except AttributeError:
                pass
            else:
                ctx.true(False, 'switching form rejected')


def affine(ctx, name, mode, ctor):
    """affine compositions evaluate the norm of the transformed argument"""
    import regreg.atoms.seminorms as S
    lam = ctx.real('lam', nonneg=True)
    D = ctx.mat('D', 2, 3)
    D0 = D.copy()
    o = ctx.vec('o', 2)
    x = ctx.vec('x', 3)
    cls = getattr(S, name)
    if ctor == 'linear':
        a = cls.linear(D, lagrange=lam)
        y = np.dot(D, x)
    elif ctor == 'affine':
        a = cls.affine(D, o, lagrange=lam)
        y = np.dot(D, x) + o
    elif ctor == 'shift':
        a = cls.shift(o, lagrange=lam)
        x = ctx.vec('x', 2)
        y = x + o
    for d in NORMS[name].dom(y):
        ctx.assume_ge(-d)
    v = a.nonsmooth_objective(x)
    ctx.eq(v, lam * NORMS[name].val(y), '%s %s value' % (name, ctor))
    ctx.eq(D, D0, 'matrix unchanged')


def positive_part_lagrange(ctx, n, off, aq):
    """sum of positive parts built from the l1 norm"""
    import regreg.atoms.seminorms as S
    lam = ctx.real('lam', nonneg=True)
    q1, p1 = mkq(ctx, 'a', aq, n, 'nonneg') if aq else (None, (0, ctx.zeros(n), ctx.zeros(n), 0))
    a = S.positive_part_lagrange((n,), lam, quadratic=q1)
    q, p2 = mkq(ctx, 'q', ('vec', 'vec'), n)
    u = a.proximal(q)
    certify(ctx, 'positive_part', 'lagrange', lam, -(qgrad(p1, u) + qgrad(p2, u)), u, 'positive part')
    x = ctx.vec('x', n)
    ctx.eq(a.nonsmooth_objective(x), lam * NORMS['positive_part'].val(x) + qval(p1, x), 'value')


def pair(ctx, name, mode):
    """the two numbers offered as an optimality check agree and are those of the plain proximal problem"""
    import regreg.atoms.seminorms as S
    lam = ctx.real('lam', lo=.25, hi=4)
    a, b = getattr(S, name)((2,), **{mode: lam}), None
    z = ctx.vec('z', 2)
    for t in z:
        ctx.assume_ge(16 - t)
        ctx.assume_ge(t + 16)
    if name == 'l2norm':                      # one direction: the roots are multiples of each other
        z = z[0] * ctx.arr(np.array([3., -4.]))
    z0 = z.copy()
    u = a.lagrange_prox(z) if mode == 'lagrange' else a.bound_prox(z)
    o = ctx.arr(np.array([.5, -2.]))
    q, p1 = mkq(ctx, 'a', ('vec', 'vec'), 2, 'nonneg')
    b = getattr(S, name)((2,), offset=o, quadratic=q, **{mode: lam})
    v1, v2 = b.check_subgradient(b, z)
    ctx.eq(v1 * lam, dot(z - u, u), 'first number')
    ctx.eq(v1, v2, 'the numbers agree')
    if mode == 'lagrange':
        ctx.eq(v2, NORMS[name].val(u), 'second number')
    ctx.eq(z, z0, 'point not modified')
    x = ctx.arr(np.array([1., 3.]))
    ctx.eq(b.apply_offset(x), x - o, 'offset kept')
    ctx.eq(b.quadratic.objective(x, 'func'), qval(p1, x), 'quadratic kept')


def cone_pair(ctx, name):
    import regreg.atoms.cones as C
    cls = getattr(C, name)
    z = ctx.vec('z', 2)
    for t in z:
        ctx.assume_ge(16 - t)
        ctx.assume_ge(t + 16)
    z0 = z.copy()
    o = ctx.arr(np.array([.5, -2.]))
    q, p1 = mkq(ctx, 'a', ('vec', 'vec'), 2, 'nonneg')
    b = cls((2,), offset=o, quadratic=q)
    v1, v2 = b.check_subgradient(b, z)
    ctx.eq(v1, 0, 'residual orthogonal to the projection')
    ctx.eq(v2, 0, 'second number')
    ctx.eq(z, z0, 'point not modified')
    x = ctx.arr(np.array([1., 3.]))
    ctx.eq(b.apply_offset(x), x - o, 'offset kept')
    ctx.eq(b.quadratic.objective(x, 'func'), qval(p1, x), 'quadratic kept')


def obligations(tier):
    for name in NORMS:
        for mode in ('lagrange', 'bound'):
            yield Ob('%s.%s.optimality pair' % (name, mode), pair, dict(name=name, mode=mode))
    for name in ('nonnegative', 'nonpositive', 'zero', 'zero_constraint', 'l1_epigraph', 'l1_epigraph_polar', 'linf_epigraph', 'linf_epigraph_polar', 'l2_epigraph', 'l2_epigraph_polar'):
        yield Ob('%s.optimality pair' % name, cone_pair, dict(name=name))
    V = ('vec', 'vec')
    for name in NORMS:
        for mode in ('lagrange', 'bound'):
            for off in (False, True):
                for aq, pq, tag in [(None, ('vec', 'none'), 'plain'), (V, V, 'full'), (('none', 'vec'), ('vec', 'none'), 'mix'),
                                    (('zero', 'vec'), ('zero', 'vec'), 'lin'), (None, ('zero', 'zero'), 'zero')]:
                    if tag == 'zero' and not off:
                        continue
                    yield Ob('%s.%s.prox[%s,%s]' % (name, mode, 'offset' if off else '-', tag), prox,
                             dict(name=name, mode=mode, n=2, off=off, aq=aq, pq=pq))
            for via in ('step', 'solve', 'optimum'):
                yield Ob('%s.%s.%s' % (name, mode, via), prox,
                         dict(name=name, mode=mode, n=2, off=True, aq=V, pq=V, via=via))
            yield Ob('%s.%s.end-to-end' % (name, mode), prox,
                     dict(name=name, mode=mode, n=2, off=False, aq=None, pq=('vec', 'none'), abstract=False))
            yield Ob('%s.%s.end-to-end[offset]' % (name, mode), prox,
                     dict(name=name, mode=mode, n=1, off=True, aq=('zero', 'none'), pq=('vec', 'vec'), abstract=False))
            yield Ob('%s.%s.setters' % (name, mode), set_parameters, dict(name=name, mode=mode, n=2))
            yield Ob('%s.%s.proximal_optimum' % (name, mode), proximal_optimum, dict(name=name, mode=mode, n=2))
        yield Ob('%s.forms' % name, setter_modes, dict(name=name))
        for c in ('linear', 'affine', 'shift'):
            yield Ob('%s.%s' % (name, c), affine, dict(name=name, mode='lagrange', ctor=c))
    for aq in (None, ('zero', 'vec')):
        yield Ob('positive_part_lagrange[%s]' % ('full' if aq else 'plain'), positive_part_lagrange,
                 dict(n=2, off=False, aq=aq))
    if tier == 'thorough':
        for name in NORMS:
            for mode in ('lagrange', 'bound'):
                yield Ob('%s.%s.prox[3]' % (name, mode), prox,
                         dict(name=name, mode=mode, n=3, off=True, aq=V, pq=V))
                yield Ob('%s.%s.end-to-end[2,offset]' % (name, mode), prox,
                         dict(name=name, mode=mode, n=2, off=True, aq=('zero', 'none'), pq=('vec', 'vec'),
                              abstract=False))
