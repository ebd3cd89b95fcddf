"""cone atoms and linear-subspace constraints"""
from .common import *
from .P12 import mkq, qval, qgrad
from .P05 import np as _np

BOUNDS = 'dimension 2..3 (epigraphs: 1 or 2 coefficients plus the height); thorough adds 3 coefficients; 13 and 121 with one free coordinate'


def _abs1(x):
    return total([absv(v) for v in x])


def _up(x):
    return maxv([absv(v) for v in x])


CONES = {
    'nonnegative': (lambda x: [-v for v in x], 'nonpositive'),
    'nonpositive': (lambda x: list(x), 'nonnegative'),
    'zero': (lambda x: [], 'zero_constraint'),
    'zero_constraint': (lambda x: list(x) + [-v for v in x], 'zero'),
    'l1_epigraph': (lambda x: [_abs1(x[:-1]) - x[-1]], 'l1_epigraph_polar'),
    'l1_epigraph_polar': (lambda x: [v + x[-1] for v in x[:-1]] + [-v + x[-1] for v in x[:-1]], 'l1_epigraph'),
    'linf_epigraph': (lambda x: [v - x[-1] for v in x[:-1]] + [-v - x[-1] for v in x[:-1]], 'linf_epigraph_polar'),
    'linf_epigraph_polar': (lambda x: [_abs1(x[:-1]) + x[-1]], 'linf_epigraph'),
    'l2_epigraph': (lambda x: [-x[-1], sq(x[:-1]) - x[-1] * x[-1]], 'l2_epigraph_polar'),
    'l2_epigraph_polar': (lambda x: [x[-1], sq(x[:-1]) - x[-1] * x[-1]], 'l2_epigraph'),
}


def cone_certificate(ctx, name, x, u, label):
    mem, pol = CONES[name]
    r = x - u
    le0(ctx, mem(u), label + ': in the cone')
    le0(ctx, CONES[pol][0](r), label + ': residual in the polar cone')
    ctx.eq(dot(r, u), 0, label + ': orthogonal')


def project(ctx, name, n):
    import regreg.atoms.cones as C
    x = ctx.vec('x', n)
    x0 = x.copy()
    a = getattr(C, name)((n,))
    u = a.cone_prox(x)
    ctx.eq(x, x0, 'argument not modified')
    cone_certificate(ctx, name, x, u, name)


def abstract(ctx, a, n):
    if not ctx.symbolic:
        return None
    log = []

    def cone_prox(arg, **kw):
        u = ctx.vec('u%d_' % len(log), n)
        log.append((arg.copy(), u.copy()))
        return u
    a.cone_prox = cone_prox
    return log


def prox(ctx, name, n, off, aq, pq, via):
    """offset and quadratic are folded into one projection"""
    import regreg.atoms.cones as C
    import copy
    o = ctx.vec('o', n) if off else None
    o0 = o.copy() if off else ctx.zeros(n)
    q1, p1 = mkq(ctx, 'a', aq, n, 'nonneg') if aq else (None, (0, ctx.zeros(n), ctx.zeros(n), 0))
    a = getattr(C, name)((n,), offset=o, quadratic=q1)
    if via == 'copy':
        a = copy.copy(a)
    q2, p2 = mkq(ctx, 'q', pq, n)
    log = abstract(ctx, a, n)
    if via == 'solve':
        v, u = a.solve(q2, return_optimum=True)
        ctx.eq(v, qval(p1, u) + qval(p2, u), 'optimal value')
    else:
        u = a.proximal(q2)
    g = -(qgrad(p1, u) + qgrad(p2, u))
    c = p1[0] + p2[0]
    if log is None:
        cone_certificate(ctx, name, (u - o0) + g, u - o0, name)
    else:
        arg, w = log[-1]
        ctx.eq(w, u - o0, 'solution is the projected point')
        ctx.eq(c * (arg - w), g, 'optimality condition')


def conj(ctx, name, n, off):
    """conjugate is the polar cone with offset and linear term exchanged"""
    import regreg.atoms.cones as C
    from regreg.identity_quadratic import identity_quadratic as Q
    o = ctx.vec('o', n) if off else None
    o0 = o.copy() if off else ctx.zeros(n)
    l = ctx.vec('l', n)
    k = ctx.real('k')
    a = getattr(C, name)((n,), offset=o, quadratic=Q(0, 0, l, k))
    c = a.conjugate
    pol = CONES[name][1]
    ctx.true(type(c).__name__ == pol, 'polar cone')
    w = ctx.vec('w', n)
    for d in CONES[pol][0](w - l):
        ctx.assume_ge(-d)
    ctx.eq(c.nonsmooth_objective(w, check_feasibility=True), dot(w - l, o0) - k, 'conjugate value')
    cc = c.conjugate
    x = ctx.vec('x', n)
    ctx.true(type(cc).__name__ == name, 'double conjugate class')
    ctx.eq(cc.nonsmooth_objective(x), a.nonsmooth_objective(x), 'double conjugate value')
    ctx.eq(cc.apply_offset(x), a.apply_offset(x), 'double conjugate offset')


def moreau(ctx, name, n):
    import regreg.atoms.cones as C
    from regreg.identity_quadratic import identity_quadratic as Q
    z = ctx.vec('z', n)
    a = getattr(C, name)((n,))
    u = a.proximal(Q(1., z, 0, 0))
    w = a.conjugate.proximal(Q(1., z, 0, 0))
    ctx.eq(u + w, z, 'Moreau decomposition')
    ctx.eq(dot(u, w), 0, 'orthogonal parts')


def membership(ctx, name, n):
    """constraint(x): 0 in the cone, infinite clearly outside"""
    import regreg.atoms.cones as C
    a = getattr(C, name)((n,))
    x = ctx.vec('x', n)
    v = a.nonsmooth_objective(x, check_feasibility=True)
    ctx.eq(a.nonsmooth_objective(x), 0, 'no check')
    if name == 'zero':
        ctx.eq(v, 0, 'everything is feasible')
        return
    mem = CONES[name][0]
    if all(d <= 0 for d in mem(x)):
        ctx.eq(v, 0, 'feasible')
    elif all(t <= 1 for t in x) and all(t >= -1 for t in x) and any(d > 1e-3 for d in mem(x)):
        ctx.eq(v, np.inf, 'infeasible')


def smoothed(ctx, name, n):
    from regreg.identity_quadratic import identity_quadratic as Q
    import regreg.atoms.cones as C
    a = getattr(C, name)((n,))
    eps = ctx.real('eps', pos=True)
    x = ctx.vec('x', n)
    s = a.smoothed(Q(eps, 0, 0, 0))
    f, g = s.smooth_objective(x, 'both')
    cone_certificate(ctx, CONES[name][1], x / eps, g, 'maximiser')
    ctx.eq(f, dot(x, g) - eps * sq(g) / 2., 'value')


def affine(ctx, name, ctor):
    import regreg.atoms.cones as C
    cls = getattr(C, name)
    D, o, x = ctx.mat('D', 2, 3), ctx.vec('o', 2), ctx.vec('x', 3)
    if name in ('zero_constraint', 'l2_epigraph', 'l2_epigraph_polar'):
        D = ctx.arr([[1., 2., -1.], [0., 1., 3.]])
    a = cls.linear(D) if ctor == 'linear' else cls.affine(D, o)
    y = np.dot(D, x) + (o if ctor == 'affine' else 0)
    v = a.nonsmooth_objective(x, check_feasibility=True)
    mem = CONES[name][0]
    if all(d <= 0 for d in mem(y)):
        ctx.eq(v, 0, 'feasible')
    elif all(t <= 1 for t in y) and all(t >= -1 for t in y) and any(d > 1e-3 for d in mem(y)):
        ctx.eq(v, np.inf, 'infeasible')
    lt, c = a.dual
    ctx.eq(lt.linear_map(x), np.dot(D, x), 'dual linear map')
    ctx.true(type(c).__name__ == CONES[name][1], 'dual cone')
    w = ctx.vec('w', 2)
    for d in CONES[CONES[name][1]][0](w):
        ctx.assume_ge(-d)
    ctx.eq(c.nonsmooth_objective(w), -dot(o, w) if ctor == 'affine' else 0, 'dual value')


# ------------------------------------------------------- linear subspaces

def basis(ctx, n, k):
    B = ctx.mat('B', k, n)
    for i in range(k):
        for j in range(i + 1):
            d = dot(B[i], B[j])
            ctx.assume_ge(d - (1 if i == j else 0))
            ctx.assume_ge((1 if i == j else 0) - d)
    return B


def rational_basis(ctx, n, k):
    """orthonormal rows: rational rotations with a symbolic parameter"""
    t = ctx.real('t')
    den = 1 + t * t
    c, s = (1 - t * t) / den, 2 * t / den
    rows = [[c, s] + [0] * (n - 2), [-s, c] + [0] * (n - 2)]
    B = np.array(rows[:k], object if ctx.symbolic else float)
    return ctx.arr(B) if ctx.symbolic else B


def subspace(ctx, name, n, k, off):
    import regreg.atoms.linear_constraints as C
    import copy
    B = rational_basis(ctx, n, k)
    o = ctx.vec('o', n) if off else None
    o0 = o.copy() if off else ctx.zeros(n)
    a = getattr(C, name)((n,), B, offset=o)
    q, p = mkq(ctx, 'q', ('vec', 'vec'), n)
    u = a.proximal(q)
    v, r = u - o0, qgrad(p, u)
    span, orth = (v, r) if name == 'projection' else (r, v)
    # span is in the row space, orth is orthogonal to it
    ctx.eq(np.dot(B, orth), ctx.zeros(k), 'orthogonal part')
    ctx.eq(np.dot(np.dot(B, span), B), span, 'part in the span')
    b = copy.copy(a)
    ctx.eq(b.proximal(q), u, 'copy')
    ctx.eq(a.nonsmooth_objective(u, check_feasibility=True), 0, 'projection is feasible')


def subspace_conj(ctx, name, n, k):
    import regreg.atoms.linear_constraints as C
    from regreg.identity_quadratic import identity_quadratic as Q
    B = rational_basis(ctx, n, k)
    o, l, z = ctx.vec('o', n), ctx.vec('l', n), ctx.vec('z', n)
    a = getattr(C, name)((n,), B, offset=o, quadratic=Q(0, 0, l, 0))
    c = a.conjugate
    ctx.true(type(c).__name__ == {'projection': 'projection_complement',
                                  'projection_complement': 'projection'}[name], 'polar subspace')
    u = a.proximal(Q(1., z, 0, 0))
    w = c.proximal(Q(1., z, 0, 0))
    ctx.eq(u + w, z, 'Moreau decomposition')
    ctx.eq(a.nonsmooth_objective(u) + c.nonsmooth_objective(w), dot(u, w), 'Fenchel equality')
    s = getattr(C, name)((n,), B, quadratic=Q(1., 0, 0, 0)).conjugate
    f, g = s.smooth_objective(z, 'both')
    ctx.eq(f, sq(g) / 2., 'smooth conjugate value')


def subspace_linear(ctx, name):
    import regreg.atoms.linear_constraints as C
    B = rational_basis(ctx, 2, 1)
    D, o, x = ctx.mat('D', 2, 3), ctx.vec('o', 2), ctx.vec('x', 3)
    a = getattr(C, name).linear(D, B, offset=o)
    y = np.dot(D, x) + o
    ctx.eq(a.linear_transform.linear_map(x), np.dot(D, x), 'linear map')
    ctx.eq(a.atom.apply_offset(np.dot(D, x)), y, 'offset')
    ctx.eq(a.nonsmooth_objective(x), 0, 'value')


def height(ctx, name, n):
    """a long point, one coefficient and the height free"""
    class H(Wide):
        def vec(self, nm, k, **kw):
            x = Wide.vec(self, nm, k, **kw)
            x[-1] = self._ctx.real('h', lo=-128, hi=128)
            return x
    project(H(ctx, data={'x': [3., 4., 0., -12., 84., 0.][:n - 1] + [0.]} if n < 8 else None, free=('x',) if n > 8 else ()), name, n)


def obligations(tier):
    V = ('vec', 'vec')
    for name in CONES:
        epi = 'epigraph' in name
        for n in (13, 121) if 'l2' not in name else (6,):
            yield Ob('%s.project[%d]' % (name, n), height if epi else wide, dict(name=name, n=n) if epi else dict(fn=project, name=name, n=n))
    for name in CONES:
        epi = 'epigraph' in name
        dims = [2, 3] if epi else [1, 3]
        if tier == 'thorough':
            dims.append(4)
        for n in dims:
            yield Ob('%s.project[%d]' % (name, n), project, dict(name=name, n=n))
            if n < 4:
                yield Ob('%s.membership[%d]' % (name, n), membership, dict(name=name, n=n))
        for off in (False, True):
            for aq, pq, tag in [(None, ('vec', 'none'), 'plain'), (V, V, 'full'), (('none', 'vec'), ('zero', 'vec'), 'lin')]:
                for via in ('proximal', 'solve', 'copy'):
                    if via == 'proximal' or (off and tag == 'full'):
                        yield Ob('%s.%s[%s,%s]' % (name, via, 'offset' if off else '-', tag), prox,
                                 dict(name=name, n=3 if epi else 2, off=off, aq=aq, pq=pq, via=via))
            yield Ob('%s.conjugate[%s]' % (name, off), conj, dict(name=name, n=3 if epi else 2, off=off))
        yield Ob('%s.moreau' % name, moreau, dict(name=name, n=3 if name != 'l2_epigraph' else 3))
        yield Ob('%s.smoothed' % name, smoothed, dict(name=name, n=2))
        for c in ('linear', 'affine'):
            yield Ob('%s.%s' % (name, c), affine, dict(name=name, ctor=c))
    for name in ('projection', 'projection_complement'):
        for n, k in ([(2, 1), (3, 2)] if tier == 'quick' else [(2, 1), (3, 1), (3, 2)]):
            for off in (False, True):
                yield Ob('%s[%d,%d,%s]' % (name, n, k, off), subspace, dict(name=name, n=n, k=k, off=off))
            yield Ob('%s.conjugate[%d,%d]' % (name, n, k), subspace_conj, dict(name=name, n=n, k=k))
        yield Ob('%s.linear' % name, subspace_linear, dict(name=name))
