"""algebra of the special quadratic functions"""
from .common import *

BOUNDS = 'dimension 2 (quick) and 3 (thorough); every combination of absent / scalar / vector centre and linear term'


def mkq(ctx, tag, kind, n, coef='pos', const=True):
    """identity_quadratic and its (coef, center, linear, const) as plain values"""
    from regreg.identity_quadratic import identity_quadratic as Q
    ck, lk = kind
    c = ctx.real('c' + tag, pos=True) if coef == 'pos' else (
        ctx.real('c' + tag, nonneg=True) if coef == 'nonneg' else (ctx.real('c' + tag) if coef == 'any' else coef))
    ctr = {'none': None, 'zero': 0, 'vec': None, 'scalar': None, 'lin': None}[ck]
    cv = ctx.zeros(n)
    if ck == 'vec':
        ctr = ctx.vec('m' + tag, n)
        cv = ctr.copy()
    lin = {'none': None, 'zero': 0, 'vec': None}[lk]
    lv = ctx.zeros(n)
    if lk == 'vec':
        lin = ctx.vec('l' + tag, n)
        lv = lin.copy()
    k = ctx.real('k' + tag) if const else 0
    q = Q(c, ctr, lin, k)
    return q, (c if c is not None else 0, cv, lv, k)


def qval(p, x):
    c, m, l, k = p
    return c * sq(x - m) / 2. + dot(l, x) + k


def qgrad(p, x):
    c, m, l, k = p
    return c * (x - m) + l


KINDS = [(a, b) for a in ('none', 'zero', 'vec') for b in ('none', 'zero', 'vec')]


def value(ctx, kind, n):
    q, p = mkq(ctx, '1', kind, n)
    x = ctx.vec('x', n)
    ctx.eq(q.objective(x, 'func'), qval(p, x), 'value')
    ctx.eq(q.objective(x, 'grad'), qgrad(p, x), 'gradient')
    v, g = q.objective(x, 'both')
    ctx.eq(v, qval(p, x), 'value (both)')
    ctx.eq(g, qgrad(p, x), 'gradient (both)')
    v, g = q.objective(x)
    ctx.eq(v, qval(p, x), 'value (default)')


def add(ctx, k1, k2, n):
    q1, p1 = mkq(ctx, '1', k1, n, 'any')
    q2, p2 = mkq(ctx, '2', k2, n, 'any')
    x = ctx.vec('x', n)
    s = q1 + q2
    ctx.eq(s.objective(x, 'func'), qval(p1, x) + qval(p2, x), 'sum value')
    ctx.eq(s.objective(x, 'grad'), qgrad(p1, x) + qgrad(p2, x), 'sum gradient')
    ctx.eq(q1.objective(x, 'func'), qval(p1, x), 'left operand unchanged')
    ctx.eq(q2.objective(x, 'func'), qval(p2, x), 'right operand unchanged')
    t = q1 + None
    ctx.eq(t.objective(x, 'func'), qval(p1, x), 'adding None')
    ctx.eq((q1 + q2 + q1).objective(x, 'func'), 2 * qval(p1, x) + qval(p2, x), 'three terms')


def collapsed(ctx, kind, n):
    q, p = mkq(ctx, '1', kind, n, 'any')
    x = ctx.vec('x', n)
    c = q.collapsed()
    ctx.eq(c.objective(x, 'func'), qval(p, x), 'collapsed value')
    ctx.true(c.center is None or not np.shape(c.center), 'collapsed has no centre')
    ctx.eq(q.objective(x, 'func'), qval(p, x), 'original unchanged')
    import copy
    d = copy.copy(q)
    ctx.eq(d.objective(x, 'func'), qval(p, x), 'copy value')
    if d.linear_term is not None and np.shape(d.linear_term):
        d.linear_term += 1.
    if d.center is not None and np.shape(d.center):
        d.center += 1.
    d.coef = d.coef + 1
    ctx.eq(q.objective(x, 'func'), qval(p, x), 'copy is independent')


def zeroify(ctx, kind, n):
    q, p = mkq(ctx, '1', kind, n, 'any')
    x = ctx.vec('x', n)
    q.zeroify()
    ctx.eq(q.objective(x, 'func'), qval(p, x), 'zeroify value')
    q.noneify()
    ctx.eq(q.objective(x, 'func'), qval(p, x), 'noneify value')
    ctx.eq(q.objective(x, 'grad'), qgrad(p, x), 'noneify gradient')


def recenter(ctx, kind, n, off):
    q, p = mkq(ctx, '1', kind, n, 'any')
    x = ctx.vec('x', n)
    o = ctx.vec('o', n) if off == 'vec' else None
    o0 = o.copy() if o is not None else ctx.zeros(n)
    out, r = q.recenter(o)
    ov = out if out is not None else ctx.zeros(n)
    ctx.eq(ov, o0, 'offset')
    ctx.eq(r.objective(x, 'grad'), qgrad(p, x + o0), 'gradient at the shifted point')
    ctx.eq(r.objective(x, 'func') - r.objective(0 * x, 'func'), qval(p, x + o0) - qval(p, o0), 'value differences')
    ctx.eq(q.objective(x, 'func'), qval(p, x), 'original unchanged')
    if o is not None:
        ctx.eq(o, o0, 'offset not modified')


def getitem(ctx, kind, n):
    q, p = mkq(ctx, '1', kind, n, 'any')
    x = ctx.vec('x', n)
    a, b = q[slice(0, 1)], q[slice(1, n)]
    ctx.eq(a.objective(x[:1], 'func') + b.objective(x[1:], 'func') + p[3], qval(p, x), 'slices add up')
    ctx.eq(np.asarray(b.objective(x[1:], 'grad')), qgrad(p, x)[1:], 'slice gradient')


def conjugate(ctx, kind, n):
    q, p = mkq(ctx, '1', kind, n)
    x, w = ctx.vec('x', n), ctx.vec('w', n)
    y = qgrad(p, x)
    c = q.conjugate
    ctx.eq(c.objective(y, 'func') + qval(p, x), dot(x, y), 'Fenchel equality at the gradient')
    ctx.eq(c.objective(y, 'grad'), x, 'conjugate gradient inverts the gradient')
    ctx.ge(c.objective(w, 'func') + qval(p, x), dot(x, w), 'Fenchel inequality')
    ctx.eq(c.conjugate.objective(x, 'func'), qval(p, x), 'double conjugate')


def conjugate_linear(ctx, n):
    q, p = mkq(ctx, '1', ('zero', 'vec'), n, 0)
    c = q.conjugate
    z = ctx.vec('z', n)
    from regreg.identity_quadratic import identity_quadratic as Q
    ctx.eq(c.proximal(Q(1, z, 0, 0)), p[2], 'domain of the conjugate of a linear function')
    ctx.eq(c.nonsmooth_objective(p[2], check_feasibility=True), -p[3], 'value of the conjugate of a linear function')


def truecenter(ctx, kind, n):
    q, p = mkq(ctx, '1', kind, n)
    t = q.true_center
    ctx.eq(qgrad(p, t + ctx.zeros(n)), ctx.zeros(n), 'stationary at the true centre')
    q0, p0 = mkq(ctx, '2', kind, n, 0)
    ctx.true(q0.true_center is None, 'no centre when the coefficient is zero')


def iszero(ctx, kind, n):
    q, p = mkq(ctx, '1', kind, n, 'any')
    z = bool(q.iszero)
    if z:
        x = ctx.vec('x', n)
        ctx.eq(qval(p, x), 0, 'iszero means zero')
    c = p[0]
    if c == 0:
        if all(v == 0 for v in p[1]) and all(v == 0 for v in p[2]) and p[3] == 0:
            ctx.true(z, 'zero is recognised')


def obligations(tier):
    n = 2 if tier == 'quick' else 3
    for k in KINDS:
        s = '[%s,%s]' % k
        yield Ob('value' + s, value, dict(kind=k, n=n))
        yield Ob('collapsed' + s, collapsed, dict(kind=k, n=n))
        yield Ob('zeroify' + s, zeroify, dict(kind=k, n=n))
        yield Ob('getitem' + s, getitem, dict(kind=k, n=n))
        yield Ob('conjugate' + s, conjugate, dict(kind=k, n=n))
        yield Ob('true_center' + s, truecenter, dict(kind=k, n=n))
        yield Ob('iszero' + s, iszero, dict(kind=k, n=n))
        yield Ob('add' + s, add, dict(k1=k, k2=('vec', 'vec'), n=n))
        if k[0] != 'none':
            for off in ('none', 'vec'):
                yield Ob('recenter%s[%s]' % (s, off), recenter, dict(kind=k, n=n, off=off))
    yield Ob('add[2]', add, dict(k1=('none', 'vec'), k2=('zero', 'none'), n=n))
    yield Ob('conjugate_linear', conjugate_linear, dict(n=n))
