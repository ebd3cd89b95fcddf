"""Symbolic reals in rational normal form, path exploration, solver queries.

A symbolic real ``S`` is  num / prod(factor_i ** k_i)  where num and the
factors are multivariate polynomials with rational coefficients over
*generators*.  A generator is an input variable, the square root of a
polynomial, or an application of exp / log / Phi to a symbolic real.
Comparisons of symbolic reals fork the execution (depth first, by
re-execution); z3 decides which sides are feasible.  Assertions are decided by
z3 against the path condition.
"""
from __future__ import annotations
import math
import sys
import time
from fractions import Fraction

_SP = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _SP not in sys.path:
    sys.path.append(_SP)
import z3  # noqa: E402


class Unsupported(Exception):
    """The encoder met something it does not model (inconclusive)."""


class PathAbort(BaseException):
    """This path is outside the assumptions; drop it."""


class Budget(BaseException):
    """Exploration budget exhausted (inconclusive)."""


# ----------------------------------------------------------------- generators

GENS = []          # index -> Gen
_GENKEY = {}


class Gen(object):
    __slots__ = ('id', 'kind', 'name', 'arg', 'z', 'nonneg', 'pos')

    def __init__(self, kind, name, arg, nonneg=False, pos=False):
        self.id = len(GENS)
        self.kind = kind
        self.name = name
        self.arg = arg
        self.z = None
        self.nonneg = nonneg or pos
        self.pos = pos
        GENS.append(self)

    def zvar(self):
        if self.z is None:
            self.z = z3.Real('%s!%d' % (self.name, self.id))
        return self.z


def gen(kind, key, name=None, arg=None, nonneg=False, pos=False):
    k = (kind, key)
    g = _GENKEY.get(k)
    if g is None:
        g = Gen(kind, name or kind, arg, nonneg, pos)
        _GENKEY[k] = g
    return g


# ---------------------------------------------------------------- polynomials

def _q(x):
    """int if integral else Fraction"""
    if type(x) is int:
        return x
    if x.denominator == 1:
        return x.numerator
    return x


class Poly(object):
    __slots__ = ('t', '_h', '_deg', '_z', '_gens', '_prim')

    def __init__(self, t):
        self.t = t
        self._h = None
        self._deg = None
        self._z = None
        self._gens = None
        self._prim = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return self is o or (type(o) is Poly and self.t == o.t)

    def is_zero(self):
        return not self.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), 0)

    def gens(self):
        if self._gens is None:
            s = set()
            for m in self.t:
                for g, _ in m:
                    s.add(g)
            self._gens = frozenset(s)
        return self._gens

    def deg(self):
        if self._deg is None:
            self._deg = max([sum(abs(e) for _, e in m) for m in self.t] or [0])
        return self._deg

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for m, c in sorted(self.t.items()):
            s = '*'.join((GENS[g].name + '%d' % g if GENS[g].kind != 'var' else GENS[g].name)
                         + ('^%d' % e if e != 1 else '') for g, e in m)
            out.append(('%s*%s' % (c, s)) if s else str(c))
        return ' + '.join(out)


P0 = Poly({})
P1 = Poly({(): 1})


def pconst(c):
    c = _q(c)
    return Poly({(): c}) if c != 0 else P0


def pgen(g, e=1):
    return Poly({((g.id, e),): 1})


def padd(a, b, sb=1):
    if not b.t:
        return a
    t = dict(a.t)
    for m, c in b.t.items():
        v = t.get(m, 0) + (c if sb == 1 else sb * c)
        if v == 0:
            t.pop(m, None)
        else:
            t[m] = _q(v)
    return Poly(t)


def pscale(a, c):
    c = _q(c)
    if c == 0:
        return P0
    if c == 1:
        return a
    return Poly({m: _q(v * c) for m, v in a.t.items()})


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    i = j = 0
    out = []
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, b = m1[i], m2[j]
        if a[0] == b[0]:
            e = a[1] + b[1]
            if e:
                out.append((a[0], e))
            i += 1
            j += 1
        elif a[0] < b[0]:
            out.append(a)
            i += 1
        else:
            out.append(b)
            j += 1
    out.extend(m1[i:])
    out.extend(m2[j:])
    return tuple(out)


MAXTERMS = 20000


def pmul(a, b):
    if not a.t or not b.t:
        return P0
    if len(b.t) == 1 and () in b.t:
        return pscale(a, b.t[()])
    if len(a.t) == 1 and () in a.t:
        return pscale(b, a.t[()])
    if len(a.t) * len(b.t) > MAXTERMS * 20:
        raise Unsupported('polynomial blow-up')
    t = {}
    red = False
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = _mmul(m1, m2)
            v = t.get(m, 0) + c1 * c2
            if v == 0:
                del t[m]
            else:
                t[m] = _q(v)
    p = Poly(t)
    return preduce(p)


def preduce(p):
    """replace sqrt(q)^2 by q"""
    for m in p.t:
        for g, e in m:
            if e >= 2 and GENS[g].kind == 'sqrt':
                break
        else:
            continue
        break
    else:
        return p
    out = P0
    for m, c in p.t.items():
        hit = None
        for i, (g, e) in enumerate(m):
            if e >= 2 and GENS[g].kind == 'sqrt':
                hit = (i, g, e)
                break
        if hit is None:
            out = padd(out, Poly({m: c}))
        else:
            i, g, e = hit
            rest = m[:i] + (((g, e % 2),) if e % 2 else ()) + m[i + 1:]
            term = Poly({rest: c})
            sq = ppow(GENS[g].arg, e // 2)
            out = padd(out, pmul(term, sq))
    return out


def ppow(a, k):
    r = P1
    while k:
        if k & 1:
            r = pmul(r, a)
        k >>= 1
        if k:
            a = pmul(a, a)
    return r


def content(p):
    """positive rational c with p/c primitive integer"""
    from math import gcd
    n = 0
    d = 1
    for c in p.t.values():
        if type(c) is int:
            n = gcd(n, c)
        else:
            n = gcd(n, c.numerator)
            d = d * c.denominator // gcd(d, c.denominator)
    return Fraction(n, d)


def lead(p):
    return max(p.t)


def canon(p):
    """p = c * q with q primitive, leading coefficient positive"""
    if p._prim is None:
        if not p.t:
            p._prim = (1, p)
        else:
            c = content(p)
            if p.t[lead(p)] < 0:
                c = -c
            c = _q(c)
            p._prim = (c, p if c == 1 else pscale(p, Fraction(1) / c))
    return p._prim


def mono_content(p):
    """common monomial dividing every term (only nonnegative exponents for
    non-exp generators)"""
    it = iter(p.t)
    first = dict(next(it))
    for m in it:
        d = dict(m)
        for g in list(first):
            e = d.get(g, 0)
            if GENS[g].kind == 'exp':
                first[g] = min(first[g], e)
            else:
                first[g] = min(first[g], e)
            if first[g] == 0:
                del first[g]
        for g, e in d.items():
            if e < 0 and g not in first:
                pass
        # negative exponents of exp gens present only in later terms
        for g, e in d.items():
            if GENS[g].kind == 'exp' and e < 0:
                first[g] = min(first.get(g, 0), e)
    return tuple(sorted((g, e) for g, e in first.items() if e))


def _minv(m):
    return tuple((g, -e) for g, e in m)


def pdivmono(p, m):
    if not m:
        return p
    inv = _minv(m)
    return Poly({_mmul(k, inv): c for k, c in p.t.items()})


_DIVCACHE = {}


def pdivexact(p, d):
    """exact quotient p/d or None (plain polynomial division, lex order)"""
    if len(p.t) < 1 or len(d.t) > 40 or len(p.t) > 400:
        return None
    key = (p, d)
    if key in _DIVCACHE:
        return _DIVCACHE[key]
    if not d.gens() <= p.gens():
        r = None
    else:
        r = _pdiv(p, d)
    if len(_DIVCACHE) > 100000:
        _DIVCACHE.clear()
    _DIVCACHE[key] = r
    return r


def _pdiv(p, d):
    # treat generators as independent (sound: exact polynomial identity)
    for q in (p, d):
        for m in q.t:
            for g, e in m:
                if e < 0:
                    return None
    # order monomials by exponent vectors (lex over gens) for a proper order
    gs = sorted(p.gens() | d.gens())
    idx = {g: i for i, g in enumerate(gs)}

    def vec(m):
        v = [0] * len(gs)
        for g, e in m:
            v[idx[g]] = e
        return tuple(v)
    P = {vec(m): c for m, c in p.t.items()}
    D = {vec(m): c for m, c in d.t.items()}
    ld = max(D)
    lc = D[ld]
    Q = {}
    steps = 0
    while P:
        lp = max(P)
        e = tuple(a - b for a, b in zip(lp, ld))
        if min(e) < 0:
            return None
        c = _q(Fraction(P[lp]) / lc)
        Q[e] = c
        for m, cc in D.items():
            k = tuple(a + b for a, b in zip(m, e))
            v = P.get(k, 0) - cc * c
            if v == 0:
                P.pop(k, None)
            else:
                P[k] = v
        steps += 1
        if steps > 2000:
            return None
    out = {}
    for e, c in Q.items():
        out[tuple((gs[i], k) for i, k in enumerate(e) if k)] = _q(c)
    r = Poly(out)
    # products may need sqrt reduction; verify
    if pmul(r, d) != p:
        return None
    return r


def psqrt(p):
    """exact polynomial square root or None"""
    if not p.t:
        return P0
    for m in p.t:
        for g, e in m:
            if e < 0:
                return None
    if len(p.t) > 60:
        return None
    gs = sorted(p.gens())
    idx = {g: i for i, g in enumerate(gs)}

    def vec(m):
        v = [0] * len(gs)
        for g, e in m:
            v[idx[g]] = e
        return tuple(v)
    P = {vec(m): c for m, c in p.t.items()}
    lm = max(P)
    if any(e % 2 for e in lm):
        return None
    c = qsqrt(P[lm])
    if c is None:
        return None
    q0 = tuple(e // 2 for e in lm)
    Q = {q0: c}
    # remainder = P - Q^2
    R = dict(P)
    del R[lm]
    steps = 0
    while R:
        lr = max(R)
        e = tuple(a - b for a, b in zip(lr, q0))
        if min(e) < 0 or e >= min(Q):
            return None
        cc = _q(Fraction(R[lr]) / (2 * c))
        # R -= 2*cc*x^e*Q + cc^2 x^2e
        for m, v in Q.items():
            k = tuple(a + b for a, b in zip(m, e))
            nv = R.get(k, 0) - 2 * cc * v
            if nv == 0:
                R.pop(k, None)
            else:
                R[k] = nv
        k = tuple(2 * a for a in e)
        nv = R.get(k, 0) - cc * cc
        if nv == 0:
            R.pop(k, None)
        else:
            R[k] = nv
        Q[e] = cc
        steps += 1
        if steps > 100:
            return None
    out = {}
    for e, v in Q.items():
        out[tuple((gs[i], k) for i, k in enumerate(e) if k)] = _q(v)
    r = Poly(out)
    if pmul(r, r) != p:
        return None
    return r


def qsqrt(c):
    c = Fraction(c)
    if c < 0:
        return None
    n = math.isqrt(c.numerator)
    d = math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return _q(Fraction(n, d))
    return None


def square_part(n):
    """n = a^2 * b for integer n>0 (small trial division)"""
    a = 1
    f = 2
    while f * f <= n and f < 2000:
        while n % (f * f) == 0:
            n //= f * f
            a *= f
        f += 1
    r = math.isqrt(n)
    if r * r == n and n > 1:
        a *= r
        n = 1
    return a, n


# ------------------------------------------------------------------- S values

INF = float('inf')


def tofrac(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return _q(x)
    return _q(Fraction(float(x)))


class S(object):
    __slots__ = ('n', 'd', 'sp', '_ns')
    __array_priority__ = 1000

    def __init__(self, n, d=(), sp=None):
        self.n = n
        self.d = d
        self.sp = sp
        self._ns = None

    # -- construction helpers
    @staticmethod
    def of(x):
        if type(x) is S:
            return x
        if isinstance(x, S):
            return x
        if isinstance(x, (bool, int)):
            return S(pconst(int(x)))
        if isinstance(x, Fraction):
            return S(pconst(x))
        try:
            import numpy as np
            if isinstance(x, np.ndarray):
                if x.shape == ():
                    return S.of(x.item())
                raise TypeError('array where scalar expected')
            if isinstance(x, (np.bool_,)):
                return S(pconst(int(x)))
            if isinstance(x, np.integer):
                return S(pconst(int(x)))
        except ImportError:
            pass
        f = float(x)
        if f != f:
            return S(P0, (), 'nan')
        if f == INF:
            return S(P0, (), 'inf')
        if f == -INF:
            return S(P0, (), '-inf')
        return S(pconst(Fraction(f)))

    def isconst(self):
        return self.sp is None and not self.d and self.n.is_const()

    def constval(self):
        return self.n.const()

    def __repr__(self):
        if self.sp:
            return 'S(%s)' % self.sp
        s = repr(self.n)
        if self.d:
            s = '(%s)/(%s)' % (s, ' * '.join('(%r)^%d' % f for f in self.d))
        return 'S<%s>' % s
    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __hash__(self):
        if self.isconst():
            return hash(self.constval())
        return hash((self.n, self.d, self.sp))

    def __float__(self):
        if self.sp:
            return {'nan': float('nan'), 'inf': INF, '-inf': -INF}[self.sp]
        if self.isconst():
            return float(self.constval())
        raise Unsupported('float() of a symbolic value')

    def __int__(self):
        if self.isconst():
            return int(self.constval())
        raise Unsupported('int() of a symbolic value')

    def __index__(self):
        if self.isconst() and isinstance(self.constval(), int):
            raise TypeError('float used as an index')
        raise TypeError('symbolic float used as an index')

    def __bool__(self):
        return not (self == 0)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported('pickle of symbolic value')

    # numpy object ufunc hooks
    def copy(self):
        return self

    def conjugate(self):
        return self

    def item(self):
        return self

    def sum(self, *a, **k):
        return self

    def mean(self, *a, **k):
        return self

    def max(self, *a, **k):
        return self

    def min(self, *a, **k):
        return self

    def dot(self, o):
        return self * o

    def reshape(self, *shape):
        from .arr import wrap
        import numpy as np
        a = np.empty((), object)
        a[()] = self
        return wrap(a).reshape(*shape)

    def astype(self, t):
        return self

    def any(self, *a, **k):
        return bool(self)

    def all(self, *a, **k):
        return bool(self)

    def flatten(self):
        return self.reshape(-1)

    ravel = flatten

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    @property
    def dtype(self):
        import numpy as np
        return np.dtype(float)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .arr import sym_ufunc
        return sym_ufunc(ufunc, method, inputs, kw)

    # -- arithmetic
    def __neg__(self):
        if self.sp:
            return S(P0, (), {'nan': 'nan', 'inf': '-inf', '-inf': 'inf'}[self.sp])
        return S(pscale(self.n, -1), self.d)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.sp:
            return S(P0, (), 'nan' if self.sp == 'nan' else 'inf')
        if self.isconst():
            return S(pconst(abs(self.constval())))
        return self if self >= 0 else -self

    def __add__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        return sadd(self, o)
    __radd__ = __add__

    def __sub__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        return sadd(self, -o)

    def __rsub__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        return sadd(o, -self)

    def __mul__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        return smul(self, o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        return sdiv(self, o)

    def __rtruediv__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        return sdiv(o, self)

    def __floordiv__(self, o):
        raise Unsupported('floor division of symbolic reals')
    __rfloordiv__ = __floordiv__

    def __mod__(self, o):
        o = coerce(o)
        if self.isconst() and o.isconst():
            return S.of(Fraction(self.constval()) % Fraction(o.constval()))
        raise Unsupported('modulo of symbolic reals')

    def __pow__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        return spow(self, o)

    def __rpow__(self, o):
        return spow(coerce(o), self)

    # -- comparisons (fork)
    def __lt__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        return sgt(o, self)

    def __gt__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        return sgt(self, o)

    def __le__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        return sge(o, self)

    def __ge__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        return sge(self, o)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list)):
            return False
        o = coerce(o)
        if o is NotImplemented:
            return o
        return seq(self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, (str, tuple, list)):
            return True
        o = coerce(o)
        if o is NotImplemented:
            return o
        return not seq(self, o)

    # -- elementary functions (also reached through numpy object loops)
    def sqrt(self):
        return ssqrt(self)

    def exp(self):
        return sexp(self)

    def log(self):
        return slog(self)

    def log1p(self):
        return slog(self + 1)

    def expm1(self):
        return sexp(self) - 1

    def log2(self):
        return slog(self) / slog(S.of(2))

    def log10(self):
        return slog(self) / slog(S.of(10))

    def fabs(self):
        return abs(self)

    def square(self):
        return self * self

    def sign(self):
        if self.sp == 'nan':
            return self
        if self > 0:
            return S(P1)
        if self == 0:
            return S(P0)
        return S(pconst(-1))

    def isnan(self):
        return self.sp == 'nan'

    def isfinite(self):
        return self.sp is None

    def isinf(self):
        return self.sp in ('inf', '-inf')

    def rint(self):
        if self.isconst():
            return S.of(round(Fraction(self.constval())))
        raise Unsupported('rounding a symbolic real')

    def floor(self):
        if self.isconst():
            return S.of(math.floor(self.constval()))
        raise Unsupported('floor of a symbolic real')

    def ceil(self):
        if self.isconst():
            return S.of(math.ceil(self.constval()))
        raise Unsupported('ceil of a symbolic real')

    def reciprocal(self):
        return 1 / self


S0 = S(P0)
S1 = S(P1)
NAN = S(P0, (), 'nan')
PINF = S(P0, (), 'inf')
NINF = S(P0, (), '-inf')


def coerce(o):
    if type(o) is S:
        return o
    if isinstance(o, (int, float, Fraction)):
        return S.of(o)
    import numpy as np
    if isinstance(o, np.generic):
        return S.of(o)
    if isinstance(o, np.ndarray):
        if o.shape == ():
            return S.of(o.item())
        return NotImplemented
    return NotImplemented


def mk(n, d):
    """normalise num/den factors: cancel exactly dividing factors"""
    if not n.t:
        return S0
    if not d:
        return S(n)
    out = []
    for f, k in d:
        while k > 0:
            q = pdivexact(n, f)
            if q is None:
                break
            n = q
            k -= 1
        if k:
            out.append((f, k))
    return S(n, tuple(out))


def _dkey(f):
    return (hash(f), len(f.t))


def _merge_den(d1, d2):
    m = {}
    for f, k in d1:
        m[f] = m.get(f, 0) + k
    for f, k in d2:
        m[f] = m.get(f, 0) + k
    return tuple(sorted(m.items(), key=lambda fk: _dkey(fk[0])))


def sadd(a, b):
    if a.sp or b.sp:
        if a.sp == 'nan' or b.sp == 'nan':
            return NAN
        if a.sp and b.sp:
            return a if a.sp == b.sp else NAN
        return a if a.sp else b
    if not a.d and not b.d:
        return S(padd(a.n, b.n))
    if a.d == b.d:
        return mk(padd(a.n, b.n), a.d)
    da, db = dict(a.d), dict(b.d)
    lcm = dict(da)
    for f, k in db.items():
        lcm[f] = max(lcm.get(f, 0), k)
    na, nb = a.n, b.n
    for f, k in lcm.items():
        ka = k - da.get(f, 0)
        if ka:
            na = pmul(na, ppow(f, ka))
        kb = k - db.get(f, 0)
        if kb:
            nb = pmul(nb, ppow(f, kb))
    return mk(padd(na, nb), tuple(sorted(lcm.items(), key=lambda fk: _dkey(fk[0]))))


def smul(a, b):
    if a.sp or b.sp:
        if a.sp == 'nan' or b.sp == 'nan':
            return NAN
        sa, sb = ssign(a), ssign(b)
        s = sa * sb
        if s == 0:
            return NAN
        return PINF if s > 0 else NINF
    if not a.n.t or not b.n.t:
        return S0
    if not a.d and not b.d:
        return S(pmul(a.n, b.n))
    n1, n2 = a.n, b.n
    d1, d2 = a.d, b.d
    # cross-cancel before expanding
    if d2:
        t = mk(n1, d2)
        n1, d2 = t.n, t.d
    if d1:
        t = mk(n2, d1)
        n2, d1 = t.n, t.d
    return S(pmul(n1, n2), _merge_den(d1, d2))


def ssign(a):
    if a.sp:
        return {'inf': 1, '-inf': -1}[a.sp]
    if a > 0:
        return 1
    if a == 0:
        return 0
    return -1


def split_den(p):
    """p (nonzero poly) -> (S-numerator multiplier as (coef, mono of exp gens)), factors)"""
    c, q = canon(p)
    mc = mono_content(q)
    facs = []
    emono = []
    if mc:
        q = pdivmono(q, mc)
        for g, e in mc:
            if GENS[g].kind == 'exp':
                emono.append((g, -e))
            else:
                facs.append((pgen(GENS[g]), e))
    if not q.is_const():
        c2, q = canon(q)
        c = c * c2
        facs.append((q, 1))
    else:
        c = c * q.const()
    return c, tuple(emono), facs


def sinv(a):
    """1/a for a known nonzero"""
    n = P1
    for f, k in a.d:
        n = pmul(n, ppow(f, k))
    c, emono, facs = split_den(a.n)
    n = pscale(n, Fraction(1) / c)
    if emono:
        n = pmul(n, Poly({emono: 1}))
    # sqrt generators in the denominator: rationalise a lone sqrt factor
    out = []
    for f, k in facs:
        if len(f.t) == 1:
            ((m, cc),) = f.t.items()
            if len(m) == 1 and GENS[m[0][0]].kind == 'sqrt' and m[0][1] == 1:
                g = GENS[m[0][0]]
                # 1/s^k = s^(k%2) / arg^((k+1)//2)
                if k % 2:
                    n = pmul(n, f)
                c3, em3, f3 = split_den(g.arg)
                kk = (k + 1) // 2
                n = pscale(n, Fraction(1) / Fraction(c3) ** kk)
                if em3:
                    n = pmul(n, ppow(Poly({em3: 1}), kk))
                for ff, k3 in f3:
                    out.append((ff, k3 * kk))
                continue
        out.append((f, k))
    d = _merge_den(tuple(out), ())
    return mk(n, d)


def sdiv(a, b):
    if b.sp:
        if a.sp or b.sp == 'nan':
            return NAN
        return S0
    if a.sp == 'nan':
        return NAN
    if b.isconst():
        c = b.constval()
        if c == 0:
            return _div0(a)
        if a.sp:
            return a if c > 0 else -a
        return S(pscale(a.n, Fraction(1) / c), a.d)
    if b == 0:
        return _div0(a)
    if a.sp:
        return a if b > 0 else -a
    if not a.n.t:
        return S0
    return smul(a, sinv(b))


def _div0(a):
    # IEEE division by (positive) zero
    if a.sp == 'nan':
        return NAN
    s = ssign(a)
    return PINF if s > 0 else NINF if s < 0 else NAN


def spow(a, b):
    if b.isconst():
        e = Fraction(b.constval())
        if e.denominator == 1:
            e = int(e)
            if e == 0:
                return S1
            if a.sp:
                if a.sp == 'nan':
                    return NAN
                if e < 0:
                    return S0
                return PINF if (a.sp == 'inf' or e % 2 == 0) else NINF
            if e < 0:
                return sdiv(S1, spow(a, S.of(-e)))
            d = tuple((f, k * e) for f, k in a.d)
            return S(ppow(a.n, e), d)
        if e.denominator == 2:
            r = ssqrt(a)
            return spow(r, S.of(e.numerator))
    if a.isconst() and b.isconst() and a.constval() > 0:
        return S.of(float(a.constval()) ** float(b.constval()))
    if a > 0:
        return sexp(b * slog(a))
    raise Unsupported('power')


# -------------------------------------------------------------- comparisons

def diffsign_poly(a, b):
    """polynomial with the sign of a-b (a, b finite); resolves signs of odd
    denominator factors (forking when necessary)."""
    x = sadd(a, -b)
    return numsign(x)


def numsign(x):
    if x._ns is not None:
        return x._ns
    p = x.n
    flip = 1
    cacheable = True
    for f, k in x.d:
        if k % 2:
            sg = CTX.quick_sign(f)
            if sg is None:
                cacheable = False
                # denominators are nonzero by construction
                if not CTX.branch(f, '>'):
                    flip = -flip
            elif sg < 0:
                flip = -flip
                cacheable = False
            else:
                if not _intrinsic_pos(f):
                    cacheable = False
    if flip < 0:
        p = pscale(p, -1)
    # clear negative exponents of (positive) exp generators
    p = clear_exp(p)
    if cacheable:
        x._ns = p
    return p


def _intrinsic_pos(f):
    return all(c > 0 and all(GENS[g].pos or e % 2 == 0 for g, e in m) for m, c in f.t.items())


def clear_exp(p):
    low = {}
    for m in p.t:
        for g, e in m:
            if e < 0:
                low[g] = min(low.get(g, 0), e)
    if not low:
        return p
    mul = tuple(sorted((g, -e) for g, e in low.items()))
    return Poly({_mmul(m, mul): c for m, c in p.t.items()})


def sgt(a, b):
    if a.sp or b.sp:
        return float_of(a) > float_of(b)
    p = diffsign_poly(a, b)
    return CTX.branch(p, '>')


def sge(a, b):
    if a.sp or b.sp:
        return float_of(a) >= float_of(b)
    p = diffsign_poly(a, b)
    return CTX.branch(p, '>=')


def seq(a, b):
    if a.sp or b.sp:
        return float_of(a) == float_of(b)
    p = clear_exp(sadd(a, -b).n)
    return CTX.branch(p, '==')


def float_of(a):
    return float(a) if a.sp else 0.0


# ------------------------------------------------------- elementary functions

def ssqrt(a, sos=False):
    """square root; sos: the argument is a sum of squares of reals"""
    if a.sp:
        return a if a.sp == 'inf' else NAN
    if not a.n.t:
        return S0
    if a.isconst():
        c = Fraction(a.constval())
        if c < 0:
            return NAN
        r = qsqrt(c)
        if r is not None:
            return S(pconst(r))
        sa, sb = square_part(c.numerator * c.denominator)
        g = gen('sqrt', pconst(sb), 'sqrt', pconst(sb), pos=True)
        return S(pscale(pgen(g), Fraction(sa, c.denominator)))
    if not sos and not (a >= 0):
        return NAN
    # radicand: num * odd factors ; outside: product of |f|^ceil(k/2)
    rad = a.n
    outside = S1
    for f, k in a.d:
        if k % 2:
            rad = pmul(rad, f)
        h = (k + 1) // 2
        outside = outside * abs(S(ppow(f, h)))
    c, prim = content(rad), rad
    prim = pscale(rad, Fraction(1) / c)
    mc = mono_content(prim)
    front = S1
    if mc:
        keep = []
        div = []
        for g, e in mc:
            ev = e - (e % 2)
            if ev:
                div.append((g, ev))
        div = tuple(div)
        if div:
            prim = pdivmono(prim, div)
            for g, ev in div:
                base = S(pgen(GENS[g], ev // 2))
                front = front * (base if GENS[g].nonneg else abs(base))
    c = Fraction(c)
    sa, sb = square_part(c.numerator * c.denominator)
    front = front * Fraction(sa, c.denominator)
    r = psqrt(prim) if sb == 1 else None
    if r is None and sb == 1:
        r = psqrt(pscale(prim, -1)) if False else None
    if r is not None:
        s = abs(S(r))
        return sdiv(front * s, outside)
    radp = pscale(prim, sb)
    if radp.is_const():
        v = ssqrt(S(radp))
        return sdiv(front * v, outside)
    g = gen('sqrt', radp, 'sqrt', radp, nonneg=True)
    return sdiv(front * S(pgen(g)), outside)


def sexp(a):
    if a.sp:
        return {'nan': NAN, 'inf': PINF, '-inf': S0}[a.sp]
    if not a.n.t:
        return S1
    if a.d:
        # whole rational function as argument; canonical orientation
        c, p = canon(a.n)
        if c < 0:
            arg = S(pscale(a.n, -1), a.d)
            e = -1
        else:
            arg, e = a, 1
        g = gen('exp', ('rat', arg.n, arg.d), 'exp', arg, pos=True)
        return S(Poly({((g.id, e),): 1}))
    out = S1
    mono = {}
    for m, c in a.n.t.items():
        c = Fraction(c)
        if len(m) == 1 and m[0][1] == 1 and GENS[m[0][0]].kind == 'log' and c.denominator == 1:
            out = out * spow(GENS[m[0][0]].arg, S.of(int(c)))
            continue
        if not m and c.denominator > 1 << 24:        # a generic float: use its float exponential
            out = out * S.of(math.exp(float(c)))
            continue
        base = Poly({m: Fraction(1, c.denominator)}) if c.denominator != 1 else Poly({m: 1})
        g = gen('exp', base, 'exp', S(base), pos=True)
        mono[g.id] = mono.get(g.id, 0) + c.numerator
    if mono:
        out = out * S(Poly({tuple(sorted((g, e) for g, e in mono.items() if e)): 1}))
    return out


def _logpoly(p):
    """log of a polynomial known positive"""
    c = content(p)
    prim = pscale(p, Fraction(1) / c)
    res = S0
    if c != 1:
        res = res + _logconst(c)
    mc = mono_content(prim)
    if mc:
        prim = pdivmono(prim, mc)
        for g, e in mc:
            G = GENS[g]
            if G.kind == 'exp':
                res = res + G.arg * e
            elif G.kind == 'sqrt':
                res = res + _logabs(G.arg) * Fraction(e, 2)
            else:
                res = res + _logabs(pgen(G)) * e
    if not prim.is_const():
        res = res + _logabs(prim)
    return res


def _logabs(p):
    if p.is_const():
        return _logconst(abs(Fraction(p.const())))
    s = CTX.quick_sign(p)
    if s is None:
        pos = CTX.branch(clear_exp(p), '>')
    else:
        pos = s > 0
    if not pos:
        p = pscale(p, -1)
    c = content(p)
    if c != 1:
        p = pscale(p, Fraction(1) / c)
        extra = _logconst(c)
    else:
        extra = S0
    g = gen('log', p, 'log', S(p))
    return S(pgen(g)) + extra


def _factor_int(n):
    out = {}
    f = 2
    while f * f <= n and f < 10000:
        while n % f == 0:
            out[f] = out.get(f, 0) + 1
            n //= f
        f += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def _logconst(c):
    c = Fraction(c)
    if c == 1:
        return S0
    res = S0
    for sgn, n in ((1, c.numerator), (-1, c.denominator)):
        for f, k in _factor_int(n).items():
            g = gen('log', pconst(f), 'log', S(pconst(f)), pos=True)
            res = res + S(pscale(pgen(g), sgn * k))
    return res


def slog(a):
    if a.sp:
        return {'nan': NAN, 'inf': PINF, '-inf': NAN}[a.sp]
    if a.isconst():
        c = a.constval()
        if c == 0:
            return NINF
        if c < 0:
            return NAN
        return _logconst(c)
    if not (a > 0):
        return NINF if a == 0 else NAN
    # sign pattern: all pieces through log|.|
    res = S0
    neg = False
    p = a.n
    for f, k in a.d:
        if k % 2:
            sg = CTX.quick_sign(f)
            if sg is None:
                sg = 1 if CTX.branch(f, '>') else -1
            if sg < 0:
                p = pscale(p, -1)
        res = res - _logabs(f) * k
    # p > 0 now
    return res + _logpoly(p)


def sPhi(a):
    if a.sp:
        return {'nan': NAN, 'inf': S1, '-inf': S0}[a.sp]
    if not a.n.t:
        return S.of(Fraction(1, 2))
    c, p = canon(a.n)
    if c < 0:
        return 1 - sPhi(-a)
    g = gen('Phi', (a.n, a.d), 'Phi', a, pos=True)
    return S(pgen(g))


def sphi(a):
    if a.sp:
        return NAN if a.sp == 'nan' else S0
    return sexp(-(a * a) / 2) / ssqrt(S.of(2 * math.pi))


# ------------------------------------------------------------ differentiation

def dgen(g, v):
    """d generator / d variable v  (as S)"""
    G = GENS[g]
    if G.kind == 'var':
        return S1 if g == v else S0
    if G.kind == 'sqrt':
        d = dpoly(G.arg, v)
        if d.isconst() and d.constval() == 0:
            return S0
        return d * sinv(S(pscale(pgen(G), 2)))
    d = diffid(G.arg, v)
    if not d.n.t and not d.sp:
        return S0
    if G.kind == 'exp':
        return d * S(pgen(G))
    if G.kind == 'log':
        return d * sinv(G.arg)
    if G.kind == 'Phi':
        return d * sphi(G.arg)
    raise Unsupported('derivative of %s' % G.kind)


def dpoly(p, v):
    res = S0
    for g in p.gens():
        dg = dgen(g, v)
        if not dg.n.t:
            continue
        # partial derivative of p w.r.t. generator g
        t = {}
        for m, c in p.t.items():
            md = dict(m)
            e = md.get(g, 0)
            if e:
                if e == 1:
                    md.pop(g)
                else:
                    md[g] = e - 1
                k = tuple(sorted(md.items()))
                t[k] = _q(t.get(k, 0) + c * e)
        t = {k: c for k, c in t.items() if c}
        res = res + S(Poly(t)) * dg
    return res


def diffid(a, v):
    if a.sp:
        return NAN
    res = dpoly(a.n, v)
    if a.d:
        res = res * S(P1, a.d)
        for f, k in a.d:
            df = dpoly(f, v)
            if df.n.t:
                res = res - a * df * k * S(P1, ((f, 1),))
    return res


def diff(a, var):
    """derivative of S a with respect to the S variable var"""
    ((m, c),) = var.n.t.items()
    return diffid(S.of(a), m[0][0])


# ---------------------------------------------------------------- z3 encoding

def pz3(p):
    if p._z is None:
        terms = []
        for m, c in p.t.items():
            fs = []
            for g, e in m:
                z = GENS[g].zvar()
                for _ in range(e):
                    fs.append(z)
            c = Fraction(c)
            if not fs:
                terms.append(z3.Q(c.numerator, c.denominator))
                continue
            if c != 1:
                fs = [z3.Q(c.numerator, c.denominator)] + fs
            terms.append(fs[0] if len(fs) == 1 else z3.Product(*fs))
        if not terms:
            p._z = z3.RealVal(0)
        else:
            p._z = terms[0] if len(terms) == 1 else z3.Sum(*terms)
    return p._z


def atom_z3(p, rel):
    z = pz3(p)
    if rel == '>':
        return z > 0
    if rel == '>=':
        return z >= 0
    if rel == '==':
        return z == 0
    if rel == '!=':
        return z != 0
    if rel == '<':
        return z < 0
    if rel == '<=':
        return z <= 0
    raise ValueError(rel)


_AXIOM = {}


def gen_axioms(g):
    """polynomial axioms of a generator as list of (poly, rel) atoms or
    ('or', [...])"""
    if g in _AXIOM:
        return _AXIOM[g]
    G = GENS[g]
    out = []
    if G.kind == 'var' and G.nonneg:
        out.append((pgen(G), '>' if G.pos else '>='))
    if G.kind == 'sqrt':
        out.append((pgen(G), '>' if G.pos else '>='))
        out.append((padd(pmul_raw_square(G), G.arg, -1), '=='))
    elif G.kind == 'exp':
        out.append((pgen(G), '>'))
        a = G.arg
        if not a.d:
            # E >= 1 + a   (all reals)
            out.append((padd(padd(pgen(G), pconst(-1)), a.n, -1), '>='))
            # exp(-a) >= 1 - a   i.e.  (1 - a) E <= 1
            out.append((padd(P1, pmul(padd(P1, a.n, -1), pgen(G)), -1), '>='))
    elif G.kind == 'log':
        a = G.arg
        if not a.d and not a.n.is_const():
            # log a <= a - 1
            out.append((padd(padd(a.n, pconst(-1)), pgen(G), -1), '>='))
        if a.n.is_const():
            v = math.log(a.n.const())
            out.append((padd(pgen(G), pconst(Fraction(v - 1e-9)), -1), '>'))
            out.append((padd(pconst(Fraction(v + 1e-9)), pgen(G), -1), '>'))
    elif G.kind == 'Phi':
        out.append((pgen(G), '>'))
        out.append((padd(P1, pgen(G), -1), '>'))
        if not G.arg.d:
            pass
    out = [(clear_exp(p), r) for p, r in out]
    _AXIOM[g] = out
    return out


def pmul_raw_square(G):
    return Poly({((G.id, 2),): 1})


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.paths = 0
        self.aborted = 0
        self.branches = 0
        self.asserts = 0
        self.discharged = 0
        self.trivial = 0
        self.maxdeg = 0


def closure(polys):
    seen = set()
    todo = set()
    for p in polys:
        todo |= p.gens()
    while todo:
        g = todo.pop()
        if g in seen:
            continue
        seen.add(g)
        for p, r in gen_axioms(g):
            todo |= (p.gens() - seen)
    return seen


def flatten(c):
    """constraint -> polys"""
    if isinstance(c[0], str):
        out = []
        for x in c[1]:
            out.extend(flatten(x))
        return out
    return [c[0]]


def c_z3(c):
    if isinstance(c[0], str) and c[0] == 'or':
        return z3.Or([c_z3(x) for x in c[1]])
    if isinstance(c[0], str) and c[0] == 'and':
        return z3.And([c_z3(x) for x in c[1]])
    return atom_z3(*c)


STATS = Stats()


def solve(cons, timeout=8000):
    """cons: list of constraints. returns ('sat', model) | ('unsat', None) |
    ('unknown', None)"""
    polys = []
    for c in cons:
        polys.extend(flatten(c))
    gs = closure(polys)
    ax = []
    for g in gs:
        ax.extend(gen_axioms(g))
    lin = all(p.deg() <= 1 for p in polys) and all(p.deg() <= 1 for p, _ in ax)
    STATS.queries += 1
    t0 = time.time()
    fs = [c_z3(c) for c in cons] + [atom_z3(p, r) for p, r in ax]
    # never compare model values from different solver instances
    if lin:
        s = z3.SolverFor('QF_LRA')
    else:
        s = z3.Tactic('qfnra-nlsat').solver() if not _has_or(cons) else z3.SolverFor('QF_NRA')
    s.set('timeout', timeout if lin else min(timeout, 400))
    s.add(*fs)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    if r == z3.unknown and not lin:
        r = linearised(cons, ax, min(timeout, 2000))
    if r == z3.unknown and not lin:
        s = z3.Tactic('qfnra-nlsat').solver() if not _has_or(cons) else z3.SolverFor('QF_NRA')
        s.set('timeout', timeout)
        s.add(*fs)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
    if r == z3.unknown and not lin and timeout > 3000:
        s = z3.SolverFor('QF_NRA')
        s.set('timeout', timeout)
        s.add(*fs)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
    STATS.solver_s += time.time() - t0
    if r == z3.sat:
        STATS.sat += 1
        return 'sat', Model(s.model(), gs)
    if r == z3.unsat:
        STATS.unsat += 1
        return 'unsat', None
    STATS.unknown += 1
    return 'unknown', None


_MONO = {}


def mono_var(m):
    v = _MONO.get(m)
    if v is None:
        if len(m) == 1 and m[0][1] == 1:
            v = GENS[m[0][0]].zvar()
        else:
            v = z3.Real('m!%d' % len(_MONO))
        _MONO[m] = v
    return v


def linearised(cons, ax, timeout):
    """unsat of the relaxation in which every monomial is an independent
    variable (sound for unsat); otherwise unknown"""
    monos = set()

    def lz(p):
        out = []
        for m, c in p.t.items():
            c = Fraction(c)
            q = z3.Q(c.numerator, c.denominator)
            if not m:
                out.append(q)
            else:
                monos.add(m)
                out.append(q * mono_var(m))
        return z3.Sum(*out) if len(out) > 1 else (out[0] if out else z3.RealVal(0))

    def rel(p, r):
        z = lz(p)
        return {'>': z > 0, '>=': z >= 0, '==': z == 0, '!=': z != 0, '<': z < 0, '<=': z <= 0}[r]

    def cz(c):
        if isinstance(c[0], str) and c[0] == 'or':
            return z3.Or([cz(x) for x in c[1]])
        if isinstance(c[0], str) and c[0] == 'and':
            return z3.And([cz(x) for x in c[1]])
        return rel(*c)
    fs = [cz(c) for c in cons] + [rel(p, r) for p, r in ax]
    # products of sign-definite generators with the linear constraints
    atoms = [c for c in cons if not isinstance(c[0], str)] + list(ax)
    ng = set()
    for p, _ in atoms:
        for g in p.gens():
            if GENS[g].nonneg:
                ng.add(g)
    if len(ng) * len(atoms) <= 200:
        for g in ng:
            pg = _gpoly(g)
            for p, r in atoms:
                if p.deg() <= 3 and r != '!=':
                    r2 = r if GENS[g].pos else {'>': '>=', '<': '<='}.get(r, r)
                    try:
                        fs.append(rel(pmul(p, pg), r2))
                    except Unsupported:
                        pass
    for m in list(monos):
        if all(e % 2 == 0 or GENS[g].nonneg for g, e in m):
            fs.append(mono_var(m) > 0 if all(GENS[g].pos for g, e in m) else mono_var(m) >= 0)
    s = z3.SolverFor('QF_LRA')
    s.set('timeout', timeout)
    s.add(*fs)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    return r if r == z3.unsat else z3.unknown


def _has_or(cons):
    return any(isinstance(c[0], str) for c in cons)


class Model(object):
    def __init__(self, m, gens):
        self.m = m
        self.gens = gens          # generators the solver was told about
        self.cache = {}

    def val(self, g):
        """(Fraction, exact?)"""
        if g in self.cache:
            return self.cache[g]
        if g not in self.gens:
            # introduced after the query: only its definition is known
            G = GENS[g]
            if G.kind == 'var':
                r = (Fraction(1 if G.pos else 0), True)
            elif G.kind == 'sqrt':
                r = (None, False)
                t = Fraction(0)
                for m, c in G.arg.t.items():
                    w = Fraction(c)
                    for h, e in m:
                        x, _ = self.val(h)
                        if x is None:
                            t = None
                            break
                        w *= x ** e
                    if t is None:
                        break
                    t += w
                if t is not None and t >= 0:
                    r = (Fraction(math.sqrt(t)), False)
            else:
                r = (None, False)
            self.cache[g] = r
            return r
        v = self.m.eval(GENS[g].zvar(), model_completion=True)
        if z3.is_rational_value(v):
            r = (Fraction(v.numerator_as_long(), v.denominator_as_long()), True)
        elif z3.is_algebraic_value(v):
            a = v.approx(25)
            r = (Fraction(a.numerator_as_long(), a.denominator_as_long()), False)
        else:
            r = (None, False)
        self.cache[g] = r
        return r

    def sign(self, p):
        """sign of polynomial in the model, or None when not certain"""
        exact = True
        tot = Fraction(0)
        for m, c in p.t.items():
            v = Fraction(c)
            for g, e in m:
                x, ex = self.val(g)
                if x is None:
                    return None
                exact = exact and ex
                v *= x ** e
            tot += v
        if exact:
            return (tot > 0) - (tot < 0)
        if abs(tot) < Fraction(1, 10 ** 12):
            return None
        return 1 if tot > 0 else -1


NEG, ZERO, POS = 1, 2, 4


class Context(object):
    """Path exploration state (one global instance)."""

    def __init__(self):
        self.active = False
        self.branch_timeout = 3000
        self.assert_timeout = 15000
        self.deadline = None
        self.max_branches = 4000
        self.reset([])
        self.memo = {}
        self.trivial_memo = {}

    def reset(self, prefix):
        self.prefix = prefix          # list of choices to replay
        self.pos = 0
        self.trail = []               # list of [choice, other_feasible]
        self.cons = []                # path constraints (poly, rel)
        self.conskeys = set()
        self.mask = {}                # canonical poly -> mask
        self.model = None             # model of cons
        self.notes = []

    # -- constraints
    def add(self, p, rel):
        key = (p, rel)
        if key in self.conskeys:
            return
        self.conskeys.add(key)
        self.cons.append(key)

    def assume_atom(self, p, rel):
        """assume p rel 0 (no fork)"""
        p = clear_exp(p)
        if p.is_const():
            c = p.const()
            ok = {'>': c > 0, '>=': c >= 0, '==': c == 0, '!=': c != 0}[rel]
            if not ok:
                raise PathAbort()
            return
        c, q = canon(p)
        m = self.getmask(q)
        allow = relmask(rel, c)
        nm = m & allow
        if nm == 0:
            raise PathAbort()
        if nm != m:
            self.mask[q] = nm
            self.add(p, rel)
            if self.model is not None:
                s = self.model.sign(p)
                if s is None or not relok(s, rel):
                    self.model = None

    def getmask(self, q):
        m = self.mask.get(q)
        if m is None:
            m = self.intrinsic(q)
        return m

    def gsign(self, g):
        """mask of a generator"""
        G = GENS[g]
        if G.pos:
            return POS
        m = self.mask.get(_gpoly(g))
        if m is None:
            m = NEG | ZERO | POS
        if G.nonneg:
            m &= (ZERO | POS)
        return m

    def intrinsic(self, q):
        """cheap sign analysis term by term"""
        allpos = allneg = True
        strict = False
        for m, c in q.t.items():
            # sign mask of monomial
            can_neg = can_pos = can_zero = False
            s = 1 if c > 0 else -1
            zero = False
            unknown = False
            for g, e in m:
                gm = self.gsign(g)
                if gm & ZERO:
                    zero = True
                if e % 2 == 0:
                    continue
                if gm & NEG and gm & POS:
                    unknown = True
                    break
                if gm & NEG:
                    s = -s
            if unknown:
                return NEG | ZERO | POS
            if s > 0:
                allneg = False
            else:
                allpos = False
            if not zero:
                strict = True
            if not allpos and not allneg:
                return NEG | ZERO | POS
        if allpos and allneg:
            return ZERO
        if allpos:
            return POS if strict else POS | ZERO
        return NEG if strict else NEG | ZERO

    def quick_sign(self, p):
        """-1/0/1 if known without the solver, else None"""
        p = clear_exp(p)
        if p.is_const():
            c = p.const()
            return (c > 0) - (c < 0)
        c, q = canon(p)
        m = self.getmask(q)
        if m == POS:
            r = 1
        elif m == NEG:
            r = -1
        elif m == ZERO:
            r = 0
        else:
            return None
        return r if c > 0 else -r

    def branch(self, p, rel):
        """decide  p rel 0  forking if both sides are feasible"""
        p = clear_exp(p)
        if p.is_const():
            c = p.const()
            return {'>': c > 0, '>=': c >= 0, '==': c == 0}[rel]
        c, q = canon(p)
        m = self.getmask(q)
        yes = m & relmask(rel, c)
        if yes == m:
            return True
        if yes == 0:
            return False
        if not self.active:
            raise Unsupported('symbolic branch outside exploration')
        no = m & ~relmask(rel, c)
        nrel = {'>': '<=', '>=': '<', '==': '!='}[rel]
        STATS.branches += 1
        if self.pos < len(self.prefix):
            choice = self.prefix[self.pos][0]
            self.trail.append(list(self.prefix[self.pos]))
            self.pos += 1
        else:
            if self.deadline and time.time() > self.deadline:
                raise Budget('time')
            if len(self.trail) > self.max_branches:
                raise Budget('branches')
            my = self.feasible(p, rel)
            mn = self.feasible(p, nrel)
            if not my and not mn:
                # only possible when the path itself is infeasible
                raise PathAbort()
            choice = bool(my)
            self.trail.append([choice, bool(my and mn)])
            if my and mn:
                self.model = my if isinstance(my, Model) else self.model if my is True else None
            elif my:
                if isinstance(my, Model):
                    self.model = my
            else:
                if isinstance(mn, Model):
                    self.model = mn
            self.pos += 1
        forced = not self.trail[-1][1] and len(self.trail[-1]) == 2
        if choice:
            self.mask[q] = yes
            if self.trail[-1][1] or len(self.trail[-1]) > 2:
                self.add(*orient(p, rel))
        else:
            self.mask[q] = no
            if self.trail[-1][1] or len(self.trail[-1]) > 2:
                self.add(*orient(p, nrel))
        if self.model is not None:
            s = self.model.sign(p)
            r = rel if choice else nrel
            if s is None or not relok(s, r):
                self.model = None
        return choice

    def feasible(self, p, rel):
        """False, True (model witnesses / unknown) or a Model"""
        if self.model is not None:
            s = self.model.sign(p)
            if s is not None and relok(s, rel):
                return self.model
        r, m = solve(self.relevant([(p, rel)]) + [orient(p, rel)], self.branch_timeout)
        if r == 'unsat':
            return False
        if r == 'sat':
            return m if len(self._last_rel) == len(self.cons) else True
        return True

    def relevant(self, extra):
        """constraints connected (through shared generators) to extra"""
        gs = set()
        for c in extra:
            for p in flatten(c):
                gs |= p.gens()
        gs = closure_gens(gs)
        todo = list(self.cons)
        out = []
        changed = True
        while changed:
            changed = False
            rest = []
            for c in todo:
                cg = closure_gens_cached(c[0])
                if cg & gs:
                    out.append(c)
                    if not cg <= gs:
                        gs |= cg
                    changed = True
                else:
                    rest.append(c)
            todo = rest
        self._last_rel = out
        return out

    # -- assertions
    def check(self, neg):
        """is PC and neg satisfiable?  neg: constraint"""
        return solve(list(self.cons) + [neg], self.assert_timeout)


_CG = {}


def closure_gens(gs):
    out = set()
    for g in gs:
        out |= closure_g(g)
    return out


_CGG = {}


def closure_g(g):
    r = _CGG.get(g)
    if r is None:
        seen = set()
        todo = {g}
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for p, _ in gen_axioms(x):
                todo |= (p.gens() - seen)
        r = frozenset(seen)
        _CGG[g] = r
    return r


def closure_gens_cached(p):
    r = _CG.get(p)
    if r is None:
        r = frozenset(closure_gens(p.gens()))
        if len(_CG) > 50000:
            _CG.clear()
        _CG[p] = r
    return r


_GP = {}


def _gpoly(g):
    p = _GP.get(g)
    if p is None:
        p = pgen(GENS[g])
        _GP[g] = p
    return p


def relmask(rel, c):
    m = {'>': POS, '>=': POS | ZERO, '==': ZERO, '!=': POS | NEG,
         '<': NEG, '<=': NEG | ZERO}[rel]
    if c < 0:
        r = m & ZERO
        if m & POS:
            r |= NEG
        if m & NEG:
            r |= POS
        m = r
    return m


def relok(s, rel):
    return {'>': s > 0, '>=': s >= 0, '==': s == 0, '!=': s != 0,
            '<': s < 0, '<=': s <= 0}[rel]


def orient(p, rel):
    return (p, rel)


CTX = Context()


def explore(fn, deadline=None, max_paths=100000, on_path=None):
    """run fn() over every feasible path.  Returns (complete?, reason)"""
    prefix = []
    CTX.active = True
    CTX.deadline = deadline
    try:
        while True:
            CTX.reset(prefix)
            STATS.paths += 1
            aborted = False
            try:
                fn()
            except PathAbort:
                STATS.aborted += 1
                aborted = True
            except Budget as e:
                return False, 'budget: %s' % e
            trail = CTX.trail
            # backtrack
            while trail and not (trail[-1][1]):
                trail.pop()
            if not trail:
                return True, None
            # flip the last open decision; len 3 marks 'flipped'
            last = trail.pop()
            trail.append([not last[0], False, True])
            prefix = [tuple(x) for x in trail]
            if STATS.paths >= max_paths:
                return False, 'path budget'
            if deadline and time.time() > deadline:
                return False, 'time budget'
    finally:
        CTX.active = False


def var(name, pos=False, nonneg=False):
    g = gen('var', (name, pos, nonneg), name, nonneg=nonneg, pos=pos)
    return S(pgen(g))
