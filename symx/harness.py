"""Obligations: functions ``fn(ctx, **params)`` that exercise regreg and state
assertions.  The same function runs symbolically (regreg loaded by symx.load)
and concretely (replay of a solver model on the unpatched package)."""
from __future__ import annotations
import math
import sys
import time
import traceback
from fractions import Fraction
import numpy as np

REPLAY_TOL = 1e-6


def core_gen(g):
    from . import core
    return core.GENS[g]


class Ob(object):
    def __init__(self, name, fn, params=None, limit=None, tier='quick', note=''):
        self.name = name
        self.fn = fn
        self.params = params or {}
        self.limit = limit
        self.tier = tier
        self.note = note


class AssumptionFailed(Exception):
    pass


class Enough(BaseException):
    pass


# ------------------------------------------------------------ symbolic mode

FALLBACK = 'inputs of a path that could not be encoded'


class SymCtx(object):
    mode = 'sym'
    symbolic = True

    def __init__(self, ob, max_cex=4):
        from . import core, arr
        self.core = core
        self.arrm = arr
        self.ob = ob
        self.cex = []
        self.max_cex = max_cex
        self.reached = 0
        self.asserts = 0
        self.discharged = 0
        self.trivial = 0
        self.unknown = []
        self.unsupported = []
        self.witness = None
        self.bounds = []
        self.paths_done = 0

    def begin(self):
        self.names = {}
        self.ints = set()
        self.path_asserts = 0

    # ---- inputs
    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, nonzero=False):
        core = self.core
        v = core.var(name, pos=pos, nonneg=nonneg)
        self.names[name] = v
        if nonzero:
            core.CTX.assume_atom(v.n, '!=')
        if lo is not None:
            core.CTX.assume_atom((v - lo).n, '>=')
        if hi is not None:
            core.CTX.assume_atom((hi - v).n, '>=')
        return v

    def vec(self, name, n, **kw):
        a = np.empty(n, object)
        for i in range(n):
            a[i] = self.real('%s%d' % (name, i), **kw)
        return self.arrm.wrap(a)

    def mat(self, name, r, c, **kw):
        a = np.empty((r, c), object)
        for i in range(r):
            for j in range(c):
                a[i, j] = self.real('%s%d_%d' % (name, i, j), **kw)
        return self.arrm.wrap(a)

    def ivec(self, name, n, lo=-6, hi=6):
        """symbolic integers in an array of integer type"""
        a = self.vec(name, n, lo=lo, hi=hi)
        self.ints.update('%s%d' % (name, i) for i in range(n))
        return a.view(self.arrm.SymIntArray)

    def imat(self, name, r, c, lo=-6, hi=6):
        return self.ivec(name, r * c, lo, hi).reshape(r, c)

    def iarr(self, x):
        """numbers in an array of integer type"""
        return self.arrm.to_sym(np.asarray(x)).copy().view(self.arrm.SymIntArray)

    def real_of(self, a):
        """a fresh array of reals with the same entries"""
        return a.astype(float)

    def choice(self, name, options):
        """nondeterministic choice (forks)"""
        options = list(options)
        v = self.core.var('choice_' + name)
        self.names['choice_' + name] = v
        for i in range(len(options) - 1):
            if v == i:
                return options[i]
        self.core.CTX.assume_atom((v - (len(options) - 1)).n, '==')
        return options[-1]

    def arr(self, x):
        return self.arrm.to_sym(np.asarray(x)).copy()

    def zeros(self, shape):
        return self.arr(np.zeros(shape))

    def num(self, x):
        return self.core.S.of(x)

    # ---- assumptions
    def assume_ge(self, a, b=0):
        d = self.num(a) - self.num(b)
        if d.d:
            self.assume(d >= 0)
        else:
            self.core.CTX.assume_atom(d.n, '>=')

    def assume_gt(self, a, b=0):
        d = self.num(a) - self.num(b)
        if d.d:
            self.assume(d > 0)
        else:
            self.core.CTX.assume_atom(d.n, '>')

    def assume_ne(self, a, b=0):
        d = self.num(a) - self.num(b)
        if d.d:
            self.assume(d != 0)
        else:
            self.core.CTX.assume_atom(d.n, '!=')

    def assume(self, cond):
        if not cond:
            raise self.core.PathAbort()

    # ---- assertions
    def _iter(self, a, b):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            sa, sb = np.shape(a), np.shape(b)
            if sa != sb and sa != () and sb != ():
                yield None, (sa, sb), None
                return
            shape = sa or sb
            A = self.arrm.to_sym(np.asarray(a, object) if not isinstance(a, np.ndarray) else a)
            B = self.arrm.to_sym(np.asarray(b, object) if not isinstance(b, np.ndarray) else b)
            A = np.broadcast_to(A.view(np.ndarray), shape)
            B = np.broadcast_to(B.view(np.ndarray), shape)
            for i in np.ndindex(*shape):
                yield i, self.core.S.of(A[i]), self.core.S.of(B[i])
        else:
            yield (), self.core.S.of(a), self.core.S.of(b)

    def eq(self, a, b, label, known=None):
        for i, x, y in self._iter(a, b):
            lab = label if not i else '%s%s' % (label, list(i))
            if i is None:
                self._fail(lab + ' shape %s vs %s' % x, known=known)
                continue
            if x.sp or y.sp:
                self._decide(x.sp == y.sp and x.sp != 'nan', lab, known)
                continue
            self._atom(x - y, '!=', lab, known)

    def le(self, a, b, label, known=None):
        for i, x, y in self._iter(a, b):
            lab = label if not i else '%s%s' % (label, list(i))
            if i is None:
                self._fail(lab + ' shape %s vs %s' % x, known=known)
                continue
            if x.sp or y.sp:
                ok = x.sp != 'nan' and y.sp != 'nan' and (x.sp == '-inf' or y.sp == 'inf')
                self._decide(ok, lab, known)
                continue
            self._atom(x - y, '>', lab, known)

    def ge(self, a, b, label, known=None):
        self.le(b, a, label, known)

    def true(self, cond, label, known=None):
        self._decide(bool(cond), label, known)

    def finite(self, a, label, known=None):
        for i, x, _ in self._iter(a, 0.):
            self._decide(x.sp is None, '%s finite' % label, known)

    def _decide(self, ok, label, known=None):
        self.asserts += 1
        self.path_asserts += 1
        if ok:
            self.trivial += 1
            self.discharged += 1
        else:
            self._fail(label, known=known, counted=True)

    def _atom(self, d, badrel, label, known):
        """assert not (d badrel 0)"""
        core = self.core
        self.asserts += 1
        self.path_asserts += 1
        if d.n.is_zero():
            self.trivial += 1
            self.discharged += 1
            return
        n = core.numsign(d) if badrel != '!=' else d.n
        n = core.clear_exp(n)
        q = core.CTX.quick_sign(n)
        if q is not None:
            bad = (q != 0) if badrel == '!=' else q > 0
            if not bad:
                self.trivial += 1
                self.discharged += 1
                return
            self._fail(label, known=known, counted=True)
            return
        key = (n, badrel, frozenset(core.CTX.conskeys))
        r, m = core.solve(core.CTX.relevant([(n, badrel)]) + [(n, badrel)], core.CTX.assert_timeout)
        if r == 'unsat':
            self.discharged += 1
            return
        if r == 'sat' or r == 'unknown':
            self._fail(label, (n, badrel), known=known, counted=True, sure=(r == 'sat'), first=m)

    def _fail(self, label, neg=None, known=None, counted=False, sure=True, first=None):
        """collect candidate inputs for a failing assertion"""
        core = self.core
        if not counted:
            self.asserts += 1
            self.path_asserts += 1
        if sum(1 for c in self.cex if c['label'] == label and c.get('known') == known) >= 2:
            return
        cands = self.candidates(neg)
        if not cands:
            self.unknown.append(label)
            return
        if not sure:
            self.unknown.append(label)
        self.cex.append(dict(label=label, inputs=cands, known=known, sure=sure))
        if sum(1 for c in self.cex if not c['known'] and c['sure']) >= self.max_cex:
            raise Enough()

    def candidates(self, neg):
        core = self.core
        cons = list(core.CTX.cons)
        box = []
        for v in self.names.values():
            if v.n.is_const():
                continue
            box.append((core.padd(v.n, core.pconst(10)), '>='))
            box.append((core.padd(core.pconst(10), v.n, -1), '>='))
        tries = []
        if neg is None:
            tries = [box, []]
            negs = [[]]
        else:
            n, rel = neg
            negs = []
            for mg in (Fraction(1), Fraction(1, 20)):
                negs.append([(core.padd(n, core.pconst(-mg)), '>=')])
                if rel == '!=':
                    negs.append([(core.padd(core.pscale(n, -1), core.pconst(-mg)), '>=')])
            negs.append([(n, rel)])
            tries = [box, []]
        out = []
        for bx in tries:
            for ng in negs:
                if len(out) >= 4:
                    break
                r, m = core.solve(cons + ng + bx, 4000)
                if r == 'sat':
                    out.append(self.extract(self.integral(cons + ng + bx, m)))
            if out:
                break
        if not out:
            r, m = core.solve(cons, 4000)
            if r == 'sat':
                out.append(self.extract(m))
        return out

    def integral(self, cons, m):
        """a model in which the integer inputs are integers, when a greedy search finds one"""
        core = self.core
        for nm in sorted(self.ints):
            v = self.names[nm]
            x, ex = m.val(list(v.n.gens())[0])
            x = float(x) if x is not None else 0.
            for k in sorted(range(int(x) - 2, int(x) + 3), key=lambda k: abs(k - x)):
                c = (core.padd(v.n, core.pconst(-k)), '==')
                r, m1 = core.solve(cons + [c], 1500)
                if r == 'sat':
                    cons, m = cons + [c], m1
                    break
        return m

    def extract(self, m):
        d = {}
        for nm, v in self.names.items():
            gs = list(v.n.gens())
            if not gs:
                continue
            x, ex = m.val(gs[0])
            f = float(x) if x is not None else 0.
            G = core_gen(gs[0])
            if G.pos and f <= 0:
                f = 1.
            elif G.nonneg and f < 0:
                f = 0.
            d[nm] = f
        return d

    def raised(self, e):
        tb = traceback.extract_tb(e.__traceback__)
        where = ''
        for fr in reversed(tb):
            if '/regreg/' in fr.filename:
                where = '%s:%d' % (fr.filename.split('/regreg/', 1)[1], fr.lineno)
                break
        self._fail('raised %s at %s: %s' % (type(e).__name__, where, str(e)[:200]))

    def fall_back(self):
        """inputs the solver finds for a path that left the encodable code: replayed on the real code"""
        if self.fallbacks >= 4:
            return
        self.fallbacks += 1
        cands = self.candidates(None)[:2]
        if cands:
            self.cex.append(dict(label=FALLBACK, inputs=cands, known=None, sure=False))

    def run(self, deadline):
        core = self.core
        self.fallbacks = 0
        t0 = time.time()

        def one():
            self.begin()
            try:
                self.ob.fn(self, **self.ob.params)
            except core.Unsupported as e:
                tb = traceback.extract_tb(e.__traceback__)
                w = [f for f in tb if '/regreg/' in f.filename or '/props/' in f.filename]
                loc = ' @%s:%d' % (w[-1].filename.split('/')[-1], w[-1].lineno) if w else ''
                self.unsupported.append('%s%s' % (e, loc))
                self.fall_back()
                return
            except (RecursionError, MemoryError) as e:
                self.unsupported.append('%s' % type(e).__name__)
                return
            except Exception as e:
                self.raised(e)
                return
            self.paths_done += 1
            if self.path_asserts:
                self.reached += 1
                if self.witness is None or (self.reached in (2, 4, 8)):
                    r, m = core.solve(list(core.CTX.cons), 3000)
                    if r == 'sat':
                        self.witness = self.extract(self.integral(list(core.CTX.cons), m))
                    elif r == 'unsat':      # an undecided branch was taken
                        self.reached -= 1
        reason = None
        try:
            complete, reason = core.explore(one, deadline=deadline)
        except Enough:
            complete, reason = False, 'stopped after counterexamples'
        st = core.STATS
        return dict(name=self.ob.name, complete=complete, reason=reason,
                    cex=self.cex, unknown=self.unknown[:20], n_unknown=len(self.unknown),
                    unsupported=sorted(set(self.unsupported))[:10], n_unsupported=len(self.unsupported),
                    asserts=self.asserts, discharged=self.discharged, trivial=self.trivial,
                    reached=self.reached, witness=self.witness,
                    paths=st.paths, aborted=st.aborted, branches=st.branches,
                    queries=st.queries, sat=st.sat, unsat=st.unsat, squnknown=st.unknown,
                    solver_s=st.solver_s, wall=time.time() - t0)


# ------------------------------------------------------------- replay mode

class ReplayCtx(object):
    mode = 'replay'
    symbolic = False

    def __init__(self, ob, inputs, strict=False):
        self.ob = ob
        self.inputs = inputs
        self.failures = []
        self.asserts = 0
        self.scale = 1.
        for v in inputs.values():
            self.scale = max(self.scale, min(v * v, 1e8))

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, nonzero=False):
        v = self.inputs.get(name)
        if v is None:
            v = 1. if (pos or nonzero) else 0.
            if lo is not None:
                v = max(v, lo)
            if hi is not None:
                v = min(v, hi)
        if pos and not v > 0 or nonneg and not v >= 0 or nonzero and v == 0:
            raise AssumptionFailed(name)
        if lo is not None and v < float(lo) or hi is not None and v > float(hi):
            raise AssumptionFailed(name)
        return float(v)

    def vec(self, name, n, **kw):
        return np.array([self.real('%s%d' % (name, i), **kw) for i in range(n)], float)

    def mat(self, name, r, c, **kw):
        return np.array([[self.real('%s%d_%d' % (name, i, j), **kw) for j in range(c)]
                         for i in range(r)], float).reshape(r, c)

    def ivec(self, name, n, lo=-6, hi=6):
        return np.array([int(round(self.real('%s%d' % (name, i), lo=lo, hi=hi))) for i in range(n)], int)

    def imat(self, name, r, c, lo=-6, hi=6):
        return self.ivec(name, r * c, lo, hi).reshape(r, c)

    def iarr(self, x):
        return np.array(x, int)

    def real_of(self, a):
        return a.astype(float)

    def choice(self, name, options):
        options = list(options)
        v = self.inputs.get('choice_' + name, 0)
        for i in range(len(options) - 1):
            if round(v) == i:
                return options[i]
        return options[-1]

    def arr(self, x):
        return np.array(x, float)

    def zeros(self, shape):
        return np.zeros(shape)

    def num(self, x):
        return float(x)

    def assume_ge(self, a, b=0):
        if not a >= b - 1e-12 * self.scale:
            raise AssumptionFailed('ge')

    def assume_gt(self, a, b=0):
        if not a > b:
            raise AssumptionFailed('gt')

    def assume_ne(self, a, b=0):
        if a == b:
            raise AssumptionFailed('ne')

    def assume(self, cond):
        if not cond:
            raise AssumptionFailed('assume')

    def _tol(self, x, y):
        s = self.scale
        for v in (x, y):
            if math.isfinite(v):
                s = max(s, abs(v))
        return REPLAY_TOL * s

    def _pairs(self, a, b):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            sa, sb = np.shape(a), np.shape(b)
            if sa != sb and sa != () and sb != ():
                yield None, (sa, sb), None
                return
            shape = sa or sb
            A = np.broadcast_to(np.asarray(a, float), shape)
            B = np.broadcast_to(np.asarray(b, float), shape)
            for i in np.ndindex(*shape):
                yield i, float(A[i]), float(B[i])
        else:
            yield (), float(a), float(b)

    def _rec(self, ok, label, detail, known):
        self.asserts += 1
        if not ok:
            self.failures.append(dict(label=label, detail=detail, known=known))

    def eq(self, a, b, label, known=None):
        for i, x, y in self._pairs(a, b):
            lab = label if not i else '%s%s' % (label, list(i))
            if i is None:
                self._rec(False, lab + ' shape %s vs %s' % x, '', known)
                continue
            ok = (x == y) or (math.isfinite(x) and math.isfinite(y) and abs(x - y) <= self._tol(x, y))
            self._rec(ok, lab, '%r != %r' % (x, y), known)

    def le(self, a, b, label, known=None):
        for i, x, y in self._pairs(a, b):
            lab = label if not i else '%s%s' % (label, list(i))
            if i is None:
                self._rec(False, lab + ' shape %s vs %s' % x, '', known)
                continue
            ok = x <= y or (math.isfinite(x) and math.isfinite(y) and x - y <= self._tol(x, y))
            self._rec(ok, lab, '%r > %r' % (x, y), known)

    def ge(self, a, b, label, known=None):
        self.le(b, a, label, known)

    def true(self, cond, label, known=None):
        self._rec(bool(cond), label, 'false', known)

    def finite(self, a, label, known=None):
        for i, x, _ in self._pairs(a, 0.):
            self._rec(math.isfinite(x), '%s finite' % label, repr(x), known)

    def run(self):
        """'ok' | 'fail' | 'assume' | ('raise', text)"""
        import warnings
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            try:
                self.ob.fn(self, **self.ob.params)
            except AssumptionFailed as e:
                if not self.failures:
                    return 'assume', str(e)
            except Exception as e:
                tb = traceback.format_exc()
                self.failures.append(dict(label='raised %s' % type(e).__name__,
                                          detail='%s\n%s' % (e, tb[-1500:]), known=None, exc=True))
        return ('fail' if self.failures else 'ok'), self.failures
