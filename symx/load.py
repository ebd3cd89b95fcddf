"""Load regreg from /repo's *current source* for symbolic execution.

Every module of the package is compiled from the file in the source tree and
executed with a builtins dict of our own: ``import numpy`` inside regreg gives
the stand-in of symx.arr, ``float`` accepts symbolic reals, and the compiled
kernels (.pyx / .c) are translated to Python from their source at load time.
Nothing of regreg is modelled by hand.
"""
from __future__ import annotations
import ast
import builtins
import importlib.abc
import importlib.machinery
import os
import sys
import types
import numpy as np
import scipy.sparse
from . import core, arr
from .core import S, Unsupported

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'regreg'
ENCODED = {}          # code object -> "file:qualname"
LOADED = {}           # module -> file


# ------------------------------------------------------------------ float()

class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.float, S))

    def __subclasscheck__(cls, c):
        return issubclass(c, (builtins.float, S))


class float_(builtins.float, metaclass=_FloatMeta):
    def __new__(cls, x=0.):
        if isinstance(x, S):
            return x
        if isinstance(x, np.ndarray) and x.dtype == object:
            if x.size == 1:
                return x.reshape(-1)[0]
            raise TypeError('only size-1 arrays can be converted to Python scalars')
        return builtins.float(x)


def int_(x=0, *a):
    if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
        x = x.reshape(-1)[0]
    return builtins.int(x, *a)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)


class intcls(builtins.int, metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        return int_(x, *a)


def max_(*args, **kw):
    return builtins.max(*args, **kw)


def print_(*a, **k):
    return None


NP = arr.make_proxy()


# --------------------------------------------------------- external stand-ins

class ModProxy(types.ModuleType):
    def __init__(self, real, over):
        types.ModuleType.__init__(self, real.__name__)
        self.__dict__['_real'] = real
        self.__dict__['_over'] = over

    def __getattr__(self, name):
        o = self.__dict__['_over']
        if name in o:
            return o[name]
        return getattr(self.__dict__['_real'], name)


def _lift(f):
    def g(*a):
        if any(isinstance(x, np.ndarray) for x in a):
            bc = np.broadcast(*[np.asarray(x, object) if not isinstance(x, np.ndarray) else x for x in a])
            out = np.empty(bc.shape, object)
            for i, vals in enumerate(bc):
                out.reshape(-1)[i] = f(*[S.of(v) for v in vals])
            return arr.wrap(out)
        return f(*[S.of(x) for x in a])
    return g


class Norm(object):
    """scipy.stats.norm through the uninterpreted distribution function Phi"""
    cdf = staticmethod(_lift(core.sPhi))
    sf = staticmethod(_lift(lambda x: core.sPhi(-x)))
    pdf = staticmethod(_lift(core.sphi))
    logcdf = staticmethod(_lift(lambda x: core.slog(core.sPhi(x))))
    logsf = staticmethod(_lift(lambda x: core.slog(core.sPhi(-x))))
    logpdf = staticmethod(_lift(lambda x: core.slog(core.sphi(x))))

    @staticmethod
    def ppf(q):
        import scipy.stats
        if not core.S.of(q).isconst():
            raise Unsupported('scipy.stats.norm.ppf of symbolic data')
        return core.S.of(float(scipy.stats.norm.ppf(float(q))))

    def __getattr__(self, name):
        raise Unsupported('scipy.stats.norm.%s' % name)


class Gumbel(object):
    """gumbel_r: cdf exp(-exp(-x)), pdf exp(-x - exp(-x))"""
    cdf = staticmethod(_lift(lambda x: core.sexp(-core.sexp(-x))))
    logcdf = staticmethod(_lift(lambda x: -core.sexp(-x)))
    sf = staticmethod(_lift(lambda x: 1 - core.sexp(-core.sexp(-x))))
    logsf = staticmethod(_lift(lambda x: core.slog(1 - core.sexp(-core.sexp(-x)))))
    pdf = staticmethod(_lift(lambda x: core.sexp(-x) * core.sexp(-core.sexp(-x))))
    logpdf = staticmethod(_lift(lambda x: -x - core.sexp(-x)))
    ppf = staticmethod(_lift(lambda p: -core.slog(-core.slog(p))))

    def __getattr__(self, name):
        raise Unsupported('scipy.stats.gumbel_r.%s' % name)


class GumbelL(object):
    """gumbel_l: cdf 1 - exp(-exp(x)), pdf exp(x - exp(x))"""
    sf = staticmethod(_lift(lambda x: core.sexp(-core.sexp(x))))
    logsf = staticmethod(_lift(lambda x: -core.sexp(x)))
    cdf = staticmethod(_lift(lambda x: 1 - core.sexp(-core.sexp(x))))
    logcdf = staticmethod(_lift(lambda x: core.slog(1 - core.sexp(-core.sexp(x)))))
    pdf = staticmethod(_lift(lambda x: core.sexp(x) * core.sexp(-core.sexp(x))))
    logpdf = staticmethod(_lift(lambda x: x - core.sexp(x)))
    ppf = staticmethod(_lift(lambda p: core.slog(-core.slog(1 - p))))

    def __getattr__(self, name):
        raise Unsupported('scipy.stats.gumbel_l.%s' % name)


def rankdata(a, method='average', **k):
    import scipy.stats
    if not arr.has_sym(a):
        return scipy.stats.rankdata(a, method=method, **k)
    a = arr.to_sym(a).reshape(-1)
    n = a.shape[0]
    less = [[bool(a[j] < a[i]) for j in range(n)] for i in range(n)]
    eq = [[not less[i][j] and not less[j][i] for j in range(n)] for i in range(n)]
    mn = np.array([1 + sum(less[i]) for i in range(n)], int)
    mx = np.array([sum(less[i]) + sum(eq[i]) for i in range(n)], int)
    if method == 'min':
        return mn
    if method == 'max':
        return mx
    if method == 'average':
        return (mn + mx) / 2.
    if method == 'dense':
        v = sorted(set(mn.tolist()))
        return np.array([1 + v.index(m) for m in mn], int)
    out = np.zeros(n, int)
    seen = {}
    for i in range(n):
        out[i] = mn[i] + seen.get(mn[i], 0)
        seen[mn[i]] = seen.get(mn[i], 0) + 1
    return out


def isotonic_regression(y, sample_weight=None, y_min=None, y_max=None, increasing=True):
    """contract of sklearn's isotonic_regression: the exact weighted
    least-squares monotone fit (pool adjacent violators, exact arithmetic)"""
    y = arr.to_sym(y).reshape(-1)
    n = y.shape[0]
    w = [S.of(1)] * n if sample_weight is None else [S.of(v) for v in arr.to_sym(sample_weight).reshape(-1)]
    vals = list(y) if increasing else list(y)[::-1]
    ws = w if increasing else w[::-1]
    blocks = []
    for v, wt in zip(vals, ws):
        blocks.append([v, wt, 1])
        while len(blocks) > 1 and blocks[-2][0] > blocks[-1][0]:
            b = blocks.pop()
            a = blocks.pop()
            tw = a[1] + b[1]
            blocks.append([(a[0] * a[1] + b[0] * b[1]) / tw, tw, a[2] + b[2]])
    out = []
    for v, _, k in blocks:
        if y_min is not None and v < y_min:
            v = S.of(y_min)
        if y_max is not None and v > y_max:
            v = S.of(y_max)
        out.extend([v] * k)
    if not increasing:
        out = out[::-1]
    r = np.empty(n, object)
    for i, v in enumerate(out):
        r[i] = v
    return arr.wrap(r)


class _SpLinalg(object):
    LinAlgError = np.linalg.LinAlgError

    def __getattr__(self, name):
        if name == 'cho_factor':
            return lambda a, **k: ('chol', arr.to_sym(a))
        if name == 'cho_solve':
            return lambda fac, b, **k: arr.f_solve(fac[1], b)
        if name == 'cholesky_banded':
            return _band_factor
        if name == 'cho_solve_banded':
            return _band_solve
        import scipy.linalg
        f = getattr(scipy.linalg, name)

        def g(*a, **k):
            if any(arr.has_sym(x) for x in a):
                raise Unsupported('scipy.linalg.%s on symbolic data' % name)
            return arr.post(f(*a, **k))
        return g if callable(f) and not isinstance(f, type) else f


class _Band:
    """factor of a symmetric banded matrix: enters by the matrix it stands for"""
    def __init__(self, A, lower):
        self.A, self.lower = A, bool(lower)


def _band_factor(ab, overwrite_ab=False, lower=False, check_finite=True):
    ab = arr.to_sym(ab)
    u, n = ab.shape[0] - 1, ab.shape[1]
    A = arr.to_sym(np.zeros((n, n)))
    for i in range(n):
        for j in range(n):
            k = abs(i - j)
            if k <= u:
                A[i, j] = ab[k, min(i, j)] if lower else ab[u - k, max(i, j)]
    return _Band(A, lower)


def _band_solve(cb_and_lower, b, overwrite_b=False, check_finite=True):
    cb, lower = cb_and_lower
    if cb.lower != bool(lower):
        raise ValueError('factor in the other triangle')
    return arr.f_solve(cb.A, b)


SPLINALG = _SpLinalg()
_spmods = {}
HOOKS = {}            # 'module' -> replacement object


def _special():
    import scipy.special as sp
    over = {}
    for n in dir(sp):
        f = getattr(sp, n)
        if isinstance(f, np.ufunc):
            over[n] = arr.UfuncProxy(f)

    def logsumexp(a, axis=None, b=None, keepdims=False, return_sign=False):
        r = np.add.reduce(np.exp(arr.to_sym(a)) if b is None else arr.to_sym(b) * np.exp(arr.to_sym(a)),
                          axis=axis, keepdims=keepdims)
        return np.log(r) if isinstance(r, np.ndarray) else core.slog(r)
    over['logsumexp'] = logsumexp

    def softmax(a, axis=None):
        e = np.exp(arr.to_sym(a))
        return e / np.add.reduce(e, axis=axis, keepdims=True)
    over['softmax'] = softmax
    return ModProxy(sp, over)


def resolve(name):
    """replacement module for an absolute import, or None"""
    if name in HOOKS:
        return HOOKS[name]
    if name == 'numpy':
        return NP
    if name == 'numpy.linalg':
        return NP.linalg
    if name == 'numpy.random':
        return NP.random
    if name == 'scipy.linalg':
        return SPLINALG
    if name in _spmods:
        return _spmods[name]
    if name == 'scipy.special':
        m = _special()
    elif name == 'scipy.stats':
        import scipy.stats
        m = ModProxy(scipy.stats, dict(norm=Norm(), gumbel_r=Gumbel(), gumbel_l=GumbelL(), rankdata=rankdata))
    elif name == 'scipy':
        import scipy
        import scipy.linalg, scipy.special, scipy.stats, scipy.sparse, scipy.optimize
        m = ModProxy(scipy, dict(linalg=SPLINALG, special=resolve('scipy.special'),
                                 stats=resolve('scipy.stats')))
    elif name == 'sklearn.isotonic':
        import sklearn.isotonic
        m = ModProxy(sklearn.isotonic, dict(isotonic_regression=isotonic_regression))
    else:
        return None
    _spmods[name] = m
    return m


def import_(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        if fromlist:
            m = resolve(name)
            if m is not None:
                return m
            builtins.__import__(name, globals, locals, fromlist, level)
        top = name.split('.')[0]
        if not fromlist:
            if top in ('numpy', 'scipy'):
                builtins.__import__(name)
                return resolve(top)
            return builtins.__import__(name, globals, locals, fromlist, level)
    m = builtins.__import__(name, globals, locals, fromlist, level)
    return m


BUILTINS = dict(builtins.__dict__)
BUILTINS['__import__'] = import_
BUILTINS['float'] = float_
BUILTINS['int'] = intcls
BUILTINS['print'] = print_


def fmt_mod(template, args):
    """'...' % args, where symbolic numbers (in messages) print as their expression"""
    try:
        return template % args
    except Unsupported:
        pass

    def plain(x):
        return 0. if isinstance(x, S) else x
    if isinstance(args, dict):
        args = {k: plain(v) for k, v in args.items()}
    elif isinstance(args, tuple):
        args = tuple(plain(v) for v in args)
    else:
        args = plain(args)
    try:
        return template % args
    except Unsupported:
        return template


BUILTINS['__fmt_mod__'] = fmt_mod


class _Formatting(ast.NodeTransformer):
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            new = ast.Call(func=ast.Name(id='__fmt_mod__', ctx=ast.Load()), args=[node.left, node.right], keywords=[])
            return ast.copy_location(new, node)
        return node


def formatting(src, path):
    """string formatting goes through fmt_mod; nothing else is touched"""
    return ast.fix_missing_locations(_Formatting().visit(ast.parse(src, path)))


# ------------------------------------------------------------------- finder

EXT = {}       # module name -> callable(REPO) -> python source text


class Loader(importlib.abc.Loader):
    def __init__(self, path, source=None):
        self.path = path
        self.source = source

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        src = self.source
        if src is None:
            with open(self.path, encoding='utf8') as f:
                src = f.read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            code = compile(formatting(src, self.path), self.path, 'exec', dont_inherit=True)
        module.__dict__['__builtins__'] = BUILTINS
        LOADED[module.__name__] = self.path
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] != PKG:
            return None
        base = os.path.join(REPO, *name.split('.'))
        if name in EXT:
            file, gen_src = EXT[name]
            f = os.path.join(REPO, file)
            return importlib.machinery.ModuleSpec(name, Loader(f, gen_src(f)), origin=f)
        if os.path.isfile(os.path.join(base, '__init__.py')):
            f = os.path.join(base, '__init__.py')
            s = importlib.machinery.ModuleSpec(name, Loader(f), origin=f, is_package=True)
            s.submodule_search_locations = [base]
            s.has_location = True
            return s
        if os.path.isfile(base + '.py'):
            s = importlib.machinery.ModuleSpec(name, Loader(base + '.py'), origin=base + '.py')
            s.has_location = True
            return s
        return None


# ----------------------------------------------------- scipy.sparse operands

def _patch_sparse():
    import scipy.sparse as sp
    try:
        from scipy.sparse._base import _spbase as B
    except ImportError:
        from scipy.sparse._base import spmatrix as B
    from scipy.sparse._compressed import _cs_matrix
    from scipy.sparse._coo import _coo_base
    from scipy.sparse._dia import _dia_base

    def wrapcls(cls):
        for nm in ('_mul_vector', '_mul_multivector'):
            if nm in cls.__dict__:
                orig = cls.__dict__[nm]

                def f(self, other, orig=orig):
                    if isinstance(other, np.ndarray) and other.dtype == object:
                        return arr.f_dot(arr.to_sym(self.toarray()), other)
                    r = orig(self, other)
                    return r
                setattr(cls, nm, f)
    for c in (_cs_matrix, _coo_base, _dia_base, B):
        wrapcls(c)
    for c in (B, _cs_matrix, _coo_base, _dia_base):
        if 'multiply' in c.__dict__:
            def multiply(self, other, orig=c.__dict__['multiply']):
                if arr.has_sym(other):
                    return arr.to_sym(self.toarray()) * other
                return orig(self, other)
            c.multiply = multiply
    # listed (constant) symbolic entries are stored as doubles
    def deconst(v):
        if isinstance(v, np.ndarray) and v.dtype == object:
            return np.array([float(e) for e in v.reshape(-1)]).reshape(v.shape)
        return v
    for c in (_cs_matrix, _coo_base):
        def init(self, arg1, *a, orig=c.__init__, **kw):
            if isinstance(arg1, tuple):
                arg1 = tuple(deconst(v) for v in arg1)
            else:
                arg1 = deconst(arg1)
            return orig(self, arg1, *a, **kw)
        c.__init__ = init
    # A.dot(S-array) / A * x / A @ x all go through _mul_dispatch, which turns
    # object vectors into ndarray: keep SymArray on the way out
    orig_dispatch = B._mul_dispatch

    def dispatch(self, other):
        if isinstance(other, S):
            raise Unsupported('sparse matrix times symbolic scalar')
        if isinstance(other, np.ndarray) and other.dtype == object:
            a = arr.to_sym(self.toarray())
            if other.ndim == 1 and other.shape[0] != self.shape[1]:
                raise ValueError('dimension mismatch')
            if other.ndim == 2 and other.shape[0] != self.shape[1]:
                raise ValueError('dimension mismatch')
            return arr.f_dot(a, other)
        return orig_dispatch(self, other)
    B._mul_dispatch = dispatch

    orig_r = B.__rmul__

    def rdispatch(self, other):
        if isinstance(other, np.ndarray) and other.dtype == object:
            return arr.f_dot(other, arr.to_sym(self.toarray()))
        return orig_r(self, other)
    if hasattr(B, '_rmul_dispatch'):
        orig_rd = B._rmul_dispatch

        def rd(self, other):
            if isinstance(other, np.ndarray) and other.dtype == object:
                return arr.f_dot(other, arr.to_sym(self.toarray()))
            return orig_rd(self, other)
        B._rmul_dispatch = rd


# -------------------------------------------------------- function recording

_TOOL = 3


def start_recording():
    mon = sys.monitoring
    try:
        mon.use_tool_id(_TOOL, 'symx')
    except ValueError:
        return
    root = os.path.join(REPO, PKG) + os.sep

    def on_start(code, off):
        fn = code.co_filename
        if fn.startswith(root) and code.co_name not in ('<module>',):
            ENCODED[code] = '%s:%s' % (fn[len(REPO) + 1:], code.co_qualname)
        return mon.DISABLE
    mon.register_callback(_TOOL, mon.events.PY_START, on_start)
    mon.set_events(_TOOL, mon.events.PY_START)


def install():
    """make ``import regreg...`` symbolic in this process"""
    for k in list(sys.modules):
        if k == PKG or k.startswith(PKG + '.'):
            del sys.modules[k]
    from . import pyx
    pyx.register(EXT)
    sys.meta_path.insert(0, Finder())
    _patch_sparse()
    start_recording()
