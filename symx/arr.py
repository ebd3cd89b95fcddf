"""Object arrays of symbolic reals and a numpy stand-in for the code under
test.  The stand-in only changes *where values live* (object arrays holding
``S``); indexing, broadcasting, shapes and reductions stay numpy's own."""
from __future__ import annotations
import math
import itertools
import types
import numpy as np
from fractions import Fraction
from . import core
from .core import S, Unsupported, NAN, PINF, NINF, S0, S1

rnp = np                      # the real numpy


class SymArray(np.ndarray):
    __array_priority__ = 100

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return sym_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types_, args, kwargs):
        h = FUNCS.get(func)
        if h is not None:
            return h(*args, **kwargs)
        r = super().__array_function__(func, types_, args, kwargs)
        return post(r)

    def astype(self, dtype, *a, **k):
        kind = dtkind(dtype)
        if kind in ('f', 'O'):
            return self.copy()
        if kind == 'i':
            out = np.empty(self.shape, int)
            for i, v in np.ndenumerate(self):
                out[i] = int(v)
            return out
        if kind == 'b':
            out = np.empty(self.shape, bool)
            for i, v in np.ndenumerate(self):
                out[i] = bool(v != 0)
            return out
        raise Unsupported('astype %r' % (dtype,))

    def mean(self, axis=None, dtype=None, out=None, **k):
        return f_mean(self, axis)

    def std(self, axis=None, dtype=None, out=None, ddof=0, **k):
        return _each(f_var(self, axis, ddof), core.ssqrt)

    def var(self, axis=None, dtype=None, out=None, ddof=0, **k):
        return f_var(self, axis, ddof)

    def clip(self, min=None, max=None, out=None, **k):
        return f_clip(self, min, max, out=out)

    def any(self, axis=None, out=None, **k):
        return self.astype(bool).any(axis=axis, **k)

    def all(self, axis=None, out=None, **k):
        return self.astype(bool).all(axis=axis, **k)

    def round(self, decimals=0, out=None):
        return f_round(self, decimals)

    def tolist(self):
        return np.asarray(self, object).view(np.ndarray).tolist()

    def dot(self, b, out=None):
        return f_dot(self, b)

    def __matmul__(self, o):
        return f_dot(self, o)

    def __rmatmul__(self, o):
        return f_dot(o, self)

    def __reduce__(self):
        raise Unsupported('pickle')

    def __deepcopy__(self, memo):
        return self.copy()

    def __contains__(self, v):
        return any(bool(x == v) for x in self.flat)


class _FloatDType(object):
    pass


def trunc(v):
    """what storing a real number in an integer array keeps of it"""
    v = S.of(v)
    if v >= 0:
        for k in range(200):
            if v < k + 1:
                return S.of(k)
    else:
        for k in range(200):
            if v > -k - 1:
                return S.of(-k)
    raise Unsupported('integer part of a large number')


def isint(x):
    """integer typed in the code's eyes"""
    if isinstance(x, SymIntArray):
        return True
    if isinstance(x, (SymArray, S)):
        return False
    if isinstance(x, np.ndarray):
        return x.dtype.kind in 'iub'
    return isinstance(x, (bool, int, np.bool_, np.integer))


class SymIntArray(SymArray):
    """array of integer type with symbolic entries: real values stored in it lose their
    fractional part, in-place operations with a real result are refused"""
    __array_priority__ = 99

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        ins = [x.view(SymArray) if isinstance(x, SymIntArray) else x for x in inputs]
        out = kw.pop('out', None)
        if out is not None and not isinstance(out, tuple):
            out = (out,)
        d = []
        for x in inputs:
            if isinstance(x, SymIntArray):
                d.append(np.ones(1, int))
            elif isinstance(x, SymArray):
                d.append(np.ones(1))
            elif isinstance(x, S):
                d.append(1.)
            elif isinstance(x, np.ndarray):
                d.append(np.ones(1, x.dtype) if x.dtype != object else np.ones(1))
            else:
                d.append(x if np.ndim(x) == 0 else np.ones(1, np.asarray(x).dtype))
        if method == 'at':
            if isinstance(inputs[0], SymIntArray) and not all(isint(x) for x in inputs[2:]):
                raise TypeError("Cannot cast ufunc %r output from dtype('float64') to dtype('int64')" % ufunc.__name__)
            return sym_ufunc(ufunc, method, ins, kw)
        try:
            with np.errstate(all='ignore'):
                k = np.asarray(ufunc(*d) if method == '__call__' else ufunc(d[0], d[0])).dtype.kind
        except Exception:
            k = 'f'
        if out is not None and out[0] is not None:
            if isinstance(out[0], SymIntArray) and k == 'f':
                raise TypeError("Cannot cast ufunc %r output from dtype('float64') to dtype('int64') "
                                "with casting rule 'same_kind'" % ufunc.__name__)
            o = out[0].view(SymArray) if isinstance(out[0], SymIntArray) else out[0]
            sym_ufunc(ufunc, method, ins, dict(kw, out=(o,)))
            return out[0]
        r = sym_ufunc(ufunc, method, ins, kw)
        if k in 'iu' and isinstance(r, SymArray):
            r = r.view(SymIntArray)
        return r

    def __array_function__(self, func, types_, args, kwargs):
        r = SymArray.__array_function__(self, func, types_, args, kwargs)
        if isinstance(r, SymIntArray) and func in _SEQ_FUNCS and not all(isint(x) for x in args[0]):
            r = r.view(SymArray)
        return r

    def astype(self, dtype, *a, **k):
        kind = dtkind(dtype)
        if kind in ('f', 'O'):
            return np.array(self.view(np.ndarray)).view(SymArray)
        if kind == 'i':
            return self.copy()
        return SymArray.astype(self, dtype, *a, **k)

    def __setitem__(self, key, value):
        if not isint(value):
            if isinstance(value, (list, tuple)):
                value = to_sym(_nested(value)) if has_sym(value) else np.asarray(value)
            if not isint(value):
                if isinstance(value, np.ndarray) and value.dtype != object:
                    value = np.trunc(value)
                elif isinstance(value, np.ndarray):
                    value = _each(to_sym(value).view(SymArray), trunc)
                else:
                    value = trunc(value)
        if isinstance(value, np.ndarray) and value.dtype != object:
            value = to_sym(value)
        elif not isinstance(value, np.ndarray):
            value = S.of(value)
        SymArray.__setitem__(self, key, value)

    def clip(self, min=None, max=None, out=None, **k):
        if out is not None:
            raise Unsupported('clip of integers in place')
        return f_clip(self.view(SymArray), min, max)

    def round(self, decimals=0, out=None):
        return self.copy()


def dtkind(dtype):
    if dtype is None:
        return None
    if isinstance(dtype, type) and issubclass(dtype, float):
        return 'f'
    if dtype is object:
        return 'O'
    k = np.dtype(dtype).kind
    return {'u': 'i'}.get(k, k)


def wrap(a):
    if isinstance(a, SymArray):
        return a
    return a.view(SymArray)


def to_sym(a):
    """convert an array-like to SymArray with S entries (copy unless already)"""
    if isinstance(a, SymArray):
        return a
    a = np.asarray(a)
    out = np.empty(a.shape, object)
    if a.dtype == object:
        for i, v in np.ndenumerate(a):
            out[i] = S.of(v)
    else:
        fl = a.reshape(-1)
        o = out.reshape(-1)
        for i in range(fl.shape[0]):
            o[i] = S.of(fl[i])
        out = o.reshape(a.shape)
    return out.view(SymArray)


def has_sym(x, depth=3):
    if isinstance(x, (S, SymArray)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if depth and isinstance(x, (list, tuple)):
        return any(has_sym(y, depth - 1) for y in x)
    return False


def post(r):
    """results of numpy calls: float arrays and object arrays become SymArray"""
    if isinstance(r, SymArray):
        return r
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            return wrap(r)
        if r.dtype.kind == 'f':
            return to_sym(r)
        return r
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(post(x) for x in r)
    if isinstance(r, list):
        return [post(x) for x in r]
    return r


# ---------------------------------------------------------------- ufuncs

def _b(f):
    return lambda *a: f(*[S.of(x) for x in a])


def _max(a, b):
    if a.sp == 'nan' or b.sp == 'nan':
        return NAN
    return a if a >= b else b


def _min(a, b):
    if a.sp == 'nan' or b.sp == 'nan':
        return NAN
    return a if a <= b else b


def _logaddexp(a, b):
    if a.sp == '-inf':
        return b
    if b.sp == '-inf':
        return a
    return core.slog(core.sexp(a) + core.sexp(b))


def _copysign(a, b):
    return abs(a) if b >= 0 else -abs(a)


def _heaviside(a, b):
    return S1 if a > 0 else (b if a == 0 else S0)


def _expit(a):
    if a.sp:
        return {'nan': NAN, 'inf': S1, '-inf': S0}[a.sp]
    e = core.sexp(a)
    return e / (1 + e)


def _fl(a, f):
    return f(a)


VAL = {
    np.add: lambda a, b: a + b, np.subtract: lambda a, b: a - b,
    np.multiply: lambda a, b: a * b, np.true_divide: lambda a, b: a / b,
    np.power: lambda a, b: a ** b, np.float_power: lambda a, b: a ** b,
    np.negative: lambda a: -a, np.positive: lambda a: a,
    np.absolute: abs, np.fabs: abs, np.sqrt: core.ssqrt,
    np.square: lambda a: a * a, np.exp: core.sexp, np.log: core.slog,
    np.log1p: lambda a: core.slog(1 + a), np.expm1: lambda a: core.sexp(a) - 1,
    np.log2: lambda a: a.log2(), np.log10: lambda a: a.log10(),
    np.sign: lambda a: a.sign(), np.maximum: _max, np.minimum: _min,
    np.fmax: _max, np.fmin: _min, np.reciprocal: lambda a: 1 / a,
    np.logaddexp: _logaddexp, np.hypot: lambda a, b: core.ssqrt(a * a + b * b),
    np.copysign: _copysign, np.heaviside: _heaviside,
    np.conjugate: lambda a: a, np.rint: lambda a: a.rint(),
    np.floor: lambda a: a.floor(), np.ceil: lambda a: a.ceil(),
    np.remainder: lambda a, b: a % b,
    np.floor_divide: lambda a, b: a // b,
    np.tanh: lambda a: (core.sexp(2 * a) - 1) / (core.sexp(2 * a) + 1),
    np.cbrt: lambda a: a ** Fraction(1, 3),
}
BOOL = {
    np.greater: lambda a, b: a > b, np.greater_equal: lambda a, b: a >= b,
    np.less: lambda a, b: a < b, np.less_equal: lambda a, b: a <= b,
    np.equal: lambda a, b: a == b, np.not_equal: lambda a, b: a != b,
    np.isnan: lambda a: a.isnan(), np.isfinite: lambda a: a.isfinite(),
    np.isinf: lambda a: a.isinf(),
    np.logical_and: lambda a, b: bool(a != 0) and bool(b != 0),
    np.logical_or: lambda a, b: bool(a != 0) or bool(b != 0),
    np.logical_xor: lambda a, b: bool(a != 0) != bool(b != 0),
    np.logical_not: lambda a: not bool(a != 0),
    np.signbit: lambda a: a < 0,
}
try:
    import scipy.special as _sps
    VAL[_sps.expit] = _expit
    VAL[_sps.ndtr] = core.sPhi
    VAL[_sps.log_ndtr] = lambda a: core.slog(core.sPhi(a))
    VAL[_sps.xlogy] = lambda a, b: S0 if a == 0 else a * core.slog(b)
    VAL[_sps.logit] = lambda a: core.slog(a / (1 - a))
    VAL[_sps.log1p] = VAL[np.log1p]
    VAL[_sps.expm1] = VAL[np.expm1]
    if hasattr(_sps, 'log_expit'):
        VAL[_sps.log_expit] = lambda a: -core.slog(1 + core.sexp(-a))
except ImportError:
    _sps = None

IDENT = {np.add: 0, np.multiply: 1}
PY = {}
for _u, _f in list(VAL.items()):
    _kw = {}
    if _u in IDENT:
        _kw['identity'] = S.of(IDENT[_u])
    PY[_u] = np.frompyfunc(_b(_f), _u.nin, 1, **_kw)
for _u, _f in list(BOOL.items()):
    _kw = {}
    if _u is np.logical_and:
        _kw['identity'] = True
    if _u is np.logical_or:
        _kw['identity'] = False
    PY[_u] = np.frompyfunc(_b(_f), _u.nin, 1, **_kw)


def _strip(x):
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, S):
        a = np.empty((), object)
        a[()] = x
        return a
    if isinstance(x, (list, tuple)):
        return np.asarray(x, object) if has_sym(x) else np.asarray(x)
    return x


def sym_ufunc(ufunc, method, inputs, kw):
    kw = dict(kw)
    out = kw.pop('out', None)
    kw.pop('dtype', None)
    kw.pop('casting', None)
    kw.pop('order', None)
    kw.pop('subok', None)
    kw.pop('signature', None)
    where = kw.pop('where', True)
    if ufunc is np.matmul:
        r = f_dot(*inputs)
        return _assign(out, r)
    if ufunc not in PY:
        raise Unsupported('ufunc %s on symbolic data' % ufunc.__name__)
    f = PY[ufunc]
    ins = [_strip(x) for x in inputs]
    if method == 'at':
        tgt, idx = inputs[0], inputs[1]
        pos = np.arange(tgt.size).reshape(tgt.shape)[idx]
        flat = tgt.reshape(-1)
        if flat.base is not tgt and not np.shares_memory(flat, tgt):
            raise Unsupported('ufunc.at on non contiguous data')
        if len(inputs) == 3:
            vals = np.broadcast_to(_strip(inputs[2]), np.shape(pos))
            for p, v in zip(np.reshape(pos, -1), vals.reshape(-1)):
                flat[p] = S.of(VAL[ufunc](S.of(flat[p]), S.of(v)))
        else:
            for p in np.reshape(pos, -1):
                flat[p] = S.of(VAL[ufunc](S.of(flat[p])))
        return None
    if method == 'reduceat':
        a = ins[0]
        idx = list(inputs[1])
        axis = kw.get('axis', 0)
        if axis != 0:
            raise Unsupported('reduceat axis')
        pieces = []
        for i, s in enumerate(idx):
            e = idx[i + 1] if i + 1 < len(idx) else a.shape[0]
            pieces.append(f.reduce(a[s:e], axis=0) if s < e else a[s])
        r = np.array(pieces, object)
    elif where is not True:
        if method == 'reduce':
            a = ins[0]
            w = np.broadcast_to(np.asarray(where, bool), a.shape)
            ident = IDENT.get(ufunc, None)
            init = kw.pop('initial', ident)
            if init is None:
                raise Unsupported('where= in %s' % ufunc.__name__)
            a2 = a.copy()
            a2[~w] = S.of(init)
            r = f.reduce(a2, **kw)
        elif method == '__call__':
            w = np.asarray(where, bool)
            shp = np.broadcast(*(list(ins) + [w])).shape
            w = np.broadcast_to(w, shp)
            o = out[0] if out is not None else np.empty(shp, object)
            bc = [np.broadcast_to(np.asarray(x), shp) for x in ins]
            tgt = o
            for i in np.ndindex(*shp):
                if w[i]:
                    v = (VAL.get(ufunc) or BOOL[ufunc])(*[S.of(b[i]) for b in bc])
                    tgt[i] = v if ufunc in BOOL else S.of(v)
                elif out is None:
                    tgt[i] = NAN
            return tgt if not isinstance(tgt, np.ndarray) or out is not None else post(tgt)
        else:
            raise Unsupported('where=')
    elif method == 'reduce':
        a = ins[0]
        if ufunc in (np.logical_and, np.logical_or):
            b = np.empty(a.shape, bool)
            for i, v in np.ndenumerate(a):
                b[i] = bool(v != 0)
            r = getattr(ufunc, 'reduce')(b, **kw)
            return _assign(out, r)
        initial = kw.pop('initial', None)
        if initial is np._NoValue:
            initial = None
        if initial is not None:
            kw['initial'] = S.of(initial)
        axis = kw.get('axis', 0)
        if a.ndim == 0:
            r = a[()]
        else:
            if axis is None or isinstance(axis, tuple):
                ax = tuple(range(a.ndim)) if axis is None else tuple(x % a.ndim for x in axis)
                keep = kw.pop('keepdims', False)
                if keep is np._NoValue:
                    keep = False
                kw.pop('axis', None)
                rest = [i for i in range(a.ndim) if i not in ax]
                t = a.transpose(rest + list(ax)).reshape([a.shape[i] for i in rest] + [-1])
                r = f.reduce(t, axis=-1, **kw)
                if keep:
                    shp = [1 if i in ax else a.shape[i] for i in range(a.ndim)]
                    r = np.reshape(np.asarray(r, object) if not isinstance(r, np.ndarray) else r, shp)
            else:
                if kw.get('keepdims') is np._NoValue:
                    kw.pop('keepdims')
                r = f.reduce(a, **kw)
    elif method == 'accumulate':
        a = ins[0]
        if a.dtype != object:
            a = to_sym(a).view(np.ndarray)
        r = f.accumulate(a, **kw)
    elif method == 'outer':
        r = f.outer(*[np.asarray(x) for x in ins])
    else:
        r = f(*ins, **kw)
    if ufunc in BOOL:
        if isinstance(r, np.ndarray):
            r = r.astype(bool)
        else:
            r = np.bool_(r)
        return _assign(out, r)
    if isinstance(r, np.ndarray):
        if r.shape == () and not any(isinstance(x, np.ndarray) and np.shape(x) != () for x in inputs):
            r = S.of(r[()])
        else:
            r = wrap(r) if r.dtype == object else to_sym(r)
    elif r is not None:
        r = S.of(r)
    return _assign(out, r)


def _assign(out, r):
    if out is None:
        return r
    o = out[0] if isinstance(out, tuple) else out
    if o is None:
        return r
    if isinstance(o, np.ndarray) and o.dtype != object:
        if isinstance(r, np.ndarray) and r.dtype == bool:
            o[...] = r
            return o
        rr = np.asarray(r, object)
        kind = o.dtype.kind
        if kind in 'iub' and any(not (isinstance(v, (bool, np.bool_, int)) or
                                      (isinstance(v, S) and False)) for v in rr.reshape(-1)):
            raise TypeError("Cannot cast ufunc output from dtype('float64') to %r" % o.dtype)
        try:
            vals = np.array([float(S.of(v)) for v in rr.reshape(-1)]).reshape(rr.shape)
        except Unsupported:
            raise Unsupported('in-place update of a plain float array with symbolic data')
        o[...] = vals
        return o
    o[...] = r
    return o


# -------------------------------------------------------- numpy functions

def _each(a, f):
    if isinstance(a, np.ndarray):
        out = np.empty(a.shape, object)
        for i, v in np.ndenumerate(a):
            out[i] = f(S.of(v))
        return wrap(out)
    return f(S.of(a))


def f_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=0, where=True):
    a = to_sym(a) if not isinstance(a, np.ndarray) else a
    if keepdims is np._NoValue:
        keepdims = False
    if where is np._NoValue:
        where = True
    return np.add.reduce(a, axis=axis, keepdims=keepdims, where=where)


def f_mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    if not isinstance(a, np.ndarray):
        a = to_sym(a)
    if keepdims is np._NoValue:
        keepdims = False
    s = np.add.reduce(a, axis=axis, keepdims=keepdims)
    if axis is None:
        n = a.size
    elif isinstance(axis, tuple):
        n = int(np.prod([a.shape[i] for i in axis]))
    else:
        n = a.shape[axis]
    return s / n if n else NAN


def f_var(a, axis=None, ddof=0):
    a = to_sym(a)
    n = a.size if axis is None else a.shape[axis]
    m = f_mean(a, axis, keepdims=True)
    d = a - m
    return np.add.reduce(d * d, axis=axis) / (n - ddof)


def f_dot(a, b, out=None):
    A = to_sym(a) if not isinstance(a, np.ndarray) else a
    B = to_sym(b) if not isinstance(b, np.ndarray) else b
    if np.ndim(A) == 0 or np.ndim(B) == 0:
        r = a * b
        return _assign(out, r)
    if A.shape[-1] == 0:
        shp = A.shape[:-1] + (B.shape[:-2] + B.shape[-1:] if B.ndim > 1 else ())
        r = to_sym(np.zeros(shp))
        return _assign(out, r if shp else S0)
    A2 = _strip(A).astype(object)
    B2 = _strip(B).astype(object)
    r = np.dot(A2, B2)
    if isinstance(r, np.ndarray):
        r = to_sym(r)
    else:
        r = S.of(r)
    return _assign(out, r)


def f_norm(x, ord=None, axis=None, keepdims=False):
    x = to_sym(x)
    if axis is None:
        if x.ndim > 2 or (x.ndim == 2 and ord in (None, 'fro', 'f')) or ord is None:
            v = x.reshape(-1)
            r = core.ssqrt(S.of(np.add.reduce(v * v)), True)
            if keepdims:
                o = np.empty((1,) * x.ndim, object)
                o[...] = r
                return wrap(o)
            return r
        if x.ndim == 2:
            if ord in ('nuc', 2, -2):
                U, D, V = FUNCS[np.linalg.svd](x, full_matrices=False)
                return np.sum(D) if ord == 'nuc' else (np.max(D) if ord == 2 else np.min(D))
            raise Unsupported('matrix norm')
        axis = 0
    if isinstance(axis, tuple):
        if ord not in (None, 'fro', 2) or (ord == 2 and len(axis) == 2):
            raise Unsupported('matrix norm')
        s = np.add.reduce(x * x, axis=axis, keepdims=keepdims)
        return _each(s, lambda v: core.ssqrt(v, True))
    if ord is None or ord == 2:
        s = np.add.reduce(x * x, axis=axis, keepdims=keepdims)
        return _each(s, lambda v: core.ssqrt(v, True))
    if ord == 1:
        return np.add.reduce(abs(x), axis=axis, keepdims=keepdims)
    if ord == core.INF:
        return np.maximum.reduce(abs(x), axis=axis, keepdims=keepdims)
    if ord == 0:
        return np.add.reduce(to_sym(x != 0), axis=axis, keepdims=keepdims)
    raise Unsupported('norm ord')


def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = np.broadcast_arrays(_asobj(a), _asobj(b))
    out = np.empty(a.shape, bool)
    for i in np.ndindex(*a.shape):
        x, y = S.of(a[i]), S.of(b[i])
        if x.sp or y.sp:
            out[i] = x.sp == y.sp and x.sp != 'nan' or (equal_nan and x.sp == y.sp)
        elif x.isconst() and y.isconst() or True:
            d = x - y
            if d.isconst() and d.constval() == 0:
                out[i] = True
            else:
                out[i] = bool(abs(d) <= S.of(atol) + S.of(rtol) * abs(y))
    return out if out.shape else bool(out)


def f_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(np.all(f_isclose(a, b, rtol, atol, equal_nan)))


def f_array_equal(a, b, equal_nan=False):
    a, b = _asobj(a), _asobj(b)
    if a.shape != b.shape:
        return False
    return all(bool(S.of(x) == S.of(y)) for x, y in zip(a.reshape(-1), b.reshape(-1)))


def _asobj(a):
    if isinstance(a, SymArray):
        return a.view(np.ndarray)
    if isinstance(a, S):
        return _strip(a)
    return np.asarray(a, object) if has_sym(a) else np.asarray(a)


def f_clip(a, a_min=None, a_max=None, out=None, **k):
    if 'min' in k:
        a_min = k['min']
    if 'max' in k:
        a_max = k['max']
    r = a
    if not isinstance(r, (np.ndarray, S)):
        r = to_sym(r)
    if a_min is not None:
        r = np.maximum(r, a_min)
    if a_max is not None:
        r = np.minimum(r, a_max)
    if r is a:
        r = a + 0
    return _assign(out, r)


def f_round(a, decimals=0, out=None):
    def rd(v):
        if v.isconst():
            return S.of(round(Fraction(v.constval()), decimals))
        raise Unsupported('rounding symbolic data')
    return _each(a, rd)


def f_where(cond, x=None, y=None):
    if isinstance(cond, SymArray):
        cond = cond.astype(bool)
    if x is None:
        return np.nonzero(cond)
    if isinstance(cond, (S,)):
        cond = bool(cond)
    r = np.where(np.asarray(cond), _asobj(x), _asobj(y))
    return post(r) if r.shape else S.of(r[()])


def f_diag(v, k=0):
    v = to_sym(v)
    if v.ndim == 1:
        n = v.shape[0] + abs(k)
        out = to_sym(np.zeros((n, n)))
        for i in range(v.shape[0]):
            out[i + max(-k, 0), i + max(k, 0)] = v[i]
        return out
    return wrap(np.diagonal(v.view(np.ndarray), k).copy())


def f_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def g(v):
        if v.sp == 'nan':
            return S.of(nan)
        if v.sp == 'inf':
            return S.of(posinf if posinf is not None else np.finfo(float).max)
        if v.sp == '-inf':
            return S.of(neginf if neginf is not None else np.finfo(float).min)
        return v
    r = _each(x, g)
    if not copy and isinstance(x, np.ndarray):
        x[...] = r
        return x
    return r


def f_bincount(x, weights=None, minlength=0):
    if weights is None:
        return np.bincount(x, minlength=minlength)
    n = max(int(np.max(x)) + 1 if len(x) else 0, minlength)
    out = to_sym(np.zeros(n))
    for i, w in zip(x, weights):
        out[i] = out[i] + w
    return out


def f_einsum(sub, *ops, **k):
    k.pop('optimize', None)
    if '->' in sub:
        lhs, rhs = sub.replace(' ', '').split('->')
    else:
        lhs = sub.replace(' ', '')
        cnt = {}
        for c in lhs.replace(',', ''):
            cnt[c] = cnt.get(c, 0) + 1
        rhs = ''.join(sorted(c for c in cnt if cnt[c] == 1))
    ins = lhs.split(',')
    ops = [_asobj(o) for o in ops]
    dim = {}
    for s, o in zip(ins, ops):
        for c, n in zip(s, o.shape):
            dim[c] = n
    free = list(rhs)
    bound = [c for c in dim if c not in free]
    out = np.empty([dim[c] for c in free], object)
    for i in np.ndindex(*out.shape):
        env = dict(zip(free, i))
        tot = S0
        for j in itertools.product(*[range(dim[c]) for c in bound]):
            env.update(zip(bound, j))
            t = S1
            for s, o in zip(ins, ops):
                t = t * S.of(o[tuple(env[c] for c in s)])
            tot = tot + t
        out[i] = tot
    return wrap(out) if out.shape else out[()]


def f_det(a):
    a = to_sym(a)
    n = a.shape[0]
    if n == 0:
        return S1
    if n == 1:
        return a[0, 0]
    tot = S0
    for j in range(n):
        minor = np.delete(np.delete(a.view(np.ndarray), 0, 0), j, 1)
        t = a[0, j] * f_det(wrap(minor))
        tot = tot + t if j % 2 == 0 else tot - t
    return tot


def f_inv(a):
    a = to_sym(a)
    n = a.shape[0]
    d = f_det(a)
    out = np.empty((n, n), object)
    for i in range(n):
        for j in range(n):
            minor = np.delete(np.delete(a.view(np.ndarray), j, 0), i, 1)
            c = f_det(wrap(minor))
            out[i, j] = (c if (i + j) % 2 == 0 else -c) / d
    return wrap(out)


def f_solve(a, b):
    return f_dot(f_inv(a), b)


def f_sort(a, axis=-1, **k):
    a = to_sym(a).copy()
    if axis is None:
        a = a.reshape(-1)
        axis = -1
    v = a.view(np.ndarray)
    v.sort(axis=axis)
    return a


def f_argsort(a, axis=-1, **k):
    v = to_sym(a).view(np.ndarray)
    return v.argsort(axis=axis, kind='stable')


def f_cumsum(a, axis=None, dtype=None, out=None):
    a = to_sym(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    return np.add.accumulate(a, axis=axis)


def f_median(a, axis=None, **k):
    s = f_sort(a, axis=None if axis is None else axis)
    if axis is not None:
        raise Unsupported('median axis')
    n = s.shape[0]
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


def f_like(fill):
    def like(a, dtype=None, order='K', subok=True, shape=None, **k):
        shp = np.shape(a) if shape is None else shape
        kind = dtkind(dtype)
        if kind is None and isinstance(a, SymIntArray):
            return to_sym(np.full(shp, fill, float)).view(SymIntArray)
        if kind is None:
            if isinstance(a, (SymArray, S)) or has_sym(a):
                kind = 'f'
            else:
                kind = dtkind(np.asarray(a).dtype)
        if kind in ('f', 'O'):
            return to_sym(np.full(shp, fill, float))
        return np.full(shp, fill, dtype=dtype if dtype is not None else np.asarray(a).dtype)
    return like


def f_full_like(a, fill_value, dtype=None, order='K', subok=True, shape=None):
    shp = np.shape(a) if shape is None else shape
    kind = dtkind(dtype)
    if kind in ('i', 'b'):
        return np.full(shp, fill_value, dtype=dtype)
    out = np.empty(shp, object)
    if kind is None and isinstance(a, SymIntArray):
        out = wrap(out).view(SymIntArray)
        out[...] = fill_value
        return out
    out[...] = S.of(fill_value) if not isinstance(fill_value, np.ndarray) else fill_value
    return wrap(out)


def f_copyto(dst, src, casting=None, where=True):
    if where is True:
        dst[...] = src
    else:
        w = np.broadcast_to(where, dst.shape)
        dst[w] = np.broadcast_to(_asobj(src), dst.shape)[w]


def f_std(a, axis=None, dtype=None, out=None, ddof=0, **k):
    return _each(f_var(a, axis, ddof), core.ssqrt)


def f_unique(a, **k):
    v = to_sym(a).reshape(-1)
    if k:
        raise Unsupported('unique with options')
    s = f_sort(v)
    out = []
    for x in s:
        if not out or bool(x != out[-1]):
            out.append(x)
    return to_sym(np.array(out, object))


def f_copy(a, order='K', subok=False):
    return to_sym(a).copy()


def f_argmax(a, axis=None, out=None, **k):
    return to_sym(a).view(np.ndarray).argmax(axis=axis)


def f_argmin(a, axis=None, out=None, **k):
    return to_sym(a).view(np.ndarray).argmin(axis=axis)


def f_all(a, axis=None, out=None, keepdims=False, **k):
    b = _boolarr(a)
    return np.all(b, axis=axis)


def f_any(a, axis=None, out=None, keepdims=False, **k):
    b = _boolarr(a)
    return np.any(b, axis=axis)


def _boolarr(a):
    a = _asobj(a)
    if a.dtype != object:
        return a
    b = np.empty(a.shape, bool)
    for i, v in np.ndenumerate(a):
        b[i] = bool(v)
    return b


SVD_HOOK = [None]


def f_svd(a, full_matrices=True, compute_uv=True, hermitian=False):
    if SVD_HOOK[0] is None:
        raise Unsupported('svd')
    return SVD_HOOK[0](a, full_matrices, compute_uv)


def f_pinv(a, *args, **k):
    raise Unsupported('pinv')


def f_qr(a, *args, **k):
    raise Unsupported('qr')


def f_eigh(a, *args, **k):
    raise Unsupported('eigh')


def f_outer(a, b, out=None):
    return np.multiply.outer(np.reshape(to_sym(a), -1), np.reshape(to_sym(b), -1))


def f_inner(a, b):
    a, b = to_sym(a), to_sym(b)
    return f_dot(a, b.T)


def f_vdot(a, b):
    return f_dot(to_sym(a).reshape(-1), to_sym(b).reshape(-1))


def f_prod(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return np.multiply.reduce(to_sym(a), axis=axis)


def f_max(a, axis=None, out=None, keepdims=False, initial=None, **k):
    a = to_sym(a)
    kw = {}
    if initial is not None and initial is not np._NoValue:
        kw['initial'] = initial
    if keepdims is np._NoValue:
        keepdims = False
    return np.maximum.reduce(a, axis=axis, keepdims=keepdims, **kw)


def f_min(a, axis=None, out=None, keepdims=False, initial=None, **k):
    a = to_sym(a)
    kw = {}
    if initial is not None and initial is not np._NoValue:
        kw['initial'] = initial
    if keepdims is np._NoValue:
        keepdims = False
    return np.minimum.reduce(a, axis=axis, keepdims=keepdims, **kw)


FUNCS = {
    np.sum: f_sum, np.mean: f_mean, np.dot: f_dot, np.linalg.norm: f_norm,
    np.isclose: f_isclose, np.allclose: f_allclose, np.array_equal: f_array_equal,
    np.clip: f_clip, np.around: f_round, np.round_: f_round, np.where: f_where,
    np.diag: f_diag, np.nan_to_num: f_nan_to_num, np.bincount: f_bincount,
    np.einsum: f_einsum, np.linalg.det: f_det, np.linalg.inv: f_inv,
    np.linalg.solve: f_solve, np.sort: f_sort, np.argsort: f_argsort,
    np.cumsum: f_cumsum, np.median: f_median,
    np.zeros_like: f_like(0.), np.ones_like: f_like(1.), np.empty_like: f_like(0.),
    np.full_like: f_full_like, np.copyto: f_copyto, np.std: f_std,
    np.var: lambda a, axis=None, dtype=None, out=None, ddof=0, **k: f_var(a, axis, ddof),
    np.unique: f_unique, np.copy: f_copy, np.argmax: f_argmax, np.argmin: f_argmin,
    np.all: f_all, np.any: f_any, np.linalg.svd: f_svd, np.linalg.pinv: f_pinv,
    np.linalg.qr: f_qr, np.linalg.eigh: f_eigh, np.outer: f_outer, np.inner: f_inner,
    np.vdot: f_vdot, np.prod: f_prod, np.product: f_prod,
    np.max: f_max, np.amax: f_max, np.min: f_min, np.amin: f_min,
    np.average: lambda a, axis=None, weights=None, **k: (f_mean(a, axis) if weights is None
                                                         else f_sum(to_sym(a) * weights, axis) / f_sum(weights)),
    np.real: lambda a: a, np.isscalar: np.isscalar,
    np.round: f_round,
}
FUNCS.pop(np.isscalar, None)


def s_array_function(self, func, types_, args, kwargs):
    h = FUNCS.get(func)
    if h is not None:
        return h(*args, **kwargs)
    args = tuple(_strip(a) if isinstance(a, S) else a for a in args)
    return post(func(*args, **kwargs))


S.__array_function__ = s_array_function


# --------------------------------------------------------- the np stand-in

def _dtype_is_float(dtype, default=True):
    if dtype is None:
        return default
    return dtkind(dtype) in ('f', 'O')


def _mapdt(dtype):
    if isinstance(dtype, type) and issubclass(dtype, float):
        return float
    if isinstance(dtype, list):
        return [tuple(float if (isinstance(y, type) and issubclass(y, float)) else y for y in x) for x in dtype]
    return dtype


def c_zeros(fill):
    def create(shape, dtype=None, order='C', **k):
        if _dtype_is_float(dtype):
            if isinstance(shape, S):
                raise TypeError('symbolic shape')
            return to_sym(np.full(shape, fill, float))
        return np.full(shape, fill, dtype=dtype)
    return create


def c_full(shape, fill_value, dtype=None, order='C', **k):
    if isinstance(fill_value, (bool, int, np.bool_, np.integer)) and dtype is None:
        return np.full(shape, fill_value)
    if _dtype_is_float(dtype):
        out = np.empty(shape, object)
        out[...] = S.of(fill_value) if not isinstance(fill_value, np.ndarray) else fill_value
        return wrap(out)
    return np.full(shape, fill_value, dtype=dtype)


def c_array(obj, dtype=None, copy=True, order='K', subok=False, ndmin=0, **k):
    if isinstance(obj, SymArray):
        if dtype is not None and dtkind(dtype) not in ('f', 'O'):
            return obj.astype(dtype)
        if dtype is not None and isinstance(obj, SymIntArray):
            obj = obj.astype(float)
        r = obj.copy() if copy else obj
    elif has_sym(obj):
        if dtype is not None and dtkind(dtype) not in ('f', 'O'):
            return to_sym(_nested(obj)).astype(dtype)
        r = to_sym(_nested(obj))
    else:
        dt = _mapdt(dtype)
        a = np.array(obj, dtype=dt, copy=copy, order=order, subok=subok)
        r = to_sym(a) if a.dtype.kind == 'f' else a
    while r.ndim < ndmin:
        r = r[None]
    return r


def _nested(obj):
    """nested sequence with symbolic leaves -> object ndarray"""
    if isinstance(obj, np.ndarray):
        return obj.view(np.ndarray)
    if isinstance(obj, (list, tuple)):
        parts = [_nested(o) for o in obj]
        shapes = set(np.shape(p) for p in parts)
        if len(shapes) != 1:
            raise ValueError('setting an array element with a sequence: inhomogeneous shape')
        shp = shapes.pop()
        out = np.empty((len(parts),) + shp, object)
        for i, p in enumerate(parts):
            out[i] = p if shp else (p[()] if isinstance(p, np.ndarray) else p)
        return out
    a = np.empty((), object)
    a[()] = S.of(obj)
    return a


def c_asarray(obj, dtype=None, order=None, **k):
    if isinstance(obj, SymArray):
        if dtype is not None and dtkind(dtype) not in ('f', 'O'):
            return obj.astype(dtype)
        if dtype is not None and isinstance(obj, SymIntArray):
            return obj.astype(float)
        return obj
    return c_array(obj, dtype=dtype, copy=False)


def c_atleast_2d(*a):
    r = [post(np.atleast_2d(c_asarray(x))) for x in a]
    return r[0] if len(r) == 1 else r


def c_atleast_1d(*a):
    r = [post(np.atleast_1d(c_asarray(x))) for x in a]
    return r[0] if len(r) == 1 else r


def c_float64(x=0.):
    if isinstance(x, (S, SymArray)):
        return x
    return np.float64(x)


class _Random(object):
    """random numbers: arbitrary (fresh symbolic) values when enabled"""
    hook = None

    def __getattr__(self, name):
        if _Random.hook is not None:
            return _Random.hook(name)
        raise Unsupported('np.random.%s' % name)


class _Linalg(object):
    LinAlgError = np.linalg.LinAlgError

    def __getattr__(self, name):
        f = getattr(np.linalg, name)
        return wrapfn(f)


def _argconv(x):
    if isinstance(x, (list, tuple)) and has_sym(x):
        return to_sym(_nested(x)) if _homog(x) else x
    if isinstance(x, np.ndarray) and not isinstance(x, SymArray) and x.dtype == object:
        return wrap(x)
    return x


def _homog(x):
    try:
        _nested(x)
        return True
    except Exception:
        return False


_SEQ_FUNCS = set()
for _n in ('hstack', 'vstack', 'concatenate', 'column_stack', 'stack', 'dstack', 'block', 'row_stack'):
    _SEQ_FUNCS.add(getattr(np, _n))


def wrapfn(f):
    if not callable(f) or isinstance(f, type):
        return f

    def w(*args, **kw):
        if f in _SEQ_FUNCS:
            seq = [to_sym(np.asarray(x, object)) if isinstance(x, S) or has_sym(x) and not isinstance(x, np.ndarray)
                   else (x if isinstance(x, np.ndarray) else x) for x in args[0]]
            return post(f(seq, *args[1:], **kw))
        if 'dtype' in kw:
            kw['dtype'] = _mapdt(kw['dtype'])
        args = tuple(_argconv(a) for a in args)
        return post(f(*args, **kw))
    w.__name__ = getattr(f, '__name__', 'fn')
    return w


class UfuncProxy(object):
    def __init__(self, u):
        self._u = u
        self.__name__ = u.__name__

    def __call__(self, *a, **k):
        return post(self._u(*[_argconv(x) for x in a], **k))

    def reduce(self, a, *r, **k):
        return post(self._u.reduce(_argconv(a), *r, **k))

    def accumulate(self, a, *r, **k):
        return post(self._u.accumulate(_argconv(a), *r, **k))

    def outer(self, a, b, **k):
        return post(self._u.outer(_argconv(a), _argconv(b), **k))

    def at(self, *a, **k):
        return self._u.at(*a, **k)

    def reduceat(self, a, *r, **k):
        return post(self._u.reduceat(a, *r, **k))


class _CClass(object):
    def __init__(self, base):
        self.base = base

    def __getitem__(self, key):
        if has_sym(key if isinstance(key, tuple) else (key,)):
            parts = key if isinstance(key, tuple) else (key,)
            parts = [to_sym(p) if not isinstance(p, np.ndarray) else p for p in parts]
            if self.base is np.c_:
                return post(np.column_stack(parts))
            return post(np.hstack([np.atleast_1d(p) for p in parts]))
        return post(self.base[key])


class NumpyProxy(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'numpy')
        self.__dict__['_cache'] = {}

    def __getattr__(self, name):
        c = self.__dict__['_cache']
        if name in c:
            return c[name]
        v = getattr(np, name)
        if isinstance(v, np.ufunc):
            v = UfuncProxy(v)
        elif isinstance(v, (types.FunctionType, types.BuiltinFunctionType)):
            v = wrapfn(v)
        c[name] = v
        return v


def make_proxy():
    p = NumpyProxy()
    d = p._cache
    d.update(zeros=c_zeros(0.), ones=c_zeros(1.), empty=c_zeros(0.), full=c_full,
             array=c_array, asarray=c_asarray, asanyarray=c_asarray,
             ascontiguousarray=c_ascontig, asfortranarray=c_asarray,
             asfarray=c_asarray, require=c_asarray,
             zeros_like=f_like(0.), ones_like=f_like(1.), empty_like=f_like(0.),
             full_like=f_full_like,
             atleast_1d=c_atleast_1d, atleast_2d=c_atleast_2d,
             random=_Random(), linalg=_Linalg(), float64=np.float64,
             c_=_CClass(np.c_), r_=_CClass(np.r_),
             testing=np.testing, ndarray=np.ndarray,
             bool=np.bool_, int=np.int_, float=float,
             dtype=lambda x, *a, **k: np.dtype(_mapdt(x), *a, **k))
    for n in ('int', 'bool'):
        d[n] = {'int': int, 'bool': bool}[n]
    return p


def c_ascontig(a, dtype=None):
    a = c_asarray(a, dtype)
    if isinstance(a, np.ndarray) and not a.flags.c_contiguous:
        return a.copy() if isinstance(a, SymArray) else np.ascontiguousarray(a)
    return a
