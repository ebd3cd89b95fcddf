"""Translate the compiled kernels (.pyx, .c) of the current source tree into
Python that can be executed symbolically.

.pyx is parsed with Cython's own parser, .c with pycparser.  C typing is kept:
typed assignments coerce, C double division by zero raises ZeroDivisionError
(Cython's cdivision=False), C integer division floors, typed buffers check
dtype / ndim, unsigned C variables wrap, pointers are (buffer, offset) pairs.
"""
from __future__ import annotations
import os
import re
import numpy as np
from . import core, arr
from .core import S, Unsupported

MODS = {
    'regreg.atoms.piecewise_linear': 'regreg/atoms/piecewise_linear.pyx',
    'regreg.atoms.projl1_cython': 'regreg/atoms/projl1_cython.pyx',
    'regreg.atoms.mixed_lasso_cython': 'regreg/atoms/mixed_lasso_cython.pyx',
    'regreg.smooth.cox_utils': 'regreg/smooth/cox_utils.pyx',
}


def register(ext):
    for m, f in MODS.items():
        ext[m] = (f, translate_file)


# ------------------------------------------------------------- runtime part

DBL, INT, UINT, PTR = 'double', 'int', 'uint', 'ptr'


def rt_double(x):
    if isinstance(x, np.ndarray):
        if x.size != 1:
            raise TypeError('only size-1 arrays can be converted to Python scalars')
        x = x.reshape(-1)[0]
    if x is None:
        raise TypeError('must be real number, not NoneType')
    return S.of(x)


def rt_int(x):
    if isinstance(x, np.ndarray):
        x = x.reshape(-1)[0]
    if isinstance(x, S):
        raise TypeError('expected an integer')
    if isinstance(x, (float, np.floating)):
        raise TypeError('expected an integer')
    if x is None:
        raise TypeError('an integer is required')
    return int(x)


def rt_cast_int(x):
    return int(x)


def rt_uint(x):
    x = rt_int(x)
    if x < 0:
        raise OverflowError("can't convert negative value to size_t")
    return x


def rt_buf(kind, ndim, name):
    def f(x):
        if x is None:
            return x
        if not isinstance(x, np.ndarray):
            raise TypeError("Argument '%s' has incorrect type (expected numpy.ndarray, got %s)"
                            % (name, type(x).__name__))
        if kind is None:
            return x
        if x.ndim != ndim:
            raise ValueError('Buffer has wrong number of dimensions (expected %d, got %d)' % (ndim, x.ndim))
        k = x.dtype.kind
        if kind == 'f':
            if isinstance(x, arr.SymIntArray):
                raise ValueError("Buffer dtype mismatch, expected 'DTYPE_float_t' but got 'long'")
            if k == 'O':
                return x if isinstance(x, arr.SymArray) else arr.wrap(x)
            if k != 'f':
                raise ValueError("Buffer dtype mismatch, expected 'DTYPE_float_t' but got %r" % x.dtype)
            return x
        if isinstance(x, arr.SymIntArray):
            return x
        if k == 'O' or k == 'f':
            raise ValueError("Buffer dtype mismatch, expected 'DTYPE_intp_t' but got 'double'")
        if k not in 'iu':
            raise ValueError("Buffer dtype mismatch, expected 'DTYPE_intp_t' but got %r" % x.dtype)
        return x
    return f


def rt_cdiv(a, b):
    """C double / double with cdivision=False"""
    a, b = S.of(a), S.of(b)
    if b == 0:
        raise ZeroDivisionError('float division')
    return a / b


def rt_cidiv(a, b):
    if b == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    return a // b


def rt_odiv(a, b):
    return a / b


def rt_pow(a, b):
    return a ** b


def rt_min(a, b):
    # Cython inlines min(a, b) as  b if b < a else a
    return b if b < a else a


def rt_max(a, b):
    return b if b > a else a


class Ptr(object):
    __slots__ = ('a', 'off', 'kind')

    def __init__(self, a, off, kind):
        self.a = a
        self.off = off
        self.kind = kind

    def __add__(self, k):
        k = int(k)
        if k >= 1 << 63:
            k -= 1 << 64
        return Ptr(self.a, self.off + k, self.kind)
    __radd__ = __add__

    def __sub__(self, k):
        if isinstance(k, Ptr):
            return self.off - k.off
        return self + (-int(k))

    def get(self):
        if 0 <= self.off < self.a.shape[0]:
            v = self.a[self.off]
            if self.kind == UINT:
                return int(v) % (1 << 64)
            if self.kind == INT:
                return int(v)
            return S.of(v)
        OOB.append(('read', self.off, self.a.shape[0]))
        if self.kind == DBL:
            return core.var('oob%d' % len(OOB))
        raise IndexError('C read out of bounds: offset %d of %d' % (self.off, self.a.shape[0]))

    def set(self, v):
        if 0 <= self.off < self.a.shape[0]:
            self.a[self.off] = v
        else:
            OOB.append(('write', self.off, self.a.shape[0]))
        return v


OOB = []


def rt_ptr(kind, x):
    if isinstance(x, Ptr):
        return Ptr(x.a, x.off, kind)
    if not isinstance(x, np.ndarray) or x.ndim != 1:
        raise Unsupported('pointer to a non 1-D buffer')
    b = x
    if x.strides[0] != x.itemsize and x.shape[0] > 1:
        # raw pointer arithmetic ignores strides: model the underlying memory
        base = x
        while isinstance(base.base, np.ndarray):
            base = base.base
        raise Unsupported('raw pointer into a strided buffer')
    return Ptr(b, 0, kind)


def rt_wrap(x):
    return int(x) % (1 << 64)


def c_exp(x):
    return core.sexp(S.of(x))


def c_log(x):
    return core.slog(S.of(x))


def c_sqrt(x):
    return core.ssqrt(S.of(x))


def c_pow(a, b):
    return S.of(a) ** S.of(b)


def c_fabs(a):
    return abs(S.of(a))


def c_fmax(a, b):
    return S.of(a) if a >= b else S.of(b)


def c_fmin(a, b):
    return S.of(a) if a <= b else S.of(b)


def c_div(a, b, integral):
    if integral:
        if b == 0:
            raise ZeroDivisionError('C integer division by zero')
        q = abs(a) // abs(b)
        return q if (a < 0) == (b < 0) else -q
    return S.of(a) / S.of(b)


def c_log1p(a):
    return core.slog(1 + S.of(a))


CFUNCS = {'exp': 'c_exp', 'log': 'c_log', 'sqrt': 'c_sqrt', 'fabs': 'c_fabs',
          'fmax': 'c_fmax', 'fmin': 'c_fmin', 'pow': 'c_pow', 'log1p': 'c_log1p'}

PRELUDE = ('from symx.pyx import (rt_double, rt_int, rt_uint, rt_buf, rt_cdiv, rt_cidiv, rt_odiv, '
           'rt_pow, rt_min, rt_max, rt_ptr, rt_wrap, c_exp, c_log, c_sqrt, c_fabs, c_fmax, c_fmin, '
           'c_pow, c_log1p, c_div, rt_cast_int, Ptr, S as S_)\nfrom symx.core import Unsupported as Unsupported_\n')


# ---------------------------------------------------------- Cython to Python

class Bad(Exception):
    pass


class PyxTranslator(object):
    def __init__(self, path, modname):
        self.path = path
        self.mod = modname
        self.typedefs = {}
        self.cfuncs = set()
        self.cfunc_types = {}
        self.cext = []           # python text of included C

    # types: ('c', DBL|INT|UINT), ('buf', kind, ndim), ('obj',)
    def ctype(self, bt):
        n = type(bt).__name__
        if n == 'TemplatedTypeNode':
            inner = self.ctype(bt.positional_args[0]) if bt.positional_args else ('obj',)
            nd = 1
            if bt.keyword_args is not None:
                for it in bt.keyword_args.key_value_pairs:
                    if it.key.value == 'ndim':
                        nd = int(it.value.value)
            kind = None
            if inner[0] == 'c':
                kind = 'f' if inner[1] == DBL else 'i'
            return ('buf', kind, nd)
        if n in ('CSimpleBaseTypeNode', 'NameNode', 'AttributeNode'):
            nm = bt.attribute if n == 'AttributeNode' else bt.name
            if nm is None:
                return ('obj',)
            if nm in self.typedefs:
                return self.typedefs[nm]
            if nm in ('float', 'double') or nm in ('float_t', 'float64_t', 'double_t', 'float32_t'):
                return ('c', DBL)
            if nm in ('int', 'long', 'short', 'int_t', 'intp_t', 'int64_t', 'int32_t', 'bint',
                      'Py_ssize_t', 'npy_intp', 'ssize_t'):
                return ('c', INT)
            if nm in ('size_t', 'uint_t', 'uint64_t', 'uint32_t'):
                return ('c', UINT)
            if nm == 'ndarray':
                return ('buf', None, None)
            if nm in ('void', 'object'):
                return ('obj',)
            return ('obj',)
        if n == 'MemoryViewSliceTypeNode':
            inner = self.ctype(bt.base_type_node)
            return ('buf', 'f' if inner == ('c', DBL) else 'i', len(bt.axes))
        raise Bad('type %s' % n)

    def declname(self, d):
        n = type(d).__name__
        if n == 'CNameDeclaratorNode':
            return d.name, False
        if n == 'CPtrDeclaratorNode':
            return self.declname(d.base)[0], True
        if n == 'CFuncDeclaratorNode':
            return self.declname(d.base)[0], False
        raise Bad(n)

    def module(self, tree):
        body = tree.body if hasattr(tree, 'body') else tree
        stats = body.stats if hasattr(body, 'stats') else [body]
        # collect typedefs, extern C, cfuncs first
        for s in stats:
            n = type(s).__name__
            if n == 'CTypeDefNode':
                self.typedefs[s.declarator.name] = self.ctype(s.base_type)
            if n == 'CFuncDefNode':
                self.cfunc_types[self.declname(s.declarator)[0]] = self.ctype(s.base_type)
        out = []
        for s in stats:
            n = type(s).__name__
            if n in ('CTypeDefNode', 'CImportStatNode', 'FromCImportStatNode'):
                continue
            if n == 'CDefExternNode':
                hdr = s.include_file
                cfile = os.path.join(os.path.dirname(self.path), re.sub(r'\.h$', '.c', hdr))
                src = None
                if os.path.exists(cfile):
                    src = translate_c(cfile)
                hpath = os.path.join(os.path.dirname(self.path), hdr)
                if src is None and os.path.exists(hpath):
                    src = translate_c(hpath)
                if src is not None:
                    out.append(src)
                continue
            if n == 'StatListNode':
                for t in s.stats:
                    out.extend(self.top(t))
                continue
            out.extend(self.top(s))
        return PRELUDE + '\n'.join(out) + '\n'

    def top(self, s):
        n = type(s).__name__
        if n in ('DefNode', 'CFuncDefNode'):
            try:
                return self.func(s, 0)
            except Bad as e:
                name = s.name if n == 'DefNode' else self.declname(s.declarator)[0]
                return ['def %s(*a, **k):' % name,
                        '    raise Unsupported_(%r)' % ('untranslated Cython: %s' % e)]
        f = Func(self, {}, [])
        return f.stat(s, 0)

    def func(self, s, ind):
        n = type(s).__name__
        if n == 'DefNode':
            name = s.name
            args = s.args
            body = s.body
            rettype = ('obj',)
            if s.star_arg or s.starstar_arg:
                raise Bad('star args')
        else:
            name = self.declname(s.declarator)[0]
            d = s.declarator
            while type(d).__name__ != 'CFuncDeclaratorNode':
                d = d.base
            args = d.args
            body = s.body
            rettype = self.ctype(s.base_type)
        types = {}
        argl = []
        coer = []
        f = Func(self, types, [])
        f.rettype = rettype
        for a in args:
            bt = a.base_type
            dn, ptr = self.declname(a.declarator)
            if dn == '' or dn is None:
                # untyped argument: name sits in the base type
                dn = bt.name
                ty = ('obj',)
            else:
                ty = self.ctype(bt)
            if ptr:
                raise Bad('pointer argument')
            types[dn] = ty
            dflt = ''
            if a.default is not None:
                dflt = '=' + f.expr(a.default)
            argl.append(dn + dflt)
            if ty[0] != 'obj':
                coer.append('%s = %s' % (dn, f.coerce(ty, dn, dn)))
        f.collect(body)
        f.infer(body)
        lines = ['%sdef %s(%s):' % ('    ' * ind, name, ', '.join(argl))]
        for c in coer:
            lines.append('    ' * (ind + 1) + c)
        b = f.stat(body, ind + 1)
        lines.extend(b or ['    ' * (ind + 1) + 'pass'])
        if rettype == ('c', DBL) or rettype == ('c', INT):
            pass
        return lines


class Func(object):
    def __init__(self, tr, types, _):
        self.tr = tr
        self.types = types
        self.rettype = ('obj',)

    def coerce(self, ty, src, name):
        if ty[0] == 'c':
            return {DBL: 'rt_double(%s)', INT: 'rt_int(%s)', UINT: 'rt_uint(%s)'}[ty[1]] % src
        if ty[0] == 'buf':
            return 'rt_buf(%r, %r, %r)(%s)' % (ty[1], ty[2], name, src)
        return src

    def collect(self, node):
        """declared variables of the function"""
        for n in walk(node):
            if type(n).__name__ == 'CVarDefNode':
                ty = self.tr.ctype(n.base_type)
                for d in n.declarators:
                    nm, ptr = self.tr.declname(d)
                    if ptr:
                        raise Bad('pointer variable')
                    if nm == '' and n.base_type.name:
                        # cdef implied_bound = ... : untyped
                        nm = n.base_type.name
                        ty2 = ('obj',)
                        self.types[nm] = ty2
                    else:
                        self.types[nm] = ty

    def infer(self, node):
        """C double inference for untyped locals (safe inference: all
        assignments are C doubles)"""
        asg = {}
        for n in walk(node):
            t = type(n).__name__
            if t == 'SingleAssignmentNode' and type(n.lhs).__name__ == 'NameNode':
                asg.setdefault(n.lhs.name, []).append(n.rhs)
            elif t == 'InPlaceAssignmentNode' and type(n.lhs).__name__ == 'NameNode':
                asg.setdefault(n.lhs.name, []).append(n)
            elif t == 'ForInStatNode':
                for m in walk(n.target):
                    if type(m).__name__ == 'NameNode':
                        asg.setdefault(m.name, []).append(None)
            elif t in ('SingleAssignmentNode', 'CascadedAssignmentNode'):
                lhs = [n.lhs] if t == 'SingleAssignmentNode' else n.lhs_list
                for l in lhs:
                    for m in walk(l):
                        if type(m).__name__ == 'NameNode' and type(l).__name__ == 'TupleNode':
                            asg.setdefault(m.name, []).append(None)
        for _ in range(3):
            for nm, rs in asg.items():
                if nm in self.types:
                    continue
                ok = True
                for r in rs:
                    if r is None:
                        ok = False
                    elif type(r).__name__ == 'InPlaceAssignmentNode':
                        ok = ok and self.ty(r.rhs) == DBL
                    else:
                        ok = ok and self.ty(r) == DBL
                if ok and rs:
                    self.types[nm] = ('c', DBL)

    def ty(self, e):
        """C type of an expression: DBL, INT, or None (object)"""
        n = type(e).__name__
        if n == 'NameNode':
            t = self.types.get(e.name)
            if t and t[0] == 'c':
                return INT if t[1] == UINT else t[1]
            return None
        if n == 'FloatNode':
            return DBL
        if n == 'IntNode':
            return INT
        if n == 'IndexNode':
            b = e.base
            if type(b).__name__ == 'NameNode':
                t = self.types.get(b.name)
                if t and t[0] == 'buf' and t[1]:
                    idx = e.index.args if type(e.index).__name__ == 'TupleNode' else [e.index]
                    if len(idx) == t[2] and all(self.ty(i) == INT for i in idx):
                        return DBL if t[1] == 'f' else INT
            if type(b).__name__ == 'AttributeNode' and b.attribute == 'shape' and \
                    type(b.obj).__name__ == 'NameNode' and self.types.get(b.obj.name, (0,))[0] == 'buf':
                return INT
            return None
        if n in ('AddNode', 'SubNode', 'MulNode', 'DivNode', 'PowNode', 'ModNode'):
            a, b = self.ty(e.operand1), self.ty(e.operand2)
            if a is None or b is None:
                return None
            if DBL in (a, b):
                return DBL
            if n == 'PowNode':
                return INT
            return INT
        if n in ('UnaryMinusNode', 'UnaryPlusNode'):
            return self.ty(e.operand)
        if n == 'SimpleCallNode' and type(e.function).__name__ == 'NameNode':
            if e.function.name in ('min', 'max') and len(e.args) == 2:
                ts = [self.ty(a) for a in e.args]
                if None not in ts:
                    return DBL if DBL in ts else INT
            t = self.tr.cfunc_types.get(e.function.name)
            if t and t[0] == 'c':
                return t[1]
            if e.function.name == 'abs' and len(e.args) == 1:
                return self.ty(e.args[0])
            return None
        if n == 'CondExprNode':
            a, b = self.ty(e.true_val), self.ty(e.false_val)
            return a if a == b else None
        if n == 'TypecastNode':
            t = self.tr.ctype(e.base_type)
            return t[1] if t[0] == 'c' else None
        return None

    # -- expressions
    def expr(self, e):
        n = type(e).__name__
        m = getattr(self, 'e_' + n, None)
        if m is None:
            raise Bad(n)
        return m(e)

    def e_NameNode(self, e):
        return e.name

    def e_IntNode(self, e):
        return '(%s)' % e.value if not re.match(r'^\d+$', str(e.value)) else str(e.value)

    def e_FloatNode(self, e):
        return str(e.value)

    def e_BoolNode(self, e):
        return repr(bool(e.value))

    def e_NoneNode(self, e):
        return 'None'

    def e_StringNode(self, e):
        return repr(str(e.unicode_value if e.unicode_value is not None else e.value))

    e_UnicodeNode = lambda self, e: repr(str(e.value))
    e_IdentifierStringNode = lambda self, e: repr(str(e.value))

    def e_BytesNode(self, e):
        return repr(bytes(e.value))

    def e_AttributeNode(self, e):
        if e.attribute == 'data' and type(e.obj).__name__ == 'NameNode' and \
                self.types.get(e.obj.name, (0,))[0] == 'buf':
            return self.expr(e.obj)
        return '%s.%s' % (self.expr(e.obj), e.attribute)

    def e_IndexNode(self, e):
        return '%s[%s]' % (self.expr(e.base), self.expr(e.index))

    def e_SliceIndexNode(self, e):
        return '%s[%s:%s]' % (self.expr(e.base), self.expr(e.start) if e.start is not None else '',
                              self.expr(e.stop) if e.stop is not None else '')

    def e_SliceNode(self, e):
        def g(x):
            return 'None' if x is None or type(x).__name__ == 'NoneNode' else self.expr(x)
        return 'slice(%s, %s, %s)' % (g(e.start), g(e.stop), g(e.step))

    def e_EllipsisNode(self, e):
        return '...'

    def e_TupleNode(self, e):
        return '(%s)' % ''.join(self.expr(a) + ', ' for a in e.args)

    def e_ListNode(self, e):
        return '[%s]' % ', '.join(self.expr(a) for a in e.args)

    def e_DictNode(self, e):
        return '{%s}' % ', '.join('%s: %s' % (self.expr(i.key), self.expr(i.value)) for i in e.key_value_pairs)

    def e_SimpleCallNode(self, e):
        if type(e.function).__name__ == 'NameNode' and e.function.name in ('min', 'max') and len(e.args) == 2:
            return 'rt_%s(%s)' % (e.function.name, ', '.join(self.expr(a) for a in e.args))
        return '%s(%s)' % (self.expr(e.function), ', '.join(self.expr(a) for a in e.args))

    def e_GeneralCallNode(self, e):
        pos = e.positional_args
        if type(pos).__name__ != 'TupleNode':
            raise Bad('star call')
        parts = [self.expr(a) for a in pos.args]
        if e.keyword_args is not None:
            if type(e.keyword_args).__name__ != 'DictNode':
                raise Bad('** call')
            for it in e.keyword_args.key_value_pairs:
                parts.append('%s=%s' % (it.key.value, self.expr(it.value)))
        return '%s(%s)' % (self.expr(e.function), ', '.join(parts))

    def bin(self, e, op):
        return '(%s %s %s)' % (self.expr(e.operand1), op, self.expr(e.operand2))

    e_AddNode = lambda self, e: self.bin(e, '+')
    e_SubNode = lambda self, e: self.bin(e, '-')
    e_MulNode = lambda self, e: self.bin(e, '*')
    e_PowNode = lambda self, e: self.bin(e, '**')
    e_ModNode = lambda self, e: self.bin(e, '%')
    e_IntBinopNode = lambda self, e: self.bin(e, e.operator)
    e_MatMultNode = lambda self, e: self.bin(e, '@')

    def e_DivNode(self, e):
        a, b = self.expr(e.operand1), self.expr(e.operand2)
        if e.operator == '//':
            return '(%s // %s)' % (a, b)
        return self.div(a, b, self.ty(e.operand1), self.ty(e.operand2))

    def div(self, a, b, ta, tb):
        if ta is None or tb is None:
            return 'rt_odiv(%s, %s)' % (a, b)
        if DBL in (ta, tb):
            return 'rt_cdiv(%s, %s)' % (a, b)
        return 'rt_cidiv(%s, %s)' % (a, b)

    def e_UnaryMinusNode(self, e):
        return '(-%s)' % self.expr(e.operand)

    def e_UnaryPlusNode(self, e):
        return '(+%s)' % self.expr(e.operand)

    def e_TildeNode(self, e):
        return '(~%s)' % self.expr(e.operand)

    def e_NotNode(self, e):
        return '(not %s)' % self.expr(e.operand)

    def e_BoolBinopNode(self, e):
        return '(%s %s %s)' % (self.expr(e.operand1), e.operator, self.expr(e.operand2))

    def e_PrimaryCmpNode(self, e):
        op = {'not_in': 'not in', 'is_not': 'is not', '<>': '!='}.get(e.operator, e.operator)
        s = '%s %s %s' % (self.expr(e.operand1), op, self.expr(e.operand2))
        c = getattr(e, 'cascade', None)
        while c is not None:
            op = {'not_in': 'not in', 'is_not': 'is not', '<>': '!='}.get(c.operator, c.operator)
            s += ' %s %s' % (op, self.expr(c.operand2))
            c = getattr(c, 'cascade', None)
        return '(%s)' % s

    def e_CondExprNode(self, e):
        t = getattr(e, 'test', None) or getattr(e, 'condition', None)
        return '(%s if %s else %s)' % (self.expr(e.true_val), self.expr(t), self.expr(e.false_val))

    def e_TypecastNode(self, e):
        t = self.tr.ctype(e.base_type)
        d = e.declarator
        if type(d).__name__ == 'CPtrDeclaratorNode':
            kind = t[1] if t[0] == 'c' else None
            if kind is None:
                raise Bad('pointer cast')
            return 'rt_ptr(%r, %s)' % (kind, self.expr(e.operand))
        if t[0] == 'c' and t[1] in (INT, UINT):
            return 'rt_cast_int(%s)' % self.expr(e.operand)
        return self.coerce(t, self.expr(e.operand), 'cast')

    def e_ImportNode(self, e):
        raise Bad('import expr')

    # -- statements
    def stat(self, s, ind):
        n = type(s).__name__
        m = getattr(self, 's_' + n, None)
        if m is None:
            raise Bad(n)
        return m(s, '    ' * ind, ind)

    def s_StatListNode(self, s, pad, ind):
        out = []
        for t in s.stats:
            out.extend(self.stat(t, ind))
        return out

    def s_PassStatNode(self, s, pad, ind):
        return [pad + 'pass']

    def s_ExprStatNode(self, s, pad, ind):
        if type(s.expr).__name__ in ('StringNode', 'UnicodeNode'):
            return [pad + 'pass']
        return [pad + self.expr(s.expr)]

    def s_PrintStatNode(self, s, pad, ind):
        return [pad + 'pass']

    def s_CVarDefNode(self, s, pad, ind):
        out = []
        for d in s.declarators:
            if getattr(d, 'default', None) is not None:
                nm, _ = self.tr.declname(d)
                if nm == '':
                    nm = s.base_type.name
                out.append(pad + '%s = %s' % (nm, self.coerce(self.types.get(nm, ('obj',)),
                                                              self.expr(d.default), nm)))
        return out

    def target(self, l):
        n = type(l).__name__
        if n == 'NameNode':
            return l.name
        if n in ('TupleNode', 'ListNode'):
            return '(%s)' % ''.join(self.target(a) + ', ' for a in l.args)
        return self.expr(l)

    def assign(self, l, src, pad):
        n = type(l).__name__
        if n == 'NameNode':
            ty = self.types.get(l.name, ('obj',))
            return [pad + '%s = %s' % (l.name, self.coerce(ty, src, l.name))]
        if n in ('TupleNode', 'ListNode'):
            out = [pad + '%s = %s' % (self.target(l), src)]
            for a in l.args:
                if type(a).__name__ == 'NameNode' and self.types.get(a.name, ('obj',))[0] != 'obj':
                    out.append(pad + '%s = %s' % (a.name, self.coerce(self.types[a.name], a.name, a.name)))
            return out
        if n == 'IndexNode' and self.ty(l) in (DBL, INT):
            f = 'rt_double' if self.ty(l) == DBL else 'rt_int'
            return [pad + '%s = %s(%s)' % (self.expr(l), f, src)]
        return [pad + '%s = %s' % (self.expr(l), src)]

    def s_SingleAssignmentNode(self, s, pad, ind):
        r = s.rhs
        if type(r).__name__ == 'ImportNode':
            name = r.module_name.value
            if r.name_list is None:
                if '.' in name and s.lhs.name == name.split('.')[0]:
                    return [pad + 'import %s' % name]
                return [pad + 'import %s as %s' % (name, s.lhs.name)]
            return [pad + 'import %s as %s' % (name, s.lhs.name)]
        return self.assign(s.lhs, self.expr(r), pad)

    def s_CascadedAssignmentNode(self, s, pad, ind):
        out = [pad + '_casc = %s' % self.expr(s.rhs)]
        for l in s.lhs_list:
            out.extend(self.assign(l, '_casc', pad))
        return out

    def s_InPlaceAssignmentNode(self, s, pad, ind):
        op = s.operator
        l = s.lhs
        tl = self.ty(l)
        if op == '/':
            r = self.div(self.expr(l), self.expr(s.rhs), tl, self.ty(s.rhs))
            if tl is None:
                return [pad + '%s /= %s' % (self.expr(l), self.expr(s.rhs))]
            return self.assign(l, r, pad)
        if tl is not None:
            return self.assign(l, '(%s %s %s)' % (self.expr(l), op, self.expr(s.rhs)), pad)
        return [pad + '%s %s= %s' % (self.expr(l), op, self.expr(s.rhs))]

    def s_IfStatNode(self, s, pad, ind):
        out = []
        for i, c in enumerate(s.if_clauses):
            out.append(pad + '%s %s:' % ('if' if i == 0 else 'elif', self.expr(c.condition)))
            out.extend(self.stat(c.body, ind + 1) or [pad + '    pass'])
        if s.else_clause is not None:
            out.append(pad + 'else:')
            out.extend(self.stat(s.else_clause, ind + 1) or [pad + '    pass'])
        return out

    def s_ForInStatNode(self, s, pad, ind):
        out = [pad + 'for %s in %s:' % (self.target(s.target), self.expr(s.iterator.sequence))]
        out.extend(self.stat(s.body, ind + 1) or [pad + '    pass'])
        if s.else_clause is not None:
            out.append(pad + 'else:')
            out.extend(self.stat(s.else_clause, ind + 1))
        return out

    def s_WhileStatNode(self, s, pad, ind):
        out = [pad + 'while %s:' % self.expr(s.condition)]
        out.extend(self.stat(s.body, ind + 1) or [pad + '    pass'])
        return out

    def s_BreakStatNode(self, s, pad, ind):
        return [pad + 'break']

    def s_ContinueStatNode(self, s, pad, ind):
        return [pad + 'continue']

    def s_ReturnStatNode(self, s, pad, ind):
        if s.value is None:
            return [pad + 'return']
        return [pad + 'return %s' % self.coerce(self.rettype, self.expr(s.value), 'return')]

    def s_AssertStatNode(self, s, pad, ind):
        c = getattr(s, 'cond', None) or getattr(s, 'condition', None)
        return [pad + 'assert %s' % self.expr(c)]

    def s_RaiseStatNode(self, s, pad, ind):
        return [pad + 'raise %s' % (self.expr(s.exc_type) if s.exc_type is not None else '')]

    def s_DelStatNode(self, s, pad, ind):
        return [pad + 'del %s' % ', '.join(self.expr(a) for a in s.args)]

    def s_FromImportStatNode(self, s, pad, ind):
        mod = s.module.module_name.value
        lvl = s.module.level or 0
        names = ', '.join('%s as %s' % (n, t.name) for n, t in s.items)
        return [pad + 'from %s%s import %s' % ('.' * max(lvl, 0), mod, names)]

    def s_CImportStatNode(self, s, pad, ind):
        return []

    def s_DefNode(self, s, pad, ind):
        return self.tr.func(s, ind)


def walk(node):
    from Cython.Compiler.Nodes import Node
    todo = [node]
    while todo:
        n = todo.pop()
        if isinstance(n, (list, tuple)):
            todo.extend(reversed(list(n)))
            continue
        if not isinstance(n, Node):
            continue
        yield n
        for a in n.child_attrs or ():
            c = getattr(n, a, None)
            if c is not None:
                todo.append(c)


def translate_file(path):
    try:
        from Cython.Compiler.TreeFragment import parse_from_strings
        with open(path, encoding='utf8') as f:
            src = f.read()
        modname = os.path.basename(path)[:-4]
        tree = parse_from_strings(modname, src)        # as a module: comments, directives
        bad = {k: v for k, v in (tree.directive_comments or {}).items()
               if k in ('cdivision', 'wraparound', 'overflowcheck', 'cpow') or k == 'boundscheck' and not v}
        if bad:
            raise Unsupported('compiler directives %s in %s' % (bad, path))
        return PyxTranslator(path, modname).module(tree)
    except Bad as e:
        raise Unsupported('cannot translate %s: %s' % (path, e))


# --------------------------------------------------------------- C to Python

class CTranslator(object):
    def __init__(self):
        self.out = []

    def ctype(self, t):
        from pycparser import c_ast
        if isinstance(t, c_ast.PtrDecl):
            return ('ptr', self.ctype(t.type))
        if isinstance(t, c_ast.ArrayDecl):
            return ('ptr', self.ctype(t.type))
        if isinstance(t, c_ast.TypeDecl):
            return self.ctype(t.type)
        if isinstance(t, c_ast.IdentifierType):
            nm = ' '.join(t.names)
            if 'double' in nm or 'float' in nm:
                return DBL
            if nm in ('size_t',) or 'unsigned' in nm:
                return UINT
            if nm == 'void':
                return None
            return INT
        if isinstance(t, c_ast.Typename):
            return self.ctype(t.type)
        raise Bad('C type %s' % type(t).__name__)

    def translate(self, ast):
        from pycparser import c_ast
        out = []
        for e in ast.ext:
            if isinstance(e, c_ast.FuncDef):
                try:
                    out.extend(self.func(e))
                except Bad as ex:
                    out.extend(['def %s(*a):' % e.decl.name,
                                '    raise Unsupported_(%r)' % ('untranslated C: %s' % ex)])
            elif isinstance(e, c_ast.Decl) and not isinstance(e.type, c_ast.FuncDecl) and e.init is not None:
                self.vars = {}
                out.append('%s = %s' % (e.name, self.expr(e.init)))
        return '\n'.join(out)

    def func(self, f):
        from pycparser import c_ast
        self.vars = {}
        args = []
        for p in (f.decl.type.args.params if f.decl.type.args else []):
            if isinstance(p, c_ast.EllipsisParam):
                raise Bad('varargs')
            if p.name is None:
                continue
            self.vars[p.name] = self.ctype(p.type)
            args.append(p.name)
        self.ret = self.ctype(f.decl.type.type)
        lines = ['def %s(%s):' % (f.decl.name, ', '.join(args))]
        b = self.block(f.body, 1, None)
        return lines + (b or ['    pass'])

    def block(self, s, ind, step):
        out = []
        for x in (s.block_items or []):
            out.extend(self.stat(x, ind, step))
        return out or ['    ' * ind + 'pass']

    def body(self, s, ind, step):
        from pycparser import c_ast
        if isinstance(s, c_ast.Compound):
            return self.block(s, ind, step)
        return self.stat(s, ind, step) or ['    ' * ind + 'pass']

    def stat(self, s, ind, step):
        from pycparser import c_ast
        pad = '    ' * ind
        if isinstance(s, c_ast.Decl):
            ty = self.ctype(s.type)
            self.vars[s.name] = ty
            if s.init is not None:
                return [pad + '%s = %s' % (s.name, self.conv(ty, self.expr(s.init), self.ty(s.init)))]
            if isinstance(s.type, c_ast.ArrayDecl):
                raise Bad('local array')
            return []
        if isinstance(s, c_ast.DeclList):
            return sum([self.stat(d, ind, step) for d in s.decls], [])
        if isinstance(s, c_ast.Compound):
            return self.block(s, ind, step)
        if isinstance(s, c_ast.Assignment):
            return [pad + self.assign(s)]
        if isinstance(s, c_ast.UnaryOp) and s.op in ('p++', '++', 'p--', '--'):
            return [pad + self.incdec(s)]
        if isinstance(s, c_ast.For):
            out = []
            if s.init is not None:
                out.extend(self.stat(s.init, ind, None) if not isinstance(s.init, c_ast.ExprList)
                           else sum([self.stat(x, ind, None) for x in s.init.exprs], []))
            out.append(pad + 'while %s:' % (self.cond(s.cond) if s.cond is not None else 'True'))
            st = []
            if s.next is not None:
                nx = s.next.exprs if isinstance(s.next, c_ast.ExprList) else [s.next]
                for x in nx:
                    st.extend(self.stat(x, 0, None))
            out.extend(self.body(s.stmt, ind + 1, st))
            out.extend(pad + '    ' + x for x in st)
            return out
        if isinstance(s, c_ast.While):
            return [pad + 'while %s:' % self.cond(s.cond)] + self.body(s.stmt, ind + 1, [])
        if isinstance(s, c_ast.DoWhile):
            return ([pad + 'while True:'] + self.body(s.stmt, ind + 1, []) +
                    [pad + '    if not %s:' % self.cond(s.cond), pad + '        break'])
        if isinstance(s, c_ast.If):
            out = [pad + 'if %s:' % self.cond(s.cond)] + self.body(s.iftrue, ind + 1, step)
            if s.iffalse is not None:
                out += [pad + 'else:'] + self.body(s.iffalse, ind + 1, step)
            return out
        if isinstance(s, c_ast.Return):
            if s.expr is None:
                return [pad + 'return']
            return [pad + 'return %s' % self.conv(self.ret, self.expr(s.expr), self.ty(s.expr))]
        if isinstance(s, c_ast.Break):
            return [pad + 'break']
        if isinstance(s, c_ast.Continue):
            return [pad + x for x in (step or [])] + [pad + 'continue']
        if isinstance(s, c_ast.EmptyStatement):
            return []
        if isinstance(s, c_ast.Cast) and isinstance(s.expr, c_ast.ID):
            return []
        if isinstance(s, c_ast.ExprList):
            return sum([self.stat(x, ind, step) for x in s.exprs], [])
        return [pad + self.expr(s)]

    def conv(self, ty, src, tsrc):
        if ty == DBL:
            return src if tsrc == DBL else 'S_.of(%s)' % src
        if ty == UINT:
            return 'rt_wrap(%s)' % src
        if ty == INT and tsrc == DBL:
            return 'rt_cast_int(%s)' % src
        return src

    def assign(self, s):
        from pycparser import c_ast
        rhs = self.expr(s.rvalue)
        tr = self.ty(s.rvalue)
        tl = self.ty(s.lvalue)
        if s.op != '=':
            op = s.op[:-1]
            rhs = self.bin(op, self.expr(s.lvalue), rhs, tl, tr)
            tr = self.bty(op, tl, tr)
        rhs = self.conv(tl, rhs, tr)
        l = s.lvalue
        if isinstance(l, c_ast.ID):
            return '%s = %s' % (l.name, rhs)
        return '%s.set(%s)' % (self.addr(l), rhs)

    def incdec(self, s):
        from pycparser import c_ast
        op = '+' if '+' in s.op else '-'
        t = self.ty(s.expr)
        v = self.conv(t, '(%s %s 1)' % (self.expr(s.expr), op), t)
        if isinstance(s.expr, c_ast.ID):
            return '%s = %s' % (s.expr.name, v)
        return '%s.set(%s)' % (self.addr(s.expr), v)

    def addr(self, l):
        from pycparser import c_ast
        if isinstance(l, c_ast.UnaryOp) and l.op == '*':
            return '(%s)' % self.expr(l.expr)
        if isinstance(l, c_ast.ArrayRef):
            return '(%s + %s)' % (self.expr(l.name), self.expr(l.subscript))
        raise Bad('lvalue %s' % type(l).__name__)

    def bty(self, op, a, b):
        if op in ('<', '>', '<=', '>=', '==', '!=', '&&', '||'):
            return INT
        if isinstance(a, tuple):
            return a
        if isinstance(b, tuple):
            return b
        if DBL in (a, b):
            return DBL
        if UINT in (a, b):
            return UINT
        return INT

    def ty(self, e):
        from pycparser import c_ast
        if isinstance(e, c_ast.ID):
            return self.vars.get(e.name, INT)
        if isinstance(e, c_ast.Constant):
            return DBL if e.type in ('double', 'float') else INT
        if isinstance(e, c_ast.BinaryOp):
            return self.bty(e.op, self.ty(e.left), self.ty(e.right))
        if isinstance(e, c_ast.UnaryOp):
            if e.op == '*':
                t = self.ty(e.expr)
                return t[1]
            if e.op == '!':
                return INT
            if e.op == 'sizeof':
                return UINT
            if e.op == '&':
                return ('ptr', self.ty(e.expr))
            return self.ty(e.expr)
        if isinstance(e, c_ast.ArrayRef):
            return self.ty(e.name)[1]
        if isinstance(e, c_ast.Cast):
            return self.ctype(e.to_type)
        if isinstance(e, c_ast.FuncCall):
            return DBL
        if isinstance(e, c_ast.TernaryOp):
            return self.bty('+', self.ty(e.iftrue), self.ty(e.iffalse))
        if isinstance(e, c_ast.Assignment):
            return self.ty(e.lvalue)
        raise Bad(type(e).__name__)

    def cond(self, e):
        from pycparser import c_ast
        s = self.expr(e)
        if isinstance(e, c_ast.BinaryOp) and e.op in ('<', '>', '<=', '>=', '==', '!=', '&&', '||'):
            return s
        return '(%s != 0)' % s

    def bin(self, op, a, b, ta, tb):
        if op == '/':
            integral = ta != DBL and tb != DBL
            return 'c_div(%s, %s, %r)' % (a, b, integral)
        if op == '%':
            return '(%s %% %s)' % (a, b)
        s = '(%s %s %s)' % (a, op, b)
        if op in ('+', '-', '*') and self.bty(op, ta, tb) == UINT:
            return 'rt_wrap(%s)' % s
        return s

    def expr(self, e):
        from pycparser import c_ast
        if isinstance(e, c_ast.ID):
            return e.name
        if isinstance(e, c_ast.Constant):
            v = e.value
            if e.type in ('double', 'float'):
                return v.rstrip('fFlL')
            return v.rstrip('uUlL')
        if isinstance(e, c_ast.BinaryOp):
            if e.op in ('&&', '||'):
                return '(%s %s %s)' % (self.cond(e.left), 'and' if e.op == '&&' else 'or', self.cond(e.right))
            return self.bin(e.op, self.expr(e.left), self.expr(e.right), self.ty(e.left), self.ty(e.right))
        if isinstance(e, c_ast.UnaryOp):
            if e.op == '*':
                return '(%s).get()' % self.expr(e.expr)
            if e.op == '-':
                return '(-%s)' % self.expr(e.expr)
            if e.op == '+':
                return self.expr(e.expr)
            if e.op == '!':
                return '(0 if %s else 1)' % self.cond(e.expr)
            if e.op == '&' and isinstance(e.expr, c_ast.ArrayRef):
                return self.addr(e.expr)
            raise Bad('unary %s' % e.op)
        if isinstance(e, c_ast.ArrayRef):
            return '%s.get()' % self.addr(e)
        if isinstance(e, c_ast.Cast):
            t = self.ctype(e.to_type)
            if isinstance(t, tuple):
                return 'rt_ptr(%r, %s)' % (t[1], self.expr(e.expr))
            return self.conv(t, self.expr(e.expr), self.ty(e.expr))
        if isinstance(e, c_ast.FuncCall):
            nm = e.name.name
            args = ', '.join(self.expr(a) for a in (e.args.exprs if e.args else []))
            return '%s(%s)' % (CFUNCS.get(nm, nm), args)
        if isinstance(e, c_ast.TernaryOp):
            return '(%s if %s else %s)' % (self.expr(e.iftrue), self.cond(e.cond), self.expr(e.iffalse))
        raise Bad('C expr %s' % type(e).__name__)


def translate_c(path):
    from pycparser import c_parser
    with open(path, encoding='utf8') as f:
        src = f.read()
    src = re.sub(r'/\*.*?\*/', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), src, flags=re.S)
    src = re.sub(r'//[^\n]*', '', src)
    src = re.sub(r'\\\n', ' ', src)
    defs = {}
    lines = []
    for l in src.split('\n'):
        m = re.match(r'\s*#\s*define\s+(\w+)\s+(.+)', l)
        if m:
            defs[m.group(1)] = m.group(2).strip()
        if re.match(r'\s*#', l):
            l = ''
        lines.append(l)
    src = '\n'.join(lines)
    src = re.sub(r'extern\s+"C"\s*\{(.*)\}\s*$', r'\1', src, flags=re.S)
    for k, v in defs.items():
        src = re.sub(r'\b%s\b' % k, v, src)
    src = 'typedef unsigned long size_t;\n' + src
    try:
        ast = c_parser.CParser().parse(src, path)
    except Exception as e:
        raise Unsupported('cannot parse %s: %s' % (path, e))
    tr = CTranslator()
    return tr.translate(ast)
