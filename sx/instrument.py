"""Import hook: loads goats from the repository's *current* source, with calls,
membership tests and f-strings rewritten so that symbolic values survive where
native code would demand concrete ones.  The rewriting is purely syntactic and
knows nothing about goats: with concrete values the code behaves as written.
"""
import ast
import builtins
import collections.abc
import decimal
import fractions
import functools
import importlib.abc
import importlib.machinery
import math
import numbers
import string
import operator
import os
import re
import sys

import numpy
import z3

from . import core, strings
from .core import (Excluded, Sym, SymBool, SymInt, SymReal, Unsupported)
from .strings import SymMatch, SymStr

REPO = os.environ.get('SX_REPO', '/repo')
ROOT = os.path.join(REPO, 'src')

HARNESSES = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENTERED = set()  # qualified names of the functions executed symbolically


# ---------------------------------------------------------------------------
# source rewriting
class Rewriter(ast.NodeTransformer):
    def __init__(self, module):
        self.module = module
        self.stack = []
        self.classes = []

    def _name(self, n):
        return ast.Name(id=n, ctx=ast.Load())

    def _mangle(self, attr):
        if self.classes and attr.startswith('__') and not attr.endswith('__'):
            return '_' + self.classes[-1].lstrip('_') + attr
        return attr

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [self.visit(b) for b in node.bases]
        node.keywords = [self.visit(k) for k in node.keywords]
        self.stack.append(node.name)
        self.classes.append(node.name)
        node.body = [self.visit(n) for n in node.body]
        self.classes.pop()
        self.stack.pop()
        return node

    def _function(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        args = node.args
        args.defaults = [self.visit(d) for d in args.defaults]
        args.kw_defaults = [d and self.visit(d) for d in args.kw_defaults]
        self.stack.append(node.name)
        body = [self.visit(n) for n in node.body]
        body = [m for n in body for m in (n if isinstance(n, list) else [n])]
        qual = f"{self.module}.{'.'.join(self.stack)}"
        self.stack.pop()
        enter = ast.Expr(ast.Call(
            func=self._name('_sx_enter_'),
            args=[ast.Constant(qual)], keywords=[]))
        k = 1 if (body and isinstance(body[0], ast.Expr)
                  and isinstance(body[0].value, ast.Constant)) else 0
        node.body = body[:k] + [enter] + body[k:]
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    def visit_Call(self, node):
        func = node.func
        if isinstance(func, ast.Name) and func.id in (
                'super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec'):
            self.generic_visit(node)
            return node
        args = [self.visit(a) for a in node.args]
        keywords = [self.visit(k) for k in node.keywords]
        if isinstance(func, ast.Attribute):
            return ast.Call(
                func=self._name('_sx_m_'),
                args=[self.visit(func.value),
                      ast.Constant(self._mangle(func.attr)), *args],
                keywords=keywords)
        return ast.Call(func=self._name('_sx_c_'),
                        args=[self.visit(func), *args], keywords=keywords)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            call = ast.Call(func=self._name('_sx_in_'),
                            args=[node.left, node.comparators[0]], keywords=[])
            if isinstance(node.ops[0], ast.NotIn):
                return ast.UnaryOp(op=ast.Not(), operand=call)
            return call
        return node

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.Call(
            func=self._name('_sx_set_'),
            args=[ast.ListComp(elt=node.elt, generators=node.generators)],
            keywords=[])

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = (self.visit(v.format_spec) if v.format_spec
                        else ast.Constant(''))
                parts.append(ast.Tuple(
                    elts=[self.visit(v.value), ast.Constant(v.conversion), spec],
                    ctx=ast.Load()))
        return ast.Call(func=self._name('_sx_f_'),
                        args=[ast.List(elts=parts, ctx=ast.Load())], keywords=[])

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.Call(func=self._name('_sx_mod_'),
                            args=[node.left, node.right], keywords=[])
        return node


# ---------------------------------------------------------------------------
# run-time support
def symbolic(x, depth=3):
    """True if ``x`` is or contains a symbolic value."""
    if isinstance(x, Sym):
        return True
    if depth <= 0:
        return False
    t = type(x)
    if t in (list, tuple, set, frozenset):
        return any(symbolic(i, depth - 1) for i in x)
    if t is dict:
        return any(symbolic(i, depth - 1) for i in x.values())
    if isinstance(x, numpy.ndarray):
        if x.dtype != object:
            return False
        return any(isinstance(i, Sym) for i in x.flat)
    return False


def stand_in(x):
    if isinstance(x, SymStr):
        return str
    if isinstance(x, SymInt):
        return int
    if isinstance(x, SymReal):
        return fractions.Fraction if x.kind == 'frac' else float
    if isinstance(x, SymBool):
        return bool
    if isinstance(x, SymMatch):
        return re.Match
    base = getattr(type(x), 'stands_for', None)
    if base is not None:
        return base
    return type(x)


def is_goats(x):
    m = getattr(type(x), '__module__', '') or ''
    return m.split('.')[0] == 'goats'


def sx_isinstance(x, t):
    if isinstance(x, Sym):
        s = stand_in(x)
        if isinstance(t, tuple):
            return any(sx_isinstance(x, i) for i in t)
        try:
            return issubclass(s, t)
        except TypeError:
            return isinstance(x, t)
    return isinstance(x, t)


def sx_type(*args):
    if len(args) == 1 and isinstance(args[0], Sym):
        return stand_in(args[0])
    return type(*args)


def sx_float(x=0.0):
    if isinstance(x, SymReal):
        return SymReal(x.e, 'float')
    if isinstance(x, SymInt):
        return SymReal(z3.ToReal(x.e), 'float')
    if isinstance(x, SymStr):
        v = strings.number(x, slash=False, kind='float')
        if v is None:
            raise ValueError('could not convert string to float')
        return v
    if isinstance(x, SymBool):
        return SymReal(core.real_expr(x), 'float')
    if isinstance(x, numpy.ndarray) and x.dtype == object and x.size == 1:
        return sx_float(x.item())
    if is_goats(x) and hasattr(type(x), '__float__'):
        return type(x).__float__(x)
    return float(x)


def sx_int(x=0, *base):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymReal):
        return SymInt(core.truncate(x.e))
    if isinstance(x, SymStr):
        if base:
            raise Unsupported('int() with a base')
        v = strings.number(x, slash=False)
        if v is None or strings.search(re.compile('[.eE]'), x):
            raise ValueError('invalid literal for int()')
        return SymInt(core.truncate(core.real_expr(v)))
    if isinstance(x, SymBool):
        return int(bool(x))
    if isinstance(x, numpy.ndarray) and x.dtype == object and x.size == 1:
        return sx_int(x.item())
    if is_goats(x):
        for n in ('__int__', '__index__', '__trunc__'):
            if hasattr(type(x), n):
                return getattr(type(x), n)(x)
    return int(x, *base)


def sx_str(x='', *args):
    if isinstance(x, SymStr):
        return x
    if isinstance(x, (SymInt, SymReal)):
        return strings.number_text(x)
    if isinstance(x, Sym):
        return x if getattr(type(x), 'stands_for', None) is str else strings.opaque(x)
    if is_goats(x):
        return type(x).__str__(x)
    if type(x) in (list, tuple, set, dict, frozenset) and symbolic(x):
        return strings.opaque(x)
    return str(x, *args)


def sx_repr(x):
    if isinstance(x, SymStr):
        return strings.make(["'"] + x.cs + ["'"])
    if isinstance(x, (SymInt, SymReal)):
        return strings.opaque(x)
    if isinstance(x, Sym):
        return strings.opaque(x)
    if is_goats(x):
        return type(x).__repr__(x)
    if symbolic(x):
        return strings.opaque(x)
    return repr(x)


def sx_format(x, spec=''):
    if isinstance(x, Sym) or is_goats(x):
        if spec:
            if isinstance(x, Sym):
                return strings.opaque(x)
            return format(x, spec)
        if isinstance(x, Sym):
            return sx_str(x)
        f = type(x).__format__
        if f is object.__format__:
            return sx_str(x)
        return f(x, spec)
    if not spec and symbolic(x):
        return strings.opaque(x)
    return format(x, spec)


def sx_f(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            continue
        v, conv, spec = p
        if conv == 114:
            v = sx_repr(v)
        elif conv == 115:
            v = sx_str(v)
        elif conv == 97:
            v = ascii(v)
        v = sx_format(v, spec)
        if isinstance(v, Sym) and not isinstance(v, SymStr):
            v = strings.opaque(v)
        out.append(v)
    for v in out:
        if not isinstance(v, str):
            return strings.join('', out)
    return ''.join(out)


def sx_template(template, args, kwargs):
    """The result of str.format, by its parts."""
    formatter = string.Formatter()
    parts, auto = [], 0
    for text, field, spec, conv in formatter.parse(template):
        parts.append(text)
        if field is None:
            continue
        if spec and '{' in spec:
            return strings.opaque(args)
        if not field or field[0] in '.[':
            field, auto = f'{auto}{field}', auto + 1
        v, _ = formatter.get_field(field, args, kwargs)
        parts.append((v, ord(conv) if conv else -1, spec))
    return sx_f(parts)


def sx_mod(a, b):
    if isinstance(a, str) and symbolic(b):
        return strings.opaque(b)
    return a % b


def sx_in(a, b):
    if isinstance(b, (str, SymStr)):
        if isinstance(a, SymStr) or isinstance(b, SymStr):
            if not strings.is_text(a):
                raise TypeError("'in <string>' requires string as left operand")
            ea, eb = strings.elements(a), strings.elements(b)
            if len(ea) == 1 and all(isinstance(x, (str, strings.Char))
                                    for x in ea + eb):
                one = strings.make(ea)
                conds = [one == strings.make([x]) for x in dict.fromkeys(eb)]
                return bool(core.sor(*conds)) if conds else False
            return strings.SymStr(eb).find(a) >= 0
        if isinstance(a, Sym) and getattr(type(a), 'stands_for', None) is str:
            return a.contained_in(b)
    if type(b) in (list, tuple) and isinstance(a, SymStr) and \
            all(type(x) is str for x in b):
        return strings.truth(strings.one_of(a, b))
    if type(b) in (set, frozenset) and isinstance(a, SymStr) and \
            list_sets() and all(type(x) is str for x in b):
        return strings.truth(strings.one_of(a, b))
    if type(b) in (list, tuple) and isinstance(a, Sym):
        return any(bool(x is a or x == a) for x in b)
    return a in b


def sx_map(f, *its):
    return (sx_c(f, *xs) for xs in zip(*its))


def sx_filter(f, it):
    if f is None:
        return (x for x in it if x)
    return (x for x in it if sx_c(f, x))


def sx_sorted(it, key=None, reverse=False):
    """Stable sort whose comparisons fork (native sort calls the same)."""
    return sorted(it, key=(None if key is None else (lambda x: sx_c(key, x))),
                  reverse=reverse)


# -- hashing -----------------------------------------------------------------
HASH_SCOPE = False
_HR = z3.Function('hash_real', z3.RealSort(), z3.IntSort())
_HT = z3.Function('hash_tuple', z3.IntSort(), z3.IntSort(), z3.IntSort())
_HF = z3.Function('hash_item', z3.IntSort(), z3.IntSort())


def list_sets():
    """Whether sets of symbolic items are lists of distinct items."""
    return HASH_SCOPE or getattr(core.CURRENT, 'hash_mode', None) == 'list'


class SymSet:
    """A set of symbolic items: distinct items in a list."""

    def __init__(self, items=()):
        self.items = []
        self.update(items)

    def add(self, x):
        if x not in self:
            self.items.append(x)

    def update(self, *others):
        for items in others:
            for x in items:
                self.add(x)

    def discard(self, x):
        self.items = [y for y in self.items if not bool(x == y)]

    def remove(self, x):
        if x not in self:
            raise KeyError(x)
        self.discard(x)

    def copy(self):
        return SymSet(self.items)

    def union(self, *others):
        out = self.copy()
        out.update(*others)
        return out

    def intersection(self, *others):
        return SymSet(x for x in self.items
                      if all(sx_in(x, o) for o in others))

    def difference(self, *others):
        return SymSet(x for x in self.items
                      if not any(sx_in(x, o) for o in others))

    def issubset(self, o):
        return all(sx_in(x, o) for x in self.items)

    def issuperset(self, o):
        return all(x in self for x in o)

    __or__ = __ror__ = union
    __and__ = __rand__ = intersection
    __sub__ = difference
    __le__ = issubset
    __ge__ = issuperset
    __hash__ = None

    def __eq__(self, o):
        if not isinstance(o, (SymSet, set, frozenset)):
            return NotImplemented
        return len(self) == len(o) and self.issubset(o)

    def __iter__(self):
        return iter(self.items)

    def __len__(self):
        return len(self.items)

    def __contains__(self, x):
        return any(bool(x == y) for y in self.items)


def hash_expr(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, SymInt):
        return _HR(z3.ToReal(x.e))
    if isinstance(x, (SymReal, numbers.Real)):
        return _HR(z3.simplify(core.real_expr(x)))
    if isinstance(x, SymStr):
        x = x.concrete()
    if isinstance(x, tuple):
        e = z3.IntVal(len(x))
        for i in x:
            e = _HT(e, hash_expr(i))
        return e
    if isinstance(x, (SymSet, frozenset)):
        e = z3.IntVal(0)
        for i in x:
            e = e + _HF(hash_expr(i))
        return e
    if isinstance(x, Sym) and hasattr(x, 'hash_expr'):
        return x.hash_expr()
    h = type(x).__hash__
    if h is None:
        raise TypeError(f'unhashable type: {type(x).__name__!r}')
    v = h(x)
    return v.e if isinstance(v, SymInt) else z3.IntVal(v)


def sx_hash(x):
    if HASH_SCOPE:
        e = hash_expr(x)
        return SymInt(e)
    if is_goats(x):
        v = type(x).__hash__(x)
        return v
    return hash(x)


def hash_of(x):
    """Symbolic hash of an object, as Python would compute it."""
    global HASH_SCOPE
    old, HASH_SCOPE = HASH_SCOPE, True
    try:
        return SymInt(hash_expr(x))
    finally:
        HASH_SCOPE = old


def sx_set(*args):
    if HASH_SCOPE or args and list_sets():
        args = [list(x) for x in args]
        if HASH_SCOPE or symbolic(args):
            return SymSet(*args)
    return set(*args)


def sx_frozenset(*args):
    if HASH_SCOPE or args and list_sets():
        args = [list(x) for x in args]
        if HASH_SCOPE or symbolic(args):
            return SymSet(*args)
    return frozenset(*args)


# -- numbers -----------------------------------------------------------------
def sx_fraction(*args, **kwargs):
    if len(args) == 1 and isinstance(args[0], SymReal):
        return SymReal(args[0].e, 'frac')
    if len(args) == 1 and isinstance(args[0], SymInt):
        return SymReal(z3.ToReal(args[0].e), 'frac')
    if len(args) == 1 and isinstance(args[0], SymStr):
        v = strings.number(args[0])
        if v is None:
            raise ValueError('Invalid literal for Fraction')
        return v
    if len(args) == 2 and symbolic(args):
        return core.divide(sx_fraction(args[0]), sx_fraction(args[1]))
    return fractions.Fraction(*args, **kwargs)


def sx_round(x, n=None):
    if isinstance(x, SymReal):
        if n is None:
            f = z3.ToInt(x.e + rational_half())
            # banker's rounding on ties
            tie = z3.ToReal(f) == x.e + rational_half()
            return SymInt(z3.If(z3.And(tie, f % 2 != 0), f - 1, f))
        return x.__round__(n)
    return round(x) if n is None else round(x, n)


def rational_half():
    return z3.Q(1, 2)


def _is_close(a, b, rel_tol=1e-9, abs_tol=0.0):
    d = abs(a - b)
    m = core.SymReal(z3.If(core.real_expr(abs(a)) > core.real_expr(abs(b)),
                           core.real_expr(abs(a)), core.real_expr(abs(b))))
    return core.sor(d <= rel_tol * m, d <= abs_tol)


# -- numpy -------------------------------------------------------------------
def obj_array(x):
    """An object array holding the (symbolic) numbers in ``x``."""
    if isinstance(x, numpy.ndarray):
        return x.astype(object) if x.dtype != object else x
    a = numpy.array(x, dtype=object)
    return a


def has_sym(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, numpy.ndarray):
        return x.dtype == object and any(isinstance(i, Sym) for i in x.flat)
    if isinstance(x, (list, tuple)):
        return any(has_sym(i) for i in x)
    if is_goats(x) and hasattr(type(x), '__array__'):
        a = type(x).__array__(x)
        return has_sym(a)
    return False


def np_cast(f):
    """numpy constructors that would force a float dtype."""
    def handler(x, dtype=None, *args, **kwargs):
        if has_sym(x):
            if dtype in (None, float, numpy.float64, object, 'f8', 'float'):
                kw = {k: v for k, v in kwargs.items() if k in ('copy', 'ndmin')}
                if f is numpy.asfarray:
                    return numpy.asarray(x, dtype=object)
                return f(x, dtype=object, **kw) if f is numpy.array \
                    else numpy.asanyarray(x, dtype=object)
            raise Unsupported(f'array of dtype {dtype}')
        if f is numpy.asfarray:
            return f(x) if dtype is None else f(x, dtype)
        return f(x, *([dtype] if dtype is not None else []), *args, **kwargs)
    return handler


def elementwise(g):
    def handler(f):
        def call(x, *args, **kwargs):
            if has_sym(x):
                a = numpy.asanyarray(x, dtype=object)
                out = numpy.empty(a.shape, dtype=object)
                for i in numpy.ndindex(*a.shape):
                    out[i] = g(a[i])
                return out if a.shape else out[()]
            return f(x, *args, **kwargs)
        return call
    return handler


def np_false(f):
    def call(x, *args, **kwargs):
        if has_sym(x):
            return numpy.zeros(numpy.shape(x), dtype=bool)
        return f(x, *args, **kwargs)
    return call


def np_true(f):
    def call(x, *args, **kwargs):
        if has_sym(x):
            return numpy.ones(numpy.shape(x), dtype=bool)
        return f(x, *args, **kwargs)
    return call


def np_isclose(f):
    def call(a, b, rtol=1e-5, atol=1e-8, **kw):
        if has_sym(a) or has_sym(b):
            a, b = numpy.broadcast_arrays(numpy.asanyarray(a, dtype=object),
                                          numpy.asanyarray(b, dtype=object))
            out = numpy.empty(a.shape, dtype=bool)
            for i in numpy.ndindex(*a.shape):
                out[i] = bool(abs(a[i] - b[i]) <= atol + rtol * abs(b[i]))
            if f is numpy.allclose:
                return bool(out.all())
            return out if a.shape else bool(out[()])
        return f(a, b, rtol=rtol, atol=atol, **kw)
    return call


def np_array_equal(f):
    def call(a, b, **kw):
        if has_sym(a) or has_sym(b):
            a, b = numpy.asanyarray(a), numpy.asanyarray(b)
            return a.shape == b.shape and all(
                bool(x == y) for x, y in zip(a.flat, b.flat))
        return f(a, b, **kw)
    return call


class Interp1d:
    """scipy.interpolate.interp1d (linear), also for symbolic numbers."""

    def __init__(self, x, y, axis=-1, **kwargs):
        if kwargs:
            raise Unsupported('options of interp1d')
        x, y = numpy.array(x, dtype=object), numpy.array(y, dtype=object)
        y = numpy.moveaxis(y, axis, 0)
        if x.ndim != 1:
            raise ValueError('the x array must have exactly one dimension.')
        if len(x) != len(y):
            raise ValueError('x and y arrays must be equal in length along'
                             ' interpolation axis.')
        if len(x) < 2:
            raise ValueError('x and y arrays must have at least 2 entries')
        order = sx_sorted(range(len(x)), key=lambda i: x[i])
        self.x, self.y = x[order], y[order]
        self.axis = axis

    def one(self, t):
        x, y = self.x, self.y
        if bool(t < x[0]):
            raise ValueError('A value in x_new is below the interpolation'
                             ' range.')
        if bool(t > x[-1]):
            raise ValueError('A value in x_new is above the interpolation'
                             ' range.')
        hi = 1
        while hi < len(x) - 1 and bool(x[hi] < t):
            hi += 1
        lo = hi - 1
        slope = (y[hi] - y[lo]) / (x[hi] - x[lo])
        return numpy.asarray(slope * (t - x[lo]) + y[lo])

    def __call__(self, t):
        t = numpy.asarray(t, dtype=object)
        if t.ndim == 0:
            return self.one(t[()])
        if t.ndim > 1:
            raise Unsupported('interpolation at an array')
        out = numpy.array([self.one(i) for i in t], dtype=object)
        return numpy.moveaxis(out, 0, self.axis)


def np_ufunc(f):
    """Apply a function of one number to arrays with symbolic elements."""
    name = f.__name__

    def one(v):
        if isinstance(v, Sym):
            return getattr(v, name)() if name != 'absolute' else abs(v)
        return f(v)

    def call(x, *args, **kwargs):
        if args or kwargs or isinstance(x, Sym):
            return f(x, *args, **kwargs)
        if isinstance(x, (list, tuple)) and has_sym(x):
            x = numpy.array(x, dtype=object)
        if type(x) is numpy.ndarray and x.dtype == object:
            out = numpy.empty(x.shape, dtype=object)
            for i in numpy.ndindex(*x.shape):
                out[i] = one(x[i])
            return out if x.shape else out[()]
        return f(x)
    return call


HANDLERS = {}


def register(f, handler):
    HANDLERS[id(f)] = (f, handler)


for _f, _h in [
    (isinstance, sx_isinstance), (type, sx_type), (float, sx_float),
    (int, sx_int), (str, sx_str), (repr, sx_repr), (format, sx_format),
    (map, sx_map), (filter, sx_filter), (sorted, sx_sorted),
    (hash, sx_hash), (set, sx_set), (frozenset, sx_frozenset),
    (fractions.Fraction, sx_fraction), (round, sx_round),
]:
    register(_f, _h)


def _math(name, g):
    f = getattr(math, name, None)
    if f is None:
        return

    def handler(*args, **kwargs):
        if any(isinstance(a, Sym) for a in args):
            return g(*args, **kwargs)
        return f(*args, **kwargs)
    register(f, handler)


_math('sqrt', core.sqrt)
_math('fabs', abs)
_math('pow', lambda a, b: core.power(sx_float(a), sx_float(b)))
_math('isclose', _is_close)
_math('floor', lambda x: x.__floor__())
_math('ceil', lambda x: x.__ceil__())
_math('trunc', sx_int)
_math('cos', lambda x: core.trig(x)[0])
_math('sin', lambda x: core.trig(x)[1])
_math('isnan', lambda x: False)
_math('isinf', lambda x: False)
_math('isfinite', lambda x: True)
_math('log10', lambda x: core.uninterpreted('log10', x))
_math('log', lambda x: core.uninterpreted('log', x))
_math('exp', lambda x: core.uninterpreted('exp', x))
_math('hypot', lambda a, b: core.sqrt(a * a + b * b))
_math('prod', lambda it, start=1: functools.reduce(operator.mul, it, start))
_math('fsum', lambda it: sum(it))

for _f in (numpy.array, numpy.asarray, numpy.asanyarray, numpy.asfarray,
           numpy.ascontiguousarray):
    register(_f, np_cast(_f))
register(numpy.isnan, np_false(numpy.isnan))
register(numpy.isinf, np_false(numpy.isinf))
register(numpy.isfinite, np_true(numpy.isfinite))
register(numpy.isclose, np_isclose(numpy.isclose))
register(numpy.allclose, np_isclose(numpy.allclose))
register(numpy.array_equal, np_array_equal(numpy.array_equal))
for _f in (numpy.sqrt, numpy.square, numpy.sin, numpy.cos, numpy.tan,
           numpy.arccos, numpy.arcsin, numpy.arctan, numpy.exp, numpy.log,
           numpy.log10, numpy.absolute):
    register(_f, np_ufunc(_f))


def _interp1d(x, y, *args, **kwargs):
    if has_sym(x) or has_sym(y):
        return Interp1d(x, y, *args, **kwargs)
    from scipy.interpolate import interp1d
    return interp1d(x, y, *args, **kwargs)


def _gradient(f, *varargs, axis=None, edge_order=1):
    """numpy.gradient along one axis, with first-order differences at the ends."""
    if not (has_sym(f) or has_sym(varargs)):
        return numpy.gradient(f, *varargs, axis=axis, edge_order=edge_order)
    f = numpy.asarray(f)
    if axis is None and f.ndim == 1:
        axis = 0
    if not isinstance(axis, int) or len(varargs) > 1 or edge_order != 1:
        raise core.Unsupported('numpy.gradient')
    y = numpy.moveaxis(f, axis, 0)
    n = len(y)
    if n < 2:
        raise ValueError('Shape of array too small to calculate a numerical'
                         ' gradient, at least (edge_order + 1) elements are'
                         ' required.')
    if varargs and numpy.ndim(varargs[0]) == 1:
        x = numpy.asarray(varargs[0])
        if len(x) != n:
            raise ValueError('when 1d, distances must match the length of the'
                             ' corresponding dimension')
        h = [x[i + 1] - x[i] for i in range(n - 1)]
    elif not varargs or numpy.ndim(varargs[0]) == 0:
        h = [varargs[0] if varargs else 1.0] * (n - 1)
    else:
        raise core.Unsupported('numpy.gradient')
    out = numpy.empty(y.shape, dtype=object)
    out[0] = (y[1] - y[0]) / h[0]
    out[-1] = (y[-1] - y[-2]) / h[-1]
    for i in range(1, n - 1):
        a, b = h[i - 1], h[i]
        out[i] = (y[i + 1] * (a * a) + y[i] * (b * b - a * a)
                  - y[i - 1] * (b * b)) / (a * b * (a + b))
    return numpy.moveaxis(out, 0, axis)


register(numpy.gradient, _gradient)


def _simpson_rule(y, x, start, stop):
    total = 0.0
    for i in range(start, stop, 2):
        a, b = x[i + 1] - x[i], x[i + 2] - x[i + 1]
        total = total + (a + b) / 6.0 * (
            y[i] * (2.0 - b / a) + y[i + 1] * ((a + b) * (a + b) / (a * b))
            + y[i + 2] * (2.0 - a / b))
    return total


def _simpson(y, x=None, dx=1.0, axis=-1, even='avg'):
    """scipy's Simpson rule for samples at one-dimensional coordinates."""
    from scipy import integrate
    if not (has_sym(x) or has_sym(dx)):
        # scipy's own code also works on arrays of symbolic numbers
        return integrate.simpson(y, x, dx, axis, even)
    x = numpy.asarray(x)
    y = numpy.moveaxis(numpy.asarray(y), axis, 0)
    n = len(y)
    if x.ndim != 1 or even != 'avg':
        raise core.Unsupported('scipy.integrate.simpson')
    if len(x) != n:
        raise ValueError('If given, length of x along axis must be the same'
                         ' as y.')
    if n % 2:
        return _simpson_rule(y, x, 0, n - 2)
    ends = (x[-1] - x[-2]) * (y[-1] + y[-2]) + (x[1] - x[0]) * (y[1] + y[0])
    return (_simpson_rule(y, x, 0, n - 3) + _simpson_rule(y, x, 1, n - 2)
            + 0.5 * ends) / 2.0


def _buffer(f, fill):
    """New arrays of floats can later hold symbolic numbers."""
    def call(shape, *args, **kwargs):
        p = core.CURRENT
        plain = not args and set(kwargs) <= {'dtype'} and \
            kwargs.get('dtype') in (None, float, numpy.float64)
        if p is None or not getattr(p, 'float_arrays', False) or not plain:
            return f(shape, *args, **kwargs)
        out = numpy.empty(shape, dtype=object)
        out.fill(fill)
        return out
    return call


for _f, _v in ((numpy.zeros, 0.0), (numpy.ones, 1.0), (numpy.empty, 0.0)):
    register(_f, _buffer(_f, _v))


def _full(f, like):
    def call(a, value, *args, **kwargs):
        if not has_sym(value):
            return f(a, value, *args, **kwargs)
        out = numpy.empty(numpy.shape(a) if like else a, dtype=object)
        out[...] = value
        return out
    return call


register(numpy.full, _full(numpy.full, False))
register(numpy.full_like, _full(numpy.full_like, True))


try:
    from scipy import integrate as _integrate
    for _name in ('simps', 'simpson'):
        if hasattr(_integrate, _name):
            register(getattr(_integrate, _name), _simpson)
except ImportError:
    pass


try:
    from scipy.interpolate import interp1d as _scipy_interp1d
    register(_scipy_interp1d, _interp1d)
except ImportError:
    pass

_fraction_pow = fractions.Fraction.__pow__


def _fraction_power(a, b):
    return core.power(a, b) if isinstance(b, Sym) else _fraction_pow(a, b)


def patch():
    fractions.Fraction.__pow__ = _fraction_power


def bound_self(f):
    try:
        return f.__self__
    except AttributeError:
        return None


_PATTERN = type(re.compile(''))
_RE_FUNCS = {getattr(re, n): n for n in (
    'match', 'fullmatch', 'search', 'sub', 'split', 'findall', 'finditer')}


def sx_c(f, /, *args, **kwargs):
    h = HANDLERS.get(id(f))
    if h is not None:
        return h[1](*args, **kwargs)
    if args or kwargs:
        for a in args:
            if isinstance(a, SymStr):
                break
        else:
            if not kwargs:
                # str.join(iterable of symbolic strings) arrives through sx_m
                return f(*args)
            if not any(isinstance(a, SymStr) for a in kwargs.values()):
                return f(*args, **kwargs)
        s = bound_self(f)
        if s is not None:
            if isinstance(s, _PATTERN):
                return strings.pattern_method(s, f.__name__)(*args, **kwargs)
            if type(s) is str:
                return getattr(SymStr(list(s)), f.__name__)(*args, **kwargs)
        if f in _RE_FUNCS:
            p, *rest = args
            p = re.compile(p) if isinstance(p, str) else p
            return strings.pattern_method(p, _RE_FUNCS[f])(*rest, **kwargs)
    return f(*args, **kwargs)


_LITERAL_OK = ('join',)


def sx_m(obj, name, /, *args, **kwargs):
    t = type(obj)
    if t is str:
        if name == 'join' and len(args) == 1:
            parts = list(args[0])
            if any(isinstance(p, Sym) for p in parts):
                return strings.join(obj, parts)
            return obj.join(parts)
        if name == 'format' and (symbolic(args) or symbolic(kwargs)):
            return sx_template(obj, args, kwargs)
        if any(isinstance(a, SymStr) for a in args):
            return getattr(SymStr(list(obj)), name)(*args, **kwargs)
        return getattr(obj, name)(*args, **kwargs)
    if t is _PATTERN:
        if any(isinstance(a, SymStr) for a in args) or \
                any(isinstance(a, SymStr) for a in kwargs.values()):
            return strings.pattern_method(obj, name)(*args, **kwargs)
        return getattr(obj, name)(*args, **kwargs)
    if isinstance(obj, numpy.ndarray) and name == 'astype' and has_sym(obj):
        return obj.astype(object)
    return sx_c(getattr(obj, name), *args, **kwargs)


def sx_enter(name):
    if core.CURRENT is not None and name not in ENTERED and \
            name[:6] == 'goats.':
        ENTERED.add(name)


RUNTIME = {
    '_sx_c_': sx_c, '_sx_m_': sx_m, '_sx_in_': sx_in, '_sx_set_': sx_set, '_sx_f_': sx_f,
    '_sx_mod_': sx_mod, '_sx_enter_': sx_enter,
}


# ---------------------------------------------------------------------------
class Loader(importlib.abc.Loader):
    def __init__(self, fullname, path, package):
        self.fullname, self.path, self.package = fullname, path, package

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, 'rb') as fp:
            source = fp.read()
        node = ast.parse(source, self.path)
        node = Rewriter(self.fullname).visit(node)
        ast.fix_missing_locations(node)
        module.__file__ = self.path
        module.__dict__.update(RUNTIME)
        exec(compile(node, self.path, 'exec'), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        top = fullname.split('.')[0]
        if top == 'goats':
            base = os.path.join(ROOT, *fullname.split('.'))
        elif top == 'props':  # harnesses see the same builtins
            base = os.path.join(HARNESSES, *fullname.split('.'))
        else:
            return None
        init = os.path.join(base, '__init__.py')
        if os.path.isfile(init):
            file, package = init, True
        elif os.path.isfile(base + '.py'):
            file, package = base + '.py', False
        else:
            return None
        spec = importlib.machinery.ModuleSpec(
            fullname, Loader(fullname, file, package), origin=file,
            is_package=package)
        if package:
            spec.submodule_search_locations = [base]
        return spec


def install():
    patch()
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())
