"""C08: arithmetic and comparison of quantities respect their units."""
import math
import operator

import numpy

from sx.context import case
from goats.core import measurable, metadata, metric, physical, symbolic, variable
from props.C05 import value
from props.C07 import KINDS, build, check, values

T = ('goats.core.measurable.Quantified', 'goats.core.algebraic.Quantity',
     'goats.core.metadata.OperatorFactory', 'goats.core.metadata.Unit',
     'goats.core.physical.Array', 'goats.core.variable.Array')

SCALARS = ['measurable.Scalar', 'physical.Scalar']


def magnitude(unit):
    """The SI value of a composite unit, from the reference table."""
    out = 1.0
    for term in symbolic.Expression(str(unit)):
        if term.base not in ('1', '#'):
            out *= value(str(term.base)) ** float(term.exponent)
    return out


def dimension(unit):
    out = {}
    for term in symbolic.Expression(str(unit)):
        for k, n in DIMENSIONS.get(str(term.base), {}).items():
            out[k] = out.get(k, 0) + n * term.exponent
    return {k: n for k, n in out.items() if n != 0}


DIMENSIONS = {
    'm': {'L': 1}, 'cm': {'L': 1}, 'km': {'L': 1}, 's': {'T': 1}, 'h': {'T': 1},
    'kg': {'M': 1}, 'g': {'M': 1},
    'N': {'L': 1, 'M': 1, 'T': -2}, 'J': {'L': 2, 'M': 1, 'T': -2},
    'erg': {'L': 2, 'M': 1, 'T': -2},
}

UNITS = ['m', 'km', 's', 'kg', 'N', 'J', 'kg * m / s^2', 'm / s', '1',
         'g / cm^3']
SAME = [('m', 'm'), ('N', 'kg * m / s^2'), ('J', 'N * m'), ('m / s', 'm s^-1'),
        ('erg', 'g * cm^2 / s^2'), ('1', '1')]
UNLIKE = [('m', 'cm'), ('m', 's'), ('N', 'J'), ('J', 'erg'), ('m', '1'),
          ('m / s', 'km / h'), ('kg', 'm')]


# Units 1000 times as large.
PAST = {'m': 'km', 'N': 'kN', 'm / s': 'km / s', 'kg * m / s^2': 'kg * km / s^2',
        'J': 'kJ'}


def make(cx, kind, xs, unit):
    """Like build, without a name, so that names cannot interfere.

    Arrays may owe their unit to an earlier conversion.
    """
    if kind in ('physical.Array', 'variable.Quantity') and unit in PAST:
        cx.made = getattr(cx, 'made', 0) + 1
        if cx.bool(f'converted{cx.made}'):
            q = make_fresh(cx, kind, [x / 1000 for x in xs], PAST[unit])
            return q[unit]
    return make_fresh(cx, kind, xs, unit)


def make_fresh(cx, kind, xs, unit):
    if kind == 'physical.Quantity':
        return physical.Quantity(xs[0], unit=unit)
    if kind == 'physical.Scalar':
        return physical.Scalar(xs[0], unit=unit)
    if kind == 'physical.Vector':
        return physical.Vector(list(xs), unit=unit)
    if kind == 'physical.Array':
        return physical.Array(cx.to_array(xs), unit=unit)
    return build(cx, kind, xs, unit)


def pure(cx, q, xs, unit, label):
    cx.check(q.unit == metadata.Unit(unit), f'{label}: unit')
    got = values(q)
    for a, b in zip(got, xs):
        cx.check_same(a, b, f'{label}: value')


def physically(cx, q, wants, dims, label):
    """q has the given SI values and dimension."""
    got = values(q)
    m = magnitude(q.unit)
    cx.check(dimension(q.unit) == dims, f'{label}: dimension')
    for a, b in zip(got, wants):
        cx.check_close(a * m, b, f'{label}: physical value')


def merge(a, b, sign):
    out = dict(a)
    for k, n in b.items():
        out[k] = out.get(k, 0) + sign * n
    return {k: n for k, n in out.items() if n != 0}


@case('C08', 'a + b, a - b, -a, +a, abs(a) for seven kinds of quantity with any'
      ' real values; six pairs of equal units', T, shard=('kind', 7))
def additive(cx):
    kind = cx.choice('kind', KINDS)
    u, v = cx.choice('units', SAME)
    xs, ys = cx.reals('x', 2), cx.reals('y', 2)
    a, b = make(cx, kind, xs, u), make(cx, kind, ys, v)
    op = cx.choice('op', ['add', 'sub', 'neg', 'pos', 'abs'])
    if op == 'add':
        r, want = a + b, [x + y for x, y in zip(xs, ys)]
    elif op == 'sub':
        r, want = a - b, [x - y for x, y in zip(xs, ys)]
    elif op == 'neg':
        r, want = -a, [-x for x in xs]
    elif op == 'pos':
        r, want = +a, list(xs)
    else:
        r, want = abs(a), [abs(x) for x in xs]
    cx.check(type(r) is type(a), 'result is of the same kind')
    pure(cx, r, want, u, op)
    pure(cx, a, xs, u, 'left operand')
    pure(cx, b, ys, v, 'right operand')


@case('C08', 'a + b and a - b, either order, for seven kinds of quantity with'
      ' any real values; seven pairs of different units; and quantity +- any'
      ' real number', T, shard=('kind', 7))
def additive_mismatch(cx):
    kind = cx.choice('kind', KINDS)
    u, v = cx.choice('units', UNLIKE)
    if cx.bool('back'):
        u, v = v, u
    xs, ys = cx.reals('x', 2), cx.reals('y', 2)
    a, b = make(cx, kind, xs, u), make(cx, kind, ys, v)
    op = cx.choice('op', [operator.add, operator.sub])
    if cx.bool('number'):
        if u == '1':
            cx.exclude('a dimensionless quantity')
        _, err = cx.catch(op, a, ys[0])
        cx.check(isinstance(err, (TypeError, metadata.UnitError)), 'number')
    else:
        _, err = cx.catch(op, a, b)
        cx.check(isinstance(err, metadata.UnitError), 'rejected')
        if dimension(u) != dimension(v):
            cx.check(isinstance(err, metadata.DimensionMismatch), 'reason')
    pure(cx, a, xs, u, 'left operand')
    pure(cx, b, ys, v, 'right operand')


@case('C08', 'a * b, a / b for seven kinds of quantity with any real values'
      ' (divisors not 0); every ordered pair of ten units', T,
      shard=('kind', 7))
def multiplicative(cx):
    kind = cx.choice('kind', KINDS)
    u = cx.choice('u', UNITS)
    v = cx.choice('v', UNITS)
    cx.float_arrays()
    xs, ys = cx.reals('x', 2), cx.reals('y', 2, nonzero=True)
    a, b = make(cx, kind, xs, u), make(cx, kind, ys, v)
    mu, mv = magnitude(u), magnitude(v)
    if cx.bool('divide'):
        r = a / b
        want = [(x * mu) / (y * mv) for x, y in zip(xs, ys)]
        dims = merge(dimension(u), dimension(v), -1)
    else:
        r = a * b
        want = [(x * mu) * (y * mv) for x, y in zip(xs, ys)]
        dims = merge(dimension(u), dimension(v), 1)
    cx.check(type(r) is type(a), 'result is of the same kind')
    physically(cx, r, want, dims, 'result')
    pure(cx, a, xs, u, 'left operand')
    pure(cx, b, ys, v, 'right operand')


@case('C08', 'q * c, c * q, q / c (c not 0) for any real c; q ** n for n in'
      ' {1, 2, 3, -1, -2, 1/2, 1/4, -3/4}; seven kinds of quantity with any real value'
      ' (positive for powers); six units', T, shard=('kind', 7))
def numbers(cx):
    kind = cx.choice('kind', KINDS)
    u = cx.choice('u', ['m', 'km', 'N', 'kg * m / s^2', 'm / s', '1'])
    cx.float_arrays()
    op = cx.choice('op', ['mul', 'rmul', 'div', 'pow'])
    if op == 'pow':
        xs = cx.reals('x', 2, lo=0, nonzero=True)
        a = make(cx, kind, xs, u)
        n = cx.choice('n', [1, 2, 3, -1, -2, 0.5, 0.25, -0.75])
        r = a ** n
        dims = {k: m * n for k, m in dimension(u).items()}
        mu = magnitude(u)
        want = [(cx.sqrt(x) if n == 0.5 else x ** n) * mu ** n for x in xs]
        physically(cx, r, want, dims, 'power')
    else:
        xs = cx.reals('x', 2)
        a = make(cx, kind, xs, u)
        c = cx.real('c', nonzero=True)
        if op == 'mul':
            r, want = a * c, [x * c for x in xs]
        elif op == 'rmul':
            r, want = c * a, [c * x for x in xs]
        else:
            r, want = a / c, [x / c for x in xs]
        pure(cx, r, want, u, op)
    cx.check(type(r) is type(a), 'result is of the same kind')
    pure(cx, a, xs, u, 'operand')


@case('C08', 'c / q, q ** q, c ** q for seven kinds of quantity, any real'
      ' values, four units', T, shard=('kind', 4))
def undefined(cx):
    kind = cx.choice('kind', KINDS)
    u = cx.choice('u', ['m', 'N', 'm / s', 'km'])
    xs = cx.reals('x', 2, lo=1, hi=3)
    c = cx.real('c', 1, 3)
    a = make(cx, kind, xs, u)
    op = cx.choice('op', ['rdiv', 'qpow', 'rpow'])
    f = {'rdiv': lambda: c / a, 'qpow': lambda: a ** a,
         'rpow': lambda: c ** a}[op]
    r, err = cx.catch(f)
    if op == 'qpow' and cx.symbolic and err is None:
        cx.check(False, 'quantity ** quantity is rejected')
    cx.check(isinstance(err, (metadata.OperandTypeError, TypeError)),
             'rejected')
    pure(cx, a, xs, u, 'operand')


COMPARE = {'lt': operator.lt, 'le': operator.le, 'gt': operator.gt,
           'ge': operator.ge}


@case('C08', '<, <=, >, >=, ==, != between quantities (any real values) in equal'
      ' and different units, and with any real number; seven kinds; six pairs'
      ' of equal and seven of different units', T, shard=('kind', 7))
def comparison(cx):
    kind = cx.choice('kind', KINDS)
    equal = cx.bool('equal')
    u, v = cx.choice('units', SAME if equal else UNLIKE)
    xs, ys = cx.reals('x', 2), cx.reals('y', 2)
    a, b = make(cx, kind, xs, u), make(cx, kind, ys, v)
    op = cx.choice('op', ['lt', 'le', 'gt', 'ge', 'eq', 'ne'])
    n = len(values(a))
    if op in ('eq', 'ne'):
        got = bool(a == b) if op == 'eq' else not bool(a != b)
        same = cx.both(*[x == y for x, y in zip(xs[:n], ys[:n])])
        cx.check(cx.implies(got, same) if equal else not got, 'equality')
        if equal:
            cx.check(cx.implies(same, got), 'equality')
    elif not equal:
        _, err = cx.catch(COMPARE[op], a, b)
        cx.check(isinstance(err, ValueError), 'units differ: rejected')
    else:
        r = COMPARE[op](a, b)
        got = list(r) if isinstance(r, numpy.ndarray) else [r]
        cx.check(len(got) == n, 'one result per value')
        for g, x, y in zip(got, xs, ys):
            w = COMPARE[op](x, y)
            cx.check(cx.both(cx.implies(g, w), cx.implies(w, g)), op)
    pure(cx, a, xs, u, 'left operand')
    pure(cx, b, ys, v, 'right operand')


@case('C08', 'scalar against any real number: <, <=, >, >=, ==; int, float,'
      ' round, floor, ceil, trunc; any real value; three units', T)
def scalars(cx):
    kind = cx.choice('kind', SCALARS)
    u = cx.choice('u', ['m', 'N', '1'])
    x = cx.real('x', -20, 20)
    a = make(cx, kind, [x], u)
    op = cx.choice('op', ['lt', 'le', 'gt', 'ge', 'eq', 'float', 'int', 'round',
                          'floor', 'ceil', 'trunc'])
    if op in COMPARE or op == 'eq':
        y = cx.real('y', -20, 20)
        f = COMPARE.get(op, operator.eq)
        got, want = bool(f(a, y)), f(x, y)
        cx.check(cx.implies(got, want), op)
        cx.check(cx.implies(want, got), op)
    elif op == 'float':
        cx.check_same(float(a), x, op)
    elif op == 'int':
        cx.check_same(int(a), int(x), op)
    else:
        f = {'round': round, 'floor': math.floor, 'ceil': math.ceil,
             'trunc': math.trunc}[op]
        r = f(a)
        pure(cx, r, [f(x)], u, op)
    pure(cx, a, [x], u, 'operand')


INPLACE = {'add': operator.iadd, 'sub': operator.isub, 'mul': operator.imul,
           'truediv': operator.itruediv, 'pow': operator.ipow}


@case('C08', 'a op= b is a op b for +, -, *, /, **; seven kinds of quantity with'
      ' any real values; equal units for + and -, 3 x 3 units for * and /', T,
      shard=('kind', 7))
def inplace(cx):
    kind = cx.choice('kind', KINDS)
    op = cx.choice('op', sorted(INPLACE))
    cx.float_arrays()
    xs = cx.reals('x', 2, lo=0 if op == 'pow' else -1000, nonzero=True)
    ys = cx.reals('y', 2, nonzero=True)
    if op in ('add', 'sub'):
        u, v = cx.choice('units', SAME)
    else:
        u = cx.choice('u', ['m', 'N', 'm / s'])
        v = cx.choice('v', ['m', 's', 'km'])
    a, b = make(cx, kind, xs, u), make(cx, kind, ys, v)
    if op == 'pow':
        b = 2
    want = getattr(operator, op)(make(cx, kind, xs, u), b)
    old = a
    a = INPLACE[op](a, b)
    cx.check(a.unit == want.unit, 'unit')
    cx.check(type(a) is type(old), 'kind')
    for g, w in zip(values(a), values(want)):
        cx.check_close(g, w, 'value')
    if op != 'pow':
        pure(cx, b, ys, v, 'right operand')


@case('C08', '(a + b) * c = a*c + b*c, (a * b) / b = a, a - b = -(b - a) as'
      ' quantities; scalars and arrays, any real values; three units', T)
def laws(cx):
    kind = cx.choice('kind', ['measurable.Scalar', 'physical.Array',
                              'variable.Quantity'])
    u = cx.choice('u', ['m', 'N', 'm / s'])
    v = cx.choice('v', ['s', 'kg', 'km'])
    cx.float_arrays()
    xs, ys, zs = (cx.reals('x', 2), cx.reals('y', 2),
                  cx.reals('z', 2, nonzero=True))
    a, b, c = (make(cx, kind, xs, u), make(cx, kind, ys, u),
               make(cx, kind, zs, v))
    law = cx.choice('law', ['distributive', 'cancel', 'antisymmetric'])
    if law == 'distributive':
        left, right = (a + b) * c, a * c + b * c
    elif law == 'cancel':
        left, right = (a * c) / c, a
    else:
        left, right = a - b, -(b - a)
    cx.check(left.unit == right.unit, f'{law}: unit')
    m = magnitude(left.unit) / magnitude(right.unit)
    for g, w in zip(values(left), values(right)):
        cx.check_close(g * m, w, f'{law}: value', scale=1000000)


@case('C08', 'numpy.add, subtract, multiply, divide, power, negative, absolute'
      ' of arrays and variables with any real values, and with any number: as'
      ' the operators; 3 x 3 units', T)
def numpy_functions(cx):
    kind = cx.choice('kind', ['physical.Array', 'variable.Quantity'])
    cx.float_arrays()
    xs, ys = cx.reals('x', 2), cx.reals('y', 2, nonzero=True)
    c = cx.real('c', nonzero=True)
    u = cx.choice('u', ['m', 'N', 'm / s'])
    v = cx.choice('v', ['m', 's', 'N'])
    a, b = make(cx, kind, xs, u), make(cx, kind, ys, v)
    got = [(numpy.negative(a), [-x for x in xs], u),
           (numpy.absolute(a), [abs(x) for x in xs], u),
           (numpy.multiply(a, c), [x * c for x in xs], u),
           (numpy.divide(a, c), [x / c for x in xs], u),
           (numpy.power(a, 2), [x * x for x in xs], metric.Unit(u) ** 2),
           (numpy.multiply(a, b), [x * y for x, y in zip(xs, ys)],
            metric.Unit(u) * v),
           (numpy.divide(a, b), [x / y for x, y in zip(xs, ys)],
            metric.Unit(u) / v)]
    for f, g in ((numpy.add, lambda x, y: x + y),
                 (numpy.subtract, lambda x, y: x - y)):
        if u == v:
            got.append((f(a, b), [g(x, y) for x, y in zip(xs, ys)], u))
        else:
            cx.raises((ValueError, TypeError, metadata.UnitError), f, a, b,
                      label='sum of different units')
        cx.raises((ValueError, TypeError, metadata.UnitError), f, a, 2.0,
                  label='sum with a number')
    for q, want, unit in got:
        cx.check(type(q) is type(a), 'kind')
        cx.check(q.unit == unit, 'unit')
        for g, w in zip(values(q), want):
            cx.check_close(g, w, 'value')
    pure(cx, a, xs, u, 'left operand')
    pure(cx, b, ys, v, 'right operand')
