"""C12: searching arrays and interpolating between their values."""
import numpy

from sx.context import case
from goats.core import interpolation, numerical, physical, variable

N = ('goats.core.numerical.find_nearest',)
B = ('goats.core.numerical.get_bounding_indices',
     'goats.core.numerical.find_1d_indices')
I = ('goats.core.interpolation.apply', 'goats.core.interpolation.Restriction',
     'goats.core.interpolation.restrict_coordinate')

FORMS = {
    'list': lambda cx, xs: list(xs),
    'tuple': lambda cx, xs: tuple(xs),
    'array': lambda cx, xs: cx.to_array(xs),
    'vector': lambda cx, xs: physical.Vector(list(xs), unit='m'),
    'variable': lambda cx, xs: variable.Quantity(
        cx.to_array(xs), dimensions=['x'], unit='m'),
}


def nearest(cx, found, xs, t, bound):
    """The found value is the nearest of those that satisfy the bound."""
    allowed = [True] * len(xs)
    if bound == 'lower':
        allowed = [cx.decide(x >= t) for x in xs]
    if bound == 'upper':
        allowed = [cx.decide(x <= t) for x in xs]
    if not any(allowed):
        allowed = [True] * len(xs)
    elif bound == 'lower':
        cx.check(found.value >= t, 'at least the target')
    elif bound == 'upper':
        cx.check(found.value <= t, 'at most the target')
    d = abs(found.value - t)
    for x, a in zip(xs, allowed):
        if a:
            cx.check(d <= abs(x - t), 'nearest')


@case('C12', 'one to four values (thorough: five) of any size in any order, any'
      ' target, with or without a bound, in five kinds of sequence', N,
      shard=('n', 4))
def nearest_value(cx):
    n = cx.choice('n', cx.bound([1, 2, 3, 4], [1, 2, 3, 4, 5]))
    xs = cx.reals('x', n)
    t = cx.real('t')
    form = cx.choice('form', list(FORMS) if n < 4 else ['list', 'variable'])
    bound = cx.choice('bound', [None, 'lower', 'upper'])
    given = FORMS[form](cx, xs)
    found = numerical.find_nearest(given, t, bound=bound) if bound else \
        numerical.find_nearest(given, t)
    index = found.index
    cx.check(0 <= int(index) < n, 'index within the sequence')
    cx.check_same(found.value, xs[index], 'value at the index')
    nearest(cx, found, xs, t, bound)


@case('C12', 'two-dimensional arrays (1 by 3, 2 by 2, 3 by 1) of values of any'
      ' size in any order, any target, with or without a bound', N,
      shard=('shape', 3))
def nearest_in_2d(cx):
    shape = cx.choice('shape', [(1, 3), (2, 2), (3, 1)])
    a = cx.array('x', shape)
    t = cx.real('t')
    bound = cx.choice('bound', [None, 'lower', 'upper'])
    found = numerical.find_nearest(a, t, bound=bound)
    index = found.index
    cx.check(isinstance(index, tuple) and len(index) == 2, 'one index per axis')
    cx.check(all(0 <= int(i) < n for i, n in zip(index, shape)), 'valid index')
    cx.check_same(found.value, a[index], 'value at the index')
    nearest(cx, found, list(a.flat), t, bound)


def ascending(cx, xs):
    for a, b in zip(xs[:-1], xs[1:]):
        cx.assume(a < b)


def bracket(cx, xs, t, lower, upper):
    lower, upper = int(lower), int(upper)
    n = len(xs)
    cx.check(0 <= lower <= upper < n, 'valid indices')
    if cx.decide(t < xs[0]):
        cx.check((lower, upper) == (0, 0), 'below')
    elif cx.decide(t > xs[-1]):
        cx.check((lower, upper) == (n - 1, n - 1), 'above')
    else:
        cx.check(xs[lower] <= t, 'lower bound')
        cx.check(xs[upper] >= t, 'upper bound')
        cx.check(upper - lower <= 1, 'adjacent')
        if upper > lower:
            cx.check(xs[lower] != t, 'strict')
            cx.check(xs[upper] != t, 'strict')


@case('C12', 'ascending sequences of one to five values, any target', B)
def bounds_1d(cx):
    n = cx.choice('n', [1, 2, 3, 4, 5])
    xs = cx.reals('x', n)
    ascending(cx, xs)
    t = cx.real('t')
    given = cx.choice('form', [list, cx.to_array])(xs)
    r = cx.choice('axis', [
        lambda: numerical.get_bounding_indices(given, t),
        lambda: numerical.get_bounding_indices(given, t, axis=0),
        lambda: numerical.get_bounding_indices(given, t, axis=-1)])()
    cx.check(r.shape == (2,), 'shape')
    bracket(cx, xs, t, r[0], r[1])


@case('C12', 'two rows or two columns of three ascending values (thorough: three'
      ' rows or columns), any target, along either axis', B)
def bounds_2d(cx):
    k = cx.bound(2, 3)
    a = cx.array('x', (k, 3))
    for row in a:
        ascending(cx, list(row))
    t = cx.real('t')
    axis = cx.choice('axis', [1, -1, 0, None])
    if axis == 0:
        r = numerical.get_bounding_indices(a.T, t, axis=0)
        cx.check(r.shape == (2, k), 'shape')
        r = r.T
    else:
        r = numerical.get_bounding_indices(a, t, axis=axis)
        cx.check(r.shape == (k, 2), 'shape')
    for row, (lower, upper) in zip(a, r):
        bracket(cx, list(row), t, lower, upper)


def line(cx, got, xs, ys, t, label):
    """got lies on the piecewise linear function through (xs, ys) at t."""
    for i, x in enumerate(xs):
        if cx.decide(t == x):
            cx.check_close(got, ys[i], f'{label}: at a reference value',
                           scale=abs(ys[i]))
            return
    for i in range(len(xs) - 1):
        if cx.decide(cx.both(xs[i] < t, t < xs[i + 1])):
            w = (t - xs[i]) / (xs[i + 1] - xs[i])
            want = ys[i] + (ys[i + 1] - ys[i]) * w
            cx.check_close(got, want, f'{label}: between reference values',
                           scale=abs(ys[i]) + abs(ys[i + 1]))
            return
    cx.check(False, 'unreachable')


SHAPES_1 = [(), (1,), (2,), (1, 2)]


@case('C12', 'interpolation over two to four ascending reference values, one or'
      ' two targets within their range, of data with up to two more axes',
      I, shard=('n', 3))
def interpolate_1d(cx):
    cx.float_arrays()
    n = cx.choice('n', cx.bound([2, 3, 4], [2, 3, 4, 5]))
    xs = cx.reals('x', n)
    ascending(cx, xs)
    shape = (n, *cx.choice('shape', SHAPES_1 if n < 4 else SHAPES_1[:3]))
    data = cx.array('y', shape)
    m = cx.choice('targets', [1, 2] if n < 4 else [1])
    ts = cx.reals('t', m)
    for t in ts:
        cx.assume(cx.both(t >= xs[0], t <= xs[-1]))
    axis = cx.choice('axis', [None, 0])
    r = interpolation.apply(data, cx.to_array(xs), ts, axis=axis)
    cx.check(numpy.shape(r) == (m, *shape[1:]), 'shape')
    r = numpy.reshape(r, (m, -1))
    flat = data.reshape(n, -1)
    for i, t in enumerate(ts):
        for k in range(flat.shape[1]):
            line(cx, r[i, k], xs, list(flat[:, k]), t, '1-D')


@case('C12', 'interpolation over one to three rows of two or three ascending'
      ' reference values, one or two targets within the range of each row, of'
      ' data with up to one more axis', I, shard=('shape', 5))
def interpolate_2d(cx):
    cx.float_arrays()
    rows, n = cx.choice('shape', [(1, 2), (1, 3), (2, 2), (2, 3), (3, 2)])
    a = cx.array('x', (rows, n), lo=-50, hi=50)
    for row in a:
        ascending(cx, list(row))
    rest = cx.choice('rest', [(), (1,), (2,)] if rows * n < 5 else [(), (1,)])
    data = cx.array('y', (rows, n, *rest), lo=-50, hi=50)
    m = cx.choice('targets', [1, 2] if rows * n < 5 or cx.thorough() else [1])
    ts = cx.reals('t', m, lo=-50, hi=50)
    for t in ts:
        for row in a:
            cx.assume(cx.both(t >= row[0], t <= row[-1]))
    axis = cx.choice('axis', [1, None])
    r = interpolation.apply(data, a, ts, axis=axis)
    cx.check(numpy.shape(r) == (rows, m, *rest), 'shape')
    r = numpy.reshape(r, (rows, m, -1))
    flat = data.reshape(rows, n, -1)
    for i, t in enumerate(ts):
        for j in range(rows):
            for k in range(flat.shape[2]):
                line(cx, r[j, i, k], list(a[j]), list(flat[j, :, k]), t, '2-D')


@case('C12', 'any target, two rows of three ascending values: the restricted'
      ' range of columns brackets the target in each row', I)
def restriction(cx):
    a = cx.array('x', (2, 3))
    for row in a:
        ascending(cx, list(row))
    t = cx.real('t')
    r = interpolation.Restriction(
        interpolation.restrict_coordinate, a, t, axis=1)
    idx = [int(i) for i in r.indices]
    cx.check(idx == list(range(idx[0], idx[-1] + 1)), 'contiguous')
    for row in a:
        if cx.decide(cx.both(row[0] <= t, t <= row[-1])):
            cx.check(row[idx[0]] <= t, 'lower')
            cx.check(row[idx[-1]] >= t, 'upper')
    b = cx.array('y', (2, 3))
    for axis in (1, -1):
        part = r.apply(b, axis=axis)
        cx.check_all_same(part, b[:, idx], 'columns')
    cx.check_all_same(r.apply(b), b[:, idx], 'last axis by default')
    cx.check_all_same(r.apply(b.T, axis=0), b.T[idx, :], 'rows')
