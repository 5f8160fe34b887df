"""C09: arrays and variables: subscripts and operations along dimensions."""
import itertools

import numpy

from sx.context import case
from goats.core import metadata, physical, variable
from props.C05 import value

T = ('goats.core.physical.Array', 'goats.core.variable.Array',
     'goats.core.variable.Quantity')


class Lazy:
    """Data that, like a netCDF variable, is read by basic subscription only."""

    def __init__(self, array):
        self.array = array
        self.shape = array.shape
        self.ndim = array.ndim

    def __len__(self):
        return len(self.array)

    def __array__(self, *args, **kwargs):
        return self.array

    def __getitem__(self, index):
        index = index if isinstance(index, tuple) else (index,)
        if all(isinstance(i, (int, slice, type(...))) for i in index):
            return self.array[index]
        raise IndexError('unsupported subscript')


NAMES = 'xyzw'


def source(cx, shape, how):
    """(array-like, {position: value})."""
    a = cx.array('a', shape)
    table = {p: a[p] for p in itertools.product(*map(range, shape))}
    if how == 'list':
        return a.tolist(), table
    return (Lazy(a) if how == 'lazy' else a), table


def build(cx, kind, shape):
    """(quantity, table, unit); the quantity may be rescaled, or loaded."""
    how, rescaled, loaded = cx.choice('source', [
        ('array', False, False), ('list', True, False), ('lazy', False, False),
        ('lazy', True, True)])
    data, table = source(cx, shape, how)
    if kind == 'physical':
        q = physical.Array(data, unit='km', name='q')
    else:
        q = variable.Quantity(data, unit='km', dimensions=NAMES[:len(shape)])
    unit = 'km'
    if rescaled:
        q, unit = q['cm'], 'cm'
        f = value('km') / value('cm')
        table = {p: v * f for p, v in table.items()}
    if loaded:
        numpy.asarray(q)
    return q, table, unit


def positions(index, n):
    """The positions along an axis of length n selected by one index."""
    if isinstance(index, slice):
        return list(range(n))[index]
    if isinstance(index, (list, tuple)):
        return [list(range(n))[i] for i in index]
    return [list(range(n))[index]]


def expand(index, ndim):
    index = list(index)
    if Ellipsis in index:
        i = index.index(Ellipsis)
        index[i:i+1] = [slice(None)] * (ndim - len(index) + 1)
    return index + [slice(None)] * (ndim - len(index))


def verify(cx, q, kind, table, unit, shape, index, label):
    """q[index] holds the selected values, in order, with its metadata."""
    axes = expand(index, len(shape))
    per_axis = [positions(i, n) for i, n in zip(axes, shape)]
    keep = [not isinstance(i, int) for i in axes]
    r = q[index[0] if len(index) == 1 else tuple(index)]
    want = [table[p] for p in itertools.product(*per_axis)]
    if kind == 'physical':
        wanted = tuple(len(p) for p, k in zip(per_axis, keep) if k)
    else:
        wanted = tuple(len(p) for p in per_axis)
    if kind == 'physical' and not wanted:
        cx.check(isinstance(r, physical.Scalar), f'{label}: scalar')
        got = [r.data]
    else:
        a = numpy.asarray(r)
        cx.check(a.shape == wanted, f'{label}: shape')
        cx.check(r.shape == wanted and r.ndim == len(wanted),
                 f'{label}: shape of the quantity')
        got = list(a.flat)
    cx.check(len(got) == len(want), f'{label}: number of values')
    for g, w in zip(got, want):
        cx.check_close(g, w, f'{label}: value')
    cx.check(r.unit == metadata.Unit(unit), f'{label}: unit')
    if kind == 'physical':
        cx.check(set(r.name) == {'q'}, f'{label}: name')
    else:
        cx.check(list(r.dimensions) == list(NAMES[:len(shape)]),
                 f'{label}: dimensions')
    return r


def unchanged(cx, q, table, unit, shape):
    a = numpy.asarray(q)
    cx.check(a.shape == shape, 'original: shape')
    for p, v in table.items():
        cx.check_close(a[p], v, 'original: value')
    cx.check(q.unit == metadata.Unit(unit), 'original: unit')


@case('C09', 'one axis of length 3 with any real values: every slice with start'
      ' and stop in None, -4..4 and step in None, 2, -1, -2; every index -3..2;'
      ' array data, rescaled list data, file-like data, also rescaled and loaded',
      T,
      shard=('start', 8))
def one_axis(cx):
    kind = cx.choice('kind', ['physical', 'variable'])
    start = cx.choice('start', [None, 'int'] + list(range(-4, 5)))
    q, table, unit = build(cx, kind, (3,))
    if start == 'int':
        i = cx.choice('i', range(-4, 4))
        if not -3 <= i < 3:
            cx.raises(IndexError, q.__getitem__, i, label='out of range')
        else:
            verify(cx, q, kind, table, unit, (3,), [i], 'index')
    else:
        stop = cx.choice('stop', [None, -4, -2, -1, 0, 1, 3, 4])
        step = cx.choice('step', [None, 2, -1])
        index = slice(start, stop, step)
        verify(cx, q, kind, table, unit, (3,), [index], 'slice')
    unchanged(cx, q, table, unit, (3,))


BASIC = [0, -1, slice(None), slice(1, None), slice(None, None, 2),
         slice(None, 9), slice(-1, None), slice(None, None, -1)]
LISTS = [[0], [1, 0], [0, 0]]


def several(cx, shape, basic, lists):
    """A subscript of len(shape) or fewer entries, perhaps with an ellipsis."""
    n = cx.choice('entries', range(1, len(shape) + 1))
    fancy = cx.bool('fancy')
    options = ([i for i in basic if not isinstance(i, int)] + lists) if fancy \
        else basic
    index = [cx.choice(f'i{k}', options) for k in range(n)]
    if cx.bool('ellipsis'):
        index.insert(cx.choice('at', range(n + 1)), Ellipsis)
    if fancy:
        if not any(isinstance(i, list) for i in index):
            cx.exclude('no list: basic subscript')
        if len(index) == 1:
            cx.exclude('a single list is not a documented subscript')
    return index


@case('C09', 'two axes (2 x 3) with any real values; up to two entries out of'
      ' 8 integers and slices, or of slices and lists, with an ellipsis'
      ' anywhere; sources as above', T, shard=('source', 4))
def two_axes(cx):
    kind = cx.choice('kind', ['physical', 'variable'])
    shape = (2, 3)
    q, table, unit = build(cx, kind, shape)
    index = several(cx, shape, BASIC, LISTS[:2])
    verify(cx, q, kind, table, unit, shape, index, 'subscript')
    unchanged(cx, q, table, unit, shape)


@case('C09', 'three axes (2 x 2 x 3) with any real values; up to three entries'
      ' out of 5 integers and slices, or of slices and lists, with an ellipsis'
      ' anywhere', T, shard=('entries', 3))
def three_axes(cx):
    kind = cx.choice('kind', ['physical', 'variable'])
    shape = (2, 2, 3)
    data, table = source(cx, shape, 'array')
    if kind == 'physical':
        q = physical.Array(data, unit='km', name='q')
    else:
        q = variable.Quantity(data, unit='km', dimensions=NAMES[:3])
    index = several(cx, shape, cx.bound(
        [1, -1, slice(None), slice(1, None)], BASIC[:6]), [[1, 0]])
    verify(cx, q, kind, table, 'km', shape, index, 'subscript')
    unchanged(cx, q, table, 'km', shape)


@case('C09', 'a subset of a subset, changing the unit in between; 2 x 3 values;'
      ' seven subscripts each', T)
def chains(cx):
    kind = cx.choice('kind', ['physical', 'variable'])
    shape = (2, 3)
    data, table = source(cx, shape, 'array')
    f = value('km') / value('cm')
    if kind == 'physical':
        q = physical.Array(data, unit='km', name='q')
    else:
        q = variable.Quantity(data, unit='km', dimensions=NAMES[:2])
    options = [[slice(None), slice(1, None)], [slice(1, None)], [Ellipsis],
               [slice(None), [2, 0]], [[1, 0], slice(None)],
               [slice(None), slice(None, None, -1)]]
    first = cx.choice('first', options)
    r = verify(cx, q, kind, table, 'km', shape, first, 'first')
    axes = [positions(i, n) for i, n in zip(expand(first, 2), shape)]
    smaller = tuple(map(len, axes))
    sub = {p: f * table[axes[0][p[0]], axes[1][p[1]]]
           for p in itertools.product(*map(range, smaller))}
    s = r['cm']
    second = cx.choice('second', [[0, 0], [slice(None), -1], [slice(None)],
                                  [slice(None), [1, 0]]])
    verify(cx, s, kind, sub, 'cm', smaller, second, 'second')
    unchanged(cx, q, table, 'km', shape)


SIZES = {'x': 2, 'y': 3, 'z': 2}
DIMS = [('x',), ('y',), ('x', 'y'), ('y', 'x'), ('x', 'z'), ('z', 'y')]


def named(cx, name, dims, sizes, unit, past='', **kw):
    """A variable, possibly the result of earlier operations, and its values."""
    shape = tuple(sizes[d] for d in dims)
    a = cx.array(name, shape, **kw)
    if past == 'converted':
        return variable.Quantity(
            a / 1000, unit=f'k{unit}', dimensions=dims)[unit], a
    if past == 'subset':
        return variable.Quantity(
            a[::-1], unit=unit, dimensions=dims)[::-1], a
    return variable.Quantity(a, unit=unit, dimensions=dims), a


@case('C09', 'u * v, u / v (v not 0) for variables over 1 or 2 of three named'
      ' dimensions (every pair of six), any real values; a shared dimension may'
      ' have size 1 in one of them', T, shard=('d0', 6))
def products(cx):
    cx.float_arrays()
    d0 = cx.choice('d0', DIMS)
    d1 = cx.choice('d1', DIMS)
    s0, s1 = dict(SIZES), dict(SIZES)
    single = cx.choice('single', ['', 'left', 'right'])
    if single:
        shared = [d for d in d0 if d in d1]
        if not shared:
            cx.exclude('no shared dimension')
        (s0 if single == 'left' else s1)[shared[0]] = 1
    past = cx.choice('past', [('', ''), ('converted', ''), ('', 'converted'),
                              ('converted', 'subset')])
    u, a = named(cx, 'a', d0, s0, 'm', past[0])
    v, b = named(cx, 'b', d1, s1, 's', past[1], nonzero=True)
    divide = cx.bool('divide')
    r = u / v if divide else u * v
    dims = list(d0) + [d for d in d1 if d not in d0]
    size = {d: max(s0[d] if d in d0 else 1, s1[d] if d in d1 else 1)
            for d in dims}
    cx.check(list(r.dimensions) == dims, 'dimensions')
    got = numpy.asarray(r)
    cx.check(got.shape == tuple(size[d] for d in dims), 'shape')
    cx.check(r.unit == metadata.Unit('m / s' if divide else 'm * s'), 'unit')
    for p in itertools.product(*[range(size[d]) for d in dims]):
        at = dict(zip(dims, p))
        x = a[tuple(at[d] % s0[d] for d in d0)]
        y = b[tuple(at[d] % s1[d] for d in d1)]
        cx.check_close(got[p], x / y if divide else x * y, 'value')


@case('C09', 'u * v, u / v where a shared dimension has sizes m != n, both at'
      ' least 2; u + v, u - v over different dimensions: all rejected', T)
def conflicts(cx):
    cx.float_arrays()
    op = cx.choice('op', ['mul', 'div', 'add', 'sub'])
    if op in ('mul', 'div'):
        d0 = cx.choice('d0', [('x',), ('x', 'y'), ('y', 'x')])
        d1 = cx.choice('d1', [('x',), ('x', 'z'), ('z', 'x')])
        m = cx.choice('m', [2, 3, 4])
        n = cx.choice('n', [2, 3, 4])
        if m == n:
            cx.exclude('the same size')
        u, a = named(cx, 'a', d0, dict(SIZES, x=m), 'm')
        v, b = named(cx, 'b', d1, dict(SIZES, x=n), 's', nonzero=True)
        f = (lambda: u * v) if op == 'mul' else (lambda: u / v)
    else:
        d0 = cx.choice('d0', [('x',), ('x', 'z'), ('z', 'x')])
        d1 = cx.choice('d1', [('z',), ('x', 'z'), ('z', 'x')])
        if d0 == d1:
            cx.exclude('the same dimensions')
        u, a = named(cx, 'a', d0, SIZES, 'm')
        v, b = named(cx, 'b', d1, SIZES, 'm')
        f = (lambda: u + v) if op == 'add' else (lambda: u - v)
    r, err = cx.catch(f)
    cx.check(err is not None, f'{op} rejected')


@case('C09', 'u + v, u - v, -u, abs(u), u ** 2, c * u over the same one or two'
      ' dimensions; any real values and c', T)
def elementwise(cx):
    d = cx.choice('d', [('x',), ('x', 'y')])
    past = cx.choice('past', [('', ''), ('converted', ''), ('', 'converted'),
                              ('subset', 'converted')])
    u, a = named(cx, 'a', d, SIZES, 'm', past[0])
    v, b = named(cx, 'b', d, SIZES, 'm', past[1])
    c = cx.real('c')
    op = cx.choice('op', ['add', 'sub', 'neg', 'abs', 'pow', 'mul', 'rmul'])
    r, f, unit = {
        'add': lambda: (u + v, lambda x, y: x + y, 'm'),
        'sub': lambda: (u - v, lambda x, y: x - y, 'm'),
        'neg': lambda: (-u, lambda x, y: -x, 'm'),
        'abs': lambda: (abs(u), lambda x, y: abs(x), 'm'),
        'pow': lambda: (u ** 2, lambda x, y: x * x, 'm^2'),
        'mul': lambda: (u * c, lambda x, y: x * c, 'm'),
        'rmul': lambda: (c * u, lambda x, y: x * c, 'm'),
    }[op]()
    cx.check(list(r.dimensions) == list(d), 'dimensions')
    cx.check(r.unit == metadata.Unit(unit), 'unit')
    got = numpy.asarray(r)
    cx.check(got.shape == a.shape, 'shape')
    for p in itertools.product(*map(range, a.shape)):
        cx.check_close(got[p], f(a[p], b[p]), f'{op}: value')
    for q, w in ((u, a), (v, b)):
        for g, x in zip(numpy.asarray(q).flat, w.flat):
            cx.check_close(g, x, 'operand')


@case('C09', 'numpy.mean over any axis (positive or negative) and numpy.squeeze'
      ' with and without axis of 2- and 3-dimensional variables with any real'
      ' values; rescaled or not', T)
def reductions(cx):
    shape = cx.choice('shape', [(2, 3), (1, 3), (2, 1, 3), (1, 1, 2)])
    a = cx.array('a', shape)
    q = variable.Quantity(a, unit='km', dimensions=NAMES[:len(shape)])
    f, unit = 1.0, 'km'
    if cx.bool('rescaled'):
        q, unit, f = q['cm'], 'cm', value('km') / value('cm')
    axis = cx.choice('axis', [None] + list(range(-len(shape), len(shape))))
    dims = list(NAMES[:len(shape)])
    if cx.bool('mean'):
        if axis is None:
            r = numpy.mean(q)
            cx.check_close(r, f * sum(a.flat) / a.size, 'mean', scale=1e6)
            return
        r = numpy.mean(q, axis=axis)
        n = axis % len(shape)
        want = {p: f * sum(a[p[:n] + (i,) + p[n:]] for i in range(shape[n]))
                / shape[n] for p in itertools.product(
                    *[range(s) for k, s in enumerate(shape) if k != n])}
        del dims[n]
    else:
        if axis is None:
            gone = [k for k, s in enumerate(shape) if s == 1]
            r = numpy.squeeze(q)
        else:
            gone = [axis % len(shape)]
            if shape[gone[0]] != 1:
                cx.raises(ValueError, numpy.squeeze, q, axis=axis,
                          label='not a singular axis')
                return
            r = numpy.squeeze(q, axis=axis)
        want = {tuple(i for k, i in enumerate(p) if k not in gone): f * a[p]
                for p in itertools.product(*map(range, shape))}
        dims = [d for k, d in enumerate(dims) if k not in gone]
    cx.check(list(r.dimensions) == dims, 'dimensions')
    cx.check(r.unit == metadata.Unit(unit), 'unit')
    got = numpy.asarray(r)
    for p, w in want.items():
        cx.check_close(got[p], w, 'value', scale=1e6)


@case('C09', 'a value is in a variable of three values exactly if it equals one'
      ' of them; any real values', T)
def contains(cx):
    a = cx.array('a', 3)
    q = variable.Quantity(a, unit='km', dimensions=['x'])
    x = cx.real('x')
    got = bool(x in q)
    want = cx.either(*[x == v for v in a])
    cx.check(cx.implies(got, want), 'in: sound')
    cx.check(cx.implies(want, got), 'in: complete')
    near = bool(q.array_contains(x))
    cx.check(cx.implies(want, near), 'array_contains: complete')
    far = cx.both(*[abs(x - v) > 1e-3 * (1 + abs(v)) for v in a])
    cx.check(cx.implies(near, cx.negate(far)), 'array_contains: sound')
