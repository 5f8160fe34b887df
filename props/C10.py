"""C10: measuring: reading values and a unit from whatever the user gives."""
import itertools

import numpy

from sx.context import case
from goats.core import measurable, metadata, metric, physical, variable

T = ('goats.core.measurable.measure', 'goats.core.measurable.parse_measurable',
     'goats.core.measurable.ismeasurable', 'goats.core.measurable.Measurement',
     'goats.core.physical.scalar')

UNITS = ['m', 'cm', 'km / s', 'J', '1', 'MeV / nuc']


def give(cx, name='form', units=UNITS):
    """(unit as given, its text); ('', '1') when none is given."""
    form = cx.choice(name, ['none', 'text', 'metric', 'metadata'])
    if form == 'none':
        return None, '1'
    unit = cx.choice(f'{name} unit', units)
    return {'text': str, 'metric': metric.Unit,
            'metadata': metadata.Unit}[form](unit), unit


def wrap(depth, this):
    """Redundant lists and tuples."""
    for i in range(depth):
        this = [this] if i % 2 else (this,)
    return this


def verify(cx, given, values, unit, label=''):
    cx.check(measurable.ismeasurable(given), f'{label}ismeasurable')
    m = measurable.measure(given)
    agree(cx, m, values, unit, label)
    pairs(cx, given, [(v, unit) for v in values], label)


def agree(cx, m, values, unit, label=''):
    cx.check(isinstance(m, measurable.Measurement), f'{label}a measurement')
    cx.check(m.unit == metadata.Unit(unit), f'{label}unit')
    cx.check(len(m) == len(values), f'{label}number of values')
    data = m.data
    cx.check(isinstance(data, tuple), f'{label}data')
    cx.check(len(data) == len(values), f'{label}number of data')
    for a, b in zip(data, values):
        cx.check_same(a, b, f'{label}value')


def pairs(cx, given, expected, label):
    got = measurable.parse_measurable(given, distribute=True)
    cx.check(len(got) == len(expected), f'{label}number of pairs')
    for (v, u), (w, x) in zip(got, expected):
        cx.check_same(v, w, f'{label}value of pair')
        cx.check(metadata.Unit(u) == metadata.Unit(x), f'{label}unit of pair')


@case('C10', 'one to three values of any size, alone or followed by a unit'
      ' (text or object, six units), as list, tuple or arguments, inside up to'
      ' two redundant lists or tuples', T, shard=('form', 4))
def flat(cx):
    n = cx.choice('n', [1, 2, 3])
    xs = cx.reals('x', n)
    given, unit = give(cx)
    items = [*xs] if given is None else [*xs, given]
    how = cx.choice('how', ['list', 'tuple', 'args', 'number'])
    if how == 'args':
        agree(cx, measurable.measure(*items), xs, unit)
        return
    if how == 'number':
        if n > 1 or given is not None:
            cx.exclude('not a number')
        this = xs[0]
    else:
        this = {'list': list, 'tuple': tuple}[how](items)
    verify(cx, wrap(cx.choice('depth', [0, 1, 2]), this), xs, unit)


@case('C10', 'one to three values of any size in a list, tuple, array or'
      ' iterator, or a range, followed by a unit (text or object, six units)', T,
      shard=('form', 4))
def nested(cx):
    n = cx.choice('n', [1, 2, 3])
    xs = cx.reals('x', n)
    given, unit = give(cx)
    if given is None:
        cx.exclude('flat')
    how = cx.choice('how', ['list', 'tuple', 'array', 'range'])
    if how == 'range':
        xs = range(n)
        values = xs
    else:
        values = {'list': list, 'tuple': tuple, 'array': cx.to_array}[how](xs)
    this = cx.choice('outer', [list, tuple])([values, given])
    verify(cx, wrap(cx.choice('depth', [0, 1]), this), list(xs), unit)


KINDS = ['measurable.Quantity', 'physical.Scalar', 'physical.Vector',
         'physical.Array', 'variable.Quantity', 'Measurement']


def quantity(cx, kind, xs, unit):
    """(measurable object, values)."""
    if kind == 'measurable.Quantity':
        return measurable.Quantity(xs[0], unit=unit), xs[:1]
    if kind == 'physical.Scalar':
        return physical.Scalar(xs[0], unit=unit), xs[:1]
    if kind == 'physical.Vector':
        return physical.Vector(list(xs), unit=unit), xs
    if kind == 'physical.Array':
        return physical.Array(cx.to_array(xs), unit=unit), xs
    if kind == 'variable.Quantity':
        return variable.Quantity(
            cx.to_array(xs), unit=unit, dimensions=['x']), xs
    return measurable.Measurement(tuple(xs), unit), xs


@case('C10', 'six kinds of measurable object with any one or two values, in six'
      ' units, alone or inside up to two lists or tuples', T)
def objects(cx):
    kind = cx.choice('kind', KINDS)
    unit = cx.choice('unit', UNITS)
    q, xs = quantity(cx, kind, cx.reals('x', cx.choice('n', [1, 2])), unit)
    verify(cx, wrap(cx.choice('depth', [0, 1, 2]), q), xs, unit)


@case('C10', 'six kinds of measurable object, any values, after a change of'
      ' unit', T)
def converted(cx):
    kind = cx.choice('kind', KINDS[:5])
    u, v, f = cx.choice('units', [('km', 'm', 1000), ('m', 'cm', 100),
                                  ('J', 'erg', 10 ** 7)])
    q, xs = quantity(cx, kind, cx.reals('x', 2), u)
    r = q[v]
    m = measurable.measure(wrap(cx.choice('depth', [0, 1]), r))
    cx.check(m.unit == metadata.Unit(v), 'unit')
    cx.check(len(m) == len(xs), 'number of values')
    for a, b in zip(m.data, xs):
        cx.check_close(a, b * f, 'value')


PARTS = ['number', 'numbers', 'with unit', 'nested', 'physical.Scalar',
         'physical.Vector', 'physical.Array', 'Measurement', 'unit object']


def part(cx, i, xs, unit):
    """(measurable, values, unit): one member of a collection."""
    kind = cx.choice(f'part{i}', PARTS)
    if kind == 'number':
        return xs[0], xs[:1], '1'
    if kind == 'numbers':
        return list(xs), xs, '1'
    if kind == 'with unit':
        return (*xs, unit), xs, unit
    if kind == 'nested':
        return [tuple(xs), unit], xs, unit
    if kind == 'unit object':
        return (xs[0], metric.Unit(unit)), xs[:1], unit
    q, values = quantity(cx, kind, xs, unit)
    return q, values, unit


@case('C10', 'a list of two (thorough: three) measurable objects of nine kinds'
      ' with any one or two values each, in equal or different units', T,
      shard=('part0', 9))
def collections(cx):
    n = cx.bound(2, 3)
    parts = [part(cx, i, cx.reals(f'x{i}_', 2),
                  cx.choice(f'unit{i}', ['m', 'cm'])) for i in range(n)]
    given = [p[0] for p in parts]
    units = {p[2] for p in parts}
    cx.check(measurable.ismeasurable(given), 'ismeasurable')
    pairs(cx, given, [(v, p[2]) for p in parts for v in p[1]], '')
    m, err = cx.catch(measurable.measure, given)
    if len(units) == 1:
        cx.check(err is None, 'equal units: accepted')
        agree(cx, m, [v for p in parts for v in p[1]], units.pop())
    else:
        cx.check(isinstance(err, measurable.MeasuringTypeError),
                 'different units: rejected')


@case('C10', 'a list of three to five pairs of any value and one of two units, or'
      ' scalars, in every arrangement of the units', T, shard=('n', 3))
def many(cx):
    n = cx.choice('n', [3, 4, 5])
    xs = cx.reals('x', n)
    units = [cx.choice(f'unit{i}', ['m', 'cm']) for i in range(n)]
    kind = cx.choice('kind', ['pair', 'scalar', 'vector'])
    given = [
        (x, u) if kind == 'pair' else physical.Scalar(x, unit=u)
        if kind == 'scalar' else physical.Vector([x], unit=u)
        for x, u in zip(xs, units)]
    pairs(cx, given, list(zip(xs, units)), '')
    m, err = cx.catch(measurable.measure, given)
    if len(set(units)) == 1:
        cx.check(err is None, 'equal units: accepted')
        agree(cx, m, xs, units[0])
    else:
        cx.check(isinstance(err, measurable.MeasuringTypeError),
                 'different units: rejected')


BAD = [
    lambda x, y: None, lambda x, y: [], lambda x, y: [()], lambda x, y: 'm',
    lambda x, y: ['m'], lambda x, y: ['m', x], lambda x, y: [x, 'm', y],
    lambda x, y: [x, None], lambda x, y: [None, 'm'],
    lambda x, y: [x, 'm', 'm'], lambda x, y: [x, 'm', y, 'cm'],
    lambda x, y: [(x, y), x, 'm'], lambda x, y: [(x, y), (x, y), 'm'],
    lambda x, y: [(x, 'm'), (y, 'm'), 'm'], lambda x, y: [('a', 'b'), 'm'],
    lambda x, y: [x, metric.Unit('m'), y], lambda x, y: [metric.Unit('m'), x],
    lambda x, y: [[(x, y)], 'm'], lambda x, y: object(),
    lambda x, y: [x, object()], lambda x, y: ['m', 's'], lambda x, y: '',
    lambda x, y: [x, 'm', metric.Unit('s')], lambda x, y: [(x, None), 'm'],
]


@case('C10', f'{len(BAD)} arrangements that are not measurable, with any two'
      ' numbers in them', T)
def unmeasurable(cx):
    x, y = cx.reals('x', 2)
    this = cx.choice('this', BAD)(x, y)
    cx.check(not measurable.ismeasurable(this), 'ismeasurable')
    errors = (measurable.Unmeasurable, measurable.MeasuringTypeError)
    for distribute in (False, True):
        _, err = cx.catch(measurable.parse_measurable, this,
                          distribute=distribute)
        cx.check(isinstance(err, errors), 'parsing rejected')
    _, err = cx.catch(measurable.measure, this)
    cx.check(isinstance(err, errors), 'rejected')


@case('C10', 'a measurement of one to three values of any size: every index in'
      ' -5..4, every slice with bounds in None, -4..4 and step in None, 2, -1;'
      ' len, data, unit, iteration', T)
def measurement(cx):
    n = cx.choice('n', [1, 2, 3])
    xs = cx.reals('x', n)
    unit = cx.choice('unit', ['m', 'km / s'])
    m = measurable.Measurement(cx.choice('type', [tuple, list])(xs), unit)
    agree(cx, m, xs, unit)
    seen = [v for pairs in m for v, _ in pairs]
    cx.check(len(seen) == n, 'iteration')
    for a, b in zip(seen, xs):
        cx.check_same(a, b, 'iteration')
    if cx.bool('slice'):
        ends = [None, *range(-4, 5)]
        index = slice(cx.choice('start', ends), cx.choice('stop', ends),
                      cx.choice('step', [None, 2, -1]))
        want = xs[index]
    else:
        index = cx.int('index', -5, 4)
        valid = cx.decide(cx.both(index >= -n, index < n))
        got, err = cx.catch(m.__getitem__, index)
        if not valid:
            cx.check(isinstance(err, IndexError), 'out of range')
            return
        cx.check(err is None, 'in range')
        want = [xs[index]]
    got = m[index]
    cx.check(len(got) == len(want), 'number of items')
    for (v, u), w in zip(got, want):
        cx.check_same(v, w, 'item: value')
        cx.check(metadata.Unit(u) == metadata.Unit(unit), 'item: unit')


@case('C10', 'scalar(x) for any number, with and without unit, and for'
      ' single- and multi-valued objects of six kinds', T)
def scalars(cx):
    n = cx.choice('n', [1, 2])
    xs = cx.reals('x', n)
    how = cx.choice('how', ['plain', 'pair', 'nested', *KINDS])
    unit = cx.choice('unit', ['m', 'J', '1'])
    if how == 'plain':
        this, unit = (xs[0] if n == 1 else list(xs)), '1'
    elif how == 'pair':
        this = (*xs, unit)
    elif how == 'nested':
        this = [list(xs), unit]
    else:
        this, xs = quantity(cx, how, xs, unit)
    r, err = cx.catch(physical.scalar, this)
    if len(xs) > 1:
        cx.check(isinstance(err, ValueError), 'several values: rejected')
        return
    cx.check(err is None, 'one value: accepted')
    cx.check(isinstance(r, physical.Scalar), 'a scalar')
    cx.check_same(r.data, xs[0], 'value')
    cx.check(r.unit == metadata.Unit(unit), 'unit')
