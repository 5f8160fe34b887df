"""C07: changing the unit of a quantity preserves the physical quantity."""
import numpy

from fractions import Fraction

from sx.context import case
from goats.core import measurable, metadata, metric, physical, variable
from props.C05 import PAIRS, exponents, value

T = ('goats.core.measurable.Quantity', 'goats.core.physical.Array',
     'goats.core.physical.Vector', 'goats.core.variable.Quantity')

KINDS = ['measurable.Quantity', 'measurable.Scalar', 'physical.Quantity',
         'physical.Scalar', 'physical.Vector', 'physical.Array',
         'variable.Quantity']
ARRAYS = ('physical.Vector', 'physical.Array', 'variable.Quantity')


def build(cx, kind, xs, unit):
    """A quantity of the given kind whose values are xs (one for scalars)."""
    if kind == 'measurable.Quantity':
        return measurable.Quantity(xs[0], unit=unit)
    if kind == 'measurable.Scalar':
        return measurable.Scalar(xs[0], unit=unit)
    if kind == 'physical.Quantity':
        return physical.Quantity(xs[0], unit=unit, name='q')
    if kind == 'physical.Scalar':
        return physical.Scalar(xs[0], unit=unit, name='q')
    if kind == 'physical.Vector':
        return physical.Vector(list(xs), unit=unit, name='q')
    if kind == 'physical.Array':
        return physical.Array(cx.to_array(xs), unit=unit, name='q')
    return variable.Quantity(cx.to_array(xs), unit=unit, dimensions=['x'])


def values(q):
    """The current numerical values of a quantity."""
    if isinstance(q, (physical.Array, variable.Quantity)):
        return list(numpy.asarray(q))
    if isinstance(q, physical.Vector):
        return list(q.data)
    return [q.data]


def check(cx, q, xs, unit, label):
    """q is the quantity with values xs in the given unit, fully labelled."""
    got = values(q)
    cx.check(q.unit == metadata.Unit(unit), f'{label}: unit')
    n = len(xs) if isinstance(
        q, (physical.Array, variable.Quantity, physical.Vector)) else 1
    cx.check(len(got) == n, f'{label}: number of values')
    for a, b in zip(got, xs):
        cx.check_close(a, b, f'{label}: value')
    if isinstance(q, physical.Quantity):
        cx.check(set(q.name) == {'q'}, f'{label}: name')
    if isinstance(q, variable.Quantity):
        cx.check(tuple(q.dimensions) == ('x',), f'{label}: dimensions')


def give(form, unit):
    """The same unit as the user may give it."""
    if form == 'text':
        return unit
    return metric.Unit(unit) if form == 'metric' else metadata.Unit(unit)


FORMS = ['text', 'metric', 'metadata']

SIMPLE = [('km', 'm'), ('m', 'au'), ('h', 's'), ('MeV', 'J'), ('erg', 'eV'),
          ('G', 'nT'), ('statC', 'C'), ('deg', 'rad'), ('dyn', 'N'),
          ('mm', 'Mm'), ('pg', 'Pg'), ('cm', 'Em')]
COMPOSITE = [
    ('km / s', 'au / d', 86400 / 1.495978707e8), ('MeV / nuc', 'J / kg',
                                                  1.6022e-13 / 1.6605e-27),
    ('# / cm^3', 'm^-3', 1e6), ('g / cm^3', 'kg / m^3', 1e3),
    ('N', 'g * cm / s^2', 1e5), ('kg * m^2 / s^2', 'erg', 1e7),
]


@case('C07', 'seven kinds of quantity with any real value (two for arrays),'
      ' 12 pairs of units and 6 pairs of composite units in both directions,'
      ' the new unit as text or unit object; there, and back again', T,
      shard=('kind', 7))
def change(cx):
    kind = cx.choice('kind', KINDS)
    if cx.bool('composite'):
        u0, u1, f = cx.choice('units', COMPOSITE)
        if cx.bool('back'):
            u0, u1, f = u1, u0, 1 / f
    else:
        u0, u1 = cx.choice('units', SIMPLE)
        if cx.bool('back'):
            u0, u1 = u1, u0
        f = value(u0) / value(u1)
    form = cx.choice('form', FORMS)
    xs = cx.reals('x', 2)
    q = build(cx, kind, xs, u0)
    r = q[give(form, u1)]
    check(cx, r, [x * f for x in xs], u1, 'changed')
    check(cx, q, xs, u0, 'original')
    check(cx, r[give(form, u0)], xs, u0, 'restored')
    check(cx, q[give(form, u0)], xs, u0, 'same unit')
    check(cx, r, [x * f for x in xs], u1, 'changed, later')


@case('C07', 'a^p b^q to c^p d^q for fourteen choices of two convertible pairs;'
      ' any non-integral rational p, q in [-4, 4], and p, q in {1, -1, 2};'
      ' any real value', T, shard=('pairs', 7))
def powers(cx):
    x, y = PAIRS[cx.choice('pairs', sorted(PAIRS))]
    kind = 'physical.Array' if cx.thorough() else 'measurable.Scalar'
    p, q = exponents(cx, 'pq', -4, 4, [1, -1, 2])
    v = cx.reals('v', 2)
    a = build(cx, kind, v, f'{x[0]}^{p} * {y[0]}^{q}')
    b = a[f'{x[1]}^{p} * {y[1]}^{q}']
    f = ((value(x[0]) / value(x[1])) ** p) * ((value(y[0]) / value(y[1])) ** q)
    for got, want in zip(values(b), v):
        cx.check_close(got, want * f, 'value')


SYSTEMS = [
    # unit, mks unit and factor, cgs unit and factor
    ('km', 'm', 1e3, 'cm', 1e5), ('h', 's', 3600., 's', 3600.),
    ('km / h', 'm / s', 1 / 3.6, 'cm / s', 1e2 / 3.6),
    ('MeV', 'J', 1.6022e-13, 'erg', 1.6022e-6),
    ('g / cm^3', 'kg / m^3', 1e3, 'g / cm^3', 1.0),
    ('nT', 'T', 1e-9, 'G', 1e-5), ('mV', 'V', 1e-3, 'statV', 1e-3 * 1e8 / 2.99792458e10),
    ('# / cm^3', 'm^-3', 1e6, 'cm^-3', 1.0), ('MK', 'K', 1e6, 'K', 1e6),
    ('deg', 'rad', 3.141592653589793 / 180, 'rad', 3.141592653589793 / 180),
]


@case('C07', 'conversion to a named metric system in any capitalisation; seven'
      ' kinds of quantity with any real value; ten units', T, shard=('kind', 4))
def systems(cx):
    kind = cx.choice('kind', KINDS)
    u, mks, fm, cgs, fc = cx.choice('unit', SYSTEMS)
    name = cx.choice('system', ['mks', 'cgs', 'MKS', 'CGS', 'Cgs'])
    unit, f = (mks, fm) if name.lower() == 'mks' else (cgs, fc)
    xs = cx.reals('x', 2)
    q = build(cx, kind, xs, u)
    r = q[name]
    check(cx, r, [x * f for x in xs], unit, 'in the system')
    check(cx, q, xs, u, 'original')


UNLIKE = ['m', 'kg', 's', 'K', 'J', 'N', 'T', 'mol', 'm / s', 'kg / m^3', 'W']


@case('C07', 'seven kinds of quantity, every ordered pair of eleven units of'
      ' different dimension; any real value', T, shard=('kind', 4))
def inconsistent(cx):
    kind = cx.choice('kind', KINDS)
    u0 = cx.choice('u0', UNLIKE)
    u1 = cx.choice('u1', UNLIKE)
    if u0 == u1:
        cx.exclude('the same unit')
    xs = cx.reals('x', 2)
    q = build(cx, kind, xs, u0)
    cx.raises(ValueError, q.__getitem__, u1, label='rejected')
    check(cx, q, xs, u0, 'original')


STEPS = ['m', 'cm', 'km', 'au']


@case('C07', 'every sequence of three operations (change to one of four units,'
      ' copy the instance, load the array, take a subset) on an array-like or'
      ' scalar quantity with any real values', T, shard=('kind', 7))
def histories(cx):
    kind = cx.choice('kind', KINDS)
    xs = cx.reals('x', 2)
    unit = 'km'
    q = build(cx, kind, xs, unit)
    live = [(q, list(xs), unit)]
    arrays = kind in ('physical.Array', 'variable.Quantity')
    ops = STEPS + ['copy'] + (['load', 'subset'] if arrays else [])
    for i in range(cx.bound(3, 4)):
        op = cx.choice(f'op{i}', ops)
        q, xs, unit = live[-1]
        if op == 'copy':
            r = type(q)(q)
        elif op == 'load':
            numpy.asarray(q)
            r = q
        elif op == 'subset':
            r = q[:]
        else:
            f = value(unit) / value(op)
            r = q[op]
            xs, unit = [x * f for x in xs], op
        live.append((r, xs, unit))
    for i, (q, xs, unit) in enumerate(live):
        check(cx, q, xs, unit, f'state {i}')
