"""C13: indices along the axes of a dataset."""
import numpy

from sx.context import case
from props import dataset
from goats import eprem
from goats.core import axis, index, metadata, metric

A = ('goats.eprem.Axes', 'goats.core.axis.Quantity', 'goats.core.axis.Indexer',
     'goats.core.index.Data', 'goats.core.index.Quantity')
X = ('goats.core.index.Array',)

# unit -> seconds (joules, metres): the oracle's own numbers
TIME = {'s': 1, 'min': 60, 'h': 3600, 'day': 86400, 'ms': 0.001}
ENERGY = {'J': 1, 'erg': 1e-7, 'eV': 1.6022e-19, 'keV': 1.6022e-16,
          'MeV': 1.6022e-13}


def axes_of(cx, times=None, energies=None, mus=None, shells=2,
            mass=(1.0, 4.0), charge=(1.0, 2.0), system='mks'):
    n = len(mass)
    arrays = {
        'time': times if times is not None else dataset.steps(2),
        'shell': dataset.steps(shells),
        'mass': numpy.array(mass),
        'charge': numpy.array(charge),
        'egrid': energies if energies is not None
        else numpy.array([[1.0, 2.0]] * n),
        'mu': mus if mus is not None else numpy.array([-1.0, 1.0]),
    }
    return eprem.Axes(dataset.Data(arrays), system=system)


def nearest(cx, point, xs, target, label):
    point = int(point)
    cx.check(0 <= point < len(xs), f'{label}: index')
    d = abs(xs[point] - target)
    for x in xs:
        # converting units rounds
        room = (abs(x) + abs(target)) * 1e-9
        cx.check(d <= abs(x - target) + room, f'{label}: nearest')


def pack(form, ts, unit):
    """User input in one of the accepted forms."""
    if form == 'args':
        return (*ts, unit) if unit else tuple(ts)
    if form == 'tuple':
        return ((*ts, unit),) if unit else (tuple(ts),)
    if form == 'list':
        return ([*ts, unit],) if unit else (list(ts),)
    if form == 'pair':
        return (list(ts), unit) if unit else (list(ts),)
    raise ValueError(form)


@case('C13', 'one to four time steps of any values, one or two targets of any'
      ' size in five units or in the unit of the axis, given in four forms,'
      ' in two metric systems', A, shard=('n', 4))
def time_by_value(cx):
    n = cx.choice('n', [1, 2, 3, 4])
    xs = cx.array('x', (n,))
    m, unit, form, name, system = cx.choice('how', [
        (1, None, 'args', 'time', 'mks'), (2, 'day', 'pair', 't', 'cgs'),
        (2, None, 'tuple', 'times', 'mks'), (1, 's', 'tuple', 'time', 'mks'),
        (1, 'h', 'list', 'time', 'cgs'), (2, 'min', 'args', 't', 'mks'),
        (1, 'ms', 'pair', 'times', 'mks'), (2, 'h', 'list', 'time', 'mks'),
    ])
    if n == 4 and not cx.thorough():
        m = 1
    axes = axes_of(cx, times=xs, system=system)
    ts = cx.reals('t', m)
    a = axes[name]
    cx.check(a.unit == 's', 'unit')
    r = a.index(*pack(form, ts, unit))
    k = TIME[unit] if unit else 1
    cx.check(len(r) == m and len(r.values) == m, 'one index per target')
    cx.check(r.unit == 's', 'unit of the values')
    for i, t in enumerate(ts):
        cx.check_close(r.values[i], t * k, 'value')
        nearest(cx, r[i], [x * 86400 for x in xs], t * k, 'time')


@case('C13', 'two or three time steps of any values, an axis converted to one of'
      ' four units or a metric system, a target of any size in the unit of the'
      ' axis or another one', A + X, shard=('unit', 5))
def time_in_another_unit(cx):
    n = cx.choice('n', [2, 3])
    xs = cx.array('x', (n,))
    axes = axes_of(cx, times=xs)
    unit = cx.choice('unit', ['min', 'h', 'day', 'mks', 'CGS'])
    a = axes['time'][unit]
    k = TIME.get(unit, 1)
    unit = unit if unit in TIME else 's'
    cx.check(a.unit == unit, 'converted unit')
    cx.check(axes['time'].unit == 's', 'the original axis keeps its unit')
    given = cx.choice('given', [None, 's', 'day'])
    t = cx.real('t')
    target = t * (TIME[given] if given else k)
    r = a.index(t, given) if given else a.index(t)
    cx.check(r.unit == unit, 'unit of the values')
    cx.check_close(r.values[0] * k, target, 'value')
    nearest(cx, r[0], [x * 86400 for x in xs], target, 'time')
    full = a.reference
    cx.check(isinstance(full, index.Array) and len(full) == n, 'reference')
    cx.check(full.unit == unit, 'unit of the reference')
    for i, x in enumerate(xs):
        cx.check_close(full.values[i] * k, x * 86400, 'reference value')


@case('C13', 'two time steps of any values, two targets of any size, the axis'
      ' used in two or three units in a row, in the default metric system or in'
      ' a given one', A + X, shard=('units', 4))
def units_in_a_row(cx):
    xs = cx.array('x', (2,))
    axes = axes_of(cx, times=xs, system=cx.choice('system', [None, 'mks']))
    units = cx.choice('units', [('s', 'h'), ('day', 's'), ('h', 's', 'h'),
                                ('s', 'min', 'day')])
    ts = cx.reals('t', 2)
    for unit in units:
        a = axes['time'] if unit == 's' else axes['time'][unit]
        k = TIME[unit]
        cx.check(a.unit == unit, 'unit')
        r = a.index(*ts)
        cx.check(r.unit == unit, 'unit of the values')
        for i, t in enumerate(ts):
            cx.check_close(r.values[i], t, 'value')
            nearest(cx, r[i], [x * 86400 for x in xs], t * k, 'time')
        r = a.index(1, 0)
        cx.check(tuple(r) == (1, 0), 'indices')
        cx.check_close(r.values[0] * k, xs[1] * 86400, 'value at an index')
        r = a.index()
        for i, x in enumerate(xs):
            cx.check_close(r.values[i] * k, x * 86400, 'all values')


@case('C13', 'an axis that is given a unit of another dimension, directly, or'
      ' with a target of any size', A)
def inconsistent_unit(cx):
    t = cx.real('t')
    name, unit = cx.choice('unit', [
        ('time', 'm'), ('time', 'J'), ('time', 'm / s'), ('time', 'Hz'),
        ('energy', 's'), ('energy', 'W'), ('energy', 'kg m')])
    a = axes_of(cx)[name]
    how = cx.choice('how', ['axis', 'target', 'list'])
    if how == 'axis':
        cx.raises((ValueError, metric.UnitConversionError),
                  lambda: a[unit], label='axis')
    elif how == 'target':
        cx.raises((ValueError, metric.UnitConversionError),
                  lambda: a.index(t, unit), label='target')
    else:
        cx.raises((ValueError, metric.UnitConversionError),
                  lambda: a.index([t, 2 * t, unit]), label='targets')


@case('C13', 'three steps of any values, one or two indices (in any order,'
      ' possibly equal), slices, ranges and the whole of the time, pitch-angle,'
      ' shell and energy axes', A, shard=('axis', 4))
def by_index(cx):
    name = cx.choice('axis', ['time', 'mu', 'shell', 'energy'])
    xs = cx.array('x', (3,))
    ys = cx.array('y', (2, 3))
    axes = axes_of(cx, times=xs, mus=xs, energies=ys, shells=3)
    given, idx = cx.choice('given', [
        ((), [0, 1, 2]), ((0,), [0]), ((1,), [1]), ((2,), [2]),
        ((0, 1), [0, 1]), ((2, 0), [2, 0]), ((1, 1), [1, 1]),
        ((2, 1, 0), [2, 1, 0]), ((slice(None),), [0, 1, 2]),
        ((slice(1, None),), [1, 2]), ((slice(None, 2),), [0, 1]),
        ((slice(None, -1),), [0, 1]), ((slice(None, None, 2),), [0, 2]),
        ((slice(2, 9),), [2]), ((range(1, 3),), [1, 2]),
        ((range(0, 3, 2),), [0, 2])])
    r = axes[name].index(*given)
    cx.check(list(r) == idx, 'points')
    cx.check(len(r.values) == len(idx), 'values')
    want = {
        'time': [x * 86400 for x in xs], 'mu': list(xs),
        'shell': [0, 1, 2], 'energy': [y * 1.6022e-13 for y in ys[0]],
    }[name]
    for v, i in zip(r.values, idx):
        cx.check_close(v, want[i], 'value at the index')


@case('C13', 'an axis of length up to five and any pair of bounds and step of a'
      ' slice, also negative', A)
def by_slice(cx):
    n = cx.choice('n', [1, 2, 3, 5])
    bounds = [None, 0, 1, 2, 3, -1, -2]
    start = cx.choice('start', bounds)
    stop = cx.choice('stop', bounds)
    step = cx.choice('step', [None, 1, 2])
    indexer = axis.indexer(n)
    want = list(range(n))[start:stop:step]
    if not want:
        cx.exclude('selects nothing')
    r = axis.Quantity(indexer).index(slice(start, stop, step))
    cx.check(list(r) == want, 'the indices that the slice selects')
    cx.check(list(r.values) == want, 'values')


@case('C13', 'the default indexer of size up to four, one or two indices from -2'
      ' to 6', ('goats.core.axis.indexer', 'goats.core.axis.Indexer'))
def default_indexer(cx):
    n = cx.int('n', 1, 4)
    m = cx.choice('m', [1, 2])
    idx = [cx.int(f'i{i}', -2, 6) for i in range(m)]
    a = axis.Quantity(axis.indexer(n))
    r, err = cx.catch(lambda: a.index(*idx))
    inside = cx.both(*[cx.both(0 <= i, i < n) for i in idx])
    if err is None:
        cx.check(inside, 'an index outside of the axis is an error')
        cx.check_all_same(list(r), idx, 'points')
        cx.check_all_same(list(r.values), idx, 'values')
        cx.check(r.unit is None, 'no unit')
    else:
        cx.check(isinstance(err, ValueError), 'kind of error')
        cx.check(cx.negate(inside), 'an index within the axis is accepted')
    cx.raises(TypeError, lambda: a['m'], label='no unit to convert')


@case('C13', 'two species, each with three energies of any value; one or two'
      ' targets of any size in five units; a species given by index, symbol or'
      ' by default', A, shard=('species', 5))
def energy_by_value(cx):
    ys = cx.array('y', (2, 3))
    axes = axes_of(cx, energies=ys)
    species, row = cx.choice('species', [
        (None, 0), (0, 0), (1, 1), ('H+', 0), ('He++', 1)])
    kw = {} if species is None else {'species': species}
    unit, form, m, name = cx.choice('how', [
        (None, 'args', 1, 'energy'), ('MeV', 'args', 1, 'egrid'),
        ('keV', 'tuple', 2, 'energy'), ('erg', 'list', 1, 'E'),
        ('eV', 'pair', 2, 'energies'), ('J', 'pair', 1, 'energy')])
    ts = cx.reals('t', m)
    a = axes[name]
    cx.check(a.unit == 'J', 'unit')
    if cx.choice('converted', [False, True]):
        a = a['MeV']
    r = a.index(*pack(form, ts, unit), **kw)
    k = ENERGY[str(unit or a.unit)]
    cx.check(len(r) == m and len(r.values) == m, 'one index per target')
    cx.check(r.unit == a.unit, 'unit of the values')
    for i, t in enumerate(ts):
        cx.check_close(r.values[i] * ENERGY[str(a.unit)], t * k, 'value')
        nearest(cx, r[i], [y * 1.6022e-13 for y in ys[row]], t * k, 'energy')


@case('C13', 'two species, each with three energies of any value: the reference'
      ' values of a species', A)
def energy_reference(cx):
    ys = cx.array('y', (2, 3))
    axes = axes_of(cx, energies=ys)
    species, row = cx.choice('species', [
        (None, 0), (0, 0), (1, 1), ('H+', 0), ('He++', 1)])
    kw = {} if species is None else {'species': species}
    a = axes['energy']
    unit = cx.choice('unit', ['J', 'MeV'])
    r = a[unit].index(**kw)
    cx.check(list(r) == [0, 1, 2], 'all energies')
    for v, y in zip(r.values, ys[row]):
        cx.check_close(v * ENERGY[unit], y * 1.6022e-13, 'value')


@case('C13', 'two to four pitch-angle cosines of any value, one or two targets of'
      ' any size', A)
def mu_by_value(cx):
    n = cx.choice('n', [2, 3, 4])
    xs = cx.array('x', (n,))
    axes = axes_of(cx, mus=xs)
    m, name = cx.choice('m', [(1, 'mu'), (2, 'pitch angle')])
    ts = cx.reals('t', m)
    r = axes[name].index(*ts)
    cx.check(r.unit == '1', 'unit')
    cx.check(len(r) == m, 'one index per target')
    for i, t in enumerate(ts):
        cx.check_same(r.values[i], t, 'value')
        nearest(cx, r[i], list(xs), t, 'mu')


SPECIES = [(1.0, 1.0, 'H+'), (4.0, 2.0, 'He++'), (4.0, 1.0, 'He+'),
           (16.0, 6.0, 'O++++++'), (56.0, 2.0, 'Fe++'), (12.0, 1.0, 'C+')]


@case('C13', 'one to three species with masses and charges within rounding of'
      ' those of six ions, in any order, selected by symbol and index', A)
def species(cx):
    n = cx.choice('n', [1, 2, 3])
    if n < 3 or cx.thorough():
        chosen = [cx.choice(f's{i}', range(len(SPECIES) - i))
                  for i in range(n)]
        pool = list(SPECIES)
        chosen = [pool.pop(i) for i in chosen]
    else:
        k = cx.choice('s', range(len(SPECIES)))
        chosen = [(SPECIES * 2)[k + 2 * i] for i in range(n)]
    d = cx.reals('d', n, lo=-0.25, hi=0.25)
    mass = cx.to_array([m + x for (m, _, _), x in zip(chosen, d)])
    axes = axes_of(cx, mass=mass, charge=[q for _, q, _ in chosen],
                   energies=numpy.array([[1.0, 2.0]] * n))
    a = axes['species']
    symbols = [s for _, _, s in chosen]
    cx.check(a.unit is None, 'no unit')
    r = a.index()
    cx.check(list(r) == list(range(n)), 'all')
    cx.check(list(r.values) == symbols, 'symbols in the order of the dataset')
    for i, s in enumerate(symbols):
        for given in (i, s):
            r = a.index(given)
            cx.check(list(r) == [i], f'index of a species')
            cx.check(list(r.values) == [s], f'symbol of a species')
    r = a.index(*reversed(symbols))
    cx.check(list(r) == list(range(n))[::-1], 'several species')
    cx.raises((ValueError, KeyError), lambda: a.index('Xe+'),
              label='a species that is not there')


@case('C13', 'an array of one to three index points and values of any size, in'
      ' five units', X, shard=('n', 3))
def index_array(cx):
    n = cx.choice('n', [1, 2, 3])
    vs = cx.reals('v', n)
    points = [cx.choice(f'p{i}', [0, 3]) for i in range(n)]
    u0 = cx.choice('u0', ['s', 'h', 'day'])
    data = index.Data(points, values=vs)
    a = index.Array(data, unit=u0)
    cx.check([a[i] for i in range(n)] == points, 'points')
    cx.check_all_same(list(a.values), vs, 'values')
    u1 = cx.choice('u1', ['s', 'min', 'day', 'mks'])
    b = a[u1]
    k = TIME.get(u1, 1)
    cx.check(b.unit == (u1 if u1 in TIME else 's'), 'new unit')
    cx.check(a.unit == u0, 'old unit')
    cx.check([b[i] for i in range(n)] == points, 'the points stay')
    for v, w in zip(b.values, vs):
        cx.check_close(v * k, w * TIME[u0], 'converted')
    c = b[u0]
    for v, w in zip(c.values, vs):
        cx.check_close(v, w, 'and back')
    cx.check_all_close(numpy.array(b), list(b.values), 'as an array')
    cx.raises(ValueError, lambda: a['m'], label='inconsistent')
    cx.check(index.Array(a) is a, 'the same instance')
    d = index.Array(index.Quantity(data, unit=u0))
    cx.check_all_same(list(d.values), vs, 'from an index quantity')
    cx.check([d[i] for i in range(n)] == points, 'its points')
    cx.check(d.unit == u0, 'its unit')


@case('C13', 'any subset of the five axes and up to two other names, in any of'
      ' several orders', ('goats.eprem.Axes.resolve',))
def resolve(cx):
    names = [a for a in dataset.AXES if cx.choice(a, [False, True])]
    order, extra, first = cx.choice('order', [
        (1, [], False), (-1, ['minimum energy'], True), (-1, ['y', 'x'], False),
        (1, ['x', 'y'], True)])
    names = names[::order]
    axes = axes_of(cx)
    given = extra + names if first else names + extra
    want = tuple(a for a in dataset.AXES if a in names)
    cx.check(axes.resolve(given) == want, 'in the order of the dataset')
    cx.check(axes.resolve(given, mode='append') == want + tuple(extra),
             'others at the end')
