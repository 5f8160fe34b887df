"""C05: unit conversion factors are the physical ones."""
from fractions import Fraction

from sx.context import case
from goats.core import metric
from props import si

T = ('goats.core.metric.Conversion', 'goats.core.metric.conversion',
     'goats.core.metric.Unit.__floordiv__', 'goats.core.metric.NamedUnit')


def exponents(cx, names, lo, hi, integers):
    """Any non-integral rationals, or one of a few integers each."""
    cx.general_powers()
    if cx.bool('integral'):
        return [cx.choice(f'{n}.int', integers) for n in names]
    return [cx.fractional(n, lo, hi) for n in names]


def value(unit):
    """The SI value of a prefixed unit symbol of the reference table."""
    table = si.MECHANICAL
    for u in sorted(table, key=len, reverse=True):
        if unit.endswith(u) and unit[:len(unit) - len(u)] in si.PREFIXES:
            return 10.0 ** si.PREFIXES[unit[:len(unit) - len(u)]] * table[u][0]
    for u, (v, _) in si.ELECTROMAGNETIC.items():
        if unit.endswith(u) and unit[:len(unit) - len(u)] in si.PREFIXES:
            return 10.0 ** si.PREFIXES[unit[:len(unit) - len(u)]] * v
    raise KeyError(unit)


GROUPS = {
    'length': ['m', 'cm', 'km', 'au', 'mau'],
    'time': ['s', 'ms', 'min', 'h', 'd'],
    'mass': ['kg', 'g', 'nuc', 'amu'],
    'energy': ['J', 'erg', 'MeV', 'keV', 'kJ'],
    'force': ['N', 'dyn', 'kN'],
    'power': ['W', 'kW', 'MW'],
    'temperature': ['K', 'MK'],
    'current': ['A', 'statA', 'kA'],
    'charge': ['C', 'statC', 'e'],
    'potential': ['V', 'statV', 'kV'],
    'induction': ['T', 'G', 'nT'],
    'flux': ['Wb', 'Mx'],
    'activity': ['Bq', 'Ci', 'kBq'],
    'angle': ['rad', 'deg', 'mrad'],
}


@case('C05', 'u0^p to u1^p for every ordered pair of units in fourteen groups of'
      ' 2 to 5; any non-integral rational p in [-6, 6], and p in {1, -1, 2, 3}', T)
def single_units(cx):
    group = GROUPS[cx.choice('group', sorted(GROUPS))]
    u0 = cx.choice('u0', group)
    u1 = cx.choice('u1', group)
    p, = exponents(cx, 'p', -6, 6, [1, -1, 2, 3])
    got = metric.conversion(f'{u0}^{p}', f'{u1}^{p}', strict=True)
    cx.check_close(got, (value(u0) / value(u1)) ** p, 'factor')


@case('C05', 'every pair of 21 prefixes on m, g, J, s (symbols) or meter, gram,'
      ' joule (names); any non-integral rational p in [1/8, 4], and 1, 2', T)
def prefixes(cx):
    if cx.bool('symbols'):
        table, bases = si.PREFIXES, ['m', 'g', 'J', 'eV']
    else:
        table, bases = si.PREFIX_NAMES, ['meter', 'gram', 'joule']
    base = cx.choice('base', bases)
    a = cx.choice('a', sorted(table))
    b = cx.choice('b', ['', 'k', 'm'] if table is si.PREFIXES
                  else ['', 'kilo', 'milli'])
    p, = exponents(cx, 'p', Fraction(1, 8), 4, [1, 2])
    got = metric.conversion(f'{a}{base}^{p}', f'{b}{base}^{p}', strict=True)
    cx.check_close(got, (10.0 ** (table[a] - table[b])) ** p, 'factor')
    if not cx.thorough():
        return
    r = metric.ratio(a + base, b + base)
    cx.check_close(r, 10.0 ** (table[a] - table[b]), 'ratio')


RELATED = [('eV', 'J'), ('erg', 'J'), ('dyn', 'N'), ('au', 'm'), ('m', 'au'),
           ('s', 'h'), ('s', 'd'), ('statC', 'C'), ('A', 'statA'), ('V', 'statV'),
           ('G', 'T'), ('Wb', 'Mx'), ('Ci', 'Bq'), ('g', 'amu'), ('rad', 'deg')]


@case('C05', 'every one of 21 prefixes on a unit, to and from a unit of another'
      ' system or table entry (15 pairs); any non-integral rational p in'
      ' [1/8, 4], and 1', T, shard=('pair', 2))
def prefixed_related(cx):
    u, v = cx.choice('pair', RELATED)
    a = cx.choice('a', sorted(si.PREFIXES))
    p, = exponents(cx, 'p', Fraction(1, 8), 4, [1])
    x, y = f'{a}{u}', v
    if cx.bool('back'):
        x, y = y, x
    got = metric.conversion(f'{x}^{p}', f'{y}^{p}', strict=True)
    cx.check_close(got, (value(x) / value(y)) ** p, 'factor')


PAIRS = {
    'energy-temperature': (('erg', 'eV'), ('MK', 'K')),
    'time-temperature': (('d', 'min'), ('K', 'kK')),
    'length-time': (('km', 'au'), ('h', 'd')),
    'mass-length': (('nuc', 'amu'), ('au', 'cm')),
    'prefixed mass-temperature': (('camu', 'mnuc'), ('kK', 'K')),
    'energy-mass': (('keV', 'J'), ('nuc', 'kg')),
    'energy-time': (('min', 's'), ('eV', 'erg')),
    'force-length': (('dyn', 'N'), ('cm', 'au')),
    'pressure-time': (('Pa', 'kPa'), ('min', 'd')),
    'viscosity-time': (('P', 'mP'), ('d', 'h')),
    'charge-length': (('C', 'statC'), ('m', 'cm')),
    'induction-length': (('nT', 'G'), ('au', 'km')),
    'potential-length': (('statV', 'kV'), ('cm', 'm')),
    'angle-time': (('deg', 'rad'), ('d', 's')),
}


def reference(cx, pairs, powers):
    out = 1.0
    for (a, b), n in zip(pairs, powers):
        out = out * (value(a) / value(b)) ** n
    return out


@case('C05', 'a^p b^q to c^p d^q for fourteen choices of two convertible pairs,'
      ' both directions; any non-integral rational p, q in [-4, 4] (p = q and'
      ' p = -q included), and p, q in {1, -1, 2, -3}', T)
def two_factors(cx):
    x, y = PAIRS[cx.choice('pairs', sorted(PAIRS))]
    if cx.bool('back'):
        x, y = x[::-1], y[::-1]
    p, q = exponents(cx, 'pq', -4, 4, [1, -1, 2, -3])
    got = metric.conversion(f'{x[0]}^{p} * {y[0]}^{q}',
                            f'{x[1]}^{p} * {y[1]}^{q}', strict=True)
    cx.check_close(got, reference(cx, (x, y), (p, q)), 'factor')


@case('C05', 'three factors with powers from {1, -1, 2, -2}; pairs as listed', T)
def three_factors(cx):
    a = cx.choice('a', [('km', 'au'), ('cm', 'm')])
    b = cx.choice('b', [('h', 's'), ('min', 'd')])
    c = cx.choice('c', [('eV', 'erg'), ('kg', 'nuc'), ('MK', 'K')])
    x = cx.real('x', -1000, 1000)
    p = cx.choice('p', [1, -2])
    q = cx.choice('q', [-1, 2])
    r = cx.choice('r', [1, -1])
    got = metric.conversion(f'{a[0]}^{p} * {b[0]}^{q} * {c[0]}^{r}',
                            f'{c[1]}^{r} * {b[1]}^{q} * {a[1]}^{p}',
                            strict=True)
    want = reference(cx, (a, b, c), (p, q, r))
    cx.check_close(x * got, x * want, 'converted value')


# unit, equivalent expression, the ratio of their SI values
DERIVED = [
    ('J', 'kg * m^2 / s^2', 1.0), ('erg', 'g * cm^2 / s^2', 1.0),
    ('N', 'kg * m / s^2', 1.0), ('dyn', 'g * cm / s^2', 1.0),
    ('J', 'N * m', 1.0), ('W', 'J / s', 1.0), ('Pa', 'N / m^2', 1.0),
    ('kJ', 'kg * m^2 / s^2', 1e3), ('J', 'g * cm^2 / s^2', 1e7),
    ('N', 'g * cm / s^2', 1e5), ('kN', 'g * cm / s^2', 1e8),
    ('Pa', 'dyn / cm^2', 10.0), ('W', 'erg / s', 1e7),
    ('kW', 'erg / s', 1e10), ('kPa', 'dyn / cm^2', 1e4),
    ('Gy', 'erg / g', 1e4), ('erg', 'dyn * cm', 1.0),
    ('MeV / nuc', 'J / kg', 1.6022e-13 / 1.6605e-27),
    ('km / h', 'm / s', 1 / 3.6), ('au / d', 'km / s', 1.495978707e8 / 86400),
    ('# / cm^3', '1 / m^3', 1e6), ('s^3 / km^6', 's^3 / cm^6', 1e-30),
    ('# / (cm^2 * s * sr * MeV / nuc)', '# / (m^2 * s * sr * J / kg)',
     1e4 * 1.6605e-27 / 1.6022e-13),
    ('g / cm^3', 'kg / m^3', 1e3), ('nuc / cm^3', 'kg / m^3', 1.6605e-21),
    ('T', 'Wb / m^2', 1.0), ('C', 'A * s', 1.0), ('V', 'J / C', 1.0),
    ('deg', '1', 3.141592653589793 / 180), ('rad / s', '1 / s', 1.0),
    ('krad', '1', 1e3), ('kg / (m * s)', 'P', 10.0),
    ('F', 'cm', 8.987551787368176e11), ('H', 's^2 / cm', 1.1126500560536183e-12),
    ('ohm', 's / cm', 1.1126500560536183e-12),
    ('S', 'cm / s', 8.987551787368176e11), ('H / m', '1', 1e7 / 12.566370614359172),
    ('A / m', 'Oe', 12.566370614359172e-3), ('Wb / m', 'G * cm', 1e6),
]


@case('C05', 'x in a derived unit to the equivalent expression and back, through'
      ' every entry point; any real x; 37 listed definitions', T)
def derived(cx):
    u0, u1, want = cx.choice('pair', DERIVED)
    if cx.bool('back'):
        u0, u1, want = u1, u0, 1 / want
    x = cx.real('x')
    how = cx.choice('how', ['conversion', 'Unit', 'Conversion', 'inverse'])
    if how == 'conversion':
        got = metric.conversion(u0, u1, strict=True)
    elif how == 'Unit':
        got = metric.Unit(u1) // metric.Unit(u0)
    elif how == 'Conversion':
        got = float(metric.Conversion(u0, u1))
    else:
        got = 1 / float(metric.Conversion(u0, u1).inverse)
    cx.check_close(x * got, x * want, f'{how}: converted value')


KINDS = ['m', 'kg', 's', 'K', 'J', 'N', 'W', 'Pa', 'mol', 'cd', 'A', 'T', 'au',
         'min', 'eV', 'erg', 'dyn', 'deg']
DIMENSION = {
    'm': (1, 0, 0), 'kg': (0, 1, 0), 's': (0, 0, 1), 'K': 'K',
    'J': (2, 1, -2), 'N': (1, 1, -2), 'W': (2, 1, -3), 'Pa': (-1, 1, -2),
    'mol': 'mol', 'cd': 'cd', 'A': 'A', 'T': 'T', 'au': (1, 0, 0),
    'min': (0, 0, 1), 'eV': (2, 1, -2), 'erg': (2, 1, -2), 'dyn': (1, 1, -2),
    'deg': '1',
}


@case('C05', 'u0^p to u1^p and to u1 for every ordered pair of 18 units of'
      ' different dimension; u0^p to u0^q, p != q; any non-integral rational'
      ' p, q in [1/2, 3]', T)
def incompatible(cx):
    u0 = cx.choice('u0', KINDS)
    u1 = cx.choice('u1', KINDS)
    cx.general_powers()
    p = cx.fractional('p', Fraction(1, 2), 3)
    if DIMENSION[u0] == DIMENSION[u1]:
        if DIMENSION[u0] == '1':
            return
        q = cx.fractional('q', Fraction(1, 2), 3)
        cx.assume(p != q)
        e0, e1 = f'{u0}^{p}', f'{u1}^{q}'
    else:
        e0, e1 = f'{u0}^{p}', f'{u1}^{p}'
    cx.raises(metric.UnitConversionError, metric.conversion, e0, e1,
              strict=True, label='incompatible units are rejected')
    cx.check(metric.conversion(e0, e1) is None, 'not strict: None')


POOL = [
    ('m', 'cm', 100.0), ('cm', 'm', 0.01), ('km', 'm', 1e3),
    ('au', 'km', 1.495978707e8), ('kau', 'km', 1.495978707e11),
    ('h', 'd', 1 / 24), ('min', 'd', 1 / 1440), ('m', 's', None),
    ('J', 'm', None), ('meter', 'cm', 100.0), ('m / s', 'km / h', 3.6),
    ('m s^-1', 'km h^-1', 3.6), ('eV', 'min', None), ('cd', 'h', None),
    ('candela', 'cd', 1.0), ('centiday', 'h', 0.24),
    ('day^2', 's^2', 86400.0 ** 2), ('J', 'erg', 1e7), ('N * m', 'J', 1.0),
    ('erg * K', 'eV * MK', 1e-13 / 1.6022e-19 * 1e-0),
    ('d / K', 'kmin / kK', 1440.0),
]


@case('C05', 'every sequence of two (thorough: three) conversions and unit'
      ' constructions out of 21 conversions, then the first again', T)
def histories(cx):
    x = cx.real('x', 1, 1000)
    steps = [cx.choice(f'step{i}', POOL) for i in range(cx.bound(2, 3))]
    how = cx.choice('how', ['conversion', 'Unit'])
    for u0, u1, want in steps + steps[:1]:
        if how == 'conversion':
            got = metric.conversion(u0, u1)
        else:
            got, _ = cx.catch(lambda: metric.Unit(u1) // metric.Unit(u0))
        if want is None:
            cx.check(got is None, 'still rejected')
        else:
            cx.check(got is not None, 'still converted')
            cx.check_close(x * got, x * want, 'the same factor')


@case('C05', 'converting by quantity: energy, length, velocity, magnetic field;'
      ' to a unit or to the name of a metric system; any real x', T)
def by_quantity(cx):
    name, u0, u1, want = cx.choice('which', [
        ('energy', 'J', 'erg', 1e7), ('energy', 'erg', 'mks', 1e-7),
        ('energy', 'mks', 'cgs', 1e7), ('energy', 'eV', 'J', 1.6022e-19),
        ('length', 'au', 'mks', 1.495978707e11), ('length', 'm', 'm', 1.0),
        ('velocity', 'km / s', 'cgs', 1e5), ('velocity', 'cgs', 'm / s', 1e-2),
        ('magnetic induction', 'T', 'cgs', 1e4), ('time', 'd', 's', 86400.0),
        ('mass density', 'mks', 'cgs', 1e-3), ('pressure', 'mks', 'cgs', 10.0),
    ])
    x = cx.real('x')
    got = metric.Quantity(name).convert(u0).to(u1)
    cx.check_close(x * got, x * want, 'converted value')
