"""C06: units form an algebra with physical equality and dimensions."""
import math
from fractions import Fraction

from sx.context import case
from goats.core import metric
from goats.core import symbolic
from props import si

T = ('goats.core.metric.Unit', 'goats.core.metric._UnitMeta',
     'goats.core.metric.Dimension', 'goats.core.metric.Dimensions',
     'goats.core.metric.NamedUnit', 'goats.core.metric.Conversion',
     'goats.core.symbolic.reduce')

F = Fraction
AXES = ('L', 'M', 'T', 'I', 'Θ', 'J', 'N')

# unit: (log10 of its value in base SI units, exponents over AXES)
TABLE = {
    u: (math.log10(v), dict(zip('LMTIΘ', d)))
    for u, (v, d, _) in si.MECHANICAL.items()
}
TABLE.update({
    'A': (0, dict(I=1)), 'C': (0, dict(I=1, T=1)), 'T': (0, dict(M=1, T=-2, I=-1)),
    'V': (0, dict(L=2, M=1, T=-3, I=-1)), 'Wb': (0, dict(L=2, M=1, T=-2, I=-1)),
    'F': (0, dict(L=-2, M=-1, T=4, I=2)), 'H': (0, dict(L=2, M=1, T=-2, I=-2)),
    'S': (0, dict(L=-2, M=-1, T=3, I=2)), 'Gy': (0, dict(L=2, T=-2)),
    'cd': (0, dict(J=1)), 'mol': (0, dict(N=1)),
    'rad': (0, {}), 'sr': (0, {}), '#': (0, {}), '1': (0, {}),
    'deg': (math.log10(math.pi / 180), {}),
    'Bq': (0, dict(T=-1)), 'Ci': (math.log10(3.7e10), dict(T=-1)),
    # Gaussian units: their definition in centimeters, grams and seconds
    'G': (-3 * .5 + 2 * .5, dict(M=F(1, 2), L=F(-1, 2), T=-1)),
    'Oe': (-3 * .5 + 2 * .5, dict(M=F(1, 2), L=F(-1, 2), T=-1)),
    'statC': (-3 * .5 - 2 * 1.5, dict(M=F(1, 2), L=F(3, 2), T=-1)),
    'Mx': (-3 * .5 - 2 * 1.5, dict(M=F(1, 2), L=F(3, 2), T=-1)),
    'statA': (-3 * .5 - 2 * 1.5, dict(M=F(1, 2), L=F(3, 2), T=-2)),
    'statV': (-3 * .5 - 2 * .5, dict(M=F(1, 2), L=F(1, 2), T=-1)),
})
# goats documents the nucleon and the atomic mass unit as mass numbers.
NUMBERS = ('nuc', 'amu')


def lookup(symbol):
    for u in sorted(TABLE, key=len, reverse=True):
        if symbol == u:
            return TABLE[u]
    for u in sorted(TABLE, key=len, reverse=True):
        p = symbol[:len(symbol) - len(u)]
        if symbol.endswith(u) and p in si.PREFIXES:
            return TABLE[u][0] + si.PREFIXES[p], TABLE[u][1]
    raise KeyError(symbol)


def powers(terms):
    """(log10 of the SI value, exponents) of pairs (symbol, exponent)."""
    total, dims = 0.0, {a: 0 for a in AXES}
    for u, n in terms:
        v, d = lookup(u)
        total = total + v * n
        for a, k in d.items():
            dims[a] = dims[a] + k * n
    return total, dims


def measure(unit):
    return powers([(t.base, t.exponent) for t in unit])


def same_measure(cx, unit, terms, label):
    got, want = measure(unit), powers(terms)
    cx.check_close(got[0], want[0], f'{label}: magnitude', scale=1.0)
    for a in AXES:
        cx.check_same(got[1][a], want[1][a], f'{label}: power of {a}')


WINDOWS = [(F(21, 20), F(13, 10)), (F(37, 100), F(23, 50)),
           (F(-13, 10), F(-21, 20)), (F(-23, 50), F(-37, 100))]


def exponents(cx, names, integers=(1, -1)):
    """Any rationals of two windows (no small multiple is an integer, which
    keeps the formatting of exponents on one path), or a few integers each;
    thorough: also any non-integral rational in [-4, 4]."""
    cx.general_powers()
    kind = cx.choice('exponents', ['window', 'integers', 'any'][
        :cx.bound(2, 3)])
    if kind == 'integers':
        return [cx.choice(f'{n}.int', integers) for n in names]
    if kind == 'any':
        return [cx.fractional(n, -4, 4) for n in names]
    sign = 2 * cx.bool('negative')
    return [cx.frac(n, *WINDOWS[i + (sign if i else 0)])
            for i, n in enumerate(names)]


ALGEBRA = ['m', 'km', 's', 'kg', 'J', 'erg', 'N', 'dyn', 'Pa', 'W', 'T', 'G',
           'C', 'V', 'Wb', 'F', 'H', 'statC', 'P', 'eV', 'min', 'K', 'sr',
           'nuc']


@case('C06', 'u^p * v^q, u^p / v^q, (u^p * v^q)**r and the same with a string'
      ' operand, for all pairs (u, v) of 24 units including u = v; any'
      ' rational p in [1.05, 1.3], |q| in [0.37, 0.46] (thorough: any'
      ' non-integral rational in [-4, 4]) and p, q in {1, -1}', T,
      shard=('u', 8))
def algebra(cx):
    u = cx.choice('u', ALGEBRA)
    v = cx.choice('v', ALGEBRA[::cx.bound(4, 1)])
    p, q = exponents(cx, 'pq')
    a = metric.Unit(f'{u}^{p}')
    b = metric.Unit(f'{v}^{q}')
    up, vq = (u, p), (v, q)
    op = cx.choice('op', ['mul', 'div', 'pow', 'mul str', 'div str'][
        :cx.bound(3, 5)])
    if op == 'mul':
        r, want = a * b, [up, vq]
    elif op == 'div':
        r, want = a / b, [up, (v, -q)]
    elif op == 'mul str':
        r, want = a * f'{v}^{q}', [up, vq]
    elif op == 'div str':
        r, want = a / f'{v}^{q}', [up, (v, -q)]
    else:
        n = cx.choice('n', [2, -1, 0.5])
        r, want = (a * b) ** n, [(u, p * n), (v, q * n)]
    cx.check(isinstance(r, metric.Unit), 'the result is a unit')
    same_measure(cx, r, want, op)
    same_measure(cx, a, [up], 'left operand unchanged')
    same_measure(cx, b, [vq], 'right operand unchanged')


@case('C06', 'three factors u^p * v^q / w, divided and multiplied back; 10'
      ' units; exponents as in algebra', T,
      shard=('u', 5))
def chains(cx):
    pool = ['m', 'J', 'erg', 's', 'T', 'kg', 'eV', 'N', 'W', 'cm']
    u, v, w = (cx.choice(n, pool[:k]) for n, k in
               (('u', 10), ('v', cx.bound(3, 10)), ('w', cx.bound(3, 10))))
    p, q = exponents(cx, 'pq')
    a, b, c = metric.Unit(f'{u}^{p}'), metric.Unit(f'{v}^{q}'), metric.Unit(w)
    r = a * b / c
    same_measure(cx, r, [(u, p), (v, q), (w, -1)], 'a * b / c')
    same_measure(cx, r * c, [(u, p), (v, q)], 'a * b / c * c')
    same_measure(cx, r / a, [(v, q), (w, -1)], 'a * b / c / a')


@case('C06', 'u^p * v^q == u^r * v^s exactly if the physical measures agree,'
      ' for 11 pairs; any rationals in [1.05, 1.3] and [0.37, 0.46] (thorough: any'
      ' non-integral rationals in [1/2, 3])', T, shard=('units', 6))
def equal_powers(cx):
    u, v = cx.choice('units', [
        ('m', 's'), ('J', 'K'), ('kg', 'cm'), ('eV', 'nuc'), ('T', 'm'),
        ('N', 'min'), ('au', 'd'), ('W', 'sr'), ('Pa', 's'), ('erg', 'g'),
        ('C', 'm'),
    ])
    cx.general_powers()
    cx.hash_mode('const')
    if cx.thorough():
        p, q, r, s = (cx.fractional(n, F(1, 2), 3) for n in 'pqrs')
    else:
        p, q, r, s = (cx.frac(n, *WINDOWS[i % 2])
                      for i, n in enumerate('pqrs'))
    a = metric.Unit(f'{u}^{p} * {v}^{q}')
    form = cx.choice('form', ['permuted', 'text', 'unit'][:cx.bound(2, 3)])
    b = f'{v}^{s} {u}^{r}' if form == 'permuted' else f'{u}^{r} * {v}^{s}'
    if form != 'text':
        b = metric.Unit(b)
    # goats counts solid angles and nucleons as numbers
    want = p == r if v in ('nuc', 'sr') else cx.both(p == r, q == s)
    got = bool(a == b)
    cx.check(cx.implies(got, want), 'equal only if the exponents agree')
    cx.check(cx.implies(want, got), 'equal if the exponents agree')
    cx.check(bool(a != b) is not got, 'a != b is not (a == b)')


SETS = [
    ['J', 'N m', 'kg m^2 s^-2', 'kg * m^2 / s^2', 'W s', 'Pa * m^3',
     'V * C'],
    ['erg', 'dyn cm', 'g cm^2 / s^2'],
    ['kJ', 'W * ks', 'kN * m'],
    ['N', 'kg m / s^2', 'J / m', 'W * s / m'],
    ['dyn', 'g cm s^-2', 'erg / cm'],
    ['W', 'J / s', 'kg m^2 / s^3', 'N * m / s', 'V * A'],
    ['Pa', 'N / m^2', 'J / m^3', 'kg / (m * s^2)'],
    ['m / s', 'm s^-1', 's^-1 m'], ['km / s'], ['cm / s'], ['km / h'],
    ['1 / s', '# / s', 's^-1', 'rad / s'],
    ['1', '#', 'rad', 'm / m'],
    ['deg'], ['T', 'Wb / m^2', 'kg / (A s^2)'], ['nT'], ['G'], ['m'],
    ['cm'], ['m^2'], ['m^3'], ['s'], ['min'], ['kg'], ['g'], ['K'],
    ['MeV', 'MeV / nuc'], ['keV'], ['au'], ['s^3 / km^6'], ['kg m / s'],
    ['Wb', 'V * s', 'T * m^2'], ['C', 'A * s'], ['V', 'W / A', 'J / C'],
    ['# / cm^3', 'cm^-3', '1 / cm^3'], ['# / m^3'], ['cd'], ['d'],
    ['Gy', 'J / kg', 'm^2 / s^2'],
]
FLAT = [(i, u) for i, s in enumerate(SETS) for u in s]


@case('C06', 'u == v for all pairs of 81 unit expressions and 39 (thorough: 81)'
      ' others, grouped by physical meaning; scaled by x in [1, 1000] when converted', T,
      shard=('u', 8))
def equality(cx):
    i, u = cx.choice('u', FLAT)
    j, v = cx.choice('v', cx.bound(
        [f for n, f in enumerate(FLAT) if n == 0 or FLAT[n - 1][0] != f[0]],
        FLAT))
    x = cx.real('x', 1, 1000)
    a = metric.Unit(u)
    b = metric.Unit(v) if cx.thorough() and cx.bool('unit') else v
    cx.check(bool(a == b) is (i == j), 'equal exactly if physically equal')
    if i == j:
        cx.check_close(x * (a // b), x, 'equal units convert by 1')


DIMS = [
    ('length', ['m', 'cm', 'au', 'km']), ('time', ['s', 'min', 'd']),
    ('energy', ['J', 'erg', 'MeV', 'N m', 'kg m^2 / s^2']),
    ('force', ['N', 'dyn', 'kg m / s^2']), ('mass', ['kg', 'g']),
    ('speed', ['m / s', 'km / h', 'au / d']), ('pressure', ['Pa', 'dyn / cm^2']),
    ('temperature', ['K', 'MK']), ('number', ['1', '#', 'rad', 'deg', 'nuc']),
    ('density', ['1 / m^3', '# / cm^3']), ('power', ['W', 'erg / s']),
    ('induction', ['T', 'G', 'nT']), ('flux', ['Wb', 'Mx']),
    ('charge', ['C', 'statC']), ('frequency', ['1 / s', 'Hz']),
    ('energy per mass', ['J / kg', 'erg / g', 'm^2 / s^2']),
    ('energy per nucleon', ['MeV / nuc', 'J']),
]
FLATDIMS = [(k, u) for k, us in DIMS for u in us]
SAME = {'energy per nucleon': 'energy'}
# consistent by a defined conversion, or by dimension in one system
ALSO = [{'nuc', 'kg'}, {'nuc', 'g'}, {'Mx', 'statC'}, {'J / kg', 'MeV / nuc'},
        {'erg / g', 'MeV / nuc'}]


@case('C06', 'u | v, v | u and Unit | text for all pairs of 46 units and 17'
      ' (thorough: 46) others; any'
      ' non-integral rational power p in [1/2, 3] of both, and p = 1', T,
      shard=('u', 8))
def consistency(cx):
    k, u = cx.choice('u', FLATDIMS)
    m, v = cx.choice('v', cx.bound(
        [(k, us[-1]) for k, us in DIMS], FLATDIMS))
    want = SAME.get(k, k) == SAME.get(m, m) or {u, v} in ALSO
    if {u, v} == {'m^2 / s^2', 'MeV / nuc'}:
        return  # depends on whether nuc is a mass or a number
    if cx.bool('power'):
        cx.assume('/' not in u + v and ' ' not in u + v)
        cx.general_powers()
        p = cx.fractional('p', F(1, 2), 3)
        u, v = f'{u}^{p}', f'{v}^{p}'
    else:
        x = cx.real('x', 1, 2)
    a, b = metric.Unit(u), metric.Unit(v)
    cx.check(bool(a | b) is want, 'consistent exactly if of one dimension')
    cx.check(bool(v | a) is want, 'the same for a text on the left')


MKS = ['m', 'cm', 's', 'min', 'kg', 'J', 'N', 'Pa', 'W', 'eV', 'au', 'K', 'T',
       'C', 'V', 'Wb', 'F', 'H', 'S', 'A', 'sr', '#', 'mol', 'cd', 'kJ', 'nT']
CGS = ['m', 'cm', 's', 'g', 'erg', 'dyn', 'eV', 'au', 'K', 'G', 'statC',
       'statV', 'statA', 'Mx', 'Oe', 'P', 'kG', 'nT', 'J']


@case('C06', 'the dimensions of u^p * v^q in both systems; pairs of 26 and 19'
      ' units; exponents as in algebra', T,
      shard=('u', 8))
def dimensions(cx):
    system = cx.choice('system', ['mks', 'cgs'])
    pool = MKS if system == 'mks' else CGS
    u = cx.choice('u', pool)
    v = cx.choice('v', pool[:cx.bound(5, len(pool))])
    p, q = exponents(cx, 'pq')
    unit = metric.Unit(f'{u}^{p} * {v}^{q}')
    got = {a: 0 for a in AXES}
    dimension = unit.dimensions[system]
    if dimension is None:
        cx.check({u, v} & {'nT', 'J', 'erg'}, 'dimension is defined')
        return
    for t in dimension:
        if t.base == '1':
            continue
        a = {'H': 'Θ', 'K': 'Θ'}.get(t.base, t.base)
        got[a] = got[a] + t.exponent
    _, want = powers([(u, p), (v, q)])
    for a in AXES:
        cx.check_same(got[a], want[a], f'power of {a}')
    cx.check(bool(unit.dimensionless) is False
             if not cx.decide(cx.both(*[want[a] == 0 for a in AXES]))
             else True, 'not dimensionless')


FORMS = [
    ['m / s', 'm s^-1', 's^-1 m', 'm * s^-1', 'm^1 / s^1', 'm^2 / (m * s)'],
    ['kg m^2 / s^2', 'm^2 kg s^-2', '(kg * m^2) / s^2', 'kg * (m / s)^2'],
    ['cm', 'centimeter', 'cm^1'], ['m', 'meter'], ['km', 'kilometer'],
    ['J / (m^2 s)', 'J m^-2 s^-1', 's^-1 J / m^2'], ['cd', 'candela'],
    ['centiday', 'centiday^1'], ['um', 'μm', 'micrometer'], ['1', 's / s'],
]
FLATFORMS = [(i, u) for i, s in enumerate(FORMS) for u in s]
POWERS = ['{a}^{p} {b}^{q}', '{b}^{q} * {a}^{p}', '{a}^{p} / {b}^{r}']


@case('C06', 'every sequence of two (thorough: three) unit constructions from'
      ' 27 texts; products with any rational exponents in two windows, in'
      ' three spellings', T, shard=('first', 7))
def identity(cx):
    steps = [cx.choice('first', FLATFORMS + [(-1, 'powers')])]
    if steps[0][0] < 0:
        cx.general_powers()
        p, q = (cx.frac(n, *WINDOWS[i]) for i, n in enumerate('pq'))
        a, b = cx.choice('units', [('m', 's'), ('J', 'kg'), ('nT', 'au')])
        x, y = (cx.choice(f'form{i}', POWERS) for i in range(2))
        u, v = (metric.Unit(f.format(a=a, b=b, p=p, q=q, r=-q))
                if not cx.symbolic else metric.Unit(_spell(f, a, b, p, q))
                for f in (x, y))
        cx.check(u is v, 'one instance for all spellings')
        same_measure(cx, u, [(a, p), (b, q)], 'measure')
        return
    x = cx.real('x', 1, 2)
    steps += [cx.choice(f'step{i}', FLATFORMS)
              for i in range(1, cx.bound(2, 3))]
    units = [(i, metric.Unit(u)) for i, u in steps]
    units += [(i, metric.Unit(u)) for i, u in steps]
    for i, u in units:
        for j, v in units:
            cx.check((str(u) == str(v)) is (i == j) or {i, j} <= {2, 3, 4, 6, 7, 8},
                     'one normal form per unit')
            cx.check(bool(u == v) is (i == j), 'equal exactly if the same unit')
            if i == j:
                cx.check_close(x * (u // v), x, 'ratio of equal units')
    for (i, u), (_, w) in zip(units[:len(steps)], units[len(steps):]):
        cx.check(u is w, 'the same text gives the same instance')


def _spell(f, a, b, p, q):
    if f == POWERS[0]:
        return f'{a}^{p} {b}^{q}'
    if f == POWERS[1]:
        return f'{b}^{q} * {a}^{p}'
    return f'{a}^{p} / {b}^{-q}'


NAMED = [('m', 'meter'), ('g', 'gram'), ('J', 'joule'), ('eV', 'electronvolt'),
         ('T', 'tesla'), ('s', 'second'), ('au', 'astronomical unit')]


@case('C06', 'all pairs of 20 prefixes on seven units, by symbol or name: ratio,'
      ' // and equality; any real x in [1, 1000]', T, shard=('a', 4))
def named_units(cx):
    symbols, names = sorted(si.PREFIXES), sorted(si.PREFIX_NAMES)
    x = cx.real('x', 1, 1000)
    u, name = cx.choice('unit', NAMED[:cx.bound(4, 7)])
    a = cx.choice('a', symbols)
    b = cx.choice('b', names[::cx.bound(5, 1)])
    s, t = metric.NamedUnit(a + u), metric.NamedUnit(b + name)
    want = 10.0 ** (si.PREFIXES[a] - si.PREFIX_NAMES[b])
    cx.check_close(x * metric.ratio(s, t), x * want, 'ratio')
    cx.check_close(x * (t // s), x * want, 'this // that')
    cx.check_close(x * (s // (b + name)), x / want, 'this // text')
    same = si.PREFIXES[a] == si.PREFIX_NAMES[b]
    cx.check(bool(s == t) is same, 'equal exactly if the same unit')
    if same:
        cx.check(hash(s) == hash(t), 'equal units have equal hashes')
    cx.check(s.symbol == a + u or a + u == 'cd', 'symbol')
    cx.check(t.name == b + name, 'name')
    other = cx.choice('other', ['m', 'min', 'erg'])
    if other != u:
        cx.raises(ValueError, metric.ratio, s, other,
                  label='different base units have no ratio')


CANONICAL = [
    ('cm', 'm', 'cm'), ('erg', 'J', 'erg'), ('eV', 'J', 'erg'),
    ('au', 'm', 'cm'), ('G', 'T', 'G'), ('kg', 'kg', 'g'), ('min', 's', 's'),
    ('dyn', 'N', 'dyn'), ('statC', 'C', 'statC'), ('K', 'K', 'K'),
    ('Mx', 'Wb', 'Mx'), ('Pa', 'Pa', 'dyn / cm^2'), ('V', 'V', 'statV'),
    ('deg', 'rad', 'rad'), ('nT', 'T', 'G'), ('W', 'W', 'erg / s'),
]


@case('C06', 'the canonical unit of u^p * v^q in both systems (norm and'
      ' System.get_unit); pairs of 16 units; exponents as in algebra', T,
      shard=('u', 8))
def canonical(cx):
    u = cx.choice('u', CANONICAL)
    v = cx.choice('v', CANONICAL[::cx.bound(4, 1)])
    p, q = exponents(cx, 'pq')
    if cx.decide(cx.both(u == v, p + q == 0)):
        return
    unit = metric.Unit(f'{u[0]}^{p} * {v[0]}^{q}')
    system = cx.choice('system', ['mks', 'cgs'])
    k = 1 if system == 'mks' else 2
    if cx.bool('norm'):
        got = unit.norm[system]
    else:
        got = metric.System(system).get_unit(unit=unit)
    want = (symbolic.Expression(u[k]) ** p) * (symbolic.Expression(v[k]) ** q)
    have = {t.base: t.exponent for t in got}
    need = {t.base: t.exponent for t in want}
    cx.check(have.keys() == need.keys(), 'the canonical units')
    for base, n in need.items():
        cx.check_same(have[base], n, f'power of {base}')


QUANTITIES = [
    ('length', 'L', 'm', 'cm'), ('time', 'T', 's', 's'), ('mass', 'M', 'kg', 'g'),
    ('energy', 'L^2 M T^-2', 'J', 'erg'), ('force', 'L M T^-2', 'N', 'dyn'),
    ('power', 'L^2 M T^-3', 'W', 'erg / s'), ('speed', 'L / T', 'm / s', 'cm / s'),
    ('velocity', 'L / T', 'm / s', 'cm / s'), ('area', 'L^2', 'm^2', 'cm^2'),
    ('volume', 'L^3', 'm^3', 'cm^3'), ('pressure', 'M / (L T^2)', 'Pa', 'dyn / cm^2'),
    ('momentum', 'M L / T', 'kg m / s', 'g cm / s'), ('temperature', 'H', 'K', 'K'),
    ('acceleration', 'L / T^2', 'm / s^2', 'cm / s^2'),
    ('mass density', 'M / L^3', 'kg / m^3', 'g / cm^3'),
    ('number density', 'L^-3', 'm^-3', 'cm^-3'), ('frequency', 'T^-1', 'Hz', 'Hz'),
    ('energy density', 'M / (L T^2)', 'J / m^3', 'erg / cm^3'),
    ('wavenumber', 'L^-1', 'm^-1', 'cm^-1'), ('work', 'L^2 M T^-2', 'J', 'erg'),
]


@case('C06', 'quantities of both systems: 20 names, and the compound quantity'
      ' a^p b^q for pairs; any rational p, q in two windows', T)
def quantities(cx):
    name, dimension, *units = cx.choice('quantity', QUANTITIES)
    k = cx.choice('system', [0, 1])
    system = metric.System(['mks', 'cgs'][k])
    cx.general_powers()
    p = cx.frac('p', *WINDOWS[0])
    entry = system[name]
    cx.check(bool(entry.unit == units[k]), 'unit of the quantity')
    cx.check(bool(entry.dimension == dimension), 'dimension of the quantity')
    cx.check(bool(system.get_unit(quantity=name) == units[k]),
             'get_unit by quantity')
    got = system.get_unit(dimension=dimension)
    cx.check(bool(metric.Unit(got) | metric.Unit(units[k])),
             'get_unit by dimension')
    cx.check(name in {
        q.replace('_', ' ')
        for q in metric.Dimension(dimension).quantities(system.name)},
        'quantities of a dimension')
    compound = metric.UNITS[f"{name.replace(' ', '_')}^{p} * time^2"]
    want = symbolic.Expression(units[k]) ** p * symbolic.Expression('s^2')
    have = {t.base: t.exponent for t in symbolic.Expression(
        compound[system.name])}
    need = {t.base: t.exponent for t in want}
    cx.check(have.keys() == need.keys(), 'units of a compound quantity')
    for base, n in need.items():
        cx.check_same(have[base], n, f'compound: power of {base}')


QUANTITY_TABLE = [  # name, dimension and unit in MKS, dimension and unit in CGS
    ('acceleration', 'L / T^2', 'm / s^2', 'L / T^2', 'cm / s^2'),
    ('amount', 'N', 'mol', 'N', 'mol'),
    ('area', 'L^2', 'm^2', 'L^2', 'cm^2'),
    ('capacitance', 'T^4 I^2 / (M L^2)', 'F', 'L', 'cm'),
    ('charge', 'I T', 'C', 'M^1/2 L^3/2 / T', 'statC'),
    ('charge density', 'I T / L^3', 'C / m^3', 'M^1/2 L^-3/2 / T', 'statC / cm^3'),
    ('conductance', 'T^3 I^2 / (M L^2)', 'S', 'L / T', 'cm / s'),
    ('conductivity', 'T^3 I^2 / (M L^3)', 'S / m', 'T^-1', 's^-1'),
    ('current', 'I', 'A', 'M^1/2 L^3/2 / T^2', 'statA'),
    ('current density', 'I / L^2', 'A / m^2', 'M^1/2 L^-1/2 / T^2', 'statA / cm^2'),
    ('displacement', 'I T / L^2', 'C / m^2', 'M^1/2 L^-1/2 / T', 'statC / cm^2'),
    ('dosage', 'L^2 / T^2', 'Gy', 'L^2 / T^2', 'erg / g'),
    ('electric charge', 'I T', 'C', 'M^1/2 L^3/2 / T', 'statC'),
    ('electric field', 'M L / (T^3 I)', 'V / m', 'M^1/2 L^-1/2 / T', 'statV / cm'),
    ('electromotance', 'M L^2 / (T^3 I)', 'V', 'M^1/2 L^1/2 / T', 'statV'),
    ('energy', 'M L^2 / T^2', 'J', 'M L^2 / T^2', 'erg'),
    ('energy density', 'M / (L T^2)', 'J / m^3', 'M / (L T^2)', 'erg / cm^3'),
    ('fluence', 'T^2 / (M L^4)', '1 / (m^2 sr J)', 'T^2 / (M L^4)', '1 / (cm^2 sr erg)'),
    ('flux', 'T / (M L^4)', '1 / (m^2 sr J s)', 'T / (M L^4)', '1 / (cm^2 sr erg s)'),
    ('force', 'M L / T^2', 'N', 'M L / T^2', 'dyn'),
    ('frequency', 'T^-1', 'Hz', 'T^-1', 'Hz'),
    ('identity', '1', '1', '1', '1'),
    ('illuminance', 'J / L^2', 'cd sr / m^2', 'J / L^2', 'cd sr / cm^2'),
    ('impedance', None, 'ohm', 'T / L', 's / cm'),
    ('inductance', 'M L^2 / (I T)^2', 'H', 'T^2 / L', 's^2 / cm'),
    ('induction', 'M / (T^2 I)', 'T', 'M^1/2 L^-1/2 / T', 'G'),
    ('integral flux', '1 / (L^2 T)', '1 / (m^2 sr s)', '1 / (L^2 T)', '1 / (cm^2 sr s)'),
    ('length', 'L', 'm', 'L', 'cm'),
    ('luminous flux', 'J', 'cd sr', 'J', 'cd sr'),
    ('luminous intensity', 'J', 'cd', 'J', 'cd'),
    ('magnetic field', 'M / (T^2 I)', 'T', 'M^1/2 L^-1/2 / T', 'G'),
    ('magnetic flux', 'M L^2 / (T^2 I)', 'Wb', 'M^1/2 L^3/2 / T', 'Mx'),
    ('magnetic induction', 'M / (T^2 I)', 'T', 'M^1/2 L^-1/2 / T', 'G'),
    ('magnetic intensity', 'I / L', 'A / m', 'M^1/2 L^-1/2 / T', 'Oe'),
    ('magnetic moment', 'I L^2', 'A m^2', 'M^1/2 L^5/2 / T', 'Oe cm^3'),
    ('magnetization', 'I / L', 'A / m', 'M^1/2 L^-1/2 / T', 'Oe'),
    ('magnetomotance', 'I', 'A', 'M^1/2 L^3/2 / T^2', 'statA'),
    ('mass', 'M', 'kg', 'M', 'g'),
    ('mass density', 'M / L^3', 'kg / m^3', 'M / L^3', 'g / cm^3'),
    ('mass number', '1', '1', '1', '1'),
    ('momentum', 'M L / T', 'kg m / s', 'M L / T', 'g cm / s'),
    ('momentum density', 'M / (L^2 T)', 'kg / (m^2 s)', 'M / (L^2 T)', 'g / (cm^2 s)'),
    ('number', '1', '1', '1', '1'),
    ('number density', 'L^-3', 'm^-3', 'L^-3', 'cm^-3'),
    ('particle distribution', 'T^3 / L^6', 's^3 / m^6', 'T^3 / L^6', 's^3 / cm^6'),
    ('particle fluence', 'T^2 / (M L^4)', '1 / (m^2 sr J)', 'T^2 / (M L^4)', '1 / (cm^2 sr erg)'),
    ('particle flux', 'T / (M L^4)', '1 / (m^2 sr J s)', 'T / (M L^4)', '1 / (cm^2 sr erg s)'),
    ('permeability', 'M L / (I T)^2', 'H / m', '1', '1'),
    ('permittivity', 'T^4 I^2 / (M L^3)', 'F / m', '1', '1'),
    ('plane angle', '1', 'rad', '1', 'rad'),
    ('polarization', 'I T / L^2', 'C / m^2', 'M^1/2 L^-1/2 / T', 'statC / cm^2'),
    ('potential', 'M L^2 / (T^3 I)', 'V', 'M^1/2 L^1/2 / T', 'statV'),
    ('power', 'M L^2 / T^3', 'W', 'M L^2 / T^3', 'erg / s'),
    ('power density', 'M / (L T^3)', 'W / m^3', 'M / (L T^3)', 'erg / (s cm^3)'),
    ('pressure', 'M / (L T^2)', 'Pa', 'M / (L T^2)', 'dyn / cm^2'),
    ('radioactivity', 'T^-1', 'Bq', 'T^-1', 'Ci'),
    ('ratio', '1', '1', '1', '1'),
    ('reluctance', '(I T)^2 / (M L^2)', 'A / Wb', 'L^-1', 'cm^-1'),
    ('resistance', None, 'ohm', 'T / L', 's / cm'),
    ('resistivity', None, 'ohm m', 'T', 's'),
    ('temperature', 'H', 'K', 'H', 'K'),
    ('thermal conductivity', 'M L / (T^3 H)', 'W / (m K)', 'M L / (T^3 H)', 'erg / (s cm K)'),
    ('time', 'T', 's', 'T', 's'),
    ('solid angle', '1', 'sr', '1', 'sr'),
    ('speed', 'L / T', 'm / s', 'L / T', 'cm / s'),
    ('vector potential', 'M L / (T^2 I)', 'Wb / m', 'M^1/2 L^1/2 / T', 'G cm'),
    ('velocity', 'L / T', 'm / s', 'L / T', 'cm / s'),
    ('viscosity', 'M / (L T)', 'kg / (m s)', 'M / (L T)', 'P'),
    ('volume', 'L^3', 'm^3', 'L^3', 'cm^3'),
    ('vorticity', 'T^-1', 'Hz', 'T^-1', 'Hz'),
    ('wavenumber', 'L^-1', 'm^-1', 'L^-1', 'cm^-1'),
    ('work', 'M L^2 / T^2', 'J', 'M L^2 / T^2', 'erg'),
]


def same_powers(cx, got, want, label):
    """Whether two expressions have the same bases and exponents."""
    have = {t.base: t.exponent for t in symbolic.Expression(got) if t.base != '1'}
    need = {t.base: t.exponent for t in want if t.base != '1'}
    cx.check(have.keys() == need.keys(), label)
    for base, n in need.items():
        cx.check_same(have[base], n, f'{label}: power of {base}')


@case('C06', f'all {len(QUANTITY_TABLE)} named quantities in both systems: dimension and'
      ' unit of the quantity and of its p-th power times a velocity; any'
      ' rational p in [1.05, 1.3]', T)
def table_of_quantities(cx):
    row = cx.choice('quantity', QUANTITY_TABLE)
    k = cx.choice('system', [0, 1])
    name, system = row[0], ['mks', 'cgs'][k]
    dimension, unit = row[1 + 2*k], row[2 + 2*k]
    cx.general_powers()
    p = cx.frac('p', *WINDOWS[0])
    entry = metric.System(system)[name]
    same_powers(cx, entry.unit, symbolic.Expression(unit), 'unit')
    if dimension:
        same_powers(cx, entry.dimension, symbolic.Expression(dimension), 'dimension')
    text = f"{name.replace(' ', '_')}^{p} * velocity"
    length = 'm' if system == 'mks' else 'cm'
    same_powers(cx, metric.UNITS[text][system],
                symbolic.Expression(unit) ** p * symbolic.Expression(f'{length} / s'),
                'unit of the power')
    if dimension:
        same_powers(cx, metric.DIMENSIONS[text][system],
                    symbolic.Expression(dimension) ** p * symbolic.Expression('L / T'),
                    'dimension of the power')


REDUCED = [  # unit, systems that define it
    ('m', 'mc'), ('g', 'mc'), ('s', 'mc'), ('K', 'mc'), ('J', 'm'), ('erg', 'c'),
    ('N', 'm'), ('dyn', 'c'), ('Pa', 'm'), ('W', 'm'), ('C', 'm'), ('V', 'm'),
    ('T', 'm'), ('G', 'c'), ('Wb', 'm'), ('Mx', 'c'), ('statC', 'c'), ('H', 'm'),
    ('P', 'c'), ('rad', 'mc'), ('Gy', 'm'), ('mol', 'mc'), ('au', ''), ('deg', ''),
    ('min', ''), ('eV', ''),
]


@case('C06', 'a unit of 26, with any of five prefixes, in base units of its'
      ' systems, and that times or over two numbers, or raised; any number of the unit', T)
def reductions(cx):
    u, systems = cx.choice('unit', REDUCED)
    prefix = cx.choice('prefix', ['', 'k', 'm', 'c', 'n'])
    if prefix + u in {'cd', 'min'} and prefix:
        return
    system = cx.choice('system', ['mks', 'cgs'])
    unit = metric.NamedUnit(prefix + u)
    got = unit.reduce(system.upper())
    x = cx.real('x', 1, 1000)
    if system[0] not in systems:
        cx.check(got is None, 'not a unit of the system')
        return
    cx.check(got.system == system, 'system')
    for t in got.units:
        cx.check(t.base in {'m', 'cm', 'kg', 'g', 's', 'K', 'A', 'mol', 'rad'},
                 'base units')

    def check(reduced, factor, n, label):
        terms = [(t.base, t.exponent) for t in reduced.units]
        value, dims = powers(terms)
        want, need = powers([(prefix + u, n)])
        cx.check_close(x * reduced.scale * 10.0 ** value, x * factor * 10.0 ** want,
                       f'{label}: magnitude')
        for a in AXES:
            cx.check_same(dims[a], need[a], f'{label}: power of {a}')
        cx.check(reduced.system == system, f'{label}: system')

    check(got, 1, 1, 'reduced')
    for k in (3, 1e-9):
        check(k * got, k, 1, 'times')
        check(got * k, k, 1, 'by')
        check(got / k, 1 / k, 1, 'over')
        check((k * got) ** 2, k * k, 2, 'squared')
    check(got ** -1, 1, -1, 'inverse')
    check(unit.reduce(system), 1, 1, 'again')
    for one in (got, 3 * got, got * 0.5, got / 4, (3 * got) ** 2):
        text = symbolic.Expression(str(one).split(' [')[0])
        coefficient = [t.coefficient for t in text if t.base == '1']
        cx.check_close(float(coefficient[0]) if coefficient else 1, one.scale,
                       'printed coefficient')


SYMBOLS = [
    ('m', 'length', 'mc'), ('au', 'length', ''), ('g', 'mass', 'mc'),
    ('nuc', 'mass number', ''), ('amu', 'mass number', ''), ('s', 'time', 'mc'),
    ('min', 'time', ''), ('h', 'time', ''), ('d', 'time', ''), ('A', 'current', 'm'),
    ('K', 'temperature', 'mc'), ('mol', 'amount', 'mc'), ('#', 'number', ''),
    ('cd', 'luminous intensity', 'mc'), ('rad', 'plane angle', 'mc'),
    ('deg', 'plane angle', ''), ('sr', 'solid angle', 'mc'),
    ('Hz', 'frequency', 'mc'), ('J', 'energy', 'm'), ('erg', 'energy', 'c'),
    ('eV', 'energy', ''), ('N', 'force', 'm'), ('dyn', 'force', 'c'),
    ('Pa', 'pressure', 'm'), ('W', 'power', 'm'), ('C', 'charge', 'm'),
    ('statC', 'charge', 'c'), ('statA', 'current', 'c'), ('statV', 'potential', 'c'),
    ('e', 'charge', ''), ('V', 'potential', 'm'), ('ohm', 'resistance', 'm'),
    ('S', 'conductance', 'm'), ('F', 'capacitance', 'm'),
    ('Wb', 'magnetic flux', 'm'), ('Mx', 'magnetic flux', 'c'),
    ('Oe', 'magnetic intensity', 'c'), ('H', 'inductance', 'm'),
    ('T', 'induction', 'm'), ('G', 'induction', 'c'), ('lm', 'luminous flux', ''),
    ('lx', 'illuminance', ''), ('Bq', 'radioactivity', 'm'),
    ('Ci', 'radioactivity', 'c'), ('Gy', 'dosage', 'm'), ('P', 'viscosity', 'c'),
]


@case('C06', f'all {len(SYMBOLS)} named units: quantity, systems, and the'
      ' dimension of the p-th power in both systems; any rational p in'
      ' [1.05, 1.3]', T)
def table_of_units(cx):
    u, quantity, systems = cx.choice('unit', SYMBOLS)
    named = metric.NamedUnit(u)
    cx.check(named.quantity == quantity, 'quantity')
    cx.general_powers()
    p = cx.frac('p', *WINDOWS[0])
    unit = metric.Unit(f'{u}^{p}')
    row = next(r for r in QUANTITY_TABLE if r[0] == quantity)
    for k, system in enumerate(['mks', 'cgs']):
        used = system[0] in systems
        cx.check(bool(named.is_defined_in(system)) is used, 'defined in its systems')
        cx.check(bool(named.is_allowed_in(system)) is (used or not systems),
                 'allowed in its systems')
        cx.check((system in named.systems['defined']) is used, 'systems')
        got = unit.dimensions[system]
        if systems and not used:
            cx.check(got is None, 'no dimension in other systems')
        elif row[1 + 2*k]:
            same_powers(cx, got, symbolic.Expression(row[1 + 2*k]) ** p, 'dimension')


@case('C06', 'Dimensions from a common dimension and any overrides; any'
      ' rational exponents in [-4, 4]', T)
def common_dimensions(cx):
    p, q = cx.frac('p', -4, 4), cx.frac('q', -4, 4)
    common = f'L^{p} M' if cx.bool('common') else None
    given = {s: f'T^{q} L' for s in ('mks', 'cgs') if cx.bool(s)}
    if common is None and not given:
        cx.raises(TypeError, metric.Dimensions, label='nothing to use')
        return
    d = metric.Dimensions(common, **given)
    for s in ('mks', 'cgs'):
        want = ({'T': q, 'L': 1} if s in given else
                {'L': p, 'M': 1} if common else None)
        got = d[s.upper()]
        if want is None:
            cx.check(got is None, 'no dimension')
            continue
        have = {t.base: t.exponent for t in got}
        for base in 'LMT':
            cx.check_same(have.get(base, 0), want.get(base, 0),
                          f'{s}: power of {base}')
