"""C19: species and physical constants."""
import numpy

from sx.context import case
from goats.core import fundamental
from goats.core import physical
from goats.core import plasma

F = 'goats.core.fundamental.'
P = 'goats.core.plasma.Species.'
C = 'goats.core.physical.Constants.'
NUCLEONS = {
    'H': 1, 'He': 4, 'Li': 7, 'Be': 9, 'B': 11, 'C': 12, 'N': 14, 'O': 16,
    'F': 19, 'Ne': 20, 'Na': 23, 'Mg': 24, 'Al': 27, 'Si': 28, 'P': 31,
    'S': 32, 'Cl': 35, 'K': 39, 'Ti': 48, 'Cr': 52, 'Mn': 55, 'Fe': 56,
    'Cu': 64, 'Zn': 65, 'U': 238,
}
SHARED = {40, 59, 209, 247, 262}
"""Mass numbers of more than one element."""
CONSTANTS = {
    'pi': (numpy.pi, '1'),
    'k': (1.380649e-23, 'J / K'),
    'e': (1.602177e-19, 'C'),
    'me': (9.109384e-31, 'kg'),
    'mp': (1.672622e-27, 'kg'),
    'G': (6.6743e-11, 'm^3 / (s^2 * kg)'),
    'g': (9.80665, 'm / s^2'),
    'h': (6.626070e-34, 'J * s'),
    'c': (2.997925e8, 'm / s'),
    'epsilon0': (8.854188e-12, 'F / m'),
    'mu0': (4e-7 * numpy.pi, 'H / m'),
    'Rinfinity': (1.0973732e7, '1 / m'),
    'a0': (5.2917721e-11, 'm'),
    're': (2.8179403e-15, 'm'),
    'alpha': (7.2973526e-3, '1'),
    'c1': (3.7417718e-16, 'W * m^2'),
    'c2': (1.4387769e-2, 'm * K'),
    'sigma': (5.670374e-8, 'W / (m^2 * K^4)'),
    'eV': (1.602177e-19, 'J'),
    'amu': (1.660539e-27, 'kg'),
    'au': (1.495978707e11, 'm'),
    'H+': (13.6 * 1.602177e-19, 'J'),
}


def signs(charge):
    return '+' * charge if charge > 0 else '-' * -charge


def known():
    table = {}
    for e in fundamental.ELEMENTS:
        table.setdefault(round(e['mass']), []).append(e['symbol'])
    return table


def element(cx, i, most):
    """A mass, a charge, and the expected symbols."""
    charge = cx.choice(f'charge {i}', (1, 2, 0, -1, -3) if i == 0 else (1, -2))
    mass = cx.real(f'mass {i}', 0.5, most)
    number = cx.int(f'number {i}', 1, most)
    half = 0.5
    cx.assume(cx.both(mass > number - half, mass < number + half))
    return mass, charge, number


@case('C19', 'any mass up to 24 (thorough: 280) and five charges of one species, or'
      ' masses up to 9 of two', (F + 'elements', F + 'get_mass_indices'),
      shard=('count', 2))
def elements(cx):
    table = known()
    count = cx.choice('count', (1, 2))
    most = cx.bound(24, 280) if count == 1 else cx.bound(9, 16)
    given = [element(cx, i, most) for i in range(count)]
    masses = [m for m, _, _ in given]
    charges = [q for _, q, _ in given]
    if count == 1 and cx.choice('alone', (False, True)):
        masses, charges = masses[0], charges[0]
    symbols, err = cx.catch(fundamental.elements, masses, charges)
    numbers = [cx.either(*(n == k for k in table)) for _, _, n in given]
    if cx.decide(cx.both(*numbers)):
        cx.check(err is None, 'masses of known elements')
        cx.check(len(symbols) == count, 'one symbol for each species')
        for (_, q, n), s in zip(given, symbols):
            cx.check(cx.either(*(cx.both(n == k, s == b + signs(q))
                                 for k in table for b in table[k])),
                     'the symbol of an element with the mass and charge')
    else:
        cx.check(isinstance(err, fundamental.MassValueError),
                 'masses of unknown elements are errors')


@case('C19', 'any mass within half a nucleon of that of twenty-five elements,'
      ' and five charges', (F + 'elements', P + 'symbol', P + 'mass',
                            P + 'charge'))
def from_mass(cx):
    base = cx.choice('element', tuple(NUCLEONS))
    charge = cx.choice('charge', (1, 2, 0, -1, -3))
    mass = cx.real('mass', 0, 300)
    n = NUCLEONS[base]
    cx.assume(cx.both(mass > n - 0.5, mass < n + 0.5))
    expected = base + signs(charge)
    cx.check(fundamental.elements([mass], [charge]) == [expected],
             'the symbol of a mass and a charge')
    s = plasma.Species(mass=mass, charge=charge)
    for _ in range(2):
        cx.check(s.symbol == expected, 'the symbol of a species')
        for m in (s.mass, s.m):
            cx.check_close(float(m), mass, 'the given mass')
            cx.check(str(m.unit) == 'nucleon', 'masses are in nucleons')
        for q in (s.charge, s.q):
            cx.check_close(float(q), charge, 'the given charge')
            cx.check(str(q.unit) == 'e', 'charges are in elementary charges')


@case('C19', 'every element with up to three signs in any order, and any given'
      ' mass or charge', (P + 'symbol', P + 'mass', P + 'charge',
                          'goats.core.iterables.Table.find'))
def from_symbol(cx):
    base = cx.choice('element', tuple(e['symbol']
                                      for e in fundamental.ELEMENTS))
    sign = cx.choice('signs', ('', '+', '++', '---'))
    (known,) = [e for e in fundamental.ELEMENTS if e['symbol'] == base]
    given = {}
    if cx.choice('given', (None, 'both')):
        given['mass'] = cx.real('mass', 0, 300)
        given['charge'] = cx.real('charge', -300, 300)
    s = plasma.Species(base + sign, **given)
    if base in NUCLEONS and not given:
        cx.check(round(known['mass']) == NUCLEONS[base], 'mass numbers')
    mass = given.get('mass', known['mass'])
    charge = given.get('charge', sum(1 if c == '+' else -1 for c in sign))
    order = cx.choice('first', ('charge', 'mass'))
    if order == 'charge':
        cx.check_close(float(s.charge), charge, 'the charge of a species')
    cx.check_close(float(s.mass), mass, 'the mass of a species')
    cx.check_close(float(s.charge), charge, 'the charge of a species')
    cx.check(s.symbol == base + sign, 'the given symbol')
    if not given and known['mass'] and round(known['mass']) not in SHARED:
        again = plasma.Species(mass=float(s.mass), charge=float(s.charge))
        cx.check(again.symbol == base + sign,
                 'the symbol of the mass and charge of a species')


@case('C19', 'masses and charges of any different numbers up to three', (
    F + 'elements',))
def lengths(cx):
    n = cx.choice('masses', (1, 2, 3))
    m = cx.choice('charges', (1, 2, 3))
    masses = [cx.real(f'm{i}', 0.75, 1.25) for i in range(n)]
    symbols, err = cx.catch(fundamental.elements, masses, [1] * m)
    if n == m:
        cx.check(symbols == ['H+'] * n, 'one symbol for each species')
    else:
        cx.check(isinstance(err, TypeError), 'different lengths are errors')


@case('C19', 'any number of each constant', (C + '__getitem__',
                                             C + '_get_attributes'))
def constants(cx):
    name = cx.choice('name', tuple(CONSTANTS))
    x = cx.real('x', 0.5, 100)
    value, unit = CONSTANTS[name]
    upper = cx.choice('upper', (False, True))
    mks = physical.Constants('MKS' if upper else 'mks')
    cgs = physical.Constants('CGS' if upper else 'cgs')
    a = x * mks[name]
    cx.check_close(float(a), x * value, 'the value of a constant', rtol=5e-4)
    cx.check(mks[name].unit == unit, 'the unit of a constant')
    b = x * cgs[name]
    tol = 2e-3 if name in ('epsilon0', 'mu0') else 1e-4
    cx.check_close(float(physical.Scalar(a)[b.unit]), float(b),
                   'the same constant in MKS and CGS', rtol=tol)
    cx.check(cx.catch(lambda: mks['not ' + name])[1].__class__ is KeyError,
             'unknown constants are errors')
