"""An independent table of units: factor to SI, and dimension (L, M, T, I, K).

Values follow the definitions of the units (SI brochure, Gaussian units) and
the constants that goats documents for the astronomical unit, the electron
volt, the elementary charge and the atomic mass.
"""
import math
from fractions import Fraction

C_CGS = 2.99792458e10  # the speed of light in cm / s

PREFIXES = {
    'Y': 24, 'Z': 21, 'E': 18, 'P': 15, 'T': 12, 'G': 9, 'M': 6, 'k': 3,
    'h': 2, 'da': 1, '': 0, 'd': -1, 'c': -2, 'm': -3, 'μ': -6, 'n': -9,
    'p': -12, 'f': -15, 'a': -18, 'z': -21, 'y': -24,
}
PREFIX_NAMES = {
    'yotta': 24, 'zetta': 21, 'exa': 18, 'peta': 15, 'tera': 12, 'giga': 9,
    'mega': 6, 'kilo': 3, 'hecto': 2, 'deca': 1, '': 0, 'deci': -1,
    'centi': -2, 'milli': -3, 'micro': -6, 'nano': -9, 'pico': -12,
    'femto': -15, 'atto': -18, 'zepto': -21, 'yocto': -24,
}

# symbol: (SI factor, (L, M, T, I, K), name)
MECHANICAL = {
    'm': (1.0, (1, 0, 0, 0, 0), 'meter'),
    'au': (1.495978707e11, (1, 0, 0, 0, 0), 'astronomical unit'),
    'g': (1e-3, (0, 1, 0, 0, 0), 'gram'),
    'nuc': (1.6605e-27, (0, 1, 0, 0, 0), 'nucleon'),
    'amu': (1.6605e-27, (0, 1, 0, 0, 0), 'atomic mass unit'),
    's': (1.0, (0, 0, 1, 0, 0), 'second'),
    'min': (60.0, (0, 0, 1, 0, 0), 'minute'),
    'h': (3600.0, (0, 0, 1, 0, 0), 'hour'),
    'd': (86400.0, (0, 0, 1, 0, 0), 'day'),
    'K': (1.0, (0, 0, 0, 0, 1), 'kelvin'),
    'J': (1.0, (2, 1, -2, 0, 0), 'joule'),
    'erg': (1e-7, (2, 1, -2, 0, 0), 'erg'),
    'eV': (1.6022e-19, (2, 1, -2, 0, 0), 'electronvolt'),
    'N': (1.0, (1, 1, -2, 0, 0), 'newton'),
    'dyn': (1e-5, (1, 1, -2, 0, 0), 'dyne'),
    'Pa': (1.0, (-1, 1, -2, 0, 0), 'pascal'),
    'W': (1.0, (2, 1, -3, 0, 0), 'watt'),
    'P': (0.1, (-1, 1, -1, 0, 0), 'poise'),
}
ELECTROMAGNETIC = {  # in SI; the Gaussian units are related by definition
    'A': (1.0, 'current'),
    'statA': (10 / C_CGS, 'current'),
    'C': (1.0, 'charge'),
    'e': (1.6022e-19, 'charge'),
    'statC': (10 / C_CGS, 'charge'),
    'V': (1.0, 'potential'),
    'statV': (C_CGS * 1e-8, 'potential'),
    'T': (1.0, 'induction'),
    'G': (1e-4, 'induction'),
    'Wb': (1.0, 'flux'),
    'Mx': (1e-8, 'flux'),
    'Bq': (1.0, 'activity'),
    'Ci': (3.7e10, 'activity'),
    'rad': (1.0, 'plane angle'),
    'deg': (math.pi / 180, 'plane angle'),
}
