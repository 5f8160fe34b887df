"""C01: symbolic expressions multiply, divide and raise like monomials."""
from fractions import Fraction

from sx.context import case
from goats.core import symbolic
from props.monomials import compare, canonical

Term = symbolic.Term
Expression = symbolic.Expression
T = ('goats.core.symbolic.Expression', 'goats.core.symbolic.reduce')


def merge(*groups):
    out = {}
    for sign, group in groups:
        for base, p in group.items():
            out[base] = out.get(base, 0) + sign * p
    return out


@case('C01', 'a^p b^q times/over a^r; p, q, r any rationals in [-50, 50]', T)
def exponents(cx):
    p, q, r = (cx.frac(n, -50, 50) for n in 'pqr')
    x = Expression([Term(1, 'a', p), Term(1, 'b', q)])
    y = Expression([Term(1, 'a', r)])
    op = cx.choice('op', ['mul', 'div'])
    if op == 'mul':
        z, sign = x * y, 1
    else:
        z, sign = x / y, -1
    compare(cx, z, 1, merge((1, {'a': p, 'b': q}), (sign, {'a': r})), op)
    canonical(cx, z, op)
    compare(cx, x, 1, {'a': p, 'b': q}, 'left operand')
    compare(cx, y, 1, {'a': r}, 'right operand')


@case('C01', 'one-letter bases from {a, b, c}, rational exponents', T)
def bases(cx):
    p, q = (cx.frac(n, -50, 50, nonzero=True) for n in 'pq')
    s = cx.text('s', 'abc', 1, 1)
    t = cx.text('t', 'abc', 1, 1)
    x = Expression([Term(1, s, p)])
    y = Expression([Term(1, t, q)])
    op = cx.choice('op', ['mul', 'div'])
    z = x * y if op == 'mul' else x / y
    e = q if op == 'mul' else -q
    if cx.decide(s == t):
        powers = {'s': p + e}
    else:
        powers = {'s': p, 't': e}
    got = {}
    for term in z:
        if term.base == '1':
            cx.check(term.coefficient == 1, f'{op}: coefficient')
        elif cx.decide(term.base == s):
            got['s'] = term.exponent
        else:
            cx.check(term.base == t, f'{op}: a base of an operand')
            got['t'] = term.exponent
    for k in ('s', 't'):
        cx.check_same(got.get(k, 0), powers.get(k, 0), f'{op}: exponent')


FACTORS = [Fraction(2), Fraction(-1), Fraction(1, 4), Fraction(-5, 8), 1000]


@case('C01', 'u a^2 b times/over v a; any rational u in [-1000, 1000],'
      ' v in {2, -1, 1/4, -5/8, 1000}', T)
def coefficients(cx):
    u = cx.frac('u')
    v = cx.choice('v', FACTORS)
    x = Expression([Term(u, 'a', 2), Term(1, 'b', 1)])
    y = Expression([Term(v, 'a', 1)])
    op = cx.choice('op', ['mul', 'div'])
    z = x * y if op == 'mul' else x / y
    if op == 'mul':
        compare(cx, z, u * v, {'a': 3, 'b': 1}, op)
    else:
        compare(cx, z, u / v, {'a': 1, 'b': 1}, op)
    canonical(cx, z, op)


@case('C01', 'constants only: u * v, u / v, v / u, rational u; v as above', T)
def constants(cx):
    u = cx.frac('u')
    v = cx.choice('v', FACTORS)
    x = Expression([Term(coefficient=u)])
    y = Expression([Term(coefficient=v)])
    compare(cx, x * y, u * v, {}, 'product')
    compare(cx, x / y, u / v, {}, 'ratio')
    compare(cx, x, u, {}, 'operand')


@case('C01', '(a^p b^q)^n; rational p, q in [-50, 50], real n in [-8, 8]', T)
def power(cx):
    p, q = (cx.frac(n, -50, 50) for n in 'pq')
    n = cx.real('n', -8, 8, nonzero=True)
    x = Expression([Term(1, 'a', p), Term(1, 'b', q)])
    z = x ** n
    compare(cx, z, 1, {'a': p * n, 'b': q * n}, 'power')
    canonical(cx, z, 'power')
    compare(cx, x, 1, {'a': p, 'b': q}, 'operand')


@case('C01', '(u a^2 b)^n; rational u in (0, 1000], n in {1,2,3,-1,-2,1/2,-1/2}',
      T)
def power_coefficient(cx):
    u = cx.frac('u', 0, 1000, nonzero=True)
    n = cx.choice('n', [1, 2, 3, -1, -2, 0.5, -0.5])
    x = Expression([Term(u, 'a', 2), Term(1, 'b', 1)])
    z = x ** n
    if n == 0.5:
        c = cx.sqrt(u)
    elif n == -0.5:
        c = 1 / cx.sqrt(u)
    elif n < 0:
        c = 1
        for _ in range(-n):
            c = c / u
    else:
        c = 1
        for _ in range(n):
            c = c * u
    compare(cx, z, c, {'a': 2 * n, 'b': n}, 'power')


@case('C01', 'right operand a string or list; left operand a string or list;'
      ' rational exponents', T)
def converted(cx):
    p, q = (cx.frac(n, -50, 50, nonzero=True) for n in 'pq')
    x = Expression([Term(1, 'a', p), Term(1, 'b', q)])
    for y in ('2c / a', ['2c', 'a^-1'], Expression('2c / a')):
        compare(cx, x * y, 2, {'a': p - 1, 'b': q, 'c': 1}, 'x * y')
        compare(cx, x / y, 0.5, {'a': p + 1, 'b': q, 'c': -1}, 'x / y')
    compare(cx, '2c / a' * x, 2, {'a': p - 1, 'b': q, 'c': 1}, 'str * x')
    compare(cx, '2c / a' / x, 2, {'a': -1 - p, 'b': -q, 'c': 1}, 'str / x')


@case('C01', 'module functions product, ratio, power and equality', T)
def functions(cx):
    p = cx.frac('p', -50, 50, nonzero=True)
    x = Expression([Term(3, 'a', p)])
    compare(cx, symbolic.product(x, 'a * b'), 3, {'a': p + 1, 'b': 1},
            'product()')
    compare(cx, symbolic.product('a * b', x), 3, {'a': p + 1, 'b': 1},
            'product()')
    compare(cx, symbolic.ratio(x, 'a * b'), 3, {'a': p - 1, 'b': -1},
            'ratio()')
    compare(cx, symbolic.ratio('a * b', x), 1 / 3, {'a': 1 - p, 'b': 1},
            'ratio()')
    compare(cx, symbolic.power(x, 2), 9, {'a': 2 * p}, 'power()')
    cx.check(symbolic.equality(x, 'a * b') == False, 'equality(): different')
    cx.check(symbolic.equality(x, [Term(3, 'a', p)]) == True,
             'equality(): same')


@case('C01', 'laws of the group: (x y) / y = x, x / x = 1, x y = y x,'
      ' (x / y) (y / x) = 1, x (y / x) = y; rational exponents', T)
def laws(cx):
    p, q = (cx.frac(n, -50, 50) for n in 'pq')
    x = Expression([Term(2, 'a', p), Term(1, 'b', 3)])
    y = Expression([Term(3, 'a', q), Term(1, 'b', -1)])
    law = cx.choice('law', range(5))
    if law == 0:
        cx.check((x * y) / y == x, '(x * y) / y == x')
    elif law == 1:
        cx.check(x / x == '1', 'x / x == 1')
    elif law == 2:
        cx.check(x * y == y * x, 'x * y == y * x')
    elif law == 3:
        one = (x / y) * (y / x)
        cx.check(one == Expression('1'), '(x / y) (y / x) == 1')
    else:
        cx.check(x * (y / x) == y, 'x (y / x) == y')


@case('C01', 'terms: c a^p times u; u times c a^p; (a^p)^n; rational c, u, p;'
      ' real n in [-8, 8]', ('goats.core.symbolic.Term',))
def terms(cx):
    c, u = (cx.frac(n) for n in 'cu')
    p = cx.frac('p', -50, 50)
    t = Term(c, 'a', p)
    for label, z in (('t * u', t * u), ('u * t', u * t)):
        cx.check_same(z.coefficient, c * u, f'{label}: coefficient')
        cx.check_same(z.exponent, p, f'{label}: exponent')
        cx.check(z.base == 'a', f'{label}: base')
    n = cx.real('n', -8, 8)
    z = Term(1, 'a', p) ** n
    cx.check_same(z.coefficient, 1, 't ** n: coefficient')
    cx.check_same(z.exponent, p * n, 't ** n: exponent')
    cx.check_same(t.coefficient, c, 'operand: coefficient')
    cx.check_same(t.exponent, p, 'operand: exponent')


@case('C01', 'c a^n at a = v; rational c, v; n in {-2..3}',
      ('goats.core.symbolic.Term.__call__',))
def evaluation(cx):
    c = cx.frac('c')
    v = cx.frac('v', nonzero=True)
    n = cx.choice('n', [-2, -1, 0, 1, 2, 3])
    t = Term(c, 'a', n)
    want = c
    for _ in range(abs(n)):
        want = want * v if n > 0 else want / v
    z = t(v)
    cx.check(z.base == '1', 'evaluated: constant')
    cx.check_same(z.coefficient, want, 'evaluated: value')
    cx.check_same(t.coefficient, c, 'operand: coefficient')
    cx.raises(TypeError, t, 'x', label='evaluated at a string')
    cx.raises(TypeError, Term(coefficient=c), v, label='constant term called')
    cx.raises(TypeError, float, t, label='float of a variable term')


@case('C01', 'term list longer: a^p b^q c^r over a b^q; exponents in [-50, 50]',
      T, tier='thorough')
def three_bases(cx):
    p, q, r = (cx.frac(n, -50, 50) for n in 'pqr')
    x = Expression([Term(1, 'a', p), Term(1, 'b', q), Term(1, 'c', r)])
    y = Expression([Term(1, 'a', 1), Term(1, 'b', q)])
    z = x / y
    compare(cx, z, 1, {'a': p - 1, 'c': r}, 'ratio')
    canonical(cx, z, 'ratio')
    z = x * y
    compare(cx, z, 1, {'a': p + 1, 'b': q + q, 'c': r}, 'product')
    canonical(cx, z, 'product')
