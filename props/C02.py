"""C02: an expression's normal form and its printed form lose nothing."""
from fractions import Fraction

from sx.context import case
from goats.core import symbolic
from props.monomials import compare, canonical

Term = symbolic.Term
Expression = symbolic.Expression
T = ('goats.core.symbolic.Expression', 'goats.core.symbolic.Term.format',
     'goats.core.symbolic.reduce')


@case('C02', 'a^p b^q c^2 printed and read back; rational p, q in [-50, 50]', T)
def exponents_round_trip(cx):
    p, q = (cx.frac(n, -50, 50) for n in 'pq')
    x = Expression([Term(1, 'a', p), Term(1, 'b', q), Term(1, 'c', 2)])
    canonical(cx, x, 'built')
    compare(cx, x, 1, {'a': p, 'b': q, 'c': 2}, 'built')
    y = Expression(str(x))
    compare(cx, y, 1, {'a': p, 'b': q, 'c': 2}, 'read back')
    canonical(cx, y, 'read back')
    cx.check(y == x, 'read back: equal')


@case('C02', 'u a^n b^-1 printed and read back; rational u, n in {-2, 0, 1, 3/2}',
      T)
def coefficient_round_trip(cx):
    u = cx.frac('u')
    n = cx.choice('n', [-2, 0, 1, Fraction(3, 2)])
    x = Expression([Term(u, 'a', n), Term(1, 'b', -1)])
    compare(cx, x, u, {'a': n, 'b': -1}, 'built')
    y = Expression(str(x))
    compare(cx, y, u, {'a': n, 'b': -1}, 'read back')
    for sep in (' ', ' * ', '*'):
        z = Expression(x.format(separator=sep))
        compare(cx, z, u, {'a': n, 'b': -1}, f'separator {sep!r}')


@case('C02', 'a term u a^p printed and read back; integer u, rational p', T)
def term_round_trip(cx):
    u = cx.int('u', -1000, 1000)
    p = cx.frac('p', -50, 50)
    t = Term(Fraction(u), 'a', p)
    z = Expression(str(t))
    compare(cx, z, u, {'a': p}, 'term read back')


@case('C02', 'the three orders of a^p, b^q, 3c^2 and of their nested groupings',
      T)
def order(cx):
    p, q = (cx.frac(n, -50, 50) for n in 'pq')
    t = [Term(1, 'a', p), Term(1, 'b', q), Term(3, 'c', 2)]
    i, j, k = cx.choice('order', [(1, 0, 2), (2, 1, 0), (1, 2, 0)])
    x = Expression(t)
    y = Expression([t[i], t[j], t[k]])
    cx.check(x == y, 'equal in any order')
    cx.check([str(s) for s in x] == [str(s) for s in y],
             'the same terms in the same order')
    canonical(cx, y, 'reordered')
    compare(cx, y, 3, {'a': p, 'b': q, 'c': 2}, 'reordered')


@case('C02', 'a base repeated two or three times: a^p a^q b a^-p, rational p, q',
      T)
def repeated(cx):
    p, q = (cx.frac(n, -50, 50) for n in 'pq')
    x = Expression([Term(2, 'a', p), Term(1, 'b', 1), Term(3, 'a', q),
                    Term(1, 'a', -p)])
    compare(cx, x, 6, {'a': q, 'b': 1}, 'collected')
    canonical(cx, x, 'collected')


@case('C02', 'tex style of u a^p b^2; integer u in [-9, 9], rational p', T)
def tex(cx):
    u = cx.int('u', -9, 9)
    p = cx.frac('p', -50, 50)
    x = Expression([Term(Fraction(u), 'a', p), Term(1, 'b', 2)])
    plain = [t.format() for t in x]
    styled = [t.format(style='tex') for t in x]
    for t, a, b in zip(x, plain, styled):
        if t.base == '1' or t.exponent == 1:
            cx.check(a == b, 'tex: no exponent')
        else:
            cx.check(a == f'{t.base}^{t.exponent}', 'plain: exponent')
            cx.check(b == t.base + '^{' + str(t.exponent) + '}',
                     'tex: exponent in braces')
    cx.raises(ValueError, Term(1, 'a', 2).format, style='foo',
              label='unknown style')


@case('C02', 'indexing an expression of 1 to 3 terms; any index in [-6, 6]', T)
def indexing(cx):
    x = Expression(cx.choice('x', ['a', '2a', 'a^3 b / c']))
    i = cx.int('i', -6, 6)
    n = len(x)
    terms = list(iter(x))
    t, err = cx.catch(lambda: x[i])
    if cx.decide(cx.both(i >= -n, i < n)):
        cx.check(err is None, 'valid index accepted')
        for j in range(n):
            if cx.decide(cx.either(i == j, i == j - n)):
                cx.check(t is terms[j], 'indexed term')
    else:
        cx.check(isinstance(err, IndexError), 'invalid index rejected')
