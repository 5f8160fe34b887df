"""C03: equality of symbolic objects is an equivalence that hashing respects."""
from fractions import Fraction

from sx.context import case
from goats.core import symbolic

Term = symbolic.Term
Expression = symbolic.Expression
T = ('goats.core.symbolic.Term.__eq__', 'goats.core.symbolic.Term.__hash__',
     'goats.core.symbolic.Expression.__eq__',
     'goats.core.symbolic.Expression.__hash__')


@case('C03', 'c a^p against d s^q; rational c, d, p, q; s in {a, b}', T)
def terms(cx):
    c, d = (cx.frac(n) for n in 'cd')
    p, q = (cx.frac(n, -50, 50) for n in 'pq')
    s = cx.text('s', 'ab', 1, 1)
    x = Term(c, 'a', p)
    y = Term(d, s, q)
    same = cx.both(c == d, p == q, s == 'a')
    eq = cx.decide(x == y)
    if cx.decide(same):
        cx.check(eq, 'equal parts: equal')
        cx.check(cx.hash_of(x) == cx.hash_of(y), 'equal: same hash')
        cx.check(cx.negate(x != y), 'equal: not different')
    else:
        cx.check(not eq, 'different parts: different')
        cx.check(x != y, 'different parts: !=')
    cx.check(cx.decide(y == x) == eq, 'symmetric')
    cx.check(x == x, 'reflexive')


@case('C03', 'a constant term against a number; rationals', T)
def constant_term(cx):
    c, d = (cx.frac(n) for n in 'cd')
    x = Term(coefficient=c)
    cx.check(cx.decide(x == d) == cx.decide(c == d), 'term == number')
    cx.check(cx.decide(d == x) == cx.decide(c == d), 'number == term')
    cx.check_same(float(x), c, 'float(term)')


@case('C03', 'a^p b^q against a^r b^s built in another order; rationals', T)
def expressions(cx):
    p, q, r = (cx.frac(n, -50, 50) for n in 'pqr')
    x = Expression([Term(1, 'a', p), Term(1, 'b', q)])
    y = Expression([Term(1, 'b', q), Term(1, 'a', r)])
    eq = cx.decide(x == y)
    if cx.decide(p == r):
        cx.check(eq, 'same powers: equal')
        cx.check(cx.hash_of(x) == cx.hash_of(y), 'equal: same hash')
        cx.check(cx.negate(x != y), 'equal: not different')
    else:
        cx.check(not eq, 'different powers: different')
        cx.check(x != y, 'different powers: !=')
    cx.check(cx.decide(y == x) == eq, 'symmetric')


@case('C03', 'u a against v a; rational u, v', T)
def coefficients(cx):
    u, v = (cx.frac(n, -50, 50) for n in 'uv')
    x = Expression([Term(u, 'a', 1)])
    y = Expression([Term(1, 'a', 1), Term(coefficient=v)])
    eq = cx.decide(x == y)
    cx.check(eq == cx.decide(u == v), 'equal exactly when coefficients are')
    if eq:
        cx.check(cx.hash_of(x) == cx.hash_of(y), 'equal: same hash')


@case('C03', 'an expression against its string and list forms', T)
def other_forms(cx):
    p = cx.frac('p', -50, 50)
    x = Expression([Term(1, 'a', p), Term(2, 'b', 1)])
    cx.check(x == str(x), 'equal to its string')
    cx.check(x == [Term(2, 'b', 1), Term(1, 'a', p)], 'equal to its terms')
    cx.check(cx.decide(x == 'a^2 * 2b') == cx.decide(p == 2),
             'equal to a string exactly when the powers agree')
    cx.check(x != 'c', 'different from another string')
    cx.check(Expression(x) is x, 'an expression made of itself')


@case('C03', 'difference of a^p b and a^q c: terms by equality', T)
def difference(cx):
    cx.hash_mode('const')
    p, q = (cx.frac(n, -50, 50, nonzero=True) for n in 'pq')
    x = Expression([Term(1, 'a', p), Term(1, 'b', 1)])
    y = Expression([Term(1, 'a', q), Term(1, 'c', 1)])
    same = cx.decide(p == q)

    def listed(terms):
        return sorted(t.base for t in terms)
    cx.check(listed(x.difference(y)) == (['b'] if same else ['a', 'b']),
             'one-sided difference')
    cx.check(listed(y.difference(x)) == (['c'] if same else ['a', 'c']),
             'one-sided difference, swapped')
    cx.check(listed(x.difference(y, symmetric=True))
             == (['b', 'c'] if same else ['a', 'a', 'b', 'c']),
             'symmetric difference')
    l, r = x.difference(y, split=True)
    cx.check(listed(l) == (['b'] if same else ['a', 'b']), 'split, left')
    cx.check(listed(r) == (['c'] if same else ['a', 'c']), 'split, right')
