"""Reference arithmetic of monomials, independent of goats."""
import fractions


def contents(expr):
    """(coefficient, {base: exponent}) of an expression, from its terms."""
    c = fractions.Fraction(1)
    powers = {}
    for term in expr:
        c = c * term.coefficient
        if term.base != '1':
            powers[term.base] = powers.get(term.base, 0) + term.exponent
    return c, powers


def compare(cx, expr, c, powers, label):
    """Check that an expression is c * prod(base ** exponent)."""
    got_c, got = contents(expr)
    cx.check_close(got_c, c, f'{label}: coefficient')
    for base in sorted(set(got) | set(powers)):
        cx.check_same(got.get(base, 0), powers.get(base, 0),
                      f'{label}: exponent of {base}')


def canonical(cx, expr, label):
    """Check the normal form of an expression's list of terms."""
    terms = list(expr)
    cx.check(len(terms) == len(expr) and len(terms) > 0,
             f'{label}: number of terms')
    bases = [t.base for t in terms]
    for i, t in enumerate(terms):
        for j in range(i):
            cx.check(cx.negate(bases[i] == bases[j]),
                     f'{label}: a base appears once')
        if t.base == '1':
            cx.check(i == 0, f'{label}: the constant comes first')
            if len(terms) > 1:
                cx.check(t.coefficient != 1,
                         f'{label}: a unit constant is dropped')
        else:
            cx.check(t.exponent != 0, f'{label}: zero powers are dropped')
            cx.check(t.coefficient == 1,
                     f'{label}: the coefficient is in the constant')
    variables = [t for t in terms if t.base != '1']
    for a, b in zip(variables, variables[1:]):
        cx.check(cx.either(a.exponent > b.exponent,
                           cx.both(a.exponent == b.exponent, a.base < b.base)),
                 f'{label}: powers descend, ties are alphabetical')
