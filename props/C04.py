"""C04: the expression parser reads every well-formed string as written."""
from fractions import Fraction

from sx.context import case
from goats.core import symbolic
from props.monomials import compare, contents

Expression = symbolic.Expression
T = ('goats.core.symbolic.Parser', 'goats.core.symbolic.OperandFactory',
     'goats.core.symbolic.OperatorFactory')
ERRORS = (symbolic.ParsingError, ValueError, ZeroDivisionError)


# -- an independent reference ------------------------------------------------
class Malformed(Exception):
    """The string is outside the documented grammar: nothing is specified."""


class Reader:
    """Recursive descent over the documented grammar of expressions.

    expression := factor (separator factor)*
    separator  := spaces '*' spaces | spaces '/' spaces | space spaces
    factor     := [number] name ['^' number]        2a^3
                | number ['^' number]               2^3
                | '(' expression ')' ['^' number]
    number     := [sign] (digits ['/' digits | '.' digits] | '.' digits)
    """

    def __init__(self, text):
        self.text = text
        self.i = 0

    def peek(self, options):
        return self.i < len(self.text) and self.text[self.i] in options

    def spaces(self):
        n = 0
        while self.peek(' '):
            self.i += 1
            n += 1
        return n

    def expression(self, end):
        total = self.factor()
        while True:
            n = self.spaces()
            if self.i == len(self.text):
                if end or n:
                    raise Malformed
                return total
            if self.peek(')'):
                if not end or n:
                    raise Malformed
                return total
            if self.peek('*'):
                self.i += 1
                self.spaces()
                total = times(total, self.factor())
            elif self.peek('/'):
                self.i += 1
                self.spaces()
                total = times(total, raised(self.factor(), -1))
            elif n:
                if self.peek('+-'):
                    raise Malformed
                total = times(total, self.factor())
            else:
                raise Malformed

    def digits(self):
        start = self.i
        while self.peek('0123456789'):
            self.i += 1
        return self.text[start:self.i]

    def number(self):
        sign = 1
        if self.peek('+-'):
            if self.peek('-'):
                sign = -1
            self.i += 1
        head = self.digits()
        mark = self.i
        if self.peek('.'):
            self.i += 1
            tail = self.digits()
            if not (head or tail):
                raise Malformed
            return sign * Fraction((head or '0') + '.' + (tail or '0'))
        if not head:
            raise Malformed
        if self.peek('/'):
            self.i += 1
            tail = self.digits()
            if not tail:
                self.i = mark
                return sign * Fraction(head)
            return sign * Fraction(head + '/' + tail)
        return sign * Fraction(head)

    def power(self):
        if self.peek('^'):
            self.i += 1
            n = self.number()
            if self.peek('^'):
                raise Malformed
            return n
        return 1

    def factor(self):
        if self.peek('('):
            self.i += 1
            inner = self.expression(True)
            self.i += 1
            return raised(inner, self.power())
        c = None
        if self.peek('+-.0123456789'):
            c = self.number()
        start = self.i
        while self.peek('abcdefghijklmnopqrstuvwxyz'):
            self.i += 1
        name = self.text[start:self.i]
        if name:
            name = name + self.digits()
            return (1 if c is None else c), {name: self.power()}
        if c is None or self.peek('('):
            raise Malformed
        n = self.power()
        return raised((c, {}), n)


def times(x, y):
    powers = dict(x[1])
    for k, v in y[1].items():
        powers[k] = powers.get(k, 0) + v
    return x[0] * y[0], powers


def raised(x, n):
    """x ** n; a non-integral power of a coefficient is left unspecified."""
    if x[0] == 1:
        c = x[0]
    else:
        if n != int(n) or abs(n) > 12:
            raise Malformed
        c = x[0] ** int(n)
    return c, {k: v * n for k, v in x[1].items()}


def examine(cx, text):
    """Compare the parser with the reference on one string."""
    try:
        want, failed = Reader(text).expression(False), None
    except Malformed:
        want, failed = None, None
    except ZeroDivisionError as err:
        want, failed = None, err
    got, err = cx.catch(Expression, text)
    if err is not None:
        cx.check(isinstance(err, ERRORS),
                 'rejected with a parsing or value error')
        cx.check(want is None, 'a well-formed string is accepted')
        return
    if failed is not None:
        cx.check(False, 'division by zero is rejected')
    if want is not None:
        compare(cx, got, want[0], want[1], 'parsed')
    else:
        cx.check(True, 'unspecified')


@case('C04', 'every string of 1 to 3 characters (quick) or 4 (thorough) over'
      ' "ab2/*^() -"', T)
def short_strings(cx):
    text = cx.text('s', 'ab2/*^() -', 1, cx.bound(3, 4))
    examine(cx, text)


DIGITS = '0123456789'


@case('C04', 'name raised to n/m: n of 1 to 2 digits, m of 1 to 3 digits out of'
      ' {0, 1, 7} (quick) or {0, 1, 2, 7, 9} (thorough), either sign', T)
def fractional_exponent(cx):
    sign = cx.choice('sign', ['', '-'])
    n = cx.text('n', DIGITS, 1, 2)
    m = cx.text('m', cx.bound('017', '01279'), 1, 3)
    text = 'a^' + sign + n + '/' + m
    examine(cx, text)


@case('C04', 'decimal exponents and coefficients of up to 2 + 2 digits', T)
def decimals(cx):
    n = cx.text('n', DIGITS, 1, 2)
    m = cx.text('m', DIGITS, 1, 2)
    where = cx.choice('where', ['%sa', 'a^%s', '3 * %s', '(%sb)^2', '-%sa^2',
                                'a^-%s'])
    i = where.index('%s')
    examine(cx, where[:i] + n + '.' + m + where[i + 2:])


@case('C04', 'every string of 1 to 3 (thorough: 4) characters over "-+.17/" as'
      ' the power of a name, a group, a nested group or a constant', T)
def numeral_powers(cx):
    n = cx.text('n', '-+.17/', 1, cx.bound(3, 4))
    where = cx.choice('where', ['a^%s', '(a*b)^%s', '((a / b)^%s c)^-2',
                                '(a)^%s * c', 'c / (a b)^%s', '2^%s * a'])
    i = where.index('%s')
    examine(cx, where[:i] + n + where[i + 2:])


@case('C04', 'coefficients of 1 to 3 digits, in ten positions', T)
def coefficients(cx):
    n = cx.text('n', DIGITS, 1, 3)
    where = cx.choice('where', [
        '%s', '%sa', 'a * %s', 'a / %s', 'b / %sa', '(%sa)^2', '(%sa * b)^-1',
        'b / (%sa)', '%sa^2 / b', '((%sa)^2 / b)^2', '%s^2', '%s^-1 a',
    ])
    i = where.index('%s')
    examine(cx, where[:i] + n + where[i + 2:])


@case('C04', 'denominators of 1 to 3 digits out of {0, 1, 7}', T)
def denominators(cx):
    n = cx.text('n', '017', 1, 3)
    where = cx.choice('where', ['3/%s', '3/%sb', 'a^-2/%s', '3a / %s',
                                '(3/%sa)^-2'])
    i = where.index('%s')
    examine(cx, where[:i] + n + where[i + 2:])


@case('C04', 'scientific notation d.de[+-]d as coefficient or exponent', T)
def scientific(cx):
    n = cx.text('n', DIGITS, 1, 2)
    sign, factor = cx.choice('sign', [('', 100), ('+', 100), ('-', Fraction(1, 100))])
    e = cx.choice('e', ['e', 'E'])
    number = n + '.5' + e + sign + '2'
    value = (Fraction(n) + Fraction(1, 2)) * factor
    compare(cx, Expression(number + 'a'), value, {'a': 1}, 'coefficient')
    compare(cx, Expression('b^' + number), 1, {'b': value}, 'exponent')
    compare(cx, Expression('b / ' + number), 1 / value, {'b': 1}, 'constant')


@case('C04', 'names of 1 to 2 (thorough: 3) characters over letters, "_", "#" and digits', T)
def names(cx):
    name = cx.text('name', 'aZ_#07', 1, cx.bound(2, 3))
    text = cx.choice('where', ['%s', '%s^2', '3%s', '(%s)^-1', 'b1 * %s^2'])
    i = text.index('%s')
    digit = name[0] in DIGITS
    got, err = cx.catch(Expression, text[:i] + name + text[i + 2:])
    if cx.decide(digit):
        cx.check(err is None or isinstance(err, ERRORS), 'error type')
        return
    # a valid name: letters, then optional digits
    seen = False
    for ch in name[1:]:
        if ch in DIGITS:
            seen = True
        elif seen:
            cx.check(err is None or isinstance(err, ERRORS), 'error type')
            return
    cx.check(err is None, 'a valid name is accepted')
    c, powers = {'%s': (1, [(name, 1)]), '%s^2': (1, [(name, 2)]),
                 '3%s': (3, [(name, 1)]), '(%s)^-1': (1, [(name, -1)]),
                 'b1 * %s^2': (1, [(name, 2), ('b1', 1)])}[text]
    got_c, got = contents(got)
    cx.check(got_c == c, 'coefficient')
    cx.check(len(got) == len(powers), 'number of bases')
    for want, n in powers:
        found = [v for k, v in got.items() if k == want]
        cx.check(len(found) == 1, 'the base is the name')
        cx.check(found[0] == n, 'exponent of the name')


@case('C04', 'three factors, any of "*", "/", " " (with or without spaces)'
      ' between them', T)
def operators(cx):
    o = cx.text('o', '*/ ', 1, 2)
    p = cx.text('p', '*/ ', 1, 1)
    f = cx.choice('f', ['b', '2b^-3', '(b*c)', '(b/2c)^2'])
    examine(cx, 'a' + o + f + p + 'd')


@case('C04', 'two nested groups with any one-digit powers; factors a, 2, b/c',
      T)
def nesting(cx):
    n = cx.text('n', DIGITS, 1, 1)
    m = cx.text('m', DIGITS, 1, 1)
    f = cx.choice('f', ['a', '2a', 'a / b', '1'])
    tail = cx.choice('tail', [' * c', ' / c', ''])
    examine(cx, '((' + f + ')^' + n + tail + ')^-' + m + ' * a')


@case('C04', 'group then tail: (a op b)^n op c; spaces anywhere legal', T)
def groups(cx):
    s = cx.choice('s', ['', ' ', '  '])
    o = cx.choice('o', ['*', '/'])
    p = cx.choice('p', ['*', '/'])
    n = cx.text('n', DIGITS, 1, 2)
    examine(cx, '(a' + s + o + s + 'b)^' + n + s + p + s + 'c')


@case('C04', 'sqrt of a name, a group and a constant, alone and after a factor',
      T)
def square_roots(cx):
    n = cx.text('n', DIGITS, 1, 1)
    got = Expression('sqrt(a^' + n + ' / b)')
    compare(cx, got, 1, {'a': Fraction(n) / 2, 'b': Fraction(-1, 2)}, 'sqrt()')


@case('C04', 'operator_order="error": two factors after the first, any operators',
      T)
def operator_order(cx):
    o = cx.choice('o', ['*', '/'])
    p = cx.choice('p', ['*', '/'])
    d = cx.text('d', 'bcd', 1, 1)
    text = 'a ' + o + ' ' + d + ' ' + p + ' e'
    got, err = cx.catch(Expression, text, operator_order='error')
    if o == '/':
        kind = symbolic.RatioError if p == '/' else symbolic.ProductError
        cx.check(isinstance(err, kind), 'ambiguous order is rejected')
    else:
        cx.check(err is None, 'unambiguous order is accepted')
        cx.check(len(list(got)) == 3, 'three bases')
    got, err = cx.catch(Expression, '(a ' + o + ' ' + d + ') ' + p + ' e',
                        operator_order='error')
    cx.check(err is None, 'grouping resolves the ambiguity')


@case('C04', 'other tokens: "." for "*", "|" for "/", "[" and "]", "!" for "^"',
      T)
def other_tokens(cx):
    n = cx.text('n', DIGITS, 1, 2)
    got = Expression('[a . b]!' + n + ' | c', multiply='.', divide='|',
                     opening='[', closing=']', raising='!')
    v = Fraction(n)
    compare(cx, got, 1, {'a': v, 'b': v, 'c': -1}, 'parsed')


@case('C04', 'lists of strings multiply; empty input is one', T)
def iterables(cx):
    n = cx.text('n', DIGITS, 1, 2)
    v = Fraction(n)
    got = Expression(['a^' + n, 'b / c', '2'])
    compare(cx, got, 2, {'a': v, 'b': 1, 'c': -1}, 'list')
    got = Expression(('a / b', 'a^' + n))
    compare(cx, got, 1, {'a': v + 1, 'b': -1}, 'tuple')
    for empty in ('', [], ()):
        compare(cx, Expression(empty), 1, {}, 'empty')


@case('C04', 'one operand made from a string, or from a coefficient, a base and'
      ' an exponent: any rational coefficient, powers of one digit', T)
def operands(cx):
    n = cx.text('n', DIGITS, 1, 1)
    m = cx.text('m', DIGITS, 1, 1)
    p, q = Fraction(n), Fraction(m)
    create = symbolic.OperandFactory().create

    def one(made, c, e, note):
        cx.check(isinstance(made, symbolic.Term), note + ': a term')
        cx.check(made.base == 'a', note + ': base')
        cx.check_close(made.coefficient, c, note + ': coefficient')
        cx.check(made.exponent == e, note + ': exponent')

    which = cx.choice('which', ['nested', 'scaled', 'three', 'pairs', 'kept'])
    if which == 'nested':
        one(create('(a^' + n + ')^' + m), 1, p * q, '(a^p)^q')
        one(create('2(a^' + n + ')^' + m), 2, p * q, '2(a^p)^q')
        one(create('(a^' + n + ')', q), 1, p * q, '(a^p), q')
    elif which == 'scaled':
        one(create('(2a^' + n + ')^' + m), Fraction(2) ** q, p * q, '(2a^p)^q')
        one(create('(2a^' + n + ')^-' + m), Fraction(2) ** -q, -p * q,
            '(2a^p)^-q')
    elif which == 'three':
        c = cx.choice('c', [Fraction(3), Fraction(-1, 2), 1])
        one(create(c, 'a', q), c, q, 'c, a, q')
        one(create(c, 'a^' + n, q), c, p * q, 'c, a^p, q')
        one(create(c, '2a^' + n, q), c * Fraction(2) ** q, p * q,
            'c, 2a^p, q')
    elif which == 'pairs':
        c = cx.choice('c', [Fraction(3), Fraction(-1, 2), 1])
        one(create('a^' + n, q), 1, p * q, 'a^p, q')
        one(create(c, '2a^' + n), c * 2, p, 'c, 2a^p')
        made = create(c, q)
        # the exponent is that of the (absent) base, not of the coefficient
        cx.check_close(made.coefficient, c, 'c, q: coefficient')
        cx.check(made.base == '1', 'c, q: no base')
        cx.raises(symbolic.OperandValueError, create, c, 'a', q, q,
                  label='four parts')
        cx.raises(symbolic.OperandTypeError, create, 'a', None,
                  label='a missing part')
    else:
        # the least work: the contents of a group are left alone
        made = create('2(a * b^' + n + ')^' + m)
        cx.check(not isinstance(made, symbolic.Term), 'a general operand')
        cx.check_close(made.coefficient, 2, 'coefficient of a group')
        cx.check(made.base == 'a * b^' + n, 'the group')
        cx.check(made.exponent == q, 'exponent of a group')


@case('C04', 'the base of a term: any text of 1 to 3 characters over "aZ_7*^( "'
      ' that does not start with a digit, given in three ways', T)
def term_bases(cx):
    name = cx.text('name', 'aZ_7*^( ', 1, 3)
    cx.assume(name[0] != '7')
    form = cx.choice('form', [
        lambda s: symbolic.Term(s), lambda s: symbolic.Term(2, s, 3),
        lambda s: symbolic.Term(base=s, exponent=2)])
    got, err = cx.catch(form, name)
    seen, valid = False, True
    for ch in name:
        if ch in '*^( ':
            valid = False
        elif ch == '7':
            seen = True
        elif seen:
            valid = False
    if valid:
        cx.check(err is None, 'a name is a base')
        cx.check(got.base == name, 'the base is the name')
    else:
        cx.check(isinstance(err, ValueError), 'anything else is rejected')
