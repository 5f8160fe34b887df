"""C20: metadata of results."""
import operator as standard

from sx.context import case
from goats.core import metadata
from goats.core import observing
from goats.core import utilities

M = 'goats.core.metadata.'
U = 'goats.core.utilities.'


def axes(cx, label, most, alphabet='xyz'):
    """Any names of up to ``most`` axes."""
    n = cx.choice(f'{label} length', range(most + 1))
    return [cx.text(f'{label}{i}', alphabet, minlen=1, maxlen=1)
            for i in range(n)]


def distinct(items):
    out = []
    for i in items:
        if not any(i == j for j in out):
            out.append(i)
    return out


def same(cx, a, b):
    a, b = list(a), list(b)
    if len(a) != len(b):
        return False
    return cx.both(*(x == y for x, y in zip(a, b)))


D = M + 'Dimensions.'


@case('C20', 'any names of up to three axes in each of two objects', (
    D + 'merge', D + '__eq__', D + '__add__', D + '__mul__'),
    shard=('operation', 7))
def dimensions(cx):
    cx.hash_mode('list')
    operation = cx.choice('operation', ('mul', 'truediv', 'merge', 'add',
                                        'sub', 'eq', 'pow'))
    a = axes(cx, 'a', 2)
    b = axes(cx, 'b', 2)
    x = metadata.Dimensions(*a)
    y = metadata.Dimensions(*b)
    if operation in ('mul', 'truediv', 'merge'):
        f = {'merge': lambda p, q: p.merge(q)}.get(
            operation, getattr(standard, operation, None))
        expected = distinct(a + b)
        cx.check(same(cx, f(x, y), expected),
                 'products have the distinct axes of their factors in order')
        cx.check(same(cx, f(x, 2.5), distinct(a)),
                 'numbers have no axes')
        if operation == 'mul':
            cx.check(same(cx, 2.5 * x, distinct(a)), 'numbers have no axes')
    if operation in ('add', 'sub'):
        f = getattr(standard, operation)
        result, err = cx.catch(f, x, y)
        if cx.decide(same(cx, a, b)):
            cx.check(err is None and same(cx, result, a),
                     'sums have the axes of their terms')
        else:
            cx.check(isinstance(err, TypeError),
                     'terms with different axes are errors')
    if operation == 'eq':
        equal = same(cx, a, b)
        cx.check((x == y) == equal, 'equal if the names are, in order')
        cx.check((x != y) == cx.negate(equal), 'not equal otherwise')
        cx.check((x == tuple(b)) == equal, 'equal to a tuple of the names')
        cx.check((x == b) == equal, 'equal to a list of the names')
        if b:
            cx.check((x == b[0]) == same(cx, a, b[:1]),
                     'equal to the name of the only axis')
        if len(b) == 2:
            cx.check(cx.negate(x == b[0] + b[1]),
                     'the name of one axis is not those of two')
    if operation == 'pow':
        p = cx.real('p', -4, 4)
        cx.check(same(cx, x ** p, a), 'powers have the axes of the base')
        for f in (abs, standard.pos, standard.neg):
            cx.check(same(cx, f(x), a), 'unary operations keep the axes')
        for i in range(len(a)):
            cx.check(x[i] == a[i], 'the name of each axis')
        cx.check(cx.both(len(x) == len(a), *(n in x for n in a)),
                 'all of the names')
        cx.raises(TypeError, metadata.Dimensions, *(a + [1]),
                  label='names are strings')
        cx.raises(TypeError, lambda: x ** y, label='powers are numbers')


class Plain:
    """An object without attributes."""


class A:
    def __init__(self, **kwargs):
        for k, v in kwargs.items():
            setattr(self, k, v)


class B(A):
    pass


class C:
    pass


O = M + 'Operation.'


def some(cx, label, options):
    return [t for i, t in enumerate(options)
            if cx.choice(f'{label} {i}', (False, True))]


def inherits(types, rule):
    return all(issubclass(t, r) for t, r in zip(types, rule))


@case('C20', 'any combination of supported and suppressed pairs of three types',
      (O + 'support', O + 'suppress', O + 'supports', O + 'copy',
       O + '__eq__'), shard=('query', 9))
def supported_types(cx):
    query = cx.choice('query', [(s, t) for s in (A, B, C) for t in (A, B, C)])
    pairs = [(A, A), (A, C), (C, B)]
    yes = some(cx, 'supported', pairs)
    no = some(cx, 'suppressed', pairs)
    symmetric = cx.choice('symmetric', (False, True))
    o = metadata.Operation(A, 'p', name='add')
    for rule in yes:
        o.support(*rule, symmetric=symmetric)
    for rule in no:
        o.suppress(*rule, symmetric=symmetric)
    if symmetric:
        yes = yes + [r[::-1] for r in yes]
        no = no + [r[::-1] for r in no]
    expected = not any(inherits(query, r) for r in no) and (
        any(inherits(query, r) for r in yes) or A in query)
    copied = o.copy()
    for this in (o, copied):
        cx.check(this.supports(*query) == expected,
                 'suppressed types, then supported types, then the own type')
        cx.check(this.implemented == bool(yes), 'implemented if supported')
        if yes:
            cx.check(not this.supports(A), 'the number of types')
    cx.check(copied == o, 'copies are equal')
    x = B(p=cx.real('x')) if query[0] is B else (
        A(p=cx.real('x')) if query[0] is A else C())
    y = B(p=cx.real('y')) if query[1] is B else (
        A(p=cx.real('y')) if query[1] is A else C())
    result, err = cx.catch(o.evaluate, x, y)
    if not expected:
        cx.check(isinstance(err, metadata.OperandTypeError),
                 'unsupported operands are errors')
    elif query[0] is not C and query[1] is not C:
        cx.check(err is None, 'supported operands')
        cx.check_close(result['p'], x.p + y.p, 'the sum of the values')
    copied.support(C, C)
    copied.suppress(B, B)
    cx.check(o.supports(*query) == expected, 'copies are independent')


@case('C20', 'any combination of two supported and two suppressed pairs of four'
      ' types, given one by one or in groups (tuples or lists), symmetric or'
      ' not', (O + 'support', O + 'suppress', O + 'supports'),
      shard=('first', 3))
def groups_of_types(cx):
    kind = cx.choice('kind', (tuple, list, None))
    first = cx.choice('first', [(A, C), (C, int), (B, B)])
    second = cx.choice('second', [(C, C), (int, A), (int, C)])
    third = cx.choice('third', [(C, int), (B, A)])
    rules = {}
    o = metadata.Operation(str, 'p', name='add')
    for label, method in (('support', o.support), ('suppress', o.suppress)):
        symmetric = cx.choice(f'{label} symmetric', (False, True))
        given = [first, second] if label == 'support' else [third, (C, C)]
        if kind is None:
            for rule in given:
                result = method(*rule, symmetric=symmetric)
        else:
            result = method(*map(kind, given), symmetric=symmetric)
        cx.check(result is o, 'returns the operation')
        rules[label] = given + [r[::-1] for r in given if symmetric]
    for s in (A, B, C, int):
        for t in (A, B, C, int):
            expected = any(inherits((s, t), r) for r in rules['support']) \
                and not any(inherits((s, t), r) for r in rules['suppress'])
            cx.check(o.supports(s, t) == expected, 'supports each pair')


@case('C20', 'any values of two attributes of two operands, of which any may be'
      ' missing', (O + 'apply', O + 'evaluate', M + 'Operator.__call__',
                   M + 'OperatorFactory.operations'))
def operators(cx):
    name = cx.choice('operation', ('add', 'subtract', 'mul', 'true divide',
                                   'neg', 'absolute', 'power', 'lt', 'int'))
    one = name in ('neg', 'absolute', 'int')
    p, q = cx.real('p', 1, 100), cx.real('q', -100, 100)
    r, s = cx.real('r', 1, 100), cx.real('s', 1, 100)
    x = A(p=p, q=q)
    y = A(p=r, q=s)
    factory = metadata.OperatorFactory(A, 'p')
    if cx.choice('registered', ('before', 'after')) == 'after':
        operation = factory[name]
        factory.register('q')
    else:
        factory.register('q')
        operation = factory[name]
    if name == 'power':
        n = cx.choice('n', (2, 1))
        result = operation.evaluate(x, n)
        cx.check_close(result['p'], p ** n, 'the power of a value')
        cx.check_close(result['q'], q ** n, 'the power of a value')
        return
    result = operation.evaluate(x) if one else operation.evaluate(x, y)
    if name in ('lt', 'int'):
        cx.check(result is None, 'comparisons have no metadata')
        return
    f = {'add': standard.add, 'subtract': standard.sub, 'mul': standard.mul,
         'true divide': standard.truediv, 'neg': standard.neg,
         'absolute': abs}[name]
    cx.check(set(result) == {'p', 'q'}, 'one value for each attribute')
    cx.check_close(result['p'], f(p) if one else f(p, r),
                   'the operation on one attribute')
    cx.check_close(result['q'], f(q) if one else f(q, s),
                   'the operation on the other attribute')
    g = factory.implement(lambda a, b: a * 2 + b)
    got = g(x, y)
    cx.check_close(got['p'], 2 * p + r, 'the given function of the values')
    cx.check_close(got['q'], 2 * q + s, 'the given function of the values')


@case('C20', 'any values of two attributes of up to three objects, of which any'
      ' may be missing', (M + 'consistent', M + 'OperatorFactory.check',
                          M + 'OperatorFactory.consistent',
                          M + 'Operands.agree', M + 'Operands.getall',
                          M + 'Operands.getany', M + 'Operands.allhave',
                          U + 'equal_attrs', U + 'getattrval'))
def agreement(cx):
    n = cx.choice('count', (1, 2, 3))
    objects, ps, qs = [], [], []
    for i in range(n):
        x = A()
        if cx.choice(f'p{i} given', (True, False)):
            x.p = cx.real(f'p{i}')
            ps.append(x.p)
        if cx.choice(f'q{i} given', (True, False)) if i == 0 else True:
            x.q = cx.real(f'q{i}')
            qs.append(x.q)
        objects.append(x)
    agree = [cx.both(True, *(v == vs[0] for v in vs)) for vs in (ps, qs)]
    cx.check(metadata.consistent('p', *objects) == agree[0],
             'consistent if all given values are equal')
    factory = metadata.OperatorFactory(A, 'p', 'q')
    cx.check(factory.consistent(*objects) == cx.both(*agree),
             'consistent if all attributes are')
    _, err = cx.catch(factory.check, *objects)
    cx.check((err is None) == cx.both(*agree), 'inconsistency is an error')
    cx.check(err is None or isinstance(err, ValueError),
             'inconsistency is an error')
    cx.check(utilities.equal_attrs('p', *objects) ==
             cx.both(agree[0], len(ps) == n),
             'equal if all have the attribute with the same value')
    operands = metadata.Operands(*objects)
    cx.check(operands.allhave('p') == (len(ps) == n), 'all have it')
    cx.check(operands.allhave('p', 'q') == (len(ps) == len(qs) == n),
             'all have both')
    found = operands.find('p')
    cx.check(len(found) == len(ps) and all(f.p is v
                                           for f, v in zip(found, ps)),
             'the objects that have it')
    if len(ps) == n:
        cx.check(operands.agree('p') == agree[0], 'all values agree')
        cx.check(operands.agree('p', strict=True) == agree[0],
                 'all values agree')
        cx.check(all(v is w for v, w in zip(operands.getall('p'), ps)),
                 'all values in order')
    elif n > 1:
        cx.raises(AttributeError, operands.agree, 'p', strict=True,
                  label='missing attributes')


class Holder:
    def __init__(self, value):
        self.value = value
        self.total = 0

    def scaled(self, factor=1, shift=0):
        return self.value * factor + shift

    def assign(self, value, scale=1):
        self.total = value * scale


@case('C20', 'any values of attributes, arguments and keyword arguments', (
    U + 'getattrval', U + 'setattrval', U + 'equal_attrs'))
def attributes(cx):
    v, a, b = cx.real('v'), cx.real('a'), cx.real('b')
    x = Holder(v)
    cx.check_same(utilities.getattrval(x, 'value'), v, 'the attribute')
    cx.check_same(utilities.getattrval(x, 'scaled', a, shift=b), v * a + b,
                  'the result of a method')
    cx.check_same(utilities.getattrval(a, 'value'), a,
                  'the object if there is no attribute')
    utilities.setattrval(x, 'value', a)
    cx.check_same(x.value, a, 'the new value')
    utilities.setattrval(x, 'assign', a, scale=b)
    cx.check_same(x.total, a * b, 'the value given to a method')
    utilities.setattrval(x, 'assign', value=b)
    cx.check_same(x.total, b, 'the value given to a method by name')
    cx.raises(AttributeError, utilities.setattrval, x, 'missing', a,
              label='missing attributes')
    cx.raises(ValueError, utilities.equal_attrs, 'value',
              label='nothing to compare')
    cx.check(utilities.equal_attrs('value', Holder(v), Holder(a), Holder(b))
             == cx.both(v == a, v == b), 'equal values')


N = M + 'Name.'


def product(cx, xs, symbol, ys):
    return [i + symbol + j for i in xs for j in ys]


def same_names(cx, name, expected):
    """The name has exactly the expected aliases."""
    found = list(name)
    return cx.both(
        *(cx.either(*(same(cx, f, e) for e in expected)) for f in found),
        *(cx.either(*(same(cx, f, e) for f in found)) for e in expected),
    )


@case('C20', 'any names with up to two aliases of one letter each', (
    N + '_implement', N + '__eq__', 'goats.core.aliased.Group.__eq__'),
    shard=('operation', 6))
def names(cx):
    cx.hash_mode('list')
    operation = cx.choice('operation', ('mul', 'truediv', 'pow', 'add', 'sub',
                                        'neg'))
    letters = 'abAB'
    a = [cx.text(f'a{i}', letters, minlen=1, maxlen=1)
         for i in range(cx.choice('a length', (1, 2)))]
    b = [cx.text(f'b{i}', letters, minlen=1, maxlen=1)
         for i in range(cx.choice('b length', (1, 2)))]
    if len(a) == 2:
        cx.assume(cx.negate(a[0] == a[1]))
    if len(b) == 2:
        cx.assume(cx.negate(b[0] == b[1]))
    x, y = metadata.Name(*a), metadata.Name(*b)
    equal = same_names(cx, a, b)
    cx.check((x == y) == equal, 'equal if the aliases are, in any order')
    cx.check((x != y) == cx.negate(equal), 'not equal otherwise')
    for n in a + b:
        cx.check((n in x) == cx.either(*(n == i for i in a)),
                 'contains its aliases')
    empty = metadata.Name('')
    if operation == 'neg':
        cx.check(same_names(cx, -x, ['-' + i for i in a]), 'negative')
        cx.check(same_names(cx, +x, ['+' + i for i in a]), 'positive')
        cx.check(same_names(cx, abs(x), ['abs(' + i + ')' for i in a]),
                 'absolute value')
        cx.check(same_names(cx, round(x), ['round(' + i + ')' for i in a]),
                 'rounded value')
        cx.check(same_names(cx, x, a), 'operations do not change a name')
        z = metadata.Name(*a)
        cx.check(same_names(cx, z.add(b), a + b), 'all aliases')
        return
    f = pow if operation == 'pow' else getattr(standard, operation)
    s = {'mul': ' * ', 'truediv': ' / ', 'pow': '^', 'add': ' + ',
         'sub': ' - '}[operation]
    result = f(x, y)
    if cx.decide(equal):
        expected = a if operation in ('add', 'sub') else [
            i + s + i for i in a]
    else:
        expected = product(cx, a, s, b)
    cx.check(same_names(cx, result, expected), 'the name of the result')
    cx.check(not f(x, empty), 'no name if one has none')
    cx.check(not f(empty, x), 'no name if one has none')
    if operation in ('add', 'sub'):
        cx.raises(TypeError, f, x, 2, label='sums with numbers')
        cx.raises(TypeError, f, 2, x, label='sums with numbers')
    else:
        k = cx.choice('k', (2, 3, -1))
        cx.check(same_names(cx, f(x, k), [i + s + str(k) for i in a]),
                 'the number in the name')
        cx.check(same_names(cx, f(k, x), [str(k) + s + i for i in a]),
                 'the number in the name')
        for one in (1, '1'):
            cx.check(same_names(cx, f(x, one), a), 'not the number one')
    cx.check(same_names(cx, x, a), 'operations do not change a name')


P = 'goats.core.observing.Parameters.'


@case('C20', 'any names of up to three parameters in each of two objects', (
    P + '_init', P + 'merge', P + '__eq__', P + '__hash__', P + '__pow__'),
    shard=('operation', 4))
def parameters(cx):
    cx.hash_mode('list')
    operation = cx.choice('operation', ('mul', 'truediv', 'eq', 'other'))
    a = axes(cx, 'a', 3 if operation == 'eq' else 2)
    b = axes(cx, 'b', 2)
    x = observing.Parameters(*a)
    y = observing.Parameters(b)
    da, db = distinct(a), distinct(b)
    cx.check(same(cx, list(x), da), 'the distinct names in order')
    if operation in ('mul', 'truediv'):
        f = getattr(standard, operation)
        cx.check(same(cx, list(f(x, y)), distinct(a + b)),
                 'products have the distinct parameters of their factors')
        cx.check(same(cx, list(f(x, 2.5)), da), 'numbers have no parameters')
        cx.check(same(cx, list(x), da), 'the factor stays the same')
    elif operation == 'eq':
        equal = cx.both(len(da) == len(db), *(
            cx.either(*(i == j for j in db)) for i in da))
        cx.check((x == y) == equal, 'equal if the names are')
        cx.check((x != y) == cx.negate(equal), 'not equal otherwise')
        cx.check((x == db) == equal, 'equal to a list of the names')
        if len(b) == 2:
            twice = cx.both(len(da) == 2, *(
                cx.either(*(i == j for j in b)) for i in da))
            cx.check((x == b) == twice, 'equal to a list of all names')
        if b:
            cx.check((x == b[0]) == same(cx, da, b[:1]),
                     'equal to the only name')
    else:
        p = cx.real('p', -4, 4)
        cx.check(same(cx, list(x ** p), da), 'powers')
        cx.check(same(cx, list(-x), da), 'negated')
        cx.check(same(cx, list(abs(x)), da), 'absolute')
        cx.check(same(cx, list(x + x), da), 'sum with itself')
        cx.check(len(x) == len(da), 'number of names')


@case('C20', 'two orders of three parameters: equal, with equal hashes', (
    P + '__eq__', P + '__hash__'))
def parameters_hash(cx):
    a = [cx.text(n, 'xyz', 1, 1) for n in 'abc']
    order = cx.choice('order', [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0),
                                (2, 0, 1), (2, 1, 0)])
    k = cx.choice('k', [1, 2, 3])
    x = observing.Parameters(*a[:k])
    y = observing.Parameters(*[a[i] for i in order if i < k])
    cx.check(x == y, 'equal')
    cx.check(cx.hash_of(x) == cx.hash_of(y), 'equal hashes')
