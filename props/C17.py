"""C17: collections, tables and registries."""
from sx.context import case
from goats.core import iterables, numerical

I = 'goats.core.iterables.'
DIGITS = '0123456789'


def equal(cx, a, b):
    return cx.decide(a == b)


@case('C17', 'any four items, in any pattern of repetition', (I + 'unique',))
def unique(cx):
    n = cx.choice('n', [0, 1, 2, 3, 4])
    items = [cx.int(f'i{k}', 0, 4) for k in range(n)]
    got = list(iterables.unique(*items))
    want = []
    for item in items:
        if not any(equal(cx, item, w) for w in want):
            want.append(item)
    cx.check(len(got) == len(want), 'number of items')
    for a, b in zip(got, want):
        cx.check(a == b, 'first occurrences in order')


@case('C17', 'up to twelve different items, followed by any two items',
      (I + 'unique',))
def unique_of_many(cx):
    n = cx.choice('n', range(5, 13))
    items = list(range(n)) + [cx.int(f'i{k}', 0, 13) for k in range(2)]
    got = list(iterables.unique(*items))
    want = []
    for item in items:
        if not any(equal(cx, item, w) for w in want):
            want.append(item)
    cx.check(len(got) == len(want), 'number of items')
    for a, b in zip(got, want):
        cx.check(a == b, 'first occurrences in order')


NESTED = {
    'x': lambda x, y: x,
    '[x]': lambda x, y: [x],
    '(x,)': lambda x, y: (x,),
    '[[x]]': lambda x, y: [[x]],
    '([(x,)],)': lambda x, y: ([(x,)],),
    '[x, y]': lambda x, y: [x, y],
    '[[x, y]]': lambda x, y: [[x, y]],
    '([x, y],)': lambda x, y: ([x, y],),
    '[[x], y]': lambda x, y: [[x], y],
    '[]': lambda x, y: [],
    '[()]': lambda x, y: [()],
}


@case('C17', 'any two values in eleven kinds of nested lists and tuples',
      (I + 'unwrap', I + 'whole.parse'))
def unwrap(cx):
    x, y = cx.real('x'), cx.real('y')
    form = cx.choice('form', sorted(NESTED))
    wrap = cx.choice('wrap', [None, list, tuple])
    got = iterables.unwrap(NESTED[form](x, y), **(
        {} if wrap is None else {'wrap': wrap}))
    if 'y' in form:
        want = (x, y) if form != '[[x], y]' else ([x], y)
        kind = wrap or (list if form != '([x, y],)' else list)
    elif 'x' in form:
        want, kind = (x,), wrap
    else:
        want = ()
        kind = wrap or (tuple if form == '[()]' else list)
    if kind is None:
        cx.check_same(got, x, 'the value itself')
        return
    cx.check(type(got) is kind, 'type')
    cx.check(len(got) == len(want), 'length')
    for a, b in zip(got, want):
        if isinstance(b, list):
            cx.check(isinstance(a, list) and len(a) == 1, 'nested list')
            cx.check_same(a[0], b[0], 'nested value')
        else:
            cx.check_same(a, b, 'value')


@case('C17', 'any values in lists of up to three by three', (
    I + 'transpose_list',))
def transposed(cx):
    n, m = cx.choice('n', [1, 2, 3]), cx.choice('m', [1, 2, 3])
    a = [[cx.real(f'a{i}{j}') for j in range(m)] for i in range(n)]
    t = iterables.transpose_list(a)
    cx.check(len(t) == m and all(len(r) == n for r in t), 'shape')
    for i in range(n):
        for j in range(m):
            cx.check_same(t[j][i], a[i][j], 'element')
    back = iterables.transpose_list(t)
    for i in range(n):
        for j in range(m):
            cx.check_same(back[i][j], a[i][j], 'twice')


@case('C17', 'lists of up to three numbers of one or two digits, also negative,'
      ' fractional or quoted, with and without spaces',
      (I + 'string_to_list', 'goats.core.numerical.cast'))
def numbers(cx):
    n = cx.choice('n', [0, 1, 2, 3])
    sep = cx.choice('sep', [',', ', ', ' , '])
    form = cx.choice('form', ['{}', "'{}'", '-{}', '{}.5'])
    texts = [cx.text(f't{i}', DIGITS, 1, 2 if i == 0 else 1)
             for i in range(n)]
    text = '['
    for i, t in enumerate(texts):
        head, tail = form.split('{}')
        text = text + (sep if i else '') + head + t + tail
    got = iterables.string_to_list(text + ']')
    cx.check(isinstance(got, list) and len(got) == n, 'number of values')
    for t, x in zip(texts, got):
        want = 0
        for c in t:
            want = want * 10 + digit(cx, c)
        if form == '-{}':
            want = -want
        if form == '{}.5':
            want = want + 0.5
            cx.check(isinstance(x, float), 'real')
        else:
            cx.check(isinstance(x, int), 'integer')
        cx.check_same(x, want, 'value')
    cx.raises(TypeError, iterables.string_to_list, text, label='no bracket')


def digit(cx, c):
    if not cx.symbolic:
        return ord(c) - 48
    from sx import core, strings
    return core.SymInt(strings.elements(c)[0].e - 48) if hasattr(
        core, 'SymInt') else core.SymReal(strings.elements(c)[0].e - 48)


TABLE = (I + 'Table.__call__', I + 'Table.__getitem__', I + 'Table.find')


@case('C17', 'tables of up to four (thorough: five) entries with any values'
      ' under three keys, and requests of one to three keys in any order',
      TABLE, shard=('keys', 9))
def table_requests(cx):
    n = cx.choice('n', cx.bound([2, 3, 4], [2, 3, 4, 5]))
    keys = cx.choice('keys', ['a', 'b', 'ab', 'ba', 'ac', 'abc', 'bca', 'cab',
                              'c'])
    hi = 2
    entries = [{k: cx.int(f'{k}{i}', 0, hi) for k in 'abc'[:max(
        'abc'.index(c) for c in keys) + 1]} for i in range(n)]
    request = {k: cx.int(f'r{k}', 0, hi) for k in keys}
    table = iterables.Table(entries)
    strict = cx.choice('strict', [False, True])
    kept = list(range(n))
    found = None
    for k in keys:
        kept = [i for i in kept if equal(cx, entries[i][k], request[k])]
        if not strict and len(kept) == 1:
            found = kept[0]
            break
    if strict and len(kept) == 1:
        found = kept[0]
    got, err = cx.catch(table, strict=strict, **request)
    if found is not None:
        cx.check(err is None, f'found, but {err!r}')
        cx.check(got is entries[found], 'the unique entry')
    elif len(kept) > 1 and not strict:
        cx.check(isinstance(err, iterables.AmbiguousRequestError), 'ambiguous')
    else:
        cx.check(isinstance(err, iterables.TableLookupError), 'not found')
    cx.raises(iterables.TableKeyError, lambda: table(strict=strict, z=0),
              label='unknown key')


@case('C17', 'tables of up to three entries with any values under two keys',
      TABLE + (I + 'Table.get',))
def table_values(cx):
    n = cx.choice('n', [1, 2, 3])
    entries = [{'a': cx.int(f'a{i}', 0, 2), 'b': cx.int(f'b{i}', 0, 2)}
               for i in range(n)]
    entries[0]['c'] = 5
    table = iterables.Table(entries)
    for k in 'ab':
        got = table[k]
        cx.check(len(got) == n, 'number of values')
        for x, e in zip(got, entries):
            cx.check(x == e[k], 'values of a key')
    if n > 1:
        cx.raises(iterables.TableKeyError, lambda: table['c'],
                  label='a key of one entry')
        cx.check(table.get('c', -1) == (5,) + (-1,) * (n - 1), 'default')
    x = cx.int('x', 0, 2)
    want = [e for e in entries
            if equal(cx, e['a'], x) or equal(cx, e['b'], x)]
    got, err = cx.catch(table.find, x)
    if not want:
        cx.check(isinstance(err, iterables.MissingValueError), 'no value')
        return
    cx.check(err is None and len(got) == len(want), 'number of entries')
    for a, b in zip(got, want):
        cx.check(a is b, 'entries with a value')
    one, err = cx.catch(table.find, x, unique=True)
    if len(want) == 1:
        cx.check(one is want[0], 'unique entry')
    else:
        cx.check(isinstance(err, iterables.AmbiguousValueError), 'not unique')


@case('C17', 'mappings of three keys to any values', (
    I + 'Bijection.__new__', I + 'Bijection.__getitem__',
    I + 'Bijection.invert'))
def bijections(cx):
    cx.hash_mode('const')
    values = [cx.int(f'v{i}', 0, 3) for i in range(3)]
    distinct = all(not equal(cx, values[i], values[j])
                   for i in range(3) for j in range(i))
    pairs = dict(zip('abc', values))
    b, err = cx.catch(iterables.Bijection, pairs)
    if not distinct:
        cx.check(isinstance(err, iterables.InjectiveTypeError), 'repeated')
        return
    cx.check(err is None, 'distinct values')
    inverse = b.invert()
    cx.check(len(b) == len(inverse) == 3, 'length')
    for k, v in pairs.items():
        cx.check(b[k] == v, 'value')
        cx.check(inverse[v] == k, 'inverse')
        cx.check(inverse.invert()[k] == v, 'twice')


@case('C17', 'graphs of up to three connections among three nodes, with any'
      ' weights', (I + 'Connections.add_connection',
                   I + 'Connections.get_weight',
                   I + 'Connections.get_adjacencies'))
def connections(cx):
    n = cx.choice('n', [1, 2, 3])
    pairs = [('a', 'b'), ('b', 'c'), ('a', 'c'), ('b', 'a')]
    graph = iterables.Connections()
    want = {}
    for i in range(n):
        s, e = cx.choice(f'edge{i}', pairs)
        w = cx.real(f'w{i}', lo=0.125, hi=64)
        graph.add_connection(s, e, w)
        want.setdefault((s, e), w)
        want.setdefault((e, s), 1 / w)
    cx.check(len(graph) == len(want), 'number of connections')
    cx.check(graph.nodes == {x for p in want for x in p}, 'nodes')
    for (s, e), w in want.items():
        cx.check((s, e) in graph, 'contains')
        cx.check_close(graph.get_weight(s, e), w, 'weight')
        cx.check_close(graph.get_weight(s, e) * graph.get_weight(e, s), 1,
                       'reciprocal weights')
    for node in 'abc':
        got = graph.get_adjacencies(node)
        cx.check(set(got) == {e for s, e in want if s == node}, 'adjacent')
        for e, w in got.items():
            cx.check_close(w, want[(node, e)], 'adjacent weight')
    cx.raises(KeyError, graph.get_weight, 'a', 'z', label='no connection')


@case('C17', 'four objects registered with any of three names, with or without'
      ' a given name or permission to overwrite', (
          I + 'ObjectRegistry.register', I + 'ObjectRegistry._get_mapping_key',
          I + 'ObjectRegistry._get_default_key', I + 'ObjectRegistry.reset'))
def registries(cx):
    registry = iterables.ObjectRegistry({'g': 0})
    cx.check(registry['g'] == {'object': 0}, 'given object')
    live = {}
    for i in range(cx.bound(3, 4)):
        def f():
            pass
        f.__name__ = f.__qualname__ = cx.choice(f'name{i}', ['f', 'f_1', 'g'])
        how = cx.choice(f'how{i}', ['plain', 'named', 'overwrite', 'meta'])
        x = cx.int(f'x{i}', 0, 9)
        if how == 'plain':
            out = registry.register(f)
        elif how == 'meta':
            out = registry.register(x=x)(f)
        else:
            out = registry.register(name='f', overwrite=how == 'overwrite',
                                    x=x)(f)
        cx.check(out is f, 'decorated object')
        if how == 'overwrite':
            live.pop('f', None)
        keys = [k for k in registry if registry[k]['object'] is f]
        cx.check(len(keys) == 1, 'one key per object')
        cx.check(keys[0] not in live, 'no object is replaced')
        live[keys[0]] = f
        cx.check(len(live) == len(registry) - 1, 'no object is lost')
        for k, v in live.items():
            cx.check(registry[k]['object'] is v, 'earlier objects')
        if how != 'plain':
            cx.check(registry[keys[0]]['x'] == x, 'metadata')
    copy = registry.copy()
    cx.check(dict(copy) == dict(registry), 'copy')
    registry.reset()
    cx.check(list(registry) == ['g'], 'reset')
    cx.check(len(copy) == len(live) + 1, 'independent copy')


class First(Exception):
    pass


class Second(First):
    pass


class Third(Second):
    pass


@case('C17', 'any arguments and substitutes, for three related exceptions of'
      ' which any are known', (I + 'Guard.catch', I + 'Guard.call'))
def guards(cx):
    x, y = cx.real('x'), cx.real('y')
    which = cx.choice('raised', [None, First, Second, Third, KeyError])
    known = cx.choice('known', [(), (First,), (Second,), (First, Third),
                                (Third, First), (First, Second, Third)])
    subs = {t: cx.real(f's{i}') for i, t in enumerate(known)}
    ellipsis = cx.choice('ellipsis', [False, True])

    def call(*args, **kwargs):
        if which is not None:
            raise which('no')
        return args[0] + 1

    guard = iterables.Guard(call)
    for t in known:
        guard.catch(t, ... if ellipsis else subs[t])
    args = cx.choice('args', ['x', 'xy', 'x=', 'kw'])
    a = (x, y) if args == 'xy' else ((x,) if 'x' in args else ())
    k = {} if args in ('x', 'xy') else {'y': y}
    if which is None and not a:
        return
    got, err = cx.catch(guard.call, *a, **k)
    match = None
    for t in () if which is None else which.__mro__:
        if t in known:
            match = t
            break
    if which is None:
        cx.check_same(got, x + 1, 'result')
    elif match is None:
        cx.check(type(err) is which, 'unknown exception')
    elif not ellipsis:
        cx.check(err is None, 'known exception')
        cx.check_same(got, subs[match], 'substitute of the nearest class')
    else:
        cx.check(err is None, 'known exception')
        parts = {'x': lambda: (got,), 'xy': lambda: got,
                 'x=': lambda: (got[0][0], got[1]['y']),
                 'kw': lambda: (got['y'],)}[args]()
        want = {'x': (x,), 'xy': (x, y), 'x=': (x, y), 'kw': (y,)}[args]
        cx.check(len(parts) == len(want), 'arguments')
        for p, q in zip(parts, want):
            cx.check_same(p, q, 'argument')


@case('C17', 'any values, alone or in collections of up to three',
      (I + 'distribute', I + 'whole.parse', I + 'missing',
       I + 'show_at_most'))
def pairs(cx):
    n = cx.choice('n', [0, 1, 2, 3])
    m = cx.choice('m', [None, 0, 1, 2])
    xs = [cx.real(f'x{i}') for i in range(n)]
    y = cx.real('y')
    ys = y if m is None else [cx.real(f'y{i}') for i in range(m)]
    swap = cx.choice('swap', [False, True])
    got = list(iterables.distribute(*((ys, xs) if swap else (xs, ys))))
    others = [y] if m is None else ys
    want = [(b, a) for b in others for a in xs] if swap else [
        (a, b) for a in xs for b in others]
    cx.check(len(got) == len(want), 'number of pairs')
    for p, q in zip(got, want):
        cx.check_same(p[0], q[0], 'first')
        cx.check_same(p[1], q[1], 'second')
    w = iterables.whole(xs)
    cx.check(len(w) == n and len(iterables.whole(y)) == 1, 'whole')
    for a, b in zip(w, xs):
        cx.check_same(a, b, 'members')
    cx.check(not iterables.missing(y), 'numbers are not missing')
    cx.check(iterables.missing(xs) == (n == 0), 'empty lists are missing')
    cx.raises(TypeError, iterables.distribute, y, y, label='two numbers')


@case('C17', 'any text of up to three characters among digits, a sign, a point'
      ' and a letter', ('goats.core.numerical.cast',))
def cast(cx):
    text = cx.text('t', '07-.x', 0, cx.bound(3, 4))
    got = numerical.cast(text, strict=False)
    digits = [c for c in text if not any(
        equal(cx, c, d) for d in '-.x')]
    n = len(text)
    sign = n > 0 and equal(cx, text[0], '-')
    points = [i for i in range(n) if equal(cx, text[i], '.')]
    plain = len(digits) + len(points) + (1 if sign else 0) == n
    valid = plain and digits and len(points) <= 1
    if not valid:
        cx.check(got is None, 'not a number')
        cx.raises(TypeError, numerical.cast, text, label='strict')
        return
    cx.check(isinstance(got, float if points else int), 'type')
    places = n - 1 - points[0] if points else 0
    value = 0
    for c in digits:
        value = value * 10 + digit(cx, c)
    value = value / 10 ** places if points else value
    cx.check_same(got, -value if sign else value, 'value')
    x = cx.real('x')
    cx.check_same(numerical.cast(x), x, 'numbers are unchanged')
