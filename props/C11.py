"""C11: mappings with aliased keys."""
import itertools

from sx.context import case
from goats.core import aliased

T = ('goats.core.aliased.Group', 'goats.core.aliased.Groups',
     'goats.core.aliased.Mapping', 'goats.core.aliased.MutableMapping',
     'goats.core.aliased.NameMap')


class Value:
    """A distinguishable value."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


def distinct(cx, keys):
    for a, b in itertools.combinations(keys, 2):
        cx.assume(a != b)


def same(cx, a, b):
    return cx.decide(a == b)


def member(cx, key, keys):
    return any(same(cx, key, k) for k in keys)


class Model:
    """The reference: a list of [keys, value] with disjoint keys."""

    def __init__(self, cx, items=()):
        self.cx = cx
        self.items = [[list(k), v] for k, v in items]

    def find(self, key):
        for item in self.items:
            if member(self.cx, key, item[0]):
                return item

    def keys(self):
        return [k for keys, _ in self.items for k in keys]


def verify(cx, m, model, probes=(), label=''):
    """m behaves exactly like the model."""
    keys = model.keys()
    cx.check(len(m) == len(keys), f'{label}len')
    cx.check(len(list(m)) == len(keys), f'{label}number of keys')
    for k in m:
        cx.check(model.find(k) is not None, f'{label}iteration: known key')
    for items, v in model.items:
        for k in items:
            cx.check(k in m, f'{label}contains its keys')
            cx.check(m[k] is v, f'{label}value')
            rest = m.alias(k)
            cx.check(len(rest) == len(items) - 1, f'{label}alias: number')
            cx.check(k not in rest, f'{label}alias: others only')
            group = m.alias(k, include=True)
            cx.check(len(group) == len(items), f'{label}alias: all')
            for i in items:
                cx.check(i in group, f'{label}alias: each')
            cx.check(m[group] is v, f'{label}value by group')
    for p in probes:
        item = model.find(p)
        cx.check((p in m) == (item is not None), f'{label}contains')
        r, err = cx.catch(m.__getitem__, p)
        if item is None:
            cx.check(isinstance(err, KeyError), f'{label}unknown key')
            cx.check(m.get(p, 0) == 0, f'{label}get')
        else:
            cx.check(err is None and r is item[1], f'{label}look-up')
    views(cx, m, model, label)


def views(cx, m, model, label=''):
    flat = [(k, v) for keys, v in model.items for k in keys]
    cx.check(len(m.keys()) == len(m.values()) == len(m.items()) == len(flat),
             f'{label}views: len')
    got = list(m.items())
    cx.check(len(got) == len(flat), f'{label}items')
    for k, v in got:
        item = model.find(k)
        cx.check(item is not None and item[1] is v, f'{label}items')
    count = {}
    for v in m.values():
        count[v.name] = count.get(v.name, 0) + 1
    want = {}
    for _, v in flat:
        want[v.name] = want.get(v.name, 0) + 1
    cx.check(count == want, f'{label}values')
    groups = list(m.items(aliased=True))
    cx.check(len(groups) == len(model.items), f'{label}groups')
    cx.check(len(m.keys(aliased=True)) == len(model.items), f'{label}groups')
    for g, v in groups:
        item = model.find(next(iter(g)))
        cx.check(item[1] is v and len(g) == len(item[0]), f'{label}groups')
    d = m.flat
    cx.check(len(d) == len(flat), f'{label}flat')
    for k, v in flat:
        cx.check(d[k] is v, f'{label}flat: value')


V = [Value(f'v{i}') for i in range(8)]
SHAPES = [(1,), (2,), (1, 1), (2, 1), (3,), (2, 2), (1, 2, 1), (3, 1)]


def items(cx, shape, name='k'):
    """[(keys, value)] with distinct symbolic keys."""
    n = sum(shape)
    keys = [cx.key(f'{name}{i}') for i in range(n)]
    distinct(cx, keys)
    out, start = [], 0
    for i, s in enumerate(shape):
        out.append((keys[start:start + s], V[i]))
        start += s
    return out


def key_of(keys):
    return keys[0] if len(keys) == 1 else tuple(keys)


BUILD = {
    'groups': lambda kv: aliased.Mapping({key_of(k): v for k, v in kv}),
    'mutable': lambda kv: aliased.MutableMapping(
        {key_of(k): v for k, v in kv}),
    'aliases': lambda kv: aliased.Mapping(
        {k[0]: v for k, v in kv},
        aliases=aliased.Groups(*[tuple(k) for k, _ in kv])),
    'last name': lambda kv: aliased.Mapping(
        {k[-1]: v for k, v in kv},
        aliases=aliased.Groups(*[tuple(k) for k, _ in kv])),
    'mapping': lambda kv: aliased.Mapping(
        {k[0]: v for k, v in kv},
        aliases=aliased.Mapping({key_of(k): 0 for k, _ in kv})),
    'copy': lambda kv: aliased.Mapping(
        {key_of(k): v for k, v in kv}).copy(),
    'instance': lambda kv: aliased.Mapping(
        aliased.MutableMapping({key_of(k): v for k, v in kv})),
    'Group keys': lambda kv: aliased.Mapping(
        {aliased.Group(*k): v for k, v in kv}),
    'merged': lambda kv: aliased.Mapping({key_of(kv[0][0]): kv[0][1]})
    | aliased.Mapping({key_of(k): v for k, v in kv[1:]}),
    'merged, updating': lambda kv: aliased.Mapping(
        {key_of(k): V[7] for k, v in kv})
    | aliased.Mapping({key_of(k[::-1]): v for k, v in kv}),
}


@case('C11', 'mappings of up to three groups of up to three keys each, all keys'
      ' arbitrary and distinct; ten ways of building one; every operation of'
      ' the mapping, looking up one more arbitrary key', T, shard=('build', 5))
def look_up(cx):
    kv = items(cx, cx.choice('shape', SHAPES))
    m = BUILD[cx.choice('build', list(BUILD))](kv)
    verify(cx, m, Model(cx, kv), [cx.key('probe')])


INNER = {
    'aliases': lambda d: aliased.Mapping(d['aliases']),
    'explicit': lambda d: aliased.Mapping(d['aliases'], aliases='aliases'),
    'custom': lambda d: aliased.Mapping(d['other'], aliases='other'),
    'fromkeys': lambda d: aliased.Mapping.fromkeys(d['aliases'], value=V[7]),
    'fromkeys groups': lambda d: aliased.Mapping.fromkeys(
        aliased.Groups(*d['groups']), value=V[7]),
    'fromkeys list': lambda d: aliased.Mapping.fromkeys(
        d['groups'], value=V[7]),
    'squeezed': lambda d: aliased.Mapping(d['aliases']).squeeze(),
    'squeezed mutable': lambda d: aliased.MutableMapping(
        d['aliases']).squeeze(strict=True),
}


@case('C11', 'aliases given inside the values, under "aliases" or another name;'
      ' keys of another mapping; up to three groups of up to three arbitrary'
      ' distinct keys', T, shard=('how', 4))
def inner(cx):
    kv = items(cx, cx.choice('shape', SHAPES))
    how = cx.choice('how', list(INNER))

    def given(name):
        out = {}
        for k, v in kv:
            out[k[0]] = {name: tuple(k[1:]), 'value': v}
            if len(k) == 1 and cx.symbolic is not None:
                out[k[0]] = {'value': v}
        return out
    table = {'aliases': given('aliases'), 'other': given('other'),
             'groups': [tuple(k) for k, _ in kv]}
    if how in ('aliases', 'squeezed', 'squeezed mutable') and all(
            len(k) == 1 for k, _ in kv):
        cx.exclude('no aliases')
    m = INNER[how](table)
    if how.startswith('fromkeys'):
        model = Model(cx, [(k, V[7]) for k, _ in kv])
    elif how.startswith('squeezed'):
        model = Model(cx, kv)
    else:
        for k, v in kv:
            for i in k:
                cx.check(m[i] == {'value': v}, 'inner value')
                cx.check(list(m[i]) == ['value'], 'inner keys')
        wrapped = [(k, m[k[0]]) for k, _ in kv]
        for k, d in wrapped:
            d = dict(d)
        cx.check(len(m) == sum(len(k) for k, _ in kv), 'len')
        for k, _ in kv:
            group = m.alias(k[0], include=True)
            cx.check(len(group) == len(k), 'group')
            for i in k:
                cx.check(i in group, 'group member')
        return
    verify(cx, m, model, [cx.key('probe')])


OPS = ['set', 'delete', 'alias', 'pop', 'setdefault']


def step(cx, m, model, i, last):
    op = cx.choice(f'op{i}', OPS + ['alias two'] if last else OPS)
    k = cx.key(f'a{i}')
    item = model.find(k)
    v = V[i + 3]
    if op == 'set':
        m[k] = v
        if item is None:
            model.items.append([[k], v])
        else:
            item[1] = v
    elif op == 'setdefault':
        r = m.setdefault(k, v)
        if item is None:
            model.items.append([[k], v])
            cx.check(r is v, 'setdefault: new')
        else:
            cx.check(r is item[1], 'setdefault: existing')
    elif op in ('delete', 'pop'):
        r, err = cx.catch(m.__delitem__ if op == 'delete' else m.pop, k)
        if item is None:
            cx.check(isinstance(err, KeyError), f'{op}: unknown')
        else:
            cx.check(err is None, f'{op}: known')
            if op == 'pop':
                cx.check(r is item[1], 'pop: value')
            model.items.remove(item)
    else:
        new = [cx.key(f'b{i}')]
        if op == 'alias two':
            new.append(cx.key(f'c{i}'))
        _, err = cx.catch(m.alias, k, *new)
        if item is None:
            cx.check(err is not None, 'alias of an unknown key')
            return
        taken = False
        for n in new:
            other = model.find(n)
            taken = taken or (other is not None and other is not item)
        if taken:
            cx.check(isinstance(err, KeyError), 'alias in use')
            return
        cx.check(err is None, 'new alias')
        for n in new:
            if not member(cx, n, item[0]):
                item[0].append(n)


@case('C11', 'every sequence of two (thorough: three) updates of a mutable'
      ' mapping (set, setdefault, delete, pop, new aliases; at the end one or'
      ' two new aliases at once) with arbitrary keys, from nothing or from'
      ' groups of 2 and 1 or of 3 keys', T, shard=('op0', 5))
def histories(cx):
    shape = cx.choice('shape', [(), (2, 1), (3,)])
    kv = items(cx, shape)
    m = aliased.MutableMapping({key_of(k): v for k, v in kv})
    model = Model(cx, kv)
    frozen = aliased.Mapping(m)
    copied = m.copy()
    n = cx.bound(2, 3)
    for i in range(n):
        step(cx, m, model, i, i == n - 1)
    verify(cx, m, model)
    for earlier in (frozen, copied):
        cx.check(len(earlier) == sum(shape), 'earlier mapping: len')
        for keys, v in kv:
            for k in keys:
                cx.check(earlier[k] is v, 'earlier mapping: value')


@case('C11', 'two mappings of up to two groups each, arbitrary keys: equal exactly'
      ' if they map the same keys to the same values', T, shard=('shape', 4))
def equality(cx):
    shape = cx.choice('shape', [(1,), (2,), (1, 1), (2, 1)])
    other = cx.choice('other', [(1,), (2,), (1, 1), (1, 2)])
    a, b = items(cx, shape), items(cx, other, 'j')
    swap = cx.bool('swap')
    if swap:
        b = [(k, V[1 - i] if i < 2 else v) for i, (k, v) in enumerate(b)]
    m = aliased.Mapping({key_of(k): v for k, v in a})
    n = aliased.Mapping({key_of(k): v for k, v in b})
    fa, fb = Model(cx, a), Model(cx, b)
    want = len(fa.keys()) == len(fb.keys())
    for k in fa.keys():
        if not want:
            break
        item = fb.find(k)
        want = item is not None and item[1] is fa.find(k)[1]
    cx.check((m == n) == want, 'equality')
    cx.check((m != n) != want, 'inequality')
    cx.check((m == n.flat) == want, 'equality with a dictionary')


@case('C11', 'two groups of up to three arbitrary keys each: |, &, -, ^, ==, <=,'
      ' isdisjoint, len, in, hash of equal groups', T, shard=('n', 3))
def groups(cx):
    n = cx.choice('n', [1, 2, 3])
    p = cx.choice('p', [1, 2, 3])
    a = [cx.key(f'a{i}') for i in range(n)]
    b = [cx.key(f'b{i}') for i in range(p)]
    distinct(cx, a)
    distinct(cx, b)
    g, h = aliased.Group(*a), aliased.Group(b)
    both = [k for k in a if member(cx, k, b)]
    only_a = [k for k in a if not any(k is j for j in both)]
    only_b = [k for k in b if not member(cx, k, a)]

    def agree(group, keys, label):
        cx.check(len(group) == len(keys), f'{label}: size')
        for k in keys:
            cx.check(k in group, f'{label}: member')
    agree(g, a, 'group')
    agree(g | h, a + only_b, 'union')
    agree(g | list(b), a + only_b, 'union with a list')
    agree(g - h, only_a, 'difference')
    agree(g ^ h, only_a + only_b, 'symmetric difference')
    agree(g & h, both, 'intersection')
    cx.check(g.isdisjoint(h) == (not both), 'isdisjoint')
    equal = not only_a and not only_b
    cx.check((g == h) == equal, 'equality')
    if equal:
        cx.check(cx.hash_of(g) == cx.hash_of(h), 'hash')
        cx.check(len({g: 0, h: 1}) == 1, 'one dictionary key')


def components(cx, given):
    """Merge lists of keys that share a member."""
    out = []
    for keys in given:
        merged = []
        for k in keys:
            if not member(cx, k, merged):
                merged.append(k)
        rest = []
        for known in out:
            if any(member(cx, k, known) for k in merged):
                merged.extend(k for k in known if not member(cx, k, merged))
            else:
                rest.append(known)
        out = rest + [merged]
    return out


def partition(cx, g, want, label):
    cx.check(len(g) == len(want), f'{label}: number of groups')
    cx.check(len(g.flat) == sum(map(len, want)), f'{label}: members')
    for keys in want:
        for k in keys:
            found = g.find(k)
            cx.check(found is not None and len(found) == len(keys),
                     f'{label}: group of a member')
            cx.check(k in g, f'{label}: contains')
            if found is not None:
                for i in keys:
                    cx.check(i in found, f'{label}: one group')


@case('C11', 'groups of 2 and 1 distinct keys merged with two groups of one or two'
      ' arbitrary keys: the groups are the connected components', T,
      shard=('how', 3))
def merging(cx):
    start = [k for k, _ in items(cx, cx.choice('shape', [(), (2,), (2, 1)]))]
    g = aliased.Groups(*[tuple(k) for k in start])
    sizes = cx.choice('sizes', [(2, 2), (2, 1), (1, 2)])
    new = [[cx.key(f'n{i}{j}') for j in range(s)] for i, s in enumerate(sizes)]
    for keys in new:
        distinct(cx, keys)
    how = cx.choice('how', ['merge', 'update', 'stepwise'])
    given = [tuple(k) if len(k) > 1 else k[0] for k in new]
    want = components(cx, start + new)
    if how == 'merge':
        r = g.merge(*given)
        partition(cx, g, start, 'original')
    elif how == 'update':
        g.update(*given)
        r = g
    else:
        r = g.merge(given[0]).merge(aliased.Groups(given[1]))
    partition(cx, r, want, how)


@case('C11', 'groups of 2 and 1 distinct keys: find, add, discard, without with'
      ' arbitrary keys', T)
def collection(cx):
    start = [k for k, _ in items(cx, (2, 1))]
    g = aliased.Groups(*[tuple(k) for k in start])
    op = cx.choice('op', ['find', 'add', 'discard', 'without', 'group'])
    k, j = cx.key('k'), cx.key('j')
    cx.assume(k != j)
    hit = [i for i in start if member(cx, k, i)]
    if op == 'find':
        r = g.find(k, 'none')
        cx.check((r == 'none') if not hit else len(r) == len(hit[0]), op)
        cx.check((k in g) == bool(hit), 'in')
    elif op == 'group':
        r = g.find(aliased.Group(k, j))
        want = len(hit) == 1 and len(hit[0]) == 2 and member(cx, j, hit[0])
        cx.check((r is not None) == want, 'find a group')
    elif op == 'add':
        _, err = cx.catch(g.add, (k, j))
        if hit or any(member(cx, j, i) for i in start):
            cx.check(isinstance(err, ValueError), 'add: in use')
            partition(cx, g, start, 'unchanged')
        else:
            cx.check(err is None, 'add')
            partition(cx, g, start + [[k, j]], 'added')
    elif op == 'discard':
        g.discard(k)
        partition(cx, g, [i for i in start if i not in hit], 'discarded')
    else:
        r = g.without(k, j)
        partition(cx, r, [i for i in start if i not in hit
                          and not member(cx, j, i)], 'without')
        partition(cx, g, start, 'original')


@case('C11', 'name maps of up to three names with up to two aliases each, all'
      ' arbitrary and distinct; four forms of definition; one more arbitrary'
      ' key', T, shard=('form', 4))
def names(cx):
    kv = [k for k, _ in items(cx, cx.choice('shape', SHAPES))]
    form = cx.choice('form', ['mapping', 'inner', 'iterable', 'refs'])
    if form == 'mapping':
        m = aliased.NameMap({k[0]: tuple(k[1:]) for k in kv})
    elif form == 'inner':
        m = aliased.NameMap({k[0]: {'aliases': tuple(k), 'x': 1} for k in kv})
    elif form == 'iterable':
        m = aliased.NameMap([tuple(k) for k in kv], refs=[k[0] for k in kv])
    else:
        m = aliased.NameMap({k[0]: list(k[1:]) for k in kv},
                            refs={kv[0][0]: 0})
        kv = kv[:1]
    for this in (m, m.copy()):
        cx.check(len(this) == len(list(this)) == sum(map(len, kv)), 'len')
        for k in kv:
            for i in k:
                cx.check(this[i] == k[0], 'name')
                cx.check(i in this, 'in')
    probe = cx.key('probe')
    hit = [k for k in kv if member(cx, probe, k)]
    r, err = cx.catch(m.__getitem__, probe)
    if hit:
        cx.check(err is None and cx.decide(r == hit[0][0]), 'look-up')
    else:
        cx.check(isinstance(err, KeyError), 'unknown')
    inverse = m.invert()
    cx.check(len(list(inverse)) == len(kv), 'inverse: names')
    for k in kv:
        got = list(inverse[k[0]])
        cx.check(len(got) == len(k), 'inverse: aliases')
        for i in k:
            cx.check(member(cx, i, got), 'inverse: alias')
