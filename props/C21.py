"""C21: parameters of observers, and files that are only read."""
import os
import pathlib

from sx.context import case
from goats.core import constant
from goats.core import iotools
from goats.core import measurable
from goats.core import metadata
from goats.core import operational
from goats.core import physical

IO = 'goats.core.iotools.'
K = 'goats.core.constant.'
A = 'goats.core.operational.Argument.'
UNITS = {'m': ('cm', 100.0), 's': ('min', 1 / 60), 'J': ('erg', 1e7)}


@case('C21', 'any mode of up to three characters of the modes of open, by'
      ' position, by name and by default, and any text to write',
      (IO + 'ReadOnlyPath.open', IO + 'ReadOnlyPath.write_text',
       IO + 'ReadOnlyPath.write_bytes', IO + 'ReadOnlyPath.__new__'))
def read_only(cx):
    path = cx.file('data.txt', 'content')
    p = iotools.ReadOnlyPath(path)
    if cx.choice('joined', (False, True)):
        p = iotools.ReadOnlyPath(os.path.dirname(path)) / 'data.txt'
    how = cx.choice('how', ('position', 'name', 'default', 'write_text',
                            'write_bytes'))
    if how in ('position', 'name'):
        mode = cx.text('mode', 'rwaxbt+', minlen=1, maxlen=3)

        def use():
            fp = p.open(mode) if how == 'position' else p.open(mode=mode)
            with fp:
                return fp.read()
        writes = cx.either(*(c == w for c in mode for w in 'wax+'))
    elif how == 'default':
        writes = False

        def use():
            with p.open() as fp:
                return fp.read()
    else:
        writes = True

        def use():
            return getattr(p, how)('x' if how == 'write_text' else b'x')
    got, err = cx.catch(use)
    if cx.decide(writes):
        cx.check(isinstance(err, iotools.ReadOnlyPathError),
                 'writing is an error')
    else:
        cx.check(not isinstance(err, iotools.ReadOnlyPathError),
                 'reading is not an error')
        if how == 'default' or mode == 'r' or mode == 'rt':
            cx.check(got == 'content', 'the content of the file')
        if how != 'default' and mode == 'rb':
            cx.check(got == b'content', 'the content of the file')
    with open(path) as fp:
        cx.check(fp.read() == 'content', 'the file is unchanged')
    cx.raises(iotools.NonExistentPathError, iotools.ReadOnlyPath,
              path + '.missing', label='missing files are errors')
    cx.check(str(p) == os.path.realpath(path), 'the resolved path')


def first_of(text, marks):
    """The position of the first of the marks."""
    for i in range(len(text)):
        if any(text[i] == m for m in marks):
            return i
    return len(text)


@case('C21', 'any text of up to five (thorough: six) characters among a letter,'
      ' a space and two comment marks', (IO + 'strip_inline_comments',),
      shard=('length', 6))
def comments(cx):
    n = cx.choice('length', range(cx.bound(6, 7)))
    text = cx.text('text', 'a #!', minlen=n, maxlen=n)
    marks = cx.choice('marks', (('#', '!'), ('!', '#'), ('#',), ()))
    got = iotools.strip_inline_comments(text, list(marks))
    body = text[:first_of(text, marks)]
    i, j = 0, len(body)
    while i < j and body[i] == ' ':
        i += 1
    while i < j and body[j - 1] == ' ':
        j -= 1
    cx.check(got == body[i:j], 'the text before the first comment')


@case('C21', 'any text of up to five characters among two letters and line'
      ' breaks', (IO + 'TextFile.lines', IO + 'TextFile.extract',
                  IO + 'file_lines'), shard=('length', 6))
def text_files(cx):
    n = cx.choice('length', range(6))
    text = cx.text('text', 'ab\n', minlen=n, maxlen=n)
    path = cx.file('data.txt', text)
    lines = text.split('\n')
    if lines[-1] == '':
        lines = lines[:-1]
    f = iotools.TextFile(path)
    for _ in range(2):
        cx.check(len(f.lines) == len(lines), 'the number of lines')
        cx.check(cx.both(True, *(x.rstrip('\n') == y
                                 for x, y in zip(f.lines, lines))),
                 'the lines')
    cx.check(iotools.file_lines(path) == len(lines), 'the number of lines')
    seen = []

    def match(line):
        return line.strip('\n') if line[:1] == 'a' else None

    def parse(this):
        seen.append(this)
        return len(seen), this
    got = f.extract(match, parse)
    expected = [y for y in lines if y[:1] == 'a']
    cx.check(len(got) == len(expected), 'one item for each matching line')
    cx.check(cx.both(True, *(got[i + 1] == y
                             for i, y in enumerate(expected))),
             'the parsed lines in order')


@case('C21', 'files with either of two names in any of three directories', (
    IO + 'search', IO + 'find_file_by_template'), shard=('pattern', 8))
def searches(cx):
    pattern = cx.choice('pattern', range(8))
    root = os.path.dirname(cx.file('root.txt', ''))
    name = 'ab'[cx.choice('name', (0, 1))]
    other = 'b' if name == 'a' else 'a'
    for i in range(3):
        cx.file(f'd{i}/other', '')
        if pattern & (1 << i):
            cx.file(f'd{i}/{name}', '')
        elif cx.choice(f'other in d{i}', (False, True)):
            cx.file(f'd{i}/{other}', '')
    order = cx.choice('order', ((0, 1, 2), (2, 0, 1), (1,), ()))
    paths = [os.path.join(root, f'd{i}') for i in order]
    got = iotools.search(paths, name)
    first = next((i for i in order if pattern & (1 << i)), None)
    if first is None:
        cx.check(got is None, 'no file')
    else:
        cx.check(str(got) == os.path.join(root, f'd{first}', name),
                 'the first file in the order of the paths')
    templates = [lambda x, i=i: f'd{i}/{x}' for i in order]
    got = iotools.find_file_by_template(templates, name, directory=root)
    if first is None:
        cx.check(got is None, 'no file')
    else:
        cx.check(str(got) == os.path.join(root, f'd{first}', name),
                 'the first file in the order of the templates')


@case('C21', 'five ways to write the paths of two files', (
    IO + 'PathSet._generate_key', 'goats.core.iterables.InstanceSet.__call__'))
def instances(cx):
    one, two = cx.file('one/x', ''), cx.file('two/x', '')

    class Dataset(metaclass=iotools.PathSet):
        def __init__(self, path):
            self.path = path

    def written(path, how):
        return {
            'text': path,
            'path': pathlib.Path(path),
            'dots': os.path.join(os.path.dirname(path), '..',
                                 os.path.basename(os.path.dirname(path)), 'x'),
            'read-only': iotools.ReadOnlyPath(path),
            'relative': 'x',
        }[how]
    ways = ('text', 'path', 'dots', 'read-only', 'relative')
    a = cx.choice('first', ways)
    b = cx.choice('second', ways)
    i, j = (cx.choice(k, (0, 1)) for k in ('first file', 'second file'))
    files = (one, two)
    cwd = os.getcwd()
    made = []
    try:
        for k, how in ((i, a), (j, b)):
            os.chdir(os.path.dirname(files[k]))
            made.append(Dataset(written(files[k], how)))
    finally:
        os.chdir(cwd)
    cx.check((made[0] is made[1]) == (i == j),
             'one instance for each file')


@case('C21', 'any values in three units', (
    K + 'Assumption.__getitem__', K + 'Assumption.__float__',
    K + 'Assumption.__int__', K + 'Assumption._cast_to'))
def assumptions(cx):
    n = cx.choice('count', (1, 2, 3))
    unit = cx.choice('unit', tuple(UNITS))
    values = cx.reals('x', n, -100, 100)
    new, factor = UNITS[unit]
    name = cx.choice('name', ('a', ('a', 'b')))
    names = {'a', *name}
    a = constant.Assumption(values, unit=unit, name=name)
    cx.check(a.unit == unit and set(a.name) == names, 'unit and name')
    target = cx.choice('target', (new, metadata.Unit(new), unit))
    scale = 1.0 if target == unit else factor
    for b, s, u in ((a, 1.0, unit), (a[target], scale, str(target))):
        cx.check(b.unit == u, 'the unit')
        for i in list(range(n)) + [-1]:
            x = b[i]
            cx.check_close(float(x), values[i] * s, 'each value')
            cx.check(isinstance(x, physical.Scalar) and x.unit == u
                     and set(x.name) == names, 'the unit and name of a value')
        for i in (n, -n - 1):
            cx.raises(IndexError, lambda: b[i], label='outside of the values')
        every = b[:]
        cx.check(len(every) == n, 'all values')
        for x, v in zip(every, values):
            cx.check_close(float(x), v * s, 'all values')
            cx.check(x.unit == u, 'the unit of all values')
        if n == 1:
            cx.check_close(float(b), values[0] * s, 'the only value')
        else:
            cx.raises(TypeError, float, b, label='several values')
            cx.raises(TypeError, int, b, label='several values')


@case('C21', 'any values of a parameter with a unit and a parameter without', (
    K + 'Interface.__getitem__', K + 'Option.__eq__'))
def parameters(cx):
    x = cx.real('x', -100, 100)
    v = cx.int('v', 0, 5)
    w = cx.int('w', 0, 5)
    p = constant.Interface({
        ('a', 'b'): {'value': x, 'unit': 'm'},
        'c': {'value': v, 'unit': None},
    })
    for k in ('a', 'b'):
        cx.check(isinstance(p[k], constant.Assumption), 'has a unit')
        cx.check_close(float(p[k]), x, 'the value')
        cx.check(p[k].unit == 'm', 'the unit')
        cx.check(set(p[k].name) == {'a', 'b'}, 'all names')
    c = p['c']
    cx.check(isinstance(c, constant.Option), 'has no unit')
    cx.check((c == w) == (v == w), 'equal to its value')
    cx.check((c == constant.Option(w, name='other')) == (v == w),
             'options with equal values are equal')
    cx.check(c.value == v and set(c.name) == {'c'}, 'value and name')
    cx.raises(KeyError, lambda: p['d'], label='unknown parameters')


@case('C21', 'any values of up to three numbers in three units, or any integer'
      ' without unit', (A + '__new__', A + '__init__', A + '_init_from',
                        A + '__getitem__', A + '__float__', A + '__int__',
                        A + 'data', A + '__eq__', A + '__bool__'))
def arguments(cx):
    kind = cx.choice('kind', ('number', 'list', 'measurement', 'scalar'))
    unit = cx.choice('unit', ('m', '1', 's'))
    n = 1 if kind in ('number', 'scalar') else cx.choice('count', (1, 2, 3))
    values = cx.reals('x', n, -100, 100)
    args = {
        'number': (values[0], unit),
        'list': (values, unit),
        'measurement': (measurable.measure(*values, unit),),
        'scalar': (physical.Scalar(values[0], unit=unit),),
    }[kind]
    if len(args) == 2 and cx.choice('keyword', (False, True)):
        a = operational.Argument(args[0], unit=unit)
    else:
        a = operational.Argument(*args)
    cx.check(a.unit == unit, 'the unit')
    cx.check(len(a) == n, 'the number of values')
    cx.check(bool(a), 'numbers are true, also zero')
    for i in list(range(n)) + [-1]:
        cx.check_close(float(a[i]), values[i], 'each value')
        cx.check(a[i].unit == unit, 'the unit of each value')
    for i in (n, n + 1, -n - 1, -n - 2):
        cx.raises(IndexError, lambda: a[i], label='outside of the values')
    cx.check(len(list(a)) == n, 'iterates over the values')
    for x, v in zip(a, values):
        cx.check_close(x, v, 'iterates over the values')
    if n == 1:
        cx.check_close(float(a), values[0], 'the only value')
        cx.check_close(a.data, values[0], 'the only value')
    else:
        cx.raises(operational.NumericCastError, float, a,
                  label='several values')
    others = cx.reals('y', n, -100, 100)
    for u in ('m', '1'):
        b = operational.Argument(others, u)
        equal = cx.both(unit == u, *(v == o for v, o in zip(values, others)))
        cx.check((a == b) == equal, 'equal if the values and units are')
    cx.raises(TypeError, operational.Argument, values[0],
              label='real numbers require a unit')
    k = cx.int('k', -2, 3)
    o = operational.Argument(k)
    cx.check(cx.both(o.unit is None, int(o) == k, bool(o)),
             'integers have no unit')
    cx.check(cx.negate(o == operational.Argument(k, 'm')),
             'arguments without unit')


@case('C21', 'arguments of any text of up to three characters, any integer, a'
      ' truth value, or up to two numbers: compared with plain values', (
          A + '__init__', A + 'data', A + '__eq__', A + '__bool__',
          A + '__len__', A + '__iter__'))
def plain_arguments(cx):
    kind = cx.choice('kind', ('text', 'integer', 'truth', 'one', 'several'))
    if kind == 'text':
        s = cx.text('s', 'a 1', 0, 3)
        t = cx.text('t', 'a 1', 0, 3)
        a = operational.Argument(s)
        cx.check(a.unit is None, 'text has no unit')
        cx.check(a.data == s, 'the text')
        cx.check((a == t) == (s == t), 'equal to its text')
        cx.check((a == operational.Argument(t)) == (s == t),
                 'equal to the same text')
        cx.check(len(a) == 1, 'one value')
        blank = cx.both(*(c == ' ' for c in s))
        cx.check(cx.decide(bool(a)) == cx.negate(blank), 'blank text is false')
    elif kind == 'integer':
        k, j = cx.int('k', -2, 3), cx.int('j', -2, 3)
        a = operational.Argument(k)
        cx.check((a == j) == (k == j), 'equal to its value')
        cx.check(len(a) == 1 and len(list(a)) == 1, 'one value')
    elif kind == 'truth':
        b = cx.choice('b', (True, False))
        cx.check(bool(operational.Argument(b)) is b, 'the truth value')
    else:
        n = 1 if kind == 'one' else 2
        x = cx.reals('x', n, -100, 100)
        y = cx.reals('y', n, -100, 100)
        a = operational.Argument(x, 'm')
        equal = cx.both(*(p == q for p, q in zip(x, y)))
        got = a == (y[0] if n == 1 else y)
        cx.check(got == equal, 'equal to its values')
