"""C18: spelling suggestions."""
from sx.context import case
from goats.core import observer
from goats.core import spelling

M = 'goats.core.spelling.'
CHECKER = (M + 'SpellChecker.check', M + 'SpellChecker._check',
           M + 'SpellChecker.get_suggestions', M + 'SpellChecker.edits')
LETTERS = 'abcdefghijklmnopqrstuvwxyz'
LETTERS += LETTERS.upper()


def same(cx, x, y):
    """The texts are equal."""
    if len(x) != len(y):
        return False
    return cx.both(*(a == b for a, b in zip(x, y)))


def one_edit(cx, x, y):
    """One deletion, insertion, replacement or transposition apart."""
    n, m = len(x), len(y)
    ways = []
    if n == m:
        for i in range(n):
            ways.append(same(cx, x[:i] + x[i + 1:], y[:i] + y[i + 1:]))
        for i in range(n - 1):
            ways.append(same(cx, x[:i] + x[i + 1] + x[i] + x[i + 2:], y))
    if n == m + 1:
        for i in range(n):
            ways.append(same(cx, x[:i] + x[i + 1:], y))
    if m == n + 1:
        for i in range(m):
            ways.append(same(cx, y[:i] + y[i + 1:], x))
    return cx.either(*ways)


def neighbours(word, letters):
    out = set()
    for i in range(len(word) + 1):
        out |= {word[:i] + c + word[i:] for c in letters}
        if i < len(word):
            out.add(word[:i] + word[i + 1:])
            out |= {word[:i] + c + word[i + 1:] for c in letters}
        if i + 1 < len(word):
            out.add(word[:i] + word[i + 1] + word[i] + word[i + 2:])
    return out


def suggests(cx, suggestions, word):
    return cx.either(*(same(cx, s, word) for s in suggestions))


@case('C18', 'any two known words of up to four letters, and seven names of up'
      ' to three letters with every pattern of equal letters', CHECKER,
      shard=('name', 7))
def suggestions(cx):
    cx.hash_mode('list')
    name = cx.choice('name', ('', 'a', 'aa', 'ab', 'aba', 'aab', 'abC'))
    most = len(name) + 1
    words = [cx.text('first', LETTERS, minlen=max(0, most - 2), maxlen=most),
             cx.text('second', LETTERS, minlen=max(0, most - 2), maxlen=most)]
    known = cx.decide(cx.either(*(same(cx, w, name) for w in words)))
    near = [one_edit(cx, w, name) for w in words]
    cx.assume(cx.either(known, *near))
    checker = spelling.SpellChecker(*words)
    found = checker.check(name, mode='suggest')
    if known:
        cx.check(len(found) == 0, 'known names need no suggestion')
    for word, n in zip(words, near):
        if not known:
            cx.check(suggests(cx, found, word) == n,
                     'the words that are one edit away are suggested')
    for s in found:
        cx.check(suggests(cx, words, s), 'suggestions are known words')
    cx.check(checker.check(name, mode='truth') == (len(found) == 0),
             'true if there are no suggestions')
    _, err = cx.catch(checker.check, name)
    cx.check(isinstance(err, spelling.SpellingError) == (len(found) > 0),
             'an error if there are suggestions')


@case('C18', 'any known word of up to four letters among three, and five names'
      ' of up to two letters', CHECKER, shard=('name', 5))
def distant_suggestions(cx):
    cx.hash_mode('list')
    letters = 'abZ'
    name = cx.choice('name', ('', 'a', 'aa', 'ab', 'cZ'))
    word = cx.text('word', letters, minlen=1, maxlen=len(name) + 2)
    other = cx.text('other', letters + '_', minlen=len(name) + 4,
                    maxlen=len(name) + 4)
    cx.assume(cx.negate(same(cx, word, name)))
    checker = spelling.SpellChecker(word, other)
    found = checker.check(name, mode='suggest')
    cx.check(cx.negate(suggests(cx, found, other)),
             'words more than two edits away are not suggested')
    second = {w for e in neighbours(name, letters) | {name}
              for w in neighbours(e, letters)}
    near = cx.either(one_edit(cx, word, name),
                     *(same(cx, word, w) for w in second
                       if len(w) == len(word)))
    cx.check(suggests(cx, found, word) == near,
             'words at most two edits away are suggested')


@case('C18', 'any two known words, one of which is one edit from the name and'
      ' the other of which is two edits from it', CHECKER)
def nearest_suggestions(cx):
    cx.hash_mode('list')
    first = cx.text('first', LETTERS, minlen=1, maxlen=3)
    second = cx.text('second', LETTERS, minlen=3, maxlen=4)
    name = 'ab'
    cx.assume(one_edit(cx, first, name))
    cx.assume(cx.negate(same(cx, first, name)))
    cx.assume(cx.negate(one_edit(cx, second, name)))
    found = spelling.SpellChecker(first, second).check(name, mode='suggest')
    cx.check(suggests(cx, found, first), 'the nearest words are suggested')
    cx.check(cx.negate(suggests(cx, found, second)),
             'the next nearest words are not')


class Context:
    """The names that an observer knows."""
    observable = ()

    def __init__(self, *keys):
        self.keys = keys

    def __contains__(self, key):
        return False


@case('C18', 'any two names (of two to six letters) of quantities, before and'
      ' after the observer gets a new context', (
          'goats.core.observer.Interface.__getitem__',
          'goats.core.observer.Interface._check_spelling',
          'goats.core.observer.Interface.update') + CHECKER)
def observers(cx):
    cx.hash_mode('list')
    name = 'Vr'
    first = cx.text('first', LETTERS, minlen=2, maxlen=6)
    second = cx.text('second', LETTERS, minlen=2, maxlen=6)
    near = []
    for w in (first, second):
        cx.assume(cx.negate(same(cx, w, name)))
        near.append(False if len(w) > 4 else one_edit(cx, w, name))
        cx.assume(cx.either(len(w) > 4, near[-1]))
    o = observer.Interface(context=Context(first))
    for new, n in ((None, near[0]), (second, near[1])):
        how = cx.choice('how', ('update', 'more', 'other')) if new else None
        if how == 'update':
            o.update(Context(new))
        elif how == 'more':
            o.context.keys = (first, new)
            n = cx.either(*near)
        elif how == 'other':
            o.context.keys = (new,)
            # The observer may remember earlier names.
            cx.assume(cx.either(n, cx.negate(near[0])))
        for _ in range(2):
            _, err = cx.catch(lambda: o[name])
            cx.check(isinstance(err, (KeyError, spelling.SpellingError)),
                     'unknown names are errors')
            cx.check(isinstance(err, spelling.SpellingError) == n,
                     'an unknown name that resembles one is misspelled')


@case('C18', 'the message about any name of one to three letters, with one or'
      ' two suggestions of up to three letters', (M + 'SpellingError',))
def messages(cx):
    name = cx.text('name', 'abc', 1, 3)
    n = cx.choice('n', [0, 1, 2])
    if n == 2:
        one, two = cx.choice('words', [('x', 'y'), ('zz', 'x'), ('xyz', 'Zx')])
    else:
        one, two = cx.text('one', 'xyz', 1, 3), None
    error = spelling.SpellingError(name, [one, [one], [one, two]][n])
    text = str(error)
    cx.check("'" + name + "'" in text, 'the unknown name')
    cx.check("'" + one + "'" in text, 'the suggestion')
    if n == 2:
        cx.check("'" + two + "'" in text, 'every suggestion')
    cx.check(('one of' in text) == (n == 2), 'one or several')
