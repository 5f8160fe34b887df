"""Bounded symbolic strings and a symbolic backtracking regex matcher.

A ``SymStr`` has a concrete length per path; its elements are concrete
characters, symbolic characters (Int codes) or digit runs (the decimal digits
of a symbolic number).  Every character test asks the solver and forks.
"""
import re
import fractions
import sre_constants as sc
import sre_parse

import z3

from . import core
from .core import Sym, SymBool, SymInt, SymReal, Unsupported, active


class Char:
    """One symbolic character, among ``codes`` if those are known."""
    __slots__ = ('e', 'codes')

    def __init__(self, e, codes=None):
        self.e = e
        self.codes = codes

    def __repr__(self):
        return f'<{self.e}>'


class Run:
    """One or more decimal digits standing for a symbolic natural number.

    ``role`` is 'int' (an integer) or 'rat' (an exact rational in lowest terms,
    printed as an integer or as 'digits/digits'; it is matched as one unit).
    """
    __slots__ = ('owner', 'role')

    def __init__(self, owner, role):
        self.owner = owner
        self.role = role

    def __repr__(self):
        return f'<{self.role} {self.owner}>'

    def value(self):
        """Real expression for the number that the digits denote."""
        if self.role in ('int', 'rat'):
            return self.owner
        n, d = core.num_den(SymReal(self.owner, 'frac'))
        return z3.ToReal((n if self.role == 'num' else d).e)


def make(elements):
    """A ``str`` if every element is concrete, else a ``SymStr``."""
    out = []
    for c in elements:
        if isinstance(c, Char):
            e = z3.simplify(c.e)
            out.append(chr(e.as_long()) if z3.is_int_value(e) else c)
        else:
            out.append(c)
    if all(isinstance(c, str) for c in out):
        return ''.join(out)
    return SymStr(out)


def elements(s):
    if isinstance(s, SymStr):
        return s.cs
    if isinstance(s, str):
        return list(s)
    raise TypeError(f'expected a string, got {type(s)}')


def is_text(s):
    return isinstance(s, (str, SymStr))


OPAQUE = 0


def opaque(x):
    """Text for messages only."""
    global OPAQUE
    OPAQUE += 1
    return '<symbolic>'


# -- single characters -------------------------------------------------------
def char_is(c, code):
    """Condition (bool or z3) that element ``c`` is the character ``code``."""
    if isinstance(c, str):
        return ord(c) == code
    if isinstance(c, Char):
        if c.codes is not None and code not in c.codes:
            return False
        return c.e == code
    if chr(code).isdigit():
        raise Unsupported('a digit run compared with a digit')
    return False


def truth(c):
    if isinstance(c, bool):
        return c
    return active().branch(c)


def zor(cs):
    out = []
    for c in cs:
        if isinstance(c, bool):
            if c:
                return True
        else:
            out.append(c)
    return z3.Or(*out) if out else False


def zand(cs):
    out = []
    for c in cs:
        if isinstance(c, bool):
            if not c:
                return False
        else:
            out.append(c)
    return z3.And(*out) if out else True


def znot(c):
    return (not c) if isinstance(c, bool) else z3.Not(c)


def char_in(c, ranges, on_run=False):
    """Condition that ``c`` lies in one of the inclusive code ranges."""
    if isinstance(c, str):
        return any(a <= ord(c) <= b for a, b in ranges)
    if isinstance(c, Char):
        return zor([z3.And(c.e >= a, c.e <= b) if a != b else c.e == a
                    for a, b in ranges])
    return on_run


DIGITS = [(48, 57)]
SPACES = [(9, 13), (32, 32)]
UPPER = [(65, 90)]
LOWER = [(97, 122)]
WORD = DIGITS + UPPER + LOWER + [(95, 95)]


def same_char(a, b):
    if isinstance(a, Run) or isinstance(b, Run):
        if isinstance(a, Run) and isinstance(b, Run):
            return a.value() == b.value()
        other = b if isinstance(a, Run) else a
        if isinstance(other, str) and not other.isdigit():
            return False
        raise Unsupported('a digit run compared with a character')
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, str):
        return char_is(b, ord(a))
    if isinstance(b, str):
        return char_is(a, ord(b))
    ea = z3.IntVal(ord(a)) if isinstance(a, str) else a.e
    eb = z3.IntVal(ord(b)) if isinstance(b, str) else b.e
    return ea == eb


def equal(a, b):
    """Condition that two texts are equal."""
    ca, cb = elements(a), elements(b)
    if not (any(isinstance(c, Run) for c in ca)
            or any(isinstance(c, Run) for c in cb)):
        if len(ca) != len(cb):
            return False
        return zand([same_char(x, y) for x, y in zip(ca, cb)])
    # digit runs have unknown widths: compare numerals as numbers
    ta, tb = _tokens(ca), _tokens(cb)
    if len(ta) != len(tb):
        return False
    out = []
    for x, y in zip(ta, tb):
        nx, ny = not isinstance(x, (str, Char)), not isinstance(y, (str, Char))
        if nx != ny:
            other = y if nx else x
            if isinstance(other, Char):
                raise Unsupported('numeral compared with a character')
            return False
        out.append(x == y if nx else same_char(x, y))
    return zand(out)


def one_of(a, texts):
    """Condition that ``a`` is one of the concrete ``texts``."""
    cs = elements(a)
    if any(isinstance(c, Run) for c in cs):
        return zor([equal(a, t) for t in texts])
    atoms = [{} for c in cs]
    found = []
    for t in set(texts):
        if len(t) != len(cs):
            continue
        conds = []
        for c, x, known in zip(cs, t, atoms):
            v = known.get(x)
            if v is None:
                v = known[x] = same_char(c, x)
            if v is False:
                break
            if v is not True:
                conds.append(v)
        else:
            if not conds:
                return True
            found.append(z3.And(*conds) if len(conds) > 1 else conds[0])
    return zor(found)


def _tokens(cs):
    """Characters, with each maximal concrete/run numeral as one z3 real."""
    out = []
    i = 0
    while i < len(cs):
        c = cs[i]
        if isinstance(c, Run):
            if out and z3.is_expr(out[-1]):
                raise Unsupported('adjacent digits and runs')
            out.append(c.value())
            i += 1
        elif isinstance(c, str) and c.isdigit():
            j = i
            while j < len(cs) and isinstance(cs[j], str) and cs[j].isdigit():
                j += 1
            if j < len(cs) and isinstance(cs[j], (Run, Char)):
                if isinstance(cs[j], Run):
                    raise Unsupported('adjacent digits and runs')
            out.append(z3.RealVal(int(''.join(cs[i:j]))))
            i = j
        else:
            out.append(c)
            i += 1
    return out


class SymStr(Sym):
    __slots__ = ('cs',)

    def __init__(self, cs):
        self.cs = list(cs)

    def __repr__(self):
        return 'SymStr(' + ''.join(
            c if isinstance(c, str) else repr(c) for c in self.cs) + ')'

    __str__ = __repr__

    def __format__(self, spec):
        return opaque(self)

    # -- sequence -----------------------------------------------------------
    def __len__(self):
        return len(self.cs)

    def __bool__(self):
        return bool(self.cs)

    def __iter__(self):
        for c in self.cs:
            yield make([c])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return make(self.cs[i])
        return make([self.cs[i]])

    def __add__(self, o):
        if not is_text(o):
            return NotImplemented
        return make(self.cs + elements(o))

    def __radd__(self, o):
        if not is_text(o):
            return NotImplemented
        return make(elements(o) + self.cs)

    def __mul__(self, n):
        return make(self.cs * n)
    __rmul__ = __mul__

    # -- comparison ---------------------------------------------------------
    def __eq__(self, o):
        if not is_text(o):
            return NotImplemented
        return _b(equal(self, o))

    def __ne__(self, o):
        if not is_text(o):
            return NotImplemented
        return _b(znot(equal(self, o)))

    def _lt(self, o, strict):
        a, b = self.cs, elements(o)
        for x, y in zip(a, b):
            if truth(same_char(x, y)):
                continue
            ex = z3.IntVal(ord(x)) if isinstance(x, str) else x.e
            ey = z3.IntVal(ord(y)) if isinstance(y, str) else y.e
            return _b(z3.simplify(ex < ey))
        return len(a) < len(b) if strict else len(a) <= len(b)

    def __lt__(self, o):
        return self._lt(o, True) if is_text(o) else NotImplemented

    def __le__(self, o):
        return self._lt(o, False) if is_text(o) else NotImplemented

    def __gt__(self, o):
        return (not self._lt(o, False)) if is_text(o) else NotImplemented

    def __ge__(self, o):
        return (not self._lt(o, True)) if is_text(o) else NotImplemented

    def concrete(self):
        """Fork over the possible values of every character."""
        out = []
        for c in self.cs:
            if isinstance(c, str):
                out.append(c)
            elif isinstance(c, Char):
                out.append(chr(active().concretize(c.e)))
            else:
                v = c.value()
                if not active().branch(z3.IsInt(v)):
                    raise Unsupported('non-integral digit run')
                out.append(str(active().concretize(z3.ToInt(v))))
        return ''.join(out)

    def __hash__(self):
        if getattr(active(), 'skeleton_hash', False) and \
                any(isinstance(c, Run) for c in self.cs):
            # Equal texts have equal skeletons; native dicts compare the rest.
            return hash(tuple('' if isinstance(c, Run) else
                              chr(active().concretize(c.e))
                              if isinstance(c, Char) else c for c in self.cs))
        return hash(self.concrete())

    def __contains__(self, o):
        return self.find(o) >= 0

    # -- str methods --------------------------------------------------------
    def _at(self, i, sub):
        sub = elements(sub)
        if i + len(sub) > len(self.cs):
            return False
        return zand([same_char(x, y) for x, y in zip(self.cs[i:], sub)])

    def find(self, sub, start=0, end=None):
        n = len(self.cs) if end is None else min(end, len(self.cs))
        k = len(elements(sub))
        for i in range(start, n - k + 1):
            if truth(self._at(i, sub)):
                return i
        return -1

    def rfind(self, sub):
        k = len(elements(sub))
        for i in range(len(self.cs) - k, -1, -1):
            if truth(self._at(i, sub)):
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def count(self, sub):
        k = max(len(elements(sub)), 1)
        i = n = 0
        while i <= len(self.cs) - k:
            if truth(self._at(i, sub)):
                n += 1
                i += k
            else:
                i += 1
        return n

    def startswith(self, sub, start=0):
        if isinstance(sub, tuple):
            return any(self.startswith(s, start) for s in sub)
        return truth(self._at(start, sub))

    def endswith(self, sub):
        if isinstance(sub, tuple):
            return any(self.endswith(s) for s in sub)
        k = len(elements(sub))
        if k > len(self.cs):
            return False
        return truth(self._at(len(self.cs) - k, sub))

    def _strippable(self, c, chars):
        if chars is None:
            return truth(char_in(c, SPACES))
        return truth(zor([same_char(c, x) if not isinstance(c, Run)
                          or not x.isdigit() else char_is(c, ord(x))
                          for x in elements(chars)]))

    def lstrip(self, chars=None):
        i = 0
        while i < len(self.cs) and self._strippable(self.cs[i], chars):
            i += 1
        return make(self.cs[i:])

    def rstrip(self, chars=None):
        j = len(self.cs)
        while j > 0 and self._strippable(self.cs[j - 1], chars):
            j -= 1
        return make(self.cs[:j])

    def strip(self, chars=None):
        s = self.lstrip(chars)
        return s.rstrip(chars)

    def split(self, sep=None, maxsplit=-1):
        out = []
        if sep is None:
            cur = []
            i = 0
            cs = self.cs
            while i < len(cs):
                while i < len(cs) and truth(char_in(cs[i], SPACES)):
                    i += 1
                if i >= len(cs):
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    rest = make(cs[i:])
                    out.append(rest.rstrip())
                    return out
                j = i
                while j < len(cs) and not truth(char_in(cs[j], SPACES)):
                    j += 1
                out.append(make(cs[i:j]))
                i = j
            return out
        k = len(elements(sep))
        if not k:
            raise ValueError('empty separator')
        i = last = 0
        while i <= len(self.cs) - k:
            if (maxsplit < 0 or len(out) < maxsplit) and truth(self._at(i, sep)):
                out.append(make(self.cs[last:i]))
                i += k
                last = i
            else:
                i += 1
        out.append(make(self.cs[last:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise Unsupported('rsplit at spaces with a limit')
        k = len(elements(sep))
        if not k:
            raise ValueError('empty separator')
        out = []
        last = len(self.cs)
        i = last - k
        while i >= 0:
            if len(out) < maxsplit and truth(self._at(i, sep)):
                out.append(make(self.cs[i + k:last]))
                last = i
                i -= k
            else:
                i -= 1
        out.append(make(self.cs[:last]))
        return out[::-1]

    def splitlines(self, keepends=False):
        parts = self.split('\n')
        last = parts.pop()
        if keepends:
            parts = [part + '\n' for part in parts]
        return parts + ([last] if len(elements(last)) else [])

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return make(self.cs), '', ''
        k = len(elements(sep))
        return make(self.cs[:i]), sep, make(self.cs[i + k:])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return '', '', make(self.cs)
        k = len(elements(sep))
        return make(self.cs[:i]), sep, make(self.cs[i + k:])

    def replace(self, old, new, count=-1):
        k = len(elements(old))
        if not k:
            raise Unsupported('replace of an empty string')
        out = []
        i = n = 0
        while i < len(self.cs):
            if (count < 0 or n < count) and i + k <= len(self.cs) \
                    and truth(self._at(i, old)):
                out.extend(elements(new))
                i += k
                n += 1
            else:
                out.append(self.cs[i])
                i += 1
        return make(out)

    def join(self, parts):
        return join(self, parts)

    def _map(self, ranges, delta):
        out = []
        for c in self.cs:
            if isinstance(c, Char):
                out.append(Char(z3.If(char_in(c, ranges), c.e + delta, c.e)))
            elif isinstance(c, str):
                out.append(c.lower() if delta > 0 else c.upper())
            else:
                out.append(c)
        return make(out)

    def lower(self):
        return self._map(UPPER, 32)
    casefold = lower

    def upper(self):
        return self._map(LOWER, -32)

    def _all(self, ranges, run):
        if not self.cs:
            return False
        return truth(zand([char_in(c, ranges, run) for c in self.cs]))

    def isdigit(self):
        return self._all(DIGITS, True)
    isdecimal = isdigit
    isnumeric = isdigit

    def isalpha(self):
        return self._all(UPPER + LOWER, False)

    def isalnum(self):
        return self._all(DIGITS + UPPER + LOWER, True)

    def isspace(self):
        return self._all(SPACES, False)

    def isidentifier(self):
        if not self.cs:
            return False
        return truth(zand([char_in(self.cs[0], WORD[1:], False)]
                          + [char_in(c, WORD, True) for c in self.cs[1:]]))

    def removeprefix(self, p):
        return make(self.cs[len(elements(p)):]) if self.startswith(p) else self

    def removesuffix(self, p):
        if len(elements(p)) and self.endswith(p):
            return make(self.cs[:len(self.cs) - len(elements(p))])
        return self

    def encode(self, *a):
        raise Unsupported('encode')

    def format(self, *a, **k):
        raise Unsupported('format of a symbolic string')


def _b(c):
    return c if isinstance(c, bool) else SymBool(c)


def join(sep, parts):
    out = []
    for n, p in enumerate(parts):
        if getattr(type(p), 'stands_for', None) is str and not is_text(p):
            p = opaque(p)
        if not is_text(p):
            raise TypeError(f'sequence item {n}: expected str instance')
        if n:
            out.extend(elements(sep))
        out.extend(elements(p))
    return make(out)


# -- numbers to text and back ------------------------------------------------
def number_text(x):
    """``str(x)`` of a symbolic integer or exact rational."""
    p = active()
    if isinstance(x, SymInt):
        e = z3.ToReal(x.e)
    elif isinstance(x, SymReal) and x.kind == 'frac':
        e = x.e
    else:
        return opaque(x)
    e = z3.simplify(e)
    if z3.is_rational_value(e):
        return str(fractions.Fraction(e.numerator_as_long(),
                                      e.denominator_as_long()))
    out = []
    if p.branch(e < 0):
        out.append('-')
        e = z3.simplify(-e)
    # 'rat': the digits of an integer, or 'digits/digits' (see DESIGN.md)
    out.append(Run(e, 'int' if isinstance(x, SymInt) else 'rat'))
    return SymStr(out)


def _digits_value(cs):
    """(Real expression or Fraction) of a sequence of digit elements."""
    if len(cs) == 1 and isinstance(cs[0], Run):
        return SymReal(cs[0].value(), 'frac')
    if any(isinstance(c, Run) for c in cs):
        raise Unsupported('digits adjacent to a digit run')
    if all(isinstance(c, str) for c in cs):
        return fractions.Fraction(int(''.join(cs) or '0'))
    e = z3.IntVal(0)
    for c in cs:
        d = (z3.IntVal(ord(c) - 48) if isinstance(c, str) else c.e - 48)
        e = e * 10 + d
    return SymReal(z3.ToReal(z3.simplify(e)), 'frac')


_NUMERAL = re.compile(r"""
    \s*(?P<sign>[-+]?)(?=\d|\.\d)(?P<num>\d*)
    (?:(?:/(?P<denom>\d+))?|(?:\.(?P<decimal>\d*))?(?:[eE](?P<exp>[-+]?\d+))?)
    \s*\Z""", re.VERBOSE)


def number(s, slash=True, kind='frac'):
    """Value of a numeral, or None if ``s`` is not one."""
    m = match(_NUMERAL, s, 0, None)
    if m is None:
        return None
    g = m.spans

    def part(name):
        i = _NUMERAL.groupindex[name]
        return None if g.get(i) is None else m.elements[g[i][0]:g[i][1]]
    num, den, dec, exp = (part(k) for k in ('num', 'denom', 'decimal', 'exp'))
    if den is not None and not slash:
        return None
    if den is not None and len(num) == 1 and len(den) == 1 \
            and isinstance(num[0], Run) and isinstance(den[0], Run) \
            and num[0].role == 'num' and den[0].role == 'den' \
            and num[0].owner.eq(den[0].owner):
        v = SymReal(num[0].owner, 'frac')
    else:
        v = _digits_value(num)
        if den is not None:
            d = _digits_value(den)
            if isinstance(d, SymReal):
                try:
                    d = fractions.Fraction(
                        active().concretize(z3.ToInt(d.e)))
                except Unsupported:
                    pass
            if isinstance(d, fractions.Fraction) and d == 0:
                raise ZeroDivisionError('Fraction(%s, 0)' % 'n')
            v = v / d
        if dec:
            v = v + _digits_value(dec) / fractions.Fraction(10) ** len(dec)
        if exp:
            es = 1
            if isinstance(exp[0], str) and exp[0] in '+-':
                es = -1 if exp[0] == '-' else 1
                exp = exp[1:]
            elif isinstance(exp[0], Char) and not truth(char_in(exp[0], DIGITS)):
                es = -1 if truth(char_is(exp[0], 45)) else 1
                exp = exp[1:]
            n = _digits_value(exp)
            if isinstance(n, SymReal):
                n = active().concretize(z3.ToInt(n.e))
            v = v * fractions.Fraction(10) ** (es * int(n))
    sign = part('sign')
    if sign and truth(char_is(sign[0], 45)):
        v = -v
    if kind == 'float':
        v = SymReal(core.real_expr(v), 'float')
        e = z3.simplify(v.e)
        if z3.is_rational_value(e):
            return e.numerator_as_long() / e.denominator_as_long()
        return v
    if isinstance(v, SymReal):
        e = z3.simplify(v.e)
        if z3.is_rational_value(e):
            return fractions.Fraction(e.numerator_as_long(), e.denominator_as_long())
        return SymReal(e, 'frac')
    return v


# -- regular expressions -----------------------------------------------------
_TREES = {}


def tree(pattern):
    key = (pattern.pattern, pattern.flags)
    if key not in _TREES:
        flags = pattern.flags & ~re.UNICODE
        _TREES[key] = sre_parse.parse(pattern.pattern, flags)
    return _TREES[key]


_CATEGORIES = {
    sc.CATEGORY_DIGIT: (DIGITS, True, False),
    sc.CATEGORY_NOT_DIGIT: (DIGITS, True, True),
    sc.CATEGORY_SPACE: (SPACES, False, False),
    sc.CATEGORY_NOT_SPACE: (SPACES, False, True),
    sc.CATEGORY_WORD: (WORD, True, False),
    sc.CATEGORY_NOT_WORD: (WORD, True, True),
}


class Matcher:
    def __init__(self, pattern, cs):
        self.cs = cs
        self.flags = pattern.flags
        self.tree = tree(pattern)

    def literal(self, c, code):
        if self.flags & re.IGNORECASE and chr(code).isalpha():
            return zor([char_is(c, ord(chr(code).lower())),
                        char_is(c, ord(chr(code).upper()))])
        return char_is(c, code)

    def member(self, c, items):
        negate = False
        conds = []
        for op, av in items:
            if op is sc.NEGATE:
                negate = True
            elif op is sc.LITERAL:
                conds.append(self.literal(c, av))
            elif op is sc.RANGE:
                rs = [av]
                run = (av[0] <= 48 and av[1] >= 57)
                if self.flags & re.IGNORECASE:
                    for lo, hi, d in ((65, 90, 32), (97, 122, -32)):
                        a, b = max(av[0], lo), min(av[1], hi)
                        if a <= b:
                            rs.append((a + d, b + d))
                conds.append(char_in(c, rs, run))
            elif op is sc.CATEGORY:
                ranges, run, neg = _CATEGORIES[av]
                t = char_in(c, ranges, run)
                conds.append(znot(t) if neg else t)
            else:
                raise Unsupported(f'regex set item {op}')
        t = zor(conds)
        return znot(t) if negate else t

    def seq(self, nodes, k, i, groups):
        """All matches of nodes[k:] from i, in priority order."""
        if k == len(nodes):
            yield i, groups
            return
        op, av = nodes[k]
        n = len(self.cs)
        if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN, sc.CATEGORY):
            if i >= n:
                return
            c = self.cs[i]
            if op is sc.LITERAL:
                t = self.literal(c, av)
            elif op is sc.NOT_LITERAL:
                t = znot(self.literal(c, av))
            elif op is sc.ANY:
                t = True if self.flags & re.DOTALL else znot(char_is(c, 10))
            else:
                t = self.member(c, av if op is sc.IN else [(op, av)])
            if truth(t):
                yield from self.seq(nodes, k + 1, i + 1, groups)
        elif op is sc.BRANCH:
            for alt in av[1]:
                for j, g in self.seq(list(alt), 0, i, groups):
                    yield from self.seq(nodes, k + 1, j, g)
        elif op is sc.SUBPATTERN:
            gid, sub = av[0], av[-1]
            for j, g in self.seq(list(sub), 0, i, groups):
                if gid is not None:
                    g = dict(g)
                    g[gid] = (i, j)
                yield from self.seq(nodes, k + 1, j, g)
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            yield from self.repeat(op is sc.MAX_REPEAT, lo, hi, list(sub),
                                   nodes, k, i, groups, 0)
        elif op is sc.AT:
            if self.at(av, i):
                yield from self.seq(nodes, k + 1, i, groups)
        elif op in (sc.ASSERT, sc.ASSERT_NOT):
            direction, sub = av
            found = None
            if direction >= 0:
                found = next(self.seq(list(sub), 0, i, groups), None)
            else:
                lo, hi = sub.getwidth()
                for w in range(lo, min(hi, i) + 1):
                    for j, g in self.seq(list(sub), 0, i - w, groups):
                        if j == i:
                            found = (j, g)
                            break
                    if found:
                        break
            if op is sc.ASSERT and found:
                yield from self.seq(nodes, k + 1, i, found[1])
            elif op is sc.ASSERT_NOT and not found:
                yield from self.seq(nodes, k + 1, i, groups)
        elif op is sc.GROUPREF:
            if groups.get(av) is None:
                return
            a, b = groups[av]
            j = i
            for c in self.cs[a:b]:
                if j >= n or not truth(same_char(c, self.cs[j])):
                    return
                j += 1
            yield from self.seq(nodes, k + 1, j, groups)
        else:
            raise Unsupported(f'regex operation {op}')

    def repeat(self, greedy, lo, hi, sub, nodes, k, i, groups, count):
        def more():
            if hi is sc.MAXREPEAT or count < hi:
                for j, g in self.seq(sub, 0, i, groups):
                    if j == i and count >= lo:
                        continue
                    yield from self.repeat(greedy, lo, hi, sub, nodes, k, j, g,
                                           count + 1)
        if greedy:
            yield from more()
            if count >= lo:
                yield from self.seq(nodes, k + 1, i, groups)
        else:
            if count >= lo:
                yield from self.seq(nodes, k + 1, i, groups)
            yield from more()

    def at(self, where, i):
        n = len(self.cs)
        multi = self.flags & re.MULTILINE
        if where in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
            if i == 0:
                return True
            return bool(multi and where is sc.AT_BEGINNING
                        and truth(char_is(self.cs[i - 1], 10)))
        if where is sc.AT_END_STRING:
            return i == n
        if where is sc.AT_END:
            if i == n:
                return True
            if i == n - 1 or multi:
                return truth(char_is(self.cs[i], 10))
            return False
        if where in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
            a = i > 0 and truth(char_in(self.cs[i - 1], WORD, True))
            b = i < n and truth(char_in(self.cs[i], WORD, True))
            return (a != b) == (where is sc.AT_BOUNDARY)
        raise Unsupported(f'regex anchor {where}')


class SymMatch(Sym):
    """Stands for ``re.Match``."""

    def __init__(self, pattern, string, spans):
        self.re = pattern
        self.string = string
        self.elements = elements(string)
        self.spans = spans
        self.pos = 0
        self.endpos = len(self.elements)

    def _gid(self, g):
        if isinstance(g, str):
            if g not in self.re.groupindex:
                raise IndexError('no such group')
            return self.re.groupindex[g]
        if g > self.re.groups:
            raise IndexError('no such group')
        return g

    def span(self, g=0):
        return self.spans.get(self._gid(g)) or (-1, -1)

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _get(self, g, default=None):
        s = self.spans.get(self._gid(g))
        return default if s is None else make(self.elements[s[0]:s[1]])

    def group(self, *gs):
        if not gs:
            return self._get(0)
        if len(gs) == 1:
            return self._get(gs[0])
        return tuple(self._get(g) for g in gs)

    __getitem__ = _get

    def groups(self, default=None):
        return tuple(self._get(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._get(i, default) for k, i in self.re.groupindex.items()}

    def expand(self, template):
        raise Unsupported('Match.expand')

    def __bool__(self):
        return True


def match(pattern, s, pos=0, endpos=None, full=False):
    cs = elements(s)
    m = Matcher(pattern, cs if endpos is None else cs[:endpos])
    for j, g in m.seq(list(m.tree), 0, pos, {}):
        if full and j != len(m.cs):
            continue
        g = dict(g)
        g[0] = (pos, j)
        return SymMatch(pattern, s, g)
    return None


def search(pattern, s, pos=0, endpos=None):
    for i in range(pos, len(elements(s)) + 1):
        m = match(pattern, s, i, endpos)
        if m is not None:
            return m
    return None


def finditer(pattern, s):
    pos = 0
    n = len(elements(s))
    while pos <= n:
        m = search(pattern, s, pos)
        if m is None:
            return
        yield m
        pos = m.end() if m.end() > m.start() else m.end() + 1


def sub(pattern, repl, s, count=0):
    cs = elements(s)
    out = []
    last = n = 0
    if isinstance(repl, str) and '\\' in repl:
        raise Unsupported('regex substitution template')
    for m in finditer(pattern, s):
        if count and n >= count:
            break
        out.extend(cs[last:m.start()])
        out.extend(elements(repl(m) if callable(repl) else repl))
        last = m.end()
        n += 1
    out.extend(cs[last:])
    return make(out)


def split(pattern, s, maxsplit=0):
    cs = elements(s)
    out = []
    last = n = 0
    for m in finditer(pattern, s):
        if maxsplit and n >= maxsplit:
            break
        if m.end() == m.start():
            continue
        out.append(make(cs[last:m.start()]))
        out.extend(m.groups())
        last = m.end()
        n += 1
    out.append(make(cs[last:]))
    return out


def findall(pattern, s):
    out = []
    for m in finditer(pattern, s):
        if pattern.groups == 0:
            out.append(m.group())
        elif pattern.groups == 1:
            out.append(m._get(1, ''))
        else:
            out.append(m.groups(''))
    return out


def pattern_method(pattern, name):
    """The method of a compiled pattern for a symbolic subject."""
    def method(*args, **kwargs):
        if name in ('match', 'fullmatch', 'search'):
            s = args[0] if args else kwargs['string']
            rest = list(args[1:])
            pos = rest[0] if rest else kwargs.get('pos', 0)
            endpos = rest[1] if len(rest) > 1 else kwargs.get('endpos')
            if name == 'search':
                return search(pattern, s, pos, endpos)
            return match(pattern, s, pos, endpos, full=name == 'fullmatch')
        if name == 'sub':
            return sub(pattern, *args, **kwargs)
        if name == 'split':
            return split(pattern, *args, **kwargs)
        if name == 'findall':
            return findall(pattern, *args, **kwargs)
        if name == 'finditer':
            return finditer(pattern, *args, **kwargs)
        raise Unsupported(f'Pattern.{name}')
    return method
