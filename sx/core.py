"""Symbolic values, path exploration and solver queries.

The code under test runs for real (instrumented copy of /repo's current source,
see ``instrument.py``) on the proxy values defined here.  Every truth test of a
symbolic condition asks the solver which outcomes are feasible and forks the
path; ``Context.check`` asks it whether the assertion can fail on the path.
"""
import fractions
import math
import numbers
import os
import time

import z3

Fraction = fractions.Fraction


# ---------------------------------------------------------------------------
# control-flow exceptions: BaseException, so the code under test cannot eat them
class Control(BaseException):
    pass


class Infeasible(Control):
    """The current path contradicts an assumption."""


class Excluded(Control):
    """The path leaves the stated bounds (recorded in the evidence)."""


class Unsupported(Control):
    """A symbolic value reached an operation that the engine cannot encode."""


class PathLimit(Control):
    """The path exceeded its step or time budget."""


class Diverged(Control):
    """A re-execution took a different route: the code kept hidden state."""


# ---------------------------------------------------------------------------
CURRENT = None  # the active Path


def active():
    if CURRENT is None:
        raise Unsupported('symbolic value used outside of an exploration')
    return CURRENT


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.branches = 0
        self.obligations = 0
        self.discharged = 0
        self.folded = 0

    def as_dict(self):
        return dict(self.__dict__)


STATS = Stats()

BRANCH_TIMEOUT_MS = int(os.environ.get('SX_BRANCH_TIMEOUT_MS', '10000'))
CHECK_TIMEOUT_MS = int(os.environ.get('SX_CHECK_TIMEOUT_MS', '60000'))


def _timed_check(solver, *assumptions):
    t = time.time()
    r = solver.check(*assumptions)
    STATS.solver_s += time.time() - t
    STATS.queries += 1
    return r


def _nonlinear(exprs, seen=None):
    """True if some expression multiplies or divides non-constants."""
    seen = set() if seen is None else seen
    stack = list(exprs)
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(e):
            k = e.decl().kind()
            ch = e.children()
            if k == z3.Z3_OP_MUL:
                if sum(1 for c in ch if not z3.is_rational_value(c)
                       and not z3.is_int_value(c)) > 1:
                    return True
            elif k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
                if not (z3.is_rational_value(ch[1]) or z3.is_int_value(ch[1])):
                    return True
            elif k == z3.Z3_OP_POWER:
                return True
            stack.extend(ch)
    return False


def solve(constraints, timeout_ms=None):
    """One-off query. Returns ('sat', model) / ('unsat', None) / ('unknown', None)."""
    timeout_ms = timeout_ms or CHECK_TIMEOUT_MS
    if _nonlinear(constraints):
        order = [
            lambda: z3.Then('simplify', 'propagate-values', 'solve-eqs',
                            'purify-arith', 'qfnra-nlsat').solver(),
            lambda: z3.SolverFor('QF_NRA'),
            lambda: z3.Solver(),
        ]
    else:
        order = [lambda: z3.Solver()]
    for n, make in enumerate(order):
        s = make()
        try:
            s.set('timeout', timeout_ms if n else max(timeout_ms // 2, 1000))
        except z3.Z3Exception:
            pass
        try:
            for c in constraints:
                s.add(c)
            r = _timed_check(s)
        except z3.Z3Exception:
            continue
        if r == z3.sat:
            try:
                return 'sat', s.model()
            except z3.Z3Exception:
                continue
        if r == z3.unsat:
            return 'unsat', None
    STATS.unknown += 1
    return 'unknown', None


class Path:
    """One execution path: a prefix of decisions to replay, then new ones."""

    max_branches = 20000

    def __init__(self, prefix, budget_s=60.0):
        self.prefix = prefix
        self.decisions = []       # [(value, fingerprint)]
        self.alternatives = []    # prefixes to explore later
        self.constraints = []
        self.solver = z3.Solver()
        self.solver.set('timeout', BRANCH_TIMEOUT_MS)
        self.model = None
        self.fresh = 0
        self.inputs = {}          # name -> spec (insertion ordered)
        self.notes = []
        self.deadline = time.time() + budget_s
        self.uncertain = False
        self.nonlinear = False
        self.decided = {}
        self.nl = False  # some value is a non-linear term

    # -- bookkeeping --------------------------------------------------------
    def name(self, stem):
        self.fresh += 1
        return f'{stem}!{self.fresh}'

    def add(self, c):
        """Add a constraint that holds on this path (an assumption)."""
        if isinstance(c, SymBool):
            c = c.e
        if isinstance(c, bool):
            if not c:
                raise Infeasible()
            return
        self.constraints.append(c)
        self.solver.add(c)
        if self.model is not None:
            if not z3.is_true(self.model.eval(c, model_completion=True)):
                self.model = None

    def assume(self, c):
        """Like ``add``, but abandons the path if it becomes infeasible."""
        if isinstance(c, SymBool):
            c = c.e
        if isinstance(c, bool):
            if not c:
                raise Infeasible()
            return
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise Infeasible()
        self.add(c)
        if len(self.decisions) >= len(self.prefix) and self.model is None:
            if self.feasible() == 'unsat':
                raise Infeasible()

    def feasible(self, extra=None):
        """Feasibility of the path (with ``extra``): sat / unsat / unknown."""
        if extra is not None and self.model is not None:
            v = self.model.eval(extra, model_completion=True)
            if z3.is_true(v):
                return 'sat'
        elif extra is None and self.model is not None:
            return 'sat'
        if not self.nonlinear:
            r = (_timed_check(self.solver, extra) if extra is not None
                 else _timed_check(self.solver))
            if r == z3.sat:
                try:
                    self.model = self.solver.model()
                except z3.Z3Exception:
                    self.model = None
                return 'sat'
            if r == z3.unsat:
                return 'unsat'
            self.nonlinear = True
        cs = self.constraints + ([extra] if extra is not None else [])
        r, m = solve(cs, BRANCH_TIMEOUT_MS)
        if r == 'sat':
            self.model = m
        return r

    def prove(self, neg):
        """Can the path satisfy ``neg``?  ('sat', model) / 'unsat' / 'unknown'."""
        if not self.nl:
            r = _timed_check(self.solver, neg)
            if r == z3.unsat:
                return 'unsat', None
            if r == z3.sat:
                return 'sat', self.solver.model()
        return solve(self.constraints + [neg])

    # -- forking ------------------------------------------------------------
    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        key = cond.get_id()
        if key in self.decided:
            return self.decided[key][0]
        value = self._branch(cond)
        self.decided[key] = (value, cond)  # keeps ``cond`` (and its id) alive
        return value

    def _branch(self, cond):
        i = len(self.decisions)
        if i > self.max_branches or time.time() > self.deadline:
            raise PathLimit(f'{i} branches')
        STATS.branches += 1
        if i < len(self.prefix):
            value, expected = self.prefix[i]
            if isinstance(value, int) and not isinstance(value, bool) or \
                    not same_condition(expected, cond):
                raise Diverged(f'at decision {i}: {cond}')
            self.decisions.append((value, cond))
            self.add(cond if value else z3.Not(cond))
            return value
        # Take first the side that the current model already satisfies.
        neg = z3.Not(cond)
        a = self.feasible(cond)
        b = self.feasible(neg)
        if a == 'unknown' or b == 'unknown':
            self.uncertain = True
        if a == 'unsat' and b == 'unsat':
            raise Infeasible()
        if a != 'unsat' and b != 'unsat':
            self.alternatives.append(self.decisions + [(False, cond)])
            value = True
        else:
            value = a != 'unsat'
        self.decisions.append((value, cond))
        self.add(cond if value else neg)
        return value

    def pick(self, e, n, only=None):
        """Fork over the values 0..n-1 of a fresh Int ``e``, all feasible.

        ``only`` restricts the values (this process explores part of a case).
        """
        values = list(range(n)) if only is None else only
        i = len(self.decisions)
        fp = e
        if i < len(self.prefix):
            value, expected = self.prefix[i]
            if isinstance(value, bool) or not same_condition(expected, e):
                raise Diverged(f'at decision {i}: {e}')
        else:
            if not values:
                raise Infeasible('no values in this part')
            value = values[0]
            for v in reversed(values[1:]):
                self.alternatives.append(self.decisions + [(v, fp)])
            STATS.branches += len(values) - 1
        self.decisions.append((value, fp))
        self.add(e == value)
        return value

    max_values = 400

    def concretize(self, expr):
        """Fork over all feasible values of an Int expression."""
        expr = z3.simplify(expr)
        if z3.is_int_value(expr):
            return expr.as_long()
        i = len(self.decisions)
        if i > self.max_branches or time.time() > self.deadline:
            raise PathLimit(f'{i} branches')
        fp = expr
        if i < len(self.prefix):
            value, expected = self.prefix[i]
            if isinstance(value, bool) or not same_condition(expected, expr):
                raise Diverged(f'at decision {i}: {expr}')
        else:
            values = []
            block = []
            while True:
                r, m = 'unknown', None
                if not self.nonlinear:
                    q = _timed_check(self.solver, *block)
                    r = ('sat' if q == z3.sat else
                         'unsat' if q == z3.unsat else 'unknown')
                    m = self.solver.model() if r == 'sat' else None
                if r == 'unknown':
                    r, m = solve(self.constraints + block, BRANCH_TIMEOUT_MS)
                if r == 'unsat':
                    break
                if r == 'unknown':
                    raise Unsupported(f'cannot enumerate {expr}: unknown')
                v = m.eval(expr, model_completion=True).as_long()
                values.append(v)
                block.append(expr != v)
                if len(values) > self.max_values:
                    raise Unsupported(f'too many values for {expr}')
            if not values:
                raise Infeasible()
            values.sort(key=lambda v: (abs(v), v))
            value = values[0]
            for v in reversed(values[1:]):
                self.alternatives.append(self.decisions + [(v, fp)])
            STATS.branches += len(values) - 1
        self.decisions.append((value, fp))
        self.add(expr == value)
        return value


def same_condition(a, b):
    """Equal up to the order in which the simplifier put the arguments."""
    return a.eq(b) or sorted(a.sexpr().split()) == sorted(b.sexpr().split()) \
        or sorted(a.sexpr()) == sorted(b.sexpr())


# ---------------------------------------------------------------------------
_CONSTANTS = {}


def rational(v):
    """Exact z3 real of a concrete number."""
    try:
        return _CONSTANTS[type(v), v]
    except (KeyError, TypeError):
        pass
    e = _rational(v)
    if isinstance(v, (int, float, Fraction)) and len(_CONSTANTS) < 100000:
        _CONSTANTS[type(v), v] = e
    return e


def _rational(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return z3.RealVal(v)
    if isinstance(v, float):
        if math.isnan(v) or math.isinf(v):
            raise Unsupported(f'non-finite constant {v}')
        v = Fraction(v)
    elif not isinstance(v, Fraction):
        try:
            v = Fraction(float(v))
        except (TypeError, ValueError):
            raise Unsupported(f'constant {v!r}')
    return z3.Q(v.numerator, v.denominator)


def is_num(v):
    return isinstance(v, numbers.Real) and not isinstance(v, Sym)


class Sym:
    """Mark of all symbolic proxies."""
    __slots__ = ()


class SymBool(Sym):
    __slots__ = ('e',)
    __hash__ = None

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return active().branch(self.e)

    @staticmethod
    def lift(v):
        if isinstance(v, SymBool):
            return v.e
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if hasattr(v, 'dtype') and getattr(v, 'shape', None) == ():
            return SymBool.lift(v.item())
        if isinstance(v, int):
            return z3.BoolVal(bool(v))
        raise Unsupported(f'boolean {v!r}')

    def __and__(self, o):
        return SymBool(z3.And(self.e, self.lift(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.e, self.lift(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.e, self.lift(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)):
            return SymBool(self.e == self.lift(o))
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, (SymBool, bool)):
            return SymBool(self.e != self.lift(o))
        return NotImplemented

    def __repr__(self):
        return f'SymBool({self.e})'

    # arithmetic on truth values (e.g. sum of a mask)
    def __add__(self, o):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0))) + o
    __radd__ = __add__

    def __index__(self):
        return int(bool(self))
    __int__ = __index__


def sand(*cs):
    cs = [SymBool.lift(c) for c in cs]
    return SymBool(z3.And(*cs)) if cs else SymBool(z3.BoolVal(True))


def sor(*cs):
    cs = [SymBool.lift(c) for c in cs]
    return SymBool(z3.Or(*cs)) if cs else SymBool(z3.BoolVal(False))


def snot(c):
    return SymBool(z3.Not(SymBool.lift(c)))


def implies(a, b):
    return SymBool(z3.Implies(SymBool.lift(a), SymBool.lift(b)))


# ---------------------------------------------------------------------------
class SymNum(Sym):
    __slots__ = ()

    # hashing: only meaningful where every key is symbolic; see Context
    def __hash__(self):
        return active_hash(self)

    def __bool__(self):
        return active().branch(self.e != 0)


def active_hash(x):
    p = active()
    mode = getattr(p, 'hash_mode', None)
    if mode == 'const':
        return 7
    if isinstance(x, SymInt):
        return hash(p.concretize(x.e))
    raise Unsupported('hash of a symbolic real')


numbers_kinds = ('int', 'frac', 'float')


def _combine(a, b):
    """Kind of the result of an arithmetic operation."""
    if a == 'float' or b == 'float':
        return 'float'
    return 'frac'


def kind_of(v):
    if isinstance(v, SymReal):
        return v.kind
    if isinstance(v, (SymInt, int)):
        return 'int'
    if isinstance(v, Fraction):
        return 'frac'
    return 'float'


def real_expr(v):
    if isinstance(v, SymReal):
        return v.e
    if isinstance(v, SymInt):
        return z3.ToReal(v.e)
    if isinstance(v, SymBool):
        return z3.If(v.e, z3.RealVal(1), z3.RealVal(0))
    return rational(v)


def numeric(v):
    if isinstance(v, (SymReal, SymInt, SymBool)):
        return True
    if isinstance(v, numbers.Real):
        return True
    if hasattr(v, 'dtype') and getattr(v, 'shape', None) == ():
        return True
    return False


def _item(v):
    if hasattr(v, 'dtype') and getattr(v, 'shape', None) == ():
        return v.item()
    return v


def _nonfinite(v):
    return isinstance(v, float) and (math.isnan(v) or math.isinf(v))


class SymReal(SymNum):
    """A real number: stands for a float (as a real) or an exact Fraction."""
    __slots__ = ('e', 'kind')
    __array_priority__ = 0.0
    # an item of a float array is a numpy float
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, e, kind='float'):
        self.e = e
        self.kind = kind

    def __repr__(self):
        return f'SymReal({z3.simplify(self.e)})'

    def __format__(self, spec):
        from . import strings
        return strings.opaque(self)

    __str__ = __repr__

    # -- arithmetic ---------------------------------------------------------
    def _bin(self, o, f, swap=False):
        o = _item(o)
        if not numeric(o):
            return NotImplemented
        if _nonfinite(o):
            raise Excluded('non-finite operand')
        a, b = self.e, real_expr(o)
        if swap:
            a, b = b, a
        return SymReal(f(a, b), _combine(self.kind, kind_of(o)))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, Sym):
            active().nl = True
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, Sym):
            active().nl = True
        return self._bin(o, lambda a, b: a * b, True)

    def __truediv__(self, o):
        o = _item(o)
        if not numeric(o):
            return NotImplemented
        return divide(self, o)

    def __rtruediv__(self, o):
        o = _item(o)
        if not numeric(o):
            return NotImplemented
        return divide(o, self)

    def __floordiv__(self, o):
        o = _item(o)
        if not numeric(o):
            return NotImplemented
        q = divide(self, o)
        return SymReal(z3.ToReal(z3.ToInt(q.e)), q.kind)

    def __rfloordiv__(self, o):
        o = _item(o)
        if not numeric(o):
            return NotImplemented
        q = divide(o, self)
        return SymReal(z3.ToReal(z3.ToInt(q.e)), q.kind)

    def __mod__(self, o):
        o = _item(o)
        if not numeric(o):
            return NotImplemented
        return self - (self // o) * o

    def __rmod__(self, o):
        o = _item(o)
        if not numeric(o):
            return NotImplemented
        return o - (o // self) * self

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        return SymReal(-self.e, self.kind)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymReal(z3.If(self.e >= 0, self.e, -self.e), self.kind)

    def __pow__(self, o, mod=None):
        o = _item(o)
        if not numeric(o):
            return NotImplemented
        return power(self, o)

    def __rpow__(self, o, mod=None):
        o = _item(o)
        if not numeric(o):
            return NotImplemented
        return power(o, self)

    # -- comparison ---------------------------------------------------------
    def _cmp(self, o, f):
        o = _item(o)
        if not numeric(o):
            return NotImplemented
        if _nonfinite(o):
            if math.isnan(o):
                return f(0, math.nan)
            return f(0, o)
        return SymBool(f(self.e, real_expr(o)))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    __hash__ = SymNum.__hash__

    # -- conversions --------------------------------------------------------
    def __float__(self):
        raise Unsupported('float() of a symbolic real in native code')

    def __int__(self):
        return active().concretize(truncate(self.e))

    __trunc__ = __int__

    def __floor__(self):
        return SymInt(z3.ToInt(self.e))

    def __ceil__(self):
        return SymInt(-z3.ToInt(-self.e))

    def __round__(self, n=None):
        scale = Fraction(10) ** int(n or 0)
        shifted = self.e * rational(scale)
        i = z3.ToInt(shifted + z3.RealVal('1/2'))
        half_even = z3.If(z3.And(z3.IsInt(shifted + z3.RealVal('1/2')),
                                 i % 2 == 1), i - 1, i)
        if n is None:
            return SymInt(half_even)
        return SymReal(z3.ToReal(half_even) / rational(scale), self.kind)

    @property
    def numerator(self):
        return num_den(self)[0]

    @property
    def denominator(self):
        return SymDen(self)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self

    def is_integer(self):
        return SymBool(z3.IsInt(self.e))

    def limit_denominator(self, n=1000000):
        if n >= 1000000:
            return self  # denominators above 10^6 are outside the bounds
        few = z3.Or(*[z3.IsInt(self.e * k) for k in range(1, min(n, 8) + 1)])
        if active().branch(few):
            return self
        # The rest is probed at fractions k / (2 n + 1), and marked uncertain.
        active().uncertain = True
        k = 2 * n + 1
        active().assume(z3.And(z3.IsInt(self.e * k), self.e * k > 0,
                               self.e * k < 3))
        v = active().concretize(z3.ToInt(self.e * k))
        return Fraction(v, k).limit_denominator(n)

    def item(self):
        return self

    # -- what numpy calls on elements of object arrays -----------------------
    def sqrt(self):
        return sqrt(self)

    def square(self):
        return self * self

    def sin(self):
        return trig(self)[1]

    def cos(self):
        return trig(self)[0]

    def tan(self):
        c, s = trig(self)
        return divide(s, c)

    def arccos(self):
        return arccos(self)

    def arcsin(self):
        return uninterpreted('arcsin', self)

    def arctan(self):
        return uninterpreted('arctan', self)

    def arctan2(self, o):
        return uninterpreted('arctan2', self, o)

    def exp(self):
        return uninterpreted('exp', self)

    def log(self):
        return uninterpreted('log', self)

    def log10(self):
        return uninterpreted('log10', self)

    def rint(self):
        raise Unsupported('rint')

    def floor(self):
        return SymReal(z3.ToReal(z3.ToInt(self.e)), 'float')

    def isnan(self):
        return False

    def isfinite(self):
        return True

    def fabs(self):
        return abs(self)


numbers.Real.register(SymReal)


class SymDen(Sym):
    """Denominator of an exact rational; only its being 1 is cheap to ask."""
    __slots__ = ('owner',)
    stands_for = int
    __hash__ = None

    def __init__(self, owner):
        self.owner = owner

    def __eq__(self, o):
        if isinstance(o, int) and o == 1:
            return SymBool(z3.IsInt(self.owner.e))
        return num_den(self.owner)[1] == o

    def __ne__(self, o):
        if isinstance(o, int) and o == 1:
            return SymBool(z3.Not(z3.IsInt(self.owner.e)))
        return num_den(self.owner)[1] != o

    def __gt__(self, o):
        if isinstance(o, int) and o == 1:
            return self != 1
        return num_den(self.owner)[1] > o

    def __lt__(self, o):
        return num_den(self.owner)[1] < o

    def __mul__(self, o):
        return num_den(self.owner)[1] * o
    __rmul__ = __mul__


class SymInt(SymNum):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f'SymInt({z3.simplify(self.e)})'

    def __format__(self, spec):
        from . import strings
        return strings.opaque(self)

    __str__ = __repr__

    def _bin(self, o, f, swap=False):
        o = _item(o)
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, SymBool):
            o = SymInt(z3.If(o.e, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(o, SymInt):
            b = o.e
        elif isinstance(o, int):
            b = z3.IntVal(o)
        elif numeric(o):
            return self.real_._bin(o, f, swap)
        else:
            return NotImplemented
        a = self.e
        if swap:
            a, b = b, a
        return SymInt(f(a, b))

    @property
    def real_(self):
        return SymReal(z3.ToReal(self.e), 'frac')

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * self.__index__()
        if isinstance(o, Sym):
            active().nl = True
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b, True)

    def __truediv__(self, o):
        o = _item(o)
        if not numeric(o):
            return NotImplemented
        r = divide(self, o)
        return SymReal(r.e, 'float') if kind_of(o) == 'int' else r

    def __rtruediv__(self, o):
        o = _item(o)
        if not numeric(o):
            return NotImplemented
        r = divide(o, self)
        return SymReal(r.e, 'float') if kind_of(o) == 'int' else r

    def _fdiv(self, a, b):
        """Python floor division and modulo of Int expressions."""
        p = active()
        if p.branch(b == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        # z3: a == b*q + r with 0 <= r < |b|
        q, r = a / b, a % b
        if p.branch(b > 0):
            return q, r
        fix = z3.And(r != 0)
        return (z3.If(fix, q - 1, q) if False else
                z3.If(r == 0, q, q - 1)), z3.If(r == 0, r, r + b)

    def _intop(self, o):
        o = _item(o)
        if isinstance(o, SymInt):
            return o.e
        if isinstance(o, int):
            return z3.IntVal(int(o))
        return None

    def __floordiv__(self, o):
        b = self._intop(o)
        if b is None:
            return self.real_ // o if numeric(o) else NotImplemented
        return SymInt(self._fdiv(self.e, b)[0])

    def __rfloordiv__(self, o):
        b = self._intop(o)
        if b is None:
            return o // self.real_ if numeric(o) else NotImplemented
        return SymInt(self._fdiv(b, self.e)[0])

    def __mod__(self, o):
        b = self._intop(o)
        if b is None:
            return self.real_ % o if numeric(o) else NotImplemented
        return SymInt(self._fdiv(self.e, b)[1])

    def __rmod__(self, o):
        if isinstance(o, str):
            return o % self.__index__()
        b = self._intop(o)
        if b is None:
            return o % self.real_ if numeric(o) else NotImplemented
        return SymInt(self._fdiv(b, self.e)[1])

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        return SymInt(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt(z3.If(self.e >= 0, self.e, -self.e))

    def __pow__(self, o, mod=None):
        o = _item(o)
        if not numeric(o):
            return NotImplemented
        return power(self, o)

    def __rpow__(self, o, mod=None):
        o = _item(o)
        if not numeric(o):
            return NotImplemented
        return power(o, self)

    def _cmp(self, o, f):
        o = _item(o)
        if isinstance(o, SymInt):
            return SymBool(f(self.e, o.e))
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, int):
            return SymBool(f(self.e, z3.IntVal(o)))
        if numeric(o):
            return self.real_._cmp(o, f)
        return NotImplemented

    __eq__ = SymReal.__eq__
    __ne__ = SymReal.__ne__
    __lt__ = SymReal.__lt__
    __le__ = SymReal.__le__
    __gt__ = SymReal.__gt__
    __ge__ = SymReal.__ge__

    __hash__ = SymNum.__hash__

    def __index__(self):
        return active().concretize(self.e)

    __int__ = __index__
    __trunc__ = __index__

    def __float__(self):
        return float(active().concretize(self.e))

    def __round__(self, n=None):
        return self

    def __floor__(self):
        return self
    __ceil__ = __floor__

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def item(self):
        return self

    def sqrt(self):
        return sqrt(self)

    def sin(self):
        return trig(self)[1]

    def cos(self):
        return trig(self)[0]


numbers.Integral.register(SymInt)


# ---------------------------------------------------------------------------
# defined operations
def truncate(e):
    """int(x) of a Real expression: rounds toward zero."""
    return z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))


DIVISION_EXCLUDES_ZERO = 'raise'


def divide(a, b):
    """a / b; a zero divisor raises ZeroDivisionError, or leaves the bounds
    where the values stand for numpy floats (division then yields inf/nan)."""
    p = active()
    if _nonfinite(a) or _nonfinite(b):
        raise Excluded('non-finite operand')
    ea, eb = real_expr(a), real_expr(b)
    if not isinstance(b, Sym):
        if b == 0:
            if getattr(p, 'float_arrays', False):
                raise Excluded('division by zero in a float array')
            raise ZeroDivisionError('division by zero')
    elif p.branch(eb == 0):
        if getattr(p, 'float_arrays', False):
            raise Excluded('division by zero in a float array')
        raise ZeroDivisionError('division by zero')
    if isinstance(b, Sym):
        p.nl = True
    return SymReal(ea / eb, _combine(kind_of(a), kind_of(b)))


def fresh_real(stem):
    return z3.Real(active().name(stem))


def _memo(key, make):
    p = active()
    memo = p.__dict__.setdefault('memo', {})
    k = (key[0],) + tuple(x.get_id() for x in key[1:])
    if k not in memo:
        # keep the expressions alive: ids are only unique among live ones
        memo[k] = (make(), key)
    return memo[k][0]


def sqrt(x):
    return root(x, 2)


def root(x, n):
    """The real, non-negative n-th root (domain x >= 0)."""
    p = active()
    p.nl = True
    e = z3.simplify(real_expr(x))
    if p.branch(e < 0):
        raise Excluded(f'root of a negative number')

    def make():
        r = fresh_real('root')
        prod = r
        for _ in range(n - 1):
            prod = prod * r
        p.add(r >= 0)
        p.add(prod == e)
        return r
    return SymReal(_memo((f'root{n}', e), make), 'float')


def ipow(e, n):
    r = None
    if n > 1:
        active().nl = True
    for _ in range(n):
        r = e if r is None else r * e
    return r if r is not None else z3.RealVal(1)


POW = z3.Function('pow', z3.RealSort(), z3.RealSort(), z3.RealSort())


def power(a, b):
    """Python's ``a ** b`` over the reals."""
    p = active()
    if _nonfinite(a) or _nonfinite(b):
        raise Excluded('non-finite operand')
    if isinstance(b, SymBool):
        b = int(bool(b))
    if not isinstance(a, Sym) and a == 1:
        return type(a)(1) if isinstance(a, float) else 1.0
    if isinstance(a, SymReal) and z3.is_rational_value(a.e) and \
            a.e.as_fraction() == 1:
        return SymReal(a.e, 'float')
    if isinstance(b, SymReal):
        e = z3.simplify(b.e)
        if z3.is_rational_value(e):
            b = Fraction(e.numerator_as_long(), e.denominator_as_long())
        elif getattr(p, 'pow_int_fork', True) and p.branch(z3.IsInt(b.e)):
            try:
                n = p.concretize(z3.ToInt(b.e))
            except Unsupported:
                n = None
            if n is None:
                return _general_power(a, b)
            r = power(a, n)
            return r
        else:
            return _general_power(a, b)
    if isinstance(b, SymInt):
        b = p.concretize(b.e)
    if not isinstance(a, Sym):
        return a ** b
    kind = kind_of(a)
    if isinstance(b, int) or (isinstance(b, (float, Fraction)) and b == int(b)):
        n = int(b)
        if abs(n) > 64:
            raise Unsupported(f'power {n}')
        if isinstance(a, SymInt) and isinstance(b, int) and n >= 0:
            r = z3.IntVal(1)
            for _ in range(n):
                r = r * a.e
            return SymInt(r)
        k = 'float' if (kind == 'float' or isinstance(b, float)) else 'frac'
        ea = real_expr(a)
        if n >= 0:
            return SymReal(ipow(ea, n), k)
        d = divide(1.0 if k == 'float' else Fraction(1), SymReal(ipow(ea, -n), k)
                   if n != -1 else SymReal(ea, k))
        return SymReal(d.e, k)
    q = Fraction(b).limit_denominator(64)
    if abs(q - Fraction(b)) > Fraction(1, 10**12) or abs(q.numerator) > 64:
        return _general_power(a, b)
    r = root(a, q.denominator)
    if q.numerator < 0:
        return SymReal(divide(1.0, SymReal(ipow(r.e, -q.numerator))).e, 'float')
    return SymReal(ipow(r.e, q.numerator), 'float')


def _general_power(a, b):
    p = active()
    ea, eb = z3.simplify(real_expr(a)), z3.simplify(real_expr(b))
    if p.branch(ea <= 0):
        raise Excluded('general power of a non-positive number')
    p.uncertain = True
    facts = []
    if z3.is_rational_value(ea):
        c = ea.as_fraction()
        facts = [(eb == n, rational(float(c) ** n)) for n in range(-6, 7)
                 if abs(n * math.log10(c)) < 300]
        # One name for the powers of c, 1 / c and 10^n, up to rounding.
        c = float(ea.as_fraction())
        if c < 1.0:
            c, eb = 1.0 / c, z3.simplify(-eb)
        n = math.log10(c)
        if abs(n - round(n)) < 1e-12:
            if round(n) == 0:
                return SymReal(z3.RealVal(1), 'float')
            c, eb = 10.0, z3.simplify(eb * round(n))
        ea = rational(Fraction(f'{c:.11e}'))
    t = POW(ea, eb)
    p.add(t > 0)
    if facts:
        p.add(z3.And(*[z3.Implies(k, t == v) for k, v in facts]))
    else:
        p.add(z3.Implies(eb == 0, t == 1))
        p.add(z3.Implies(eb == 1, t == ea))
    return SymReal(t, 'float')


_UF = {}


def uninterpreted(name, *args):
    p = active()
    p.__dict__.setdefault('uf_used', set()).add(name)
    key = (name, len(args))
    if key not in _UF:
        _UF[key] = z3.Function(name, *([z3.RealSort()] * (len(args) + 1)))
    return SymReal(_UF[key](*[z3.simplify(real_expr(a)) for a in args]), 'float')


def trig(x):
    """(cos x, sin x): uninterpreted functions on the unit circle."""
    p = active()
    c = uninterpreted('cos', x)
    s = uninterpreted('sin', x)

    p.nl = True

    def make():
        p.add(c.e * c.e + s.e * s.e == 1)
        p.add(z3.And(c.e >= -1, c.e <= 1, s.e >= -1, s.e <= 1))
        return True
    _memo(('trig', c.e), make)
    return c, s


def arccos(x):
    """The angle t in [0, pi] with cos t == x; outside [-1, 1] undefined."""
    p = active()
    e = z3.simplify(real_expr(x))
    if p.branch(z3.Or(e < -1, e > 1)):
        raise Excluded('arccos outside [-1, 1]')
    t = uninterpreted('arccos', SymReal(e))

    def make():
        c, s = trig(t)
        p.add(c.e == e)
        p.add(z3.And(s.e >= 0, t.e >= 0, t.e <= z3.RealVal('3.1416')))
        return True
    _memo(('arccos', e), make)
    return t


def num_den(x):
    """Numerator and denominator of an exact rational in lowest terms."""
    p = active()
    e = z3.simplify(x.e)

    def make():
        n = z3.Int(p.name('num'))
        d = z3.Int(p.name('den'))
        p.add(d >= 1)
        if p.branch(z3.IsInt(e)):
            p.add(d == 1)
            p.add(z3.ToReal(n) == e)
        else:
            p.add(d >= 2)
            p.add(z3.ToReal(n) == e * z3.ToReal(d))
        return n, d
    n, d = _memo(('numden', e), make)
    return SymInt(n), SymInt(d)
