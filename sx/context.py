"""The interface that harnesses are written against.

A harness is a function of one argument ``cx``.  It runs in two ways:

* ``Symbolic``: inputs are solver variables, ``check`` is a solver query;
* ``Concrete``: inputs come from a solver model and the *unmodified* code runs
  on ordinary Python values (used to replay counterexamples and to validate
  the encoding on witnesses of the explored paths).
"""
import fractions
import math
import numbers

CASES = {}  # property id -> {case name: Case}


class Case:
    def __init__(self, fn, name, bounds, targets, tier, opts):
        self.fn = fn
        self.name = name
        self.bounds = bounds
        self.targets = targets
        self.tier = tier
        self.opts = opts


def case(prop, bounds, targets=(), tier='quick', name=None, **opts):
    """Register a harness. ``tier='thorough'`` cases run only in that tier.

    ``shard=(choice, n)`` splits the exploration over n processes by the value
    of the named choice, which every path must make.  ``warm`` is a function
    that uses the code under test on ordinary values before the exploration.
    """
    def deco(fn):
        n = name or fn.__name__
        table = CASES.setdefault(prop, {})
        if n in table:
            raise ValueError(f'duplicate case {n}')
        table[n] = Case(fn, n, bounds, list(targets), tier, opts)
        return fn
    return deco


class Vacuous(BaseException):
    """An assumption does not hold for these concrete inputs."""


class Violated(BaseException):
    def __init__(self, label, detail=''):
        super().__init__(label)
        self.label = label
        self.detail = detail


def _flat(x):
    import numpy
    if isinstance(x, numpy.ndarray):
        return list(x.flat)
    if isinstance(x, (list, tuple)):
        return [j for i in x for j in _flat(i)]
    return [x]


class Base:
    symbolic = False
    tier = 'quick'

    def thorough(self):
        return self.tier == 'thorough'

    def bound(self, quick, thorough):
        return thorough if self.thorough() else quick

    def reals(self, name, n, *args, **kwargs):
        return [self.real(f'{name}{i}', *args, **kwargs) for i in range(n)]

    def array(self, name, shape, *args, **kwargs):
        import numpy
        if isinstance(shape, int):
            shape = (shape,)
        n = 1
        for s in shape:
            n *= s
        values = self.reals(name, n, *args, **kwargs)
        if self.symbolic:
            a = numpy.empty(n, dtype=object)
            for i, v in enumerate(values):
                a[i] = v
        else:
            a = numpy.array(values, dtype=float)
        return a.reshape(shape)

    def to_array(self, values):
        import numpy
        if self.symbolic:
            values = list(values)
            a = numpy.empty(len(values), dtype=object)
            for i, v in enumerate(values):
                a[i] = v
            return a
        return numpy.array(values, dtype=float)

    def catch(self, fn, *args, **kwargs):
        """(result, None) or (None, exception)."""
        try:
            return fn(*args, **kwargs), None
        except Exception as err:
            return None, err

    def raises(self, types, fn, *args, label='', **kwargs):
        """Check that the call raises one of ``types``."""
        _, err = self.catch(fn, *args, **kwargs)
        self.check(isinstance(err, types),
                   f'{label}: expected {types}, got {type(err).__name__}: {err}'
                   if not isinstance(err, types) else label)
        return err

    def file(self, name, text):
        """The path of a file with this text, in a scratch directory."""
        from . import files
        return files.create(name, text)

    def check_all_close(self, xs, ys, label, **kw):
        import numpy
        xs, ys = numpy.asarray(xs), numpy.asarray(ys)
        self.check(xs.shape == ys.shape,
                   f'{label}: shape {xs.shape} != {ys.shape}'
                   if xs.shape != ys.shape else f'{label}: shape')
        for i, (a, b) in enumerate(zip(_flat(xs), _flat(ys))):
            self.check_close(a, b, label, **kw)

    def check_all_same(self, xs, ys, label):
        import numpy
        xs, ys = numpy.asarray(xs), numpy.asarray(ys)
        self.check(xs.shape == ys.shape,
                   f'{label}: shape {xs.shape} != {ys.shape}'
                   if xs.shape != ys.shape else f'{label}: shape')
        for a, b in zip(_flat(xs), _flat(ys)):
            self.check_same(a, b, label)


class Concrete(Base):
    symbolic = False

    def __init__(self, values, rtol=1e-7, tier='quick'):
        self.values = values
        self.rtol = rtol
        self.observed = {}
        self.checks = 0
        self.tier = tier

    def _get(self, name, default):
        return self.values.get(name, default)

    def real(self, name, lo=-1000, hi=1000, nonzero=False, integral=False):
        v = self._get(name, None)
        f = fractions.Fraction(v) if v is not None else fractions.Fraction(0)
        return float(f)

    def frac(self, name, lo=-1000, hi=1000, nonzero=False):
        v = self._get(name, None)
        return fractions.Fraction(v) if v is not None else fractions.Fraction(0)

    def fractional(self, name, lo, hi):
        return self.frac(name)

    def int(self, name, lo=0, hi=10):
        return int(self._get(name, lo))

    def bool(self, name):
        return bool(self._get(name, False))

    def choice(self, name, options):
        return list(options)[int(self._get(name, 0))]

    def text(self, name, alphabet, minlen=0, maxlen=4):
        return self._get(name, list(alphabet)[0] * minlen)

    def key(self, name):
        return f'k{int(self._get(name, 0))}'

    def hash_mode(self, mode):
        pass

    def float_arrays(self, on=True):
        pass

    def general_powers(self):
        pass

    def assume(self, cond):
        if not bool(cond):
            raise Vacuous()

    def exclude(self, reason):
        raise Vacuous()

    def check(self, cond, label, detail=''):
        self.checks += 1
        if not bool(cond):
            raise Violated(label, detail)

    def _close(self, a, b, scale=0.0, rtol=0.0):
        a, b = float(a), float(b)
        if math.isnan(a) and math.isnan(b):
            return True
        if a == b:
            return True
        rtol = max(rtol, self.rtol)
        return abs(a - b) <= rtol * max(abs(a), abs(b), abs(float(scale))) \
            + 1e-300

    def check_close(self, a, b, label, scale=0.0, rtol=None):
        self.checks += 1
        if not self._close(a, b, scale, rtol or 0.0):
            raise Violated(label, f'{a!r} is not close to {b!r}')

    def check_same(self, a, b, label, scale=0.0):
        self.checks += 1
        if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
            ok = a == b
        else:
            ok = self._close(a, b, max(abs(float(scale)), 1e-3))
        if not ok:
            raise Violated(label, f'{a!r} != {b!r}')

    def observe(self, name, value):
        self.observed.setdefault(name, []).append(
            [float(v) for v in _flat(value)])

    def both(self, *cs):
        return all(bool(c) for c in cs)

    def either(self, *cs):
        return any(bool(c) for c in cs)

    def negate(self, c):
        return not bool(c)

    def implies(self, a, b):
        return (not bool(a)) or bool(b)

    def ite(self, c, a, b):
        return a if bool(c) else b

    def hash_of(self, x):
        return hash(x)

    def sqrt(self, x):
        return math.sqrt(x)

    def decide(self, c):
        return bool(c)
