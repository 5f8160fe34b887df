"""Symbolic implementation of the harness interface, and the explorer."""
import fractions
import os
import time
import traceback

import z3

from . import core, files, instrument, state, strings
from .context import Base
from .core import (Control, Diverged, Excluded, Infeasible, Path, PathLimit,
                   Sym, SymBool, SymInt, SymReal, Unsupported, STATS)


class SymKey(Sym):
    """An opaque dictionary key that behaves like a ``str``.

    Only equality is meaningful: every hash is equal, so that native dicts and
    sets compare keys, and each comparison asks the solver.
    """
    stands_for = str
    __slots__ = ('e', 'label')

    def __init__(self, e, label):
        self.e = e
        self.label = label

    def __hash__(self):
        return 11

    def __eq__(self, o):
        if isinstance(o, SymKey):
            return SymBool(self.e == o.e)
        if isinstance(o, str):
            return False
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, SymKey):
            return SymBool(self.e != o.e)
        if isinstance(o, str):
            return True
        return NotImplemented

    def __lt__(self, o):
        if isinstance(o, SymKey):
            return SymBool(self.e < o.e)
        return NotImplemented

    def __gt__(self, o):
        if isinstance(o, SymKey):
            return SymBool(self.e > o.e)
        return NotImplemented

    def __repr__(self):
        return f'<key {self.label}>'

    __str__ = __repr__

    def __format__(self, spec):
        return strings.opaque(self)

    def __len__(self):
        return 2

    def __bool__(self):
        return True

    def __iter__(self):
        raise Unsupported('iteration over an opaque key')

    def contained_in(self, text):
        return False

    def strip(self, *a):
        return self

    def lower(self):
        return self

    def hash_expr(self):
        return instrument._HR(z3.ToReal(self.e))


class Candidate:
    def __init__(self, label, inputs, detail=''):
        self.label, self.inputs, self.detail = label, inputs, detail


def model_number(m, e):
    v = m.eval(e, model_completion=True)
    v = z3.simplify(v)
    if z3.is_int_value(v):
        return str(v.as_long())
    if z3.is_rational_value(v):
        return str(fractions.Fraction(v.numerator_as_long(),
                                      v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(24)
        return str(fractions.Fraction(a.numerator_as_long(),
                                      a.denominator_as_long()))
    raise Unsupported(f'model value {v}')


class Symbolic(Base):
    symbolic = True

    def __init__(self, path, report, tier, shard=None):
        self.path = path
        self.shard = shard  # (choice, i, n): explore values = i mod n only
        self.report = report
        self.tier = tier
        self.checks = 0
        self.observations = []

    # -- inputs -------------------------------------------------------------
    def _register(self, name, kind, e):
        if name in self.path.inputs:
            raise RuntimeError(f'duplicate input {name}')
        self.path.inputs[name] = (kind, e)

    def real(self, name, lo=-1000, hi=1000, nonzero=False, kind='float'):
        e = z3.Real(name)
        self._register(name, 'real', e)
        if lo is not None:
            self.path.add(e >= core.rational(lo))
        if hi is not None:
            self.path.add(e <= core.rational(hi))
        if nonzero:
            self.path.add(e != 0)
        return SymReal(e, kind)

    def frac(self, name, lo=-1000, hi=1000, nonzero=False):
        return self.real(name, lo, hi, nonzero, kind='frac')

    def fractional(self, name, lo, hi):
        """A rational that is not an integer."""
        x = self.frac(name, lo, hi)
        self.path.assume(z3.Not(z3.IsInt(x.e)))
        return x

    def int(self, name, lo=0, hi=10):
        e = z3.Int(name)
        self._register(name, 'int', e)
        self.path.add(z3.And(e >= lo, e <= hi))
        return SymInt(e)

    def bool(self, name):
        e = z3.Int(name)
        self._register(name, 'int', e)
        return self.path.pick(e, 2) == 1

    def choice(self, name, options):
        options = list(options)
        e = z3.Int(name)
        self._register(name, 'int', e)
        only = None
        if self.shard is not None and name == self.shard[0]:
            _, i, n = self.shard
            only = [k for k in range(len(options)) if k % n == i]
        return options[self.path.pick(e, len(options), only)]

    def text(self, name, alphabet, minlen=0, maxlen=4):
        n = z3.Int(f'{name}.len')
        k = minlen + self.path.pick(n, maxlen - minlen + 1)
        ranges = []
        codes = frozenset(map(ord, alphabet))
        for code in sorted(codes):
            if ranges and ranges[-1][1] == code - 1:
                ranges[-1][1] = code
            else:
                ranges.append([code, code])
        cs = []
        for i in range(k):
            e = z3.Int(f'{name}[{i}]')
            self.path.add(z3.Or(*[z3.And(e >= a, e <= b) for a, b in ranges]))
            cs.append(strings.Char(e, codes))
        self._register(name, 'text', [c.e for c in cs])
        return strings.make(cs)

    def key(self, name):
        e = z3.Int(name)
        self._register(name, 'int', e)
        self.path.add(z3.And(e >= 0, e <= 64))
        return SymKey(e, name)

    def hash_mode(self, mode):
        self.path.hash_mode = mode

    def float_arrays(self, on=True):
        """Values stand for numpy floats: x/0 leaves the bounds (inf, nan)."""
        self.path.float_arrays = on

    def general_powers(self):
        """Keep symbolic exponents symbolic, also in texts used as keys.

        Sound for non-integral exponents: a text with such an exponent cannot
        equal one of the code's concrete keys.
        """
        self.path.pow_int_fork = False
        self.path.skeleton_hash = True

    # -- logic --------------------------------------------------------------
    def assume(self, cond):
        self.path.assume(SymBool.lift(cond))

    def exclude(self, reason):
        raise Excluded(reason)

    def both(self, *cs):
        return core.sand(*cs)

    def either(self, *cs):
        return core.sor(*cs)

    def negate(self, c):
        return core.snot(c)

    def implies(self, a, b):
        return core.implies(a, b)

    def ite(self, c, a, b):
        c = SymBool.lift(c)
        return SymReal(z3.If(c, core.real_expr(a), core.real_expr(b)))

    def decide(self, c):
        return bool(c)

    def hash_of(self, x):
        return instrument.hash_of(x)

    def sqrt(self, x):
        return core.sqrt(x)

    def check_same(self, a, b, label, scale=0.0):
        if strings.is_text(a) or strings.is_text(b):
            self.check(a == b, label)
            return
        self.checks += 1
        if not (core.numeric(core._item(a)) and core.numeric(core._item(b))):
            self.check(False, f'{label}: not numbers: {type(a)}, {type(b)}')
            return
        ea, eb = core.real_expr(core._item(a)), core.real_expr(core._item(b))
        d = ea - eb
        m = z3.RealVal('1/1000')
        self._obligation(
            ea == eb, label,
            gaps=[z3.Or(d > m + _abs(eb) / 100, -d > m + _abs(eb) / 100)])

    def check_close(self, a, b, label, scale=0.0, rtol=1e-9):
        self.checks += 1
        if not (core.numeric(core._item(a)) and core.numeric(core._item(b))):
            self.check(False, f'{label}: not numbers: {type(a)}, {type(b)}')
            return
        ea, eb = core.real_expr(core._item(a)), core.real_expr(core._item(b))
        s = core.real_expr(abs(scale))

        def near(tol):
            t = core.rational(tol)
            d = _abs(ea - eb)
            return z3.Or(d <= t * _abs(ea), d <= t * _abs(eb), d <= t * s)
        self._obligation(near(rtol), label,
                         gaps=[z3.Not(near(1e-2)), z3.Not(near(1e-5))])

    def check(self, cond, label, detail=''):
        self.checks += 1
        if isinstance(cond, Sym):
            if isinstance(cond, SymBool):
                e = cond.e
            else:
                e = z3.BoolVal(bool(cond))
        else:
            e = z3.BoolVal(bool(cond))
        self._obligation(e, label, detail=detail)

    def _obligation(self, e, label, gaps=(), detail=''):
        STATS.obligations += 1
        e = z3.simplify(e)
        if z3.is_true(e):
            STATS.discharged += 1
            STATS.folded += 1
            return
        neg = z3.Not(e)
        r, m = self.path.prove(neg)
        if r == 'unsat':
            STATS.discharged += 1
            return
        if r == 'unknown':
            self.report.unknown.append(label)
            return
        # A counterexample with a wide margin survives floating point.
        for g in gaps:
            r2, m2 = core.solve(self.path.constraints + [neg, g], 10000)
            if r2 == 'sat':
                m = m2
                break
        self.report.candidate(label, self.inputs(m), detail)

    def inputs(self, m):
        out = {}
        for name, (kind, e) in self.path.inputs.items():
            if kind == 'text':
                out[name] = ''.join(
                    chr(int(model_number(m, c))) for c in e)
            elif kind == 'int':
                out[name] = int(model_number(m, e))
            else:
                out[name] = model_number(m, e)
        return out

    def observe(self, name, value):
        from .context import _flat
        self.observations.append((name, _flat(value)))


def _abs(e):
    return z3.If(e >= 0, e, -e)


class Report:
    """What the exploration of one case produced."""

    max_candidates = 12

    def __init__(self):
        self.candidates = []
        self.unknown = []
        self.errors = []
        self.paths = 0
        self.completed = 0
        self.asserting = 0
        self.infeasible = 0
        self.excluded = {}
        self.uncertain = 0
        self.witnesses = []
        self.transitions = 0
        self.exhausted = True
        self.uf = set()

    def candidate(self, label, inputs, detail=''):
        if sum(1 for c in self.candidates if c['label'] == label) < 4:
            self.candidates.append(
                {'label': label, 'inputs': inputs, 'detail': detail})


def short(err):
    tb = traceback.extract_tb(err.__traceback__)
    where = '; '.join(f'{os.path.basename(f.filename)}:{f.lineno}'
                      for f in tb[-4:])
    return f'{type(err).__name__}: {str(err)[:300]} [{where}]'


def explore(case, tier, budget_s=600.0, max_paths=100000, witnesses=10,
            path_budget_s=60.0, shard=None, warm=None):
    report = Report()
    if warm is not None:
        # An ordinary run beforehand: every path starts from the memoised
        # units and names that it leaves behind.
        try:
            warm()
        except Exception:
            pass
    worklist = [[]]
    start = time.time()
    seen_unsupported = 0
    state.capture()
    while worklist:
        if (time.time() - start > budget_s or report.paths >= max_paths):
            report.exhausted = False
            break
        if len(report.candidates) >= report.max_candidates:
            break
        prefix = worklist.pop()
        path = Path(prefix, path_budget_s)
        cx = Symbolic(path, report, tier, shard)
        state.restore()
        core.CURRENT = path
        report.paths += 1
        status = 'ok'
        try:
            case.fn(cx)
        except Infeasible:
            status = 'infeasible'
            report.infeasible += 1
        except Excluded as err:
            status = 'excluded'
            report.excluded[str(err)] = report.excluded.get(str(err), 0) + 1
        except (Unsupported, PathLimit) as err:
            status = 'unsupported'
            # The real code may still be wrong here: replay a model of the path.
            r, m = core.solve(path.constraints)
            if r == 'sat':
                try:
                    report.candidate('!probe ' + type(err).__name__,
                                     cx.inputs(m), short(err))
                except Control:
                    pass
            report.errors.append(short(err))
            seen_unsupported += 1
            if seen_unsupported > 8:
                report.exhausted = False
                core.CURRENT = None
                break
        except Diverged as err:
            report.errors.append(short(err))
            status = 'diverged'
        except Exception as err:
            status = 'exception'
            r, m = core.solve(path.constraints)
            if r == 'sat':
                report.candidate(f'unexpected {type(err).__name__}',
                                 cx.inputs(m), short(err))
            elif r == 'unknown':
                report.unknown.append(f'unexpected {short(err)}')
        finally:
            files.cleanup()
        report.transitions += len(path.decisions)
        worklist.extend(path.alternatives)
        if path.uncertain:
            report.uncertain += 1
        report.uf |= path.__dict__.get('uf_used', set())
        if status == 'ok':
            report.completed += 1
            if cx.checks:
                # reachability twin: assert(false) here must be violated
                r = path.feasible()
                if r == 'sat':
                    report.asserting += 1
                    _witness(report, cx, path, witnesses)
                elif r == 'unsat':
                    report.infeasible += 1
        core.CURRENT = None
    return report


def _witness(report, cx, path, limit):
    """Keep a bounded, evenly thinned set of path witnesses."""
    n = report.asserting
    stride = report.__dict__.setdefault('stride', 1)
    if n % stride:
        return
    try:
        m = path.model
        w = {'inputs': cx.inputs(m), 'observed': {}}
        for name, values in cx.observations:
            w['observed'].setdefault(name, []).append(
                [float(fractions.Fraction(model_number(m, core.real_expr(core._item(v)))))
                 for v in values])
        if any(k for k in path.__dict__.get('uf_used', ())):
            w['observed'] = {}
    except Control:
        return
    report.witnesses.append(w)
    if len(report.witnesses) >= 2 * limit:
        report.witnesses = report.witnesses[::2]
        report.stride = stride * 2
