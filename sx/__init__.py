"""Solver-based checking of goats: symbolic execution of the real source."""
import glob
import importlib.util
import sys


def _load_z3():
    """The z3 bindings live in another interpreter's site-packages."""
    if 'z3' in sys.modules:
        return
    for d in sorted(glob.glob(
            '/opt/veriftools/pyvenv/lib/python3*/site-packages/z3')):
        spec = importlib.util.spec_from_file_location(
            'z3', d + '/__init__.py', submodule_search_locations=[d])
        m = importlib.util.module_from_spec(spec)
        sys.modules['z3'] = m
        spec.loader.exec_module(m)
        _fast_errors(m)
        return
    raise ImportError('z3 bindings not found')


ERRORS = []


def _fast_errors(z3):
    """Collect API errors through z3's callback instead of asking for the error
    code after every call (which doubles the number of foreign calls)."""
    from z3 import z3core
    context = z3.main_ctx()

    def handler(c, e):
        ERRORS.append(e)
    context.eh = z3core.Z3_set_error_handler(context.ctx, handler)

    def check(self, ctx):
        if ERRORS:
            code = ERRORS[-1]
            ERRORS.clear()
            raise self.Exception(self.get_error_message(ctx, code))
    z3core.Elementaries.Check = check
