"""Module state of the code under test, put back before every path.

The code memoises (unit singletons, conversion caches, ...).  Every path must
start from the state that importing the package produced; otherwise it could
see symbolic values of another path.
"""
import collections
import sys
import types

_SAVED = None


def _is_goats(t):
    return getattr(t, '__module__', '').split('.')[0] == 'goats'


def _children(obj):
    """(container of attributes, key, value) triples of a goats object."""
    d = getattr(obj, '__dict__', None)
    if isinstance(d, dict):
        yield from d.items()
    for t in type(obj).__mro__:
        slots = t.__dict__.get('__slots__', ())
        for s in ((slots,) if isinstance(slots, str) else slots):
            if s in ('__dict__', '__weakref__'):
                continue
            try:
                yield s, getattr(obj, s)
            except AttributeError:
                pass


def capture(limit=200000):
    """Record the containers and objects reachable from the goats modules."""
    global _SAVED
    dicts, lists, sets, objs, attrs = [], [], [], [], []
    seen = set()
    stack = []
    for name, mod in list(sys.modules.items()):
        if name.split('.')[0] == 'goats' and mod is not None:
            attrs.append((mod, dict(mod.__dict__)))
            for k, v in list(mod.__dict__.items()):
                if not k.startswith('_sx_') and k != '__builtins__':
                    stack.append(v)
    while stack and len(seen) < limit:
        x = stack.pop()
        if id(x) in seen:
            continue
        t = type(x)
        if t is dict:
            seen.add(id(x))
            dicts.append((x, dict(x)))
            stack.extend(x.values())
        elif t is list:
            seen.add(id(x))
            lists.append((x, list(x)))
            stack.extend(x)
        elif t is set:
            seen.add(id(x))
            sets.append((x, set(x)))
        elif t is tuple:
            seen.add(id(x))
            stack.extend(x)
        elif isinstance(x, type):
            if _is_goats(x):
                seen.add(id(x))
                own = {k: v for k, v in x.__dict__.items()
                       if not (k.startswith('__') and k.endswith('__'))
                       and not k.startswith('_abc_')}
                objs.append((x, own))
                stack.extend(own.values())
        elif isinstance(x, (types.FunctionType, types.ModuleType,
                            types.BuiltinFunctionType)):
            continue
        elif _is_goats(t) or isinstance(x, collections.UserDict):
            seen.add(id(x))
            state = dict(_children(x))
            objs.append((x, state))
            stack.extend(state.values())
        elif isinstance(x, (staticmethod, classmethod, property)):
            continue
    _SAVED = dicts, lists, sets, objs, attrs


def _same_dict(a, b):
    if len(a) != len(b):
        return False
    for k, v in b.items():
        if k not in a or a[k] is not v:
            return False
    return True


def restore():
    if _SAVED is None:
        return
    dicts, lists, sets, objs, attrs = _SAVED
    for x, saved in dicts:
        if len(x) != len(saved) or any(
                i is not j for i, j in zip(x.values(), saved.values())):
            x.clear()
            x.update(saved)
    for x, saved in lists:
        if len(x) != len(saved) or any(
                i is not j for i, j in zip(x, saved)):
            x[:] = saved
    for x, saved in sets:
        if len(x) != len(saved):
            x.clear()
            x.update(saved)
    for x, saved in objs:
        if isinstance(x, type):
            own = x.__dict__
            for k, v in saved.items():
                if own.get(k) is not v:
                    setattr(x, k, v)
            continue
        d = getattr(x, '__dict__', None)
        if d is not None:
            if len(d) == len(saved) and all(
                    d.get(k) is v for k, v in saved.items()):
                continue
            for k in [k for k in d if k not in saved]:
                del d[k]
            for k, v in saved.items():
                if k not in d or d[k] is not v:
                    object.__setattr__(x, k, v)
        else:
            for k, v in saved.items():
                if getattr(x, k, None) is not v:
                    object.__setattr__(x, k, v)
