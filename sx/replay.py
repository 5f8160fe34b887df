"""Run harnesses concretely on the unmodified code.

stdin: JSON {property, tier, jobs: [{case, inputs}]}; stdout: JSON results.
"""
import contextlib
import importlib
import io
import json
import os
import signal
import sys
import time
import traceback

REPO = os.environ.get('SX_REPO', '/repo')


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


def run_one(fn, inputs, tier, limit=20):
    from . import files
    from .context import Concrete, Vacuous, Violated
    cx = Concrete(inputs, tier=tier)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        fn(cx)
        out = {'status': 'held', 'observed': cx.observed}
    except Vacuous:
        out = {'status': 'vacuous'}
    except Violated as err:
        out = {'status': 'violated', 'label': err.label, 'detail': err.detail}
    except Timeout:
        out = {'status': 'violated', 'label': 'does not terminate',
               'detail': f'no result within {limit} s'}
    except Exception as err:
        tb = traceback.extract_tb(err.__traceback__)
        where = '; '.join(f'{os.path.basename(f.filename)}:{f.lineno}'
                          for f in tb[-4:])
        out = {'status': 'violated',
               'label': f'unexpected {type(err).__name__}',
               'detail': f'{str(err)[:300]} [{where}]'}
    finally:
        signal.alarm(0)
        files.cleanup()
    return out


def main():
    sys.path.insert(0, os.path.join(REPO, 'src'))
    import warnings
    warnings.simplefilter('ignore')
    request = json.load(sys.stdin)
    out = sys.stdout
    sys.stdout = sys.stderr
    import goats
    src = os.path.realpath(goats.__file__)
    if not src.startswith(os.path.realpath(os.path.join(REPO, 'src'))):
        raise SystemExit(f'goats imported from {src}')
    from .context import CASES
    importlib.import_module('props.' + request['property'])
    table = CASES[request['property']]
    results = []
    for job in request['jobs']:
        results.append(run_one(table[job['case']].fn, job['inputs'],
                               request['tier']))
    json.dump(results, out)


if __name__ == '__main__':
    main()
