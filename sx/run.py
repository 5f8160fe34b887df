"""Decide one property: explore its cases, replay, report, write evidence."""
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(HERE, 'out')
JOBS = int(os.environ.get('SX_JOBS', '8'))


def explore_case(name, prop, tier, seed, path, part=0, deadline=1e18):
    """Child process: explore (part of) a case and write its result as JSON."""
    import z3
    from . import core, instrument, strings
    from .context import CASES
    from .symbolic_context import explore
    z3.set_param('smt.random_seed', seed)
    z3.set_param('nlsat.seed', seed)
    case = CASES[prop][name]
    t = time.time()
    core.STATS.__init__()
    instrument.ENTERED.clear()
    opts = dict(case.opts)
    opts.setdefault('budget_s', 300 if tier == 'quick' else 3000)
    # everything together stays well below the 900 s of a quick check, also
    # on a machine with fewer cores; what is cut off is reported as undecided
    opts['budget_s'] = min(opts['budget_s'], max(deadline - time.time(), 5))
    if 'shard' in opts:
        choice, n = opts['shard']
        opts['shard'] = (choice, part, n)
    r = explore(case, tier, **opts)
    data = {
        'case': name,
        'bounds': case.bounds,
        'paths': r.paths, 'completed': r.completed, 'asserting': r.asserting,
        'infeasible': r.infeasible, 'excluded': r.excluded,
        'uncertain_paths': r.uncertain, 'transitions': r.transitions,
        'exhausted': r.exhausted, 'unknown': r.unknown[:20],
        'errors': r.errors[:20], 'candidates': r.candidates,
        'witnesses': r.witnesses, 'functions': sorted(instrument.ENTERED),
        'uninterpreted': sorted(r.uf), 'opaque_texts': strings.OPAQUE,
        'stats': core.STATS.as_dict(), 'wall_s': round(time.time() - t, 2),
    }
    with open(path, 'w') as fp:
        json.dump(data, fp)


def merge(parts):
    """The results of the parts of one case as one."""
    out = dict(parts[0])
    for r in parts[1:]:
        for k in ('paths', 'completed', 'asserting', 'infeasible',
                  'uncertain_paths', 'transitions', 'opaque_texts'):
            out[k] += r[k]
        for k in ('unknown', 'errors', 'candidates', 'witnesses'):
            out[k] = out[k] + r[k]
        for k in ('functions', 'uninterpreted'):
            out[k] = sorted(set(out[k]) | set(r[k]))
        for k in ('excluded', 'stats'):
            out[k] = {i: out[k].get(i, 0) + r[k].get(i, 0)
                      for i in set(out[k]) | set(r[k])}
        out['exhausted'] = out['exhausted'] and r['exhausted']
        out['wall_s'] = max(out['wall_s'], r['wall_s'])
    out['witnesses'] = out['witnesses'][::max(1, len(out['witnesses']) // 20)]
    return out


def run_children(cases, prop, tier, seed, tmp):
    """Fork one child per case (or part of one), at most JOBS at a time."""
    from .context import CASES
    pending = [(n, i) for n in cases for i in range(
        CASES[prop][n].opts.get('shard', (None, 1))[1])]
    running = {}
    failed = {}
    attempts = {}
    deadline = time.time() + (540 if tier == 'quick' else 6 * 3600)
    while pending or running:
        while pending and len(running) < JOBS:
            case, part = pending.pop(0)
            name = f'{case}.{part}'
            path = os.path.join(tmp, f'{name}.json')
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 3
                try:
                    calm_jit(attempts.get(name, 0))
                    explore_case(case, prop, tier, seed, path, part,
                                 deadline)
                    code = 0
                except BaseException:
                    with open(path + '.err', 'w') as fp:
                        fp.write(traceback.format_exc())
                finally:
                    os._exit(code)
            running[pid] = name
        pid, status = os.wait()
        name = running.pop(pid, None)
        if os.environ.get('SX_PROGRESS') and name and status == 0:
            with open(os.path.join(tmp, f'{name}.json')) as fp:
                d = json.load(fp)
            print(f"  {name}: {d['paths']} paths {d['wall_s']} s"
                  f" unknown={len(d['unknown'])} errors={d['errors'][:2]}"
                  f" cands={len(d['candidates'])} solver={d['stats']}"[:600],
                  file=sys.stderr, flush=True)
        if name is not None and status != 0:
            err = os.path.join(tmp, f'{name}.json.err')
            if attempts.get(name, 0) < (1 if os.path.exists(err) else 2):
                # The interpreter crashed (now and then its compiler does).
                if os.path.exists(err):
                    os.unlink(err)
                attempts[name] = attempts.get(name, 0) + 1
                case, _, part = name.rpartition('.')
                pending.insert(0, (case, int(part)))
                continue
            failed[name] = (open(err).read()[-1500:] if os.path.exists(err)
                            else f'exit status {status}')
    return failed


def calm_jit(attempt):
    """Compile less after a crash, then not at all."""
    if attempt:
        import pypyjit
        pypyjit.set_param('threshold=20000,function_threshold=20000'
                          if attempt == 1 else 'off')


def replay(prop, tier, jobs):
    if not jobs:
        return []
    for options in ([], [], ['--jit', 'off']):
        p = subprocess.run(
            [sys.executable, *options, '-m', 'sx.replay'], cwd=HERE,
            input=json.dumps({'property': prop, 'tier': tier, 'jobs': jobs}),
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode == 0 and 'Fatal RPython' not in p.stderr:
            break  # otherwise the interpreter crashed
    if p.returncode != 0:
        raise RuntimeError('replay failed: ' + p.stderr[-2000:])
    return json.loads(p.stdout)


def differs(a, b):
    if a.keys() != b.keys():
        return True
    for k in a:
        if len(a[k]) != len(b[k]):
            return True
        for x, y in zip(a[k], b[k]):
            if len(x) != len(y):
                return True
            for u, v in zip(x, y):
                if abs(u - v) > 1e-6 * max(abs(u), abs(v), 1e-3):
                    return True
    return False


def known_findings(prop):
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as fp:
        return [f for f in json.load(fp)['known'] if f['property'] == prop]


def main(argv=None):
    argv = argv if argv is not None else sys.argv[1:]
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    only = argv[argv.index('--case') + 1] if '--case' in argv else None
    verbose = '-v' in argv
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    start = time.time()
    from . import _load_z3
    _load_z3()
    from . import instrument
    instrument.install()
    import warnings
    warnings.simplefilter('ignore')
    from .context import CASES
    importlib.import_module('props.' + prop)
    names = [n for n, c in CASES[prop].items()
             if (c.tier == 'quick' or tier == 'thorough')
             and (only is None or n == only)]
    with tempfile.TemporaryDirectory(prefix='sx-') as tmp:
        failed = run_children(names, prop, tier, seed, tmp)
        results = []
        for n in names:
            parts = []
            for i in range(CASES[prop][n].opts.get('shard', (None, 1))[1]):
                p = os.path.join(tmp, f'{n}.{i}.json')
                if f'{n}.{i}' not in failed and os.path.exists(p):
                    with open(p) as fp:
                        parts.append(json.load(fp))
            if parts:
                results.append(merge(parts))
    jobs = []
    for r in results:
        for c in r['candidates']:
            jobs.append({'case': r['case'], 'inputs': c['inputs'],
                         'role': 'candidate', 'label': c['label'],
                         'detail': c['detail']})
        for w in r['witnesses']:
            jobs.append({'case': r['case'], 'inputs': w['inputs'],
                         'role': 'witness', 'observed': w['observed']})
    replayed = replay(prop, tier, jobs)
    known = known_findings(prop)
    violations, problems, matched = [], [], {}
    fatal = False  # nothing decided, or the encoding is shown to be wrong
    validated = vacuous = 0
    reproduced = set()
    for job, res in zip(jobs, replayed):
        if res['status'] == 'violated':
            hit = next((f for f in known if f['case'] == job['case']
                        and f['label'] == res['label']), None)
            if hit is not None:
                matched.setdefault(hit['what'], []).append(job)
            else:
                violations.append((job, res))
            if job['role'] == 'candidate':
                reproduced.add((job['case'], job['label']))
        elif job['role'] == 'witness':
            if res['status'] == 'held':
                if job['observed'] and differs(job['observed'], res['observed']):
                    fatal = True
                    problems.append(f"{job['case']}: the encoding predicts "
                                    f"{job['observed']}, the code computes "
                                    f"{res['observed']} for {job['inputs']}")
                else:
                    validated += 1
            else:
                vacuous += 1
    for job, res in zip(jobs, replayed):
        if job['role'] == 'candidate' and res['status'] != 'violated' \
                and not job['label'].startswith('!probe') \
                and (job['case'], job['label']) not in reproduced:
            problems.append(f"{job['case']}: counterexample not reproduced: "
                            f"{job['label']} {job['inputs']} {job['detail']}")
    for n, err in failed.items():
        fatal = True
        problems.append(f'{n}: {err}')
    for r in results:
        for k in ('unknown', 'errors'):
            for e in r[k]:
                problems.append(f"{r['case']}: {k}: {e}")
        if not r['exhausted'] and not r['candidates']:
            problems.append(f"{r['case']}: exploration not exhausted")
        if not r['asserting']:
            fatal = True
            problems.append(f"{r['case']}: vacuous, no path reached an assertion")
    os.makedirs(OUT, exist_ok=True)
    lines = []
    for n, (job, res) in enumerate(violations[:10]):
        path = os.path.join(OUT, f'{prop}-{n}.json')
        with open(path, 'w') as fp:
            json.dump({'property': prop, 'case': job['case'], 'tier': tier,
                       'inputs': job['inputs'], 'label': res['label'],
                       'detail': res['detail'],
                       'how': f'bash {HERE}/check.sh --replay {path}'},
                      fp, indent=1)
        lines.append(f"VIOLATION property={prop} replay={path}")
        print(f"{job['case']}: {res['label']}: {res['detail']} "
              f"inputs={job['inputs']}")
    total = {}
    for r in results:
        for k, v in r['stats'].items():
            total[k] = total.get(k, 0) + v
    functions = sorted({f for r in results for f in r['functions']})
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed,
        'level': 'model_checking',
        'coverage': {
            'states': sum(r['completed'] for r in results),
            'transitions': sum(r['transitions'] for r in results),
            'traces_validated_against_impl': validated,
            'samples': [{'case': r['case'], 'witness': w['inputs']}
                        for r in results for w in r['witnesses'][:2]][:40],
            'exhaustive': not problems,
            'meaning': 'states: execution paths explored to the end, each '
                       'covering every input that satisfies its path '
                       'condition; transitions: branch decisions taken on '
                       'them; traces validated: solver-generated witnesses of '
                       'paths replayed on the unmodified code',
            'paths': sum(r['paths'] for r in results),
            'paths_with_assertions': sum(r['asserting'] for r in results),
            'obligations': total.get('obligations', 0),
            'discharged': total.get('discharged', 0),
            'discharged_by_simplification': total.get('folded', 0),
            'solver_queries': total.get('queries', 0),
            'solver_unknown': total.get('unknown', 0),
            'solver_s': round(total.get('solver_s', 0.0), 2),
            'functions_encoded': functions,
            'cases': [{k: r[k] for k in (
                'case', 'bounds', 'paths', 'completed', 'asserting',
                'infeasible', 'excluded', 'transitions', 'exhausted',
                'uncertain_paths', 'uninterpreted', 'opaque_texts', 'wall_s')}
                | {'obligations': r['stats']['obligations'],
                   'queries': r['stats']['queries'],
                   'solver_s': round(r['stats']['solver_s'], 2)}
                for r in results],
            'witnesses_outside_assumptions_in_floating_point': vacuous,
            'problems': problems[:20],
        },
        'assumptions': [
            'floating-point numbers are encoded as reals; rounding, overflow '
            'and non-finite values are outside the claim',
            'inputs outside the bounds stated per case are outside the claim',
        ],
        'wall_s': round(time.time() - start, 2),
        'violations': len(violations),
    }
    if only is None:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w') as fp:
            json.dump(evidence, fp, indent=1)
    for r in results if verbose else ():
        print(f"  {r['case']}: paths={r['paths']} asserting={r['asserting']} "
              f"obl={r['stats']['obligations']} q={r['stats']['queries']} "
              f"solver={r['stats']['solver_s']:.1f}s wall={r['wall_s']}s "
              f"excluded={r['excluded']} opaque={r['opaque_texts']}")
    for what in matched:
        print(f'KNOWN-FINDING: property={prop} {what}')
    for line in lines:
        print(line)
    if lines:
        return 1
    for p in problems[:20]:
        print('INCONCLUSIVE', p)
    if fatal:
        return 2
    if problems:
        print(f'PARTIAL property={prop} part of the stated bounds was not '
              'decided; see "problems" and "exhaustive" in the evidence')
    print(f"OK property={prop} paths={evidence['coverage']['paths']} "
          f"obligations={total.get('obligations', 0)} "
          f"queries={total.get('queries', 0)} validated={validated} "
          f"wall={evidence['wall_s']}s")
    return 0


def replay_file(path):
    with open(path) as fp:
        data = json.load(fp)
    r = replay(data['property'], data['tier'],
               [{'case': data['case'], 'inputs': data['inputs']}])[0]
    print(json.dumps(r, indent=1))
    return 1 if r['status'] == 'violated' else 0


if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        sys.exit(replay_file(sys.argv[2]))
    try:
        code = main()
    except Exception:
        # A failure of the machinery (a process that ended early, say), not a
        # verdict: try once more, then give no answer.
        traceback.print_exc()
        code = 2
        if not os.environ.get('SX_AGAIN'):
            sys.stdout.flush()
            sys.stderr.flush()
            os.environ['SX_AGAIN'] = '1'
            os.execv(sys.executable,
                     [sys.executable, '-m', 'sx.run', *sys.argv[1:]])
    sys.exit(code)
