"""Create and judge planted bugs.

  plant.py add SPEC.py      SPEC defines BUGS = [dict(id, property, edits,
                            demo, needs, breaks)]; edits are (file, old, new)
  plant.py run [ID...]      demo clean -> 0, patched: tests pass, demo != 0,
                            and report what the property's check says
Works on /repo and always restores it.
"""
import json
import os
import runpy
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')
REPO = '/repo'


def sh(*cmd, cwd=REPO, **kw):
    return subprocess.run(cmd, cwd=cwd, text=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, **kw)


def clean():
    sh('git', 'checkout', '--', '.')
    assert not sh('git', 'status', '--porcelain').stdout.strip()


DEMO = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python "$(dirname "$(readlink -f "$0")")/demo.py"
'''


def add(spec):
    for b in runpy.run_path(spec)['BUGS']:
        clean()
        d = os.path.join(SEEDED, b['id'])
        os.makedirs(d, exist_ok=True)
        for f, old, new in b['edits']:
            path = os.path.join(REPO, 'src/goats', f)
            text = open(path).read()
            assert text.count(old) == 1, (b['id'], f, text.count(old))
            open(path, 'w').write(text.replace(old, new))
        diff = sh('git', 'diff').stdout
        clean()
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
        with open(os.path.join(d, 'meta.json'), 'w') as fp:
            json.dump({'property': b['property'], 'needs': b['needs'],
                       'what_it_breaks': b['breaks']}, fp, indent=1)
            fp.write('\n')
        print('added', b['id'])


def stable():
    base = json.load(open('/opt/vp/BASELINE.json'))
    return next(v for v in base.values() if isinstance(v, list))


def run(ids, checks=True):
    rows = []
    for i in ids or sorted(os.listdir(SEEDED)):
        d = os.path.join(SEEDED, i)
        meta = json.load(open(os.path.join(d, 'meta.json')))
        clean()
        r = {'id': i, 'property': meta['property']}
        demo = os.path.join(d, 'demo.sh')
        p = sh('bash', demo)
        r['clean_demo'] = p.returncode
        if p.returncode:
            print(p.stdout[-800:])
        try:
            a = sh('git', 'apply', os.path.join(d, 'patch.diff'))
            assert a.returncode == 0, a.stdout
            p = sh('bash', demo)
            r['patched_demo'] = p.returncode
            r['build'] = sh('bash', '/opt/vp/build.sh').returncode
            sh('bash', '/opt/vp/test.sh', '/tmp/plant.json')
            passed = set(json.load(open('/tmp/plant.json'))['passed'])
            r['tests_lost'] = [t for t in stable() if t not in passed]
            if checks:
                c = sh('bash', 'check.sh', meta['property'], cwd=HERE)
                r['check'] = c.returncode
                lines = c.stdout.strip().splitlines()
                r['says'] = next((l[:200] for l in lines
                                  if 'VIOLATION' not in l), '') \
                    if c.returncode == 1 else '\n'.join(lines[-4:])[:800]
        finally:
            clean()
        good = (r['clean_demo'] == 0 and r['patched_demo'] != 0
                and r['build'] == 0 and not r['tests_lost'])
        r['valid'] = good
        print(('VALID ' if good else 'INVALID ')
              + ('CAUGHT ' if r.get('check') == 1 else 'MISSED '), json.dumps(r),
              flush=True)
        rows.append(r)
    return rows


if __name__ == '__main__':
    if sys.argv[1] == 'add':
        add(sys.argv[2])
    else:
        run(sys.argv[2:])
