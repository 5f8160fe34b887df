"""Single source of properties.jsonl and MANIFEST.json: python3 meta.py."""
import importlib.util
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
SRC = 'src/goats/core/'
TECHNIQUE = ('solver-based: symbolic execution of the real Python code over '
             'z3 terms, one SMT query per assertion and path')
NOTE = ('Every path of the harness within the stated bounds is explored and '
        'each assertion is decided by z3 for all values on that path; floats '
        'are encoded as reals. Bounds are per case, in the evidence.')

PROPERTIES = []
NOT_APPLICABLE = []


def prop(id, title, statement, quantifier, why, files, mechanism,
         over=('inputs',), note='', state=()):
    assert len(title) <= 80, title
    anchors = {
        'files': [SRC + f if not f.startswith('src') else f for f in files],
        'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
        'hook_needed': None,
    }
    if state:
        anchors['state'] = [
            {'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    PROPERTIES.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': list(over), 'text': quantifier},
        'why_tests_cant': why, 'anchors': anchors, '_note': note,
    })


def not_applicable(id, reason):
    NOT_APPLICABLE.append({'property': id, 'reason': reason})


def main():
    from meta_properties import define
    define(prop, not_applicable)
    declined = {n['property'] for n in NOT_APPLICABLE}
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fp:
        for p in PROPERTIES:
            p = {k: v for k, v in p.items() if k != '_note'}
            fp.write(json.dumps(p, ensure_ascii=False) + '\n')
    manifest = {
        'version': 1,
        'setup_cmd': 'bash setup.sh',
        'checks': [
            {
                'property': p['id'],
                'quick_cmd': f"bash check.sh {p['id']}",
                'thorough_cmd': f"bash check.sh {p['id']} --tier thorough",
                'evidence_file': f"evidence/{p['id']}.json",
                'technique': TECHNIQUE,
                'level': 'model_checking',
                'level_note': (p['_note'] + ' ' if p['_note'] else '') + NOTE,
            }
            for p in PROPERTIES if p['id'] not in declined
        ],
        'not_applicable': NOT_APPLICABLE,
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fp:
        json.dump(manifest, fp, indent=1, ensure_ascii=False)
        fp.write('\n')


if __name__ == '__main__':
    main()
