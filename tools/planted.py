"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
STRENGTHENED = {
    'coordinate-unit-cache', 'interpolate-in-place', 'unique-identity',
    'registry-overwrites', 'stale-words', 'symmetric-last', 'comments-last',
}
try:
    STRENGTHENED |= set((root / 'tools/strengthened.txt').read_text().split())
except OSError:
    pass
rows = []
for f in root.glob('seeded/*/meta.json'):
    m = json.loads(f.read_text())
    first = ' (missed at first; the check was strengthened)' \
        if f.parent.name in STRENGTHENED else ''
    rows.append((m['property'], f.parent.name, m['needs'] + first, m['what_it_breaks']))
text = (root / 'DESIGN.md').read_text()
mark = '| caught by | planted bug |'
head = text.split(mark)[0].split('PLANTED\n')[0]
table = [mark + ' needs | breaks |', '|---|---|---|---|']
table += ['| ' + ' | '.join(x.replace('|', '\\|') for x in r) + ' |' for r in sorted(rows)]
(root / 'DESIGN.md').write_text(head + '\n'.join(table) + '\n')
