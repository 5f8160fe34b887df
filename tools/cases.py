"""Write CASES.md: every case of every property, with its bounds."""
import ast
import glob
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    out = ['# Cases', '', 'Generated by `tools/cases.py` from `props/`: what is'
           ' symbolic in each case, and within which bounds.', '']
    for f in sorted(glob.glob(os.path.join(HERE, 'props/C*.py'))):
        tree = ast.parse(open(f).read())
        title = ast.get_docstring(tree).splitlines()[0]
        out += [f'## {title}', '']
        for n in tree.body:
            for d in getattr(n, 'decorator_list', ()):
                if getattr(getattr(d, 'func', None), 'id', '') == 'case':
                    b = d.args[1]
                    b = b.value if isinstance(b, ast.Constant) \
                        else ast.unparse(b)
                    out.append(f'- `{n.name}`: {b}')
        out.append('')
    open(os.path.join(HERE, 'CASES.md'), 'w').write('\n'.join(out))


main()
