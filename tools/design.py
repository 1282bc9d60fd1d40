#!/usr/bin/env python3
"""Renews the generated sections of DESIGN.md: harnesses with bounds, and planted bugs (results from a file)."""
import ast
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '## 4. Planted bugs\n'


def harnesses(tree):
    for f in tree.body:
        if isinstance(f, ast.FunctionDef):
            for d in f.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'harness':
                    yield f.name, (ast.get_docstring(f) or '').split('\n')[0]


def const(tree, name):
    for s in tree.body:
        if isinstance(s, ast.Assign) and s.targets[0].id == name if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) else False:
            return ast.literal_eval(s.value)


def main():
    out = [MARK, '''
Each is in `seeded/<id>/` (patch, demonstration, description). "caught" is the result of the check of the bug's property
(quick). Written from the properties' text and the code, not from the checks; where one was missed, the check was
extended in general (the last column says so), never for the very patch.

| bug | property | caught | |
|---|---|---|---|
''']
    res = {}
    path = os.path.join(HERE, 'tools', 'planted.txt')
    for line in open(path):
        i, caught, note = (line.rstrip('\n').split('|') + ['', ''])[:3]
        res[i.strip()] = (caught.strip(), note.strip())
    for i in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
        m = json.load(open(os.path.join(HERE, 'seeded', i, 'meta.json')))
        c, note = res.get(i, ('?', ''))
        out.append('| %s | %s | %s | %s |\n' % (i, m['property'], c, note))
    out.append('\n## 5. Harnesses and bounds\n\n')
    for f in sorted(os.listdir(os.path.join(HERE, 'props'))):
        if not (f[0] == 'c' and f[1:3].isdigit()):
            continue
        src = open(os.path.join(HERE, 'props', f)).read()
        tree = ast.parse(src)
        out.append('**%s** — %s\n\n' % (f[:3].upper(), (ast.get_docstring(tree) or '').split(': ', 1)[-1]))
        for k, v in const(tree, 'BOUNDS').items():
            out.append('- %s: %s\n' % (k, ' '.join(v.split())))
        outside = const(tree, 'OUTSIDE')
        if outside:
            out.append('- *outside:* %s\n' % '; '.join(outside))
        out.append('- *harnesses:* %s\n\n' % '; '.join('`%s`%s' % (n, ' (%s)' % d.rstrip('.') if d else '') for n, d in harnesses(tree)))
    p = os.path.join(HERE, 'DESIGN.md')
    head = open(p).read().split(MARK)[0]
    open(p, 'w').write(head + ''.join(out))


main()
