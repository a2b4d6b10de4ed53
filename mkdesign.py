#!/usr/bin/env python3
"""Writes the per-property part of DESIGN.md (below the marker) from NOTES, the
properties' modules, known_findings.txt, evidence/ and seeded/."""
import ast, json, os, re
here = os.path.dirname(os.path.abspath(__file__))
MARK = '<!-- generated by mkdesign.py below -->'
NOTES = json.load(open(os.path.join(here, 'design_notes.json')))
caught = json.load(open(os.path.join(here, 'seeded_results.json'))) if os.path.exists(os.path.join(here, 'seeded_results.json')) else {}
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
kf = open(os.path.join(here, 'known_findings.txt')).read().splitlines()
out = [MARK, '']
TREE = [None]


def plain(b):
    if isinstance(b, ast.Name):
        return plain(next(n.value for n in ast.walk(TREE[0]) if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == b.id))
    if isinstance(b, ast.Dict):
        return '; '.join('{}: {}'.format(ast.literal_eval(k), plain(v)) for k, v in zip(b.keys, b.values))
    if isinstance(b, ast.Call) and isinstance(b.func, ast.Name):
        return 'N'
    if isinstance(b, ast.Call):
        return re.sub(r'\{\w*\}', 'N', plain(b.func.value))
    if isinstance(b, ast.BinOp):
        return plain(b.left) + plain(b.right)
    if isinstance(b, ast.Attribute):        # default.BOUNDS
        tree = ast.parse(open(next(p for p in (os.path.join(here, x, b.value.id + '.py') for x in ('mc', 'props')) if os.path.exists(p))).read())
        return plain(next(n.value for n in tree.body if isinstance(n, ast.Assign) and n.targets[0].id == b.attr))
    if isinstance(b, (ast.List, ast.Tuple)) and not all(isinstance(x, ast.Constant) for x in b.elts):
        return 'N'
    v = ast.literal_eval(b)
    return '; '.join('{}: {}'.format(*kv) for kv in v.items()) if isinstance(v, dict) else v


def scenarios(i):
    """(name, bounds) of every Scenario(...) call, without importing the module"""
    src = open(os.path.join(here, 'props', i.lower() + '.py')).read()
    TREE[0] = ast.parse(src)
    for n in ast.walk(TREE[0]):
        if isinstance(n, ast.Call) and getattr(n.func, 'id', '') == 'Scenario':
            name = ast.literal_eval(n.args[0])
            b = n.args[3] if len(n.args) > 3 else next(k.value for k in n.keywords if k.arg == 'bounds')
            text = plain(b)
            yield n.lineno, name, text


for p in props:
    i = p['id']
    n = NOTES[i]
    out += ['### {} {}'.format(i, p['title']), '', n['oracle'], '']
    for _, name, text in sorted(scenarios(i)):
        out.append('* `{}`: {}'.format(name, text))
    if n.get('domain'):
        out += ['', 'Left out: ' + n['domain']]
    ev = os.path.join(here, 'cost.json')
    if os.path.exists(ev):
        c = json.load(open(ev)).get(i)
        if c:
            out += ['', 'Cost: ' + '; '.join('{} {:,} executions, {:,} states, {:,} transitions, {:,} comparisons, {:.0f} s'.format(t, *v) for t, v in sorted(c.items())) + '.']
    fixed = [l for l in kf if l.startswith('fixed: property={} '.format(i))]
    known = [l for l in kf if l.startswith('known: property={} '.format(i))]
    if fixed:
        out += ['', 'Defects found and repaired: {} (known_findings.txt).'.format(len(fixed))]
    for l in known:
        out += ['', 'Known finding: ' + l.split(' | ', 1)[1]]
    mine = sorted(d for d in os.listdir(os.path.join(here, 'seeded')) if d.startswith(i + '-'))
    if mine:
        out += ['', 'Planted: ' + '; '.join('`{}` ({}){}'.format(d, json.load(open(os.path.join(here, 'seeded', d, 'meta.json')))['what_it_breaks'], ' -- ' + caught.get(d, 'caught')) for d in mine) + '.']
    out.append('')
path = os.path.join(here, 'DESIGN.md')
head = open(path).read().split(MARK)[0]
open(path, 'w').write(head + '\n'.join(out))
