"""C35: markdown files turned into notebooks (metaknowledge-mdToNb).

Oracle: the lines of the text.  A line that starts with a bracketed number is code,
the rest of it is in a code cell; everything else is markdown."""
import itertools
import json
import os
import re
import sys
import metaknowledge.bin as mkbin
from mc.core import Scenario
from mc.sizes import sizes

LINES = ['text', '', '[1]x = 1', '[1]y = "a\\n"', '[2]z', 'say "hi" \\d+', '[]bare\ttab', '    [1] not code', '\u00e9\u65e5\u2028\x0b\x1f', ' ', '{0} {{', '[12]', '","', '\\']


def parts(text):
    """[(kind, number, line, blank lines before it)] of the non-blank lines"""
    out, blanks = [], 0
    lines = text.split('\n')
    if lines[-1] == '':
        lines.pop()
    for l in lines:
        m = re.match(r'\[([0-9]*)\](.*)', l, re.S)
        if l == '':
            blanks += 1
        else:
            out.append(('code', m.group(1), m.group(2), blanks) if m else ('markdown', None, l, blanks))
            blanks = 0
    return out


def want_cells(text):
    """[(kind, [line])] without the blank lines of the text around and between cells;
    blank lines between two lines of one markdown cell are kept"""
    cells, last = [], None
    for kind, num, line, blanks in parts(text):
        if last and last[:2] == (kind, num) and blanks < (1 if kind == 'code' else 2):
            cells[-1][1].extend([''] * blanks + [line])
        else:
            cells.append((kind, [line]))
        last = (kind, num)
    return cells


def trim(lines):
    lines = list(lines)
    while lines and lines[-1] == '':
        lines.pop()
    while lines and lines[0] == '':
        lines.pop(0)
    return lines


def check(ctx, text, raw, what):
    try:
        nb = json.loads(raw)
    except ValueError as e:
        ctx.true(False, '%s is not JSON: %s' % (what, e))
    ctx.eq(nb.get('nbformat'), 4, what + ' nbformat')
    ctx.true(isinstance(nb.get('nbformat_minor'), int) and isinstance(nb.get('metadata'), dict), what + ' has the parts of a notebook')
    got = []
    for c in nb['cells']:
        ctx.true(c['cell_type'] in ('markdown', 'code') and isinstance(c.get('metadata'), dict) and all(isinstance(s, str) for s in c['source']), what + ' cell')
        if c['cell_type'] == 'code':
            ctx.eq((c.get('outputs'), c.get('execution_count', 0)), ([], None), what + ' code cell')
        ls = trim(''.join(c['source']).split('\n'))
        if ls:
            got.append((c['cell_type'], ls))
    want = [(k, trim(ls)) for k, ls in want_cells(text)]
    ctx.eq(got, [w for w in want if w[1]], what)


def command(names):
    argv = sys.argv
    sys.argv = ['metaknowledge-mdToNb'] + names
    try:
        mkbin.mkMdToNb()
    finally:
        sys.argv = argv


def run_text(ctx, case):
    # the case is a prefix, all of its one line extensions are run
    head, ends = case
    texts = ['\n'.join([LINES[i] for i in head] + ([LINES[last]] if last >= 0 else [])) + end for last in range(-1 if not head else 0, len(LINES)) for end in ends]
    os.chdir(ctx.dir)
    for i, t in enumerate(texts):
        with open('%d.md' % i, 'w', encoding='utf-8', newline='') as f:
            f.write(t)
    command(['%d.md' % i for i in range(len(texts))])
    for i, t in enumerate(texts):
        ctx.step()
        with open('%d.ipynb' % i, encoding='utf-8') as f:
            check(ctx, t, f.read(), 'notebook of %r' % t)
    ctx.state(head)


def text_cases(tier):
    for n in range(4 if tier == 'quick' else 5):
        for h in itertools.product(range(len(LINES)), repeat=n):
            yield [list(h), ['\n', '']]
    # more blank lines and changes of kind
    for h in itertools.product([0, 1, 2, 4], repeat=6 if tier == 'quick' else 8):
        yield [list(h), ['\n']]


TEXTS = ['a\n', '[1]x\n[1]y\n\nb', '', '\u00e9\u65e5 \\n\n']
NAMES = ['a.md', 'b', 'sub/c.x.md', 'one two.markdown', '\u00e9.md']


def run_files(ctx, case):
    """the command line, for every sequence of files"""
    os.chdir(ctx.dir)
    os.mkdir('sub')
    named = []
    for name, t, absolute in case:
        n = NAMES[name]
        with open(n, 'w', encoding='utf-8', newline='') as f:
            f.write(TEXTS[t])
        named.append(ctx.path(n) if absolute else n)
    ctx.write('a.ipynb', 'in the way' * 300)
    command(named)
    ctx.step()
    files = {os.path.join(d, f)[2:] for d, _, fs in os.walk('.') for f in fs}
    outs = {os.path.splitext(NAMES[n])[0] + '.ipynb': t for n, t, _ in case}
    ctx.eq(files, {NAMES[n] for n, _, _ in case} | set(outs) | {'a.ipynb'}, 'files')
    for n, t, _ in case:
        with open(NAMES[n], encoding='utf-8', newline='') as f:
            ctx.eq(f.read(), TEXTS[t], 'the markdown file is unchanged')
    for o, t in outs.items():
        with open(o, encoding='utf-8') as f:
            check(ctx, TEXTS[t], f.read(), o)
    if 'a.ipynb' not in outs:
        ctx.eq(open('a.ipynb').read(), 'in the way' * 300, 'other files')
    ctx.state(case)


def file_cases(tier):
    yield []
    one = [[n, t, a] for n in range(len(NAMES)) for t in range(len(TEXTS)) for a in (0, 1)]
    for o in one:
        yield [o]
    for a, c in itertools.permutations(range(len(NAMES)), 2):
        for t, u in itertools.product(range(len(TEXTS)), repeat=2):
            yield [[a, t, 0], [c, u, 1]]
    yield [[n, n % len(TEXTS), 0] for n in range(len(NAMES))]


def size_cases(tier):
    for n in sizes(5001 if tier == 'thorough' else 1025):
        yield [n]


def run_size(ctx, case):
    n, = case
    os.chdir(ctx.dir)
    texts = ['\n'.join('line %d' % i for i in range(n)) + '\n', '\n'.join('[%d]x = %d' % (i, i) for i in range(n)), '\n'.join('[1]x = %d' % i for i in range(n)) + '\n',
             '\n'.join('[%d]x\n\ntext %d\n' % (i, i) for i in range(n)), 'text' + '\n' * n + '[1]x' + '\n' * n + 'end\n', 'x' * n + '\n[1]' + 'y' * n, '\u00e9' * n + '\n\n' + '\\n"' * n + '\n',
             '\n'.join('[%d]x\n\ntext\n' % (10 ** (i % 20)) for i in range(n))]
    for i, t in enumerate(texts):
        with open('%d.md' % i, 'w', encoding='utf-8', newline='') as f:
            f.write(t)
    command(['%d.md' % i for i in range(len(texts))])
    for i, t in enumerate(texts):
        ctx.step()
        with open('%d.ipynb' % i, encoding='utf-8') as f:
            check(ctx, t, f.read(), 'notebook %d of size %d' % (i, n))
    ctx.state(n)


SCENARIOS = [
    Scenario('size', size_cases, run_size, bounds='n lines, cells, blank lines, characters of a line; n around 4, 5, 8, 10, 16, ... up to 1025 (thorough 5001)', timeout=240),
    Scenario('text', text_cases, run_text, bounds='every text of up to 4 (5 thorough) lines of {} with and without a final newline; every text of up to 7 (9) lines of text, blank line and two code lines'.format(len(LINES)), timeout=120),
    Scenario('files', file_cases, run_files, bounds='every file name form and pair of files on the command line'),
]
