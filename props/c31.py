"""C31: the command line menus do what the chosen entry says.

A small model of the menus is walked by a Chooser, which produces every script
of answers within the bounds together with the library calls it stands for; the
real program is fed the answers and must end the same way, ask exactly as often,
and leave the same records, graph and files as those library calls."""
import builtins
import code
import csv
import io
import os
import sys
import networkx as nx
import metaknowledge as mk
import metaknowledge.bin.metaknowledgeCLI as cli
from metaknowledge.journalAbbreviations import backend as be
from mc import build as b
from mc import files
from mc import names
from mc.core import Scenario, Chooser, Violation, explore

names.install()
CLIRUN = mk.bin.mkCLI
TAGS = ['AF', 'PY', 'DE']


def isi(recs):
    s = 'FN Thomson Reuters Web of Science\nVR 1.0\n'
    for n, au, py, de, cr in recs:
        s += 'PT J\nAU %s\nAF %s\nTI Title %d\nSO SRC\nJ9 SRC\nVL 1\nBP %d\nPY %d\nDE %s\nCR %s\nUT WOS:%d\nER\n\n' % (
            '\n   '.join(au), '\n   '.join(au), n, n, py, '; '.join(de), '\n   '.join(cr), n)
    return (s + 'EF\n').encode()


DATA = {
    'a.isi': isi([(1, ['A, A', 'B, B'], 1990, ['k', 'l'], ['X X, 1980, YES J, V1, P1', 'Y Y, 1981, NO J, V2, P2']),
                  (2, ['A, A', 'B, B', 'C, C'], 1991, ['k'], ['X X, 1980, YES J, V1, P1', 'Z Z, 1985'])]),
    'b.isi': isi([(3, ['D, D'], 1991, ['k', 'k'], ['A A, 1990, SRC, V1, P1', 'Y Y, 1981, NO J, V2, P2', 'X X, 1980, YES J, V1, P1'])]),
    'c.txt': isi([(4, ['E, E', 'A, A'], 1992, ['m'], ['W W, 1970, OTHER J, V3, P3'])]),
    'sub/s.csv': files.RECORDS['scopus']([(1, 'One'), (2, 'Two')], True),
    'junk.isi.zip': b'nothing known',
    'sub/e.isi': b'FN Thomson Reuters Web of Science\nVR 1.0\n',     # nothing but damage
}


# ---- the model
class End(Exception):
    pass


INVALID = {
    'menu': ['9', 'x'], 'yn': ['maybe'], 'name': [''], 'tag': ['NOT A TAG', ' '], 'tags': ['NOT A TAG', ' '], 'num': ['ten', ''], 'files': ['none.isi', '', 'a.isi none.isi no2'],
}


class Model(object):
    def __init__(self, ch, args, existing, focus, deep=1):
        self.ch, self.args, self.files, self.focus, self.deep = ch, args, set(existing), focus, deep
        self.answers, self.actions, self.consoles = [], [], 0

    def ask(self, kind, valid, stop=True):
        while True:
            odd = self.ch.pick([None] + INVALID[kind] + (['q', 'i'] if kind == 'menu' else []) + (['^C', '^D'] if stop else []))
            if odd is None:
                break
            self.answers.append(odd)
            if odd == '^C':
                raise End(['return', 0])
            if odd == '^D':
                raise End(['error', 'EOFError'])
            if odd == 'q':
                raise End(['exit'])
            if odd == 'i':
                self.consoles += 1
        a = self.ch.all(valid)
        self.answers.append(a)
        return a

    def yes(self, free=True):
        if not free:
            a = 'n' if self.ch.flag() else 'y'
            self.answers.append(a)
            return a == 'y'
        return self.ask('yn', ['y', 'n', 'Y', 'N', '']) not in ('n', 'N')

    def name(self, suffix, checking=True):
        if self.args.get('name'):
            return self.args['name'] + suffix
        while True:
            s = self.ask('name', ['new', 'old']) + suffix
            if checking and s in self.files:
                if not self.yes(False):
                    continue
            return s

    def act(self, *a):
        self.actions.append(list(a))

    def pick(self, stage, menu, short):
        return self.ask('menu', menu if stage in self.focus else short)

    def run(self):
        fs = self.args['files']
        if not fs:
            fs = self.ask('files', ['a.isi', 'a.isi b.isi', ' a.isi  c.txt ', '.'] if 'files' in self.focus else ['a.isi']).split()
        self.act('load', fs)
        if not self.what():
            raise End(['return', 1])
        self.network()
        while self.threshold():
            pass
        while self.output():
            pass
        raise End(['return', 1])

    def what(self):
        o = self.pick('what', list('1234567'), ['1'])
        if o in '23':
            n = self.name('.txt')
            self.act('writeFile', n)
            self.files.add(n)
            return o == '3'
        if o in '45':
            n = self.name('.csv')
            self.act('writeCSV', n)
            self.files.add(n)
            return o == '5'
        if o == '6':
            drop = self.yes()
            n = self.name('.csv')
            self.act('citations', drop, n)
            self.files.add(n)
            return False
        if o == '7':
            self.answers.append(self.ch.all(['', 'otherJ9']))
            self.act('journals', self.answers[-1])
            return False
        return True

    def network(self):
        o = self.pick('network', list('123456'), self.args.get('nets') or (['6'] if 'output' not in self.focus else ['6', '4', '2']))
        tags = self.args.get('tags', TAGS)
        some = tags if 'network' in self.focus else tags[:1]
        if o == '1':
            self.act('oneMode', self.ask('tag', some + (['de'] if len(some) > 1 and tags is TAGS else [])).replace('de', 'DE'))
        elif o == '2':
            self.act('twoMode', self.ask('tag', some), self.ask('tag', some if len(some) > 1 else tags[1:2]))
        elif o == '3':
            tags = [self.ask('tag', some)]
            while True:
                t = self.ask('tags', [''] + (some if len(tags) < 3 else []))
                if not t:
                    break
                tags.append(t)
            self.act('multiMode', tags)
        else:
            self.act({'4': 'citation', '5': 'coCitation', '6': 'coAuthor'}[o])

    def threshold(self):
        n = sum(1 for a in self.actions if a[0] == 'drop')
        if 'threshold' in self.focus:
            o = self.pick('threshold', list('0123456') if n < self.deep else ['0'], None)
        else:
            o = self.ask('menu', ['0'])
        if o == '0':
            return False
        num = self.ask('num', ['0', '1', '2', '3.0', '1.5']) if o in '3456' else None
        self.act('drop', o, num)
        return True

    def output(self):
        o = self.pick('output', list('01234') if not any(a[0] == 'view' for a in self.actions) else list('124'), ['2'])
        if o == '0':
            self.act('view')
            return True
        if o == '1':
            while True:
                n = self.name('', checking=False)
                if {n + '_edgeList.csv', n + '_nodeAttributes.csv'} & self.files and not self.args.get('name'):
                    if not self.yes(False):
                        continue
                break
            self.act('writeGraph', n)
        else:
            n = self.name('.graphml' if o == '4' else '.csv')
            self.act({'2': 'edgeList', '3': 'nodeList', '4': 'graphml'}[o], n)
        return False


LINKED = ['->old.txt', '->old.csv']     # links to nowhere
OLD = ['old.txt', 'old.csv', 'old_edgeList.csv', 'old.graphml']


def scripts(args, focus, bound, existing=(), deep=1):
    def gen(ch):
        m = Model(ch, args, [f.replace('->', '') for f in existing] + list(DATA), focus, deep)
        try:
            m.run()
        except End as e:
            end = e.args[0]
        return {'args': args, 'answers': m.answers, 'actions': m.actions, 'end': end, 'consoles': m.consoles, 'existing': list(existing)}
    return explore(gen, bound)


# ---- what the library does for those actions
def perform(actions, reverse=''):
    """In the working directory.  Returns (records, graph, graphs seen).

    reverse: 'above some weight/degree' as the program does it (known finding)"""
    RC = G = None
    views = []
    for a in actions:
        k = a[0]
        if k == 'load':
            RC = mk.RecordCollection(name='')
            for f in a[1]:
                RC |= mk.RecordCollection(os.path.abspath(f))
        elif k == 'writeFile':
            RC.writeFile(a[1])
        elif k == 'writeCSV':
            RC.writeCSV(a[1])
        elif k == 'citations':
            cs = set()
            for R in RC:
                cs |= {str(c) for c in R.get('citations', []) if not a[1] or c.isJournal()}
            with open(a[2], 'w') as f:
                f.writelines(c + '\n' for c in cs)
        elif k == 'journals':
            pass
        elif k == 'oneMode':
            G = RC.networkOneMode(a[1])
        elif k == 'twoMode':
            G = RC.networkTwoMode(a[1], a[2])
        elif k == 'multiMode':
            G = RC.networkMultiMode(*a[1])
        elif k == 'citation':
            G = RC.networkCitation()
        elif k == 'coCitation':
            G = RC.networkCoCitation()
        elif k == 'coAuthor':
            G = RC.networkCoAuthor()
        elif k == 'drop':
            n = None if a[2] is None else float(a[2])
            if a[1] == '1':
                mk.dropNodesByDegree(G, minDegree=1)
            elif a[1] == '2':
                mk.dropEdges(G, dropSelfLoops=True)
            elif a[1] == '3' or a[1] == '4' and '4' in reverse:
                mk.dropEdges(G, minWeight=n)
            elif a[1] == '4':
                mk.dropEdges(G, maxWeight=n)
            elif a[1] == '5' or a[1] == '6' and '6' in reverse:
                mk.dropNodesByDegree(G, minDegree=n)
            else:
                mk.dropNodesByDegree(G, maxDegree=n)
        elif k == 'view':
            views.append(b.graph_dump(G))
        elif k == 'writeGraph':
            mk.writeGraph(G, a[1])
        elif k == 'edgeList':
            mk.writeEdgeList(G, a[1])
        elif k == 'nodeList':
            mk.writeNodeAttributeFile(G, a[1])
        elif k == 'graphml':
            nx.write_graphml(G, a[1])
    return RC, G, views


def content(path, undirected, lines):
    if not os.path.exists(path):
        return 'link to ' + os.readlink(path)
    raw = open(path, 'rb').read()
    if raw.startswith(b'old '):
        return raw
    if os.path.basename(path) in lines:
        return sorted(raw.decode('utf-8').split('\n'))
    if path.endswith('.graphml'):
        return b.graph_dump(nx.read_graphml(path))
    text = raw.decode('utf-8')
    if path.endswith('.txt'):
        return sorted((R.id, sorted((k, str(R[k])) for k in R)) for R in mk.RecordCollection(path)), len(raw)
    rows = list(csv.reader(io.StringIO(text, newline='')))
    if not rows:
        return []
    head = rows[0]
    out = []
    for r in rows[1:]:
        d = dict(zip(head, r))
        if undirected and 'Source' in d:
            d['Source'], d['Target'] = sorted([d['Source'], d['Target']])
        out.append((sorted(d.items()), len(r)))
    if any(len(r) != len(head) for r in rows):
        return sorted(map(tuple, rows))
    return sorted(out), sorted(head)


def setup(d, existing):
    os.makedirs(os.path.join(d, 'sub'))
    for f, c in DATA.items():
        with open(os.path.join(d, f), 'wb') as o:
            o.write(c)
    for f in existing:
        if f.startswith('->'):
            os.symlink('gone-' + f[2:], os.path.join(d, f[2:]))
            continue
        with open(os.path.join(d, f), 'wb') as o:
            o.write(b'old ' + f.encode())


def tree(d, undirected, lines):
    return {f: content(os.path.join(d, f), undirected, lines) for f in sorted(os.listdir(d)) if f not in DATA and f != 'sub'}


def journals():
    """The databases start out with one known and one excluded journal."""
    for f in os.listdir(be.os.path.dirname(be.__file__)):
        if f.endswith(('.dat', '.dir', '.bak')):
            os.remove(os.path.join(be.os.path.dirname(be.__file__), f))
    be.addToDB({'SRC': 'Source', 'WOSX': 'X'}, dbname=be.abrevDBname)
    be.addToDB({'OTHER J': 'Other'})


class Out(object):
    def write(self, s):
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


def feed(ctx, case, answer):
    """Run the program; returns (end, questions asked, consoles, views)"""
    asked, consoles, views = [], [], []

    def ask(prompt=''):
        asked.append(prompt)
        a = answer(len(asked) - 1, prompt)
        if a == '^C':
            raise KeyboardInterrupt()
        if a == '^D':
            raise EOFError()
        return a
    import metaknowledge.contour
    saved = builtins.input, sys.argv, sys.stdout, code.interact, metaknowledge.contour.quickVisual
    args = case['args']
    argv = ['metaknowledge', '--quiet'] + (['--name', args['name']] if args.get('name') else []) + (['--debug'] if args.get('debug') else []) + (['--suffix', args['suffix']] if args.get('suffix') else []) + args['files']
    cli.RC = cli.G = None
    try:
        builtins.input, sys.argv, sys.stdout = ask, argv, Out()
        code.interact = lambda *a, **k: consoles.append(1)
        metaknowledge.contour.quickVisual = lambda G, *a, **k: views.append(b.graph_dump(G))
        try:
            r = CLIRUN()
            end = ['error', type(r).__name__, str(r)] if isinstance(r, BaseException) else ['return', r]
        except SystemExit:
            end = ['exit']
        except TooMany:
            end = ['asks again']
        except Exception as e:
            end = ['error', type(e).__name__, str(e)]
    finally:
        builtins.input, sys.argv, sys.stdout, code.interact, metaknowledge.contour.quickVisual = saved
    return end, asked, len(consoles), views


class TooMany(BaseException):
    pass


def answers(lst):
    def f(n, prompt):
        if n >= len(lst):
            raise TooMany()
        return lst[n]
    return f


def run(ctx, case):
    home = os.getcwd()
    want_d, got_d = ctx.path('want'), ctx.path('got')
    setup(want_d, case['existing'])
    setup(got_d, case['existing'])
    journals()
    above = any(a[0] == 'drop' and a[1] in '46' for a in case['actions'])
    try:
        ctx.step()
        os.chdir(want_d)
        RC, G, views = perform(case['actions'])
        os.chdir(got_d)
        # option 7 asks about each citation, in the order of the records
        seen = []
        journal = [a[1] for a in case['actions'] if a[0] == 'journals']
        fixed = answers(case['answers'])

        def answer(n, prompt):
            if journal and n >= len(case['answers']):
                seen.append(prompt)
                if len(seen) > 50:
                    raise TooMany()
                return 'y' if 'YES J' in prompt else 'n'
            return fixed(n, prompt)
        end, asked, consoles, seen_views = feed(ctx, case, answer)
    finally:
        os.chdir(home)
    w = 'answers %r' % (case['answers'],)
    want_end = case['end']
    ctx.eq(end[:2], want_end[:2], '%s: the end (%r)' % (w, end))
    if not journal:
        ctx.eq(len(asked), len(case['answers']), w + ': questions')
    ctx.eq(consoles, case['consoles'], w + ': consoles')
    if RC is not None:
        ctx.eq(sorted(R.id for R in cli.RC), sorted(R.id for R in RC), w + ': records')
        ctx.eq((cli.RC.bad, sorted(os.path.basename(f) for f in cli.RC.errors)), (RC.bad, sorted(os.path.basename(f) for f in RC.errors)), w + ': damage')
    elif cli.RC is not None:
        ctx.true(False, w + ': records were loaded')
    lines = {a[2] for a in case['actions'] if a[0] == 'citations'}
    und = G is not None and not G.is_directed()
    have = (cli.G is not None and b.graph_dump(cli.G), tree(got_d, und, lines), seen_views)
    # the graph is kept when the filtering has ended
    done = any(a[0] in ('view', 'writeGraph', 'edgeList', 'nodeList', 'graphml') for a in case['actions']) or end == ['return', 1]

    def expected(G, d, views):
        return (b.graph_dump(G) if G is not None and cli.G is not None else False, tree(d, und, lines), views)
    want = expected(G, want_d, views)
    if have != want and above:
        for rev in ('46', '4', '6'):
            wrong_d = ctx.path('wrong' + rev)
            setup(wrong_d, case['existing'])
            try:
                os.chdir(wrong_d)
                _, wrongG, wviews = perform(case['actions'], rev)
            finally:
                os.chdir(home)
            if have == expected(wrongG, wrong_d, wviews):
                ctx.true(False, '%s: what is above the threshold was kept and what is below was dropped' % w, key='above')
    if G is not None and not above and done:
        ctx.true(cli.G is not None, w + ': no graph')
    for x, y, n in zip(have, want, ('graph', 'files', 'views')):
        ctx.eq(x, y, '%s: %s' % (w, n))
    if journal:
        man = journal[0] or be.manualDBname
        js = {c.journal for R in cli.RC for c in R.get('citations', []) if getattr(c, 'journal', None)}
        open_ = js - {'SRC', 'OTHER J'} if man == be.manualDBname else js - {'SRC'}
        exp = {'OTHER J': ['Other']} if man == be.manualDBname else {}
        for j in open_:
            exp[j] = [j] if j == 'YES J' else ['']
        ctx.eq(be.getj9dict(manualDB=man, returnDict='manual') if exp else {}, exp, w + ': journals')
        if man != be.manualDBname:
            ctx.eq(be.getj9dict(returnDict='manual'), {'OTHER J': ['Other']}, w + ': default journals')
        ctx.eq(len(seen), len(open_), w + ': each unknown journal once')
    ctx.state((tuple(a[0] for a in case['actions']), tuple(end[:2])))


F = {'files': ['a.isi', 'b.isi']}
N = {'files': ['a.isi', 'b.isi'], 'name': 'new'}


def cases(tier):
    t = 1 if tier == 'thorough' else 0
    seen = set()
    for args, focus, bound, existing, deep in [
            ({'files': []}, ['files', 'what'], 1 + t, [], 1),
            ({'files': []}, ['files', 'what'], 1 + t, OLD, 1),
            (F, ['what', 'output'], 1 + t, OLD, 1),
            (N, ['what', 'output'], 1, OLD + ['new.csv', 'new_edgeList.csv'], 1),
            (F, ['network'], 1 + t, [], 1),
            ({'files': ['a.isi', 'c.txt']}, ['threshold'], 1 + t, [], 1 + t),
            (F, ['threshold'], 0, [], 2 + t),
            (F, ['network', 'output'], t, OLD, 1),
            ({'files': ['sub/s.csv'], 'tags': ['Authors', 'Year', 'EID']}, ['network'], 1, [], 1),
            (dict(F, debug=True), ['what'], 1, [], 1),
            ({'files': ['a.isi'], 'suffix': '.isi'}, ['what'], 1, [], 1),
            (F, ['what'], 0, LINKED, 1),
            (dict(F, nets=['4', '3', '1']), ['threshold'], 0, [], 1 + t),
            ({'files': ['sub/e.isi', 'a.isi']}, [], 1, [], 1),
            ({'files': ['a.isi', 'sub/e.isi', 'b.isi']}, ['what'], 0, [], 1),
            (F, [], 3, [], 1)]:
        for c in scripts(args, focus, bound, existing, deep):
            k = repr(c)
            if k not in seen:
                seen.add(k)
                yield c


def run_again(ctx, case):
    """Wrong answers can be given many times at any question."""
    kind, pos, bad, times = case
    base = {'args': F, 'existing': [], 'consoles': 0}
    d = ctx.path('got')
    setup(d, [])
    journals()
    good = {'three': ['1', '3', 'AF', 'PY', '', '3', '1', '0', '2', 'new'], 'files': ['a.isi', '2', 'new']}[kind]
    if kind == 'files':
        base['args'] = {'files': []}
    home = os.getcwd()
    try:
        os.chdir(d)
        ctx.step()
        end, asked, _, _ = feed(ctx, base, answers(good[:pos] + [bad] * times + good[pos:]))
    finally:
        os.chdir(home)
    ctx.eq(end, ['return', 1], '%r' % (case,))
    ctx.eq(len(asked), len(good) + times, '%r: questions' % (case,))
    ctx.eq(len(set(asked[pos:pos + times + 1])), 1, '%r: the question is put differently' % (case,))


def again_cases(tier):
    for times in (2, 20) + ((60,) if tier == 'thorough' else ()):
        for pos, bad in [(0, 'x'), (0, ''), (1, '7'), (2, 'ZZ'), (3, 'ZZ'), (4, 'ZZ'), (5, '-1'), (6, '1,5'), (7, 'a'), (8, '77'), (9, '')]:
            yield ['three', pos, bad, times]
        yield ['files', 0, 'none', times]
        yield ['files', 0, ' ', times]


SCENARIOS = [
    Scenario('menus', cases, run, bounds='scripts of answers: each of the stages (files, what to do, network and tags, filters up to 2 (3 thorough) deep, output) in full with the others fixed, with and without --name, --debug, --suffix and existing files, with at most one (two thorough) wrong answer, console, quit, interrupt or end of input at any question; three of them on a short script'),
    Scenario('again', again_cases, run_again, bounds='2 and 20 (60 thorough) wrong answers in a row at every question of two sessions'),
]
