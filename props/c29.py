"""C29: analyses leave everything as it was and do not depend on what ran before.

Every ordered pair (triple in depth) of calls on the same objects: the last one
must give what it gives on its own, and all objects must be as if never used."""
import contextlib
import copy
import csv
import io
import itertools
import multiprocessing
import os
import random
import shutil
import signal
import sys
import networkx as nx
import metaknowledge as mk
from mc import build as b
from mc import files
from mc import names
from mc.core import Scenario

names.install()
JOURNALS = {'J ONE': ['Journal One'], 'NATURE': ['Nature'], 'J SCI': ['Journal of Science']}
C1, C2, C3, CB = 'Aho A, 1990, J ONE, V1, P2', 'Bee B, 1991, NATURE, V3', '[Anonymous], 1991, J ONE', 'Cox C, 1980, BOOK OF X'


def wosrecs(first=0):
    R = [b.wos(1, AU=['Smith, J', 'Doe, J'], AF=['Smith, John', 'Doe, Jane'], TI=['The first, of "many"'], SO=['J ONE'], J9=['J ONE'], PY=['1990'], VL=['1'], BP=['2'], DE=['cats; dogs'], ID=['RUN'],
                AB=['We run 3 dogs in 1999. (C) 1990 Elsevier Ltd. All rights reserved.'], CR=[C1, C2, C3], TC=['5'], WC=['p; q'], EM=['a@b.c'], DI=['10.1/a']),
         b.wos(2, AU=['Doe, J'], AF=['Doe, Jane'], TI=['Second'], SO=['NATURE'], J9=['NATURE'], PY=['1991'], VL=['3'], DE=['cats'], AB=['Cats run'], CR=[C1, 'Smith J, 1990, J ONE, V1, P2', C3], TC=['1'], WC=['q']),
         b.wos(3, AU=['Roe, K', 'Abe, A', 'Moe, M'], AF=['Roe, Kim', 'Abe, Ann', 'Moe, Max'], TI=['Third'], SO=['J ONE'], J9=['J ONE'], PY=['1991'], CR=['Doe J, 1991, NATURE, V3', C1, CB], DE=['dogs; ants; cats'], C1=['[Roe, Kim] Uni W, Waterloo, ON, Canada']),
         b.wos(4, PT=['B'], TI=['No authors'], CR=[C2, C2]),
         b.wos(5, AU=['Doe, J'], PY=['1993'], TI=['Fifth'], AB=['dogs dogs'])]
    return R[first:] + [b.badwos()]


def mixedfile(d, titles=('Title one', 'Title two')):
    out = []
    for k, f in files.RECORDS.items():
        p = os.path.join(d, k + '.txt')
        with open(p, 'wb') as o:
            o.write(f(list(enumerate(titles, 1)), True))
        out += list(mk.RecordCollection(p))
    return out


def twinrecs():
    """Records with the IDs of those of 'rc', but other fields"""
    return [b.wos(1, AU=['Poe, E'], AF=['Poe, Edgar'], TI=['The raven'], SO=['J SCI'], J9=['J SCI'], PY=['1992'], VL=['4'], BP=['9'], DE=['birds'], CR=[C3, CB], TC=['2'], AB=['Once upon']),
            b.wos(2, AU=['Poe, E', 'Smith, J'], AF=['Poe, Edgar', 'Smith, John'], TI=['Second'], SO=['J ONE'], J9=['J ONE'], PY=['1992'], DE=['cats', 'birds'], CR=['Poe E, 1992, J SCI, V4, P9', C2]),
            b.wos(3, AU=['Roe, K'], AF=['Roe, Kim'], TI=['Other third'], SO=['NATURE'], J9=['NATURE'], PY=['1993'], CR=['Poe E, 1992, J SCI, V4, P9', C1]),
            b.wos(4, TI=['Authors unknown'], CR=[C1, C1], PY=['1990']),
            b.badwos('damaged'),
            b.badwos()]


def flagged(C):
    """As if two of its files had been damaged"""
    C.bad = True
    C.errors = {'one.txt': ValueError('cut'), 'two.txt': mk.mkException('cut')}
    return C


def grantset(d, other=False):
    for k, f in files.GRANTS.items():
        with open(os.path.join(d, files.GRANTNAME[k].format(k)), 'wb') as o:
            t = f([(1, 'Title one'), (2, 'Title two')] if k != 'nsf' else [(1, 'Title one')], True)
            if other:
                for x, y in ((b'Doe', b'Poe'), (b'Uni', b'College'), (b'Title', b'Project')):
                    t = t.replace(x, y) if not t.startswith(b'<') else t.replace(b'>' + x, b'>' + y)
            o.write(t)
    return mk.GrantCollection(d, name='Grants')


def pairgraph(G):
    G.add_node('a', type='x', count=2, label='A')
    G.add_node('b', type='y', count=1, label='B')
    G.add_node('c', type='x', count=1, label='C')
    G.add_edge('a', 'b', weight=2)
    G.add_edge('c', 'b', weight=1)
    return G


MAKE = {
    'rc': lambda d: b.rc(wosrecs(), 'Works'),
    'rc2': lambda d: b.rc(wosrecs(2)[:2] + [b.wos(9, AU=['New, N'], AF=['New, Nan'], TI=['Ninth'], PY=['1995'], CR=['Smith J, 1990, J ONE, V1, P2', 'Doe J, 1991, NATURE, V3', C1], SO=['J ONE'], J9=['J ONE'])], 'Later'),
    'twin': lambda d: b.rc(twinrecs(), 'Works'),
    'twinmixed': lambda d: flagged(b.rc(mixedfile(d, ('Other one', 'Zwei')), 'Mixed')),
    'twingrants': lambda d: grantset(d, True),
    'mixed': lambda d: flagged(b.rc(mixedfile(d), 'Mixed')),
    'grants': grantset,
    'G': lambda d: pairgraph(nx.Graph()),
    'D': lambda d: pairgraph(nx.DiGraph()),
    'drop': lambda d: ['the', 'of'],
    'words': lambda d: ['J', 'NAT'],
    'tags': lambda d: ['AF', 'PY', 'TI', 'year', 'DE'],
    'extra': lambda d: {'year': ['1990', 1991], 'other': 'x'},
    'cite': lambda d: mk.Citation(C1),
    'twincite': lambda d: mk.Citation(C1.lower() + '1, DOI 10.5/x'),
    'twincites': lambda d: [mk.Citation(c) for c in (CB, C1.lower(), C2 + ', P7', 'Cox C, 1980, BOOK OF X, V2')],
    'cites': lambda d: [mk.Citation(c) for c in (C1, C2, C3, CB)],
    'graphs': lambda d: [pairgraph(nx.Graph())],
}


class World(object):
    """The objects, made when first used."""
    def __init__(self, d):
        self._d = d

    def __getattr__(self, name):
        if name not in MAKE:
            raise AttributeError(name)
        sub = os.path.join(self._d, name)
        os.mkdir(sub)
        setattr(self, name, MAKE[name](sub))
        shutil.rmtree(sub)
        return getattr(self, name)

    def used(self):
        return sorted(k for k in vars(self) if k in MAKE)

    def record(self, k):
        return self.rc.getID('WOS:{}'.format(k))


def dumprecord(R):
    out = [files.entry(R)]
    for raw in (False, True):
        for tag in ('title', 'authorsFull', 'authorsShort', 'citations', 'year', 'keywords', 'abstract', 'TI', 'AF', 'CR', 'AU', 'GR', 'References', 'Author'):
            try:
                out.append((tag, raw, norm(R.get(tag, raw=raw))))
            except TypeError:
                out.append((tag, raw, norm(R.get(tag))))
    out.append((list(R), len(R), hash(R), str(R), repr(R)))
    return tuple(out)


def norm(v, deep=False):
    """What a user can see of a result."""
    if isinstance(v, nx.Graph):
        return ('graph', v.graph, b.graph_dump(v))
    if isinstance(v, mk.Collection):
        return (type(v).__name__, v.name, v.bad, sorted((k, repr(e)) for k, e in v.errors.items()), len(v), tuple(sorted((dumprecord(R) if deep else (R.id, R.bad, R.title if not isinstance(R, mk.Grant) else None) for R in v), key=repr)))
    if isinstance(v, mk.Record):
        return dumprecord(v) if deep else files.entry(v)
    if isinstance(v, mk.Citation):
        return ('citation', str(v), v.ID(), v.original, v.bad, v.isAnonymous())
    if isinstance(v, dict):
        return ('dict', tuple((norm(k, deep), norm(x, deep)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(norm(x, deep) for x in v))
    if isinstance(v, (set, frozenset)):
        return ('set', tuple(sorted((norm(x, deep) for x in v), key=repr)))
    if isinstance(v, (str, bytes, int, float, type(None))):
        return (type(v).__name__, repr(v))
    if hasattr(v, '__next__'):
        return ('iterator', tuple(norm(x, deep) for x in v))
    return repr(v)


def boom(*a, **k):
    raise ValueError('boom')


def upper(s):
    return s.upper()


def rcops(a, years=True):
    """Every analysis of a RecordCollection, a names it in the world"""
    g = lambda w: getattr(w, a)
    O = {
        'coAuthor': lambda w, d: g(w).networkCoAuthor(),
        'coAuthor detailed': lambda w, d: g(w).networkCoAuthor(detailedInfo=True, useShortNames=True, citeProfile=True),
        'coAuthor tags': lambda w, d: g(w).networkCoAuthor(detailedInfo=w.tags, dropNonJournals=True, count=False, weighted=False),
        'coCitation': lambda w, d: g(w).networkCoCitation(),
        'coCitation full': lambda w, d: g(w).networkCoCitation(dropAnon=False, nodeInfo=True, fullInfo=True, coreOnly=False, addCR=True, detailedCore=True, expandedCore=False),
        'coCitation core': lambda w, d: g(w).networkCoCitation(nodeType='author', coreOnly=True, detailedCore=w.tags),
        'coCitation expanded': lambda w, d: g(w).networkCoCitation(expandedCore=True, count=False, weighted=False),
        'coCitation words': lambda w, d: g(w).networkCoCitation(keyWords=w.words, dropNonJournals=True, nodeType='journal'),
        'citation': lambda w, d: g(w).networkCitation(),
        'citation full': lambda w, d: g(w).networkCitation(fullInfo=True, addCR=True, detailedCore=True, dropAnon=True),
        'citation core': lambda w, d: g(w).networkCitation(coreOnly=True, directed=False, nodeType='year'),
        'citation words': lambda w, d: g(w).networkCitation(keyWords=w.words, expandedCore=True),
        'citation bad': lambda w, d: g(w).networkCitation(nodeType='zzz'),
        'coupling': lambda w, d: g(w).networkBibCoupling(),
        'coupling full': lambda w, d: g(w).networkBibCoupling(fullInfo=True, addCR=True, weighted=False),
        'oneMode': lambda w, d: g(w).networkOneMode('keywords'),
        'oneMode stem': lambda w, d: g(w).networkOneMode('authorsFull', stemmer=upper, edgeAttribute='year'),
        'twoMode': lambda w, d: g(w).networkTwoMode('authorsShort', 'title', directed=True),
        'nMode': lambda w, d: g(w).networkMultiMode('year', 'title', 'journal', 'authorsFull'),
        'nMode bad': lambda w, d: g(w).networkMultiMode('year', 'title', stemmer=boom),
        'multiLevel': lambda w, d: g(w).networkMultiLevel('year', 'keywords', 'authorsFull', nodeAttribute='title'),
        'forNLP': lambda w, d: g(w).forNLP(),
        'forNLP drop': lambda w, d: g(w).forNLP(outputFile=os.path.join(d, 'nlp.csv'), dropList=w.drop, extraColumns=w.tags, removeCopyright=True, stemmer=upper),
        'forNLP bad': lambda w, d: g(w).forNLP(stemmer=boom),
        'forBurst': lambda w, d: g(w).forBurst('title', dropList=w.drop),
        'forBurst file': lambda w, d: g(w).forBurst('keywords', outputFile=os.path.join(d, 'b.csv'), lower=False, removeWhitespace=False),
        'rpys': lambda w, d: g(w).rpys(),
        'rpys drop': lambda w, d: g(w).rpys(minYear=1980, maxYear=2000, dropYears=[1990], rankEmptyYears=True),
        'series': lambda w, d: g(w).timeSeries(),
        'series tag': lambda w, d: g(w).timeSeries('authorsFull', outputFile=os.path.join(d, 't.csv'), pandasMode=False),
        'ranked': lambda w, d: g(w).rankedSeries('keywords', giveCounts=False, giveRanks=True),
        'ranked file': lambda w, d: g(w).rankedSeries('authorsShort', outputFile=os.path.join(d, 'r.csv'), pandasMode=False, greatestFirst=False, limitTo=['Doe, J']),
        'cooccur': lambda w, d: g(w).cooccurrenceCounts('year', 'title', 'authorsFull'),
        'genders': lambda w, d: g(w).genderStats(),
        'gender fractions': lambda w, d: g(w).genderStats(asFractions=True),
        'makeDict': lambda w, d: g(w).makeDict(),
        'makeDict raw': lambda w, d: g(w).makeDict(onlyTheseTags=w.tags, raw=True, longNames=True, numAuthors=False, genderCounts=False),
        'csv': lambda w, d: g(w).writeCSV(os.path.join(d, 'w.csv')),
        'csv split': lambda w, d: g(w).writeCSV(os.path.join(d, 'w.csv'), splitByTag='year', onlyTheseTags=w.tags, longNames=True),
        'bib': lambda w, d: g(w).writeBib(os.path.join(d, 'w.bib')),
        'bib wos': lambda w, d: g(w).writeBib(os.path.join(d, 'w.bib'), wosMode=True, reducedOutput=True, niceIDs=False, maxStringLength=40),
        'writeFile': lambda w, d: g(w).writeFile(os.path.join(d, 'w.isi')),
        'bytes': lambda w, d: bytes(g(w)),
        'citations': lambda w, d: g(w).getCitations(),
        'citations some': lambda w, d: g(w).getCitations('author', ['Aho A', 'Bee B'], pandasFriendly=False),
        'years': lambda w, d: g(w).yearSplit(1990, 1991),
        'years missing': lambda w, d: g(w).yearSplit(1985, 1999, dropMissingYears=False),
        'localStats': lambda w, d: g(w).localCiteStats(),
        'localStats pandas': lambda w, d: g(w).localCiteStats(pandasFriendly=True, keyType='journal'),
        'localCites': lambda w, d: g(w).localCitesOf(sorted(g(w), key=lambda R: str(R.id))[0]),
        'localCites str': lambda w, d: g(w).localCitesOf('Aho A, 1990, J ONE'),
        'filter': lambda w, d: g(w).citeFilter('1990'),
        'filter anon': lambda w, d: g(w).citeFilter('', 'anonymous', reverse=True),
        'filter author': lambda w, d: g(w).citeFilter('aho', 'author', caseSensitive=True),
        'copyright': lambda w, d: g(w).findProbableCopyright(),
        'glimpse': lambda w, d: [l for i, l in enumerate(str(g(w).glimpse()).split('\n')) if i],
        'glimpse tags': lambda w, d: [l for i, l in enumerate(str(g(w).glimpse('keywords', 'year', compact=True)).split('\n')) if i],
        'tags': lambda w, d: set(g(w).tags()),
        'badEntries': lambda w, d: g(w).badEntries(),
        'copy': lambda w, d: g(w).copy(),
        'copy changed': lambda w, d: change(g(w).copy()),
        'records copied': lambda w, d: [(dumprecord(R.copy()), changerecord(R.copy())) for R in sorted(g(w), key=lambda R: str(R.id))],
        'chunk': lambda w, d: [[len(c) for c in g(w).chunk(2)], list(g(w).chunk(2)), list(g(w).copy().split(2))],
        'peek': lambda w, d: g(w).peek() in g(w),
        'set algebra': lambda w, d: [len(g(w) | w.rc2), len(g(w) & w.rc2), len(g(w) - w.rc2), len(g(w) ^ w.rc2), len(g(w) + w.rc2), g(w) == w.rc2, g(w) < w.rc2],
        'union changed': lambda w, d: change(g(w) | w.rc2),
        'sum changed': lambda w, d: change(g(w) + w.rc2),
        'difference changed': lambda w, d: change(g(w) - w.rc2),
        'names': lambda w, d: [repr(g(w)), str(g(w)), hash(g(w)) == hash(g(w)), [g(w).containsID('WOS:{}'.format(i)) for i in (1, 2, 5, 88)], norm(g(w).getID('WOS:2'))],
        'diffusion': lambda w, d: mk.diffusionGraph(g(w), w.rc2),
        'diffusion back': lambda w, d: mk.diffusionGraph(w.rc2, g(w), sourceType='authorsFull', targetType='authorsShort', labelEdgesBy='title'),
        'diffusionCount': lambda w, d: mk.diffusionCount(g(w), w.rc2),
        'diffusionCount extra': lambda w, d: mk.diffusionCount(g(w), w.rc2, sourceType='title', extraValue='year', pandasFriendly=True),
        'diffusionCount compare': lambda w, d: mk.diffusionCount(w.rc2, g(w), compareCounts=True, sourceType='authorsFull'),
        'diffusionCount bad': lambda w, d: mk.diffusionCount(g(w), w.rc2, extraValue='year', extraMapping=boom),
        'diffusionAdd': lambda w, d: addcounts(g(w), w.rc2),
        'records': lambda w, d: [[R.bibString(), list(R.values()), list(R.keys()), R.subDict(['TI', 'PY', 'title']), R.authGenders() if hasattr(R, 'authGenders') else None, R.getCitations(pandasFriendly=False), str(R.createCitation())] for R in sorted(g(w), key=lambda R: str(R.id)) if not R.bad],
        'records equal': lambda w, d: [R == Q for R in sorted(g(w), key=lambda R: str(R.id)) for Q in w.rc2],
        'record writes': lambda w, d: [wr(R) for R in sorted(g(w), key=lambda R: str(R.id))],
    }
    return {a + ' ' + k: f for k, f in O.items()}


def wr(R):
    f = io.StringIO()
    try:
        R.writeRecord(f)
    except (mk.BadRecord, mk.mkException, TypeError, AttributeError) as e:
        return repr(e)
    return f.getvalue()


def change(C):
    """Use a collection that is only ours."""
    C.name = 'changed'
    C.bad = True
    C.errors['x'] = ValueError('x')
    C.add(b.wos(77, TI=['new']))
    C.dropBadEntries()
    if hasattr(C, 'dropNonJournals'):
        C.dropNonJournals()
    n = len(C)
    C.clear()
    return n


def changerecord(R):
    R.bad = True
    R._id = 'changed'
    return type(R).__name__


def addcounts(a, c):
    G = a.networkCitation()
    mk.diffusionAddCountsFromSource(G, a, c)
    return G


def ignore(f, *a, **k):
    f(*a, **k)


def grantops(a):
    g = lambda w: getattr(w, a)
    O = {
        'coInvestigator': lambda w, d: g(w).networkCoInvestigator(),
        'coInstitution': lambda w, d: g(w).networkCoInvestigatorInstitution(),
        'tags': lambda w, d: g(w).networkCoInvestigator(targetTags=['Name-Nom', 'Investigator', 'PI Names'], count=False, weighted=False),
        'oneMode': lambda w, d: g(w).networkOneMode('year'),
        'ranked': lambda w, d: g(w).rankedSeries('Institution'),
        'multi': lambda w, d: g(w).networkMultiMode('Institution', 'ApplicationTitle'),
        'series': lambda w, d: g(w).timeSeries('ApplicationTitle'),
        'cooccur': lambda w, d: g(w).cooccurrenceCounts('ApplicationTitle', 'Name-Nom'),
        'copy changed': lambda w, d: change2(g(w).copy()),
        'glimpse': lambda w, d: [l for i, l in enumerate(str(g(w).glimpse()).split('\n')) if i],
        'all': lambda w, d: [[str(x), repr(x), x.getInvestigators(), x.getInstitutions(), list(x.items())] for x in sorted(g(w), key=lambda x: str(x.id))],
    }
    return {a + ' ' + k: f for k, f in O.items()}


def citeops(a):
    one, many = lambda w: getattr(w, a), lambda w: getattr(w, a + 's')
    return {
        a + '': lambda w, d: [str(one(w)), repr(one(w)), one(w).ID(), one(w).allButDOI(), one(w).Extra(), one(w).isJournal(), one(w).FullJournalName(), one(w).isAnonymous(), hash(one(w)) == hash(one(w))],
        a + ' journal': lambda w, d: [c.isJournal(returnDict='WOS', checkIfExcluded=True) for c in many(w)],
        a + ' filter': lambda w, d: mk.filterNonJournals(many(w)),
        a + ' filter out': lambda w, d: mk.filterNonJournals(many(w), invert=True),
        a + ' equal': lambda w, d: [x == y for x in many(w) for y in many(w) + [one(w)]],
    }


OPS = rcops('rc')
OPS.update(rcops('mixed'))
OPS.update(grantops('grants'))
OPS.update(citeops('cite'))
OPS.update({
    'graph write': lambda w, d: mk.writeGraph(w.G, os.path.join(d, 'g')),
    'graph write typed': lambda w, d: mk.writeGraph(w.D, os.path.join(d, 'g'), typing=True, edgeInfo=False),
    'graph edges': lambda w, d: mk.writeEdgeList(w.D, os.path.join(d, 'g'), extraInfo=True),
    'graph edges bad': lambda w, d: mk.writeEdgeList(w.G, os.path.join(d, 'no', 'g')),
    'graph nodes': lambda w, d: mk.writeNodeAttributeFile(w.G, os.path.join(d, 'g'), allSameAttribute=True),
    'graph stats': lambda w, d: mk.graphStats(w.G),
    'graph stats dict': lambda w, d: mk.graphStats(w.D, makeString=False),
    'graph stats some': lambda w, d: mk.graphStats(w.G, stats=('nodes', 'density'), sentenceString=True),
    'graph merge': lambda w, d: merge(w.G),
    'graph read': lambda w, d: (mk.writeGraph(w.G, os.path.join(d, 'g')), mk.readGraph(os.path.join(d, 'g_edgeList.csv'), os.path.join(d, 'g_nodeAttributes.csv')))[1],
    'read': lambda w, d: mk.RecordCollection(putfile(d, 'wos')),
    'read bad': lambda w, d: mk.RecordCollection(putfile(d, 'scopus', False)),
    'read none': lambda w, d: mk.RecordCollection(os.path.join(d, 'none')),
    'read cached': lambda w, d: (mk.RecordCollection(os.path.dirname(putfile(d, 'medline')), cached=True), os.remove(os.path.join(d, os.path.basename(d) + '.[].mkRecordDirCache')))[0],
})


TWINS = {'rc': 'twin', 'mixed': 'twinmixed', 'grants': 'twingrants', 'cite': 'twincite'}
CALLS = dict(OPS)
for make, name in ((rcops, 'twin'), (rcops, 'twinmixed'), (grantops, 'twingrants'), (citeops, 'twincite')):
    CALLS.update(make(name))



def change2(C):
    C.name = 'changed'
    C.bad = True
    C.errors['x'] = ValueError('x')
    n = len(C)
    C.clear()
    return n


def merge(G):
    T = nx.Graph()
    mk.mergeGraphs(T, G)
    mk.mergeGraphs(T, G)
    for n in T:
        T.nodes[n]['new'] = 1
    for e in T.edges:
        T.edges[e]['new'] = 1
    return T


def putfile(d, kind, ok=True):
    p = os.path.join(d, kind + '.txt')
    with open(p, 'wb') as f:
        f.write(files.RECORDS[kind]([(1, 'One'), (2, 'Two')], ok))
    return p


def attempt(f, w, d):
    try:
        r = f(w, d)
        if hasattr(r, '__next__'):
            r = list(r)
        return r, ('value', norm(r))
    except Exception as e:
        return None, ('raised', type(e).__name__, str(e))


def settings():
    public = {k: repr(v) for k, v in vars(mk).items() if isinstance(v, (bool, int, float, str, list, tuple, dict, set, frozenset, type(None))) and not k.startswith('__')}
    return (public, os.getcwd(), dict(os.environ), csv.field_size_limit(), csv.list_dialects(), sys.getrecursionlimit(), hash(random.getstate()), list(sys.path), sys.stdout is OUT[0], sys.getdefaultencoding())


OUT = [None]


@contextlib.contextmanager
def hidden():
    real = sys.stdout
    OUT[0] = sys.stdout = io.StringIO()
    try:
        yield
    finally:
        sys.stdout = real


def tree(d):
    out = {}
    for root, dirs, fs in os.walk(d):
        for n in fs:
            with open(os.path.join(root, n), 'rb') as f:
                out[os.path.relpath(os.path.join(root, n), d)] = f.read()
    return out


def scratch(ctx, name):
    """A new directory, always of the same path in a process."""
    d = os.path.join(os.path.dirname(ctx.dir), 'same', name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def apart(a, c, path=''):
    """Where two dumps differ first."""
    if isinstance(a, (tuple, list)) and isinstance(c, (tuple, list)) and len(a) == len(c):
        for i, (x, y) in enumerate(zip(a, c)):
            if x != y:
                return apart(x, y, '{}.{}'.format(path, i))
    return (path, a), (path, c)


class Clean(object):
    """A process forked before any call was made; forks another for every question, so nothing runs before it."""
    def __init__(self):
        self.pid = None

    def start(self):
        self.here, there = multiprocessing.Pipe()
        self.pid, self.owner, self.asked = os.fork(), os.getpid(), 0
        if self.pid == 0:
            try:
                self.here.close()
                while True:
                    k, question = there.recv()
                    pid = os.fork()
                    if pid == 0:
                        try:
                            signal.signal(signal.SIGALRM, signal.SIG_DFL)
                            signal.alarm(20)
                            there.send((k, answer(*question)))
                            os._exit(0)
                        finally:
                            os._exit(1)
                    if os.waitpid(pid, 0)[1]:
                        there.send((k, None))
            finally:
                os._exit(0)
        there.close()

    def ask(self, *question):
        if self.pid is None:
            self.start()
        self.asked += 1
        self.here.send((self.asked, question))
        while True:
            k, a = self.here.recv()
            if k == self.asked:
                if a is None:
                    raise RuntimeError('no answer to {}'.format(question))
                return a


class Where(object):
    def __init__(self, d):
        self.dir = d


def answer(d, what, *args):
    """In a process where nothing was called before"""
    ctx = Where(d)
    b.journals(JOURNALS)
    with hidden():
        if what == 'alone':
            return history(ctx, args)[0][0]
        if what == 'fresh':
            return (snapshot(World(scratch(ctx, 'w')), *args),)
        return then(ctx, *args)


CLEAN = Clean()
ALONE, FRESH = {}, {}


def snapshot(w, name):
    return norm(getattr(w, name), True)


def fresh(ctx, name):
    if name not in FRESH:
        FRESH[name], = CLEAN.ask(ctx.dir, 'fresh', name)
    return FRESH[name]


def alone(ctx, op):
    """What op gives by itself, on new objects."""
    if op not in ALONE:
        ALONE[op] = CLEAN.ask(ctx.dir, 'alone', op)
    return ALONE[op]


def history(ctx, ops, between=None):
    """Results of the calls on the same objects, and the objects."""
    w = World(scratch(ctx, 'w'))
    out = []
    for i, op in enumerate(ops):
        d = scratch(ctx, 'd')
        r, n = attempt(CALLS[op], w, d)
        out.append((n, tree(d)))
        if between is not None and i == 0:
            between(r)
    return out, w


def check(ctx, ops, between=None, word='after'):
    with hidden():
        want = [alone(ctx, op) for op in ops]
        before = settings()
        got, w = history(ctx, ops, between)
        after = settings()
        ctx.step(len(ops))
        for i, op in enumerate(ops):
            what = '{} {} {}'.format(op, word, ' then '.join(ops[:i]))
            ctx.eq(*(apart(got[i][0], want[i][0]) + (what,)))
            ctx.eq(got[i][1], want[i][1], what + ': files')
        what = ' then '.join(ops)
        ctx.eq(after, before, what + ': process-wide settings')
        for name in w.used():
            ctx.eq(*(apart(snapshot(w, name), fresh(ctx, name)) + ('{}: {} is changed'.format(what, name),)))
    ctx.state(tuple(ops))


def group(op):
    return op.split(' ')[0]


def single_cases(tier):
    for op in OPS:
        yield [op]


def run_single(ctx, case):
    b.journals(JOURNALS)
    check(ctx, case)
    with hidden():
        res = alone(ctx, case[0])
    if os.environ.get('SHOW') and ctx.dir.split('/')[-2] == 'w0':
        print(case[0], str(res)[:400], file=sys.stderr)
    ctx.true(res[0][0] == 'value' or res[0][1] not in ('UnboundLocalError', 'AttributeError', 'NameError'), '{} gives {}'.format(case[0], str(res[0])[:300]))


def pair_cases(tier):
    for a, c in itertools.product(OPS, repeat=2):
        ga, gc = group(a), group(c)
        if tier == 'quick' and ga != gc and 'rc' not in (ga, gc) and 'mixed' not in (ga, gc):
            continue
        yield [a, c]


def run_pair(ctx, case):
    b.journals(JOURNALS)
    check(ctx, case)


CORE = ['coAuthor detailed', 'coCitation full', 'coCitation expanded', 'citation full', 'coupling', 'nMode', 'forNLP drop', 'rpys', 'ranked', 'genders', 'makeDict', 'csv', 'bib', 'writeFile',
        'citations', 'years', 'localStats', 'filter', 'copy changed', 'union changed', 'diffusion', 'diffusionCount extra', 'diffusionAdd', 'records', 'coAuthor', 'citation bad', 'records equal', 'multiLevel', 'records copied']


def triple_cases(tier):
    if tier == 'thorough':
        for c in itertools.product(CORE, repeat=3):
            yield ['rc ' + x for x in c]
        for c in itertools.product(CORE[::2], repeat=3):
            yield ['mixed ' + x for x in c]


def scramble(r):
    """Do to a result what its owner may do."""
    if isinstance(r, nx.Graph):
        for n in list(r.nodes):
            r.nodes[n].clear()
        for u, v, d in list(r.edges(data=True)):
            d.clear()
        r.clear()
    elif isinstance(r, mk.Collection):
        r.name = 'scrambled'
        r.bad = True
        r.errors['scrambled'] = ValueError()
        r.clear()
    elif isinstance(r, dict):
        for x in r.values():
            if isinstance(x, (dict, list)):
                scramble(x)
        r.clear()
    elif isinstance(r, list):
        for x in r:
            if isinstance(x, (dict, list)):
                scramble(x)
        r.clear()


def run_scramble(ctx, case):
    b.journals(JOURNALS)
    check(ctx, case, scramble, 'after scrambling the result of')


def scramble_cases(tier):
    for op in OPS:
        if set(op.split(' ')[1:]) & {'makeDict', 'records', 'all'}:
            #like a Record itself these hand out its lists
            continue
        yield [op, op]
        if tier == 'thorough':
            for c in CORE:
                for g in ('rc', 'mixed'):
                    yield [op, g + ' ' + c]


def first(C):
    return sorted(C, key=lambda x: str(x.id))[0]


def only(C):
    R = first(C)
    C.clear()
    C.add(R)


def others(C):
    return type(C)(sorted(C, key=lambda x: str(x.id))[1:])


COLLECTION = {
    'discarding a member': lambda C, w: C.discard(first(C)),
    'removing by ID': lambda C, w: C.removeID(first(C).id),
    'popping': lambda C, w: C.pop(),
    'intersecting': lambda C, w: C.__iand__(others(C)),
    'subtracting': lambda C, w: C.__isub__(others(C)),
    'replacing all': lambda C, w: (C.clear(), [C.add(x) for x in getattr(w, TWINS[{'Works': 'rc', 'Mixed': 'mixed', 'Grants': 'grants'}[C.name]])]),
    'keeping one': lambda C, w: only(C),
    'dropping bad entries': lambda C, w: C.dropBadEntries(),
    'clearing': lambda C, w: C.clear(),
    'renaming': lambda C, w: setattr(C, 'name', 'Other'),
}
RECORDS = dict(COLLECTION, **{
    'adding a record': lambda C, w: C.add(b.wos(88, AU=['Doe, J'], AF=['Doe, Jane'], TI=['New'], PY=['1991'], SO=['NATURE'], DE=['cats; birds'], CR=[C1, CB, 'Doe J, 1991, NATURE, V3'])),
    'replacing a record': lambda C, w: (C.discardID('WOS:2'), C.add(twinrecs()[1])),
    'updating': lambda C, w: C.__ior__(w.rc2),
    'symmetric difference': lambda C, w: C.__ixor__(w.rc2),
    'dropping all but journals': lambda C, w: C.dropNonJournals(),
})
GRAPH = {
    'removing a node': lambda G, w: G.remove_node('a'),
    'replacing an edge': lambda G, w: (G.remove_edge('a', 'b'), G.add_edge('a', 'c', weight=7)),
    'changing attributes': lambda G, w: (G.nodes['a'].update(count=9), G.edges['a', 'b'].update(weight=8)),
}
CHANGES = {'rc': RECORDS, 'mixed': RECORDS, 'grants': COLLECTION, 'graph': GRAPH}


def then(ctx, op, change, before):
    """Result of op after the change, with op also before it or not"""
    w = World(scratch(ctx, 'w'))
    if before:
        attempt(CALLS[op], w, scratch(ctx, 'd'))
    for name in (['G', 'D'] if group(op) == 'graph' else [group(op)]):
        CHANGES[group(op)][change](getattr(w, name), w)
    d = scratch(ctx, 'd')
    r, n = attempt(CALLS[op], w, d)
    return n, tree(d)


def changed_cases(tier):
    for op in OPS:
        for change in CHANGES.get(group(op), ()):
            yield [op, change]


def run_changed(ctx, case):
    b.journals(JOURNALS)
    op, change = case
    with hidden():
        want = CLEAN.ask(ctx.dir, 'changed', op, change, False)
        got = then(ctx, op, change, True)
    ctx.step(2)
    what = '{} after {} on what it was called on before'.format(op, change)
    ctx.eq(*(apart(got[0], want[0]) + (what,)))
    ctx.eq(got[1], want[1], what + ': files')
    ctx.state((op, change))


def twin_cases(tier):
    for op in OPS:
        if group(op) in TWINS:
            t = ' '.join([TWINS[group(op)]] + op.split(' ')[1:])
            yield [t, op]
            yield [op, t]
            if tier == 'thorough' and group(op) in ('rc', 'mixed'):
                for c in CORE:
                    yield [t, group(op) + ' ' + c]
                    yield [group(op) + ' ' + c, t]


SCENARIOS = [
    Scenario('single', single_cases, run_single, '{} calls'.format(len(OPS)), every_seed=True),
    Scenario('pair', pair_cases, run_pair, 'all ordered pairs of {} calls (quick: not across grants, graphs, citations and reading)'.format(len(OPS))),
    Scenario('changed', changed_cases, run_changed, 'each call on a collection or graph, before and after each of up to {} changes of it: the second as on new objects that were changed alike'.format(len(RECORDS))),
    Scenario('twin', twin_cases, run_pair, 'each call on two collections of the same name and record IDs, in both orders (in depth with any of {} calls on the other)'.format(len(CORE))),
    Scenario('triple', triple_cases, run_pair, 'depth: all ordered triples of {} calls on WOS records and of {} on mixed ones'.format(len(CORE), len(CORE[::2]))),
    Scenario('scramble', scramble_cases, run_scramble, 'each call again after its first result was emptied by its owner (in depth any of {} calls)'.format(2 * len(CORE))),
]
