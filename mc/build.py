"""Small builders for records, citations and grants (public constructors only)."""
import collections
import metaknowledge as mk
from metaknowledge import WOSRecord, MedlineRecord, ScopusRecord, ProQuestRecord, MedlineGrant, RecordCollection, GrantCollection

NAMES = ['Alpha, A', 'Beta, B', 'Gamma, G', 'Delta, D']


def wos(uid, **fields):
    d = collections.OrderedDict()
    d['PT'] = fields.pop('PT', ['J'])
    for k, v in fields.items():
        if v is not None:
            d[k] = list(v)
    if uid is not None:
        d['UT'] = ['WOS:{}'.format(uid)]
    return WOSRecord(d)


def badwos(text='broken'):
    """A record flagged bad (no ID)."""
    return WOSRecord(collections.OrderedDict([('PT', ['J']), ('TI', [text])]))


def rc(records, name='RC'):
    return RecordCollection(list(records), name=name)


def graph_dump(G):
    """Canonical, order independent form of a networkx graph."""
    def norm(d):
        return tuple(sorted((str(k), repr(v)) for k, v in d.items()))
    nodes = tuple(sorted((repr(n), norm(d)) for n, d in G.nodes(data=True)))
    directed = G.is_directed()
    if G.is_multigraph():
        es = [(u, v, repr(k), d) for u, v, k, d in G.edges(keys=True, data=True)]
    else:
        es = [(u, v, '', d) for u, v, d in G.edges(data=True)]
    edges = []
    for u, v, k, d in es:
        a, b = repr(u), repr(v)
        if not directed and b < a:
            a, b = b, a
        edges.append((a, b, k, norm(d)))
    return (type(G).__name__, nodes, tuple(sorted(edges)))


def journals(table):
    """Use this journal table (abbreviation -> list of names) instead of the downloaded database."""
    import metaknowledge.citation as c
    import metaknowledge.journalAbbreviations.backend as be
    import metaknowledge.journalAbbreviations as ja
    fake = lambda *a, **k: dict(table)
    for m in (c, be, ja):
        if hasattr(m, 'getj9dict'):
            m.getj9dict = fake
    c.abbrevDict = dict(table)
