"""Small files of every format, and dumps of what was read from them."""
BAR = '_' * 60


def wos(recs, ok=True):
    """recs: [(n, title)]"""
    t = '\ufeffFN X\nVR 1.0\n'
    for n, title in recs:
        t += 'PT J\nAU Doe, J\n   Roe, R\nTI {}\nPY 1999\nCR Aho, A, 1990, J SCI, V1\nUT WOS:{}\nER\n\n'.format(title, n)
    if not ok:
        t += 'PT J\nTI cut\n'
    else:
        t += 'EF\n'
    return t.encode('utf-8')


def medline(recs, ok=True):
    t = ''
    for n, title in recs:
        t += '\nPMID- {}\nTI  - {}\nDP  - 1999 Jan\nAU  - Doe J\nGR  - R01 GM1/GM/NIGMS NIH HHS/United States\n'.format(n, title)
    if not ok:
        t += '\nTI  - lost\n'
    return t.encode('latin-1')


def scopus(recs, ok=True):
    from metaknowledge.scopus.recordScopus import scopusHeader
    cols = list(scopusHeader)
    t = '\ufeff' + ','.join(cols) + '\n'
    for n, title in recs:
        v = {'Authors': 'Doe J., Roe R.', 'Title': title, 'Year': '1999', 'EID': '2-s2.0-{}'.format(n), 'References': 'Aho, A., Work, (1990) J Sci, 1', 'Source title': 'J Sci'}
        t += ','.join('"{}"'.format(v[c]) if c in v else '' for c in cols) + '\n'
    if not ok:
        t += '"cut\n'
    return t.encode('utf-8')


def proquest(recs, ok=True):
    L = [BAR, '', 'Report Information from ProQuest', 'December 08 2015 21:33', BAR, '', '', '', '', BAR, '', 'Table of contents']
    for i, (n, title) in enumerate(recs, 1):
        L += ['', '{}. {}'.format(i, title)]
    L += ['', 'Bibliography', '', BAR, '']
    for i, (n, title) in enumerate(recs, 1):
        L += ['Document {} of {}'.format(i, len(recs)), '', title, '', 'Author: Doe, Jane', '', 'http://search.example.com/docview/{}?accountid=1'.format(n), '',
              'Degree date: 1999', '', 'ProQuest document ID: {}'.format(n), '', 'Title: {}'.format(title), '', BAR, '']
    if ok:
        L += ['Bibliography', '', 'Citation style: X', '']
    return '\n'.join(L).encode('utf-8')


def cihr(recs, ok=True):
    t = 'Search Criteria:,,,,,,,,,\nx,,,,,,,,,\n,,,,,,,,,\nPI Names,Project Title,Amount\n'
    for n, title in recs:
        t += '"Doe, J",{},{}\n'.format(title, n)
    if not ok:
        t += ',missing,1\n'
    return t.encode('latin-1')


def nserc(recs, ok=True):
    t = 'Cle,Name-Nom,Institution-\u00c9tablissement,ApplicationTitle\n'
    for n, title in recs:
        t += '{},"Doe, J",Uni,{}\n'.format(n, title)
    if not ok:
        t += ',"No, I",Uni,x\n'
    return t.encode('latin-1')


def nsf(recs, ok=True):
    (n, title) = recs[0]
    t = ('<?xml version="1.0" encoding="UTF-8"?>\n<rootTag><Award><AwardTitle>{}</AwardTitle>{}'
         '<Investigator><FirstName>Jane</FirstName><LastName>Doe</LastName></Investigator>'
         '<Institution><Name>Uni</Name></Institution></Award></rootTag>\n').format(title, '<AwardID>{}</AwardID>'.format(n) if ok else '')
    return t.encode('utf-8')


def othercsv(recs, ok=True):
    t = 'key,name\n'
    for n, title in recs:
        t += '{},{}\n'.format(n, title)
    return t.encode('latin-1')


RECORDS = {'wos': wos, 'medline': medline, 'scopus': scopus, 'proquest': proquest}
GRANTS = {'cihr': cihr, 'nserc': nserc, 'nsf': nsf, 'other': othercsv}
#a name each grant format is recognised by
GRANTNAME = {'cihr': 'cihr_{}.csv', 'nserc': 'NSERC_{}.csv', 'nsf': '{}.xml', 'other': '{}.csv'}


def entry(R):
    try:
        fields = [(k, v) for k, v in R.items(raw=True)]
    except TypeError:
        fields = [(k, v) for k, v in R.items()]
    return (type(R).__name__, R.id, R.bad, type(R.error).__name__, str(R.error), R._sourceFile, R._sourceLine, repr(fields))


def dump(RC):
    """Everything a user can see of a collection read from files."""
    return {'type': type(RC).__name__, 'name': RC.name, 'bad': RC.bad, 'errors': {k: (type(v).__name__, str(v)) for k, v in RC.errors.items()},
            'entries': sorted((entry(R) for R in RC), key=repr), 'n': len(RC), 'types': sorted(str(t) for t in RC._collectedTypes)}
