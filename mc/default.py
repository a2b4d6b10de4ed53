"""Default file names: the writers must put exactly one file, named after the
collection, into the working directory, whatever the collection is called and
wherever it came from."""
import os
import metaknowledge as mk
from mc import build as b

NAMES = ['n', 'a name', 'x.y', '\u00e9\u65e5', 'n' * 199, 'n' * 200, 'n' * 201, 'n' * 230]
SOURCES = ['d', 'sub/dir', 'd' * 120, 'one two', '']


def cases(tier):
    for i in range(len(NAMES)):
        yield ['name', i]
    for i in range(len(SOURCES)):
        for ext in ('', 'isi'):
            yield ['dir', i, ext]
    yield ['file', 'f.isi']
    yield ['file', 'sub/g.h.isi']


def run(ctx, case, ext, write, check):
    """write(RC) writes with the default name, check(path, what) judges the content"""
    what = str(case)
    os.mkdir(ctx.path('cwd'))
    os.chdir(ctx.path('cwd'))
    recs = [b.wos(n, TI=['Title %d' % n], PY=['2000'], AU=['A, B']) for n in (1, 2)]
    if case[0] == 'name':
        RC = b.rc(recs, name=NAMES[case[1]])
    else:
        src = os.path.normpath(ctx.path('src/' + (SOURCES[case[1]] + '/q.isi' if case[0] == 'dir' else case[1])))
        os.makedirs(os.path.dirname(src))
        b.rc(recs, name='s').writeFile(src)
        if case[0] == 'dir':
            RC = mk.RecordCollection(os.path.dirname(src), extension=case[2])
        else:
            RC = mk.RecordCollection(src)
    ctx.eq(len(RC), 2, what + ' records')
    name = RC.name
    write(RC)
    ctx.step()
    got = os.listdir('.')
    ctx.eq(len(got), 1, what + ' one file is written into the working directory, for the collection %r' % name)
    ctx.true(got[0].endswith(ext), what + ' extension of %r' % got[0])
    if '/' not in name:
        ctx.eq(got[0], name[:200] + ext, what + ' file name')
    check(got[0], what)
    ctx.eq(RC.name, name, what + ' name')
    ctx.state(case)


BOUNDS = '{} names of up to 230 characters; collections read from {} directories (with and without extension) and from files'.format(len(NAMES), len(SOURCES))
