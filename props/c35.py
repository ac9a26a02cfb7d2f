"""C35: fetched files are the files at the source."""
import gzip
import io
import os
import shutil
import tarfile
import zipfile

import nimble
import nimble.core._createHelpers as helpers
from hypothesis import strategies as st

from lib import core
from lib.core import Test, ensure
from lib.data import Table, ensure_table

pick = st.sampled_from
HOSTS = ['data.org', 'www.data.org', 'h.net:8080']
DIRS = ['', 'a/', 'a/b%20c/', 'a+b/']
KINDS = ['csv', 'csv', 'none', 'zip', 'zip many', 'tar', 'tar many', 'tar.gz',
         'tgz', 'gz', 'gz bare', 'zip bare', 'zip up', 'tar up', 'tar link',
         'zip abs', 'broken zip', 'query', 'query', 'zip folders',
         'dots']


def table(version, k):
    return [[version, k, 0], [k + 1, version * 2, -1]]


def text(version, k):
    return '\n'.join(','.join(map(str, r)) for r in table(version, k)) + '\n'


class Source:
    """A file on the web, in versions."""
    def __init__(self, n, s):
        self.kind = s['kind']
        self.n = n
        self.version = 1
        self.down = False
        self.html = False
        stem = 's%d' % n
        ext = {'csv': '.csv', 'none': '', 'gz bare': '.data',
               'zip bare': '', 'gz': '.csv.gz', 'tar.gz': '.tar.gz',
               'tgz': '.tgz', 'query': '.csv?id=%d' % n,
               'dots': '.csv'}.get(self.kind)
        if ext is None:
            ext = '.tar' if self.kind.startswith('tar') else '.zip'
        if self.kind == 'query':
            stem = 'q'
        base = s['host'] + '/' + s['dir']
        self.url = s['scheme'] + base + stem + ext
        if self.kind == 'dots':
            self.url = s['scheme'] + base + '../../../' + stem + ext
        host = s['host'][4:] if s['host'].startswith('www.') else s['host']
        self.folder = os.path.join(host, *s['dir'].split('/'))
        self.name = stem + ext
        own = '' if s['shared'] else stem
        self.members = {
            'zip': [own + 'm.csv'], 'tar': [own + 'm.csv'],
            'zip many': [own + 'm.csv', 'in/' + own + 'k.csv',
                         own + 'z.txt'],
            'zip folders': ['in/', 'in/' + own + 'k.csv', own + 'e/'],
            'tar many': [own + 'm.csv', 'in/' + own + 'k.csv'],
            'tar.gz': [own + 'm.csv'], 'zip bare': [own + 'm.csv'],
            'tgz': [own + 'm.csv', own + 'n.csv'],
            'zip up': ['ok.csv', '../%sup.csv' % stem],
            'tar up': ['ok.csv', 'in/../../%sup.csv' % stem],
        }.get(self.kind)

    def files(self, version=None):
        """What should be found locally: {relative path: content}, or None
        when that is not the point"""
        v = self.version if version is None else version
        if self.kind in ('csv', 'none', 'query'):
            return {None: text(v, 0).encode()}
        if self.kind == 'dots':
            return None
        if self.kind == 'gz':
            return {self.name[:-3]: text(v, 0).encode()}
        if self.kind == 'gz bare':
            return {self.name: text(v, 0).encode()}
        if self.kind in ('zip up', 'tar up', 'tar link', 'broken zip',
                         'zip abs'):
            return {self.name: self.content(v)}
        return {m: text(v, k).encode()
                for k, m in enumerate(self.members) if m[-1] != '/'}

    def content(self, v=None):
        v = self.version if v is None else v
        if self.kind in ('csv', 'none', 'query', 'dots'):
            return text(v, 0).encode()
        if self.kind in ('gz', 'gz bare'):
            return gzip.compress(text(v, 0).encode(), mtime=0)
        out = io.BytesIO()
        if 'zip' in self.kind:
            members = self.members or ['ok.csv']
            if self.kind == 'zip abs':
                members = ['ok.csv', os.path.join(
                    core.SCRATCH, 'web', 'abs%d.csv' % self.n)]
            with zipfile.ZipFile(out, 'w') as z:
                for k, m in enumerate(members):
                    info = zipfile.ZipInfo(m)
                    z.writestr(info, '' if m[-1] == '/' else text(v, k))
            data = out.getvalue()
            if self.kind == 'broken zip':
                data = data.replace(text(v, 0).encode(), b'?' * len(
                    text(v, 0)))
            return data
        mode = 'w:gz' if self.kind in ('tar.gz', 'tgz') else 'w'
        with tarfile.open(fileobj=out, mode=mode) as t:
            if self.kind == 'tar link':
                link = tarfile.TarInfo('link%d' % self.n)
                link.type = tarfile.SYMTYPE
                link.linkname = os.path.join(core.SCRATCH, 'web', 'outside')
                t.addfile(link)
            for k, m in enumerate(self.members or [
                    'link%d/f.csv' % self.n]):
                info = tarfile.TarInfo(m)
                data = text(v, k).encode()
                info.size = len(data)
                t.addfile(info, io.BytesIO(data))
        return out.getvalue()

    def single(self):
        """Is there one table to load?"""
        return self.kind not in ('zip many', 'tar many', 'tgz', 'zip up',
                                 'tar up', 'tar link', 'zip abs',
                                 'broken zip', 'zip folders')


class Response:
    def __init__(self, content, status=200, html=False):
        self.content = content
        self.status_code = status
        self.ok = status == 200
        self.reason = 'OK' if self.ok else 'Not Found'
        self.headers = {'content-type': 'text/html; charset=utf-8' if html
                        else 'application/octet-stream'}
        self.apparent_encoding = 'utf-8'
        self.encoding = 'utf-8'
        try:
            self.text = content.decode('utf-8')
        except ValueError:
            self.text = None

    def raise_for_status(self):
        if not self.ok:
            raise helpers.requests.exceptions.HTTPError(self.reason)


class Web:
    """Stands in for requests; notes every download."""
    def __init__(self, sources):
        self.sources = {s.url: s for s in sources}
        self.pages = {}
        self.got = []

    def get(self, url, **kw):
        self.got.append(url)
        return self.answer(url)

    def head(self, url, **kw):
        return self.answer(url)

    def answer(self, url):
        if url in self.pages:
            return Response(self.pages[url].encode(), html=True)
        s = self.sources.get(url)
        if s is None or s.down:
            return Response(b'', 404)
        return Response(s.content(), html=s.html)

    def __enter__(self):
        req = helpers.requests
        req.nimbleAccessible()
        self.saved = (req.get, req.head, helpers.time.sleep)
        req.get, req.head = self.get, self.head
        helpers.time.sleep = lambda s: None
        return self

    def __exit__(self, *args):
        req = helpers.requests
        req.get, req.head, helpers.time.sleep = self.saved


def tree(root):
    out = {}
    for d, _, names in os.walk(root):
        for n in names:
            p = os.path.join(d, n)
            if os.path.isfile(p):
                with open(p, 'rb') as f:
                    out[os.path.relpath(p, root)] = f.read()
    return out


@st.composite
def histories(draw):
    sources = draw(st.lists(st.fixed_dictionaries({
        'scheme': pick(['http://', 'https://']),
        'host': pick(HOSTS), 'dir': pick(DIRS), 'kind': pick(KINDS),
        'shared': st.integers(0, 4).map(lambda k: k == 0)}),
        min_size=1, max_size=3))
    if len(sources) > 1 and draw(st.booleans()):
        sources[1] = dict(sources[0], kind=draw(pick(
            [sources[0]['kind'], 'zip', 'csv'])))
    return {'sources': sources, 'ops': draw(st.lists(st.tuples(
        pick(['fetch', 'fetch', 'fetch', 'again', 'data', 'update', 'down',
              'html', 'remove']),
        st.integers(0, 2), st.booleans()), min_size=2, max_size=8))}


def check_histories(case, ctx):
    """
    a history of fetching, changing and removing files: a source is fetched
    twice, or after a change
    """
    root = os.path.join(core.SCRATCH, 'web')
    shutil.rmtree(root, ignore_errors=True)
    # deep enough that a few '..' stay inside
    base = os.path.join(root, 'p', 'q', 'r')
    os.makedirs(base)
    os.makedirs(os.path.join(root, 'outside'))
    sources = [Source(n, s) for n, s in enumerate(case['sources'])]
    old = nimble.settings.get('fetch', 'location')
    nimble.settings.set('fetch', 'location', base)
    try:
        with Web(sources) as web:
            for s in sources:
                s.have = None
            played(case, sources, web, base, root, ctx)
    finally:
        nimble.settings.set('fetch', 'location', old)
        shutil.rmtree(root, ignore_errors=True)


def local_of(s, base):
    return os.path.join(base, 'nimbleData', s.folder, s.name)


def played(case, sources, web, base, root, ctx):
    rich = False
    for op, k, flag in case['ops']:
        s = sources[k % len(sources)]
        what = '%s of %s (%s)' % (op, s.url, s.kind)
        del web.got[:]
        before = tree(root)
        if op == 'update':
            s.version += 1
        elif op == 'down':
            s.down = flag
        elif op == 'html':
            s.html = flag
        elif op == 'remove' and s.have is not None:
            if len(s.paths) > 1 or flag:
                p = s.paths[0]
            else:
                p = s.stored
            if os.path.exists(p):
                os.unlink(p)
            if p == s.stored or not os.path.exists(s.stored):
                s.have = None
        elif op == 'data':
            available = not (s.down or s.html)
            try:
                o = nimble.data(s.url, pointNames=False, featureNames=False,
                                useLog=False)
            except Exception:
                ensure(not (available and s.single()), what, 'fails')
            else:
                ensure(available, what, 'succeeds')
                if s.single():
                    rows = table(s.version, 0)
                    ensure_table(o, Table(rows, None, None, 3), what)
                    ensure(o.absolutePath == s.url, what, 'has the path',
                           o.absolutePath)
            ensure(tree(root) == before, what, 'changes files')
        elif op in ('fetch', 'again'):
            overwrite = flag and op == 'fetch'
            cached = s.have is not None and not overwrite
            fine = not s.down and not (s.html and s.have is None)
            rich = rich or s.have is not None or s.version > 1
            try:
                paths = nimble.fetchFiles(s.url, overwrite=overwrite)
            except nimble.exceptions.InvalidArgumentValue:
                ensure(not cached and not fine, what, 'fails')
                after = tree(root)
                for p in after:
                    # only what was missing of an archive can be extracted
                    ensure(after[p] == before.get(p) or s.have is not None
                           and p not in before, what, 'changes', p)
                ensure(not set(before) - set(after), what, 'removes files')
                continue
            ensure(cached or fine, what, 'succeeds')
            if cached:
                ensure(not web.got, what, 'downloads', web.got)
            else:
                ensure(web.got == [s.url], what, 'downloads', web.got)
                s.have = s.version
            want = s.files(s.have)
            stored(s, paths, want, base, what, cached, sources)
            # nothing is written anywhere else
            home = os.path.join('p', 'q', 'r', 'nimbleData')
            after = tree(root)
            for p in after:
                inside = p.startswith(os.path.join(home, s.folder))
                if s.kind in ('dots', 'query'):
                    inside = p.startswith(home + os.sep)
                ensure(inside or after[p] == before.get(p), what,
                       'writes the file', p)
    ctx.nontrivial(rich)
    for s in sources:
        ctx.label(s.kind)


def stored(s, paths, want, base, what, cached, sources):
    """The paths returned are those of the files, with their content."""
    s.paths = paths
    folder = os.path.join(base, 'nimbleData', s.folder)
    if s.kind in ('query', 'dots'):
        # the name is free, but it is the file
        ensure(len(paths) == 1, what, 'gives', paths)
        s.stored = paths[0]
        with open(paths[0], 'rb') as f:
            ensure(f.read() == text(s.have, 0).encode(), what, 'stores',
                   'another file')
        return
    s.stored = os.path.join(folder, s.name)
    names = [os.path.join(folder, s.name if n is None else n) for n in want]
    ensure(sorted(map(os.path.normpath, paths))
           == sorted(map(os.path.normpath, names)), what, 'gives', paths,
           'expected', names)
    shared = cached and any(
        o is not s and o.folder == s.folder and o.members and s.members
        and set(o.members) & set(s.members) for o in sources)
    if shared:
        # archives of one folder extract to the same place
        return
    for n in want:
        with open(os.path.join(folder, s.name if n is None else n),
                  'rb') as f:
            data = f.read()
        ensure(data == want[n], what, 'stores', data, 'expected', want[n])


# ---- named data sets -------------------------------------------------------

@st.composite
def named(draw):
    words = draw(st.lists(pick(['iris', 'wine', 'Quality', 'data', '2']),
                          min_size=1, max_size=3))
    return {'words': words, 'base': draw(pick(['uci', 'nimble'])),
            'form': draw(pick(['short', 'page', 'direct'])),
            'case': draw(pick(['lower', 'title', 'upper'])),
            'space': draw(st.booleans()), 'id': draw(st.integers(1, 999)),
            'files': draw(st.integers(1, 3)),
            'others': draw(st.integers(0, 2)),
            'again': draw(st.booleans()), 'load': draw(st.booleans())}


def check_named(case, ctx):
    """data sets by their name or page in a collection: fetched twice, or
    of several files"""
    root = os.path.join(core.SCRATCH, 'web')
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    old = nimble.settings.get('fetch', 'location')
    nimble.settings.set('fetch', 'location', root)
    try:
        web = Web([])
        words = [w.lower() for w in case['words']]
        if case['base'] == 'uci':
            source, urls = uci(case, words, web)
        else:
            source, urls = own(case, words, web)
        with web:
            for n in range(2 if case['again'] else 1):
                paths = nimble.fetchFiles(source)
                got = []
                for p in paths:
                    ensure(p.startswith(os.path.join(root, 'nimbleData')),
                           source, 'stored at', p)
                    with open(p, 'rb') as f:
                        got.append(f.read())
                ensure(got == urls, source, 'gives', got, 'expected', urls)
            if case['load']:
                before = tree(root)
                try:
                    o = nimble.data(source, pointNames=False,
                                    featureNames=False, useLog=False)
                except nimble.exceptions.InvalidArgumentValue:
                    ensure(len(urls) > 1, 'loading', source, 'fails')
                else:
                    ensure_table(o, Table(table(1, 0), None, None, 3),
                                 'loading %s' % source)
                ensure(tree(root) == before, 'loading', source,
                       'writes files')
    finally:
        nimble.settings.set('fetch', 'location', old)
        shutil.rmtree(root, ignore_errors=True)
    ctx.nontrivial(case['again'] or len(urls) > 1)
    ctx.label(case['base'], case['form'])


def spelled(case, words, join=' '):
    name = join.join(getattr(w, case['case'])() for w in words)
    return ' %s ' % name if case['space'] else name


class Zip:
    """A zip file at one address."""
    def __init__(self, n):
        self.down = self.html = False
        out = io.BytesIO()
        with zipfile.ZipFile(out, 'w') as z:
            for k in range(n):
                z.writestr(zipfile.ZipInfo('f%d.csv' % k), text(1, k))
        self.data = out.getvalue()

    def content(self):
        return self.data


class Plain(Zip):
    def __init__(self, k):
        self.down = self.html = False
        self.data = text(1, k).encode()


def uci(case, words, web):
    site = 'https://archive.ics.uci.edu/'
    name = '+'.join(words)
    direct = '%s/static/public/%d/%s.zip' % (site, case['id'], name)
    one = Zip(case['files'])
    web.sources[direct] = one
    web.sources[direct.replace('edu//', 'edu/')] = one
    links = ['<a href="/dataset/%d/other%d">' % (1000 + k, k)
             for k in range(case['others'])]
    links.insert(len(links) // 2, '<a href="/dataset/%d/%s">' % (
        case['id'], name))
    web.pages[site + 'datasets?search=' + name] = '\n'.join(links)
    page = '%sdataset/%d/%s' % (site, case['id'], name)
    web.pages[page] = 'a page'
    files = [text(1, k).encode() for k in range(case['files'])]
    if case['form'] == 'short':
        pre = {'lower': 'uci::', 'title': 'Uci::', 'upper': 'UCI::'}[
            case['case']]
        return pre + spelled(case, words), files
    if case['form'] == 'page':
        return page, files
    return direct.replace('edu//', 'edu/'), files


def own(case, words, web):
    name = '-'.join(words)
    page = 'https://www.nimbledata.org/datasets.html'
    refs = ['href="style.css"']
    for k in range(case['others']):
        refs += ['href="#other%d"' % k,
                 'href="/_downloads/o%d/other.csv"' % k]
    refs.append('href="#%s"' % name)
    for k in range(case['files']):
        refs.append('href="/_downloads/h%d/%s.csv"' % (k, name))
        web.sources['https://www.nimbledata.org/_downloads/h%d/%s.csv' % (
            k, name)] = Plain(k)
    refs += ['href="#last"', 'href="/_downloads/last/last.csv"']
    web.pages[page + '#' + name] = '\n'.join(refs)
    files = [text(1, k).encode() for k in range(case['files'])]
    if case['form'] == 'direct':
        return 'https://www.nimbledata.org/_downloads/h0/%s.csv' % name, \
            files[:1]
    if case['form'] == 'page':
        return 'https://www.nimbledata.org/examples/%s.html' % name, files
    pre = {'lower': 'nimble::', 'title': 'Nimble::', 'upper': 'NIMBLE::'}[
        case['case']]
    return pre + spelled(case, words), files


TESTS = [
    Test('histories', histories(), check_histories, quick=2500,
         thorough=40000),
    Test('named', named(), check_named, quick=500, thorough=5000),
]
