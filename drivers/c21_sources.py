"""C21: a URI is loaded from the most specific source registered for it, with exactly
the rest of the URI; whatever goes wrong is a CatalogError."""
from jschon.catalog import Catalog, LocalSource, RemoteSource, Source
from jschon.exc import CatalogError
from jschon import URI
from sa import *

LOAD = 'jschon/catalog/__init__.py: Catalog.load_json'
ADD = 'jschon/catalog/__init__.py: Catalog.add_uri_source'


class Named(Source):
    def __init__(self, name, log):
        super().__init__()
        self.name = name
        self.log = log

    def __call__(self, path):
        self.log.append((self.name, path))
        return {'from': self.name}


BASES = (None, 'http://a.example/', 'http://a.example/x/', 'http://a.example/x/y/', 'http://b.example/', 'urn:p/')


def s_most_specific():
    log = []
    order = choose(BASES, tuple(reversed(BASES)), BASES[2:] + BASES[:2], BASES[1:], BASES[3:1:-1] + BASES[:2] + BASES[4:])
    c = Catalog('c')
    for base in order:
        c.add_uri_source(URI(base) if base is not None else None, Named(base, log))
    u, base, rest = choose(('http://a.example/', 'http://a.example/', ''), ('http://a.example/q', 'http://a.example/', 'q'), ('http://a.example/x', 'http://a.example/', 'x'), ('http://a.example/x/', 'http://a.example/x/', ''),
                           ('http://a.example/x/z', 'http://a.example/x/', 'z'), ('http://a.example/x/y', 'http://a.example/x/', 'y'), ('http://a.example/x/y/z/w', 'http://a.example/x/y/', 'z/w'), ('http://a.example/xy/z', 'http://a.example/', 'xy/z'),
                           ('http://a.example/x/y/z?q=/../a', 'http://a.example/x/y/', 'z?q=/../a'), ('http://b.example/x/y/z', 'http://b.example/', 'x/y/z'), ('urn:p/q', 'urn:p/', 'q'), ('http://a.example/x/urn:p/q?http://a.example/x/', 'http://a.example/x/', 'urn:p/q?http://a.example/x/'), ('urn:p/urn:p/urn:p/', 'urn:p/', 'urn:p/urn:p/'), ('http://a.example/x//y/z', 'http://a.example/x/', '/y/z'),
                           ('http://c.example/x/y/', None, 'http://c.example/x/y/'), ('http://a.example', None, 'http://a.example'), ('https://a.example/x/', None, 'https://a.example/x/'), ('urn:uuid:1', None, 'urn:uuid:1'))
    try:
        got = c.load_json(URI(u))
        if check(base in order, 'no-source', 'a URI is loaded from a source that is not for it', LOAD, u):
            check(got == {'from': base}, 'most-specific', 'a URI is not loaded from the most specific source', LOAD, u, got)
            check(log == [(base, rest)], 'rest', 'a source is not asked, once, for the rest of the URI', LOAD, u, log)
    except CatalogError:
        check(base not in order, 'no-source', 'a URI is refused though there is a source', LOAD, u)
        check(log == [], 'no-source', 'a source is asked for a URI that is refused', LOAD, u, log)


def s_most_specific_of_many():
    """the longest base that fits is the most specific"""
    log = []
    bases = ('http://a.example/', 'http://a.example/x/', 'http://a.example/x/?q', 'http://a.example/x/?q/', 'http://a.example/?/', 'http://a.example/?y', 'http://a.example/?y/z', 'urn:p/q/', 'urn:p/', 'http://a.example/xxxxxxxx/', 'http://a.example/x/y/z/')
    c = Catalog('c')
    for base in choose(bases, tuple(reversed(bases)), bases[3:] + bases[:3]):
        c.add_uri_source(URI(base), Named(base, log))
    u = choose('http://a.example/x/?q/z', 'http://a.example/x/?qz', 'http://a.example/?yz', 'http://a.example/?y', 'http://a.example/x/?q', 'http://a.example/x//?qz', 'http://a.example/?/', 'http://a.example/x//y/z/', 'http://a.example/-/x/z/w', 'http://a.example/-?x/z', 'urn:p/q/r', 'urn:p/qr', 'urn:p/q', 'http://a.example/xxxxxxxx/y/z/', 'http://a.example/x/y/z', 'http://a.example/x/y/z/?q/w', 'http://a.example/xxxxxxxxx')
    want = ''
    for base in bases:
        if u.startswith(base) and len(base) > len(want):
            want = base
    got = c.load_json(URI(u))
    check(got == {'from': want}, 'most-specific', 'a URI is not loaded from the most specific source', LOAD, u, got)
    check(log == [(want, u[len(want):])], 'rest', 'a source is not asked, once, for the rest of the URI', LOAD, u, log)


def s_replaced():
    """a later source for the same base takes the place of the earlier one"""
    log = []
    c = Catalog('c')
    base = choose(None, 'http://a.example/')
    for name in ('first', 'second'):
        c.add_uri_source(URI(base) if base is not None else None, Named(name, log))
    check(c.load_json(URI('http://a.example/q')) == {'from': 'second'} and len(log) == 1, 'replaced', 'a later source does not take the place of the earlier one', ADD, log)
    # and without a default source, nothing else is covered
    try:
        c.load_json(URI('http://c.example/q'))
        check(base is None, 'no-source', 'a URI is loaded from a source that is not for it', LOAD)
    except CatalogError:
        check(base is not None, 'no-source', 'a URI is refused though there is a default source', LOAD)


def s_no_source():
    c = Catalog('c')
    if flag('some source'):
        c.add_uri_source(URI('http://a.example/'), Named('a', []))
    try:
        c.load_json(URI(choose('http://c.example/q', 'urn:x', 'https://a.example/q', 'http://a.example')))
        fail('no-source', 'a URI is loaded from a source that is not for it', LOAD)
    except CatalogError:
        pass


def s_refused_base():
    c = Catalog('c')
    log = []
    base = choose('a/', '/', '', 'http://a.example', 'http://a.example/x', 'http://a.example/#', 'http://a.example/#/', 'HTTP://a.example/', 'http://A.example/', 'http://a.example/./', 'http://a.example/b/../', 'http://a.example/%7e/', '//a.example/')
    try:
        c.add_uri_source(URI(base), Named('a', log))
        fail('base-uri', 'a base URI is accepted that is not normalized, absolute, without a fragment and ending with /', ADD, base)
    except CatalogError:
        try:
            c.load_json(URI('http://a.example/x/q'))
            fail('base-uri', 'a base URI that was refused is used', ADD, base)
        except CatalogError:
            pass


def s_refused_uri():
    """only normalized, absolute URIs without a fragment are loaded"""
    c = Catalog('c')
    log = []
    c.add_uri_source(None, Named(None, log))
    c.add_uri_source(URI('http://a.example/'), Named('a', log))
    u = choose('x', '', '/x', '//a.example/x', 'http://a.example/x#', 'http://a.example/x#a', 'http://a.example/x/../y', 'http://a.example/./y', 'HTTP://a.example/x', 'http://A.example/x', 'http://a.example/%7ex', 'http://a.example/%aF')
    try:
        c.load_json(URI(u))
        fail('uri', 'a URI is loaded that is not normalized, absolute and without a fragment', LOAD, u)
    except CatalogError:
        check(log == [], 'uri', 'a source is asked for a URI that is refused', LOAD, u, log)


class Fresh(Source):
    """a source whose documents change"""
    def __init__(self):
        super().__init__()
        self.count = 0

    def __call__(self, path):
        self.count += 1
        return {'path': path, 'count': self.count, 'list': []}


def s_again():
    """every load asks the source that is registered then, and gives its document"""
    c = Catalog('c')
    source, other = Fresh(), Fresh()
    base = choose(None, 'http://a.example/')
    c.add_uri_source(URI(base) if base is not None else None, source)
    rest = '' if base is not None else 'http://a.example/'
    one = c.load_json(URI('http://a.example/x'))
    check(one == {'path': rest + 'x', 'count': 1, 'list': []}, 'document', 'a document is not the one the source gives', LOAD, one)
    one['list'].append(1)
    what = choose('X', 'x', 'x/', 'x?q', 'replaced', 'narrower')
    if what in ('replaced', 'narrower'):
        c.add_uri_source(URI('http://a.example/x/') if what == 'narrower' else URI(base) if base is not None else None, other)
        two = c.load_json(URI('http://a.example/x' if what == 'replaced' else 'http://a.example/x/y'))
        check(two == {'path': rest + 'x' if what == 'replaced' else 'y', 'count': 1, 'list': []}, 'replaced', 'a source added later is not asked', LOAD, two)
    else:
        two = c.load_json(URI('http://a.example/' + what))
        check(two == {'path': rest + what, 'count': 2, 'list': []}, 'again', 'a source is not asked for every load', LOAD, two)


class Mine(CatalogError):
    pass


class Failing(Source):
    def __init__(self, e):
        super().__init__()
        self.e = e

    def __call__(self, path):
        raise self.e


def s_errors():
    """whatever a source raises is a CatalogError with the same arguments"""
    c = Catalog('c')
    e = choose(ValueError('a', 1), KeyError('k'), CatalogError('c'), Mine('m', 2), RuntimeError(), FileNotFoundError(2, 'No such file'), TypeError('t'))
    c.add_uri_source(choose(None, URI('http://a.example/')), Failing(e))
    others = flag('other sources')
    log = []
    if others:
        for base in ('http://a.example/x/', 'http://b.example/'):
            c.add_uri_source(URI(base), Named(base, log))
        if flag('a wider one'):
            c.add_uri_source(URI('http://a.example/y/'), Failing(e))
            c.add_uri_source(URI('http://a.example/'), Named('wider', log))
            c.add_uri_source(None, Named('default', log))
            others = 'wider'
    try:
        c.load_json(URI('http://a.example/x' if others != 'wider' else 'http://a.example/y/x'))
        fail('error', 'a failure of a source is ignored', LOAD, log)
    except CatalogError as got:
        if isinstance(e, CatalogError):
            check(got is e, 'error', 'a CatalogError of a source is replaced', LOAD, got, e)
        else:
            check(got.args == e.args, 'error', 'the arguments of an error are lost', LOAD, got.args, e.args)
            check(got.__cause__ is e, 'error', 'the cause of an error is lost', LOAD)


def s_fatal():
    """interrupts are not errors of a source"""
    c = Catalog('c')
    e = choose(KeyboardInterrupt(), SystemExit(1))
    c.add_uri_source(None, Failing(e))
    try:
        c.load_json(URI('http://a.example/x'))
        fail('interrupt', 'an interrupt is ignored', LOAD)
    except CatalogError:
        fail('interrupt', 'an interrupt becomes a CatalogError', LOAD)
    except BaseException as got:
        check(got is e, 'interrupt', 'an interrupt is replaced', LOAD)


def s_passes_through():
    """what a source returns is returned as it is"""
    class One(Source):
        def __call__(self, path):
            return value
    value = choose({'a': [1]}, [], None, False, '', 0, {})
    c = Catalog('c')
    c.add_uri_source(choose(None, URI('http://a.example/')), One())
    got = c.load_json(URI('http://a.example/x'))
    check(got is value, 'document', 'a document is changed on the way', LOAD, got)


FILES = {'/base/x.json': '{"is": "x.json"}', '/base/x': '{"is": "x"}', '/base/d/y.json': '[1]', '/base/e.json.json': 'false', '/base/.json': 'true', '/base/bad.json': '{', '/base/nan.json': '[NaN]', '/etc/x.json': '"outside"', '/x.json': '"outside"'}


def s_local():
    """a local source reads the file of that name below its directory, with its suffix"""
    seen = []
    def hook(path):
        seen.append(str(path))
        return FILES.get(str(path))
    fs_hook(hook)
    AT = 'jschon/catalog/__init__.py: LocalSource.__call__'
    suffix = choose('none', None, '', '.json')
    base = choose('/base', '/base/')
    source = LocalSource(base) if suffix == 'none' else LocalSource(base, suffix=suffix)
    path = choose('x', 'x.json', 'd/y', 'd/y.json', 'nothing', 'bad', 'bad.json', 'nan.json', 'e.json')
    file = '/base/' + path + ('.json' if suffix == '.json' else '')
    want = {'/base/x.json': {'is': 'x.json'}, '/base/x': {'is': 'x'}, '/base/d/y.json': [1], '/base/e.json.json': False}.get(file, 'error')
    through = choose('catalog', 'default', 'direct')
    try:
        if through == 'direct':
            got = source(path)
        else:
            c = Catalog('c')
            c.add_uri_source(URI('http://a.example/b/'), source)
            got = c.load_json(URI('http://a.example/b/' + path))
        check(got == want, 'local', 'another file is read', AT, file, got)
    except CatalogError as e:
        check(want == 'error', 'local', 'a file cannot be read that exists', AT, file, seen)
        if file not in FILES:
            check(file in str(e), 'local-error', 'the error does not name the file', AT, file, str(e))
    except ValueError as e:
        check(want == 'error' and through == 'direct' and file in FILES, 'local-error', 'an error of a source is no CatalogError', AT, file, e)
    check(seen == [file], 'local', 'not exactly the file of that name is read', AT, file, seen)


def s_outside():
    """a local source reads nothing outside its directory"""
    seen = []
    def hook(path):
        seen.append(str(path))
        return '{}'
    fs_hook(hook)
    c = Catalog('c')
    source = LocalSource('/base/dir', suffix=choose(None, '.json'))
    c.add_uri_source(URI('http://a.example/b/'), source)
    u = choose('http://a.example/b//etc/x', 'http://a.example/b/?/../../../etc/x', 'http://a.example/b/..', 'http://a.example/b/../x', 'http://a.example/b//x.json', 'http://a.example/b/x/../../../../y', 'http://a.example/b/%2e%2e/x')
    try:
        c.load_json(URI(u))
    except CatalogError:
        pass
    for p in seen:
        check(p.startswith('/base/dir/') and '/../' not in p, 'outside', 'a local source reads a file outside its directory', 'jschon/catalog/__init__.py: LocalSource.__call__', p)


def s_remote():
    """a remote source requests the URL resolved against its base URL, with its suffix"""
    AT = 'jschon/catalog/__init__.py: RemoteSource.__call__'
    http_hook(lambda url: '{"got": [1]}')
    suffix = choose('none', None, '.json')
    base = choose('http://r.example/', 'http://r.example/d/', 'https://r.example/d/e')
    source = RemoteSource(URI(base)) if suffix == 'none' else RemoteSource(URI(base), suffix=suffix)
    path = choose('x', 'x/y', 'x.json', 'x?q=1')
    want = ('https://r.example/d/' if base.endswith('e') else base) + path + ('.json' if suffix == '.json' else '')
    c = Catalog('c')
    c.add_uri_source(URI('http://a.example/b/'), source)
    try:
        got = c.load_json(URI('http://a.example/b/' + path))
        check(got == {'got': [1]}, 'remote', 'another document is returned', AT, got)
    except CatalogError:
        pass
    gets = [e[1] for e in events('http-get')]
    check(gets == [want], 'remote', 'not exactly the resolved URL is requested', AT, gets, want)
    for e in events('http-error-body-used'):
        fail('error-body', 'the body of an error response is used', AT)


def s_letter_case():
    """bases are compared exactly: case counts"""
    log = []
    c = Catalog('c')
    bases = ('http://a.example/', 'http://a.example/x/', 'http://a.example/X/', 'http://a.example/xX/y/', 'urn:Ab/')
    order = choose(bases, tuple(reversed(bases)), bases[:2] + bases[3:], ('http://a.example/X/', 'urn:Ab/'))
    for base in order:
        c.add_uri_source(URI(base), Named(base, log))
    u = choose('http://a.example/x/q', 'http://a.example/X/q', 'http://a.example/Xx/y/q', 'http://a.example/xX/y/Q', 'urn:ab/q', 'urn:Ab/Q', 'http://a.example/XX/y/')
    want = None
    for base in order:
        if u.startswith(base) and (want is None or len(base) > len(want)):
            want = base
    try:
        got = c.load_json(URI(u))
        if check(want is not None, 'no-source', 'a URI is loaded from a source that is not for it', LOAD, u):
            check(got == {'from': want}, 'most-specific', 'a URI is not loaded from the most specific source', LOAD, u, got)
            check(log == [(want, u[len(want):])], 'rest', 'a source is not asked, once, for the rest of the URI', LOAD, u, log)
    except CatalogError:
        check(want is None and log == [], 'no-source', 'a URI is refused though there is a source', LOAD, u)
