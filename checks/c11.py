"""C11: catalog sources — longest-prefix dispatch, containment of local files,
remote fetches — judged by a dispatch model, an audit-hook file monitor and a
recording HTTP server on the loopback interface."""
import json, os, sys, threading
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
from urllib.parse import urlsplit
from lib import gen
from lib.harness import check, Violation, short
from lib.models import ident, uri_split, uri_resolve

RULE = ('random source registrations (nested prefixes, defaults, re-registrations) x URIs against a longest-prefix model with recording '
        'sources; real LocalSource trees with hostile remainders under an open() audit monitor; real HTTP fetches from a recording loopback '
        'server. State: (number of matching prefixes, default used, remainder shape, outcome)')
REQUIRED = {'dispatches': 3000, 'dispatch refused': 500, 'files loaded': 500, 'files refused': 500, 'opens audited': 500,
            'remote loaded': 100, 'remote refused': 50, 'bad base refused': 300}


_n = [0]


class Rec:
    def __init__(self, cls, tag, log, behave):
        from jschon.exc import CatalogError

        class S(cls):
            def __init__(s):
                super().__init__()
                s.tag = tag

            def __call__(s, rel):
                log.append((tag, rel))
                if behave:
                    raise behave
                return {'src': tag, 'rel': rel}
        self.src = S()


def dispatch(ctx, r):
    from jschon import URI
    from jschon.catalog import Catalog, Source
    from jschon.exc import CatalogError
    cat = Catalog(name=f'c11')
    roots = ['https://h.test/', 'https://h.test/a/', 'https://h.test/a/b/', 'https://h.test/a/b/a/', 'https://h.test/aa/', 'urn:x/', 'urn:x/a/',
             'http://h.test/', 'https://h.test/A/', 'https://h.test/A/b/', 'urn:X/', 'https://h.test/a/?q/', 'https://h.test/a/?Q/', 'https://h.testa/', 'https://h.test/b/a/']
    n = r.randint(1, 7)
    model, log = {}, []
    for t in range(n):
        behave = None
        if r.random() < .12:
            behave = r.choice([KeyError('k'), ValueError('v'), OSError('o'), RuntimeError('r'), CatalogError('c'), TypeError('t'), ZeroDivisionError()])
        base = None if r.random() < .12 else r.choice(roots)
        s = Rec(Source, t, log, behave).src
        cat.add_uri_source(URI(base) if base is not None else None, s)
        model[base or ''] = (t, behave)
        if r.random() < .3:
            _lookup(ctx, r, cat, model, log, roots)
    for _ in range(6):
        _lookup(ctx, r, cat, model, log, roots)


def _lookup(ctx, r, cat, model, log, roots):
    from jschon import URI
    from jschon.exc import CatalogError
    u = r.choice(roots) + '/'.join(r.choice(['a', 'b', 'aa', 'c', 'a', 'A', 'B']) for _ in range(r.randint(0, 4)))
    x = r.random()
    if x < .1:
        u = u.rstrip('/')
    if x > .95:
        u += '?q=/a/'
    elif x > .85:
        # the text of a base URI occurs again
        u += ('' if '?' in u else '?u=' if r.random() < .7 else '/?') + ''.join(r.choice(roots) for _ in range(r.choice([1, 1, 2])))
    bad = False
    if .1 < x < .14:
        u, bad = u + '#', True
    elif x < .18 and x > .14:
        u, bad = u + '#/a', True
    elif .18 < x < .21 and not u.startswith('urn:'):
        u, bad = u.split('//', 1)[1].split('/', 1)[1], True
    elif .21 < x < .24:
        u, bad = u.replace('h.test', 'H.TEST'), 'h.test' in u
    elif .24 < x < .27 and u.startswith('http') and '?' not in u:
        u, bad = u + '/../z', True
    elif .27 < x < .29:
        u, bad = u + '%7e', True
    ctx.store['last'] = (u, {k: v[0] for k, v in model.items()})
    del log[:]
    best = None
    if not bad:
        for p in model:
            if u.startswith(p) and (best is None or len(p) > len(best)):
                best = p
    try:
        got = cat.load_json(URI(u))
    except CatalogError as e:
        got = e
    if best is None or model[best][1] is not None:
        check(isinstance(got, CatalogError), 'load_json must raise CatalogError', uri=u, got=got, bad=bad, model={k: v[0] for k, v in model.items()})
        ctx.event('dispatch refused')
        if best is None:
            check(not log, 'a source was consulted for a refused URI', uri=u, log=list(log))
        return
    check(not isinstance(got, Exception), 'load_json raised for a loadable URI', uri=u, got=got)
    want = (model[best][0], u[len(best):])
    check(log == [want] and got == {'src': want[0], 'rel': want[1]}, 'wrong source or remainder', uri=u, got=log[:], want=want, prefixes=list(model))
    ctx.event('dispatches')
    ctx.state('disp', sum(u.startswith(p) for p in model), best == '', len(want[1].split('/')), '' in model)


def bases(ctx, r):
    from jschon import URI
    from jschon.catalog import Catalog, Source
    from jschon.exc import CatalogError
    cat = Catalog(name='c11')
    good = ['https://h.test/', 'https://h.test/a/', 'urn:x/', 'file:/a/', 'tag:a.b,2020:x/']
    bad = ['https://h.test', 'https://h.test/a', '/a/', 'a/', '', '//h.test/', 'https://h.test/#', 'https://h.test/#/', 'https://h.test/a/#x/',
           'https://H.test/', 'HTTPS://h.test/', 'https://h.test/a/../', 'https://h.test/./', 'urn:x', 'https://h.test/%7e/', 'https://h.test?/',
           'https://h.test/a?x=/']
    class S(Source):
        def __call__(self, rel):
            return {'ok': rel}
    if r.random() < .3:
        b = r.choice(good)
        cat.add_uri_source(URI(b), S())
        check(cat.load_json(URI(b + 'zz')) == {'ok': 'zz'}, 'registered base not used', base=b)
        ctx.event('good base accepted')
        return
    b = r.choice(bad)
    ctx.store['last'] = b
    try:
        cat.add_uri_source(URI(b), S())
    except CatalogError:
        ctx.event('bad base refused')
        ctx.state('base', b)
        for u in ('https://h.test/zz', 'urn:xzz', 'https://h.test/a/zz'):
            try:
                cat.load_json(URI(u))
            except CatalogError:
                continue
            raise Violation('a refused base URI was registered', base=b, uri=u)
        return
    raise Violation('invalid base URI accepted', base=b)


# ---------------------------------------------------------------- local files

_audit = {'on': False, 'log': []}


def _hook(event, args):
    if event == 'open' and _audit['on']:
        _audit['log'].append(args[0])


def setup(ctx):
    sys.addaudithook(_hook)
    d = ctx.tmpdir()
    base = os.path.join(d, 'base', 'dir')
    out = os.path.join(d, 'base', 'outside')
    os.makedirs(base)
    os.makedirs(out)
    files = {}
    rels = ['s.json', 's', 'a/s.json', 'a/b/t.json', 'a/b/t', 'a%20b.json', 'x.schema.json', 'a/index.json', 'dir.json/u.json',
            '...json', '.hid.json', "q'.json", '...', 'a/...']
    import random
    rr = random.Random('c11-files')
    for i, rel in enumerate(rels):
        p = os.path.join(base, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        v = {'file': rel, 'n': i, 'v': gen.value(rr, 2, 3), 'text': 'é中\U0001F600'}
        with open(p, 'w', encoding='utf-8') as f:
            json.dump(v, f, ensure_ascii=rr.random() < .5)
        files[rel] = v
    badf = {'bad.json': b'{"a":', 'nan.json': b'{"a": NaN}', 'inf.json': b'[-Infinity]', 'latin.json': b'"\xe9"', 'empty.json': b'', 'two.json': b'1 2'}
    for rel, b in badf.items():
        with open(os.path.join(base, rel), 'wb') as f:
            f.write(b)
    secret = os.path.join(out, 'secret.json')
    with open(secret, 'w') as f:
        json.dump({'secret': True}, f)
    with open(os.path.join(d, 'base', 's.json'), 'w') as f:
        json.dump({'secret': True}, f)
    with open(os.path.join(d, 'base', 'dirs.json'), 'w') as f:
        json.dump({'secret': True}, f)
    ctx.store['local'] = (base, out, files, set(badf))
    srv = Server()
    ctx.store['srv'] = srv


def local(ctx, r):
    from jschon import URI
    from jschon.catalog import Catalog, LocalSource
    from jschon.exc import CatalogError
    base, out, files, badf = ctx.store['local']
    cat = Catalog(name='c11')
    suffix = r.choice([None, None, '.json', '.schema.json'])
    import pathlib
    bd = r.choice([base, pathlib.Path(base), base + '/', os.path.relpath(base)])
    kw = {'suffix': suffix} if suffix or r.random() < .2 else {}
    prefix = r.choice(['https://h.test/', 'https://h.test/p/q/', 'urn:x/', None])
    cat.add_uri_source(URI(prefix) if prefix else None, LocalSource(bd, **kw))
    for _ in range(3):
        rel = r.choice(sorted(files) + sorted(badf) + ['nope.json', 'a', 'a/b', '', 'dir.json', 'a/../s.json', 's/', 'a/s/', 'a/b/t/', 'a/', 'a/b/'])
        if suffix and rel.endswith(suffix) and r.random() < .8:
            rel = rel[:-len(suffix)]
        hostile = False
        x = r.random()
        if x < .35:
            hostile = True
            rel = r.choice([out + '/secret.json', '/' + out + '/secret.json', '//' + out + '/secret', '/s.json', '//s.json', '/../s.json', '../s.json',
                            '..//outside/secret.json', '../outside/secret', '/..//../outside/secret.json', 'a/../../s.json', '%2e%2e/s.json',
                            '..%2Fs.json', '%2E%2E/outside/secret.json', '/%2e%2e/s', '../../base/dir/../s.json', '~/s.json', './../s.json', '...', '/etc/passwd',
                            '/' + base + '/s.json', 's.json/../../s.json', '\\..\\s.json', '../dirs', 's', '../dir', 'a/..', '/a/s.json'])
        u = (prefix or 'https://z.test/') + rel
        if uri_split(u)[4] is not None:
            continue
        if prefix is None:
            remainder = u
        else:
            remainder = rel
        ctx.store['last'] = (u, suffix, str(bd))
        _audit['log'] = []
        _audit['on'] = True
        try:
            got = cat.load_json(URI(u))
        except CatalogError as e:
            got = e
        finally:
            _audit['on'] = False
        for p in _audit['log']:
            p = os.fspath(p) if not isinstance(p, int) else p
            if isinstance(p, bytes):
                p = os.fsdecode(p)
            if isinstance(p, str) and p.endswith(('.py', '.pyc')):
                continue
            check(isinstance(p, str) and (os.path.realpath(p) + '/').startswith(os.path.realpath(base) + '/'),
                  'a file outside the base directory was opened', uri=u, opened=p, base=base)
            ctx.event('opens audited')
        check(isinstance(got, Exception) or got != {'secret': True}, 'content from outside the base directory returned', uri=u)
        target = remainder + (suffix or '')
        if prefix is None:
            # https:/z.test/... below the base directory: nothing there
            check(isinstance(got, CatalogError), 'unknown file must raise CatalogError', uri=u, got=got)
            ctx.event('files refused')
            continue
        plain = not hostile and '' not in target.split('/') and not {'.', '..'} & set(remainder.split('/'))
        if plain:
            if target in files and URIok(u):
                check(not isinstance(got, Exception) and ident(got, files[target]), 'content differs from the file', uri=u, got=short(got), want=short(files[target]))
                ctx.event('files loaded')
                ctx.state('load', target, suffix, prefix, str(type(bd)))
            elif target not in files:
                check(isinstance(got, CatalogError), 'missing/malformed file must raise CatalogError', uri=u, got=short(got))
                ctx.event('files refused')
                ctx.state('ref', rel, suffix)
        elif isinstance(got, Exception):
            ctx.event('files refused')
            ctx.state('host', rel[:20].replace(base, 'B'), suffix)
        else:
            # whatever was returned must be the content of a file in the base directory
            check(any(ident(got, v) for v in files.values()), 'content is not that of a file in the base directory', uri=u, got=short(got))
            ctx.event('files loaded')


def URIok(u):
    """normalized: only lower-case percent-encodings or dots matter here"""
    return all(ord(c) < 128 or True for c in u)


# ---------------------------------------------------------------- remote

class Server:
    def __init__(self):
        self.log = []
        self.replies = {}
        self.httpd = None

    def start(self):
        outer = self

        class H(BaseHTTPRequestHandler):
            def do_GET(self):
                outer.log.append(self.path)
                st, body = outer.replies.get(self.path, (404, b'null'))
                self.send_response(st)
                self.send_header('Content-Type', 'application/json')
                self.send_header('Content-Length', str(len(body)))
                self.end_headers()
                self.wfile.write(body)

            def log_message(self, *a):
                pass
        self.httpd = ThreadingHTTPServer(('127.0.0.1', 0), H)
        self.port = self.httpd.server_address[1]
        t = threading.Thread(target=self.httpd.serve_forever, kwargs={'poll_interval': .05}, daemon=True)
        t.start()


def remote(ctx, r):
    from jschon import URI
    from jschon.catalog import Catalog, RemoteSource
    from jschon.exc import CatalogError
    srv = ctx.store['srv']
    if srv.httpd is None:
        for k in [k for k in os.environ if k.lower().endswith('_proxy')]:
            del os.environ[k]
        srv.start()
    cat = Catalog(name='c11')
    root = f'http://127.0.0.1:{srv.port}'
    burl = root + r.choice(['/', '/base/', '/base/dir/', '/base/file'])
    suffix = r.choice([None, None, '.json'])
    prefix = r.choice(['https://h.test/', 'https://h.test/p/'])
    cat.add_uri_source(URI(prefix), RemoteSource(URI(burl), **({'suffix': suffix} if suffix else {})))
    rel = '/'.join(r.choice(['a', 'b', 'x.json', 'c-d', 'e%20f', '1']) for _ in range(r.randint(1, 3)))
    if r.random() < .1:
        rel = '/' + rel
    if r.random() < .1:
        rel += '?q=1'
    want_url = uri_resolve(rel, burl) + (suffix or '')
    path = want_url[len(root):]
    v = gen.value(r, 3, 3)
    body = json.dumps(v, ensure_ascii=r.random() < .5).encode()
    st, ok = 200, True
    x = r.random()
    if x < .1:
        st, ok = r.choice([404, 500, 403, 400, 503, 410]), False
    elif x < .2:
        body, ok = r.choice([b'', b'{', b'NaN', b'{"a": Infinity}', b'<html>', b'[1,]']), False
    srv.replies = {path: (st, body)}
    del srv.log[:]
    u = prefix + rel
    ctx.store['last'] = (u, burl, suffix)
    if r.random() < .03:
        # connection refused
        cat.add_uri_source(URI(prefix), RemoteSource(URI('http://127.0.0.1:1/')))
        ok = None
    try:
        got = cat.load_json(URI(u))
    except CatalogError as e:
        got = e
    if ok:
        check(not isinstance(got, Exception), 'remote load failed', uri=u, base=burl, got=got, requests=srv.log[:], want=path)
        check(srv.log == [path], 'wrong remote URL fetched', uri=u, base=burl, suffix=suffix, got=srv.log[:], want=path)
        check(ident(got, v), 'remote content differs', uri=u, got=short(got), want=short(v))
        ctx.event('remote loaded')
        ctx.state('remote', rel, burl[len(root):], suffix)
    else:
        check(isinstance(got, CatalogError), 'failed fetch must raise CatalogError', uri=u, status=st, body=body, got=got)
        ctx.event('remote refused')


def teardown(ctx):
    srv = ctx.store.get('srv')
    if srv and srv.httpd:
        srv.httpd.shutdown()


UNITS = {'dispatch': (dispatch, 12000, 40000), 'bases': (bases, 6000, 12000), 'local': (local, 18000, 60000), 'remote': (remote, 1500, 4000)}
