"""C12: the schema cache as a map (catalog, cache identifier, URI) -> schema object."""
import json
from lib.genschema import Gen, add_ids
from lib.models import uri_split, uri_unsplit, frag_encode, frag_decode, ptr_str
from lib.refeval import *
from lib.smon import DRAFTS, catalog
from lib.harness import check, short

RULE = ('random programs of construct / look up / load from source / alias / delete / rename / open and close caches over 2 catalogs, judged by a plain map from '
        '(catalog, cache, URI) to object identity. State: (operation, outcome, kind of URI)')
REQUIRED = {'lookup canonical': 2000, 'lookup id': 400, 'lookup anchor': 200, 'lookup pointer': 2000, 'lookup empty fragment': 200, 'lookup refused: fragment': 800,
            'lookup refused: not a schema': 200, 'lookup refused: other cache': 800, 'lookup refused: other catalog': 300, 'loaded from source': 300, 'deleted': 300,
            'aliased': 300, 'renamed': 300, 'cache dropped': 300, 'cache dropped on error': 60, 'cache id in use': 200, 'catalog by name': 200, 'catalog replaced': 50, 'unknown catalog': 50,
            'metaschema separate': 100, 'lookup twin': 400, 'lookup deleted elsewhere': 40, 'lookup renamed elsewhere': 20, 'canonical of every node': 1500, 'embedded renamed': 100, 'many: found': 2000, 'many: refused': 60, 'many: deleted': 60}


class Src:
    pass


def setup(ctx):
    from jschon.catalog import Source
    catalog(ctx, 'c12-a')
    catalog(ctx, 'c12-b')

    class Mem(Source):
        def __init__(s):
            super().__init__()
            s.docs, s.log = {}, []

        def __call__(s, rel):
            s.log.append(rel)
            return json.loads(json.dumps(s.docs[rel]))
    from jschon import URI
    ctx.store['src'] = {}
    for n in 'ab':
        m = Mem()
        catalog(ctx, 'c12-' + n).add_uri_source(URI('https://src.test/'), m)
        ctx.store['src'][n] = m


class Model:
    def __init__(self, ctx, r):
        self.ctx, self.r = ctx, r
        self.cat = {n: catalog(ctx, 'c12-' + n) for n in 'ab'}
        self.src = ctx.store['src']
        for s in self.src.values():
            s.docs.clear()
            del s.log[:]
        self.M = {}         # (catname, cid) -> {uri: obj}
        self.n = 0
        self.prev = None

    def fresh(self):
        self.n += 1
        return self.n

    def doc(self, based):
        """-> plain document, draft"""
        r = self.r
        d = r.choice(DRAFTS)
        g = Gen(r, d, annotations=.2, unevaluated=.1)
        s = g.document(r.choice([1, 2])) if r.random() < .5 else g.schema(2)
        if isinstance(s, bool):
            return (s if based else {'title': 'x'}), d
        if r.random() < .6:
            add_ids_fresh(r, s, d, self)
        if r.random() < .3 and '$anchor' not in s and based:
            s['$anchor'] = f'Top{self.fresh()}'
        return s, d

    # -------------------------------------------------------------- expected
    def resolve(self, cn, cid, uri):
        """-> ('ok', object) | ('no', why) | ('load', base)"""
        m = self.M.get((cn, cid), {})
        if uri in m:
            return 'ok', m[uri]
        base, h, frag = uri.partition('#')
        if h and base in m:
            obj = m[base]
            if frag == '':
                return 'ok', obj
            if not frag_decode(frag).startswith('/'):
                return 'no', 'fragment'
            n = navigate(obj, [t.replace('~1', '/').replace('~0', '~') for t in frag_decode(frag).split('/')[1:]])
            if n is None:
                return 'no', 'fragment'
            from jschon import JSONSchema
            return ('ok', n) if isinstance(n, JSONSchema) else ('no', 'not a schema')
        if base.startswith('https://src.test/') and base[len('https://src.test/'):] in self.src[cn].docs:
            return 'load', base
        return 'no', 'no such schema'

    def register(self, cn, cid, js, doc, uri, draft):
        reg = Registry()
        root = reg.add(doc, uri, META[draft])
        m = self.M.setdefault((cn, cid), {})
        for u, n in reg.res.items():
            if n.parent is None and u != n.uri:
                continue
            m[u] = navigate(js, n.keys)
        for (b, a), n in reg.anchors.items():
            m[f'{b}#{a}'] = navigate(js, n.keys)
        return reg, root

    def get(self, cn, cid, uri, what):
        from jschon import URI
        from jschon.exc import CatalogError
        ctx = self.ctx
        ctx.store['last'] = (cn, str(cid), uri)
        exp = self.resolve(cn, cid, uri)
        try:
            got = self.cat[cn].get_schema(URI(uri), cacheid=cid, metaschema_uri=URI(META[D20]))
        except CatalogError as e:
            got = e
        if exp[0] == 'load':
            base = exp[1]
            js = got
            if isinstance(got, Exception):
                # the document loads although the fragment may name no schema in it
                try:
                    js = self.cat[cn].get_schema(URI(base), cacheid=cid)
                except CatalogError as e:
                    check(False, 'a loadable schema was not loaded', uri=uri, got=got)
            while js.parent is not None:
                js = js.parent
            self.register(cn, cid, js, self.src[cn].docs[base[len('https://src.test/'):]], base, D20)
            ctx.event('loaded from source')
            exp = self.resolve(cn, cid, uri)
        if exp[0] == 'ok':
            check(got is exp[1], 'look-up does not return the identical schema object', uri=uri, got=short(got), what=what, cache=str(cid))
            ctx.event('lookup ' + what)
        else:
            check(isinstance(got, CatalogError), 'look-up must raise CatalogError', uri=uri, got=short(got), what=what, why=exp[1], cache=str(cid))
            ctx.event('lookup refused: ' + (what if exp[1] == 'no such schema' else exp[1]))
        ctx.state(what, exp[0], exp[1] if exp[0] == 'no' else '', uri.count('/'), len(self.M), self.prev)
        self.prev = what


def navigate(js, keys):
    n = js
    for k in keys:
        if n.type == 'array':
            if not k.isdigit() or (k[0] == '0' and k != '0') or int(k) >= len(n):
                return None
            n = n[int(k)]
        elif n.type == 'object':
            if k not in n.data:
                return None
            n = n[k]
        else:
            return None
    return n


def add_ids_fresh(r, s, d, M):
    from lib.genschema import contains_refs
    reg = Registry()
    reg.add(s, 'https://x.test/dir/s', META[d])
    import lib.genschema
    pointed = json.dumps(s).count('"#/')
    for nd in reg.nodes:
        if nd.parent is None or not isinstance(nd.value, dict) or contains_refs(nd.value) or r.random() < .6:
            continue
        if any('$id' in a for a in ancestors(nd)) and r.random() < .5:
            continue
        if pointed and nd.keys[:1] == ('$defs',):
            continue
        nd.value['$id'] = r.choice([f'https://y.test/e{M.fresh()}', f'https://x.test/dir/e{M.fresh()}'])
        if r.random() < .4:
            nd.value['$anchor'] = f'E{M.fresh()}'


def ancestors(nd):
    while nd.parent is not None:
        nd = nd.parent
        yield nd.value


def walk_schemas(js, out):
    from jschon import JSONSchema
    if isinstance(js, JSONSchema):
        out.append(js)
    if js.type == 'array':
        for x in js:
            walk_schemas(x, out)
    elif js.type == 'object':
        for x in js.values():
            walk_schemas(x, out)
    return out


def program(ctx, r):
    from jschon import JSONSchema, URI
    from jschon.catalog import Catalog
    from jschon.exc import CatalogError
    M = Model(ctx, r)
    stack = []      # open caches
    made = []       # (cn, cid, js, doc, root uri)

    def caches():
        return [(cn, cid) for cn, cid, _ in stack] + [('a', 'default'), ('b', 'default')]

    def op():
        x = r.random()
        cn, cid = r.choice(caches())
        if x < .22 or not made:
            kind = r.random()
            if kind < .25:
                # via a source
                name = f'd{M.fresh()}'
                while True:
                    s, d = M.doc(True)
                    if d == D20:
                        break
                for c in r.choice(['a', 'ab', 'ab']):
                    M.src[c].docs[name] = s
                if r.random() < .7:
                    k = len(M.src[cn].log)
                    M.get(cn, cid, 'https://src.test/' + name + r.choice(['', '', '#', '#/nope', '#/$defs']), 'source')
                    if name in M.src[cn].docs:
                        check(M.src[cn].log[k:] == [name], 'source consulted differently', log=M.src[cn].log[k:])
                        obj = M.M[cn, cid]['https://src.test/' + name]
                        made.append((cn, cid, obj, s, 'https://src.test/' + name))
                        for _ in range(2):
                            M.get(cn, cid, 'https://src.test/' + name, 'source again')
                        check(M.src[cn].log[k:] == [name], 'the source is consulted again for a cached schema', log=M.src[cn].log[k:])
                return
            uri = f'https://x.test/{r.choice(["", "", "p/", "p/", "a/b/c/d/e/", "%C3%A9/", "q;x=1/"])}s{M.fresh()}' if r.random() < .7 else None
            if uri and r.random() < .1:
                uri = f'urn:s:{M.fresh()}'
            s, d = M.doc(uri is not None)
            if isinstance(s, dict) and r.random() < (.3 if uri else .5):
                s = {'$id': f'https://x.test/own{M.fresh()}', **s}
                if r.random() < .1 and d != DN:
                    s['$id'] += '#'
            if uri is not None and isinstance(s, dict) and '$id' in s and r.random() < .5:
                uri = None
            cat = M.cat[cn]
            js = JSONSchema(json.loads(json.dumps(s)), catalog=cat if r.random() < .6 else 'c12-' + cn, cacheid=cid,
                            metaschema_uri=URI(META[d]), **({'uri': URI(uri)} if uri else {}))
            root = uri
            if isinstance(s, dict) and '$id' in s:
                root = s['$id'].rstrip('#')
            elif uri is None:
                root = str(js.uri)
                check(root.startswith('urn:uuid:'), 'generated URI', root=root)
            M.register(cn, cid, js, s, root, d)
            made.append((cn, cid, js, s, root))
            check(js.catalog is cat and js.cacheid == cid, 'catalog/cacheid attributes')
            for n in walk_schemas(js, []):
                check(n.catalog is cat and n.cacheid == cid, 'subschema catalog/cacheid')
                M.get(cn, cid, str(n.canonical_uri), 'canonical')
                ctx.event('canonical of every node')
            if uri and uri != root:
                M.get(cn, cid, uri, 'superseded by $id')
            if r.random() < .35 and not root.startswith('urn:uuid'):
                # the same document under the same URIs in another cache
                c2, cid2 = r.choice(caches())
                if (c2, cid2) != (cn, cid) and root not in M.M.get((c2, cid2), {}):
                    j2 = JSONSchema(json.loads(json.dumps(s)), catalog=M.cat[c2], cacheid=cid2, metaschema_uri=URI(META[d]), **({'uri': URI(uri)} if uri else {}))
                    M.register(c2, cid2, j2, s, root, d)
                    made.append((c2, cid2, j2, s, root))
                    for u in r.sample(sorted(M.M[c2, cid2]), 1):
                        for c, i in [(c2, cid2), (cn, cid)]:
                            M.get(c, i, u, 'twin')
        elif x < .62:
            cn, cid, js, doc, root = r.choice(made)
            k = r.random()
            if k < .2 and (cn, cid) in M.M and M.M[cn, cid]:
                u = r.choice(sorted(M.M[cn, cid]))
                M.get(cn, cid, u, 'anchor' if '#' in u else 'id')
                if '#' not in u:
                    M.get(cn, cid, u + '#', 'empty fragment')
            elif k < .5:
                ns = walk_schemas(js, [])
                n = r.choice(ns)
                keys, a = [], n
                while a is not js:
                    keys.insert(0, a.key)
                    a = a.parent
                if crosses(doc, keys):
                    return
                enc = frag_encode if r.random() < .7 else (lambda s: ''.join(f'%{b:02X}' if b > 127 or not chr(b).isalnum() and b != 47 or r.random() < .2 else chr(b) for b in s.encode()))
                M.get(cn, cid, root + '#' + enc(ptr_str(keys)), 'pointer')
            elif k < .7:
                bad = r.choice(['#nope', '#/nope', '#/title', '#/$defs', '#/$defs/nope', '#/allOf', '#/allOf/99', '#/allOf/-', '#/properties', '#/required/0', '#/type', '#/x/y', '#~', '#/~2',
                                '#/allOf/00', '#/%', '#//'])
                M.get(cn, cid, root + bad, 'fragment')
            elif k < .85:
                oc = [c for c in caches() if c[0] == cn and c[1] != cid]
                if oc and not root.startswith('https://src'):
                    o = r.choice(oc)
                    u = r.choice(sorted(M.M.get((cn, cid), {})) or [root])
                    if not u.startswith('https://src'):
                        M.get(o[0], o[1], u, 'other cache')
                        M.get(o[0], r.choice(['nocache', ('t', 1), 7]), u, 'other cache')
            else:
                o = 'b' if cn == 'a' else 'a'
                if not root.startswith('https://src'):
                    M.get(o, cid, root, 'other catalog')
        elif x < .72:
            cn, cid, js, doc, root = r.choice(made)
            if (cn, cid) not in M.M or not M.M[cn, cid]:
                return
            k = r.random()
            m = M.M[cn, cid]
            if k < .35:
                u = r.choice(sorted(m) + ['https://x.test/never'])
                M.cat[cn].del_schema(URI(u), cacheid=cid)
                m.pop(u, None)
                ctx.event('deleted')
                if not u.startswith('https://src') or u[17:] not in M.src[cn].docs:
                    M.get(cn, cid, u, 'deleted')
                for (c2, i2), m2 in list(M.M.items()):
                    if u in m2:
                        M.get(c2, i2, u, 'deleted elsewhere')
            elif k < .7:
                n = r.choice(walk_schemas(js, []))
                u = f'https://alias.test/{r.choice(["", "", "a/b/c/d/e/", "%C3%A9/", "?v="])}{M.fresh()}' + r.choice(['', '', '#frag'])
                M.cat[cn].add_schema(URI(u), n, cacheid=cid)
                m[u] = n
                M.get(cn, cid, u, 'alias')
                ctx.event('aliased')
            else:
                top = js
                if r.random() < .5:     # an embedded schema or one with an anchor
                    js = r.choice([n for n in walk_schemas(js, []) if n.uri is not None and m.get(str(n.uri)) is n] or [js])
                old = js.uri
                new = f'https://renamed.test/{r.choice(["", "", "a/b/c/d/e/", "%C3%A9/", "?v="])}{M.fresh()}'
                js.uri = URI(new)
                if js is not top:
                    ctx.event('embedded renamed')
                if old is not None:
                    m.pop(str(old), None)
                m[new] = js
                M.get(cn, cid, new, 'id')
                if old is not None and not str(old).startswith('https://src'):
                    M.get(cn, cid, str(old), 'renamed')
                for (c2, i2), m2 in list(M.M.items()):
                    if str(old) in m2:
                        M.get(c2, i2, str(old), 'renamed elsewhere')
                check(str(js.canonical_uri) == new and str(js.base_uri) == new, 'uri attributes after renaming')
                made[:] = [t if t[2] is not js else (cn, cid, js, doc, new) for t in made]
                ctx.event('renamed')
            for u in r.sample(sorted(m), min(3, len(m))):
                M.get(cn, cid, u, 'unaffected')
        elif x < .82:
            c = r.choice('ab')
            cid = r.choice([None, None, 'cx', ('t', 1), 42, 'default2', frozenset([1])])
            if cid is not None and any(a == c and b == cid for a, b, _ in stack):
                return
            cm = M.cat[c].cache(cid) if r.random() < .5 else M.cat[c].cache(*([cid] if cid is not None else []))
            got = cm.__enter__()
            check(cid is None or got == cid, 'cache() yields another identifier', got=got)
            check(all(got != b for a, b, _ in stack if a == c), 'cache() generated an identifier in use')
            stack.append((c, got, cm))
        elif x < .9 and stack:
            i = r.randrange(len(stack))
            c, cid, cm = stack.pop(i)
            err = r.random() < .25
            if err:
                e = RuntimeError('inside')
                check(not cm.__exit__(RuntimeError, e, None) if not_swallow(cm, e) else True, 'cache() swallows an exception')
            else:
                cm.__exit__(None, None, None)
            gone = sorted(M.M.pop((c, cid), {}))
            made[:] = [t for t in made if (t[0], t[1]) != (c, cid)]
            ctx.event('cache dropped on error' if err else 'cache dropped')
            for u in gone[:4]:
                if not u.startswith('https://src'):
                    M.get(c, cid, u, 'dropped')
            for (a, b), m in list(M.M.items()):
                for u in r.sample(sorted(m), min(2, len(m))):
                    M.get(a, b, u, 'unaffected')
        elif x < .95:
            used = [(a, b) for (a, b), m in M.M.items() if m]
            if used:
                a, b = r.choice(used)
                before = dict(M.M[a, b])
                try:
                    with M.cat[a].cache(b):
                        pass
                    check(False, 'cache() accepts an identifier in use', cacheid=str(b))
                except CatalogError:
                    ctx.event('cache id in use')
                for u in r.sample(sorted(before), min(3, len(before))):
                    M.get(a, b, u, 'unaffected')
        else:
            y = r.random()
            if y < .45:
                c = r.choice('ab')
                check(Catalog.get_catalog('c12-' + c) is M.cat[c], 'get_catalog returns another catalog')
                ctx.event('catalog by name')
            elif y < .65:
                nm = f'tmp{r.randrange(3)}'
                c1 = Catalog(nm)
                check(Catalog.get_catalog(nm) is c1, 'get_catalog after creation')
                s1 = JSONSchema(True, catalog=nm, uri=URI('https://x.test/t'))
                c2 = Catalog(nm)
                check(Catalog.get_catalog(nm) is c2, 'a new catalog does not replace the old one of that name')
                check(c1.get_schema(URI('https://x.test/t')) is s1, 'a replaced catalog lost its schemas')
                try:
                    c2.get_schema(URI('https://x.test/t'))
                    check(False, 'a replacing catalog sees the schemas of the replaced one')
                except CatalogError:
                    ctx.event('catalog replaced')
            elif y < .8:
                try:
                    Catalog.get_catalog('never-made')
                    check(False, 'unknown catalog name accepted')
                except CatalogError:
                    ctx.event('unknown catalog')
            else:
                c = M.cat[cn]
                d = r.choice(DRAFTS)
                mu = URI(META[d])
                m1 = c.get_metaschema(mu)
                check(c.get_metaschema(mu) is m1, 'get_metaschema is not repeatable')
                if cid != 'default':
                    s1 = c.get_schema(mu, cacheid=cid)
                    check(s1 is not m1 and c.get_schema(mu, cacheid=cid) is s1, 'the metaschema cache leaks into another cache')
                    check(c.get_schema(mu, cacheid='__meta__') is m1, 'metaschema cache look-up')
                    # metaschema documents of this cache are not modelled further: drop them
                ctx.event('metaschema separate')

    def not_swallow(cm, e):
        return True
    try:
        for _ in range(r.choice([8, 15, 25])):
            op()
    finally:
        for c, cid, cm in reversed(stack):
            cm.__exit__(None, None, None)
        for c in 'ab':
            for u in M.M.get((c, 'default'), {}):
                M.cat[c].del_schema(URI(u))
    ctx.sample({'schemas': len(made), 'uris': sum(map(len, M.M.values()))})


def crosses(doc, keys):
    """does the pointer pass through an embedded resource?"""
    v = doc
    for i, k in enumerate(keys):
        v = v[int(k)] if isinstance(v, list) else v[k]
        if isinstance(v, dict) and '$id' in v:
            return True
    return False


def exits(ctx, r):
    """cache() as a context manager, in real with statements."""
    from jschon import JSONSchema, URI
    from jschon.exc import CatalogError
    cat = catalog(ctx, 'c12-' + r.choice('ab'))
    cid0 = r.choice([None, 'w', ('w', 2)])
    boom = r.random() < .5
    keep = JSONSchema({'title': 'keep'}, catalog=cat, cacheid='keep', uri=URI('https://x.test/k'), metaschema_uri=URI(META[D20]))
    u = URI('https://x.test/w')
    seen = None
    try:
        with cat.cache(cid0) as cid:
            s = JSONSchema({'title': 'x', '$anchor': 'q'}, catalog=cat, cacheid=cid, uri=u, metaschema_uri=URI(META[D20]))
            seen = cid
            if r.random() < .5:
                try:
                    with cat.cache(cid):
                        check(False, 'nested cache() with an identifier in use')
                except CatalogError:
                    ctx.event('cache id in use')
                check(cat.get_schema(u, cacheid=cid) is s, 'a refused cache() dropped the schemas')
            if boom == 1:
                raise KeyError('inside')
        check(not boom, 'cache() swallowed the exception')
    except KeyError:
        check(boom, 'unexpected KeyError')
    for x in (u, URI('https://x.test/w#q')):
        try:
            cat.get_schema(x, cacheid=seen)
            check(False, 'schemas survive the end of their cache', error=boom)
        except CatalogError:
            ctx.event('cache dropped on error' if boom else 'cache dropped')
    check(cat.get_schema(URI('https://x.test/k'), cacheid='keep') is keep, 'another cache was affected')
    with cat.cache(seen) as again:      # reusable
        check(again == seen, 'reused identifier')
    cat.del_schema(URI('https://x.test/k'), cacheid='keep')


def many(ctx, r):
    """hundreds of schemas, anchors and resources in a cache, some deleted or replaced, beside a second cache with the same URIs"""
    from jschon import JSONSchema, URI
    from jschon.exc import CatalogError
    cat = catalog(ctx, 'c12-' + r.choice('ab'))
    d = r.choice(DRAFTS)
    n = r.choice([20, 40, 70, 130, 300])
    u = lambda i: f'https://many.test/{i // 7}/s{i}'
    with cat.cache() as c1, cat.cache() as c2:
        M = {c1: {}, c2: {}}

        def put(c, i):
            doc = {'title': str(i), '$defs': {'e': {'$id': f'{i}/emb', '$anchor': 'E', 'items': {'$anchor': f'I{i}'}}, 'p': {}}, '$anchor': f'A{i}'}
            js = JSONSchema(doc, catalog=cat, cacheid=c, uri=URI(u(i)), metaschema_uri=URI(META[d]))
            e = js['$defs']['e']
            eu = uri_resolve(f'{i}/emb', u(i))
            M[c].update({u(i): js, u(i) + f'#A{i}': js, eu: e, eu + '#E': e, eu + f'#I{i}': e['items']})
        ids = list(range(n))
        r.shuffle(ids)
        for i in ids:
            put(c1, i)
            if r.random() < .3:
                put(c2, i)
        for k in r.sample(sorted(M[c1]), 8):
            cat.del_schema(URI(k), cacheid=c1)
            del M[c1][k]
            ctx.event('many: deleted')
        put(c1, ids[0])
        for c, o in ((c1, c2), (c2, c1)):
            for k, v in M[c].items():
                check(cat.get_schema(URI(k), cacheid=c) is v, 'one of many schemas is not found under its URI', uri=k, schemas=n, cached=len(M[c]))
                ctx.event('many: found')
            for k in r.sample(sorted(set(M[o]) - set(M[c])) or [u(n)], 1) + [u(n), u(ids[0]) + '#nope']:
                try:
                    cat.get_schema(URI(k), cacheid=c)
                except CatalogError:
                    ctx.event('many: refused')
                    continue
                b, _, f = k.partition('#')
                check(False, 'a schema never registered in this cache is found', uri=k)
            for i in r.sample(ids, 5):
                if u(i) in M[c]:
                    check(cat.get_schema(URI(u(i) + '#/$defs/p'), cacheid=c) is M[c][u(i)]['$defs']['p'], 'a pointer into one of many schemas', uri=u(i))
        ctx.state('many', d, n)


UNITS = {'many': (many, 24, 300), 'program': (program, 6000, 80000), 'exits': (exits, 600, 5000)}
