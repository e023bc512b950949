"""C13: $id / $anchor / $ref resolution over generated document sets."""
import json
from collections import Counter
from lib.models import canon, uri_split, uri_unsplit, uri_resolve, frag_encode, frag_decode, ptr_str
from lib.refeval import *
from lib.smon import Pair, DRAFTS, catalog, norm_loc
from lib.harness import check, short
from lib.tree import plain

RULE = ('sets of 1-4 documents with nested $id (absolute, relative, network-path, query), repeated anchor names, decoys in data positions and references of every form (pointer, anchor, '
        'relative path, empty, cross-document, recursive) loaded in random order; structure attributes of every node, verdicts and tag annotations judged by a registry model. '
        'State: (reference form, target kind, resource relation, sibling keywords)')
FORMS = ['absolute', 'relative path', 'absolute path', 'network path', 'fragment only', 'query']
REQUIRED = {f'ref {f}': 60 for f in FORMS}
REQUIRED.update({'placed nodes': 800, 'large: wide': 60, 'large: deep': 30, 'large: chain': 30, 'large: valid': 200, 'large: invalid': 100, 'ref pointer': 800, 'ref anchor': 400, 'ref root': 400, 'ref cross document': 500, 'ref embedded resource': 400, 'ref recursive': 300, 'structure nodes': 8000,
                 'evaluations': 6000, 'valid': 1000, 'invalid': 1000, 'unresolvable refused': 500, 'preloaded': 200, 'loaded by reference': 400, 'mutual recursion': 50,
                 'decoys': 500, 'encoded pointer': 100, 'ref with siblings': 300})
ANCH = ['a', 'b', 'A1', '_x', 'a.b-c']
PROPS = ['p', 'q', '$ref', '$id', '$anchor', 'a/b', 'm~n', 'x%y', 'é', 'next']


def setup(ctx):
    from jschon.catalog import Source
    from jschon import URI

    class Mem(Source):
        def __init__(s):
            super().__init__()
            s.docs, s.log = {}, []

        def __call__(s, rel):
            s.log.append(rel)
            return json.loads(json.dumps(s.docs[rel]))
    m = ctx.store['src'] = Mem()
    cat = catalog(ctx)
    for b in ('https://x.test/', 'https://y.test/', 'urn:d/'):
        # the same store, addressed by full URI
        class Sub(Source):
            def __init__(s, b):
                super().__init__()
                s.b = b

            def __call__(s, rel):
                return m(s.b + rel)
        cat.add_uri_source(URI(b), Sub(b))


class Builder:
    def __init__(self, r, d):
        self.r, self.d = r, d
        self.tag = 0
        self.docs = {}
        self.ids = set()

    def schema(self, depth, inherit=None):
        r = self.r
        if depth <= 0 and r.random() < .1:
            return r.random() < .6
        self.tag += 1
        s = {'title': f't{self.tag}'}
        x = r.random()
        if x < .35:
            s['const'] = f'v{r.randrange(4)}'
        elif x < .5:
            s['enum'] = [f'v{i}' for i in sorted(r.sample(range(4), 2))] + [{'$id': 'https://x.test/decoy', '$anchor': r.choice(ANCH)}]
            self.decoy = True
        elif x < .6:
            s['type'] = r.choice(['object', 'string', 'array'])
        if r.random() < .12:
            s[r.choice(['default', 'x-unknown', 'examples'])] = [{'$anchor': r.choice(ANCH), '$ref': '#/nowhere', '$id': 'nope://x#y'}]
            self.decoy = True
        if depth > 0:
            for k in r.sample(['$defs', 'properties', 'allOf', 'anyOf', 'items', 'additionalProperties', 'not'], r.choice([1, 1, 2, 3])):
                if k in ('$defs', 'properties'):
                    s[k] = {n: self.schema(depth - 1) for n in r.sample(PROPS, r.choice([1, 2, 3]))}
                elif k in ('allOf', 'anyOf'):
                    s[k] = [self.schema(depth - 1) for _ in range(r.choice([1, 2]))]
                elif k == 'not':
                    s[k] = {'const': f'v{r.randrange(4)}', 'title': f'n{self.tag}'} if r.random() < .7 else self.schema(depth - 1)
                else:
                    s[k] = self.schema(depth - 1)
        return s

    def relative_id(self, base):
        """an $id value and the URI it must resolve to"""
        r = self.r
        for _ in range(30):
            n = len(self.ids)
            c = r.choice([f'https://y.test/e{n}', f'https://x.test/dir/e{n}', f'e{n}', f'./e{n}', f'../e{n}', f'/abs/e{n}', f'sub/e{n}', f'//y.test/n{n}', f'?q={n}', f'sub/d/../e{n}', f'urn:e:{n}',
                          f'e{n}/', f'https://x.test/e{n}?q#'])
            if c.endswith('#') and self.d == DN:
                continue
            if base.startswith('urn:') and uri_split(c)[0] is None:
                continue
            u = uri_resolve(c, base).rstrip('#')
            if u in self.ids:
                continue
            self.ids.add(u)
            return c
        return None

    def identify(self, v, base, depth, used):
        """place $id and $anchor; used: anchors of the current resource"""
        r = self.r
        if not isinstance(v, dict):
            return
        if depth and r.random() < .22:
            c = self.relative_id(base)
            if c is not None:
                v['$id'] = c
                base = uri_resolve(c, base).rstrip('#')
                used = set()
        if r.random() < .3:
            a = r.choice(ANCH)
            if a not in used:
                used.add(a)
                v['$anchor'] = a
        for k in list(v):
            x = v[k]
            if k in ('$defs', 'properties'):
                for y in x.values():
                    self.identify(y, base, depth + 1, used)
            elif k in ('allOf', 'anyOf'):
                for y in x:
                    self.identify(y, base, depth + 1, used)
            elif k in ('items', 'additionalProperties', 'not'):
                self.identify(x, base, depth + 1, used)


def shuffle_keys(r, v):
    if isinstance(v, dict):
        items = [(k, shuffle_keys(r, x)) for k, x in v.items()]
        if r.random() < .6:
            r.shuffle(items)
        return dict(items)
    if isinstance(v, list):
        return [shuffle_keys(r, x) for x in v]
    return v


def ref_forms(r, target, base):
    """ways of writing the absolute URI `target` (no fragment) relative to base"""
    out = [('absolute', target)]
    sc, a, p, q, f = uri_split(target)
    bs, ba, bp, bq, bf = uri_split(base)
    if bs == sc and a is not None:
        out.append(('network path', target.split(':', 1)[1]))
        if ba == a:
            out.append(('absolute path', p + ('?' + q if q is not None else '')))
            last = p.rsplit('/', 1)[1]
            cand = [last, './' + last, '../' + last, '../' * 2 + last] + (['../' + '/'.join(p.split('/')[-2:]), '/'.join(p.split('/')[-2:]), './' + '/'.join(p.split('/')[-2:])] if p.count('/') > 1 else [])
            for c in cand:
                out.append(('relative path', c + ('?' + q if q is not None else '')))
            if q is not None:
                out.append(('query', '?' + q))
    out = [(n, c) for n, c in out if uri_split(c)[0] == (sc if n == 'absolute' else None) and uri_resolve(c, base) == target and not c.startswith('///')]
    if target == base:
        out.append(('fragment only', ''))
    return out


def place_refs(ctx, r, B, reg, roots, log, n, preloaded):
    nodes = [x for x in reg.nodes if isinstance(x.value, dict) and '$ref' not in x.value]
    tries = 0
    while n > 0 and tries < 40 and nodes:
        tries += 1
        src = r.choice(nodes)
        tgt = r.choice(reg.nodes)
        same_doc = src.doc is tgt.doc
        # the resource must be known when the reference is resolved
        if not same_doc and tgt.root is not tgt.doc and tgt.doc not in preloaded:
            continue
        tbase = tgt.root.uri
        forms = ref_forms(r, tbase, src.base)
        if not forms:
            continue
        by = {}
        for a, b in forms:
            by.setdefault(a, []).append(b)
        form = r.choice(sorted(by))
        ref = r.choice(by[form])
        keys = tgt.keys[len(tgt.root.keys):]
        kind = 'root'
        if keys or r.random() < .2:
            anchors = [a for (b, a), x in reg.anchors.items() if b == tbase and x is tgt]
            if anchors and r.random() < .6:
                ref, kind = ref + '#' + r.choice(anchors), 'anchor'
            else:
                kind = 'pointer' if keys else 'root'
                f = frag_encode(ptr_str(keys))
                if r.random() < .2 and f:
                    f = ''.join(c if c in '/%' or f[max(0, i - 2):i].find('%') >= 0 or r.random() < .7 else f'%{ord(c):02x}' for i, c in enumerate(f))
                    ctx.event('encoded pointer')
                ref += '#' + f
        elif form == 'fragment only':
            ref = r.choice(['#', '#', ''])
        src.value['$ref'] = ref
        nodes.remove(src)
        n -= 1
        ctx.event('ref ' + form)
        ctx.event('ref ' + kind)
        if not same_doc:
            ctx.event('ref cross document')
        if tgt.root is not tgt.doc:
            ctx.event('ref embedded resource')
        a = src
        while a is not None and a is not tgt:
            a = a.parent
        if a is tgt:
            ctx.event('ref recursive')
        if len(src.value) > 3:
            ctx.event('ref with siblings')
        log.append((form, kind))
        ctx.state(form, kind, same_doc, tgt.root is tgt.doc, a is tgt, src.root is src.doc, tuple(sorted(set(src.value) & {'properties', 'allOf', 'const', 'items', '$id'})))


def navigate(js, keys):
    for k in keys:
        js = js[int(k)] if js.type == 'array' else js[k]
    return js


def build(ctx, r):
    d = r.choice(DRAFTS)
    B = Builder(r, d)
    B.decoy = False
    uris = r.sample(['https://x.test/dir/main', 'https://x.test/dir/other', 'https://x.test/top', 'https://y.test/a/b/c', 'https://x.test/dir/sub/deep', 'urn:d/one', 'https://x.test/dir/q?v=1'],
                    r.choice([1, 2, 2, 3, 4]))
    for u in uris:
        B.ids.add(u)
    docs = {}
    for u in uris:
        s = B.schema(r.choice([1, 2, 2, 3]))
        while not isinstance(s, dict):
            s = B.schema(2)
        docs[u] = s
        B.identify(s, u, 0, set())
        x = r.random()
        if x < .25:
            s['$id'] = u
        elif x < .35 and u.startswith('https') and '?' not in u:
            s['$id'] = u.rsplit('/', 1)[1]
        elif x < .4 and d != DN:
            s['$id'] = u + '#'
        if r.random() < .2:
            s['$schema'] = META[r.choice([d, d, D19, D20])] if '$id' not in s or not s['$id'].endswith('#') else META[d]
    return d, B, docs, uris


def documents(ctx, r):
    from jschon import JSONSchema, URI, JSON
    from jschon.exc import CatalogError
    d, B, docs, uris = build(ctx, r)
    reg = Registry()
    reg.default_meta = META[d]
    roots = {u: reg.add(docs[u], u, META[d]) for u in uris}
    main, rest = uris[0], uris[1:]
    preload = [u for u in rest if r.random() < .3]
    # a preloaded document must not refer to embedded resources of documents loaded later
    log = []
    place_refs(ctx, r, B, reg, roots, log, r.choice([1, 2, 3, 4, 6]), set())
    for u in uris:
        docs[u] = shuffle_keys(r, docs[u])
    if B.decoy:
        ctx.event('decoys')
    reg = Registry()
    reg.default_meta = META[d]
    roots = {u: reg.add(docs[u], u, META[d]) for u in uris}
    src = ctx.store['src']
    src.docs = docs
    del src.log[:]
    cat = catalog(ctx)
    ctx.store['last'] = docs
    how = r.choice(['direct', 'get', 'get'])
    with cat.cache() as cid:
        order = preload[:]
        r.shuffle(order)
        for u in order:
            cat.get_schema(URI(u), cacheid=cid, metaschema_uri=URI(META[d]))
            ctx.event('preloaded')
        k = len(src.log)
        if how == 'direct' and not any(main == u for u in src.log):
            js = JSONSchema(json.loads(json.dumps(docs[main])), catalog=cat, cacheid=cid, metaschema_uri=URI(META[d]), uri=URI(main))
        else:
            js = cat.get_schema(URI(main), cacheid=cid, metaschema_uri=URI(META[d]))
        check(len(src.log) == len(set(src.log)), 'a document was loaded twice', log=src.log, docs=json.dumps(docs))
        loaded = [main] + [u for u in src.log if u != main]
        for u in src.log[k:]:
            if u != main:
                ctx.event('loaded by reference')
        if len(loaded) > 1 and any('ref' in x for x in ()):
            pass
        structure(ctx, cat, cid, reg, roots, loaded, docs)
        ev = Evaluator(reg)
        cyc = set()
        for u in r.sample(loaded, min(len(loaded), 2)) if r.random() < .5 else [main]:
            node = roots[u]
            x_js = cat.get_schema(URI(u), cacheid=cid)
            nodes = [n for n in reg.nodes if n.doc is node]
            for _ in range(4):
                n = r.choice(nodes) if r.random() < .4 else node
                sjs = navigate(x_js, n.keys)
                x = instance(r, 3)
                try:
                    m = ev.evaluate(n, x)
                except (Infinite, Ambiguous):
                    continue
                ctx.store['last'] = (docs, n.curi, x)
                res = sjs.evaluate(JSON(x))
                info = dict(docs=json.dumps(docs), schema=n.curi, instance=json.dumps(x), draft=d)
                check(res.valid is m.valid, f'verdict {res.valid}, specification says {m.valid}', **info)
                ctx.event('evaluations')
                ctx.event('valid' if m.valid else 'invalid')
                want = Counter((a[4], ptr_str(a[1]), norm_loc(a[3])) for a in annotations(m) if a[0] == 'title')
                if m.valid:
                    got = Counter((v['annotation'], v['keywordLocation'], norm_loc(v['absoluteKeywordLocation'])) for v in res.output('basic', annotations=['title'])['annotations'])
                    check(got == want, 'the schemas applied differ from those the references name', missing=list((want - got).elements())[:3], extra=list((got - want).elements())[:3], **info)
                    if len({a[3].split('#')[0] for a in annotations(m) if a[3]}) > 1:
                        ctx.event('evaluation spans resources')
        if len(loaded) > 1:
            # mutual references between documents
            refs = set()

            def scan(v, base):
                if isinstance(v, dict):
                    for x in v.values():
                        scan(x, base)
                elif isinstance(v, list):
                    for x in v:
                        scan(x, base)
            for n in reg.nodes:
                if isinstance(n.value, dict) and isinstance(n.value.get('$ref'), str):
                    t = reg.find(Evaluator.absolute(n.value['$ref'], n))
                    refs.add((id(n.doc), id(t.doc)))
            if any((b, a) in refs for a, b in refs if a != b):
                ctx.event('mutual recursion')
    ctx.sample({'documents': docs, 'draft': d, 'loaded': loaded})


def instance(r, depth):
    x = r.random()
    if depth <= 0 or x < .45:
        return f'v{r.randrange(4)}'
    if x < .9:
        return {n: instance(r, depth - 1) for n in r.sample(PROPS, r.choice([0, 1, 1, 2]))}
    return [instance(r, depth - 1) for _ in range(r.choice([0, 1, 2]))]


def structure(ctx, cat, cid, reg, roots, loaded, docs):
    from jschon import JSONSchema, URI
    at = {}
    for u in loaded:
        x = cat.get_schema(URI(u), cacheid=cid)
        for n in reg.nodes:
            if n.doc is roots[u]:
                at[n] = navigate(x, n.keys)
    for n, j in at.items():
        info = dict(docs=json.dumps(docs), node=n.keys, doc=n.doc.uri)
        check(isinstance(j, JSONSchema), 'a schema location is not a JSONSchema', **info)
        check(str(j.base_uri) == n.base, f'base_uri is {j.base_uri}, must be {n.base}', **info)
        check(norm_loc(j.canonical_uri) == norm_loc(n.curi), f'canonical_uri is {j.canonical_uri}, must be {n.curi}', **info)
        check((str(j.uri) if j.uri is not None else None) == n.uri, f'uri is {j.uri}, must be {n.uri}', **info)
        check(j.parentschema is (at[n.parent] if n.parent else None), 'parentschema', **info)
        check(j.resource_rootschema is at[n.root], 'resource_rootschema', **info)
        check(j.document_rootschema is at[n.doc], 'document_rootschema', **info)
        check(str(j.path) == ptr_str(n.keys), 'path', **info)
        ctx.event('structure nodes')


BAD = ['#/nowhere', '#nowhere', 'https://z.test/none', 'missing', '../missing', '#/$defs', '#/title', '#/x-unknown/0', '#/enum/0', '#/examples/0', 'https://x.test/dir/main#nowhere', '#/properties/zz', '#/const',
       '#/default/0', 'https://x.test/decoy', '#/allOf/7', '#/allOf/-', '#/definitions/x', '?missing', '#/not/zz', '#%2', 'urn:nothing', '#/allOf/00', '#/$defs/', 'https://x.test/missing#/a']


def unresolvable(ctx, r):
    from jschon import JSONSchema, URI, JSON
    from jschon.exc import CatalogError, JSONSchemaError, JSONPointerError
    d, B, docs, uris = build(ctx, r)
    reg = Registry()
    reg.default_meta = META[d]
    roots = {u: reg.add(docs[u], u, META[d]) for u in uris}
    nodes = [n for n in reg.nodes if isinstance(n.value, dict)]
    main = uris[0]
    n = r.choice([x for x in nodes if x.doc is roots[main]])
    bad = r.choice(BAD)
    if n.base.startswith('urn:') and uri_split(bad)[0] is None and not bad.startswith('#'):
        bad = '#nowhere'
    try:
        reg.find(Evaluator.absolute(bad, n))
        return
    except Unresolvable:
        pass
    except Exception:
        return
    n.value['$ref'] = bad
    src = ctx.store['src']
    src.docs = docs
    ctx.store['last'] = (docs, bad)
    cat = catalog(ctx)
    with cat.cache() as cid:
        try:
            if r.random() < .5:
                JSONSchema(json.loads(json.dumps(docs[main])), catalog=cat, cacheid=cid, metaschema_uri=URI(META[d]), uri=URI(main))
            else:
                cat.get_schema(URI(main), cacheid=cid, metaschema_uri=URI(META[d]))
            check(False, 'an unresolvable reference is accepted at construction', ref=bad, at=n.curi, docs=json.dumps(docs))
        except (CatalogError, JSONSchemaError):
            ctx.event('unresolvable refused')
            ctx.state('unresolvable', bad)


def placed(ctx, r):
    """A schema created under a URI that has a pointer fragment (a part of a larger document)."""
    from jschon import JSONSchema, URI
    from jschon.exc import CatalogError
    from lib.genschema import Gen
    cat = catalog(ctx)
    d = r.choice(DRAFTS)
    keys = [r.choice(PROPS + ['components', 'schemas', '0', '~', '']) for _ in range(r.choice([1, 1, 2, 3]))]
    base = r.choice(['https://x.test/api', 'https://x.test/dir/api?v=1', 'urn:x:api'])
    frag = frag_encode(ptr_str(keys))
    g = Gen(r, d, annotations=.3)
    doc = g.schema(2)
    if isinstance(doc, bool):
        doc = {'not': doc}
    if '$ref' in json.dumps(doc) or '$recursiveRef' in json.dumps(doc) or '$dynamicRef' in json.dumps(doc):
        return
    inner = None
    if r.random() < .4:
        inner = {'$id': 'sub/inner', '$anchor': 'In', 'properties': {'z': {'type': 'integer'}}} if not base.startswith('urn') else {'$id': 'urn:y:inner', '$anchor': 'In', 'properties': {'z': {'type': 'integer'}}}
        doc['$defs'] = {'in/ner': inner}
    if r.random() < .4:
        doc['$anchor'] = 'Top'
    ctx.store['last'] = (doc, base, frag)
    info = dict(document=doc, uri=f'{base}#{frag}', draft=d)
    with cat.cache() as cid:
        js = JSONSchema(json.loads(json.dumps(doc)), catalog=cat, cacheid=cid, uri=URI(f'{base}#{frag}'), metaschema_uri=URI(META[d]))

        def visit(n, ks, rid):
            if isinstance(n, JSONSchema):
                if '$id' in n.keywords:
                    rid, ks = uri_resolve(n.data['$id'].data, base) if '$id' in n.data else rid, []
                want = rid + '#' + frag_encode(ptr_str((keys if rid == base else []) + ks))
                want = want.rstrip('#') if want.endswith('#') else want
                check(norm_loc(str(n.canonical_uri)) == norm_loc(want), 'canonical_uri differs from the location', got=str(n.canonical_uri), want=want, **info)
                check(str(n.base_uri) == rid, 'base_uri differs', got=str(n.base_uri), want=rid, **info)
                # look-ups below the schema itself need the enclosing document, which only its own URIs name
                if not ks:
                    check(cat.get_schema(n.canonical_uri, cacheid=cid) is n, 'the URI of the schema does not name it', got=str(n.canonical_uri), **info)
                ctx.event('placed nodes')
            if n.type == 'array':
                for i, x in enumerate(n):
                    visit(x, ks + [str(i)], rid)
            elif n.type == 'object':
                for k, x in n.items():
                    visit(x, ks + [k], rid)
        visit(js, [], base)
        if '$anchor' in doc:
            check(cat.get_schema(URI(base + '#Top'), cacheid=cid) is js, 'the anchor does not name the schema', **info)
        if inner:
            i = uri_resolve(inner['$id'], base)
            n = cat.get_schema(URI(i), cacheid=cid)
            check(n is js['$defs']['in/ner'] and cat.get_schema(URI(i + '#In'), cacheid=cid) is n and cat.get_schema(URI(i + '#/properties/z'), cacheid=cid) is n['properties']['z'],
                  'the embedded resource is not found', **info)
    ctx.state('placed', d, len(keys), base[:6], bool(inner))


def large(ctx, r):
    """many definitions, identified in every way, referring to each other; deep nesting; chains of documents"""
    from jschon import JSONSchema, URI, JSON
    d = r.choice(DRAFTS)
    kind = r.choice(['wide', 'wide', 'deep', 'chain'])
    n = {'wide': r.choice([15, 40, 110]), 'deep': r.choice([11, 14, 23, 31]), 'chain': r.choice([12, 30, 45])}[kind]
    main = 'https://x.test/dir/main'
    docs = {}
    if kind == 'wide':
        marks = [r.choice(['anchor', 'id', 'both', 'none', 'none']) for _ in range(n)]
        defs = {}

        def ref(i, frm):
            inside = marks[frm] in ('id', 'both') if frm is not None else False
            f = [f'{main}#/$defs/d{i}'] + ([f'#/$defs/d{i}'] if not inside else ['main#/$defs/d%d' % i])
            if marks[i] == 'anchor':
                f += [main + f'#A{i}'] + ([f'#A{i}'] if not inside else [])
            if marks[i] in ('id', 'both'):
                f = [f'https://x.test/dir/res{i}', f'res{i}', f'res{i}#', f'/dir/res{i}']
            if marks[i] == 'both':
                f += [f'res{i}#A{i}']
            return r.choice(f)
        for i in range(n):
            s = {'title': f't{i}'}
            if marks[i] in ('id', 'both'):
                s['$id'] = f'res{i}'
            if marks[i] in ('anchor', 'both'):
                s['$anchor'] = f'A{i}'
            if i < n - 1:
                j = r.randint(i + 1, min(n - 1, i + 9))
                s['properties'] = {'p': {'$ref': ref(j, i)}}
                if r.random() < .3:
                    s['properties']['q'] = {'$ref': ref(r.randint(i + 1, n - 1), i)}
            else:
                s['const'] = 'v0'
            defs[f'd{i}'] = s
        its = list(defs.items())
        r.shuffle(its)
        docs[main] = {'$defs': dict(its), 'properties': {f'p{i}': {'$ref': ref(i, None)} for i in r.sample(range(n), 10)}, '$ref': ref(0, None)}
        if d == D19:
            docs[main]['allOf'] = [{'$ref': docs[main].pop('$ref')}]
    elif kind == 'deep':
        s = {'title': 'end', 'const': 'v0'}
        names = []
        for i in range(n):
            w = r.choice(['properties', 'properties', 'allOf', 'not', '$defs'])
            o = {'title': f't{i}'}
            if r.random() < .25:
                o['$id'] = f'lvl{i}/'
                names.append(i)
            if r.random() < .4:
                o['$anchor'] = f'L{i}'
                o['properties'] = {'self': {'$ref': f'#L{i}'}}
            if w == 'properties':
                o.setdefault('properties', {})['p'] = s
            elif w == '$defs':
                o['$defs'] = {'x/y': s}
            else:
                o[w] = [True, s] if w == 'allOf' else s
            s = o
        s.pop('$id', None)
        s.setdefault('properties', {})['m'] = {'$ref': main}
        docs[main] = s
    else:
        for i in range(n):
            u = f'https://x.test/dir/c{i}' if i else main
            docs[u] = {'title': f't{i}', 'properties': {'p': {'$ref': f'c{i + 1}' + r.choice(['', '#', '#/$defs/x'])} if i < n - 1 else {'const': 'v0'}}, '$defs': {'x': {'title': f'x{i}', 'items': {'$ref': '#'}, 'allOf': [{'$ref': '#'}]}}}
    reg = Registry()
    reg.default_meta = META[d]
    roots = {u: reg.add(docs[u], u, META[d]) for u in docs}
    src = ctx.store['src']
    src.docs = docs
    del src.log[:]
    cat = catalog(ctx)
    ctx.store['last'] = docs
    with cat.cache() as cid:
        js = cat.get_schema(URI(main), cacheid=cid, metaschema_uri=URI(META[d]))
        check(sorted(src.log) == sorted(docs), 'documents loaded', log=src.log, docs=json.dumps(docs))
        structure(ctx, cat, cid, reg, roots, list(docs), docs)
        ev = Evaluator(reg)
        nodes = [n for n in reg.nodes if isinstance(n.value, dict)]
        for _ in range(8):
            nd = r.choice(nodes) if r.random() < .5 else roots[main]
            x = instance(r, 2)
            for _ in range(r.choice([1, 5, 12, 20])):
                x = {r.choice('pppqm'): x, **({'self': instance(r, 1)} if r.random() < .2 else {})}
            try:
                m = ev.evaluate(nd, x)
            except (Infinite, Ambiguous):
                continue
            sjs = navigate(cat.get_schema(URI(nd.doc.uri), cacheid=cid), nd.keys)
            res = sjs.evaluate(JSON(x))
            info = dict(docs=json.dumps(docs), schema=nd.curi, instance=json.dumps(x), draft=d)
            check(res.valid is m.valid, f'verdict {res.valid}, specification says {m.valid}', **info)
            if m.valid:
                want = Counter((a[4], ptr_str(a[1]), norm_loc(a[3])) for a in annotations(m) if a[0] == 'title')
                got = Counter((v['annotation'], v['keywordLocation'], norm_loc(v['absoluteKeywordLocation'])) for v in res.output('basic', annotations=['title'])['annotations'])
                check(got == want, 'the schemas applied differ from those the references name', missing=list((want - got).elements())[:3], extra=list((got - want).elements())[:3], **info)
            ctx.event('large: ' + ('valid' if m.valid else 'invalid'))
        ctx.event('large: ' + kind)
        ctx.state('large', kind, n, d)


UNITS = {'large': (large, 240, 3000), 'placed': (placed, 500, 5000), 'documents': (documents, 7000, 80000), 'unresolvable': (unresolvable, 2000, 20000)}
