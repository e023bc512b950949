"""C30: catalogs hold exactly what was put into them, independently of each other."""
import copy, json
from lib.harness import check, short
from lib.tree import plain
from lib.models import canon

RULE = ('histories over several catalogs: create_catalog with any versions in any order (also repeated, unknown), the same names re-used, sources, vocabularies, metaschemas, formats and schemas registered under the same '
        'URIs with different content in each; probes for what each dialect, catalog and name must give, including for schemas built earlier. State: (versions, what was probed, how the catalog was given)')
REQUIRED = {'by default': 2290, 'by name': 5090, 'by object': 8220, 'catalogs created': 1980, 'dialect probes': 4510, 'dialect refused': 1640, 'format probes': 1830, 'metaschema identity': 1120, 'name probes': 1990, 'name replaced': 890, 'no source': 1550, 'old schemas': 3450, 'schema missing': 2300, 'schema probes': 340, 'source probes': 1160, 'unknown name': 910, 'unknown version': 370, 'validate probes': 1120, 'vocabulary missing': 1470, 'vocabulary probes': 640}
V = ('2019-09', '2020-12', 'next')
BAD = ('2019', 'draft7', '2020-12 ', 'NEXT', '', '2019-9', 'draft/2020-12', '2020-09', '2019-12')
U = 'https://json-schema.org/draft/%s/schema'
VU = 'https://json-schema.org/draft/%s/vocab/%s'
VOCS = {'2019-09': ('core', 'applicator', 'validation', 'format', 'meta-data', 'content'),
        '2020-12': ('core', 'applicator', 'unevaluated', 'validation', 'format-annotation', 'meta-data', 'content'),
        'next': ('core', 'applicator', 'unevaluated', 'validation', 'format-annotation', 'meta-data', 'content')}
C = 'https://c30.test/'
COMMON = [
    ({'type': 'string'}, 1, False), ({'type': 'integer'}, 1.0, True), ({'minimum': 2}, 1, False), ({'multipleOf': 2}, 3, False), ({'pattern': '^a'}, 'ba', False), ({'maxLength': 1}, 'éé', False),
    ({'required': ['a']}, {}, False), ({'dependentRequired': {'a': ['b']}}, {'a': 1}, False), ({'enum': [1]}, 1.0, True), ({'const': {}}, [], False), ({'uniqueItems': True}, [1, 1], False),
    ({'maxProperties': 0}, {'a': 1}, False), ({'minItems': 1}, [], False), ({'exclusiveMaximum': 1}, 1, False), ({'contains': {'const': 1}, 'minContains': 2}, [1, 2], False),
    ({'contains': False, 'minContains': 0}, [1], True), ({'allOf': [True, False]}, 0, False), ({'anyOf': [False]}, 0, False), ({'oneOf': [True, True]}, 0, False), ({'not': {}}, 0, False),
    ({'if': {'const': 0}, 'then': False}, 0, False), ({'if': {'const': 0}, 'else': False}, 1, False), ({'dependentSchemas': {'a': False}}, {'a': 1}, False), ({'items': {'type': 'null'}}, [None, 1], False),
    ({'properties': {'a': False}}, {'a': 1}, False), ({'patternProperties': {'^a': False}}, {'ab': 1}, False), ({'properties': {'a': True}, 'additionalProperties': False}, {'b': 1}, False),
    ({'propertyNames': {'maxLength': 1}}, {'ab': 1}, False), ({'unevaluatedProperties': False, 'anyOf': [{'properties': {'a': True}}]}, {'a': 1}, True), ({'unevaluatedProperties': False}, {'a': 1}, False),
    ({'unevaluatedItems': False}, [1], False), ({'$ref': '#/$defs/f', '$defs': {'f': False}}, 0, False), ({'$defs': {'a': {'$anchor': 'q', 'const': 1}}, '$ref': '#q'}, 2, False),
    ({'$id': 'https://c30.test/own', '$defs': {'a': {'$id': 'sub', 'const': 1}}, '$ref': 'sub'}, 2, False), ({'$comment': 'x', 'title': 't', 'x-unknown': False}, 2, True),
]
OWN = {
    '2019-09': [({'items': [{'type': 'string'}]}, [1], False), ({'items': [True], 'additionalItems': False}, [1, 2], False), ({'prefixItems': [False]}, [1], True), ({'$dynamicRef': '#/$defs/f', '$defs': {'f': False}}, 1, True),
                ({'$recursiveAnchor': True, 'properties': {'a': {'$recursiveRef': '#'}}, 'type': 'object'}, {'a': 1}, False)],
    '2020-12': [({'prefixItems': [False]}, [1], False), ({'prefixItems': [True], 'items': False}, [1, 2], False), ({'additionalItems': False, 'prefixItems': [True]}, [1, 2], True), ({'$recursiveRef': '#/nowhere'}, 1, True),
                ({'$dynamicRef': '#/$defs/f', '$defs': {'f': False}}, 1, False), ({'$dynamicAnchor': 'x', 'properties': {'a': {'$dynamicRef': '#x'}}, 'type': 'object'}, {'a': 1}, False),
                ({'contains': {'const': 1}, 'unevaluatedItems': False}, [1], True)],
}
OWN['next'] = OWN['2020-12']
INVALID = [{'type': 1}, {'title': 1}, {'contentSchema': 1}, {'unevaluatedItems': 1}, {'$comment': 1}, {'minimum': 'a'}, {'required': 'a'}, {'properties': {'a': {'format': 1}}}]


class Model:
    """what one catalog was given"""

    def __init__(m, obj, name, versions, n):
        m.obj, m.name, m.versions, m.n = obj, name, set(versions), n
        m.sources, m.vocab, m.formats, m.schemas, m.old = {}, None, set(), {}, []


def setup(ctx):
    from jschon.catalog import Source
    from jschon.vocabulary import Keyword
    from jschon.vocabulary.format import format_validator
    st = ctx.store
    st['n'] = 0
    for i in range(4):
        @format_validator(f'c30-f{i}')
        def bad(v):
            raise ValueError('never')

    class Tagged(Source):
        def __init__(s, tag, draft):
            super().__init__()
            s.tag, s.draft = tag, draft

        def __call__(s, rel):
            if rel == 'meta':
                return {'$schema': U % s.draft, '$id': C + 'meta', '$vocabulary': {VU % (s.draft, v): True for v in ('core', 'validation')} | {C + 'vocab': True}}
            return {'const': s.tag}
    st['Source'] = Tagged

    def keyword(tag):
        class Tag(Keyword):
            key = 'x-tag'

            def evaluate(self, instance, result):
                if instance.value != tag:
                    result.fail(f'not {tag}')
        return Tag
    st['keyword'] = keyword


def build(ctx, r, st, cat, doc, **kw):
    """construct a schema giving the catalog in one of the possible ways"""
    from jschon import JSONSchema
    ways = ['object']
    if st['names'].get(cat.name) is cat:
        ways.append('name')
        if cat.name == 'catalog':
            ways.append('default')
    w = r.choice(ways)
    ctx.event('by ' + w)
    if w != 'default':
        kw['catalog'] = cat.obj if w == 'object' else cat.name
    d = copy.deepcopy(doc)
    js = JSONSchema.loads(json.dumps(d), **kw) if r.random() < .2 else JSONSchema(d, **kw)
    check(js.catalog is cat.obj, 'the schema belongs to another catalog', how=w, name=cat.name)
    return js, w


def dialect(ctx, r, st, cat):
    from jschon import URI, JSON, JSONSchema
    from jschon.exc import JschonError
    v = r.choice(V)
    info = dict(versions=sorted(cat.versions), version=v)
    k = dict(cacheid=f'd{r.random()}')
    if v not in cat.versions:
        ctx.event('dialect refused')
        doc = r.choice([{'$schema': U % v, 'type': 'string'}, {'$schema': U % v, '$id': C + 'x', 'title': 't'}, {'type': 'string'}])
        if '$schema' not in doc:
            k['metaschema_uri'] = URI(U % v)
        elif cat.versions and r.random() < .3:
            doc = {'$schema': U % r.choice(sorted(cat.versions)), '$defs': {'a': {'$id': C + 'y', **doc}}}
        for _ in range(r.choice([1, 2])):
            try:
                js = build(ctx, r, st, cat, doc, **k)
                check(False, 'a schema of a dialect that the catalog does not have was accepted', schema=doc, **info)
            except JschonError:
                pass
        what = r.choice(VOCS[v])
        try:
            cat.obj.get_vocabulary(URI(VU % (v, what)))
            check(False, 'the catalog has a vocabulary of a dialect that was not requested', vocabulary=VU % (v, what), **info)
        except JschonError:
            pass
        ctx.state('refused', tuple(sorted(cat.versions)), v)
        return
    for _ in range(4):
        s, x, want = r.choice(COMMON + OWN[v] * 3)
        doc = {'$schema': U % v, **s} if r.random() < .6 else s
        kk = dict(k, cacheid=f'd{r.random()}')
        if '$schema' not in doc:
            kk['metaschema_uri'] = URI(U % v)
        js, w = build(ctx, r, st, cat, doc, **kk)
        got = js.evaluate(JSON(copy.deepcopy(x))).valid
        check(got is want, f'verdict {got}, the dialect says {want}', schema=doc, instance=x, **info)
        cat.old.append((js, x, want))
        ctx.event('dialect probes')
        ctx.state('dialect', tuple(sorted(cat.versions)), v, tuple(s), w)
    # annotations that only a recognised keyword produces selectively
    js, _ = build(ctx, r, st, cat, {'$schema': U % v, 'contentMediaType': 'a/b', 'contentEncoding': 'x', 'title': 't', 'format': 'zzz'}, cacheid=f'd{r.random()}')
    for x, n in ((1, 2), ('s', 4)):
        got = len(list(js.evaluate(JSON(x)).collect_annotations()))
        check(got == n, 'annotations of the metadata, content and format vocabularies', instance=x, got=got, want=n, **info)
    bad = r.choice(INVALID)
    js, _ = build(ctx, r, st, cat, {'$schema': U % v, **bad}, cacheid=f'd{r.random()}')
    check(not js.validate().valid, 'an invalid schema validates', schema=bad, **info)
    js, _ = build(ctx, r, st, cat, {'$schema': U % v, 'title': 't', 'type': ['string'], 'properties': {'a': True}}, cacheid=f'd{r.random()}')
    check(js.validate().valid, 'a valid schema does not validate', **info)
    ctx.event('validate probes')
    m = cat.obj.get_metaschema(URI(U % v))
    check(js.metaschema is m and m.catalog is cat.obj and cat.obj.get_metaschema(URI(U % v)) is m, 'metaschema of a schema is not that of its catalog', **info)
    for o in st['cats']:
        if o is not cat and v in o.versions:
            check(o.obj.get_metaschema(URI(U % v)) is not m, 'two catalogs share a metaschema object', **info)
    ctx.event('metaschema identity')
    for what in VOCS[v]:
        check(str(cat.obj.get_vocabulary(URI(VU % (v, what))).uri) == VU % (v, what), 'vocabulary of a requested dialect', **info)


def create(ctx, r, st):
    from jschon import create_catalog, Catalog
    name = r.choice(['catalog', 'catalog', *[f'{st["id"]}-{c}' for c in 'abc']])
    vs = [r.choice(V) for _ in range(r.choice([0, 1, 1, 2, 2, 3]))]
    if r.random() < .2:
        bad = vs + [r.choice(BAD)]
        r.shuffle(bad)
        try:
            create_catalog(*bad, name=f'{st["id"]}-bad{r.random()}')
            check(False, 'an unknown version was accepted', versions=bad)
        except ValueError:
            pass
        ctx.event('unknown version')
    if not vs and r.random() < .5:
        obj = Catalog(name=name) if name != 'catalog' or r.random() < .5 else Catalog()
    else:
        obj = create_catalog(*vs, name=name) if name != 'catalog' or r.random() < .5 else create_catalog(*vs)
    check(obj.name == name and isinstance(obj, Catalog), 'name of a new catalog')
    m = Model(obj, name, vs, len(st['cats']))
    if name in st['names']:
        ctx.event('name replaced')
    st['names'][name] = m
    st['cats'].append(m)
    ctx.event('catalogs created')
    return m


def names(ctx, r, st):
    from jschon import Catalog, JSONSchema
    from jschon.exc import CatalogError
    for n, m in st['names'].items():
        got = Catalog.get_catalog(n) if n != 'catalog' or r.random() < .5 else Catalog.get_catalog()
        check(got is m.obj, 'get_catalog does not give the latest catalog of that name', name=n)
        ctx.event('name probes')
    n = r.choice([f'{st["id"]}-nope', 'Catalog', ' catalog', f'{st["id"]}-A', ''])
    for f in (lambda: Catalog.get_catalog(n), lambda: JSONSchema(True, catalog=n)):
        try:
            f()
            check(False, 'a catalog was found under a name never used', name=n)
        except CatalogError:
            pass
    ctx.event('unknown name')


def source(ctx, r, st, cat):
    from jschon import URI, JSON
    from jschon.exc import JschonError
    uri = URI(C + r.choice(['s', 't/u']))
    if cat.sources.get('tag') is None:
        try:
            cat.obj.load_json(uri)
            check(False, 'a document was loaded without a source in this catalog', versions=sorted(cat.versions))
        except JschonError:
            pass
        ctx.event('no source')
        if r.random() < .85:
            tag = f't{cat.n}'
            cat.obj.add_uri_source(URI(C), st['Source'](tag, r.choice(sorted(cat.versions) or ['2020-12'])))
            cat.sources['tag'] = tag
        return
    tag = cat.sources['tag']
    check(cat.obj.load_json(uri) == {'const': tag}, 'the document comes from the source of another catalog')
    ctx.event('source probes')
    if cat.versions:
        v = r.choice(sorted(cat.versions))
        js, w = build(ctx, r, st, cat, {'$schema': U % v, '$id': C + f'r/{r.random()}', '$ref': str(uri)}, cacheid=f's{r.random()}')
        for o in st['cats']:
            got = js.evaluate(JSON(f't{o.n}')).valid
            check(got is (o is cat), 'a reference was resolved with the source of another catalog', own=tag, other=f't{o.n}')
        cat.old.append((js, tag, True))
        ctx.state('source', w)


def vocab(ctx, r, st, cat):
    from jschon import URI, JSON
    from jschon.exc import JschonError
    if cat.vocab is None:
        try:
            cat.obj.get_vocabulary(URI(C + 'vocab'))
            check(False, 'a vocabulary of another catalog is visible')
        except JschonError:
            pass
        if cat.sources.get('tag') and cat.versions:
            try:
                build(ctx, r, st, cat, {'$schema': C + 'meta', 'x-tag': 1}, cacheid=f'v{r.random()}')
                check(False, 'a metaschema needing a vocabulary this catalog lacks was accepted')
            except JschonError:
                pass
        ctx.event('vocabulary missing')
        if r.random() < .85:
            cat.vocab = cat.obj.create_vocabulary(URI(C + 'vocab'), st['keyword'](f't{cat.n}'))
        return
    check(cat.obj.get_vocabulary(URI(C + 'vocab')) is cat.vocab, 'the vocabulary object of this catalog')
    if cat.sources.get('tag') and cat.versions:
        js, w = build(ctx, r, st, cat, {'$schema': C + 'meta', 'x-tag': 1, 'type': 'string', 'properties': False}, cacheid=f'v{r.random()}')
        for o in st['cats']:
            check(js.evaluate(JSON(f't{o.n}')).valid is (o is cat), 'the keyword class of another catalog was used')
        cat.old.append((js, f't{cat.n}', True))
        cat.old.append((js, 't-', False))
        check(js.metaschema.catalog is cat.obj and cat.obj.get_metaschema(URI(C + 'meta')) is js.metaschema, 'custom metaschema of a schema')
        ctx.event('vocabulary probes')
        ctx.state('vocabulary', w, tuple(sorted(cat.versions)))


def formats(ctx, r, st, cat):
    from jschon import JSON
    f = f'c30-f{r.randrange(4)}'
    check(cat.obj.is_format_enabled(f) is (f in cat.formats), 'is_format_enabled', format=f, enabled=sorted(cat.formats))
    if cat.versions:
        v = r.choice(sorted(cat.versions))
        js, w = build(ctx, r, st, cat, {'$schema': U % v, 'format': f}, cacheid=f'f{r.random()}')
        got = js.evaluate(JSON('x')).valid
        check(got is (f not in cat.formats), 'format assertion does not follow the formats enabled in this catalog', format=f, enabled=sorted(cat.formats), valid=got)
        cat.old.append((js, 'x', got))
        ctx.state('format', got, w)
    ctx.event('format probes')
    if r.random() < .4:
        new = r.sample([f'c30-f{i}' for i in range(4)], r.choice([0, 1, 2]))
        cat.obj.enable_formats(*new)
        cat.formats |= set(new)


def schemas(ctx, r, st, cat):
    from jschon import URI, JSON
    from jschon.exc import JschonError
    uri = 'https://c30.none/' + r.choice('xy')
    cid = r.choice(['default', 'default', 'other'])
    if (uri, cid) in cat.schemas:
        js = cat.schemas[uri, cid]
        check(cat.obj.get_schema(URI(uri), cacheid=cid) is js and cat.obj.get_schema(URI(uri + '#/$defs/a'), cacheid=cid) is js['$defs']['a'], 'a schema of this catalog is not found', uri=uri)
        ctx.event('schema probes')
        if r.random() < .2:
            cat.obj.del_schema(URI(uri), cacheid=cid)
            cat.obj.del_schema(URI(uri + '#/$defs/a'), cacheid=cid)
            del cat.schemas[uri, cid]
    else:
        try:
            cat.obj.get_schema(URI(uri), cacheid=cid)
            check(False, 'a schema that is not in this catalog (and cache) was found', uri=uri, cacheid=cid)
        except JschonError:
            pass
        ctx.event('schema missing')
        if cat.versions and r.random() < .8:
            v = r.choice(sorted(cat.versions))
            js, w = build(ctx, r, st, cat, {'$schema': U % v, '$id': uri, 'const': cat.n, '$defs': {'a': {'const': cat.n}}}, cacheid=cid)
            cat.schemas[uri, cid] = js
            cat.old.append((js, cat.n, True))
            cat.old.append((js, cat.n + 1, False))
            ctx.state('schema', w, cid)


def run(ctx, r):
    from jschon import JSON
    st = ctx.store
    st['n'] += 1
    st['id'] = f'{ctx.unit}-{r.random()}'
    st['names'], st['cats'] = {}, []
    create(ctx, r, st)
    if 'catalog' not in st['names']:
        from jschon import create_catalog
        m = Model(create_catalog('2020-12'), 'catalog', ['2020-12'], len(st['cats']))
        st['names']['catalog'] = m
        st['cats'].append(m)
    for _ in range(32):
        st['last'] = [(c.name, sorted(c.versions)) for c in st['cats']]
        cat = r.choice(st['cats'][-3:] if r.random() < .7 else st['cats'])
        op = r.choice([dialect, dialect, dialect, source, source, source, vocab, vocab, vocab, formats, formats, schemas, schemas, schemas, 'create', 'create', 'names', 'old', 'old'])
        if op == 'create':
            if len(st['cats']) < 5:
                create(ctx, r, st)
        elif op == 'names':
            names(ctx, r, st)
        elif op == 'old':
            if cat.old:
                for js, x, want in r.sample(cat.old, min(4, len(cat.old))):
                    check(js.evaluate(JSON(copy.deepcopy(x))).valid is want and js.catalog is cat.obj, 'a schema built earlier behaves otherwise now', schema=str(js), instance=x, want=want)
                    ctx.event('old schemas')
        else:
            op(ctx, r, st, cat)
    ctx.sample({'catalogs': [(c.name, sorted(c.versions), len(c.old)) for c in st['cats']]})


UNITS = {'run': (run, 600, 8000)}
