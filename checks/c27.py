"""C27: a schema object faithfully represents its source document."""
import copy, json, os, types
from collections import OrderedDict
from collections.abc import Mapping, Sequence
from checks.c04 import textgen
from checks.treemon import verify, node_at, touch
from lib import gen
from lib.genschema import Gen, add_ids, NAMES
from lib.models import canon, ident, jeq, jtype, ptr_str, ptr_eval, ptr_parse, all_paths, Fail
from lib.refeval import *
from lib.smon import DRAFTS
from lib.harness import check, short
from lib.tree import plain

RULE = ('random schema documents of 3 drafts and of a dialect with custom keywords of every subschema mixin (hostile keyword and property names, arbitrary annotation and unknown-keyword values, booleans, embedded '
        'resources and dialects), given as plain data, frozen or exotic containers, JSON text, files, sources and references; every node of the schema tree walked against the document before and after '
        'evaluation and after the source was destroyed; schemas built from equal documents evaluated side by side. State: (draft, origin, shape of the document, depth)')
REQUIRED = {'tree nodes checked': 150000, 'trees checked': 8000, 'origin data': 300, 'origin text': 300, 'origin file': 300, 'origin source': 300, 'origin reference': 300, 'origin frozen': 300, 'origin exotic': 300,
            'source untouched': 1500, 'source destroyed afterwards': 1000, 'side by side': 2000, 'not equal to a different document': 1500, 'pointer found': 5000, 'pointer missing': 1500, 'boolean nodes': 5000,
            'subschemas': 15000, 'embedded resources': 1500, 'embedded dialect': 130, 'unknown keyword': 3000, 'custom keyword': 1500, 'metaschema': 80, 'equal documents': 2000, 'written to a file': 300,
            'boolean document': 60, 'valid': 1200, 'invalid': 1500}
B = 'https://fid.test/'
ODD = ['x-a', 'x', '', '0', '-', 'a/b', 'm~n', '~0', '~1', '%', '%25', '#', '"', ' ', 'é', '\U0001F600', '\n', 'Type', 'class', 'data', 'key', 'parent', 'json', 'keywords', '__init__', 'e\u0301', '\u2028', 'ﬀ', '01', 'Items', '$Ref', '$x']
XKW = ['x-one', 'x-all', 'x-map', 'x-plain', 'x-mix', 'x-any']


def setup(ctx):
    from jschon import create_catalog, URI, LocalSource
    from jschon.catalog import Source
    from jschon.vocabulary import Keyword, Subschema, ArrayOfSubschemas, ObjectOfSubschemas
    st = ctx.store
    st['docs'], st['given'], st['n'] = {}, {}, 0
    st['dir'] = ctx.tmpdir()

    class Mem(Source):
        def __call__(s, rel):
            return st['given'][B + rel]     # the very object, watched by the caller
    cat = st['cat'] = create_catalog('2019-09', '2020-12', 'next', name='c27')
    cat.add_uri_source(URI(B), Mem())
    cat.add_uri_source(URI('https://file.test/'), LocalSource(st['dir'], suffix='.json'))
    kws = [type('K' + k[2:], (Keyword, *b), dict(key=k)) for k, b in
           {'x-one': (Subschema,), 'x-all': (ArrayOfSubschemas,), 'x-map': (ObjectOfSubschemas,), 'x-plain': (), 'x-mix': (Subschema, ArrayOfSubschemas), 'x-any': (ArrayOfSubschemas, ObjectOfSubschemas)}.items()]
    cat.create_vocabulary(URI('https://fidvoc.test/v'), *kws)
    for d in DRAFTS:
        m = {'$schema': META[d], '$id': B + 'm/' + d, '$vocabulary': {**{VOC[d] + v: True for v in VOCABS[d]}, 'https://fidvoc.test/v': True}, 'allOf': [{'$ref': META[d]}],
             **({'$recursiveAnchor': True} if d == D19 else {'$dynamicAnchor': 'meta'})}
        st['given'][B + 'm/' + d] = m
        cat.create_metaschema(URI(B + 'm/' + d))


# ----------------------------------------------------- containers that watch
class Touched(Exception):
    pass


def _no(*a, **k):
    raise Touched('the source document was modified')


class FList(list):
    append = extend = insert = pop = remove = sort = reverse = clear = __setitem__ = __delitem__ = __iadd__ = __imul__ = _no


class FDict(dict):
    __setitem__ = __delitem__ = pop = popitem = clear = update = setdefault = __ior__ = _no


class LazyMap(Mapping):
    def __init__(self, d):
        self._d = d

    def __getitem__(self, k):
        return self._d[k]

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)


class LazySeq(Sequence):
    def __init__(self, d):
        self._d = d

    def __getitem__(self, k):
        return self._d[k]

    def __len__(self):
        return len(self._d)


def wrap(r, v, kind):
    if isinstance(v, dict):
        d = {k: wrap(r, x, kind) for k, x in v.items()}
        return FDict(d) if kind == 'frozen' else r.choice([dict, OrderedDict, types.MappingProxyType, LazyMap])(d)
    if isinstance(v, list):
        a = [wrap(r, x, kind) for x in v]
        return FList(a) if kind == 'frozen' else r.choice([list, tuple, LazySeq])(a)
    return v


def destroy(r, v):
    """change every container of v"""
    if isinstance(v, dict):
        for x in list(v.values()):
            destroy(r, x)
        x = r.random()
        if x < .4:
            v.clear()
        elif x < .7:
            for k in list(v):
                v[k] = r.choice([None, True, False, 'gone', []])
        else:
            v['not'] = True
            v['type'] = 'null'
    elif isinstance(v, list):
        for x in v:
            destroy(r, x)
        if r.random() < .5:
            v.clear()
        else:
            v.insert(0, False)


def same(a, b):
    """identical plain data, order of members included"""
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return a == b and repr(a) == repr(b)


# ----------------------------------------------------------------- documents
def sprinkle(ctx, r, doc, d, g, custom):
    """hostile names and values at random subschemas (references keep working)"""
    reg = Registry()
    reg.add(doc, 'https://x.test/dir/s', META[d])
    for n in reg.nodes:
        s = n.value
        if not isinstance(s, dict):
            continue
        if r.random() < .25:
            for _ in range(r.choice([1, 1, 2, 3])):
                s[r.choice(ODD)] = r.choice([lambda: gen.value(r, 3, 3), lambda: r.choice([False, 0, '', None, [], {}]), lambda: {'$ref': '#/no/where', '$id': 'https://no.test/', 'properties': {'$id': 1}}])()
            ctx.event('unknown keyword')
        if r.random() < .2:
            k = r.choice(['const', 'default', 'enum', 'examples', '$comment', 'title', 'description', 'minimum', 'multipleOf', 'maxLength', 'dependentRequired', 'required'])
            nonneg = abs(r.choice(gen.INTS))
            s[k] = {'const': gen.value(r, 3, 3), 'default': gen.value(r, 3, 3), 'enum': [gen.value(r, 2, 3) for _ in range(r.choice([0, 1, 3]))], 'examples': [gen.value(r, 2, 3) for _ in range(r.choice([0, 1, 3]))],
                    '$comment': r.choice(gen.STRS), 'title': r.choice(gen.STRS), 'description': r.choice(gen.STRS), 'minimum': r.choice(gen.INTS + gen.FLOATS), 'multipleOf': abs(r.choice(gen.FLOATS)) or 1,
                    'maxLength': nonneg, 'dependentRequired': {gen.key(r): sorted({gen.key(r) for _ in range(2)}) for _ in range(r.choice([0, 1, 2]))},
                    'required': sorted({gen.key(r) for _ in range(r.choice([0, 1, 2]))})}[k]
        if r.random() < .15 and '$id' not in s:
            k = r.choice(['properties', '$defs', 'dependentSchemas', 'patternProperties'])
            if isinstance(s.setdefault(k, {}), dict):
                for _ in range(r.choice([1, 2])):
                    nm = gen.key(r) if k != 'patternProperties' else r.choice(['^a', '', '.', 'é', '/', '~', '%', '\\d'])
                    s[k].setdefault(nm, r.choice([True, False, {}, {'title': 'x'}, {'type': 'string'}]))
        if custom and r.random() < .35:
            k = r.choice(XKW)
            sub = lambda: r.choice([True, False, {}, {'type': 'string'}, g.schema(1), {'x-one': {'not': False}}, {'x-all': [False, {}]}])
            arr = lambda: [sub() for _ in range(r.choice([0, 1, 2]))]
            obj = lambda: {gen.key(r): sub() for _ in range(r.choice([0, 1, 2]))}
            other = lambda: r.choice([1, None, 'abc', '', 0.5])
            saved, g.refs, g.dyns, g.rec = (g.refs, g.dyns, g.rec), [], [], False
            s[k] = {'x-one': r.choice([sub, sub, other, lambda: [1, {'a': True}]]), 'x-all': r.choice([arr, arr, other, lambda: True, lambda: {'a': 1}]), 'x-map': r.choice([obj, obj, other, lambda: [1, True], lambda: False]),
                    'x-plain': lambda: gen.value(r, 3, 3), 'x-mix': r.choice([sub, arr, other]), 'x-any': r.choice([arr, obj, other, lambda: True])}[k]()
            g.refs, g.dyns, g.rec = saved
            ctx.event('custom keyword')
        if r.random() < .3:
            items = list(s.items())
            r.shuffle(items)
            s.clear()
            s.update(items)


def document(ctx, r):
    st = ctx.store
    d = r.choice(DRAFTS)
    custom = r.random() < .35
    g = Gen(r, d, unevaluated=.15, annotations=.35, unknown=.15)
    x = r.random()
    if x < .04:
        return r.random() < .5, d, g, False
    doc = g.document(r.choice([1, 1, 2, 3])) if x < .85 else g.schema(2)
    if isinstance(doc, bool):
        return doc, d, g, False
    n = 0
    if r.random() < .5:
        n = add_ids(r, doc, d, relative=False, p=.3)
        ctx.event('embedded resources', n)
    sprinkle(ctx, r, doc, d, g, custom)
    if custom:
        doc['$schema'] = B + 'm/' + d
    elif r.random() < .4:
        doc['$schema'] = META[d]
    if n and r.random() < .4:
        reg = Registry()
        reg.dialects[B + 'm/' + d] = STD[META[d]]
        reg.add(doc, 'https://x.test/dir/s', META[d])
        for nd in reg.nodes:
            if nd.parent is not None and isinstance(nd.value, dict) and '$id' in nd.value and not any(k.startswith('x-') or k in ('items', 'prefixItems', 'additionalItems') for k in flat(nd.value)):
                nd.value['$schema'] = r.choice([META[r.choice(DRAFTS)], B + 'm/' + r.choice(DRAFTS)])
                for o in reg.nodes:     # an empty fragment is not allowed in draft next
                    if isinstance(o.value, dict) and o.keys[:len(nd.keys)] == nd.keys and '$id' in o.value:
                        o.value['$id'] = o.value['$id'].rstrip('#')
                ctx.event('embedded dialect')
                break
    if r.random() < .35:
        doc['$id'] = B + r.choice(['ids/a', 'ids/a%20b', 'ids/A?q=1', 'ids/./b/../c']) + str(st['n']) + ('#' if d != DN and r.random() < .2 else '')
        items = list(doc.items())
        r.shuffle(items)
        doc = dict(items)
    return doc, d, g, custom


def flat(v):
    if isinstance(v, dict):
        for k, x in v.items():
            yield k
            yield from flat(x)
    elif isinstance(v, list):
        for x in v:
            yield from flat(x)


def finite(doc, d, inst):
    reg = Registry()
    for x in DRAFTS:
        reg.dialects[B + 'm/' + x] = STD[META[x]]
    try:
        Evaluator(reg, max_depth=60, max_steps=4000).evaluate(reg.add(doc, B + 'doc/0', META[d]), inst)
    except Infinite:
        return False
    except Ambiguous:
        pass
    return True


ORIGINS = ['data', 'text', 'file', 'source', 'reference', 'frozen', 'exotic']


def build(ctx, r, doc, d, how, cid):
    """-> (schema, the object that was handed over or None)"""
    from jschon import JSONSchema, URI
    st = ctx.store
    cat = st['cat']
    st['k'] = st.get('k', 0) + 1
    kw = dict(catalog=cat, cacheid=cid)
    if not (isinstance(doc, dict) and '$schema' in doc):
        kw['metaschema_uri'] = URI(META[d])
    u = f'{B}doc/{st["k"]}'
    if r.random() < .6 and not isinstance(doc, bool):
        kw['uri'] = URI(u)
    src = copy.deepcopy(doc)
    if how == 'data':
        return JSONSchema(src, **kw), src
    if how in ('frozen', 'exotic'):
        w = wrap(r, src, how)
        return JSONSchema(w, **kw), None
    if how == 'text':
        return JSONSchema.loads(textgen(r, src), **kw), None
    path = os.path.join(st['dir'], f'f{st["k"] % 50}.json')
    if how == 'file':
        with open(path, 'w', encoding='utf-8') as f:
            f.write(textgen(r, src))
        return JSONSchema.loadf(path, **kw), None
    if how == 'source' and r.random() < .3:
        with open(path, 'w', encoding='utf-8') as f:
            json.dump(src, f)
        return cat.get_schema(URI(f'https://file.test/f{st["k"] % 50}'), cacheid=cid, metaschema_uri=URI(META[d])), None
    if how == 'source':
        st['given'][u] = src
        return cat.get_schema(URI(u), cacheid=cid, metaschema_uri=URI(META[d])), src
    st['given'][u] = src
    if isinstance(doc, dict) and '$schema' not in doc:
        src['$schema'] = META[d]
    JSONSchema({'$schema': META[d], '$ref': u}, catalog=cat, cacheid=cid)
    return cat.get_schema(URI(u), cacheid=cid), src


def observe(js, inst):
    """what the schema does with the instance, free of the schema's own URI"""
    from jschon import JSON
    try:
        res = js.evaluate(JSON(copy.deepcopy(inst)))
        out = res.output('basic')
    except RecursionError:
        return None, 'endless'      # judged by C28
    pre = str(js.uri) if js.uri is not None else None

    def fix(u):
        u = str(u)
        if js.type == 'boolean':
            return ''
        return '@' + u[len(pre.rstrip('#')):] if pre and u.startswith(pre.rstrip('#')) else u
    units = [(u['keywordLocation'], u['instanceLocation'], fix(u['absoluteKeywordLocation']), canon(plain(u.get('annotation', u.get('error'))))) for u in out.get('annotations', out.get('errors', []))]
    return res.valid, sorted(map(repr, units))


def walk(ctx, js, doc, info):
    from jschon import JSONSchema
    verify(ctx, js, doc)
    check(js.parent is None and js.key is None and str(js.path) == '', 'the root has a parent, key or path', **info)
    for keys in all_paths(doc):
        v = ptr_eval(doc, keys)
        if isinstance(v, bool):
            ctx.event('boolean nodes')
            check(node_at(js, keys).value is v and node_at(js, keys).type == 'boolean', 'boolean not preserved', at=ptr_str(keys), **info)


def number_variant(r, v):
    if isinstance(v, bool) or not isinstance(v, (int, float, list, dict)):
        return v
    if isinstance(v, dict):
        it = [(k, number_variant(r, x)) for k, x in v.items()]
        r.shuffle(it)
        return dict(it)
    if isinstance(v, list):
        return [number_variant(r, x) for x in v]
    if abs(v) < 2 ** 53 and v == int(v) and r.random() < .6:
        return float(v) if isinstance(v, int) else int(v)
    return v


def documents(ctx, r):
    from jschon import JSON, JSONSchema, JSONPointer, URI
    from jschon.exc import JSONPointerError
    st = ctx.store
    st['n'] += 1
    st['given'] = {k: v for k, v in st['given'].items() if k.startswith(B + 'm/')}
    cat = st['cat']
    doc, d, g, custom = document(ctx, r)
    st['last'] = doc
    info = dict(document=json.dumps(doc), draft=d)
    if isinstance(doc, bool):
        ctx.event('boolean document')
    hows = r.sample(ORIGINS, 2)
    built = []
    insts = [x for x in (g.instance(doc) for _ in range(4)) if finite(doc, d, x)][:2] or [None]
    for how in hows:
        with cat.cache() as cid:
            want = copy.deepcopy(doc)
            if how == 'reference' and isinstance(want, dict) and '$schema' not in want:
                want['$schema'] = META[d]
            js, src = build(ctx, r, want, d, how, cid)
            ctx.event('origin ' + how)
            info['origin'] = how
            if src is not None:
                check(same(src, want), 'the source document was modified', source=src, **info)
                ctx.event('source untouched')
            if r.random() < .3:
                touch(r, js)
            walk(ctx, js, want, info)
            check(js == want and want == js and js == JSON(want) and JSON(want) == js and not js != want, 'the schema does not equal its document', **info)
            rp = repr(js)
            check(rp.startswith('JSONSchema(') and ident(eval(rp[11:-1], {}), want), 'repr does not show the document', got=rp, **info)
            destroyed = False
            if src is not None and r.random() < .6:
                destroy(r, src)
                destroyed = True
                ctx.event('source destroyed afterwards')
                walk(ctx, js, want, info)
            obs = []
            for x in insts:
                obs.append(observe(js, x))
                ctx.event('valid' if obs[-1][0] else 'invalid')
            if not custom and r.random() < .3:
                js.validate().output('basic')
            if destroyed or r.random() < .5:
                check(ident(js.value, want) and ident(json.loads(js.dumps()), want), 'the schema changed by evaluation', **info)
                verify(ctx, js, want)
            if src is not None and not destroyed:
                check(same(src, want), 'the source document was modified by evaluation', source=src, **info)
            # different documents are different
            t = gen.tweak(r, copy.deepcopy(want))
            check((js == t) is jeq(want, t), f'comparison with another document gives {js == t}', other=t, **info)
            if not jeq(want, t):
                ctx.event('not equal to a different document')
            # pointers
            for _ in range(6):
                keys = gen.pointer_keys(r, want)
                try:
                    ptr_eval(want, keys)
                    node = node_at(js, keys)
                except Fail:
                    node = None
                try:
                    got = JSONPointer(keys).evaluate(js)
                except JSONPointerError:
                    got = None
                check(got is node, 'JSON Pointer does not evaluate to the node', pointer=ptr_str(keys), got=got, **info)
                ctx.event('pointer found' if node is not None else 'pointer missing')
            if r.random() < .15:
                p = os.path.join(st['dir'], 'out.json')
                js.dumpf(p)
                check(ident(json.load(open(p, encoding='utf-8')), want), 'dumpf writes another document', **info)
                ctx.event('written to a file')
            built.append((how, want, js, obs))
            # a schema equal to another
            if r.random() < .5:
                other = number_variant(r, want)
                with cat.cache() as c2:
                    o = JSONSchema(copy.deepcopy(other), catalog=cat, cacheid=c2, **({} if isinstance(doc, dict) and '$schema' in want else {'metaschema_uri': URI(META[d])}))
                    check(o == js and js == o and JSON(other) == js, 'schemas of equal documents are not equal', other=other, **info)
                    walk(ctx, o, other, info)
                    for x, (v, _) in zip(insts, obs):
                        if v is None:
                            continue
                        a = o.evaluate(JSON(copy.deepcopy(x)))
                        b = js.evaluate(JSON(number_variant(r, copy.deepcopy(x))))
                        check(a.valid is v and b.valid is v, 'documents equal as JSON behave differently', other=json.dumps(other), instance=json.dumps(x), verdicts=(v, a.valid, b.valid), **info)
                        ctx.event('equal documents')
    (h1, w1, s1, o1), (h2, w2, s2, o2) = built
    if jeq(w1, w2):
        check(s1 == s2 and s2 == s1, 'two schemas of one document differ', origins=hows, **info)
    for x, a, b in zip(insts, o1, o2):
        check(a[0] is b[0], f'the origin of the document changes the verdict: {h1} {a[0]}, {h2} {b[0]}', instance=json.dumps(x), **info)
        if jeq(w1, w2):
            check(a == b, f'the origin of the document changes the output ({h1}, {h2})', instance=json.dumps(x), one=short(a, 1500), two=short(b, 1500), **info)
        ctx.event('side by side')
    ctx.state(d, custom, tuple(hows), len(json.dumps(doc)) // 40, tuple(sorted(doc))[:6] if isinstance(doc, dict) else doc)
    ctx.sample({'document': doc, 'origins': hows, 'verdicts': [o[0] for o in o1]})


def loaded(ctx, r):
    """several documents loaded through references, and metaschemas"""
    from jschon import JSONSchema, URI
    st = ctx.store
    st['n'] += 1
    st['given'] = {k: v for k, v in st['given'].items() if k.startswith(B + 'm/')}
    cat = st['cat']
    d = r.choice(DRAFTS)
    n = r.choice([2, 3, 4])
    uris = [f'{B}set{st["n"]}/{i}' for i in range(n)]
    docs, keep = {}, {}
    for i, u in enumerate(uris):
        g = Gen(r, d, unevaluated=.1, annotations=.3, unknown=.2)
        doc = g.document(r.choice([1, 2]))
        sprinkle(ctx, r, doc, d, g, False)
        if r.random() < .5:
            doc['$id'] = u
        doc['$schema'] = META[d]
        tgt = r.choice(uris)
        doc['allOf'] = doc.get('allOf', []) + [{'$ref': r.choice([tgt, tgt + '#', tgt.rsplit('/', 1)[1] if '$id' in doc else tgt, tgt + '#/$defs/d1'])}]
        docs[u] = doc
        w = wrap(r, copy.deepcopy(doc), 'frozen') if r.random() < .4 else copy.deepcopy(doc)
        st['given'][u] = keep[u] = w
    st['last'] = docs
    info = dict(documents=json.dumps(docs), draft=d)
    with cat.cache() as cid:
        first = r.choice(uris)
        if r.random() < .5:
            js = JSONSchema({'$schema': META[d], 'anyOf': [{'$ref': u} for u in uris]}, catalog=cat, cacheid=cid)
            verify(ctx, js, {'$schema': META[d], 'anyOf': [{'$ref': u} for u in uris]})
        else:
            cat.get_schema(URI(first), cacheid=cid)
        for u in r.sample(uris, n):
            s = cat.get_schema(URI(u), cacheid=cid)
            info['uri'] = u
            check(json.dumps(keep[u]) == json.dumps(docs[u]), 'the source document was modified', source=keep[u], **info)
            ctx.event('source untouched')
            walk(ctx, s, docs[u], info)
            if not isinstance(keep[u], FDict):
                destroy(r, keep[u])
                ctx.event('source destroyed afterwards')
                walk(ctx, s, docs[u], info)
            reg = Registry()
            for nd in (reg.add(docs[u], u, META[d]), *reg.nodes)[:40]:
                x = node_at(s, nd.keys)
                check(isinstance(x, JSONSchema), 'a subschema is not a JSONSchema', at=ptr_str(nd.keys), **info)
                up = nd.parent
                check((x.parentschema is None) if up is None else x.parentschema is node_at(s, up.keys), 'wrong parent schema', at=ptr_str(nd.keys), **info)
                ctx.event('subschemas')
    if r.random() < .3:
        u = f'{B}meta{st["n"]}'
        m = {'$schema': META[d], '$id': u, '$vocabulary': {VOC[d] + v: True for v in VOCABS[d]}, 'allOf': [{'$ref': META[d]}], 'x-note': gen.value(r, 3, 3), 'default': gen.value(r, 2, 3), 'properties': {gen.key(r): True, 'title': {'maxLength': 9}},
             **({'$recursiveAnchor': True} if d == D19 else {'$dynamicAnchor': 'meta'})}
        its = list(m.items())
        r.shuffle(its)
        m = dict(its)
        st['given'][u] = w = wrap(r, copy.deepcopy(m), 'frozen') if r.random() < .5 else copy.deepcopy(m)
        ms = cat.create_metaschema(URI(u))
        check(json.dumps(w) == json.dumps(m), 'the metaschema document was modified', **info)
        walk(ctx, ms, m, dict(metaschema=json.dumps(m)))
        ctx.event('metaschema')
    std = cat.get_metaschema(URI(META[d]))
    if r.random() < .05:
        walk(ctx, std, json.load(open(os.path.join(ctx.scratch, 'tree/jschon/catalog', f'json-schema-{d}', 'schema.json'))), {})
        ctx.event('metaschema')
    ctx.state('set', d, n, len(json.dumps(docs)) // 80)
    ctx.sample({'documents': docs})


UNITS = {'documents': (documents, 2000, 30000), 'loaded': (loaded, 600, 8000)}
