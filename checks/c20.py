"""C20: presentation independence, judged by metamorphic relations."""
import copy, json, os
from collections import Counter
from lib.genschema import Gen, add_ids
from lib.models import canon, jtype, ptr_eval, ptr_parse
from lib.refeval import *
from lib.smon import DRAFTS, catalog
from lib.harness import check, short
from lib.tree import plain
from checks.c19 import norm_ann
from checks import c17

RULE = ('random schema documents (references, dynamic references, unevaluated*, annotations) x instances evaluated before and after one to three meaning-preserving rewrites of schema, instance, '
        'origin and catalog content; verdict and annotations must agree. State: (rewrites, draft, keywords present, verdict)')
REWRITES = ['keyword order', 'member order', 'behind $ref', 'inlined', 'int as float', 'float as int', 'allOf[S]', 'anyOf[S]', 'oneOf[S]', 'not not S', 'permuted', 'allOf at root', 'anyOf at root', 'oneOf at root',
            'not not at root', 'from source', 'from file', 'from text', 'other schemas', 'other cache', 'other catalog', 'with uri', 'if S', 'with true/false']
REQUIRED = {f'rewrite {t}': 300 for t in REWRITES}
REQUIRED['rewrite inlined'] = 100
REQUIRED.update({'orders compared': 30000, **{f'unevaluated{k} ordered: {v}': 600 for k in ('Items', 'Properties') for v in ('valid', 'invalid')}})
REQUIRED.update({'comparisons': 20000, 'valid': 5000, 'invalid': 5000, 'annotations compared': 5000, 'with unevaluated': 3000, 'with references': 8000})


def setup(ctx):
    from jschon import create_catalog, URI, LocalSource
    from jschon.catalog import Source
    cat = catalog(ctx)
    docs = ctx.store['docs'] = {}

    class Mem(Source):
        def __call__(s, rel):
            return copy.deepcopy(docs[rel])
    cat.add_uri_source(URI('https://mem.test/'), Mem())
    ctx.store['dir'] = ctx.tmpdir()
    cat.add_uri_source(URI('https://file.test/'), LocalSource(ctx.store['dir'], suffix='.json'))
    ctx.store['other'] = create_catalog('2019-09', '2020-12', 'next', name='c20other')
    ctx.store['n'] = 0


def shuffled(r, d):
    items = list(d.items())
    r.shuffle(items)
    return dict(items)


def members(r, v):
    if isinstance(v, dict):
        return shuffled(r, {k: members(r, x) for k, x in v.items()})
    if isinstance(v, list):
        return [members(r, x) for x in v]
    return v


def numbers(v, to_float):
    if isinstance(v, dict):
        return {k: numbers(x, to_float) for k, x in v.items()}
    if isinstance(v, list):
        return [numbers(x, to_float) for x in v]
    if isinstance(v, bool):
        return v
    if to_float and isinstance(v, int) and abs(v) < 2 ** 53:
        return float(v)
    if not to_float and isinstance(v, float) and v == int(v) and abs(v) < 2 ** 53:
        return int(v)
    return v


def schema_nodes(doc, d):
    reg = Registry()
    reg.add(doc, 'https://x.test/dir/s', META[d])
    return reg.nodes


def put(doc, keys, val):
    c = doc
    for k in keys[:-1]:
        c = c[int(k)] if isinstance(c, list) else c[k]
    k = keys[-1]
    if isinstance(c, list):
        c[int(k)] = val
    else:
        c[k] = val


IDENT = ('$anchor', '$dynamicAnchor', '$id', '$recursiveAnchor')


def has_ident(v):
    if isinstance(v, dict):
        return any(k in IDENT for k in v) or any(has_ident(x) for x in v.values())
    if isinstance(v, list):
        return any(has_ident(x) for x in v)
    return False


def has_key(v, names):
    if isinstance(v, dict):
        return any(k in names for k in v) or any(has_key(x, names) for x in v.values())
    if isinstance(v, list):
        return any(has_key(x, names) for x in v)
    return False


def inner_nodes(doc, d, same_resource=True):
    """subschema nodes of the root resource, excluding the root"""
    return [n for n in schema_nodes(doc, d) if n.keys and n.root.keys == () and '$id' not in (n.value if isinstance(n.value, dict) else {})]


def pointed(doc):
    """pointer fragments used by references"""
    out = set()

    def rec(v):
        if isinstance(v, dict):
            for k, x in v.items():
                if k in ('$ref', '$dynamicRef') and isinstance(x, str):
                    out.add(x)
                rec(x)
        elif isinstance(v, list):
            for x in v:
                rec(x)
    rec(doc)
    return out


CORE = ('$id', '$schema', '$defs', '$anchor', '$dynamicAnchor', '$recursiveAnchor', '$comment', '$vocabulary')


def rewrite(ctx, r, kind, doc, insts, d):
    """-> (doc, instances, mode) or None when not applicable. mode: full, valid"""
    doc = copy.deepcopy(doc)
    if kind == 'keyword order':
        for n in schema_nodes(doc, d):
            if isinstance(n.value, dict):
                sh = shuffled(r, n.value)
                n.value.clear()
                n.value.update(sh)
                for k in ('properties', '$defs', 'patternProperties', 'dependentSchemas', 'dependentRequired'):
                    if isinstance(n.value.get(k), dict):
                        sh = shuffled(r, n.value[k])
                        n.value[k].clear()
                        n.value[k].update(sh)
        return doc, insts, 'full'
    if kind == 'member order':
        return doc, [members(r, x) for x in insts], 'full'
    if kind == 'int as float':
        w = r.random()
        return (numbers(doc, True) if w < .7 else doc), ([numbers(x, True) for x in insts] if w > .3 else insts), 'full'
    if kind == 'float as int':
        w = r.random()
        return (numbers(doc, False) if w < .7 else doc), ([numbers(x, False) for x in insts] if w > .3 else insts), 'full'
    if not isinstance(doc, dict):
        return None
    if kind == 'behind $ref':
        c = [n for n in inner_nodes(doc, d) if not has_ident(n.value)]
        if not c:
            return None
        for n in r.sample(c, min(len(c), r.choice([1, 1, 2]))):
            name = f'm{len(doc.get("$defs", {}))}{r.choice(["", "/", "~", " é"])}'
            if ptr_get(doc, n.keys) is not n.value:
                continue
            put(doc, n.keys, {'$ref': '#/$defs/' + frag_encode(name.replace('~', '~0').replace('/', '~1'))})
            doc.setdefault('$defs', {})[name] = n.value
        return doc, insts, 'full'
    if kind == 'inlined':
        c = [n for n in inner_nodes(doc, d) if isinstance(n.value, dict) and isinstance(n.value.get('$ref'), str) and n.value['$ref'].startswith('#/$defs/') and not has_key(n.value, IDENT)]
        reg = Registry()
        root = reg.add(doc, 'https://x.test/dir/s', META[d])
        r.shuffle(c)
        for n in c:
            t = reg.find(Evaluator.absolute(n.value['$ref'], reg.nodes[0]))
            if has_ident(t.value) or t.keys == n.keys[:len(t.keys)] or (t.root.keys != ()):
                continue
            rest = {k: v for k, v in n.value.items() if k != '$ref'}
            tv = copy.deepcopy(t.value)
            if not rest:
                put(doc, n.keys, tv)
            elif isinstance(tv, dict) and not set(tv) & set(rest) and not (set(tv) | set(rest)) & {'unevaluatedItems', 'unevaluatedProperties'} and 'allOf' not in rest:
                n.value.pop('$ref')
                n.value['allOf'] = [tv]
            else:
                continue
            return doc, insts, 'full'
        return None
    if kind in ('allOf[S]', 'anyOf[S]', 'oneOf[S]', 'not not S', 'if S', 'with true/false'):
        nn = kind in ('not not S', 'if S')
        if nn and has_key(doc, ('unevaluatedItems', 'unevaluatedProperties')):
            return None
        refs = pointed(doc)
        c = [n for n in inner_nodes(doc, d)]
        if not c:
            return None
        n = r.choice(c)
        put(doc, n.keys, wrap(r, kind, n.value))
        return doc, insts, 'valid' if nn else 'full'
    if kind.endswith('at root'):
        core = {k: v for k, v in doc.items() if k in CORE}
        rest = {k: v for k, v in doc.items() if k not in CORE}
        base = {'allOf at root': 'allOf[S]', 'anyOf at root': 'anyOf[S]', 'oneOf at root': 'oneOf[S]', 'not not at root': 'not not S'}[kind]
        if base == 'not not S' and '#' in pointed(doc) | ({'#'} if has_key(doc, ('$recursiveRef', '$dynamicRef')) else set()) and has_key(doc, ('unevaluatedItems', 'unevaluatedProperties')):
            return None
        doc = {**core, **wrap(r, base, rest)}
        return doc, insts, 'valid' if base == 'not not S' else 'full'
    if kind == 'permuted':
        c = [n for n in schema_nodes(doc, d) if isinstance(n.value, dict) and any(isinstance(n.value.get(k), list) and len(n.value[k]) > 1 for k in ('allOf', 'anyOf', 'oneOf'))]
        if not c:
            return None
        for n in c:
            for k in ('allOf', 'anyOf', 'oneOf'):
                if isinstance(n.value.get(k), list):
                    r.shuffle(n.value[k])
        return doc, insts, 'full'
    raise AssertionError(kind)


def wrap(r, kind, s):
    if kind == 'not not S':
        return {'not': {'not': s}}
    if kind == 'if S':
        return {'if': s, 'then': True, 'else': False}
    if kind == 'with true/false':
        k = r.choice(['allOf', 'anyOf', 'oneOf'])
        if k == 'anyOf':
            lst = [s, False]
        elif k == 'oneOf':
            lst = [s, False]
        else:
            lst = [s, True]
        r.shuffle(lst)
        return {k: lst}
    return {kind[:5]: [s]}


def ptr_get(doc, keys):
    try:
        return ptr_eval(doc, list(keys))
    except Exception:
        return None


ORIGIN = ['from source', 'from file', 'from text', 'other schemas', 'other cache', 'other catalog', 'with uri']


def noise(ctx, r, doc, d, cat, cid):
    """other schemas that define similar names"""
    from jschon import JSONSchema, URI
    ctx.store['n'] += 1
    for i in range(r.choice([1, 2])):
        s = {'$defs': {'d1': False, 'd2': {'not': True}, 'z': {'$anchor': 'Ad1', **({'$dynamicAnchor': 'Dd1'} if d != D19 else {}), 'not': True}}, 'title': 'noise'}
        if d == D19:
            s['$recursiveAnchor'] = True
        dd = d if r.random() < .7 else r.choice(DRAFTS)
        if dd != d:
            s = {'$defs': {'d1': False, 'a/b': False}, 'type': 'null'}
        JSONSchema(s, catalog=cat, cacheid=cid, uri=URI(f'https://x.test/noise{ctx.store["n"]}-{i}'), metaschema_uri=URI(META[dd]))


def build(ctx, r, kind, doc, d, cid, uri, cid2=None):
    from jschon import JSONSchema, URI
    cat = catalog(ctx)
    meta = URI(META[d])
    ctx.store['n'] += 1
    n = f'{ctx.store["n"]}'
    if kind == 'from source':
        ctx.store['docs'][n] = copy.deepcopy(doc)
        js = cat.get_schema(URI('https://mem.test/' + n), cacheid=cid, metaschema_uri=meta)
        del ctx.store['docs'][n]
        return js
    if kind == 'from file':
        path = os.path.join(ctx.store['dir'], n + '.json')
        with open(path, 'w', encoding='utf-8') as f:
            json.dump(doc, f, ensure_ascii=r.random() < .5)
        js = cat.get_schema(URI('https://file.test/' + n), cacheid=cid, metaschema_uri=meta)
        os.unlink(path)
        return js
    kw = dict(catalog=cat, cacheid=cid, metaschema_uri=meta)
    if kind == 'with uri' or uri:
        kw['uri'] = URI(f'https://x.test/u{n}')
    if kind == 'other schemas':
        noise(ctx, r, doc, d, cat, cid)
        if r.random() < .5:
            JSONSchema(copy.deepcopy(doc), **{**kw, 'uri': URI(f'https://x.test/copy{n}')})
    elif kind == 'other cache':
        noise(ctx, r, doc, d, cat, cid2)
        if 'uri' in kw:
            JSONSchema({'not': True, '$defs': {'d1': False}}, **{**kw, 'cacheid': cid2})
    elif kind == 'other catalog':
        kw['catalog'] = ctx.store['other']
        noise(ctx, r, doc, d, cat, cid)
    if kind == 'from text':
        return JSONSchema.loads(json.dumps(doc), **kw)
    return JSONSchema(copy.deepcopy(doc), **kw)


def observe(js, x, d, via_text):
    from jschon import JSON
    res = js.evaluate(JSON.loads(json.dumps(x)) if via_text else JSON(copy.deepcopy(x)))
    if not res.valid:
        return False, None
    anns = []
    kw = STD[META[d]].kw
    for a in res.output('basic')['annotations']:
        key = a['keywordLocation'].rsplit('/', 1)[1].replace('~1', '/').replace('~0', '~')
        inst = ptr_eval(x, ptr_parse(a['instanceLocation'])) if not via_pn(a['keywordLocation']) else None
        na = norm_ann(key, plain(a['annotation']), inst, d, key in kw) if inst is not None or key not in ('items', 'prefixItems', 'additionalItems', 'unevaluatedItems', 'contains') else None
        if na is not None:
            anns.append((key, a['instanceLocation'], na))
    return True, Counter(anns)


def via_pn(loc):
    return '/propertyNames' in loc


def pairs(ctx, r):
    d = r.choice(DRAFTS)
    g = Gen(r, d, unevaluated=.3, annotations=.35, unknown=.1)
    doc = g.document(r.choice([1, 2, 2, 3])) if r.random() < .7 else g.schema(r.choice([1, 2, 3]))
    insts = [g.instance(doc) for _ in range(4)]
    kinds = r.sample(REWRITES, r.choice([1, 1, 2, 3]))
    new, ninsts, mode = doc, insts, 'full'
    done = []
    origin = None
    for k in kinds:
        if k in ORIGIN:
            origin = origin or k
            done.append(k) if origin == k else None
            continue
        t = rewrite(ctx, r, k, new, ninsts, d)
        if t is None:
            continue
        if (t[2] == 'valid' or mode == 'valid') and has_key(doc, ('unevaluatedItems', 'unevaluatedProperties')) and len(done) > 0:
            # later rewrites may put a subschema under unevaluated*; keep it simple
            continue
        new, ninsts, m2 = t
        mode = m2 if m2 == 'valid' else mode
        done.append(k)
    if not done:
        return
    ctx.store['last'] = (doc, new, insts, done)
    # the reference evaluator only screens out infinitely recursive cases
    reg = Registry()
    reg.default_meta = META[d]
    node = reg.add(copy.deepcopy(doc), 'https://x.test/dir/s', META[d])
    ev = Evaluator(reg, max_depth=60)
    cat = catalog(ctx)
    with cat.cache() as cid, cat.cache() as cid2, ctx.store['other'].cache(cid):
        a = build(ctx, r, None, doc, d, cid, False)
        b = build(ctx, r, origin, new, d, cid, r.random() < .3, cid2)
        for x, y in zip(insts, ninsts):
            try:
                ev.evaluate(node, x)
            except (Ambiguous, Infinite):
                continue
            if r.random() < .3:
                observe(b, y, d, False)
            va, aa = observe(a, x, d, r.random() < .2)
            vb, ab = observe(b, y, d, r.random() < .2)
            info = dict(rewrites=str(done), draft=d, schema=json.dumps(doc), rewritten=json.dumps(new), instance=json.dumps(x), instance_rewritten=json.dumps(y))
            check(va is vb, f'verdict {va} before and {vb} after the rewrite', **info)
            ctx.event('comparisons')
            ctx.event('valid' if va else 'invalid')
            for k in done:
                ctx.event('rewrite ' + k)
            if va and mode == 'full':
                check(aa == ab, 'annotations differ after the rewrite', lost=list((aa - ab).elements())[:4], gained=list((ab - aa).elements())[:4], **info)
                ctx.event('annotations compared', sum(aa.values()))
            if has_key(doc, ('unevaluatedItems', 'unevaluatedProperties')):
                ctx.event('with unevaluated')
            if has_key(doc, ('$ref', '$dynamicRef', '$recursiveRef')):
                ctx.event('with references')
            ctx.state(tuple(sorted(done)), d, va, tuple(sorted(doc))[:4] if isinstance(doc, dict) else doc)
    ctx.sample({'rewrites': done, 'schema': doc, 'rewritten': new})


def family(r, d, kind, names):
    """one schema object with many keywords that depend on each other"""
    un = 'unevaluatedProperties' if kind == 'object' else 'unevaluatedItems'
    leaf = lambda: r.choice([True, True, False, {'type': 'integer'}, {'type': 'string'}, {'const': 1}, {'title': 't'}])
    s = {}
    for _ in range(r.choice([1, 2, 2, 3])):
        t = c17.tree(r, d, kind, r.choice([0, 0, 1, 1, 2]), names)
        if isinstance(t, dict):
            for k, v in t.items():
                s.setdefault(k, v)
    if r.random() < .5:
        for k in r.sample(['if', 'then', 'else', 'allOf', 'anyOf', 'dependentSchemas', '$ref'], r.choice([1, 2, 3])):
            t = c17.tree(r, d, kind, r.choice([0, 0, 1]), names)
            if k == '$ref':
                s['$defs'], s['$ref'] = {'t': t}, '#/$defs/t'
            elif k == 'dependentSchemas':
                if kind == 'object':
                    s.setdefault(k, {})[r.choice(names)] = t
            else:
                s.setdefault(k, [t] if k.endswith('Of') else t)
    if kind == 'array' and r.random() < .5:
        s['contains'] = r.choice([{'type': 'integer'}, {'const': 1}, {'type': 'string'}])
        for k in ('minContains', 'maxContains'):
            if r.random() < .6:
                s[k] = r.choice([0, 1, 2, 3])
    if r.random() < .3:
        s['contentMediaType'], s['contentSchema'], s['contentEncoding'] = 'application/json', {'type': 'null'}, 'base64'
    if r.random() < .75:
        s[un] = r.choice([False, False, False, {'type': 'integer'}, {'const': 1}, True])
    return s


def orders(ctx, r):
    """the same keywords written in different orders, pair by pair"""
    from jschon import JSONSchema, URI
    d = r.choice(DRAFTS)
    kind = r.choice(['object', 'array'])
    names = ['a', 'b', 'c', 'ab']
    s = family(r, d, kind, names)
    outer = None
    if d == D19 and r.random() < .4:
        # the object under test refers to its document, which evaluates parts of the instance
        t = c17.tree(r, d, kind, r.choice([0, 0, 1, 1]), names)
        outer = {k: v for k, v in (t.items() if isinstance(t, dict) else ()) if not k.startswith(('unevaluated', 'additional'))}
        s['$recursiveRef'] = '#'
    elif d != D19 and r.random() < .3:
        t = c17.tree(r, d, kind, r.choice([0, 0, 1, 1]), names)
        if isinstance(t, dict):
            s.setdefault('$defs', {})['dyn'] = {'$dynamicAnchor': 'dyn', **t}
            s['$dynamicRef'] = '#dyn'

    def doc(f):
        o = {k: copy.deepcopy(s[k]) for k in f}
        if outer is None:
            return o
        defs = {'$defs': o.pop('$defs')} if '$defs' in o else {}
        return {**copy.deepcopy(outer), **defs, 'properties': {**copy.deepcopy(outer.get('properties', {})), 'wrap': o}}
    ks = list(s)
    if len(ks) < 2:
        return
    forms = [ks, ks[::-1], sorted(ks, key=lambda k: (not k.startswith('unevaluated'), r.random())), sorted(ks, key=lambda k: (k.startswith('unevaluated'), r.random()))]
    forms.append(r.sample(ks, len(ks)))
    insts = []
    for _ in range(6):
        vals = [1, 1, 2, 'x', None] if r.random() < .8 else r.choice([[True, False], [None], [{}, {'a': 1}], [[], [1]], ['x', ''], [1.5, 0]])
        if kind == 'object':
            insts.append({n: r.choice(vals) for n in r.sample(names + ['d', ''], r.choice([0, 1, 2, 2, 3, 4]))})
        else:
            insts.append([r.choice(vals) for _ in range(r.choice([0, 1, 2, 2, 3, 4, 5, 6]))])
    if outer is not None:
        insts = [{'wrap': x} for x in insts]
    ctx.store['last'] = s
    with catalog(ctx).cache() as cid:
        built = [JSONSchema(doc(f), catalog=catalog(ctx), cacheid=cid, metaschema_uri=URI(META[d])) for f in forms]
        for x in insts:
            va, aa = observe(built[0], x, d, False)
            for f, b in zip(forms[1:], built[1:]):
                vb, ab = observe(b, x, d, False)
                info = dict(draft=d, schema=json.dumps(doc(ks)), order=f, first=ks, instance=json.dumps(x))
                check(va is vb, f'verdict {va} in one order of the keywords and {vb} in another', **info)
                check(aa == ab, 'annotations differ with the order of the keywords', **info)
                ctx.event('orders compared')
            for k in ks:
                if k.startswith('unevaluated'):
                    ctx.event(f"{k} ordered: {'valid' if va else 'invalid'}")
            ctx.state('orders', d, tuple(sorted(ks)), va)


UNITS = {'pairs': (pairs, 10000, 150000), 'orders': (orders, 4000, 80000)}
