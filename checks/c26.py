"""C26: validate() against the metaschema."""
import copy, json, os, re
from lib.genschema import Gen
from lib.models import canon, ptr_str, frag_encode
from lib.refeval import *
from lib.smon import DRAFTS, norm_loc
from lib.harness import check, short
from checks.c23 import failing_now

RULE = ('schema documents of 3 drafts, well-formed or with keywords misused at any depth, under the standard metaschemas and under random custom ones (extending with or without dynamic anchor, chained, '
        'vocabulary subsets, strict); validate() of the document and of its subschemas judged by the reference evaluator run over the same metaschema documents (itself cross-checked with a hand-written '
        'well-formedness predicate), error locations included; create_metaschema judged alike. State: (draft, metaschema kind, misused keyword, depth, verdict)')
REQUIRED = {'valid': 1500, 'invalid': 1500, 'misuse detected': 600, 'custom: valid': 250, 'custom: invalid': 350, 'custom constraint broken in a nested schema': 100, 'subschema validated': 1000, 'mandatory errors': 2000,
            'boolean schema': 15, 'after evaluation': 150, 'repeated': 350, 'impostor metaschema in the cache': 150, 'metaschema accepted': 350, 'metaschema refused': 250, 'self-describing metaschema': 120,
            'embedded resource with its own metaschema': 300, 'embedded verdict differs from the document metaschema': 30, 'hand predicate': 700, 'misuse outside the vocabulary subset': 10, 'strict: unknown keyword': 15}
B = 'https://mv.test/'
BAD = {
    'type': ['strng', 1, [], ['string', 'string'], ['foo'], None, {}, True], 'enum': [1, {}, 'a', None], 'multipleOf': [0, -1, '1', None, -0.5], 'maximum': ['1', None, [], True], 'minimum': ['1', {}, False],
    'exclusiveMaximum': [True, '0'], 'exclusiveMinimum': [True, None], 'maxLength': [-1, 1.5, '1', None, True], 'minLength': [-1, 0.5, [], False], 'pattern': [1, None, ['a']], 'maxItems': [-1, 0.1, '2'],
    'minItems': [-2, None], 'uniqueItems': [1, 'true', None, 0], 'maxContains': [-1, 'x'], 'minContains': [-1, 1.5], 'maxProperties': [-1, {}], 'minProperties': [-1, '0'], 'required': ['a', ['a', 'a'], [1], {}, None, [['a']]],
    'dependentRequired': [[], {'a': 'b'}, {'a': ['b', 'b']}, {'a': [1]}, 1, {'a': {}}], 'properties': [[], 1, 'x', None], 'patternProperties': [[], 0, 'x'], 'dependentSchemas': [[], 'a', 3], 'allOf': [[], {}, 'x', 1, None],
    'anyOf': [[], {}, 0], 'oneOf': [[], {'a': True}, 1.5], 'not': [1, [], 'x', None], 'if': [1, []], 'then': ['x', 0], 'else': [None, []], 'contains': [1, []], 'additionalProperties': [1, 'x', []],
    'propertyNames': [1, []], 'unevaluatedItems': [0, 'x'], 'unevaluatedProperties': [1, []], 'items': [1, 'x', None], 'prefixItems': [[], {}, 1], 'additionalItems': [1, 'x'], 'title': [1, None, ['t'], {}],
    'description': [1, False], 'deprecated': ['x', 0, None], 'readOnly': [1, 'false'], 'writeOnly': [0, []], 'examples': [{}, 'x', 1], 'format': [1, None, []], 'contentMediaType': [1, {}],
    'contentEncoding': [None, 7], 'contentSchema': [1, [], 'x'], '$comment': [1, None, []], '$anchor': ['1a', 'a b', '', 'a/b'], '$defs': [[], 1, 'x'], 'definitions': [[], 1, {'a': 1}, {'a': {'type': 7}}],
    'dependencies': [[], {'a': 1}, {'a': ['b', 'b']}], '$vocabulary': [[], {'urn:x': 1}, 'x'], '$recursiveAnchor': [1, 'x y', None],
}


def setup(ctx):
    from jschon import create_catalog, URI
    from jschon.catalog import Source
    st = ctx.store
    st['docs'] = {}
    st['n'] = 0

    class Mem(Source):
        def __call__(s, rel):
            return copy.deepcopy(st['docs'][B + rel])
    cat = st['cat'] = create_catalog('2019-09', '2020-12', 'next', name='c26')
    cat.add_uri_source(URI(B), Mem())
    reg = st['reg'] = Registry(loader=lambda u: load(ctx, u))
    for d in DRAFTS:
        reg.find(META[d])


def load(ctx, u):
    for d in DRAFTS:
        base = f'https://json-schema.org/draft/{d}/'
        if u.startswith(base):
            return json.load(open(os.path.join(ctx.scratch, 'tree/jschon/catalog', f'json-schema-{d}', u[len(base):] + '.json')))
    return copy.deepcopy(ctx.store['docs'].get(u))


# ------------------------------------------------ well-formedness by hand
def nat(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool) and v >= 0 and v == int(v)


def isnum(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def strs(v):
    return isinstance(v, list) and all(isinstance(x, str) for x in v) and len(set(v)) == len(v)


T = {'null', 'boolean', 'integer', 'number', 'string', 'array', 'object'}


def anchor_ok(v, d):
    return isinstance(v, str) and re.search('^[A-Za-z_][-A-Za-z0-9._]*$' if d != D19 else '^[A-Za-z][-A-Za-z0-9.:_]*$', v) is not None


def wf(s, d):
    if isinstance(s, bool):
        return True
    if not isinstance(s, dict):
        return False
    arr = lambda v: isinstance(v, list) and len(v) > 0 and all(wf(x, d) for x in v)
    obj = lambda v: isinstance(v, dict) and all(wf(x, d) for x in v.values())
    one = lambda v: wf(v, d)
    st = lambda v: isinstance(v, str)
    bo = lambda v: isinstance(v, bool)
    rules = {k: nat for k in ('maxLength', 'minLength', 'maxItems', 'minItems', 'maxContains', 'minContains', 'maxProperties', 'minProperties')}
    rules.update({k: isnum for k in ('maximum', 'minimum', 'exclusiveMaximum', 'exclusiveMinimum')})
    rules.update({k: st for k in ('pattern', 'title', 'description', 'format', 'contentMediaType', 'contentEncoding', '$comment', '$id', '$schema', '$ref')})
    rules.update({k: bo for k in ('uniqueItems', 'deprecated', 'readOnly', 'writeOnly')})
    rules.update({k: arr for k in ('allOf', 'anyOf', 'oneOf')})
    rules.update({k: obj for k in ('properties', 'patternProperties', 'dependentSchemas', '$defs', 'definitions')})
    rules.update({k: one for k in ('not', 'if', 'then', 'else', 'contains', 'additionalProperties', 'propertyNames', 'unevaluatedItems', 'unevaluatedProperties', 'contentSchema')})
    rules['type'] = lambda v: v in T if isinstance(v, str) else strs(v) and len(v) > 0 and set(v) <= T
    rules['enum'] = lambda v: isinstance(v, list)
    rules['examples'] = rules['enum']
    rules['multipleOf'] = lambda v: isnum(v) and v > 0
    rules['required'] = strs
    rules['dependentRequired'] = lambda v: isinstance(v, dict) and all(strs(x) for x in v.values())
    rules['dependencies'] = lambda v: isinstance(v, dict) and all(wf(x, d) or strs(x) for x in v.values())
    rules['$anchor'] = lambda v: anchor_ok(v, d)
    rules['$vocabulary'] = lambda v: isinstance(v, dict) and all(isinstance(x, bool) for x in v.values())
    if d == D19:
        rules['items'] = lambda v: wf(v, d) or arr(v)
        rules['additionalItems'] = one
        rules['$recursiveRef'] = st
        rules['$recursiveAnchor'] = bo
    else:
        rules['items'] = one
        rules['prefixItems'] = arr
        rules['$dynamicRef'] = st
        rules['$dynamicAnchor'] = lambda v: anchor_ok(v, d)
        rules['$recursiveRef'] = st
        rules['$recursiveAnchor'] = lambda v: anchor_ok(v, d)
    return all(rules[k](v) for k, v in s.items() if k in rules)


def places(s, d, keys=(), out=None):
    """(keys, schema object) of every subschema the metaschema would look into"""
    out = [] if out is None else out
    if not isinstance(s, dict):
        return out
    out.append((keys, s))
    kw = STD[META[d]].kw
    for k, v in s.items():
        if k not in kw:
            continue
        if k in SINGLES and isinstance(v, dict):
            places(v, d, keys + (k,), out)
        elif isinstance(v, list) and (k in ARRAYS or k == 'items'):
            for i, x in enumerate(v):
                places(x, d, keys + (k, str(i)), out)
        elif k in OBJECTS and isinstance(v, dict):
            for n, x in v.items():
                places(x, d, keys + (k, n), out)
    return out


def misuse(ctx, r, doc, d):
    """-> pointer keys of the misused keyword, or None"""
    at, s = r.choice(places(doc, d)[:40] if r.random() < .5 else places(doc, d)[-6:])
    k = r.choice(sorted(BAD))
    if k in s and k in ('$defs', '$anchor', 'properties', 'items') and r.random() < .5:
        return None
    v = copy.deepcopy(r.choice(BAD[k]))
    its = [(a, b) for a, b in s.items() if a != k]
    its.insert(r.randint(0, len(its)), (k, v))
    s.clear()
    s.update(its)
    return at + (k,)


def has_nonfinite(v):
    return False


def judge(ctx, r, js, doc, m, info, kind, d, where=()):
    """compare jschon's validate() with the reference evaluation m"""
    res = js.validate()
    check(res.valid is m.valid, f'validate() says {res.valid}, the metaschema says {m.valid}', at=ptr_str(where), **info)
    ctx.event('valid' if m.valid else 'invalid')
    pre = ptr_str(where)
    if m.valid:
        check(res.output('flag') == {'valid': True} and not list(res.collect_errors()), 'a valid schema reports errors', **info)
        return res, set()
    units = {}
    for u in res.output('basic')['errors']:
        il = u['instanceLocation']
        check(il.startswith(pre), 'an error outside the validated subschema', unit=u, at=pre, **info)
        units[u['keywordLocation'], il[len(pre):]] = norm_loc(u['absoluteKeywordLocation'])
    bad = failing_now(m)
    for u in units:
        check(u == ('', '') or u in bad, 'an error is reported where the metaschema has none', unit=u, at=pre, **info)
    for kw, path, ip, loc in must_errors(m):
        ctx.event('mandatory errors')
        key = ptr_str(path), ptr_str(ip)
        check(key in units, 'a failure is not located in the schema document', keyword=kw, path=key[0], instance_location=pre + key[1], **info)
        check(units[key] == norm_loc(loc), 'an error names another metaschema location', path=key[0], got=units[key], want=norm_loc(loc), **info)
    return res, {il for _, il in units}


def model(ctx, meta, value):
    """evaluate the metaschema document over a schema document"""
    reg = ctx.store['reg']
    ev = Evaluator(reg, max_depth=300)
    return ev.evaluate(reg.find(meta), value)


CONSTRAINTS = [
    {'properties': {'title': {'maxLength': 2}}}, {'maxProperties': 5}, {'propertyNames': {'pattern': '^[^x]'}}, {'properties': {'x-own': {'type': 'integer'}}},
    {'properties': {'properties': {'propertyNames': {'maxLength': 1}}}}, {'not': {'required': ['enum', 'const']}}, {'dependentRequired': {'if': ['then']}},
    {'if': {'required': ['minimum']}, 'then': {'required': ['type']}}, {'properties': {'required': {'minItems': 1}}}, {'properties': {'type': {'type': 'string'}}}, {'properties': {'allOf': {'maxItems': 1}}},
    {'properties': {'additionalProperties': {'const': False}}}, {'type': 'object'}, {'properties': {'$comment': False}}, {'patternProperties': {'^min': {'maximum': 1}}}, {'properties': {'items': {'type': ['object', 'array']}}},
]


def custom(ctx, r, d, i, prior):
    """a random custom metaschema document and its kind"""
    st = ctx.store
    uri = B + f'{st["n"]}/m{i}'
    kind = r.choice(['extend', 'extend', 'extend', 'plain', 'subset', 'chain', 'strict', 'subkw'])
    if kind == 'chain' and not prior:
        kind = 'extend'
    base = f'https://json-schema.org/draft/{d}/'
    m = {'$id': uri, '$schema': META[d]}
    m['$vocabulary'] = {VOC[d] + v: True for v in VOCABS[d]}
    anchor = {'$recursiveAnchor': True} if d == D19 else {'$dynamicAnchor': 'meta'}
    if kind in ('extend', 'plain', 'strict', 'subkw'):
        m['allOf'] = [{'$ref': META[d]}]
    elif kind == 'subset':
        m['allOf'] = [{'$ref': base + 'meta/' + v} for v in VOCABS[d] if v in ('core', 'applicator') or r.random() < .5]
    else:
        m['allOf'] = [{'$ref': r.choice(prior)[0]}]
    if kind != 'plain':
        m.update(anchor)
    rec = {'$recursiveRef': '#'} if d == D19 else {'$dynamicRef': '#meta'}
    if kind == 'strict':
        m['unevaluatedProperties'] = False
    elif kind == 'subkw':
        m['properties'] = {'x-own': dict(rec), 'x-foo': r.choice([{'type': 'object', 'additionalProperties': dict(rec)}, {'anyOf': [dict(rec), {'type': 'array', 'items': dict(rec)}]}])}
    else:
        for c in r.sample(CONSTRAINTS, r.choice([1, 1, 2, 3])):
            for k, v in copy.deepcopy(c).items():
                m.setdefault(k, v)
    if r.random() < .3:
        vu = uri + '-voc'
        v = {'$id': vu, '$schema': META[d], **anchor, 'properties': {'x-own': r.choice([{'type': 'string'}, dict(rec), {'enum': [1, 'a', True]}])}}
        st['docs'][vu] = v
        m['allOf'].append({'$ref': vu})
    its = list(m.items())
    r.shuffle(its)
    return uri, dict(its), kind


def schemas(ctx, r):
    from jschon import JSON, JSONSchema, URI
    st = ctx.store
    st['n'] += 1
    cat = st['cat']
    d = r.choice(DRAFTS)
    metas = []
    if r.random() < .5:
        for i in range(r.choice([1, 1, 2, 3])):
            u, m, kind = custom(ctx, r, d, i, metas)
            st['docs'][u] = m
            if r.random() < .4:
                cat.create_metaschema(URI(u))
            metas.append((u, kind))
    meta, kind = metas[-1] if metas else (META[d], 'standard')
    g = Gen(r, d, unevaluated=.15, annotations=.25, unknown=.15)
    doc = g.document(r.choice([1, 1, 1, 2, 2, 3] if not metas else [0, 1, 1, 1, 2])) if r.random() < .95 else g.schema(2)
    if isinstance(doc, dict):
        for _, s in places(doc, d):
            if r.random() < .05:
                s[r.choice(['x-own', 'x-foo', 'title', 'minimum', '$comment'])] = r.choice([1, 'a', 'abcd', True, {'type': 'string'}, {'type': 'zz'}, [True], [{'minLength': -1}]])
                # fixed below by the oracle: these are misuses as well
    bad = None
    if isinstance(doc, dict) and r.random() < (.5 if metas else .6):
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            bad = misuse(ctx, r, doc, d) or bad
    st['last'] = doc
    info = dict(document=json.dumps(doc), metaschema=meta, metaschemas=json.dumps({u: st['docs'][u] for u, _ in metas}), draft=d)
    with cat.cache() as cid:
        if r.random() < .1:
            imp = r.choice([META[d], f'https://json-schema.org/draft/{d}/meta/validation', meta])
            JSONSchema({'$id': imp, 'not': True, **({'$recursiveAnchor': True} if d == D19 else {'$dynamicAnchor': 'meta'})}, catalog=cat, cacheid=cid, metaschema_uri=URI(META[d]))
            ctx.event('impostor metaschema in the cache')
        try:
            js = JSONSchema(copy.deepcopy(doc), catalog=cat, cacheid=cid, uri=URI(B + f'{st["n"]}/doc'), metaschema_uri=URI(meta))
        except Exception:
            if wf(doc, d):
                raise
            ctx.event('not constructible')
            return
        if isinstance(doc, bool):
            ctx.event('boolean schema')
        m = model(ctx, meta, doc)
        if kind == 'standard':
            w = wf(doc, d)
            if w is not m.valid:
                raise AssertionError(f'oracles disagree: hand {w}, reference evaluator {m.valid}: {json.dumps(doc)}')
            ctx.event('hand predicate')
        else:
            ctx.event('custom: valid' if m.valid else 'custom: invalid')
            if not m.valid and wf(doc, d):
                for _, path, ip, loc in must_errors(m):
                    if ip and loc.startswith(B):
                        ctx.event('custom constraint broken in a nested schema')
                        break
                if kind == 'strict':
                    ctx.event('strict: unknown keyword')
            if m.valid and not wf(doc, d):
                ctx.event('misuse outside the vocabulary subset')
        if r.random() < .25 and m.valid:
            try:
                js.evaluate(JSON(g.instance(doc)))
            except Exception:
                pass        # judged by C28
            ctx.event('after evaluation')
        res, locs = judge(ctx, r, js, doc, m, info, kind, d)
        if bad is not None and kind in ('standard', 'extend', 'plain', 'subkw', 'strict') and not m.valid:
            p = ptr_str(bad)
            if not wf_at(doc, bad, d):
                check(any(x == p or x.startswith(p + '/') for x in locs), 'the misused keyword is not located', misused=p, locations=sorted(locs)[:8], **info)
                ctx.event('misuse detected')
        if r.random() < .25:
            again = js.validate()
            check(again.valid is res.valid and canon(again.output('basic')) == canon(res.output('basic')), 'a second validate() differs', **info)
            ctx.event('repeated')
        sub = [(k, s) for k, s in places(doc, d) if k]
        for k, s in r.sample(sub, min(len(sub), 2)):
            n = js
            ok = True
            for t in k:
                n = n[int(t)] if n.type == 'array' else n[t]
            if not isinstance(n, JSONSchema):
                continue
            judge(ctx, r, n, s, model(ctx, meta, s), info, kind, d, k)
            ctx.event('subschema validated')
    ctx.state(d, kind, bad[-1] if bad else None, min(len(bad), 6) if bad else 0, m.valid)
    ctx.sample({'document': doc, 'metaschema': st['docs'].get(meta, meta), 'misused': ptr_str(bad) if bad else None, 'valid': m.valid})


def wf_at(doc, keys, d):
    """is the keyword at keys still well-formed (a later misuse may have replaced it)?"""
    v = doc
    try:
        for t in keys[:-1]:
            v = v[int(t)] if isinstance(v, list) else v[t]
        # reached through known schema positions only
        if not any(k == keys[:-1] for k, _ in places(doc, d)):
            return True
        return wf({keys[-1]: v[keys[-1]]}, d)
    except (KeyError, IndexError, TypeError, ValueError):
        return True


def metaschemas(ctx, r):
    from jschon import JSONSchema, URI
    from jschon.exc import CatalogError
    from jschon.vocabulary import Metaschema
    st = ctx.store
    st['n'] += 1
    cat = st['cat']
    d = r.choice(DRAFTS)
    prior = []
    if r.random() < .5:
        u, m, kind = custom(ctx, r, d, 'p', [])
        st['docs'][u] = m
        if model(ctx, META[d], m).valid:
            cat.create_metaschema(URI(u))
            prior.append((u, kind))
    u, m, kind = custom(ctx, r, d, 'x', prior)
    if prior and r.random() < .6:
        m['$schema'] = prior[0][0]
    elif r.random() < .3:
        m['$schema'] = u
        ctx.event('self-describing metaschema')
    x = r.random()
    bad = None
    if x < .45:
        bad = misuse(ctx, r, m, d)
    elif x < .6:
        m.update(r.choice([{'title': 'abcdef'}, {'x-own': 'a'}, {'x-own': 1}, {'$comment': 'c'}, {'x-foo': {'a': {'minLength': -1}}}]))
    if isinstance(m.get('$vocabulary'), dict) is False or m['$vocabulary'].get(VOC[d] + 'core') is not True or m.get('$id') != u:
        return
    if any(k in m and not isinstance(m[k], str) for k in ('$ref', '$schema')):
        return
    st['docs'][u] = m
    st['last'] = m
    info = dict(metaschema=json.dumps(m), others=json.dumps({p: st['docs'][p] for p, _ in prior}), draft=d)
    # constructible at all?
    st['reg'].loader
    reg = Registry(loader=lambda q: load(ctx, q))
    reg.dialects[u] = STD[META[d]]
    for p, _ in prior:
        reg.dialects[p] = STD[META[d]]
    shared, st['reg'] = st['reg'], reg
    try:
        for p, _ in prior:
            st['docs'][p]
        want = model(ctx, m['$schema'], m).valid
    except (Ambiguous, Infinite):
        return
    except Exception:
        if wf(m, d):
            raise
        return      # the document cannot serve as a schema at all
    finally:
        st['reg'] = shared
    with cat.cache() as cid:
        try:
            JSONSchema(copy.deepcopy({**m, '$schema': META[d]}), catalog=cat, cacheid=cid)
            constructible = True
        except Exception:
            constructible = False
    if want and not constructible:
        if wf(m, d):
            raise AssertionError('well-formed metaschema not constructible: ' + json.dumps(m))
        return
    try:
        extra = [VOC[d] + 'core'] + r.sample([VOC[d] + v for v in VOCABS[d] if v != 'core'], r.choice([0, 1, 2])) if '$vocabulary' in m and r.random() < .4 else []
        ms = cat.create_metaschema(URI(u), *map(URI, extra))
    except CatalogError as e:
        check(not want, f'create_metaschema refused a metaschema that is valid against its own metaschema: {e}', **info)
        ctx.event('metaschema refused')
    except Exception as e:
        check(not want, f'create_metaschema failed with {type(e).__name__}: {e}', **info)
        check(not constructible or m['$schema'] == u, f'an invalid metaschema was refused with {type(e).__name__}: {e}, not CatalogError', **info)
    else:
        check(want, 'create_metaschema accepted a metaschema that is invalid against its own metaschema', **info)
        check(isinstance(ms, Metaschema) and cat.get_metaschema(URI(u)) is ms, 'create_metaschema does not return the cached metaschema', **info)
        ctx.event('metaschema accepted')
    ctx.state('create', d, kind, bad[-1] if bad else None, want, m['$schema'] == u)
    ctx.sample({'metaschema': m, 'valid': want})


def embedded(ctx, r):
    """a document with an embedded resource that declares another metaschema"""
    from jschon import JSONSchema, URI
    st = ctx.store
    st['n'] += 1
    cat = st['cat']
    d, e = r.sample(DRAFTS, 2) if r.random() < .8 else [r.choice(DRAFTS)] * 2
    meta, kind = META[e], 'standard'
    metas = []
    if r.random() < .4:
        u, m, kind = custom(ctx, r, e, 'e', [])
        st['docs'][u] = m
        meta = u
        metas.append(u)
    g, h = Gen(r, d, annotations=.2, unknown=.1), Gen(r, e, annotations=.2, unknown=.1)
    inner = h.schema(r.choice([0, 1, 1, 2]))
    outer = g.schema(r.choice([0, 1, 1, 2]))
    if not isinstance(inner, dict) or not isinstance(outer, dict) or any(k in json.dumps([inner, outer]) for k in ('"$ref"', '"$dynamicRef"', '"$recursiveRef"', '"$id"', '"$schema"')):
        return
    for doc, dd in ((inner, e), (outer, d)):
        if r.random() < .4:
            misuse(ctx, r, doc, dd)
    if any(k in json.dumps([inner, outer]) for k in ('"$ref"', '"$dynamicRef"', '"$recursiveRef"')):
        return
    inner = {**inner, '$schema': meta, '$id': f'emb{st["n"]}'}
    place = r.choice(['$defs', '$defs', 'properties', 'not', 'allOf'])
    at = {'$defs': ('$defs', 'x'), 'properties': ('properties', 'x'), 'not': ('not',), 'allOf': ('allOf', '0')}[place]
    outer[place] = {'$defs': {'x': inner}, 'properties': {'x': inner}, 'not': inner, 'allOf': [inner]}[place]
    its = list(outer.items())
    r.shuffle(its)
    outer = dict(its)
    st['last'] = outer
    info = dict(document=json.dumps(outer), embedded_at=ptr_str(at), metaschemas=json.dumps({u: st['docs'][u] for u in metas}), draft=f'{d} with {e}')
    with cat.cache() as cid:
        try:
            js = JSONSchema(copy.deepcopy(outer), catalog=cat, cacheid=cid, uri=URI(B + f'{st["n"]}/doc'), metaschema_uri=URI(META[d]))
        except Exception:
            if wf(outer, d) and wf(inner, e):
                raise
            return
        judge(ctx, r, js, outer, model(ctx, META[d], outer), info, 'standard', d)
        for k, s in places(inner, e):
            if k and r.random() < .5:
                continue
            n = js
            for t in at + k:
                n = n[int(t)] if n.type == 'array' else n[t]
            m = model(ctx, meta, s)
            judge(ctx, r, n, s, m, info, kind, e, at + k)
            ctx.event('embedded resource with its own metaschema')
            other = model(ctx, META[d], s)
            if other.valid is not m.valid:
                ctx.event('embedded verdict differs from the document metaschema')
        for k, s in places(outer, d):
            if k and k[:len(at)] != at and r.random() < .3:
                n = js
                for t in k:
                    n = n[int(t)] if n.type == 'array' else n[t]
                judge(ctx, r, n, s, model(ctx, META[d], s), info, 'standard', d, k)
    ctx.state('embedded', d, e, kind, place, m.valid)


UNITS = {'embedded': (embedded, 900, 15000), 'schemas': (schemas, 4000, 60000), 'metaschemas': (metaschemas, 1800, 20000)}
