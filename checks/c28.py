"""C28: construction fails only as documented; evaluation never raises."""
import copy, json, sys
from checks.c04 import textgen
from lib import gen
from lib.genschema import Gen, NAMES, REGEX
from lib.models import jtype, ptr_str
from lib.refeval import *
from lib.smon import DRAFTS
from lib.harness import check, short
from checks.c26 import load

RULE = ('documents valid against their metaschema (judged by the reference evaluator) with extreme but allowed values at random keywords, odd references, ids, anchors, vocabularies and metaschema URIs, under odd base '
        'URIs and with sources of every behaviour: construction may only raise CatalogError, JSONSchemaError or URIError; every constructed schema evaluated against hostile instances, every result walked '
        'and every output format produced; deep, wide and huge documents. State: (unit, draft, keyword, shape of its value, outcome)')
REQUIRED = {'constructed': 2000, 'CatalogError': 200, 'JSONSchemaError': 200, 'URIError': 25, 'evaluations': 10000, 'outputs': 50000, 'valid': 4000, 'invalid': 4000, 'result nodes': 80000, 'extreme number': 3000,
            'deep instance': 130, 'deep schema': 35, 'wide': 50, 'surrogates': 250, 'odd reference': 600, 'odd id': 200, 'bad source': 200, 'from text': 500, 'with formats': 400, 'validated': 600, 'custom keyword': 200}
OUTPUTS = ['flag', 'basic', 'detailed', 'verbose', 'hierarchical']
B = 'https://ev.test/'
INF = float('inf')
NUM = [0, -0.0, 0.0, 1, -1, 1.0, 5e-324, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308, 2 ** 53, 2 ** 53 + 1, float(2 ** 53), 2 ** 63, 2 ** 64, -2 ** 63 - 1, 10 ** 30, 1e30, 10 ** 308,
       10 ** 309, -10 ** 400, 10 ** 4000, 0.1, 0.3, 1e-7, 1e16, 1e22, 1 / 3, 1.5, 9007199254740993, 123456789012345678901234567890, 4.35, 1e-300]
HUGE = [INF, -INF, 10 ** 5000, -10 ** 5000]
STR = gen.STRS + ['\ud800', 'a\udfff', '\ud83d', 'x' * 3000, '%', '%%', '{}', '%s', '{0}', '{x}', '\\', '\x00\x00', 'null', '[]', '{"a": 1}', '/', '/~', '/~2', '~', '2020-01-01', 'a@b']
NAME = gen.KEYS + ['\ud800', '\ud83d/', '', '{}', '%s', 'x' * 300, '__class__', 'self', 'type', 'value', '/a', '~1', '0', '00', '-0', '1e0', '\x00']
IDS = ['', '#', '?', '//', '//[', 'http://[', 'http://[::1', 'http://[::1]/', 'a b', '%zz', ':', '1:2', '\n', 'http:', 'http://a:b', 'http://a:99999999', 'urn:', 'urn:x', 'urn:x#', 'é', '\ud800', 'http://é/', 'mailto:a@b', '//host', '\x00',
       'http://a/%', 'http://a?%', 'HTTP://A/../b', 'file:///a/../b', 'a' * 3000, '[', 'http://user:@h/', 'http://h:/', './', '..', '../../..', '?q', '/a', 'a/b', 'x', 'http://h/%2e', 'urn:a:b?c', 'tag:x', 'HTTPS://EV.test/x', '^', '|', '`', '{}',
       'https://ev.test/ok', 'https://ev.test/x y', 'https://ev.test/' + '%' * 5, '\u2028', '\ufeffhttp://a', 'http:///x', 'http://a//b', 'data:,', 'a:', '::', '//:80', 'x:/y', 'x:y/../z']
FRAGS = ['', '/', '/$defs', '/$defs/a', '/properties/a', '/$defs/%61', '/%', '/%zz', '/~', '/~2', '/a~', 'foo', 'Ad1', '/allOf/0', '/allOf/00', '/allOf/-', '/allOf/+0', '/allOf/9999', '/allOf/' + '9' * 4500, '\ud800', '/\ud800', '/%ED%A0%80', '/%ff', 'é', '/é',
         '/enum/0', '/const', '/$id', '/type', '//', '/x-unknown', '/$ref', ' ', '#', '##', '/not', '%2F$defs', '/\n', '/title', '/0', '?', '/allOf', '/' * 50]
SRC = {'ok': {'type': 'integer'}, 'list': [1, {}], 'str': 'abc', 'null': None, 'num': 1.5, 'true': True, 'false': False, 'empty': {}, 'loop': {'$ref': 'https://ev.test/loop2'}, 'loop2': {'$ref': 'loop'}, 'frag': {'$defs': {'a': {'type': 'null'}, 'b': False}},
       'badref': {'$ref': 'https://ev.test/missing'}, 'badmeta': {'$schema': 'https://ev.test/missing'}, 'idother': {'$id': 'https://ev.test/elsewhere', '$defs': {'a': True}}, 'anch': {'$defs': {'a': {'$anchor': 'foo'}}}, 'badid': {'$id': 'http://['}}
SRC_RAISE = {'oserror': OSError(13, 'denied', 'f'), 'osbare': OSError('x'), 'value': ValueError('bad json'), 'key': KeyError('k'), 'type': TypeError(), 'unicode': UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'bad'), 'runtime': RuntimeError('no'),
             'recursion': RecursionError('deep'), 'assertion': AssertionError(), 'stop': StopIteration()}
BASES = [None, None, 'https://ev.test/base', 'https://ev.test/dir/', 'urn:base', 'urn:uuid:6e8bc430-9c3a-11d9-9669-0800200c9a66', 'file:///x', 'http://h', 'https://ev.test/b?q=1', 'tag:x,2020:y']


def setup(ctx):
    from jschon import create_catalog, URI
    from jschon.catalog import Source
    from jschon.vocabulary import Keyword, Subschema, ArrayOfSubschemas, ObjectOfSubschemas
    st = ctx.store
    st['docs'], st['n'] = {}, 0

    class Mem(Source):
        def __call__(s, rel):
            if rel in SRC_RAISE:
                raise SRC_RAISE[rel]
            if B + rel in st['docs']:
                return copy.deepcopy(st['docs'][B + rel])
            return copy.deepcopy(SRC[rel])
    cats = st['cats'] = []
    for i in range(2):
        c = create_catalog('2019-09', '2020-12', 'next', name=f'c28-{i}')
        c.add_uri_source(URI(B), Mem())
        cats.append(c)
        kws = [type('K' + k[2:], (Keyword, *b), dict(key=k)) for k, b in {'x-one': (Subschema,), 'x-all': (ArrayOfSubschemas,), 'x-map': (ObjectOfSubschemas,), 'x-mix': (Subschema, ArrayOfSubschemas)}.items()]
        c.create_vocabulary(URI('https://evvoc.test/v'), *kws)
        for d in DRAFTS:
            st['docs'][B + 'm/' + d] = {'$schema': META[d], '$id': B + 'm/' + d, '$vocabulary': {**{VOC[d] + v: True for v in VOCABS[d]}, 'https://evvoc.test/v': True}, 'allOf': [{'$ref': META[d]}],
                                        **({'$recursiveAnchor': True} if d == D19 else {'$dynamicAnchor': 'meta'})}
            c.create_metaschema(URI(B + 'm/' + d))
    cats[1].enable_formats('json-pointer', 'email', '', '\ud800')
    reg = st['reg'] = Registry(loader=lambda u: load(ctx, u))
    for d in DRAFTS:
        reg.find(META[d])


def string(r):
    return r.choice(STR)


def nm(r):
    return r.choice(NAMES) if r.random() < .4 else r.choice(NAME)


def number(r, huge=.06, of=HUGE[:2]):
    return r.choice(of) if r.random() < huge else r.choice(NUM)


def value(r, depth=2, of=HUGE[:2]):
    """of: the numbers beyond the floats (an integer with more digits than the interpreter will print only in instances)"""
    x = r.random()
    if depth <= 0 or x < .45:
        y = r.random()
        return None if y < .1 else r.random() < .5 if y < .2 else number(r, of=of) if y < .6 else string(r)
    n = r.choice([0, 1, 1, 2, 3])
    return [value(r, depth - 1, of) for _ in range(n)] if x < .72 else {nm(r): value(r, depth - 1, of) for _ in range(n)}


def extreme(r, k, g):
    """an unusual value the metaschema allows for keyword k (mostly)"""
    sub = lambda: r.choice([True, False, {}, {'type': 'string'}, {'minimum': number(r)}, {'properties': {nm(r): r.random() < .5}}, {'const': value(r, 1)}])
    if k in ('maximum', 'minimum', 'exclusiveMaximum', 'exclusiveMinimum'):
        return number(r)
    if k == 'multipleOf':
        return abs(number(r)) or 0.1
    if k in ('maxLength', 'minLength', 'maxItems', 'minItems', 'maxContains', 'minContains', 'maxProperties', 'minProperties'):
        return r.choice([0, 0.0, -0.0, 1, 1.0, 2, 3, 2 ** 63, 10 ** 30, 1e30, 1e300, 10 ** 4000, INF])
    if k == 'type':
        return r.choice(['null', 'integer', ['integer', 'null'], ['string'], ['array', 'object', 'boolean', 'number']])
    if k in ('enum', 'examples'):
        return [value(r, 2) for _ in range(r.choice([0, 1, 2, 4]))]
    if k in ('const', 'default'):
        return value(r, 3)
    if k in ('title', 'description', '$comment', 'format', 'contentMediaType', 'contentEncoding'):
        return r.choice(['json-pointer', 'email', string(r)]) if k == 'format' else string(r)
    if k == 'pattern':
        return r.choice(REGEX + ['', '(?:)', '[\\s\\S]', '^\\$', '\\x41', '\ud800', '\\u00e9', '^.{0,5}$', '(a|b)*c', '[^\\n]', 'a{0}', '\\.', '[]a]', '^(?!x)', '(?<!x)y'])
    if k == 'required':
        return list(dict.fromkeys(nm(r) for _ in range(r.choice([0, 1, 3]))))
    if k == 'dependentRequired':
        return {nm(r): list(dict.fromkeys(nm(r) for _ in range(r.choice([0, 1, 3])))) for _ in range(r.choice([0, 1, 2]))}
    if k in ('properties', 'dependentSchemas', '$defs', 'definitions'):
        return {nm(r): sub() for _ in range(r.choice([0, 1, 3]))}
    if k == 'patternProperties':
        return {r.choice(REGEX + ['', '\ud800', '[\\s\\S]', '^$', '~', '/', '%', '\\\\']): sub() for _ in range(r.choice([0, 1, 2]))}
    if k in ('allOf', 'anyOf', 'oneOf', 'prefixItems'):
        return [sub() for _ in range(r.choice([1, 2, 4]))]
    if k in ('uniqueItems', 'deprecated', 'readOnly', 'writeOnly', '$recursiveAnchor'):
        return r.random() < .6
    if k in ('$ref', '$dynamicRef', '$recursiveRef'):
        x = r.random()
        if k == '$recursiveRef' and x < .6:
            return '#'
        if x < .45:
            return '#' + r.choice(FRAGS)
        if x < .6:
            return r.choice(IDS)
        u = B + r.choice(sorted(SRC) + sorted(SRC_RAISE) + ['missing'])
        return u if x < .85 else u + '#' + r.choice(FRAGS)
    if k == '$id':
        return r.choice(IDS)
    if k == '$schema':
        return r.choice(IDS + [META[d] for d in DRAFTS] * 4 + [META[D20] + '#', META[D20].upper(), 'https://json-schema.org/draft/2020-12/meta/core', 'https://json-schema.org/draft/2019-09/meta/applicator', 'https://json-schema.org/draft/next/meta/unevaluated', B + 'ok', B + 'list', B + 'null', B + 'str', B + 'oserror', B + 'missing', B + 'empty'])
    if k == '$vocabulary':
        return {r.choice(IDS + [VOC[D20] + 'core', 'urn:v']): r.random() < .5 for _ in range(r.choice([0, 1, 2]))}
    if k in ('$anchor', '$dynamicAnchor'):
        return r.choice(['a', 'A-b', 'a.b', 'a_b', 'Ad1', '_x', 'a' * 500, 'a\n', 'foo'])
    if k == 'dependencies':
        return {nm(r): r.choice([sub(), [nm(r)]]) for _ in range(r.choice([0, 1, 2]))}
    if k == 'items':
        return r.choice([sub(), [sub(), sub()]])
    return sub()


KEYS = ['maximum', 'minimum', 'exclusiveMaximum', 'exclusiveMinimum', 'multipleOf', 'multipleOf', 'maxLength', 'minLength', 'maxItems', 'minItems', 'maxContains', 'minContains', 'maxProperties', 'minProperties', 'type', 'enum', 'examples', 'const', 'default',
        'title', 'description', '$comment', 'format', 'contentMediaType', 'contentEncoding', 'contentSchema', 'pattern', 'required', 'dependentRequired', 'properties', 'dependentSchemas', '$defs', 'definitions', 'patternProperties', 'allOf', 'anyOf', 'oneOf',
        'prefixItems', 'uniqueItems', 'deprecated', 'readOnly', 'writeOnly', '$recursiveAnchor', '$ref', '$dynamicRef', '$recursiveRef', '$id', '$schema', '$vocabulary', '$anchor', '$dynamicAnchor', 'dependencies', 'items', 'additionalItems', 'not', 'if', 'then',
        'else', 'contains', 'additionalProperties', 'propertyNames', 'unevaluatedItems', 'unevaluatedProperties']
REFS = ['$ref', '$ref', '$ref', '$dynamicRef', '$recursiveRef', '$id', '$id', '$schema', '$schema', '$anchor', '$dynamicAnchor', '$vocabulary']


def objects(v, out=None):
    """subschema objects at standard positions"""
    out = [] if out is None else out
    if isinstance(v, dict):
        out.append(v)
        for k, x in v.items():
            if k in SINGLES or k in ('contentSchema',):
                objects(x, out)
            if isinstance(x, list) and (k in ARRAYS or k == 'items'):
                for y in x:
                    objects(y, out)
            if isinstance(x, dict) and k in OBJECTS:
                for y in x.values():
                    objects(y, out)
    return out


def has_surrogate(v):
    return any('\ud800' <= c <= '\udfff' for c in json.dumps(v, ensure_ascii=False, default=str))


def safe_json(v):
    try:
        return json.dumps(v)
    except ValueError:
        return short(repr_huge(v), 3000)


def repr_huge(v):
    if isinstance(v, dict):
        return '{' + ', '.join(f'{k!a}: {repr_huge(x)}' for k, x in v.items()) + '}'
    if isinstance(v, list):
        return '[' + ', '.join(map(repr_huge, v)) + ']'
    if isinstance(v, int) and abs(v) >= 10 ** 4300:
        return '<%d-bit integer>' % v.bit_length()
    return ascii(v)


def metavalid(ctx, doc, uri):
    reg = ctx.store['reg']
    return Evaluator(reg, max_depth=300).evaluate(reg.find(uri), doc).valid


def finite(ctx, doc, d, inst, uri, cid=None):
    """does the reference evaluation end?  None: not known"""
    reg = Registry(loader=lambda u: load(ctx, u) or copy.deepcopy(SRC.get(u[len(B):])) if u.startswith(B) or u.startswith('https://json-schema.org') else None)
    for x in DRAFTS:
        reg.dialects[B + 'm/' + x] = STD[META[x]]
    reg.default_meta = META[d]
    anchors = [s[k] for s in objects(doc) for k in ('$anchor', '$dynamicAnchor') if k in s]
    if len(anchors) > len(set(anchors)):
        return None     # the target of a reference is open
    try:
        Evaluator(reg, max_depth=60, max_steps=6000).evaluate(reg.add(doc, uri, META[d]), inst)
        return True
    except Infinite:
        return False
    except Exception:
        return None


def use(ctx, r, js, inst, info, fin, text=False):
    """evaluate and look at everything a result offers"""
    from jschon import JSON
    from jschon.exc import JschonError
    info = dict(info, instance=safe_json(inst) if not isinstance(inst, JSON) else str(inst)[:2000])
    try:
        j = inst if isinstance(inst, JSON) else JSON.loads(textgen(r, inst)) if text else JSON(inst)
    except ValueError:
        j = JSON(inst)      # text cannot carry it
    try:
        res = js.evaluate(j)
    except RecursionError:
        check(fin is not True, 'evaluation exceeds the recursion limit although it is finite', **info)
        ctx.event('endless recursion')
        return None
    check(res.valid is True or res.valid is False, 'the verdict is not a boolean', got=res.valid, **info)
    check(res.passed is res.valid, 'passed differs from valid at the root', **info)
    ctx.event('valid' if res.valid else 'invalid')
    for f in OUTPUTS:
        out = res.output(f)
        check(isinstance(out, dict) and out['valid'] is res.valid, f'{f} output does not give the verdict', got=out, **info)
        todo = [out]
        while todo:
            x = todo.pop()
            if isinstance(x, dict):
                check(all(isinstance(k, str) for k in x), f'{f} output is not JSON', got=x, **info)
                todo.extend(x.values())
            elif isinstance(x, list):
                todo.extend(x)
            else:
                check(x is None or isinstance(x, (bool, int, float, str)), f'{f} output is not JSON', got=x, **info)
        ctx.event('outputs')
    res.output('basic', annotations=['title', 'properties'])
    str(res)
    list(res.collect_annotations()), list(res.collect_errors()), list(res.collect_annotations(j, 'properties'))
    todo, n = [res], 0
    while todo and n < 400:
        x = todo.pop()
        n += 1
        str(x), str(x.path), str(x.relpath), str(x.absolute_uri), x.valid, x.passed, x.schema_node, x.annotation, x.error, x.key
        todo.extend(x.children.values())
    ctx.event('result nodes', n)
    ctx.event('evaluations')
    return res


def construct(ctx, r):
    from jschon import JSON, JSONSchema, URI
    from jschon.exc import CatalogError, JSONSchemaError, URIError, JschonError
    st = ctx.store
    st['n'] += 1
    d = r.choice(DRAFTS)
    ci = r.choice([0, 0, 1])
    cat = st['cats'][ci]
    g = Gen(r, d, unevaluated=.2, annotations=.25, unknown=.1)
    x = r.random()
    doc = g.document(r.choice([1, 1, 2])) if x < .55 else g.schema(2) if x < .8 else {}
    if isinstance(doc, bool):
        doc = {'not': doc}
    used = []
    refs = r.random() < .45
    for _ in range(r.choice([1, 2, 2, 3, 5])):
        s = r.choice(objects(doc))
        k = r.choice(REFS if refs and r.random() < .6 else KEYS)
        s[k] = extreme(r, k, g)
        used.append(k)
        if refs:
            ctx.event('odd id' if k == '$id' else 'odd reference' if k.endswith('ef') else 'odd core keyword')
            u = s[k] if isinstance(s[k], str) else ''
            if u.startswith(B) and u[len(B):].split('#')[0] in SRC_RAISE | {k: 0 for k in ('list', 'str', 'null', 'num', 'badref', 'badmeta', 'missing', 'badid')}:
                ctx.event('bad source')
    if r.random() < .3:
        r.choice(objects(doc))[r.choice(NAME)] = value(r, 2)
        used.append('unknown')
    custom = r.random() < .12
    meta = META[d]
    if custom:
        meta = B + 'm/' + d
        k = r.choice(['x-one', 'x-all', 'x-map', 'x-mix'])
        doc[k] = r.choice([True, {'type': 'string'}, {'a': True}, [True, {}], [], 1, None, 'abc', '', 0.5, False])
        if k == 'x-map' and isinstance(doc[k], dict):
            doc[k] = {'type': {'type': 'string'}, 'a': True}
        ctx.event('custom keyword')
    st['last'] = doc
    top = doc.get('$schema')
    if isinstance(top, str) and top in META.values():
        meta = top
    if '$schema' in doc and top not in META.values():
        check_meta = META[d]
    else:
        check_meta = meta
    try:
        if not all(metavalid(ctx, x, META[e]) for x in objects(doc) if x is not doc for e in DRAFTS if x.get('$schema') == META[e]) or not metavalid(ctx, doc, check_meta):
            ctx.event('not valid against its metaschema')
            return
    except (Ambiguous, Infinite):
        return
    if has_surrogate(doc):
        ctx.event('surrogates')
    base = r.choice(BASES)
    kw = dict(catalog=cat)
    if '$schema' not in doc or r.random() < .2:
        kw['metaschema_uri'] = URI(meta)
    if base is not None:
        kw['uri'] = URI(base)
    info = dict(document=safe_json(doc), draft=d, base=base)
    with cat.cache() as cid:
        text = r.random() < .3
        try:
            if text:
                try:
                    t = textgen(r, doc)
                    t.encode('utf-8')
                    parsed = JSON.loads(t).value
                except ValueError:
                    t = None
            if text and t is not None and not has_surrogate(doc):
                t = t.replace('Infinity', '1e400')
                js = JSONSchema.loads(t, cacheid=cid, **kw)
                ctx.event('from text')
            else:
                js = JSONSchema(copy.deepcopy(doc), cacheid=cid, **kw)
        except (CatalogError, JSONSchemaError, URIError) as e:
            ctx.event(type(e).__name__)
            ctx.state('construct', d, tuple(sorted(set(used)))[:3], type(e).__name__)
            return
        except RecursionError:
            check(len(str(doc)) > 100000, 'construction exceeds the recursion limit', **info)
            return
        except Exception as e:
            check(False, f'construction failed with {type(e).__name__}: {ascii(str(e))[:300]}', **info)
        ctx.event('constructed')
        if custom:      # the inert custom keywords do not matter below
            pass
        su = base or str(js.uri)
        for _ in range(3):
            inst = g.instance(doc) if r.random() < .5 else value(r, 3, HUGE)
            fin = finite(ctx, doc, d, inst, su)
            if fin is False:
                ctx.event('infinite')
                continue
            try:
                res = use(ctx, r, js, inst, info, fin, text)
            except JschonError as e:
                check(False, f'evaluation failed with {type(e).__name__}: {ascii(str(e))[:300]}', **info)
            if res is not None and ci == 1:
                ctx.event('with formats')
        if r.random() < .3:
            try:
                v = js.validate()
            except (CatalogError, JSONSchemaError, URIError):
                ctx.event('no metaschema to validate against')
            else:
                for f in OUTPUTS:
                    v.output(f)
                ctx.event('validated')
    for k in set(used):
        ctx.state('construct', d, k, 'ok', text)
    ctx.sample({'document': short(safe_json(doc), 500), 'base': base})


def numbers(ctx, r):
    """extreme numbers and strings against every simple keyword"""
    from jschon import JSON, JSONSchema, URI
    st = ctx.store
    d = r.choice(DRAFTS)
    cat = st['cats'][r.randrange(2)]
    s = {}
    ks = r.sample(['maximum', 'minimum', 'exclusiveMaximum', 'exclusiveMinimum', 'multipleOf', 'multipleOf', 'enum', 'const', 'type', 'maxLength', 'minLength', 'pattern', 'format', 'maxItems', 'minItems', 'uniqueItems', 'contains', 'minContains', 'maxContains', 'required',
                   'dependentRequired', 'properties', 'propertyNames', 'additionalProperties', 'patternProperties', 'maxProperties', 'minProperties', 'unevaluatedProperties', 'unevaluatedItems', 'dependentSchemas', 'items', 'default'], r.choice([1, 2, 3, 4]))
    g = None
    for k in ks:
        v = extreme(r, k, g)
        if k == 'items' and d != D19 and isinstance(v, list):
            v = v[0]
        if type(v) in (int, float) and r.random() < .06:
            v = 10 ** 5000      # more digits than the interpreter will print
            ctx.event('unprintable keyword value')
        elif k in ('enum', 'const', 'default') and r.random() < .06:
            v = [10 ** 5000, v] if k == 'enum' else [v, -10 ** 5000]
        s[k] = v
    if r.random() < .3:
        s = {r.choice(['not', 'if', 'contains', 'items', 'additionalProperties', 'propertyNames', 'unevaluatedItems']): s, **({'then': r.random() < .5} if r.random() < .3 else {})}
    st['last'] = repr_huge(s)
    info = dict(document=safe_json(s), draft=d)
    with cat.cache() as cid:
        js = JSONSchema(s, catalog=cat, cacheid=cid, metaschema_uri=URI(META[d]))
        for _ in range(6):
            x = r.random()
            inst = number(r, .15, HUGE) if x < .35 else string(r) if x < .5 else value(r, 2, HUGE) if x < .8 else {nm(r): value(r, 1, HUGE) for _ in range(3)} if x < .9 else [number(r, .1, HUGE) for _ in range(4)]
            use(ctx, r, js, inst, info, True, r.random() < .3)
            if has_surrogate(inst if not huge(inst) else 0):
                ctx.event('surrogates')
            ctx.event('extreme number')
        if r.random() < .2:
            v = js.validate()
            v.output('verbose')
            ctx.event('validated')
    ctx.state('numbers', d, tuple(sorted(ks))[:3], tuple(type(s.get(k)).__name__ for k in sorted(ks)[:3]))


def huge(v):
    if isinstance(v, (list, tuple)):
        return any(map(huge, v))
    if isinstance(v, dict):
        return any(map(huge, v.values()))
    return isinstance(v, int) and abs(v) >= 10 ** 4300


def nest(r, n, leaf):
    v = leaf
    kind = r.choice(['list', 'dict', 'mixed'])
    for i in range(n):
        v = [v] if kind == 'list' or kind == 'mixed' and r.random() < .5 else {r.choice(['a', 'a', 'b', '']): v}
    return v


def shapes(ctx, r):
    """deep, wide and long"""
    from jschon import JSON, JSONSchema, URI
    st = ctx.store
    d = r.choice(DRAFTS)
    cat = st['cats'][0]
    kind = r.choice(['deep', 'deep', 'deep', 'deeper', 'deep schema', 'wide', 'wide'])
    limit = sys.getrecursionlimit()
    rec = {'$recursiveRef': '#'} if d == D19 else {'$dynamicRef': '#node'}
    root = {'$recursiveAnchor': True} if d == D19 else {'$dynamicAnchor': 'node'}
    insts = []
    if kind in ('deep', 'deeper'):
        n = r.choice([10, 25, 40, 60, 80]) if kind == 'deep' else r.choice([150, 250, 350])
        link = r.choice([{'$ref': '#'}, {'$ref': '#/$defs/n'}, rec])
        leaf = r.choice([None, 1, 'x', [], {}, True])
        s = r.choice([
            {**root, 'items': link, 'additionalProperties': link},
            {**root, 'properties': {'a': link, 'b': link}, 'items': link},
            {**root, 'additionalProperties': {'anyOf': [{'type': 'null'}, link]}, 'items': {'allOf': [link]}},
            {**root, 'unevaluatedProperties': link, 'unevaluatedItems': link},
            {**root, 'contains': link, 'patternProperties': {'': link}} if kind == 'deep' else {**root, 'patternProperties': {'': link}, 'items': link},
            {'const': nest(r, n, leaf)}, {'enum': [1, nest(r, n, leaf)]}, {'uniqueItems': True}, {'type': ['array', 'object']}, True, {'x-unknown': nest(r, min(n, 60), leaf)}, {'not': {'const': nest(r, n, leaf)}},
        ])
        if isinstance(s, dict) and '$defs' not in s and '$ref' in str(s):
            s = {**s, '$defs': {'n': {'$ref': '#'}}}
        if isinstance(s, dict) and r.random() < .4 and ('$recursiveAnchor' in s or '$dynamicAnchor' in s):
            s['type'] = r.choice([['array', 'object'], ['array', 'object', 'null']])
        insts = [nest(r, n, r.choice([leaf, 7])) for _ in range(2)]
        if isinstance(s, dict) and 'uniqueItems' in s:
            insts = [[copy.deepcopy(insts[0]), insts[0], insts[1]]]
        ctx.event('deep instance')
    elif kind == 'deep schema':
        n = r.choice([10, 25, 50, 70])
        s = r.choice([True, False, {'type': 'integer'}])
        for i in range(n):
            s = r.choice([lambda: {'not': s}, lambda: {'allOf': [s]}, lambda: {'anyOf': [False, s]}, lambda: {'properties': {'a': s}}, lambda: {'items': s}, lambda: {'if': s, 'then': True}, lambda: {'$defs': {'x': s}, '$ref': '#/$defs/x', '$id': f'urn:n{i}'},
                          lambda: {'dependentSchemas': {'a': s}}])()
        insts = [1, nest(r, 30, 1), {'a': 1}, [1]]
        ctx.event('deep schema')
    else:
        n = r.choice([100, 300])
        k = r.choice(['allOf', 'anyOf', 'oneOf', 'enum', 'props', 'patterns', 'unique', 'items', 'required', 'long', 'defs'])
        s = {'allOf': {'allOf': [{'minimum': i} for i in range(n)]}, 'anyOf': {'anyOf': [{'const': i} for i in range(n)]}, 'oneOf': {'oneOf': [{'maximum': i} for i in range(n)]}, 'enum': {'enum': [f'v{i}' for i in range(n * 5)]},
             'props': {'properties': {f'p{i}': {'type': 'integer'} for i in range(n)}, 'additionalProperties': False}, 'patterns': {'patternProperties': {f'^p{i}$': True for i in range(n)}, 'unevaluatedProperties': False},
             'unique': {'uniqueItems': True}, 'items': {'items': {'type': 'integer'}, 'contains': {'const': n}, 'minContains': n // 2, 'unevaluatedItems': False}, 'required': {'required': [f'p{i}' for i in range(n)]},
             'long': {'maxLength': 10 ** 5, 'pattern': 'x$', 'minLength': 3}, 'defs': {'$defs': {f'd{i}': {'$ref': f'#/$defs/d{i + 1}'} if i < 60 else {'type': 'integer'} for i in range(61)}, '$ref': '#/$defs/d0'}}[k]
        insts = [n // 2, f'v{n}', {f'p{i}': i for i in range(n)}, list(range(n)), 'x' * (10 ** 5 + r.choice([-1, 0, 1])), [[i] for i in range(n)], {f'q{i}': i for i in range(n)}]
        insts = r.sample(insts, 4)
        ctx.event('wide')
    st['last'] = short(str(s), 300)
    info = dict(document=short(safe_json(s), 2500), draft=d, kind=kind)
    if kind == 'deeper':
        sys.setrecursionlimit(40000)
    try:
        with cat.cache() as cid:
            js = JSONSchema(s, catalog=cat, cacheid=cid, metaschema_uri=URI(META[d]))
            for x in insts:
                use(ctx, r, js, x, info, True)
    finally:
        sys.setrecursionlimit(limit)
    ctx.state('shapes', d, kind, short(str(s), 80))


UNITS = {'construct': (construct, 5000, 60000), 'numbers': (numbers, 1500, 20000), 'shapes': (shapes, 500, 6000)}
