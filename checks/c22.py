"""C22: output formats vs the Result tree, the schema, the instance and each other."""
import json
from collections import Counter
from lib.genschema import Gen, add_ids
from lib.models import canon, ptr_eval, ptr_parse
from lib.refeval import *
from lib.smon import Pair, DRAFTS, catalog
from lib import large as big
from lib.harness import check, short
from lib.tree import plain, nodes, Want, locate, value_at

RULE = ('random schemas/documents (references, embedded ids, every applicator, 3 drafts) x instances; every unit of flag/basic/detailed/verbose/hierarchical output judged against the '
        'Result tree, the reference evaluation, the schema documents and the instance. State: (format, validity, keyword-path shape of a unit)')
REQUIRED = {'valid': 1500, 'invalid': 1500, 'basic units': 8000, 'detailed units': 8000, 'verbose units': 20000, 'locations looked up': 2000, 'filters': 1000,
            'below $ref': 500, 'below $dynamicRef': 50, 'below $recursiveRef': 30, 'below items': 200, 'below propertyNames': 100, 'embedded resource units': 500,
            'collapsed': 500, 'units in failing branch of valid result': 100, 'chain of equal schemas': 1000, 'hierarchical units': 10000, 'hierarchical messages': 3000, 'large': 250}
ASSUMPTIONS = ['schemas with a URI (a boolean root schema constructed without a URI has no absolute location)']


def setup(ctx):
    catalog(ctx)


def canonv(v):
    return canon(plain(v))


def unit(ctx, p, w, x, u, path_prefix=None, what=''):
    kl, il, al = u['keywordLocation'], u['instanceLocation'], u['absoluteKeywordLocation']
    info = dict(what=what, unit=u, schema=json.dumps(p.doc), instance=json.dumps(x), draft=p.draft)
    check(isinstance(kl, str) and isinstance(il, str) and isinstance(al, str), 'locations are not strings', **info)
    try:
        ptr_eval(x, ptr_parse(il))
    except Exception:
        check(False, 'instanceLocation does not exist', **info)
    if (kl, il) != ('', ''):
        check((kl, il) in w.at, 'keywordLocation is not a dynamic path evaluated for this instance location', **info)
    want = w.static((kl, il), p.node)
    try:
        got = locate(p.reg, al)
    except Exception:
        check(False, 'absoluteKeywordLocation does not identify a location', **info)
    check(got[0] is want[0] and tuple(got[1]) == tuple(want[1]), 'absoluteKeywordLocation designates another schema location', want=want, got=got, **info)
    for t in ('$ref', '$dynamicRef', '$recursiveRef', 'items', 'propertyNames'):
        if '/' + t + '/' in kl:
            ctx.event('below ' + t)
    if not al.startswith(p.node.curi.split('#')[0] + '#') and al != p.node.curi:
        ctx.event('embedded resource units')
    return want


def lookup(ctx, p, cid, w, u):
    """Look the absolute location up through the catalog."""
    from jschon import URI, JSONPointer, JSONSchema
    al = u['absoluteKeywordLocation']
    base, _, frag = al.partition('#')
    doc = p.cat.get_schema(URI(base), cacheid=cid)
    node = JSONPointer.parse_uri_fragment(frag).evaluate(doc)
    want = w.static((u['keywordLocation'], u['instanceLocation']), p.node)
    check(canon(plain(node.value)) == canon(value_at(*want)), 'looked-up absolute location has another value', unit=u, schema=json.dumps(p.doc),
          got=short(node), want=short(value_at(*want)))
    if isinstance(node, JSONSchema):
        check(p.cat.get_schema(URI(al), cacheid=cid) is node, 'get_schema of an absolute location gives another object', unit=u, schema=json.dumps(p.doc))
    ctx.event('locations looked up')


def tid(n):
    return str(n.path), str(n.instance.path)


def one(ctx, r, p, cid, x):
    from jschon import JSON
    try:
        m = p.ev.evaluate(p.node, x)
    except (Infinite, Ambiguous):
        return
    ctx.store['last'] = (p.doc, x)
    res = p.js.evaluate(JSON(x))
    info = dict(schema=json.dumps(p.doc), instance=json.dumps(x), draft=p.draft)
    v = res.valid
    check(v is m.valid, f'verdict {v}, specification says {m.valid}', **info)
    ctx.event('valid' if v else 'invalid')
    w = Want(m)
    order = ['flag', 'basic', 'detailed', 'verbose']
    r.shuffle(order)
    out = {f: res.output(f) for f in order}
    for f, o in out.items():
        try:
            t = json.loads(json.dumps(o, allow_nan=False))
        except Exception as e:
            check(False, f'{f} output is not JSON-serializable: {e}', **info)
        check(t == o or canonv(t) == canonv(o), f'{f} output does not survive serialization', **info)
        check(o['valid'] is v, f'{f} output disagrees with the result', **info)
    check(set(out['flag']) == {'valid'}, 'flag output has other members', out=out['flag'], **info)
    msg, child = ('annotation', 'annotations') if v else ('error', 'errors')

    # --- basic: nodes of the same validity whose ancestors all are
    tree = nodes(res)
    exp = Counter()
    for n, chain in tree:
        if chain and n.valid is v and getattr(n, msg) is not None:
            exp[tid(n) + (canonv(getattr(n, msg)),)] += 1
    b = out['basic']
    check(set(b) == {'valid', child}, 'basic output members', out=short(b), **info)
    got = Counter()
    for u in b[child]:
        check(set(u) == {'instanceLocation', 'keywordLocation', 'absoluteKeywordLocation', msg}, 'basic unit members', unit=u, **info)
        unit(ctx, p, w, x, u, what='basic')
        got[u['keywordLocation'], u['instanceLocation'], canonv(u[msg])] += 1
        ctx.event('basic units')
        ctx.state('basic', v, tuple(t for t in u['keywordLocation'].split('/') if not t.isdigit())[-4:])
    check(got == exp, 'basic output differs from the messages of the nodes that share the verdict', missing=list((exp - got).elements())[:3], extra=list((got - exp).elements())[:3], **info)
    if v:
        check(not any(not n.valid and chain for n, chain in tree), 'chain bookkeeping', **info)

    # --- verbose: every node, own validity
    gotv = Counter()

    def walkv(u, parent):
        check({'valid', 'instanceLocation', 'keywordLocation', 'absoluteKeywordLocation'} <= set(u) <= {'valid', 'instanceLocation', 'keywordLocation', 'absoluteKeywordLocation', 'annotation', 'error', 'annotations', 'errors'},
              'verbose unit members', unit=short(u), **info)
        unit(ctx, p, w, x, u, what='verbose')
        own = u['valid']
        check(not ({'error', 'errors'} if own else {'annotation', 'annotations'}) & set(u), 'verbose unit reports the wrong kind of message', unit=short(u), **info)
        key = u['keywordLocation'], u['instanceLocation']
        if key == ('', ''):
            wv = m.valid
        else:
            wv = w.at[key][0]
        check(wv is None or own is wv, f'verbose unit says {own}, specification says {wv}', unit=short(u), **info)
        mv = u.get('annotation' if own else 'error')
        gotv[key + (own, canonv(mv) if mv is not None else None)] += 1
        ctx.event('verbose units')
        if own is False and v:
            ctx.event('units in failing branch of valid result')
        for c in u.get('annotations' if own else 'errors', []):
            check(c['keywordLocation'].startswith(u['keywordLocation'] + '/'), 'verbose child path does not extend its parent', unit=short(c), parent=u['keywordLocation'], **info)
            walkv(c, u)
    walkv(out['verbose'], None)
    expv = Counter()
    for n, _ in tree:
        mv = n.annotation if n.valid else n.error
        expv[tid(n) + (n.valid, canonv(mv) if mv is not None else None)] += 1
    check(gotv == expv, 'verbose output differs from the Result tree', missing=list((expv - gotv).elements())[:3], extra=list((gotv - expv).elements())[:3], **info)
    have = {k[:2] for k in gotv}
    lost = w.must - have
    check(not lost, 'verbose output lacks evaluated nodes', lost=sorted(lost)[:4], **info)

    # --- detailed: same leaves as basic
    leaves = Counter()

    def walkd(u, parent, root=False):
        unit(ctx, p, w, x, u, what='detailed')
        ctx.event('detailed units')
        kids = u.get(child)
        if not root:
            check(kids is None or len(kids) > 1, 'detailed unit neither leaf nor branching', unit=short(u), **info)
        if kids:
            if parent is not None:
                ctx.event('collapsed' if u['keywordLocation'].count('/') > parent['keywordLocation'].count('/') + 1 else 'branching')
            for c in kids:
                check(c['keywordLocation'].startswith(u['keywordLocation'] + '/'), 'detailed child path does not extend its parent', unit=short(c), parent=u['keywordLocation'], **info)
                walkd(c, u)
        elif msg in u:
            leaves[u['keywordLocation'], u['instanceLocation'], canonv(u[msg])] += 1
    walkd(out['detailed'], None, True)
    expl = Counter()
    for n, chain in tree:
        if chain and n.valid is v and n is not res and getattr(n, msg) is not None and not any(c.valid is v for c in n.children.values()):
            expl[tid(n) + (canonv(getattr(n, msg)),)] += 1
    check(leaves == expl, 'detailed leaves differ from the basic leaf units', missing=list((expl - leaves).elements())[:3], extra=list((leaves - expl).elements())[:3], **info)
    check(not (leaves - got), 'a detailed leaf is not in basic output', extra=list((leaves - got).elements())[:3], **info)

    hierarchical(ctx, p, w, x, res, tree, info)

    units = b[child]
    if units:
        for u in r.sample(units, min(3, len(units))):
            lookup(ctx, p, cid, w, u)
        names = sorted({u['keywordLocation'].rsplit('/', 1)[-1].replace('~1', '/').replace('~0', '~') for u in units if u['keywordLocation']})
        sel = r.sample(names, r.randint(0, len(names))) + r.choice([[], ['title'], ['nope']])
        f = res.output('basic', annotations=r.choice([list, tuple, set])(sel))
        want = [u for u in units if u['keywordLocation'].rsplit('/', 1)[-1].replace('~1', '/').replace('~0', '~') in sel]
        check(Counter(map(canonv, f[child])) == Counter(map(canonv, want)) and f['valid'] is v, 'basic output filter differs from the matching subset', sel=sel, got=short(f), want=short(want), **info)
        ctx.event('filters')
        ctx.sample({'schema': p.doc, 'instance': x, 'valid': v, 'basic units': len(units), 'verbose units': sum(gotv.values())})


def hierarchical(ctx, p, w, x, res, tree, info):
    from jschon import JSONSchema
    o = res.output('hierarchical')
    check(canonv(json.loads(json.dumps(o, allow_nan=False))) == canonv(o), 'hierarchical output does not survive serialization', **info)
    check(o['valid'] is res.valid and o['evaluationPath'] == '' and o['instanceLocation'] == '', 'hierarchical output disagrees with the result', out=short(o), **info)
    at = {tid(n): n for n, _ in tree}
    have = set()

    def walk(u, parent):
        check({'valid', 'evaluationPath', 'schemaLocation', 'instanceLocation'} <= set(u) <= {'valid', 'evaluationPath', 'schemaLocation', 'instanceLocation', 'details', 'annotations' if u['valid'] else 'errors'},
              'hierarchical unit members', unit=short(u), **info)
        unit(ctx, p, w, x, dict(keywordLocation=u['evaluationPath'], instanceLocation=u['instanceLocation'], absoluteKeywordLocation=u['schemaLocation']), what='hierarchical')
        key = u['evaluationPath'], u['instanceLocation']
        check(key in at and at[key].valid is u['valid'], 'hierarchical unit disagrees with its node of the Result tree', unit=short(u), **info)
        n = at[key]
        check(isinstance(n.schema_node, JSONSchema), 'hierarchical unit is not that of a schema', unit=short(u), **info)
        check(key not in have, 'hierarchical unit appears twice', unit=short(u), **info)
        have.add(key)
        attr, name = ('annotation', 'annotations') if u['valid'] else ('error', 'errors')
        want = {}
        for c in n.children.values():
            if getattr(c, attr) is not None:
                want.setdefault(c.key, []).append(canonv(getattr(c, attr)))
        got = u.get(name, {})
        check(set(got) == set(want) and all(canonv(got[k]) in want[k] for k in got), f'{name} of a hierarchical unit are not those of its keywords', unit=short(u), want=short(want), **info)
        ctx.event('hierarchical units')
        if got:
            ctx.event('hierarchical messages', len(got))
        check('details' not in u or u['details'], 'empty details', unit=short(u), **info)
        for c in u.get('details', ()):
            check(c['evaluationPath'].startswith(u['evaluationPath'] + '/'), 'hierarchical child path does not extend its parent', unit=short(c), parent=u['evaluationPath'], **info)
            walk(c, u)
    walk(o, None)
    lost = {tid(n) for n, chain in tree if chain and isinstance(n.schema_node, JSONSchema)} - have
    check(not lost, 'hierarchical output lacks schemas that share the verdict', lost=sorted(lost)[:4], **info)


def run(ctx, r):
    d = r.choice(DRAFTS)
    g = Gen(r, d, unevaluated=.2, annotations=.35, unknown=.1, bools=.2)
    s = g.document(r.choice([1, 2, 2, 3])) if r.random() < .6 else g.schema(r.choice([1, 2, 3]))
    uri = None if r.random() < .25 and isinstance(s, dict) else 'https://x.test/dir/s'
    if isinstance(s, dict) and r.random() < .5:
        add_ids(r, s, d, relative=uri is not None)
    if isinstance(s, dict) and uri is None:
        s = {'$id': 'https://x.test/own/s', **s} if r.random() < .5 else s
    with catalog(ctx).cache() as cid:
        p = Pair(ctx, s, d, uri=uri, cacheid=cid)
        for _ in range(4):
            one(ctx, r, p, cid, g.instance(s))


def chain(ctx, r):
    """references from resource to resource through subschemas of identical text"""
    d = r.choice(DRAFTS)
    g = Gen(r, d, unevaluated=.05, annotations=.5, unknown=.1, bools=.2)
    n = r.choice([2, 2, 3, 4])
    name = r.choice(['a', 'a b', 'x/y', 'é'])
    from lib.models import ptr_str, frag_encode
    t = {'$ref': 'sub/#' + frag_encode(ptr_str(['$defs', name]))}
    for k in r.sample(['title', 'properties', 'minLength', 'items', 'x-u', 'type', 'anyOf'], r.choice([0, 1, 2])):
        t[k] = {'title': 't', 'properties': {'a': {'title': 'p', 'type': 'string'}}, 'minLength': 2, 'items': {'title': 'i', 'maxLength': 1}, 'x-u': 1, 'type': ['string', 'object', 'array'],
                'anyOf': [{'title': 'l', 'minLength': 1}, False, True]}[k]
    its = list(t.items())
    r.shuffle(its)
    t = dict(its)
    w = r.choice([None, None, 'allOf', 'properties', 'not', 'items'])
    if w:
        t = {'allOf': {'allOf': [t]}, 'properties': {'properties': {'a': t}, 'title': 'tp'}, 'not': {'not': t}, 'items': {'items': t}}[w]
    end = g.schema(r.choice([0, 1, 1, 2]))
    doc = {'$id': 'sub/', '$defs': {name: end}}
    for _ in range(n - 1):
        doc = {'$id': 'sub/', '$defs': {name: json.loads(json.dumps(t)), 'in': doc}}
    doc['$id'] = 'https://x.test/own/'
    doc['$ref'] = '#' + frag_encode(ptr_str(['$defs', name]))
    with catalog(ctx).cache() as cid:
        p = Pair(ctx, doc, d, uri=None, cacheid=cid)
        for _ in range(3):
            x = g.instance(end) if r.random() < .7 else r.choice(['', 'a', 'abc', 1, None, {'a': 'x'}, {'a': 1}, ['a', 'bb'], [], {'a': {'a': 'b'}}, [['a'], 'b']])
            if w in ('properties', 'items') and r.random() < .7:
                for _ in range(n - 1):
                    x = {'a': x} if w == 'properties' else [x, x][:r.choice([1, 2])]
            one(ctx, r, p, cid, x)
            ctx.event('chain of equal schemas')


def large(ctx, r):
    d = r.choice(DRAFTS)
    s, xs = big.case(r, d, r.random() < .2)
    with catalog(ctx).cache() as cid:
        p = Pair(ctx, s, d, uri='https://x.test/dir/s', cacheid=cid)
        for x in xs[:2]:
            one(ctx, r, p, cid, x)
            ctx.event('large')


UNITS = {'large': (large, 300, 4000), 'chain': (chain, 1200, 12000), 'run': (run, 6000, 90000)}
