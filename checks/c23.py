"""C23: errors explain exactly the failures; Result trees are navigable."""
import json
from collections import Counter
from lib.genschema import Gen, add_ids
from lib.models import canon, ptr_eval, ptr_str
from lib.refeval import *
from lib.smon import Pair, DRAFTS, catalog
from lib import large as big
from lib.harness import check, short
from lib.tree import plain, nodes, Want, locate, value_at

RULE = ('random schemas/documents (3 drafts, every applicator, references, embedded ids) x mostly invalid instances; every error checked against the set of really failing '
        'keyword evaluations of the reference evaluator and vice versa; structural invariants on every Result node. State: (keyword, parent keyword, outcome)')
REQUIRED = {'invalid': 3000, 'valid': 500, 'errors': 10000, 'mandatory errors': 6000, 'nodes': 40000, 'filters': 4000, 'errors under $ref': 300, 'errors under anyOf': 300, 'errors under if/then/else': 100,
            'errors under dependentSchemas': 100, 'boolean false errors': 200, 'errors under items': 200, 'errors under contains': 80, 'errors under propertyNames': 80, 'not errors': 100, 'large': 300}
UNDER = {'$ref', '$dynamicRef', '$recursiveRef', 'anyOf', 'allOf', 'oneOf', 'dependentSchemas', 'items', 'contains', 'propertyNames', 'unevaluatedProperties', 'unevaluatedItems', 'patternProperties'}


def setup(ctx):
    catalog(ctx)


def one(ctx, r, p, x):
    from jschon import JSON, JSONSchema
    try:
        m = p.ev.evaluate(p.node, x)
    except (Infinite, Ambiguous):
        return
    ctx.store['last'] = (p.doc, x)
    j = JSON(x)
    res = p.js.evaluate(j)
    info = dict(schema=json.dumps(p.doc), instance=json.dumps(x), draft=p.draft)
    v = res.valid
    check(v is m.valid, f'verdict {v}, specification says {m.valid}', **info)
    ctx.event('valid' if v else 'invalid')
    w = Want(m)
    tree = nodes(res)

    # --- navigation
    check(res.parent is None and res.key is None and str(res.path) == '' and res.schema is p.js and res.instance is j, 'root result attributes', **info)
    jat = {}

    def index(n):
        jat[str(n.path)] = n
        if n.type == 'array':
            for c in n:
                index(c)
        elif n.type == 'object':
            for c in n.values():
                index(c)
    index(j)
    seen = set()
    for n, _ in tree:
        key = str(n.path), str(n.instance.path)
        check(key not in seen, 'two result nodes for one path and instance', node=key, **info)
        seen.add(key)
        for (ck, cp), c in n.children.items():
            check(c.parent is n and c.key == ck and c.path == n.path / ck and c.instance.path == cp, 'child bookkeeping', node=str(c.path), key=ck, **info)
            check(n.children[c.key, c.instance.path] is c, 'children index', **info)
            o = r.choice(list(n.children.values()))
            check(c.sibling(o.instance, o.key) is o, 'sibling() does not find the sibling', node=str(c.path), of=str(o.path), **info)
        ctx.event('nodes')
        if n is res:
            check(n.schema_node is p.js and n.passed is n.valid, 'root schema_node/passed', **info)
            continue
        check(key in w.at, 'result node for a path that is not evaluated for this instance', node=key, **info)
        valid, node, rel, target, k = w.at[key]
        check(valid is None or n.valid is valid, f'node says {n.valid}, specification says {valid}', node=key, **info)
        if 'propertyNames' in n.path:
            check(n.instance.value == key[1].rsplit('/', 1)[-1].replace('~1', '/').replace('~0', '~') or n.instance is jat.get(key[1]), 'property name instance', node=key, got=short(n.instance), **info)
        else:
            check(n.instance is jat.get(key[1]), 'node instance is not the node of the document at its path', node=key, **info)
        sval = value_at(node.doc, node.keys + rel)
        check(canon(plain(n.schema_node.value)) == canon(sval), 'schema_node has another value than the keyword reported on', node=key, got=short(n.schema_node), want=short(sval), **info)
        check(n.relpath.evaluate(n.schema) is n.schema_node and isinstance(n.schema, JSONSchema), 'relpath does not lead from schema to schema_node', node=key, **info)
        want = w.static(key, p.node)
        check(locate(p.reg, n.absolute_uri) == (want[0], tuple(want[1])), 'absolute_uri designates another schema location', node=key, got=str(n.absolute_uri), want=want, **info)
        if type(k).__name__ == 'K' and valid is not None:
            check(n.passed is (n.valid or not k.asserts), f'passed is {n.passed}', node=key, **info)
        ctx.state(n.key if not n.key.isdigit() else '#', (n.parent.key or '') if not (n.parent.key or '').isdigit() else '#', n.valid)

    # --- errors
    allerr = list(res.collect_errors())
    basic = res.output('basic')
    if v:
        check(allerr == [] and 'errors' not in basic, 'a valid result reports errors', got=short(allerr), **info)
    else:
        check(len(allerr) > 0 and len(basic['errors']) > 0, 'an invalid result reports no error', **info)
    chain = [n for n, c in tree if c and n.error is not None and not n.valid]
    if not v:
        check(Counter(canon(plain(e)) for e in allerr) == Counter(canon(plain(n.error)) for n in chain), 'collect_errors differs from the errors of the failing nodes', **info)
        units = {(u['keywordLocation'], u['instanceLocation']) for u in basic['errors']}
        check(len(units) == len(basic['errors']), 'an error is reported twice', **info)
        bad = failing_now(m)
        for u in units:
            check(u == ('', '') or u in bad, 'an error is reported for a keyword that does not fail', unit=u, **info)
            ctx.event('errors')
            toks = u[0].split('/')
            for t in set(toks[:-1]) & UNDER:
                ctx.event('errors under ' + t)
            if set(toks[:-1]) & {'if', 'then', 'else'}:
                ctx.event('errors under if/then/else')
            if toks[-1] == 'not':
                ctx.event('not errors')
        for n in chain:
            if n is not res and isinstance(n.schema_node, JSONSchema) and n.schema_node.data is False:
                ctx.event('boolean false errors')
            elif n.error is False or n.error == '' :
                ctx.event('falsy errors')
        for kw, path, ip, loc in must_errors(m):
            ctx.event('mandatory errors')
            check((ptr_str(path), ptr_str(ip)) in units, 'a failing assertion keyword along failing subschemas is not reported', keyword=kw, path=ptr_str(path), at=ptr_str(ip), **info)
        ctx.sample({'schema': p.doc, 'instance': x, 'errors': len(units), 'mandatory': len(must_errors(m))})
    # --- filters
    errs = [(n.key, str(n.instance.path), canon(plain(n.error))) for n in chain] if not v else []
    allkeys = sorted({e[0] for e in errs if e[0] is not None} | {'type', 'allOf', ''})
    for _ in range(2):
        k = r.choice(allkeys)
        n = jat[r.choice([e[1] for e in errs])] if errs and r.random() < .7 else jat[r.choice(sorted(jat))]
        for kk, nn in ((k, None), (None, n), (k, n)):
            g = Counter(canon(plain(e)) for e in (res.collect_errors(nn, kk) if r.random() < .5 else res.collect_errors(key=kk, instance=nn)))
            t = Counter(c for a, b, c in errs if (kk is None or a == kk) and (nn is None or b == str(nn.path)))
            check(g == t, 'filtered errors differ from the matching subset', key=kk, at=str(nn.path) if nn is not None else None, got=list(g.elements())[:4], want=list(t.elements())[:4], **info)
            ctx.event('filters')
    # errors of a subtree
    sub = r.choice(tree)[0]
    g = Counter(canon(plain(e)) for e in sub.collect_errors())
    t = Counter(canon(plain(n.error)) for n, c in nodes(sub) if c and not n.valid and n.error is not None)
    check(g == (t if not sub.valid else Counter()), 'errors of a subtree', node=str(sub.path), **info)


def failing_now(m):
    return {(ptr_str(a), ptr_str(b)) for a, b in failing(m)}


def run(ctx, r):
    d = r.choice(DRAFTS)
    g = Gen(r, d, unevaluated=.2, annotations=.1, unknown=.06, bools=.25)
    s = g.document(r.choice([1, 2, 2, 3])) if r.random() < .6 else g.schema(r.choice([1, 2, 3]))
    if isinstance(s, dict) and r.random() < .3:
        add_ids(r, s, d, relative=True)
    with catalog(ctx).cache() as cid:
        p = Pair(ctx, s, d, uri='https://x.test/dir/s', cacheid=cid)
        for _ in range(5):
            one(ctx, r, p, g.instance(s))


def large(ctx, r):
    d = r.choice(DRAFTS)
    s, xs = big.case(r, d, r.random() < .2)
    with catalog(ctx).cache() as cid:
        p = Pair(ctx, s, d, uri='https://x.test/dir/s', cacheid=cid)
        for x in xs:
            one(ctx, r, p, x)
            ctx.event('large')


UNITS = {'large': (large, 400, 5000), 'run': (run, 6000, 90000)}
