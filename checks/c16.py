"""C16: applicators vs the reference evaluator."""
import json
from lib.genschema import Gen
from lib.refeval import *
from lib.smon import Pair, DRAFTS, catalog, sig_kw
from lib.harness import check
from lib import large as big

RULE = ('random nested applicator schemas (3 drafts, depth <= 4, boolean subschemas, overlapping patterns, shuffled keywords) x schema-directed and '
        'mutated instances; verdicts judged by the reference evaluator. State: distinct (keyword path, outcome) evaluation shapes')
APPL = ['allOf', 'anyOf', 'oneOf', 'not', 'if', 'then', 'else', 'dependentSchemas', 'prefixItems', 'items', 'additionalItems', 'contains', 'minContains', 'maxContains',
        'properties', 'patternProperties', 'additionalProperties', 'propertyNames']
REQUIRED = {f'{k} {o}': 40 for k in APPL for o in ('passes', 'fails')}
REQUIRED.update({'large valid': 500, 'large invalid': 500})


def setup(ctx):
    catalog(ctx)


UNE = 0


def _case(ctx, r, une, doc=False, n=5):
    d = r.choice(DRAFTS)
    g = Gen(r, d, unevaluated=une, annotations=.05, unknown=.04)
    s = g.document(r.choice([1, 2, 3])) if doc else g.schema(r.choice([1, 2, 3, 3, 4]))
    if une and not doc and isinstance(s, dict) and r.random() < .6:
        s[r.choice(['unevaluatedItems', 'unevaluatedProperties'])] = r.choice([False, False, True, {'type': 'integer'}, {'title': 'u', 'type': ['string', 'null']}])
        s = dict(sorted(s.items(), key=lambda _: r.random()))
    with catalog(ctx).cache() as cid:
        p = Pair(ctx, s, d, uri=None if r.random() < .5 else 'https://x.test/s', cacheid=cid)
        for _ in range(n):
            x = g.instance(s)
            try:
                res, m = p.verdict(ctx, x)
            except (Infinite, Ambiguous):
                ctx.event('skipped: infinite or undetermined')
                continue
            sg = sig_kw(m)
            for q, v in sg:
                ctx.event(f"{q[-1]} {'passes' if v else 'fails'}")
            ctx.event('valid' if m.valid else 'invalid')
            ctx.state(d, sg)
            yield d, s, x, res, m, p
    if r.random() < .001:
        ctx.sample({'draft': d, 'schema': s, 'instance': x})


def nested(ctx, r):
    for _ in _case(ctx, r, 0):
        pass


PATS = ['^a', 'b$', 'a', '.', '', '^[bc]$', '^$', 'ab', '^.$']


def focused(ctx, r):
    """One applicator family at a time with dense interaction."""
    d = r.choice(DRAFTS)
    g = Gen(r, d, unevaluated=0, annotations=0, unknown=0, bools=.3)
    leaf = lambda: r.choice([True, False, {'type': 'integer'}, {'type': 'string'}, {'const': 1}, {'minimum': 2}, {'enum': [1, 'a']}, {}, {'not': {'const': 1}}, {'maxLength': 1},
                             {'multipleOf': 2}, {'required': ['a']}, {'maxItems': 1}])
    vals = [1, 2, 3, 'a', 'bb', None, 1.0, [], {}, {'a': 1}, [1], True, 'ab']
    every = list(vals)
    fam = r.choice(['props', 'items', 'contains', 'logic', 'names', 'dep', 'cond'])
    s = {}
    if fam == 'props':
        if r.random() < .7:
            s['properties'] = {k: leaf() for k in r.sample(['a', 'b', 'c', 'ab', '', '0', '/', '~'], r.choice([0, 1, 2, 3]))}
        if r.random() < .6:
            s['patternProperties'] = {k: leaf() for k in r.sample(PATS, r.choice([0, 1, 2, 3]))}
        if r.random() < .8:
            s['additionalProperties'] = leaf()
        mk = lambda: {k: r.choice(vals) for k in r.sample(['a', 'b', 'c', 'ab', '', '0', '/', '~', 'aab', 'd'], r.choice([0, 1, 2, 3, 4]))}
    elif fam == 'items':
        if d == D19:
            s['items'] = [leaf() for _ in range(r.choice([1, 2, 3]))] if r.random() < .75 else leaf()
            if r.random() < .8:
                s['additionalItems'] = leaf()
        else:
            if r.random() < .8:
                s['prefixItems'] = [leaf() for _ in range(r.choice([1, 2, 3]))]
            if r.random() < .85:
                s['items'] = leaf()
            if r.random() < .1:
                s['additionalItems'] = leaf()
        mk = lambda: [r.choice(vals) for _ in range(r.choice([0, 1, 2, 3, 4, 5]))]
    elif fam == 'contains':
        s['contains'] = leaf()
        if r.random() < .6:
            s['minContains'] = r.choice([0, 0, 1, 2, 3])
        if r.random() < .6:
            s['maxContains'] = r.choice([0, 1, 1, 2])
        if r.random() < .4:
            s['items'] = leaf()
        mk = lambda: [r.choice(vals) for _ in range(r.choice([0, 1, 2, 3, 4]))]
    elif fam == 'logic':
        for k in r.sample(['allOf', 'anyOf', 'oneOf', 'not'], r.choice([1, 1, 2])):
            s[k] = leaf() if k == 'not' else [leaf() for _ in range(r.choice([1, 2, 3, 4]))]
        mk = lambda: r.choice(vals)
    elif fam == 'names':
        s['propertyNames'] = r.choice([leaf(), {'pattern': '^a'}, {'maxLength': 1}, {'enum': ['a', 'b']}, {'type': 'string'}, {'type': 'integer'}, {'not': {'const': 'b'}},
                                       {'minLength': 1}, {'anyOf': [{'const': 'a'}, {'const': ''}]}, {'oneOf': [{'pattern': 'a'}, {'pattern': 'b'}]}])
        mk = lambda: {k: r.choice(vals) for k in r.sample(['a', 'b', 'c', 'ab', '', '1'], r.choice([0, 1, 2, 3]))}
    elif fam == 'dep':
        s['dependentSchemas'] = {k: r.choice([leaf(), {'required': ['b']}, {'maxProperties': 1}, {'properties': {'a': leaf()}}]) for k in r.sample(['a', 'b', 'c', ''], r.choice([1, 2, 3]))}
        mk = lambda: {k: r.choice(vals) for k in r.sample(['a', 'b', 'c', 'd', ''], r.choice([0, 1, 2, 3]))}
    else:
        if r.random() < .95:
            s['if'] = leaf()
        if r.random() < .8:
            s['then'] = leaf()
        if r.random() < .8:
            s['else'] = leaf()
        mk = lambda: r.choice(vals)
    if not s:
        return
    s = dict(sorted(s.items(), key=lambda _: r.random()))
    if r.random() < .35:
        w = r.choice(['not', 'allOf', 'properties', 'items', 'anyOf', 'if', 'contains', 'oneOf'])
        wrapped = {w: s if w in ('not', 'items', 'if', 'contains') else {'a': s} if w == 'properties' else [s] if r.random() < .5 else [s, leaf()]}
        if w == 'if':
            wrapped['then' if r.random() < .5 else 'else'] = False
        if w in ('items', 'contains'):
            base = mk
            mk = lambda: [base() for _ in range(r.choice([0, 1, 2, 3]))]
        elif w == 'properties':
            base = mk
            mk = lambda: {'a': base()}
        s = wrapped
    with catalog(ctx).cache() as cid:
        p = Pair(ctx, s, d, uri=None, cacheid=cid)
        for _ in range(5):
            vals[:] = every if r.random() < .85 else r.choice([[True, False], [None], [1, 2, 3], ['a', 'bb', 'ab'], [{}, {'a': 1}], [[], [1]], [1.5, 1.0, 2.0]])
            x = mk() if r.random() < .95 else r.choice(vals)
            res, m = p.verdict(ctx, x)
            for q, v in sig_kw(m):
                ctx.event(f"{q[-1]} {'passes' if v else 'fails'}")
            ctx.state(d, 'foc', sig_kw(m))
    ctx.sample({'draft': d, 'schema': s, 'instance': x, 'valid': m.valid})


def large(ctx, r):
    """many branches, properties, patterns and items; long names; deep nesting"""
    d = r.choice(DRAFTS)
    s, xs = big.case(r, d)
    with catalog(ctx).cache() as cid:
        p = Pair(ctx, s, d, uri=None, cacheid=cid)
        for x in xs:
            res, m = p.verdict(ctx, x)
            ctx.event('large ' + ('valid' if m.valid else 'invalid'))
            for q, v in sig_kw(m):
                ctx.event(f"{q[-1]} {'passes' if v else 'fails'}")
            ctx.state(d, 'large', len(str(s)) // 50, len(str(x)) // 20, m.valid)


UNITS = {'large': (large, 4000, 50000), 'nested': (nested, 13500, 150000), 'focused': (focused, 24000, 250000)}
