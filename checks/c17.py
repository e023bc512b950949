"""C17: unevaluatedItems / unevaluatedProperties vs the reference evaluator."""
import json
from lib.genschema import Gen
from lib.refeval import *
from lib.smon import Pair, DRAFTS, catalog, sig_kw
from lib.harness import check
from checks import c16
from lib import large as big

RULE = ('random schemas rich in unevaluated* next to and below every in-place applicator and reference, in shuffled keyword order and 3 drafts; '
        'verdicts judged by the reference evaluator, whose evaluated-location sets follow the specification text. State: distinct evaluation shapes')
REQUIRED = {f'{k} {o}': 100 for k in ('unevaluatedItems', 'unevaluatedProperties') for o in ('passes', 'fails')}
REQUIRED.update({f'unevaluated through {k}': 40 for k in ('allOf', 'anyOf', 'oneOf', 'if', 'then', 'else', 'dependentSchemas', '$ref', '$dynamicRef', '$recursiveRef')})
REQUIRED['verdict depends on unevaluated'] = 1000
REQUIRED.update({'large valid': 300, 'large invalid': 500})
INPL = ('allOf', 'anyOf', 'oneOf', 'if', 'then', 'else', 'dependentSchemas', '$ref', '$dynamicRef', '$recursiveRef', 'not')


def setup(ctx):
    catalog(ctx)


def through(ctx, s):
    ks = [k.key for k in s.kws]
    if any(k.startswith('unevaluated') for k in ks):
        for k in s.kws:
            if k.key in INPL and any(r.props or r.items for r in k.subs if r.valid):
                ctx.event(f'unevaluated through {k.key}')
        for k in s.kws:
            if k.key.startswith('unevaluated') and not k.valid and not k.soft:
                ctx.event('verdict depends on unevaluated')
    for k in s.kws:
        for r in k.subs:
            through(ctx, r)


def nested(ctx, r):
    for d, s, x, res, m, p in c16._case(ctx, r, .6):
        through(ctx, m)


def refs(ctx, r):
    for d, s, x, res, m, p in c16._case(ctx, r, .6, doc=True):
        through(ctx, m)


def tree(r, d, kind, depth, names):
    """applicator tree that evaluates bits of one object / array"""
    x = r.random()
    leaf = lambda: r.choice([True, True, False, {'type': 'integer'}, {'type': 'string'}, {'const': 1}, {'title': 't'}])
    if depth == 0 or x < .3:
        if kind == 'object':
            k = r.choice(['properties', 'properties', 'patternProperties', 'additionalProperties', 'required', 'const', 'unevaluatedProperties'])
            return {'properties': {'properties': {n: leaf() for n in r.sample(names, r.choice([1, 1, 2]))}},
                    'patternProperties': {'patternProperties': {r.choice(['^a', 'b', 'c', '^.$']): leaf()}}, 'additionalProperties': {'additionalProperties': leaf()},
                    'required': {'required': [r.choice(names)]}, 'const': r.choice([True, False, {}]),
                    'unevaluatedProperties': {'unevaluatedProperties': leaf(), **({'properties': {r.choice(names): leaf()}} if r.random() < .6 else {})}}[k]
        pre = 'items' if d == D19 else 'prefixItems'
        k = r.choice(['pre', 'pre', 'items', 'contains', 'minItems', 'const', 'unevaluatedItems', 'pre+'])
        n = r.choice([1, 1, 2, 3])
        o = {'pre': {pre: [leaf() for _ in range(n)]}, 'items': {'items': leaf()},
             'contains': {'contains': r.choice([{'type': 'integer'}, {'type': 'string'}, {'const': 1}]), **({'minContains': r.choice([0, 1, 2])} if r.random() < .4 else {})},
             'minItems': {'minItems': r.choice([1, 2, 3])}, 'const': r.choice([True, False, {}]),
             'unevaluatedItems': {'unevaluatedItems': leaf(), **({pre: [leaf()]} if r.random() < .6 else {})},
             'pre+': {pre: [leaf() for _ in range(n)], ('additionalItems' if d == D19 else 'items'): leaf()}}[k]
        return o
    s = {}
    for k in r.sample(['allOf', 'anyOf', 'oneOf', 'not', 'if', 'dependentSchemas', 'self'], r.choice([1, 1, 2])):
        sub = lambda: tree(r, d, kind, depth - 1, names)
        if k in ('allOf', 'anyOf', 'oneOf'):
            s[k] = [sub() for _ in range(r.choice([1, 2, 2, 3]))]
        elif k == 'not':
            s[k] = {'not': sub()} if r.random() < .5 else sub()
        elif k == 'if':
            s['if'] = sub()
            if r.random() < .7:
                s['then'] = sub()
            if r.random() < .7:
                s['else'] = sub()
        elif k == 'dependentSchemas':
            s[k] = {r.choice(names): sub() for _ in range(r.choice([1, 2]))}
        else:
            t = tree(r, d, kind, 0, names)
            if isinstance(t, dict):
                for a, b in t.items():
                    s.setdefault(a, b)
    return s


def shuffled(r, s):
    if isinstance(s, dict):
        return {k: shuffled(r, v) for k, v in sorted(s.items(), key=lambda _: r.random())}
    return [shuffled(r, v) for v in s] if isinstance(s, list) else s


def several(r, d, kind, names, un):
    """many in-place siblings evaluating different parts of the instance, in
    any order: what is evaluated is the union"""
    pre = 'items' if d == D19 else 'prefixItems'
    ok = lambda: r.choice([True, True, True, {'type': ['integer', 'string', 'null']}, {'type': 'integer'}, {'title': 't'}])

    def part():
        if kind == 'object':
            return r.choice([lambda: {'properties': {r.choice(names): ok()}}, lambda: {'properties': {n: ok() for n in r.sample(names, 2)}}, lambda: {'patternProperties': {r.choice(['^a', 'b', 'c']): ok()}},
                             lambda: {'properties': {}}, lambda: {'properties': {'zz': ok()}}, lambda: {'minProperties': 0}])()
        return r.choice([lambda: {pre: [ok() for _ in range(r.choice([1, 2, 3, 4]))]}] * 4 + [
            lambda: {'contains': {'const': r.choice([1, 2, 'x'])}, 'minContains': r.choice([0, 0, 1])}, lambda: {'minItems': 0}])()
    s = {**part(), '$defs': {'p': part(), 'q': part()}}
    parts = [part() if r.random() < .7 else {'$ref': '#/$defs/' + r.choice('pq')} for _ in range(r.choice([2, 3, 4, 6]))]
    while parts:
        k = r.choice(['allOf', 'allOf', 'anyOf', 'if', '$ref'])
        if k == '$ref' and k not in s:
            s[k] = '#/$defs/' + r.choice('pq')
        elif k == 'if' and k not in s:
            s[k] = parts.pop()
            s[r.choice(['then', 'else'])] = parts.pop() if parts else True
        else:
            s.setdefault(k if k in ('allOf', 'anyOf') else 'allOf', []).append(parts.pop())
    s[un] = r.choice([False, False, {'const': 2}])
    if r.random() < .3:
        x = {k: s.pop(k) for k in list(s) if k not in ('$defs', un) and r.random() < .5}
        s.setdefault('allOf', []).append(x)
    return s


def dense(ctx, r):
    d = r.choice(DRAFTS)
    kind = r.choice(['object', 'array'])
    names = ['a', 'b', 'c', 'ab']
    un = 'unevaluatedProperties' if kind == 'object' else 'unevaluatedItems'
    s = tree(r, d, kind, r.choice([1, 2, 2, 3]), names)
    if not isinstance(s, dict):
        return
    nest = False
    s[un] = r.choice([False, False, False, {'type': 'integer'}, {'const': 1}, True])
    if r.random() < .25:
        s = {'$defs': {'x': s}, '$ref': '#/$defs/x', un: False}
    elif r.random() < .2 and d != D19:
        s['$dynamicAnchor'] = 'x'
        s = {'$defs': {'x': s}, '$dynamicRef': '#x', un: r.choice([False, False, {'const': 1}])}
        t = tree(r, d, kind, 0, names)
        if isinstance(t, dict):
            s.update({k: v for k, v in t.items() if k != un})
    elif r.random() < .25 and d == D19:
        t = tree(r, d, kind, 1, names)
        s[('properties' if kind == 'object' else 'items')] = ch = {'a': None} if kind == 'object' else {}
        inner = {'$recursiveRef': '#', un: r.choice([False, {'const': 1}])} if r.random() < .7 else {'allOf': [{'$recursiveRef': '#'}, t], un: False}
        if kind == 'object':
            ch['a'] = inner
        else:
            ch.update(inner)
        if r.random() < .7:
            s[un] = True
        nest = True
    elif r.random() < .25:
        t = tree(r, d, kind, 1, names)
        s = {'$defs': {'x': s, 'y': t}, 'allOf': [{'$ref': '#/$defs/x'}, {'$ref': '#/$defs/y'}] if r.random() < .6 else [{'$ref': '#/$defs/y'}], un: False}
        s['anyOf'] = [{'$ref': '#/$defs/x'}, True] if r.random() < .4 else [True]
    if r.random() < .15:
        s = several(r, d, kind, names, un)
        nest = False
    s = shuffled(r, s)
    with catalog(ctx).cache() as cid:
        p = Pair(ctx, s, d, uri=None, cacheid=cid)
        for _ in range(6):
            vals = [1, 1, 2, 'x', None] if r.random() < .8 else r.choice([[True], [False, True], [None], [{}, {'a': 1}], [[], [1]], ['x', ''], [1.5, 0], [True, None, 'x', 1, 1.5, [], {}]])
            if kind == 'object':
                x = {n: r.choice(vals) for n in r.sample(names + ['d', ''], r.choice([0, 1, 2, 2, 3, 4]))}
            else:
                x = [r.choice([1] + vals if len(vals) == 5 else vals) for _ in range(r.choice([0, 1, 2, 2, 3, 4, 5, 6]))]
            if nest:
                y = r.choice([{}, {'b': 1}, {'a': {}, 'c': 1}]) if kind == 'object' else []
                x = {**y, 'a': x} if kind == 'object' else [x] + y
            try:
                res, m = p.verdict(ctx, x)
            except Infinite:
                continue
            through(ctx, m)
            sg = sig_kw(m)
            for q, v in sg:
                ctx.event(f"{q[-1]} {'passes' if v else 'fails'}")
            ctx.state(d, sg)
    ctx.sample({'draft': d, 'schema': s, 'instance': x, 'valid': m.valid})


def large(ctx, r):
    d = r.choice(DRAFTS)
    s, xs = big.case(r, d, True)
    with catalog(ctx).cache() as cid:
        p = Pair(ctx, s, d, uri=None, cacheid=cid)
        for x in xs:
            res, m = p.verdict(ctx, x)
            ctx.event('large ' + ('valid' if m.valid else 'invalid'))
            for q, v in sig_kw(m):
                ctx.event(f"{q[-1]} {'passes' if v else 'fails'}")
            ctx.state(d, 'large', len(str(s)) // 50, len(str(x)) // 20, m.valid)


UNITS = {'large': (large, 4000, 50000), 'nested': (nested, 3000, 60000), 'refs': (refs, 4500, 90000), 'dense': (dense, 13000, 250000)}
