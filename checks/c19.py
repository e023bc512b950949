"""C19: annotation collection vs the reference evaluator."""
import json
from collections import Counter
from lib.genschema import Gen, add_ids
from lib.models import canon, ptr_str, ptr_eval
from lib.refeval import *
from lib.smon import Pair, DRAFTS, catalog, norm_loc
from lib import large as big
from lib.harness import check, short
from lib.tree import plain

RULE = ('annotation-rich random schemas (references, embedded ids, every applicator, 3 drafts) x instances; the complete annotation set of every valid '
        'result (keyword, value, evaluation path, instance and absolute location) compared with the reference evaluator. State: (keyword, path shape)')
ANN = ['title', 'description', 'default', 'deprecated', 'readOnly', 'writeOnly', 'examples', 'format', 'contentMediaType', 'contentEncoding', 'contentSchema']
REQUIRED = {f'annotation {k}': 25 for k in ANN + ['properties', 'patternProperties', 'additionalProperties', 'items', 'prefixItems', 'contains', 'unknown',
                                                 'unevaluatedProperties', 'unevaluatedItems', 'additionalItems']}
REQUIRED.update({f'annotation under {k}': 15 for k in ['allOf', 'anyOf', 'oneOf', 'if', 'then', 'else', 'dependentSchemas', '$ref', '$dynamicRef', 'properties',
                                                      'patternProperties', 'additionalProperties', 'items', 'prefixItems', 'contains', 'propertyNames', 'unevaluatedProperties']})
REQUIRED.update({'valid results': 2000, 'suppressed annotations': 2000, 'filters': 3000, 'large': 1100})
NAMESET = {'properties', 'patternProperties', 'additionalProperties', 'unevaluatedProperties'}


def setup(ctx):
    catalog(ctx)


def norm_ann(kw, val, inst, draft, known):
    """Comparable form of an annotation, or None where the specification leaves
    its presence open (empty sets, null)."""
    if val is None:
        return None
    if not known:
        return ('v', canon(val))
    if kw in NAMESET:
        return ('names', tuple(sorted(val))) if val else None
    if kw == 'dependentSchemas':
        return None
    if kw in ('prefixItems', 'items', 'additionalItems', 'unevaluatedItems'):
        n = len(inst)
        return ('n', n if val is True else val + 1)
    if kw == 'contains':
        if draft == D19:
            return None
        idx = tuple(range(len(inst))) if val is True else tuple(sorted(val))
        return ('idx', idx) if idx else None
    return ('v', canon(val))


def compare(ctx, p, x, res, m):
    d = p.draft
    known = {}
    want = Counter()
    vals = []

    def rec(s):
        if not s.valid:
            return
        for k in s.kws:
            kn = k.key in k.node.dialect.kw
            if k.has_ann and k.valid:
                known[ptr_str(k.path), ptr_str(k.ip)] = kn, k.node.dialect.draft
                a = norm_ann(k.key, k.ann, s.inst, k.node.dialect.draft, kn)
                if a is not None:
                    want[ptr_str(k.path), ptr_str(k.ip), norm_loc(abs_location(s.node, (k.key,))), a] += 1
                    vals.append((k.key, ptr_str(k.ip), a))
                    ctx.event('annotation ' + (k.key if kn else 'unknown'))
                    for q in set(k.path[:-1]) & UNDER:
                        ctx.event('annotation under ' + q)
                    ctx.state(k.key, tuple(q for q in k.path if not q.isdigit())[-4:])
            if k.key != 'not':
                for r in k.subs:
                    rec(r)
    rec(m)
    allk = []

    def total(s):
        for k in s.kws:
            if k.has_ann:
                allk.append(k)
            for r in k.subs:
                total(r)
    total(m)
    ctx.event('suppressed annotations', max(0, len(allk) - sum(want.values())))
    out = res.output('basic')
    got = Counter()
    gotvals = []
    for u in out['annotations']:
        kp, ip = u['keywordLocation'], u['instanceLocation']
        kw = kp.rsplit('/', 1)[-1].replace('~1', '/').replace('~0', '~')
        kn, kd = known.get((kp, ip), (kw in STD[META[d]].kw, d))
        try:
            i = ptr_eval(x, [t.replace('~1', '/').replace('~0', '~') for t in ip.split('/')[1:]])
        except Exception:
            i = ''
        try:
            a = norm_ann(kw, plain(u['annotation']), i, kd, kn)
        except Exception:
            a = ('?', repr(u['annotation']))
        if a is not None:
            got[kp, ip, norm_loc(u['absoluteKeywordLocation']), a] += 1
            gotvals.append((kw, ip, a))
    if got != want:
        check(False, 'annotations differ from the specification', draft=d, schema=json.dumps(p.doc), instance=json.dumps(x),
              missing=list((want - got).elements())[:4], extra=list((got - want).elements())[:4])
    return vals


UNDER = {'allOf', 'anyOf', 'oneOf', 'if', 'then', 'else', 'dependentSchemas', '$ref', '$dynamicRef', '$recursiveRef', 'properties', 'patternProperties',
         'additionalProperties', 'items', 'prefixItems', 'contains', 'propertyNames', 'unevaluatedProperties', 'unevaluatedItems', 'not'}


def filters(ctx, r, p, x, res, m, j):
    """collect_annotations with filters = the matching subset of the tree's
    annotations (as listed by basic output)."""
    units = [(u['keywordLocation'].rsplit('/', 1)[-1].replace('~1', '/').replace('~0', '~'), u['instanceLocation'], canon(plain(u['annotation'])))
             for u in res.output('basic')['annotations']]
    def vals(it):
        return Counter(canon(plain(v)) for v in it)
    check(vals(res.collect_annotations()) == Counter(c for _, _, c in units), 'collect_annotations() differs from basic output', schema=json.dumps(p.doc), instance=json.dumps(x))
    keys = sorted({k for k, _, _ in units} | {'title'})
    from jschon import JSON
    for _ in range(3):
        k = r.choice(keys)
        nodes = [j]
        while nodes[-1].type in ('array', 'object') and len(nodes[-1]) and r.random() < .6:
            n = nodes[-1]
            nodes.append(n[r.randrange(len(n))] if n.type == 'array' else n[r.choice(list(n.keys()))])
        n = nodes[-1]
        pth = str(n.path)
        for kk, nn in ((k, None), (None, n), (k, n)):
            g = vals(res.collect_annotations(nn, kk) if r.random() < .5 else res.collect_annotations(instance=nn, key=kk))
            w = Counter(c for a, b, c in units if (kk is None or a == kk) and (nn is None or b == pth))
            check(g == w, 'filtered annotations differ', key=kk, instance_path=pth if nn is not None else None, got=list(g.elements())[:6], want=list(w.elements())[:6],
                  schema=json.dumps(p.doc), instance=json.dumps(x))
            ctx.event('filters')
        b = res.output('basic', annotations=[k])
        got = Counter((u['keywordLocation'], u['instanceLocation'], canon(plain(u['annotation']))) for u in b['annotations'])
        w = Counter((u['keywordLocation'], u['instanceLocation'], canon(plain(u['annotation']))) for u in res.output('basic')['annotations']
                    if u['keywordLocation'].rsplit('/', 1)[-1].replace('~1', '/').replace('~0', '~') == k)
        check(got == w, 'basic output annotation filter differs', key=k, schema=json.dumps(p.doc), instance=json.dumps(x))


def annotate(ctx, r):
    d = r.choice(DRAFTS)
    g = Gen(r, d, unevaluated=.2, annotations=.75, unknown=.2, bools=.2)
    doc = r.random() < .5
    s = g.document(r.choice([1, 2, 2, 3])) if doc else g.schema(r.choice([1, 2, 3]))
    uri = None if r.random() < .3 else 'https://x.test/dir/s'
    if isinstance(s, dict) and r.random() < .4:
        add_ids(r, s, d, relative=uri is not None)
    run(ctx, r, d, g, s, uri)


def run(ctx, r, d, g, s, uri, n=5):
    from jschon import JSON
    with catalog(ctx).cache() as cid:
        p = Pair(ctx, s, d, uri=uri, cacheid=cid)
        for _ in range(n):
            x = g.instance(s)
            m = None
            try:
                m = p.ev.evaluate(p.node, x)
            except (Infinite, Ambiguous):
                continue
            ctx.store['last'] = (s, x)
            j = JSON(x)
            res = p.js.evaluate(j)
            check(res.valid is m.valid, f'verdict {res.valid}, specification says {m.valid}', draft=d, schema=json.dumps(s), instance=json.dumps(x))
            if not m.valid:
                check(list(res.collect_annotations()) == [], 'an invalid result collects annotations', schema=json.dumps(s), instance=json.dumps(x))
                ctx.event('invalid results')
                continue
            ctx.event('valid results')
            compare(ctx, p, x, res, m)
            if r.random() < .4:
                filters(ctx, r, p, x, res, m, j)
    if m is not None:
        ctx.sample({'draft': d, 'schema': s, 'instance': x, 'annotations': len(annotations(m))})


def focused(ctx, r):
    """Shallow: one applicator, annotations in each branch, both outcomes."""
    d = r.choice(DRAFTS)
    t = [0]

    def leaf():
        t[0] += 1
        s = r.choice([{}, {'type': 'integer'}, {'const': 1}, {'type': 'string'}, {'minimum': 2}, {'required': ['a']}, {'not': {'title': f'n{t[0]}', 'const': 2}}, {'maxLength': 1},
                      {'properties': {'a': {'title': f'p{t[0]}'}}}, {'type': ['array', 'object']}, {'minItems': 1}])
        s = dict(s)
        ak = r.choice(['title', 'description', 'default', 'x-note', 'examples', 'format', 'deprecated'])
        s[ak] = {'examples': [t[0], f'v{t[0]}'], 'deprecated': r.random() < .5}.get(ak, f'v{t[0]}')
        if ak in ('default', 'x-note'):
            s[ak] = r.choice([f'v{t[0]}', t[0], [t[0]], False, 0, {'k': t[0]}])
        if r.random() < .3:
            s['readOnly'] = True
        items = list(s.items())
        r.shuffle(items)
        return dict(items)
    one = lambda: r.choice([leaf(), leaf(), leaf(), True, False])
    s = {}
    pre = 'items' if d == D19 else 'prefixItems'
    rest = 'additionalItems' if d == D19 else 'items'
    for k in r.sample(['allOf', 'anyOf', 'oneOf', 'not', 'if', 'dep', 'props', 'items', 'contains', 'names', 'un', 'plain', 'content'], r.choice([1, 2, 2, 3])):
        if k in ('allOf', 'anyOf', 'oneOf'):
            s[k] = [one() for _ in range(r.choice([1, 2, 3]))]
        elif k == 'not':
            s['not'] = r.choice([leaf(), {'not': leaf()}, {'allOf': [leaf(), leaf()]}, {'anyOf': [leaf(), False]}])
        elif k == 'if':
            s['if'] = one()
            s['then'] = one()
            s['else'] = one()
            if r.random() < .3:
                del s[r.choice(['then', 'else'])]
        elif k == 'dep':
            s['dependentSchemas'] = {n: one() for n in r.sample('abc', r.choice([1, 2]))}
        elif k == 'props':
            if r.random() < .7:
                s['properties'] = {n: one() for n in r.sample('abc', r.choice([1, 2]))}
            if r.random() < .5:
                s['patternProperties'] = {n: one() for n in r.sample(['a', '^b', '.'], r.choice([1, 2]))}
            if r.random() < .6:
                s['additionalProperties'] = one()
        elif k == 'items':
            if r.random() < .7:
                s[pre] = [one() for _ in range(r.choice([1, 2]))]
            if r.random() < .7:
                s[rest] = one()
            if d == D19 and r.random() < .3:
                s['items'] = one()
            elif r.random() < .35:
                s[pre] = [r.choice([True, {'title': 'p'}, {'type': 'integer', 'title': 'p'}])]
                s[rest] = r.choice([True, {'title': 'r'}, {'not': {'const': 3}, 'title': 'r'}])
        elif k == 'contains':
            s['contains'] = one()
            if r.random() < .5:
                s['minContains'] = r.choice([0, 1, 2])
        elif k == 'names':
            s['propertyNames'] = r.choice([{'title': 'pn'}, {'title': 'pn', 'pattern': '^[ab]$'}, True, {'format': 'regex', 'maxLength': 1}])
        elif k == 'un':
            s[r.choice(['unevaluatedItems', 'unevaluatedProperties'])] = one()
        elif k == 'content':
            for c in r.sample(['contentMediaType', 'contentEncoding', 'contentSchema'], r.choice([1, 2, 3])):
                s[c] = {'contentMediaType': 'text/x', 'contentEncoding': 'base64', 'contentSchema': {'title': 'cs'}}[c]
        else:
            l = leaf()
            for a, b in l.items():
                s.setdefault(a, b)
    if r.random() < .3:
        s = {'$defs': {'x': s}, '$ref': '#/$defs/x', 'title': 'outer'}
    elif r.random() < .3:
        s = {r.choice(['items', 'additionalProperties', 'contains', 'not']): s, 'description': 'outer'}
    s = dict(sorted(s.items(), key=lambda _: r.random()))

    class G:
        def instance(self, _):
            y = r.random()
            v = lambda: r.choice([1, 2, 3, 'a', 'bb', None, {'a': 1}, [1], True, {}])
            if y < .3:
                return v()
            if r.random() < .25:
                pool = r.choice([[True, False], [None], [1, 2, 3], ['a', 'bb'], [{'a': 1}, {}], [[1], []], [1.5]])
                v = lambda: r.choice(pool)
            if y < .65:
                return {n: v() for n in r.sample('abcd', r.choice([0, 1, 2, 3]))}
            return [v() for _ in range(r.choice([0, 1, 2, 3, 4]))]
    run(ctx, r, d, G(), s, None if r.random() < .5 else 'https://x.test/dir/s')


def large(ctx, r):
    d = r.choice(DRAFTS)
    s, xs = big.case(r, d, r.random() < .3)
    it = iter(xs)

    class G:
        def instance(self, _):
            return next(it)
    run(ctx, r, d, G(), s, None if r.random() < .5 else 'https://x.test/dir/s', len(xs))
    ctx.event('large')


UNITS = {'large': (large, 1200, 16000), 'annotate': (annotate, 5000, 80000), 'focused': (focused, 9000, 150000)}
