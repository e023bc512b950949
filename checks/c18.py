"""C18: dynamic scope."""
import copy, json
from collections import Counter
from lib.models import canon, ptr_str, uri_resolve
from lib.refeval import *
from lib.smon import DRAFTS, catalog, norm_loc
from lib.harness import check, short

RULE = ('systems of up to 6 extensible resources (separate or embedded documents) with dynamic anchors, equally named plain anchors and missing ones, connected by static and dynamic references; every '
        'resource and subschema used as entry point in any order, repeatedly, also after the cache is gone or its URIs are reused; verdicts and the exact schemas applied judged by the reference evaluator. '
        'State: (reference kind, initial target, resolved to initial/outer/outermost, scope depth, entry)')
REQUIRED = {'dynamicRef': 8000, 'recursiveRef': 2000, 'dynamic: moved': 3000, 'dynamic: stays': 1500, 'dynamic: static target': 500, 'recursive: moved': 400, 'recursive: no anchor': 300,
            'entry subschema': 1500, 'same reference, different targets': 700, 'repeated evaluation': 2500, 'after cache exit': 1500, 'after URI reuse': 800, 'scope over 3 resources': 600,
            'recursion into instance': 1500, 'valid': 3000, 'invalid': 3000, 'loaded by reference': 500, 'name skips a resource': 300, 'tree idiom': 500, 'plain anchor beside a dynamic one': 100, 'documents without $id': 800, 'large: valid': 200, 'large: invalid': 150}
NAMES = ['n', 'n', 'm', 'node']


def setup(ctx):
    from jschon.catalog import Source
    from jschon import URI
    store = ctx.store['docs'] = {}

    class Mem(Source):
        def __call__(s, rel):
            ctx.store['loads'].append(rel)
            return copy.deepcopy(store['https://x.test/' + rel])
    ctx.store['loads'] = []
    catalog(ctx).add_uri_source(URI('https://x.test/'), Mem())


class Sys:
    def __init__(self, r, d):
        self.r, self.d = r, d
        self.n = r.choice([2, 3, 3, 4, 4, 6])
        self.tag = 0
        self.info = []          # per resource: uri, anchors {name: dynamic?}, defs
        for i in range(self.n):
            self.info.append(dict(uri=r.choice([f'https://x.test/r{i}', f'https://x.test/d/r{i}', f'https://x.test/d/e/r{i}']), anchors={}, defs=[], emb=None))
        for i, f in enumerate(self.info):
            if i and r.random() < .35:
                f['emb'] = r.randrange(i)
            for k in r.sample(['x', 'y'], r.choice([0, 1, 1, 2])):
                f['defs'].append(k)
            if d == D19:
                f['rec'] = r.choice([True, True, True, False, None])
                for k in f['defs']:
                    if r.random() < .4:
                        f['anchors'].setdefault('n' + k, (k, False))
                continue
            if r.random() < .7:
                f['anchors'][r.choice(NAMES)] = ('', r.random() < .85)
            for k in f['defs']:
                nm = r.choice(NAMES)
                if nm not in f['anchors'] and r.random() < .85:
                    f['anchors'][nm] = (k, r.random() < .8)
            for nm, (k, dyn) in list(f['anchors'].items()):
                # one schema carrying both kinds of anchor
                o = r.choice(NAMES)
                if o not in f['anchors'] and r.random() < .35:
                    f['anchors'][o] = (k, not dyn)
        self.order = list(range(self.n))

    def title(self, s):
        self.tag += 1
        s['title'] = f't{self.tag}'
        return s

    def ref(self, i):
        """a reference keyword set from resource i"""
        r, d = self.r, self.d
        f = self.info[i]
        x = r.random()
        if d == D19:
            if x < .45:
                return {'$recursiveRef': '#'}
        elif x < .55:
            t = r.choice(self.info) if r.random() < .35 else f
            if t['anchors'] and r.random() < .92:
                a = r.choice(sorted(t['anchors']))
                return {'$dynamicRef': self.rel(t, f) + '#' + a}
            t = r.choice(self.info)
            if t['defs'] and r.random() < .5:
                return {'$dynamicRef': self.rel(t, f) + '#/$defs/' + r.choice(t['defs'])}
            return {'$dynamicRef': self.rel(t, f) or '#'}
        t = r.choice(self.info) if r.random() < .8 else f
        y = r.random()
        if y < .5 or not (t['defs'] or t['anchors']):
            return {'$ref': self.rel(t, f) or '#'}
        if t['anchors'] and y < .75:
            return {'$ref': self.rel(t, f) + '#' + r.choice(sorted(t['anchors']))}
        if t['defs']:
            return {'$ref': self.rel(t, f) + '#/$defs/' + r.choice(t['defs'])}
        return {'$ref': self.rel(t, f) or '#'}

    def rel(self, t, f):
        if t is f:
            return self.r.choice(['', '', t['uri'], t['uri'].rsplit('/', 1)[1]])
        if self.r.random() < .5:
            return t['uri']
        p = t['uri'][len('https://x.test'):]
        return p

    def body(self, i, depth=2):
        r = self.r
        s = self.title({})
        x = r.random()
        if x < .3:
            s['type'] = r.choice(['object', 'string', ['object', 'array'], ['object', 'string'], ['object', 'null'], ['object', 'number', 'boolean'], ['null', 'string', 'object', 'array']])
        elif x < .4:
            s['required'] = [r.choice('abc')]
        elif x < .5:
            s['maxProperties'] = r.choice([1, 2])
        elif x < .58:
            s['enum'] = ['v', 'w', {'a': 'v'}, {}, *r.choice([[], [None, 0, []], [True, '']])]
        for _ in range(r.choice([1, 1, 2])):
            k = r.choice(['properties', 'properties', 'properties', 'items', 'additionalProperties', 'allOf', 'anyOf', 'direct', 'if', 'not', 'unevaluatedProperties', 'patternProperties'])
            leaf = lambda: self.ref(i) if r.random() < .75 or depth <= 0 else self.body(i, depth - 1)
            if k == 'properties':
                s.setdefault(k, {}).update({p: self.leaf2(i, depth) for p in r.sample('abc', r.choice([1, 2]))})
            elif k == 'patternProperties':
                s[k] = {'^[ab]': leaf()}
            elif k in ('items', 'additionalProperties'):
                s[k] = leaf()
            elif k in ('allOf', 'anyOf'):
                s[k] = [leaf() for _ in range(r.choice([1, 2]))]
            elif k == 'if':
                s['if'] = leaf()
                s[r.choice(['then', 'else'])] = leaf()
            elif k == 'not':
                s['not'] = {'required': ['c'], 'properties': {'c': leaf()}}
            elif k == 'unevaluatedProperties':
                s[k] = r.choice([False, {'type': 'string'}])
            else:
                s.update({k: v for k, v in self.ref(i).items()})
        return s

    def leaf2(self, i, depth):
        r = self.r
        if r.random() < .7:
            s = self.ref(i)
            return self.title(s) if r.random() < .3 else s
        return r.choice([{'type': 'string'}, {'type': 'object'}, True, {'const': 'v'}])

    def tree(self, i):
        """the extensible tree idiom"""
        r = self.r
        f = self.info[i]
        if self.d == D19:
            f['rec'] = True
            return self.title({'type': 'object', 'properties': {'a': {'items': {'$recursiveRef': '#'}} if r.random() < .5 else {'$recursiveRef': '#'}, 'b': {'type': 'string'}}})
        nm = 'node'
        f['anchors'][nm] = ('', True)
        return self.title({'type': 'object', 'properties': {'a': {'items': {'$dynamicRef': '#node'}} if r.random() < .5 else {'$dynamicRef': '#node'}, 'b': {'type': 'string'}}})

    def ext(self, i, t):
        r = self.r
        f = self.info[i]
        if self.d == D19:
            f['rec'] = True
        else:
            f['anchors']['node'] = ('', True)
        s = self.title({'$ref': self.rel(self.info[t], f) or '#'})
        s[r.choice(['unevaluatedProperties', 'required', 'maxProperties'])] = None
        for k in list(s):
            if s[k] is None:
                s[k] = {'unevaluatedProperties': False, 'required': ['b'], 'maxProperties': 1}[k]
        return s

    def docs(self):
        r = self.r
        made = []
        self.bare = 0
        idiom = r.random() < .35
        if idiom:
            for f in self.info:
                for k in list(f['anchors']):
                    if f['anchors'][k][0] == '':
                        del f['anchors'][k]
                f['anchors'].pop('node', None)
        self.idiom = idiom
        for i, f in enumerate(self.info):
            if idiom and i == 0:
                s = self.tree(0)
            elif idiom and (i == 1 or r.random() < .6):
                s = self.ext(i, r.randrange(i))
            else:
                s = self.body(i)
            s['$id'] = f['uri']
            if f['defs']:
                s['$defs'] = {k: self.body(i, 1) for k in f['defs']}
            made.append(s)
        for i, f in enumerate(self.info):
            s = made[i]
            for nm, (k, dyn) in f['anchors'].items():
                t = s if k == '' else s['$defs'][k]
                t['$dynamicAnchor' if dyn and self.d != D19 else '$anchor'] = nm
            if self.d == D19 and f['rec'] is not None:
                s['$recursiveAnchor'] = f['rec']
        out = {}
        for i in reversed(range(self.n)):
            f = self.info[i]
            s = made[i]
            items = list(s.items())
            r.shuffle(items)
            made[i] = s = dict(items)
            if all(g['emb'] is None for g in self.info) and r.random() < .4:
                del s['$id']        # identified by its retrieval URI only
                self.bare += 1
            if f['emb'] is not None:
                host = made[f['emb']]
                if r.random() < .3:
                    s['$id'] = self.info[i]['uri'][len('https://x.test'):]
                host.setdefault('$defs', {})[f'emb{i}'] = s
            else:
                out[f['uri']] = s
        return dict(sorted(out.items(), key=lambda _: r.random()))


def instance(r, depth):
    x = r.random()
    if depth <= 0 or x < .18:
        return r.choice(['v', 'w', 'u', {}, 1, 'v', 'w', {}, None, True, False, 0, '', [], 2.5, -3])
    if x < .9:
        return {p: instance(r, depth - 1) for p in r.sample('abc', r.choice([0, 1, 1, 2]))}
    return [instance(r, depth - 1) for _ in range(r.choice([0, 1, 2]))]


def dyn_events(ctx, m, entry, seen):
    """classify every dynamic reference of one reference evaluation"""
    def rec(s, scope):
        scope = scope + (s.node,)
        for k in s.kws:
            if k.key in ('$dynamicRef', '$recursiveRef') and k.key in s.node.dialect.kw and k.target is not None:
                res = []
                for n in scope:
                    if n.root not in res:
                        res.append(n.root)
                init = REG.find(Evaluator.absolute(s.node.value['$dynamicRef'], s.node)) if k.key == '$dynamicRef' else REG.find(s.node.base)
                key = (s.node.curi, k.key)
                seen.setdefault(key, set()).add(k.target.curi)
                if k.key == '$dynamicRef':
                    ctx.event('dynamicRef')
                    f = uri_split(Evaluator.absolute(s.node.value['$dynamicRef'], s.node))[4]
                    dyn = isinstance(init.value, dict) and f and init.value.get('$dynamicAnchor') == f
                    kind = 'static target' if not dyn else 'moved' if k.target is not init else 'stays'
                    ctx.event('dynamic: ' + kind)
                    if f and isinstance(init.value, dict) and init.value.get('$anchor') == f and '$dynamicAnchor' in init.value:
                        ctx.event('plain anchor beside a dynamic one')
                    if dyn and k.target.root is not res[0]:
                        ctx.event('name skips a resource')
                else:
                    ctx.event('recursiveRef')
                    kind = 'no anchor' if init.value.get('$recursiveAnchor') is not True else 'moved' if k.target is not init else 'stays'
                    ctx.event('recursive: ' + kind)
                if len(res) >= 3:
                    ctx.event('scope over 3 resources')
                if k.ip:
                    ctx.event('recursion into instance')
                ctx.state(k.key, kind, min(len(res), 5), entry, k.target.root is res[0], len(k.ip))
            for q in k.subs:
                rec(q, scope)
    REG = ctx.store['reg']
    rec(m, ())


def nav(js, keys):
    for k in keys:
        js = js[int(k)] if js.type == 'array' else js[k]
    return js


def judge(ctx, ev, node, js, x, info, cache):
    from jschon import JSON
    res = js.evaluate(JSON(copy.deepcopy(x)))
    key = (id(node), canon(x))
    m = cache[key]
    check(res.valid is m.valid, f'verdict {res.valid}, specification says {m.valid}', schema=node.curi, instance=json.dumps(x), **info())
    if m.valid:
        want = Counter((a[4], ptr_str(a[1]), ptr_str(a[2]), norm_loc(a[3])) for a in annotations(m) if a[0] == 'title')
        got = Counter((v['annotation'], v['keywordLocation'], v['instanceLocation'], norm_loc(v['absoluteKeywordLocation'])) for v in res.output('basic', annotations=['title'])['annotations'])
        check(got == want, 'the schemas applied differ from the dynamic scope', missing=list((want - got).elements())[:3], extra=list((got - want).elements())[:3], schema=node.curi, instance=json.dumps(x), **info())
    else:
        fails = failing(m)
        want = {(ptr_str(a), ptr_str(b)) for a, b in fails}
        got = {(e['keywordLocation'], e['instanceLocation']) for e in res.output('basic')['errors']}
        check(got <= want, 'an error is reported where the dynamic scope has none', extra=list(got - want)[:3], schema=node.curi, instance=json.dumps(x), **info())
    return m


def systems(ctx, r):
    from jschon import JSONSchema, URI
    d = r.choice([D19, D20, D20, DN])
    S_ = Sys(r, d)
    docs = S_.docs()
    ctx.event('documents without $id', S_.bare)
    ctx.store['docs'].clear()
    ctx.store['docs'].update(docs)
    ctx.store['last'] = docs
    reg = Registry()
    reg.default_meta = META[d]
    roots = {u: reg.add(copy.deepcopy(v), u, META[d]) for u, v in docs.items()}
    ctx.store['reg'] = reg
    ev = Evaluator(reg, max_depth=70)
    cat = catalog(ctx)
    hist = []

    def info():
        return dict(docs=json.dumps(docs), draft=d, history=str(hist[-12:]))
    cache = {}
    done = []
    seen = {}
    try:
        for n in reg.nodes:
            if isinstance(n.value, dict):
                for k in ('$ref', '$dynamicRef'):
                    if k in n.value:
                        reg.find(Evaluator.absolute(n.value[k], n))
    except Unresolvable:
        raise AssertionError('generator made an unresolvable reference: ' + json.dumps(docs))
    with cat.cache() as cid:
        objs = {}
        order = list(docs)
        # documents holding embedded resources must be known before those are referred to
        ctx.store['loads'].clear()
        embedded = any(f['emb'] is not None for f in S_.info)
        if embedded:
            # all in one bundle so that resolution never depends on load order
            bundle = {'$defs': {f'b{i}': copy.deepcopy(v) for i, v in enumerate(docs.values())}}
            reg2 = Registry()
            reg2.default_meta = META[d]
            b = reg2.add(copy.deepcopy(bundle), 'https://x.test/bundle', META[d])
            reg, ev = reg2, Evaluator(reg2, max_depth=70)
            ctx.store['reg'] = reg
            js = JSONSchema(bundle, catalog=cat, cacheid=cid, uri=URI('https://x.test/bundle'), metaschema_uri=URI(META[d]))
            roots = {u: reg.res[u] for u in docs}
            objs = {n: nav(js, n.keys) for n in reg.nodes}
        else:
            for u in order:
                js = cat.get_schema(URI(u), cacheid=cid, metaschema_uri=URI(META[d])) if r.random() < .7 or u in objs else cat.get_schema(URI(u), cacheid=cid, metaschema_uri=URI(META[d]))
                for n in reg.nodes:
                    if n.doc is roots[u]:
                        objs[n] = nav(js, n.keys)
            if len(docs) > 1:
                ctx.event('loaded by reference', len(docs) - 1)
        entries = [n for n in reg.nodes if isinstance(n.value, dict) and (n.uri or r.random() < .4) and n.keys != ('',)]
        for _ in range(r.choice([6, 9, 12])):
            n = r.choice(entries) if r.random() < .4 else roots[r.choice(list(roots))]
            x = instance(r, r.choice([1, 2, 3, 3]))
            key = (id(n), canon(x))
            if key not in cache:
                try:
                    cache[key] = ev.evaluate(n, x)
                except (Infinite, Ambiguous):
                    ctx.event('skipped: infinite or undetermined')
                    continue
            hist.append((n.curi, x))
            m = judge(ctx, ev, n, objs[n], x, info, cache)
            done.append((n, x))
            ctx.event('valid' if m.valid else 'invalid')
            if n.uri is None:
                ctx.event('entry subschema')
            dyn_events(ctx, m, 'root' if n.uri else 'sub', seen)
        for n, x in r.sample(done, min(len(done), 2)):
            judge(ctx, ev, n, objs[n], x, info, cache)
            ctx.event('repeated evaluation')
        if done and r.random() < .3:
            # another document takes over the URIs of this system
            hist.append('uri reuse')
            for u in r.sample(sorted({n.uri for n in reg.nodes if n.uri}), 2 if len(docs) > 1 else 1):
                other = {'$id': u, 'title': 'impostor'}
                if d != D19:
                    other['$defs'] = {'i': {'$dynamicAnchor': r.choice(NAMES), 'title': 'impostor', 'not': True}}
                else:
                    other['$recursiveAnchor'] = True
                    other['not'] = True
                JSONSchema(other, catalog=cat, cacheid=cid, metaschema_uri=URI(META[d]))
            for n, x in r.sample(done, min(len(done), 3)):
                judge(ctx, ev, n, objs[n], x, info, cache)
                ctx.event('after URI reuse')
    hist.append('cache exit')
    for n, x in r.sample(done, min(len(done), 2)):
        judge(ctx, ev, n, objs[n], x, info, cache)
        ctx.event('after cache exit')
    ctx.event('same reference, different targets', sum(1 for v in seen.values() if len(v) > 1))
    if S_.idiom:
        ctx.event('tree idiom')
    ctx.sample({'documents': docs, 'draft': d})


def large(ctx, r):
    import sys
    limit = sys.getrecursionlimit()
    sys.setrecursionlimit(20000)        # the depth itself is not what this unit judges
    try:
        deep(ctx, r)
    finally:
        sys.setrecursionlimit(limit)


def deep(ctx, r):
    """dynamic scopes that are deep, or pass through many resources"""
    from jschon import JSONSchema, URI
    d = r.choice([D19, D20, D20, DN])
    anchor = {'$recursiveAnchor': True} if d == D19 else {'$dynamicAnchor': 'node'}
    back = {'$recursiveRef': '#'} if d == D19 else {'$dynamicRef': r.choice(['#node', 'base#node'])}
    B = 'https://x.test/large/'
    n = r.choice([1, 2, 9, 11, 20, 33])
    hop = r.choice(['$ref', 'allOf', 'properties'])
    first = r.randrange(n + 1)          # the outermost resource that takes part
    defs = {'base': {'$id': 'base', 'title': 'base', **anchor, 'properties': {'c': {'title': 'hop', **back}, 'v': {'type': 'integer'}}, 'items': back}}
    for i in range(n):
        nxt = f'l{i + 1}' if i < n - 1 else 'base'
        o = {'$id': f'l{i}', 'title': f'l{i}'}
        if i >= first and r.random() < .5 or i == first:
            o.update(anchor)
        if hop == 'allOf':
            o['allOf'] = [{'$ref': nxt}]
        elif hop == 'properties' and r.random() < .3:
            o['allOf'] = [True, {'if': {'$ref': nxt}, 'then': {'title': 'then'}, 'else': False}]
        else:
            o['$ref'] = nxt
        if r.random() < .3:
            o['properties'] = {'k': {'const': i}}
        defs[f'l{i}'] = o
    its = list(defs.items())
    r.shuffle(its)
    doc = {'$id': B + 'main', '$defs': dict(its), '$ref': 'l0'}
    if r.random() < .5:
        k, v = r.choice([('unevaluatedProperties', False), ('maxProperties', 1)])
        doc[k] = v
    reg = Registry()
    reg.default_meta = META[d]
    root = reg.add(copy.deepcopy(doc), None, META[d])
    ctx.store['reg'] = reg
    ctx.store['last'] = doc
    ev = Evaluator(reg, max_depth=400, max_steps=20000)
    with catalog(ctx).cache() as cid:
        js = JSONSchema(copy.deepcopy(doc), catalog=catalog(ctx), cacheid=cid, metaschema_uri=URI(META[d]))
        cache = {}
        for _ in range(4):
            x = r.choice([{'v': 1}, {'v': 'x'}, {'k': r.randrange(n + 1)}, 1, {'v': 2, 'k': first}])
            for _ in range(r.choice([1, 3, 9, 17, 30, 45]) if n < 9 else r.choice([0, 1, 3, 5])):
                x = {'c': x, **({'k': r.randrange(n)} if r.random() < .03 else {})} if r.random() < .9 else [x]
            try:
                cache[id(root), canon(x)] = m = ev.evaluate(root, x)
            except (Infinite, Ambiguous):
                ctx.event('skipped: infinite or undetermined')
                continue
            judge(ctx, ev, root, js, x, lambda: dict(doc=json.dumps(doc), draft=d), cache)
            ctx.event('large: ' + ('valid' if m.valid else 'invalid'))
            ctx.state('large', d, n, first, m.valid, len(repr(x)) // 50)


UNITS = {'large': (large, 320, 4000), 'systems': (systems, 11000, 130000)}
