"""C29: custom keywords, the Result API and the mixins have their documented effect."""
import copy, json, random
from collections import Counter
from lib.models import canon, jtype, ptr_str
from lib.tree import plain, nodes
from lib.harness import check, short

RULE = ('custom keywords whose values are little programs over the Result API (annotate, fail, pass_, noassert, discard, sub-results, sibling, globals, Result subclasses, nested evaluations), placed at '
        'random in schemas with applicators and references; an interpreter of the same programs says which nodes, validities, annotations, errors, calls and sibling/globals observations there must be; '
        'subschema mixins inspected structurally. State: (program shape, placement, outcome)')
REQUIRED = {'valid': 2000, 'invalid': 2000, 'custom nodes': 20000, 'calls': 20000, 'not called: type': 3000, 'not called: static': 500, 'discarded': 2000, 'noassert failed': 1000, 'passed after failing': 1000,
            'sibling found': 400, 'sibling absent': 400, 'sibling of a sub-result': 60, 'globals': 4000, 'nested evaluations': 800, 'cls nodes': 1500, 'mixin schemas': 1500, 'mixin plain values': 500, 'references below mixins': 200,
            'annotations collected': 2000, 'errors collected': 2000, 'dependency order': 500, 'formatters': 2000, 'deep schemas': 20}
META = 'https://json-schema.org/draft/2020-12/schema'
VOC = 'https://json-schema.org/draft/2020-12/vocab/'
TYPES = ('null', 'boolean', 'number', 'string', 'array', 'object')
MIX = {'s': 'Subschema', 'sa': 'ArrayOfSubschemas', 'so': 'ObjectOfSubschemas', 'sm': 'Subschema ArrayOfSubschemas'}
ANY = object()
NPOOL = 24


def setup(ctx):
    from jschon import create_catalog, URI
    from jschon.catalog import Source
    from jschon.output import output_formatter
    st = ctx.store
    docs = st['docs'] = {}

    class Mem(Source):
        def __call__(s, rel):
            return copy.deepcopy(docs['https://c29.test/' + rel])
    cat = st['cat'] = create_catalog('2020-12', name='c29')
    cat.add_uri_source(URI('https://c29.test/'), Mem())
    st['pool'] = {}
    st['log'] = []
    st['fmt'] = []

    @output_formatter('c29-format')
    def fmt(*args, **kwargs):
        st['fmt'].append((args, kwargs))
        return st['ret']


def vocabulary(ctx, n):
    """the n-th set of custom keywords -> (metaschema uri, {key: spec})"""
    st = ctx.store
    if n in st['pool']:
        return st['pool'][n]
    from jschon import URI
    from jschon.jsonschema import Result
    from jschon import vocabulary as V
    r = random.Random(f'c29|vocabulary|{n}')
    specs = {}
    keys = ['p0', 'p1', 'p2', 'p3', 'p4', 'p5'][:r.choice([3, 4, 5, 6])]
    for i, k in enumerate(keys):
        deps = tuple(r.sample(keys[:i], r.randint(0, min(2, i)))) if r.random() < .6 else ()
        x = r.random()
        types = None if x < .5 else tuple(r.sample(TYPES, r.choice([1, 1, 2, 3]))) if x < .95 else ()
        specs[k] = dict(kind='prog', types=types, static=r.random() < .1, deps=deps)
    for k, m in MIX.items():
        specs[k] = dict(kind=k, types=None if r.random() < .6 else tuple(r.sample(TYPES, 3)), static=False, deps=tuple(r.sample(keys, 1)) if r.random() < .3 else ())

    class Sub(Result):
        pass
    st['Sub'] = st.get('Sub') or Sub
    Sub = st['Sub']

    def interp(self, ops, instance, result, key):
        for op in ops:
            o = op[0]
            if o == 'annotate':
                result.annotate(copy.deepcopy(op[1]))
            elif o == 'fail':
                result.fail(*copy.deepcopy(op[1:]))
            elif o == 'pass':
                result.pass_()
            elif o == 'noassert':
                result.noassert()
            elif o == 'discard':
                result.discard()
            elif o == 'sub':
                with result(instance, op[1]) as sub:
                    interp(self, op[2], instance, sub, key)
            elif o == 'cls':
                with result(instance, op[1], cls=Sub) as sub:
                    interp(self, op[2], instance, sub, key)
            elif o == 'item':
                if instance.type in ('array', 'object'):
                    for i, item in enumerate(instance) if instance.type == 'array' else list(instance.items()):
                        with result(item, f'i{i}', self.parentschema) as sub:
                            interp(self, op[1], item, sub, key)
            elif o == 'count':
                g = result.globals
                g[op[1]] = g.get(op[1], 0) + 1
                st['log'].append(('count', op[1], g[op[1]], id(g)))
            elif o == 'sibling':
                if result.key == op[1]:
                    continue
                s = result.sibling(instance, op[1])
                st['log'].append(('sibling', str(result.path), str(instance.path), op[1], None if s is None else (s.valid, plain(s.annotation), plain(s.error), str(s.path), str(s.instance.path))))
            elif o == 'nest':
                log, st['log'] = st['log'], []
                try:
                    got = st['inner'].evaluate(instance)
                    st['nested'].append((got.valid, st['log']))
                finally:
                    st['log'] = log

    def mk(k, sp):
        bases = (V.Keyword,) + tuple(getattr(V, b) for b in MIX.get(k, '').split())

        def evaluate(self, instance, result):
            st['log'].append(('call', k, str(result.path), str(instance.path), instance.type))
            st['seen'].append((self, instance, result))
            v = self.json
            if sp['kind'] == 'prog':
                interp(self, v.value, instance, result, k)
            elif k in ('s', 'sm') and isinstance(v, st['JSONSchema']):
                v.evaluate(instance, result)
            elif k in ('sa', 'sm') and v.type == 'array':
                bad = []
                for i, s in enumerate(v):
                    with result(instance, str(i), cls=Sub) as sub:
                        if not s.evaluate(instance, sub).passed:
                            bad.append(i)
                if bad:
                    result.fail(bad)
            elif k == 'so' and v.type == 'object':
                bad = []
                for name, s in v.items():
                    with result(instance, name) as sub:
                        s.evaluate(instance, sub)
                        if not sub.passed:
                            bad.append(name)
                if bad:
                    result.fail(bad)
            else:
                result.annotate(v.value)
        d = dict(key=k, evaluate=evaluate)
        if sp['types'] is not None:
            d['instance_types'] = sp['types']
        if sp['static']:
            d['static'] = True
        if sp['deps']:
            d['depends_on'] = sp['deps']
        if r.random() < .5:      # through a common base class
            b = {a: d.pop(a) for a in list(d) if r.random() < .5}
            return type('Custom' + k.upper(), (type('Base', bases, b),), d)
        return type('Custom' + k.upper(), bases, d)
    from jschon import JSONSchema
    st['JSONSchema'] = JSONSchema
    cat = st['cat']
    vu, mu = f'https://c29.test/vocab/{n}', f'https://c29.test/meta/{n}'
    cat.create_vocabulary(URI(vu), *[mk(k, sp) for k, sp in specs.items()])
    st['docs'][mu] = {'$schema': META, '$id': mu, '$vocabulary': {**{VOC + v: True for v in ('core', 'applicator', 'validation', 'meta-data')}, vu: True},
                      '$dynamicAnchor': 'meta', 'allOf': [{'$ref': META}]}
    st['pool'][n] = mu, specs
    return mu, specs


# ---------------------------------------------------------------- generation

def prog(r, specs, k, depth=2, outer=()):
    ops = []
    val = lambda: r.choice([0, 1, '', 'x', False, True, [], {}, [1, {'a': None}], {'k': [0]}, 2.5, -1])
    used = set()
    for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4, 5])):
        o = r.choice(['annotate', 'annotate', 'fail', 'fail', 'pass', 'noassert', 'discard', 'sub', 'cls', 'item', 'count', 'count', 'sibling', 'nest'])
        if o == 'discard' and r.random() < .4:
            o = 'annotate'
        if o == 'annotate':
            ops.append([o, val()])
        elif o == 'fail':
            ops.append([o] + ([val()] if r.random() < .8 else []))
        elif o in ('pass', 'noassert', 'discard'):
            ops.append([o])
        elif o in ('sub', 'cls') and depth:
            key = r.choice(['0', 'a', 'a/b', '', '~', 'é', 'q', 'p0'])
            if key not in used:
                used.add(key)
                ops.append([o, key, prog(r, specs, k, depth - 1, sorted(used - {key}))])
        elif o == 'item' and depth and 'item' not in used:
            used.add('item')
            ops.append([o, prog(r, specs, k, depth - 1)])
        elif o == 'count':
            ops.append([o, r.choice(['a', 'b'])])
        elif o == 'sibling' and depth == 2 and specs[k]['deps']:
            ops.append([o, r.choice(specs[k]['deps'])])
        elif o == 'sibling' and depth < 2:
            ops.append([o, r.choice(outer) if outer and r.random() < .7 else r.choice(['0', 'a', 'a/b', '', '~', 'é', 'q', 'p0', 'i0', 'ia'])])
        elif o == 'nest' and r.random() < .3:
            ops.append([o])
    return ops


def schema(r, specs, depth, path=''):
    if r.random() < .08:
        return r.choice([True, True, False])
    s = {}
    progs = [k for k, sp in specs.items() if sp['kind'] == 'prog']
    for k in r.sample(progs, r.choice([0, 1, 1, 2, 3]) if len(progs) > 2 else 1):
        s[k] = prog(r, specs, k)
        for dep in specs[k]['deps']:
            if r.random() < .7:
                s[dep] = prog(r, specs, dep)
    if depth:
        sub = lambda: schema(r, specs, depth - 1)
        for k in r.sample(['allOf', 'anyOf', 'properties', 'items', 'if', '$ref', 's', 'sa', 'so', 'sm'], r.choice([1, 1, 2, 3])):
            if k in ('allOf', 'anyOf'):
                s[k] = [sub() for _ in range(r.choice([1, 2, 3]))]
            elif k == 'properties':
                s[k] = {n: sub() for n in r.sample(['a', 'b', 'x', ''], r.choice([1, 2]))}
            elif k == 'items':
                s[k] = sub()
            elif k == 'if':
                s['if'] = sub()
                for t in ('then', 'else'):
                    if r.random() < .6:
                        s[t] = sub()
            elif k == '$ref':
                s[k] = '#/$defs/' + r.choice('tu')
            else:
                shape = {'s': 'o', 'sa': 'a', 'so': 'm', 'sm': r.choice('oa')}[k]
                if r.random() < .2:
                    s[k] = r.choice([None, 1, 'x', 1.5, ''] + ([[1], []] if shape == 'o' and k == 's' else []) + ([{'not': 1}, True] if k == 'sa' else [False, [{}]] if k == 'so' else []))
                else:
                    s[k] = sub() if shape == 'o' else [sub() for _ in range(r.choice([1, 1, 2]))] if shape == 'a' else {n: sub() for n in r.sample(['a', '/', 'é'], r.choice([1, 2]))}
    its = list(s.items())
    r.shuffle(its)
    return dict(its)


# --------------------------------------------------------------------- model

class N:
    def __init__(n, path, ip, custom=None, cls=False):
        n.path, n.ip, n.custom, n.cls = path, ip, custom, cls
        n.valid = n.asrt = True
        n.disc = False
        n.ann = n.err = None
        n.kids = []

    passed = property(lambda n: n.valid or not n.asrt)

    def kid(n, c):
        n.kids.append(c)
        return c


class Model:
    def __init__(m, root, specs, inner):
        m.root, m.specs, m.inner = root, specs, inner
        m.calls, m.counts, m.siblings, m.nested = Counter(), Counter(), [], []
        m.skipped, m.inner_siblings = Counter(), Counter()

    def run(m, x):
        n = N((), ())
        m.schema(m.root, x, n)
        return n

    def schema(m, s, x, n):
        """evaluate s on node n"""
        if s is True:
            return n
        if s is False:
            n.valid, n.err = False, ANY
            return n
        done = {}
        t = jtype(x)
        new = []
        order = [k for k in s if k not in m.specs]
        # dependencies among the custom keywords
        rest = [k for k in s if k in m.specs]
        while rest:
            for k in rest:
                if not any(d in rest for d in m.specs[k]['deps']):
                    order.append(k)
                    rest.remove(k)
                    break
        for k in order:
            if k in ('$defs', '$schema', '$id', 'then', 'else'):
                continue
            c = m.keyword(s, k, x, t, n, done)
            if c is not None and not c.disc:
                done[k] = c
                new.append(c)
            if k == 'if':
                b = 'then' if c.valid else 'else'
                if b in s:
                    d = N(n.path + (b,), n.ip, cls=n.cls)
                    m.schema(s[b], x, d)
                    new.append(d)
        n.kids += new
        if any(not c.passed and c.ip == n.ip for c in n.kids):
            n.valid, n.err = False, None
        return n

    def keyword(m, s, k, x, t, n, done):
        v = s[k]
        if k not in m.specs:
            if k == 'properties' and t != 'object' or k == 'items' and t != 'array':
                return None
            c = N(n.path + (k,), n.ip, cls=n.cls)
            if k in ('allOf', 'anyOf'):
                oks = []
                for i, sub in enumerate(v):
                    oks.append(m.schema(sub, x, c.kid(N(c.path + (str(i),), n.ip, cls=n.cls))).passed)
                if not (all if k == 'allOf' else any)(oks):
                    c.valid, c.err = False, ANY
            elif k == 'properties':
                bad = False
                for name, y in x.items():
                    if name in v:
                        bad |= not m.schema(v[name], y, c.kid(N(c.path + (name,), n.ip + (name,), cls=n.cls))).passed
                if bad:
                    c.valid, c.err = False, ANY
            elif k == 'items':
                bad = False
                for i, y in enumerate(x):
                    d = N(c.path, n.ip + (str(i),), cls=n.cls)
                    m.schema(v, y, d)
                    c.kids += d.kids
                    bad |= not d.passed
                if bad:
                    c.valid, c.err = False, ANY
            elif k == 'if':
                m.schema(v, x, c)
                c.asrt = False
            elif k == '$ref':
                m.schema(m.root['$defs'][v[-1]], x, c)
            return c
        sp = m.specs[k]
        if sp['static']:
            m.skipped['static'] += 1
            return None
        if sp['types'] is not None and t not in sp['types']:
            m.skipped['type'] += 1
            return None
        c = N(n.path + (k,), n.ip, custom=k, cls=n.cls)
        m.calls[k, ptr_str(c.path), ptr_str(c.ip), t] += 1
        if sp['kind'] == 'prog':
            m.prog(v, x, c, k, s, done)
        elif k in ('s', 'sm') and isinstance(v, (bool, dict)):
            m.schema(v, x, c)
        elif k in ('sa', 'sm') and isinstance(v, list):
            bad = []
            for i, sub in enumerate(v):
                if not m.schema(sub, x, c.kid(N(c.path + (str(i),), n.ip, cls=True))).passed:
                    bad.append(i)
            if bad:
                c.valid, c.err = False, bad
        elif k == 'so' and isinstance(v, dict):
            bad = []
            for name, sub in v.items():
                if not m.schema(sub, x, c.kid(N(c.path + (name,), n.ip, cls=n.cls))).passed:
                    bad.append(name)
            if bad:
                c.valid, c.err = False, bad
        else:
            c.ann = v
        return c

    def prog(m, ops, x, n, k, s, done, outer=None):
        for op in ops:
            o = op[0]
            if o == 'annotate':
                n.ann = op[1]
            elif o == 'fail':
                n.valid, n.err = False, op[1] if len(op) > 1 else None
            elif o == 'pass':
                n.was = not n.valid
                n.valid, n.err = True, None
            elif o == 'noassert':
                n.asrt = False
            elif o == 'discard':
                n.disc = True
            elif o in ('sub', 'cls'):
                c = N(n.path + (op[1],), n.ip, custom=k, cls=n.cls or o == 'cls')
                m.prog(op[2], x, c, k, s, done, n)
                if not c.disc:
                    n.kids.append(c)
            elif o == 'item':
                if isinstance(x, (list, dict)):
                    for i, y in enumerate(x) if isinstance(x, list) else x.items():
                        c = N(n.path + (f'i{i}',), n.ip + (str(i),), custom=k, cls=n.cls)
                        m.prog(op[1], y, c, k, s, done, n)
                        if not c.disc:
                            n.kids.append(c)
            elif o == 'count':
                m.counts[op[1]] += 1
            elif o == 'sibling':
                if outer is None:
                    c = done.get(op[1])
                elif n.path[-1] == op[1]:
                    continue        # itself
                else:
                    c = next((c for c in outer.kids if c.path[-1] == op[1] and c.ip == n.ip), None)
                    m.inner_siblings[c is not None] += 1
                m.siblings.append((ptr_str(n.path), ptr_str(n.ip), op[1], None if c is None else (c.valid, c.ann, c.err, ptr_str(c.path), ptr_str(c.ip))))
            elif o == 'nest':
                q = Model(m.inner, m.specs, None)
                m.nested.append((q.run(x).valid, q.counts))


def flat(n, chain=True, out=None, v=None):
    out = [] if out is None else out
    for c in n.kids:
        out.append((c, chain and c.valid is v))
        flat(c, chain and c.valid is v, out, v)
    return out


# ---------------------------------------------------------------- the check

def cv(v):
    return canon(plain(v)) if v is not None else None


def structure(ctx, js, doc, base, path, specs, uri, cid):
    """schema objects at the right places, below mixins too"""
    from jschon import JSONSchema, JSON, URI
    if not isinstance(doc, dict):
        return
    for k, v in doc.items():
        if k in ('$id', '$schema'):
            continue
        node = js[k]
        info = dict(schema=json.dumps(base), at=ptr_str(path + (k,)))
        kw = js.keywords[k]
        check(kw.json is node and kw.parentschema is js and kw.key == k, 'keyword object attributes', **info)
        check(node.parent is js and node.key == k and tuple(node.path) == path + (k,) and cv(node.value) == cv(v), 'keyword value node', **info)

        def sub(n, d, p):
            check(isinstance(n, JSONSchema), 'a subschema is not a JSONSchema', node=ptr_str(p), **info)
            check(tuple(n.path) == p and n.parentschema is js and n.metaschema is js.metaschema, 'links of a subschema', node=ptr_str(p), **info)
            cu = n.canonical_uri
            check(ctx.store['cat'].get_schema(cu, cacheid=cid) is n, 'a subschema is not found by its canonical URI', uri=str(cu), **info)
            structure(ctx, n, d, base, p, specs, uri, cid)
            if k in MIX:
                ctx.event('mixin schemas')
                if isinstance(d, dict) and '$ref' in d:
                    ctx.event('references below mixins')
        if k in ('allOf', 'anyOf') or k in ('sa', 'sm') and isinstance(v, list):
            check(type(node) is JSON and node.type == 'array', 'value of an array of subschemas', **info)
            for i, d in enumerate(v):
                sub(node[i], d, path + (k, str(i)))
        elif k in ('properties', '$defs') or k == 'so' and isinstance(v, dict):
            check(type(node) is JSON and node.type == 'object', 'value of an object of subschemas', **info)
            for n, d in v.items():
                sub(node[n], d, path + (k, n))
        elif k in ('items', 'if', 'then', 'else') or k in ('s', 'sm') and isinstance(v, (bool, dict)):
            sub(node, v, path + (k,))
        else:
            check(type(node) is JSON, 'a value that is not of the shape of the mixin became a schema', **info)
            if k in MIX:
                ctx.event('mixin plain values')


def run(ctx, r):
    from jschon import JSON, JSONSchema, URI
    st = ctx.store
    mu, specs = vocabulary(ctx, r.randrange(NPOOL))
    cat = st['cat']
    doc = schema(r, specs, r.choice([0, 1, 1, 2, 2]))
    if not isinstance(doc, dict):
        return
    doc['$defs'] = {'t': schema(r, specs, 0), 'u': schema(r, specs, 1)}

    def noref(s):
        """references only from outside $defs, so that nothing recurses"""
        if isinstance(s, dict):
            if isinstance(s.get('$ref'), str):
                s.pop('$ref')
            for v in s.values():
                noref(v)
        elif isinstance(s, list):
            for v in s:
                noref(v)
    noref(doc['$defs'])
    if r.random() < .03:        # deep
        defs = doc.pop('$defs')
        for _ in range(r.choice([8, 14, 22])):
            doc = {'allOf': [doc]} if r.random() < .5 else {'anyOf': [True, doc]}
        doc['$defs'] = defs
        ctx.event('deep schemas')
    inner = schema(r, {k: {**sp, 'kind': sp['kind']} for k, sp in specs.items()}, 0)

    def nonest(ops):
        return [[nonest(e) if isinstance(e, list) and e and isinstance(e[0], list) else e for e in op] for op in ops if op[0] != 'nest']
    if isinstance(inner, dict):
        inner = {k: nonest(v) if k in specs and specs[k]['kind'] == 'prog' else v for k, v in inner.items()}
    st['last'] = doc
    with cat.cache() as cid:
        how = r.choice(['arg', '$schema'])
        kw = dict(catalog=cat, cacheid=cid)
        d = copy.deepcopy(doc)
        if how == 'arg':
            kw['metaschema_uri'] = URI(mu)
        else:
            d = {'$schema': mu, **d}
        uri = r.choice([None, 'https://x.test/s'])
        if uri:
            kw['uri'] = URI(uri)
        js = JSONSchema(d, **kw)
        st['inner'] = JSONSchema(copy.deepcopy(inner), catalog=cat, cacheid=cid, metaschema_uri=URI(mu))
        structure(ctx, js, d, d, (), specs, uri, cid)
        for _ in range(5):
            x = r.choice([None, True, 0, 1.5, '', 'abc', [], {}, [1, 'a'], [[], {}], {'a': 1}, {'a': {'a': 'x'}, 'b': [1]}, {'': 0, 'x': None, 'a': [{'b': True}, 'q']}, [{'a': 1}, {'a': 'x'}, 2]])
            one(ctx, r, js, doc, specs, inner, x, mu)


def one(ctx, r, js, doc, specs, inner, x, mu):
    from jschon import JSON
    st = ctx.store
    info = dict(schema=json.dumps(doc), instance=json.dumps(x), metaschema=mu, keywords={k: {a: b for a, b in v.items() if b} for k, v in specs.items()})
    st['log'], st['seen'], st['nested'] = [], [], []
    st['last'] = (doc, x)
    j = JSON(copy.deepcopy(x))
    res = js.evaluate(j)
    log = st['log']
    m = Model(doc, specs, inner)
    root = m.run(x)
    check(res.valid is root.valid, f'verdict {res.valid}, the programs say {root.valid}', **info)
    ctx.event('valid' if root.valid else 'invalid')
    # calls
    got = Counter(e[1:] for e in log if e[0] == 'call')
    check(got == m.calls, 'keywords were not evaluated exactly once where they apply', missing=list((m.calls - got).elements())[:3], extra=list((got - m.calls).elements())[:3], **info)
    ctx.event('calls', sum(got.values()))
    for k, c in m.skipped.items():
        ctx.event('not called: ' + k, c)
    # dependencies
    pos = {}
    for i, e in enumerate(log):
        if e[0] == 'call':
            p, _, k = e[2].rpartition('/')
            pos[p, e[3], k] = i
    for (p, ip, k), i in pos.items():
        for d in specs[k]['deps']:
            if (p, ip, d) in pos:
                check(pos[p, ip, d] < i, 'a keyword was evaluated before one it depends on', keyword=k, on=d, at=p, **info)
                ctx.event('dependency order')
    # globals
    cs = [e for e in log if e[0] == 'count']
    check(len({e[3] for e in cs}) <= 1, 'globals is not one object per evaluation', **info)
    for name in ('a', 'b'):
        check([e[2] for e in cs if e[1] == name] == list(range(1, m.counts[name] + 1)), 'globals do not accumulate over the evaluation', name=name, got=[e[2] for e in cs if e[1] == name], want=m.counts[name], **info)
        ctx.event('globals', m.counts[name])
    # nested evaluations have globals and results of their own
    def nsig(v, counts):
        return v, tuple(sorted((k, c) for k, c in counts.items() if c))
    gn = Counter(nsig(v, Counter(e[1] for e in lg if e[0] == 'count')) for v, lg in st['nested'])
    check(all([e[2] for e in lg if e[0] == 'count' and e[1] == n] == list(range(1, 1 + sum(e[0] == 'count' and e[1] == n for e in lg))) for _, lg in st['nested'] for n in 'ab'),
          'globals of a nested evaluation are not fresh', **info)
    check(gn == Counter(nsig(v, c) for v, c in m.nested), 'nested evaluations differ', got=list(gn.items()), want=m.nested, **info)
    ctx.event('nested evaluations', len(m.nested))
    # siblings
    c5 = lambda e: (e[0], e[1], e[2], None if e[3] is None else (e[3][0], cv(e[3][1]), cv(e[3][2]), e[3][3], e[3][4]))
    gs = Counter(c5(e[1:]) for e in log if e[0] == 'sibling')
    ws = Counter(c5(e) for e in m.siblings)
    check(gs == ws, 'sibling() observations differ', missing=list((ws - gs).elements())[:3], extra=list((gs - ws).elements())[:3], **info)
    for e in m.siblings:
        ctx.event('sibling absent' if e[3] is None else 'sibling found')
    ctx.event('sibling of a sub-result', m.inner_siblings[True])
    # what the keyword saw
    for self, inst, result in st['seen']:
        p = str(result.path)
        check(result.key == self.key and result.schema is self.parentschema and inst is result.instance, 'arguments of Keyword.evaluate', at=p, **info)
        check(result.schema_node is self.json, 'schema_node is not the value of the keyword', at=p, **info)
        y = j
        for t in inst.path:
            y = y[int(t)] if y.type == 'array' else y[t]
        check(inst is y, 'the instance given to a keyword is not a node of the document', at=p, **info)
    # nodes
    tree = {}
    for n, chain in nodes(res):
        key = str(n.path), str(n.instance.path)
        check(key not in tree, 'two nodes for one path and instance', node=key, **info)
        tree[key] = n, chain
    want = flat(root, True, None, root.valid)
    wk = {}
    for n, chain in want:
        if n.custom:
            wk[ptr_str(n.path), ptr_str(n.ip)] = n, chain
    gk = {k for k in tree if any(t in specs for t in k[0].split('/')[-1:]) or k in wk}
    # a custom node's descendants made by its program
    check(gk >= set(wk), 'nodes of custom keywords are missing from the result', missing=sorted(set(wk) - gk)[:3], **info)
    check(gk <= set(wk), 'the result has nodes that custom keywords discarded or never opened', extra=sorted(gk - set(wk))[:3], **info)
    Sub = st['Sub']
    for key, (n, chain) in wk.items():
        g, gchain = tree[key]
        check(g.valid is n.valid, f'node valid is {g.valid}, the program says {n.valid}', node=key, **info)
        check(g.passed is n.passed, f'node passed is {g.passed}, the program says {n.passed}', node=key, **info)
        check(cv(g.annotation) == cv(n.ann) and json.dumps(plain(g.annotation)) == json.dumps(n.ann), 'annotation of a node', node=key, got=short(g.annotation), want=n.ann, **info)
        if n.err is not ANY:
            check(cv(g.error) == cv(n.err), 'error of a node', node=key, got=short(g.error), want=n.err, **info)
        check(isinstance(g, Sub) is n.cls, 'Result class of a node', node=key, got=type(g).__name__, want='Sub' if n.cls else 'Result', **info)
        ctx.event('custom nodes')
        if n.cls:
            ctx.event('cls nodes')
        if not n.valid and not n.asrt:
            ctx.event('noassert failed')
        if getattr(n, 'was', False):
            ctx.event('passed after failing')
    ctx.event('discarded', json.dumps(doc).count('"discard"'))
    # collection
    keys = list(specs)
    for k in keys + [None]:
        if root.valid:
            w = Counter(cv(n.ann) for n, chain in wk.values() if chain and n.ann is not None and (k is None or n.path[-1] == k))
            g = Counter(cv(a) for a in res.collect_annotations(key=k)) if k is not None else None
        else:
            if any(n.err is ANY for n, c in want):
                pass
            w = Counter(cv(n.err) for n, chain in wk.values() if chain and n.err is not None and n.err is not ANY and (k is None or n.path[-1] == k))
            g = Counter(cv(a) for a in res.collect_errors(key=k)) if k is not None else None
        if g is None:
            b = res.output('basic')
            f = 'annotation' if root.valid else 'error'
            g = Counter((u['keywordLocation'], u['instanceLocation'], cv(u[f])) for u in b[f + 's'] if (u['keywordLocation'], u['instanceLocation']) in wk and wk[u['keywordLocation'], u['instanceLocation']][0].err is not ANY)
            w = Counter((ptr_str(n.path), ptr_str(n.ip), cv(n.ann if root.valid else n.err)) for n, chain in wk.values() if chain and (n.ann if root.valid else n.err) not in (None, ANY))
        elif any(n.err is ANY and n.path[-1:] == (k,) for n, c in want):
            continue
        check(g == w, ('annotations' if root.valid else 'errors') + ' collected differ from those of the programs', key=k, missing=list((w - g).elements())[:3], extra=list((g - w).elements())[:3], **info)
        ctx.event('annotations collected' if root.valid else 'errors collected', sum(w.values()))
    # formatter
    st['fmt'].clear()
    st['ret'] = [r.random()]
    kw = r.choice([{}, {'a': 1}, {'annotations': ['x'], 'b': None}])
    check(res.output('c29-format', **kw) is st['ret'] and len(st['fmt']) == 1 and st['fmt'][0][0] == (res,) and st['fmt'][0][1] == kw, 'a registered output formatter was not given the result and arguments', calls=short(st['fmt']), **info)
    ctx.event('formatters')
    ctx.state(root.valid, tuple(sorted((n.custom, len(n.path), n.valid, n.asrt, n.cls) for n, _ in wk.values()))[:6])
    ctx.sample({'schema': doc, 'instance': x, 'valid': root.valid, 'custom nodes': len(wk)})


UNITS = {'run': (run, 12000, 80000)}
