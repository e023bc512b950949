"""C24: vocabularies decide keyword behaviour."""
import copy, json
from checks.c19 import compare
from lib.genschema import Gen, NAMES
from lib.models import canon, jtype, ptr_str
from lib.refeval import *
from lib.smon import DRAFTS
from lib.harness import check, short

RULE = ('random sets of metaschemas (draft x subset of its vocabularies x custom vocabularies x unknown optional ones; created explicitly, on demand or with default vocabularies) in one catalog, and '
        'documents that use and mix them, with keywords of undeclared vocabularies, of other drafts and unknown names holding well-formed and ill-formed values; verdict and annotations judged by the '
        'reference evaluator restricted to the declared keywords; the order of evaluation recorded by custom keywords. State: (draft, declared vocabularies, keyword, outcome)')
REQUIRED = {'valid': 4000, 'invalid': 4000, 'undeclared keyword evaluated': 8000, 'ill-formed undeclared value': 2000, 'custom keyword declared': 3000, 'custom keyword undeclared': 1500,
            'mixed dialects in one document': 1500, 'mixed drafts in one document': 700, 'other document with its own dialect': 300, 'dependency order observed': 4000, 'standard dependency observed': 1500,
            'refused: required vocabulary': 250, 'refused: no core': 150, 'refused: two cores': 80, 'refused: no metaschema': 250, 'refused: schema under refused metaschema': 150,
            'optional unknown vocabulary': 500, 'default vocabularies': 300, 'metaschema on demand': 800, 'metaschema created': 800, '$schema overrides argument': 300, 'inherits from parent': 800,
            'same name, different behaviour': 300, 'static custom keyword': 500, 'standard dialect after custom ones': 600, 'custom subschema keyword': 1200, 'anchor chains': 3000, 'partial vocabularies': 1000}
B = 'https://v.test/'
UNKNOWN = ['x-unknown', 'foo', 'X', '', 'if ', 'Type', 'minimum\n', '$foo', '0', 'a/b', 'é', 'class', '__init__', 'definitions', 'dependencies', 'id', 'key', 'additionalItems', '$recursiveAnchor', '$dynamicAnchor',
           '$recursiveRef', '$dynamicRef', 'prefixItems', 'unevaluatedItems', 'x-min', 'x-tag', 'x-one', 'x-all', 'x-map', 'x-static', 'minimum', 'contains', 'properties', 'not', 'enum', 'const', 'type', 'pattern',
           'required', 'allOf', 'minContains', 'items', 'patternProperties', 'if', 'format', 'title', 'contentSchema', 'multipleOf', 'x-d0', 'x-d1']
JUNK = [None, True, False, 0, -1, 1.5, '', '#', 'x', '[', '#/nowhere', [], {}, [1, None], {'a': 1}, [[]], {'a': {'not': True}}, [False], {'': False}, {'$ref': '#/nowhere'}]


def setup(ctx):
    from jschon import create_catalog, URI
    from jschon.catalog import Source
    from jschon.vocabulary import Keyword, Subschema, ArrayOfSubschemas, ObjectOfSubschemas
    st = ctx.store
    docs = st['docs'] = {}
    bad = st['bad'] = []

    class Mem(Source):
        def __call__(s, rel):
            return copy.deepcopy(docs[B + rel])
    cat = st['cat'] = create_catalog('2019-09', '2020-12', 'next', name='c24')
    cat.add_uri_source(URI(B), Mem())

    def types(self, instance):
        if instance.type not in self.instance_types:
            bad.append(f'{self.key} evaluated against a {instance.type}')

    class Min(Keyword):
        key = 'x-min'
        instance_types = 'number',

        def evaluate(self, instance, result):
            types(self, instance)
            if instance.data < self.json.value:
                result.fail('too small')

    class Max(Keyword):
        key = 'x-min'

        def evaluate(self, instance, result):
            if instance.type == 'number' and instance.data > self.json.value:
                result.fail('too large')

    class Tag(Keyword):
        key = 'x-tag'

        def evaluate(self, instance, result):
            result.annotate(self.json.value)
            result.noassert()

    class TagFail(Keyword):
        key = 'x-tag'
        instance_types = 'string', 'boolean'

        def evaluate(self, instance, result):
            types(self, instance)
            result.fail('tagged')

    class Static(Keyword):
        key = 'x-static'
        static = True

        def evaluate(self, instance, result):
            bad.append('static keyword evaluated')
            result.fail()

    class One(Keyword, Subschema):
        key = 'x-one'
        instance_types = 'array',

        def evaluate(self, instance, result):
            types(self, instance)
            if len(instance):
                if self.json.evaluate(instance[0], result).passed:
                    result.annotate(0)
                else:
                    result.fail('first')

    class All(Keyword, ArrayOfSubschemas):
        key = 'x-all'
        instance_types = 'string', 'number'

        def evaluate(self, instance, result):
            types(self, instance)
            bads = []
            for i, s in enumerate(self.json):
                with result(instance, str(i)) as sub:
                    if not s.evaluate(instance, sub).passed:
                        bads.append(i)
            if bads:
                result.fail(bads)

    class Map(Keyword, ObjectOfSubschemas):
        key = 'x-map'
        instance_types = 'object',

        def evaluate(self, instance, result):
            types(self, instance)
            bads = []
            for name, item in instance.items():
                if name in self.json:
                    with result(item, name) as sub:
                        self.json[name].evaluate(item, sub)
                        if not sub.passed:
                            bads.append(name)
            if bads:
                result.fail(bads)

    class MinLen(Keyword):
        key = 'minimum'
        instance_types = 'string',

        def evaluate(self, instance, result):
            types(self, instance)
            if len(instance.data) < self.json.value:
                result.fail('short')

    class PlainOne(Keyword):
        key = 'x-one'

        def evaluate(self, instance, result):
            result.annotate(1)

    class PlainMap(Keyword):
        key = 'x-map'
        instance_types = 'null', 'string'

        def evaluate(self, instance, result):
            types(self, instance)
            result.fail('never')

    # the same semantics for the reference evaluator
    def only(ts, fn):
        def f(ev, k, val, ctx):
            return fn(ev, k, val, ctx) if ctx[3] in ts else False
        return f

    def setv(fn):
        def f(ev, k, val, ctx):
            k.valid = bool(fn(ctx[2], val))
        return f

    def m_tag(ev, k, val, ctx):
        k.annotate(val)
        k.asserts = False

    def m_sub(ev, k, kk, inst, path, ip, ctx):
        r = ev.ev(ctx[1].kids[kk], inst, path, ip, ctx[5], ctx[6] + 1)
        k.subs.append(r)
        return r.valid

    def m_one(ev, k, val, ctx):
        inst, ip = ctx[2], ctx[4]
        if inst:
            k.valid = m_sub(ev, k, ('x-one',), inst[0], k.path, ip + ('0',), ctx)
            if k.valid:
                k.annotate(0)

    def m_all(ev, k, val, ctx):
        k.valid = all([m_sub(ev, k, ('x-all', str(i)), ctx[2], k.path + (str(i),), ctx[4], ctx) for i in range(len(val))])

    def m_map(ev, k, val, ctx):
        inst = ctx[2]
        k.valid = all([m_sub(ev, k, ('x-map', n), inst[n], k.path + (n,), ctx[4] + (n,), ctx) for n in inst if n in val])

    def m_plain(ev, k, val, ctx):
        k.annotate(1)
    NUM = ('number',)
    st['vocs'] = {
        'num': ((Min, Tag), {'x-min': only(NUM, setv(lambda x, v: x >= v)), 'x-tag': m_tag}, {}),
        'alt': ((Max, TagFail), {'x-min': only(NUM, setv(lambda x, v: x <= v)), 'x-tag': only(('string', 'boolean'), setv(lambda x, v: False))}, {}),
        'sub': ((One, All, Map), {'x-one': only(('array',), m_one), 'x-all': only(('string', 'number'), m_all), 'x-map': only(('object',), m_map)},
                {'x-one': 'single', 'x-all': 'array', 'x-map': 'object'}),
        'plain': ((PlainOne, PlainMap), {'x-one': m_plain, 'x-map': only(('null', 'string'), setv(lambda x, v: False))}, {}),
        'static': ((Static,), {'x-static': lambda *a: False}, {}),
        'over': ((MinLen,), {'minimum': only(('string',), setv(lambda x, v: len(x) >= v))}, {}),
    }
    for n, (ks, _, _) in st['vocs'].items():
        cat.create_vocabulary(URI(B + 'vocab/' + n), *ks)
    st['n'] = 0
    st['log'] = []


STD_DEPS = ['allOf', '$ref', 'title', 'type', 'properties', 'const', 'x-unk', 'anyOf', 'required', 'minimum']


def dep_vocab(ctx, r, uri):
    """keywords with a random acyclic depends_on; each records who is evaluated before it"""
    from jschon import URI
    from jschon.vocabulary import Keyword
    log = ctx.store['log']
    names = [f'x-d{i}' for i in range(r.choice([2, 3, 4, 6]))]
    deps, classes = {}, []
    for i, nm in enumerate(names):
        deps[nm] = tuple(r.sample(names[:i], r.randint(0, min(i, 3))) + r.sample(STD_DEPS, r.choice([0, 0, 1, 2])) + (['x-absent'] if r.random() < .2 else []))
        if r.random() < .3:
            deps[nm] = tuple(reversed(deps[nm]))

        def evaluate(self, instance, result):
            seen = {k: result.sibling(instance, k) is not None for k in self.parentschema.keywords}
            log.append((self.key, self.parentschema, instance, seen))
            result.annotate(self.key)
        classes.append(type('Dep' + nm[2:], (Keyword,), {'key': nm, 'depends_on': deps[nm], 'evaluate': evaluate}))
    order = list(classes)
    r.shuffle(order)
    ctx.store['cat'].create_vocabulary(URI(uri), *order)

    def m(ev, k, val, c):
        k.annotate(k.key)
    return deps, {nm: m for nm in names}


PARTED = ('applicator', 'unevaluated', 'validation', 'content', 'meta-data')


class Meta:
    def __init__(self, ctx, r, i, deps):
        from jschon import URI
        st = ctx.store
        self.uri = B + f'{st["n"]}/meta{i}'
        d = self.d = r.choice(DRAFTS)
        std = [v for v in VOCABS[d] if v != 'core' and r.random() < (.62 if v != 'applicator' else .8)]
        cust = []
        for a, b in (('num', 'alt'), ('sub', 'plain')):
            x = r.random()
            if x < .7:
                cust.append(a if x < .42 else b)
        if r.random() < .4:
            cust.append('static')
        if 'validation' not in std and r.random() < .5:
            cust.append('over')
        self.cust = cust
        part = None
        if r.random() < .3:
            # some keywords only of the standard vocabularies, by a vocabulary of its own
            std = [v for v in std if v not in PARTED]
            cls = {k: c for v in VOCABS[d] if v in PARTED for k, c in st['cat'].get_vocabulary(URI(VOC[d] + v)).kwclasses.items()}
            p = r.choice([.3, .5, .8])
            part = [c for k, c in sorted(cls.items()) if r.random() < p]
            r.shuffle(part)
            st['cat'].create_vocabulary(URI(f'{self.uri}/part'), *part)
            ctx.event('partial vocabularies')
        self.std = std
        kw = set(VOCABS[d]['core']).union(*[VOCABS[d][v] for v in std])
        sem, subs = {}, {}
        for c in cust:
            _, s_, h_ = st['vocs'][c]
            sem.update(s_)
            subs.update(h_)
        self.deps = {}
        voc = [VOC[d] + 'core'] + [VOC[d] + v for v in std] + [B + 'vocab/' + c for c in cust]
        if deps and r.random() < .6:
            voc.append(deps[0])
            sem.update(deps[2])
            self.deps = deps[1]
        if part is not None:
            if 'over' in cust:
                part = [c for c in part if c.key != 'minimum']
                st['cat'].create_vocabulary(URI(f'{self.uri}/part'), *part)
            voc.append(f'{self.uri}/part')
            kw |= {c.key for c in part}
        self.default = r.random() < .2
        kw |= set(sem)
        self.dialect = Dialect(d, kw, self.uri, sem, subs)
        self.vocs = voc
        items = [(v, True if v == VOC[d] + 'core' or r.random() < .6 else False) for v in voc]
        if not self.default and r.random() < .3:
            items.append((B + f'unknown/{r.randrange(9)}', False))
            ctx.event('optional unknown vocabulary')
        r.shuffle(items)
        m = {'$schema': META[d] if r.random() < .7 else self.uri, '$id': self.uri}
        if not self.default:
            m['$vocabulary'] = dict(items)
        if r.random() < .3:
            m.update({'$recursiveAnchor': True} if d == D19 else {'$dynamicAnchor': 'meta'})
        if r.random() < .3 and m['$schema'] == META[d]:
            m['allOf'] = [{'$ref': META[d]}]
        its = list(m.items())
        r.shuffle(its)
        st['docs'][self.uri] = dict(its)
        self.created = False

    def create(self, ctx, r, force=False):
        from jschon import URI
        cat = ctx.store['cat']
        if self.default:
            v = [URI(x) for x in self.vocs]
            cat.create_metaschema(URI(self.uri), *v)
            ctx.event('default vocabularies')
        elif force or r.random() < .5:
            cat.create_metaschema(URI(self.uri))
            ctx.event('metaschema created')
        else:
            ctx.event('metaschema on demand')


def sprinkle(ctx, r, s, dia, g, depth=0):
    """add custom, foreign, unknown and ill-formed keywords to schema objects"""
    if not isinstance(s, dict) or depth > 4:
        return
    for k, v in list(s.items()):
        if k in ('const', 'enum', 'default', 'examples') or depth and '$schema' in s:
            continue
        if k in dia.kw and k not in SINGLES | ARRAYS | OBJECTS | set(dia.subs):
            continue
        if k in dia.kw:
            for x in v.values() if k in OBJECTS and isinstance(v, dict) else v if isinstance(v, list) else [v]:
                sprinkle(ctx, r, x, dia, g, depth + 1)
        elif r.random() < .25 and not k.startswith('$'):
            s[k] = r.choice(JUNK)
            ctx.event('ill-formed undeclared value')
    add = {}
    if r.random() < (.5 if depth < 2 else .25):
        for k in r.sample(UNKNOWN, r.choice([1, 1, 2])):
            if k not in dia.kw and k not in s and k != '$id':
                add[k] = r.choice(JUNK)
                ctx.event('ill-formed undeclared value')
    if '$recursiveAnchor' not in dia.kw and r.random() < (.3 if depth == 0 else .05):
        add['$recursiveAnchor'] = True
    if '$dynamicAnchor' not in dia.kw and r.random() < .1 and '$dynamicAnchor' not in s:
        add['$dynamicAnchor'] = s.get('$anchor', r.choice(['Dd1', 'Dd2', 'Ad1', 'meta']))
    for k, v in (('x-min', r.choice([0, 1, 2])), ('x-tag', r.choice(['t', 1, None, {'a': 1}, [], False])), ('x-static', 1), ('minimum', 1)):
        if k not in s and r.random() < .2:
            add[k] = v
    if r.random() < .3:
        sub = lambda: g.schema(r.choice([0, 1])) if r.random() < .7 else r.choice([True, False])
        k = r.choice(['x-one', 'x-all', 'x-map'])
        if k not in s:
            add[k] = {'x-one': sub, 'x-all': lambda: [sub() for _ in range(r.choice([1, 2]))], 'x-map': lambda: {r.choice(NAMES[:5]): sub() for _ in range(2)}}[k]()
    if r.random() < .3:
        for i in r.sample(range(6), r.choice([2, 3, 5])):
            if f'x-d{i}' not in s:
                add[f'x-d{i}'] = i
        if r.random() < .4:
            add.setdefault('x-unk', 1)
        if r.random() < .3:
            add.setdefault('title', 'T')
    if not add:
        return
    items = list(s.items()) + list(add.items())
    r.shuffle(items)
    s.clear()
    s.update(items)


def embed(ctx, r, root, host, other, g, marks):
    """put a schema of another dialect into the document"""
    own = r.random() < .6
    g2 = Gen(r, other.d, unevaluated=.25, annotations=.15, unknown=.05)
    if own:
        e = g2.document(r.choice([1, 2]), dynamic=.6)
        e['$id'] = f'emb{marks["n"]}'
    else:
        g2.refs = [x for x in g.refs if x != '#']
        e = g2.schema(r.choice([1, 2]))
        if not isinstance(e, dict):
            e = {'not': not e}
    e['$schema'] = other.uri
    sprinkle(ctx, r, e, other.dialect, g2)
    items = list(e.items())
    r.shuffle(items)
    e = dict(items)
    marks['n'] += 1
    nm = f'emb{marks["n"]}'
    root['$defs'][nm] = e
    tgt = root if r.random() < .5 else r.choice([x for x in root['$defs'].values() if isinstance(x, dict)] or [root])
    ref = '#/$defs/' + nm if not own or r.random() < .5 else e['$id']
    if tgt is not e and '$ref' not in tgt and '$schema' not in tgt:
        tgt['$ref'] = ref
    elif 'properties' in host.dialect.kw:
        p = root.setdefault('properties', {})
        if isinstance(p, dict):
            p[r.choice('abc')] = {'$ref': ref}
    g.targets['#/$defs/' + nm] = g.targets.get(ref, e)
    g.targets[ref] = e
    ctx.event('mixed dialects in one document')
    if other.d != host.d:
        ctx.event('mixed drafts in one document')


def collect(ctx, m, acc):
    for k in m.kws:
        kn = k.node.dialect.kw
        dec = k.key in kn
        if not dec:
            ctx.event('undeclared keyword evaluated')
            if k.key.startswith('x-') and k.key in ALLX:
                ctx.event('custom keyword undeclared')
        elif k.key in k.node.dialect.sem:
            ctx.event('custom keyword declared')
            if k.node.dialect.subs.get(k.key):
                ctx.event('custom subschema keyword')
        if '$schema' not in k.node.value and k.node.parent is not None:
            acc['inherit'] += 1
        acc['names'].setdefault(k.key, set()).add((id(k.node.dialect.sem.get(k.key)), dec))
        ctx.state(k.node.dialect.draft, dec, k.key if k.key in ALLX or k.key in STD[META[DN]].kw or k.key in STD[META[D19]].kw else 'unknown', k.valid)
        for q in k.subs:
            collect(ctx, q, acc)


ALLX = {'x-min', 'x-tag', 'x-one', 'x-all', 'x-map', 'x-static'} | {f'x-d{i}' for i in range(6)}


class P:
    pass


def wellformed(s, dia, dialects, depth=0):
    """the document without the keywords its dialect does not declare, to direct instances"""
    if not isinstance(s, dict):
        return s
    dia = dialects.get(s.get('$schema'), dia)
    out = {}
    for k, v in s.items():
        if k not in dia.kw or k in dia.sem:
            continue
        if k in SINGLES and isinstance(v, (dict, bool)):
            v = wellformed(v, dia, dialects)
        elif isinstance(v, list) and (k in ARRAYS or k == 'items'):
            v = [wellformed(x, dia, dialects) for x in v]
        elif k in OBJECTS:
            v = {n: wellformed(x, dia, dialects) for n, x in v.items()}
        out[k] = v
    return out


def instance(r, g, doc, dia, metas):
    if r.random() < .15:
        return r.choice([0, 1, 2, 3, '', 'ab', 'abc', None, True, [1, 'a'], [], {'a': 1, 'b': 'x'}, {}])
    dialects = {**STD, **{m.uri: m.dialect for m in metas}}
    w = wellformed(doc, dia, dialects)
    g.targets = {k: (w if v is doc else wellformed(v, dialects.get(v.get('$schema') if isinstance(v, dict) else None, dia), dialects)) for k, v in g.targets.items()} if not hasattr(g, 'clean') else g.targets
    g.clean = True
    return g.instance(w)


def mixes(ctx, r):
    from jschon import JSON, JSONSchema, URI
    st = ctx.store
    st['n'] += 1
    st['docs'].clear()
    st['bad'].clear()
    cat = st['cat']
    dv = None
    if r.random() < .5:
        u = B + f'{st["n"]}/vocab/dep'
        dv = (u,) + dep_vocab(ctx, r, u)
    metas = [Meta(ctx, r, i, dv) for i in range(r.choice([1, 2, 2, 3]))]
    for m in metas:
        m.create(ctx, r)
    std = [P() for _ in DRAFTS]
    for s_, d in zip(std, DRAFTS):
        s_.uri, s_.d, s_.dialect, s_.deps, s_.std, s_.cust = META[d], d, STD[META[d]], {}, list(VOCABS[d]), []
    host = r.choice(metas) if r.random() < .85 else r.choice(std)
    if host in std:
        ctx.event('standard dialect after custom ones')
    g = Gen(r, host.d, unevaluated=.3, annotations=.15, unknown=.05)
    doc = g.document(r.choice([1, 2, 2, 3]))
    sprinkle(ctx, r, doc, host.dialect, g)
    marks = {'n': 0}
    while r.random() < .5 and marks['n'] < 3:
        embed(ctx, r, doc, host, r.choice(metas + std), g, marks)
    ext = None
    if r.random() < .25:
        other = r.choice(metas + std)
        ext = B + f'{st["n"]}/ext'
        g2 = Gen(r, other.d, unevaluated=.2)
        e = g2.document(r.choice([1, 2]))
        sprinkle(ctx, r, e, other.dialect, g2)
        e['$schema'] = other.uri
        st['docs'][ext] = e
        if '$ref' not in doc or r.random() < .5:
            doc['$ref'] = ext
        else:
            doc['$defs']['ext'] = {'$ref': ext}
        g.targets[ext] = e
        ctx.event('other document with its own dialect')
    uri = B + f'{st["n"]}/doc'
    kw = dict(uri=URI(uri), catalog=cat)
    if r.random() < .5:
        doc = dict(sorted({'$schema': host.uri, **doc}.items(), key=lambda _: r.random()))
        if r.random() < .4:
            kw['metaschema_uri'] = URI(r.choice(metas + std).uri)
            ctx.event('$schema overrides argument')
    else:
        kw['metaschema_uri'] = URI(host.uri)
    ctx.store['last'] = doc
    reg = Registry(dialects={m.uri: m.dialect for m in metas}, loader=lambda u: copy.deepcopy(st['docs'].get(u)))
    reg.default_meta = host.uri
    st['dbg'] = (doc, {m.uri: st['docs'][m.uri] for m in metas}, kw)
    info = dict(document=json.dumps(doc), metaschemas=json.dumps({m.uri: m.vocs for m in metas}), host=host.uri, external=json.dumps(st['docs'].get(ext)))
    node = reg.add(copy.deepcopy(doc), uri, host.uri)
    ev = Evaluator(reg, max_depth=70, max_steps=1500)
    with cat.cache() as cid:
        js = JSONSchema(copy.deepcopy(doc), cacheid=cid, **kw)
        acc = {'inherit': 0, 'names': {}}
        x = None
        for _ in range(r.choice([4, 5, 6])):
            x = instance(r, g, doc, host.dialect, metas)
            try:
                m = ev.evaluate(node, x)
            except (Infinite, Ambiguous):
                ctx.event('skipped: infinite or undetermined')
                continue
            st['log'].clear()
            st['dbg2'] = x
            res = js.evaluate(JSON(copy.deepcopy(x)))
            check(res.valid is m.valid, f'verdict {res.valid}, the declared vocabularies say {m.valid}', instance=json.dumps(x), **info)
            ctx.event('valid' if m.valid else 'invalid')
            check(not st['bad'], st['bad'][0] if st['bad'] else '', instance=json.dumps(x), **info)
            collect(ctx, m, acc)
            if m.valid:
                p = P()
                p.draft, p.doc = host.d, doc
                compare(ctx, p, x, res, m)
            if dv:
                order(ctx, dv[1], st['log'], x, info)
    ctx.event('inherits from parent', int(acc['inherit'] > 0))
    ctx.event('same name, different behaviour', sum(1 for v in acc['names'].values() if len(v) > 1))
    if any('static' in m.cust for m in metas):
        ctx.event('static custom keyword')
    ctx.sample({'document': doc, 'host': host.uri, 'vocabularies': {m.uri: m.vocs for m in metas}, 'instance': x})


def order(ctx, deps, log, x, info):
    for key, schema, instance, seen in log:
        for d in deps[key]:
            if d not in schema.keywords:
                continue
            k = schema.keywords[d]
            if k.static or instance.type not in k.instance_types:
                continue
            check(seen[d], f'{key} was evaluated before {d}, on which it depends', depends_on=str(deps[key]), keywords=str(list(schema.keywords)), instance=json.dumps(x), **info)
            ctx.event('dependency order observed' if d.startswith('x-d') else 'standard dependency observed')


def refusals(ctx, r):
    from jschon import JSONSchema, URI
    from jschon.exc import JSONSchemaError, CatalogError
    st = ctx.store
    st['n'] += 1
    cat = st['cat']
    d = r.choice(DRAFTS)
    uri = B + f'{st["n"]}/bad'
    kind = r.choice(['required', 'required', 'no core', 'two cores', 'core false', 'none', 'none', 'empty'])

    def refused(fn, what):
        try:
            fn()
        except JSONSchemaError:
            return
        except Exception as e:
            check(False, f'{what}: refused with {type(e).__name__}: {e}, not JSONSchemaError', metaschema=json.dumps(st['docs'].get(uri)))
        check(False, f'{what}: accepted', metaschema=json.dumps(st['docs'].get(uri)))
    g = Gen(r, d)
    body = g.document(r.choice([1, 2]))
    if kind == 'none':
        cnt = r.random()
        if cnt < .5:
            b = body
        elif cnt < .8:
            b = {'$id': uri + 'x', **body}
        else:
            b = {r.choice(['foo', 'type', '$ref', 'title', '$defs', '$id']): r.choice(['x', 'http://x.test/y'])}
        with cat.cache() as cid:
            refused(lambda: JSONSchema(b, catalog=cat, cacheid=cid, **({'uri': URI(uri)} if r.random() < .5 else {})), 'schema without a determinable metaschema')
        ctx.event('refused: no metaschema')
        ctx.state('none', tuple(sorted(b))[:3])
        return
    voc = {VOC[d] + v: r.random() < .7 for v in VOCABS[d] if r.random() < .7}
    voc[VOC[d] + 'core'] = True
    ev = None
    if kind == 'required':
        for _ in range(r.choice([1, 1, 2])):
            voc[r.choice([B + f'unknown/{r.randrange(99)}', f'urn:x:voc{r.randrange(9)}', VOC[d] + 'nosuch', VOC[D20] + 'format-assertion', B + 'vocab/num/', B + 'vocab/nums'])] = True
        ev = 'refused: required vocabulary'
    elif kind == 'no core':
        del voc[VOC[d] + 'core']
        voc[B + 'vocab/num'] = True
        ev = 'refused: no core'
    elif kind == 'core false':
        voc[VOC[d] + 'core'] = False
        ev = 'refused: no core'
    elif kind == 'two cores':
        voc[VOC[r.choice([x for x in DRAFTS if x != d])] + 'core'] = r.random() < .5
        ev = 'refused: two cores'
    else:
        voc = None
        ev = 'refused: no core'
    m = {'$schema': META[d], '$id': uri, 'title': 'm'}
    if voc is not None:
        its = list(voc.items())
        r.shuffle(its)
        m['$vocabulary'] = dict(its)
    its = list(m.items())
    r.shuffle(its)
    st['docs'][uri] = dict(its)
    if r.random() < .6:
        extra = []
        if kind == 'required' and r.random() < .6:
            extra = [URI(VOC[d] + v) for v in ['core'] + r.sample([v for v in VOCABS[d] if v != 'core'], r.choice([0, 1, 3]))]
        refused(lambda: cat.create_metaschema(URI(uri), *extra), kind)
        ctx.event(ev)
    if r.random() < .6:
        def make():
            with cat.cache() as cid:
                if r.random() < .5:
                    JSONSchema({'$schema': uri, **body}, catalog=cat, cacheid=cid)
                else:
                    JSONSchema({**body, '$defs': {'in': {'$schema': uri, 'type': 'object'}}}, catalog=cat, cacheid=cid, metaschema_uri=URI(META[d]))
        refused(make, kind + ' (schema)')
        ctx.event('refused: schema under refused metaschema')
        ctx.event(ev)
    ctx.state(kind, d, len(m.get('$vocabulary', ())))
    ctx.sample({'kind': kind, 'metaschema': m})


def anchors(ctx, r):
    """chains of resources of different drafts whose anchors are keywords in one and unknown in the other"""
    from jschon import JSON, JSONSchema, URI
    st = ctx.store
    st['n'] += 1
    cat = st['cat']
    base = B + f'{st["n"]}/'
    n = r.choice([2, 3, 3, 4])
    res = []
    for i in range(n):
        d = r.choice([D19, D20, DN])
        s = {'$schema': META[d], '$id': base + f'r{i}', 'title': f't{i}'}
        if r.random() < .75:
            s['$recursiveAnchor'] = r.random() < .85
        if r.random() < .6:
            s['$dynamicAnchor'] = 'n'
        if '$dynamicAnchor' not in s or d == D19:
            s['$anchor'] = 'n'
        s.update(r.choice([{'maxProperties': r.choice([1, 2])}, {'required': ['b']}, {'type': 'object'}, {}, {'not': {'required': ['c']}}]))
        if i + 1 < n:
            s['$ref'] = base + f'r{i + 1}' + r.choice(['', '', '#n'])
        else:
            ref = {'$recursiveRef': '#'} if d == D19 else {'$dynamicRef': r.choice(['#n', base + f'r{r.randrange(n)}#n'])}
            s.setdefault('properties', {})['a'] = ref
            if r.random() < .3:
                s['additionalProperties'] = dict(ref)
        res.append(dict(sorted(s.items(), key=lambda _: r.random())))
    doc = res[0]
    doc['$defs'] = {f'd{i}': x for i, x in enumerate(res) if i}
    reg = Registry()
    reg.default_meta = META[D20]
    node = reg.add(copy.deepcopy(doc), base + 'r0', META[D20])
    ev = Evaluator(reg, max_depth=60, max_steps=1500)

    def inst(k):
        return r.choice(['v', {}, 1]) if k <= 0 else {p: inst(k - 1) for p in r.sample('abc', r.choice([1, 1, 2]))}
    with cat.cache() as cid:
        js = JSONSchema(copy.deepcopy(doc), catalog=cat, cacheid=cid)
        for _ in range(5):
            x = inst(r.choice([1, 2, 3]))
            try:
                m = ev.evaluate(node, x)
            except (Infinite, Ambiguous):
                continue
            res_ = js.evaluate(JSON(copy.deepcopy(x)))
            check(res_.valid is m.valid, f'verdict {res_.valid}, the declared vocabularies say {m.valid}', document=json.dumps(doc), instance=json.dumps(x))
            ctx.event('anchor chains')
            if m.valid:
                p = P()
                p.draft, p.doc = node.dialect.draft, doc
                compare(ctx, p, x, res_, m)
    ctx.state('anchors', tuple((s['$schema'][29:33], s.get('$recursiveAnchor'), '$dynamicAnchor' in s) for s in res))


UNITS = {'anchors': (anchors, 1500, 20000), 'mixes': (mixes, 5000, 70000), 'refusals': (refusals, 1500, 15000)}
