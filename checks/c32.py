"""C32: threads with caches, catalogs and documents of their own do not influence each other."""
import copy, json, os, random, re, sys, threading
from lib import gen
from lib.genschema import Gen, add_ids
from lib.models import all_paths, ptr_str
from lib.refeval import *
from lib.smon import DRAFTS
from lib.harness import Violation, check, short
from checks.c21 import Sched, snap

RULE = ('two to four threads run programs (building, loading, failing, looking up, evaluating and validating schemas under the same URIs in caches of their own; documents, patches, pointers, URIs, files) '
        'under a seeded scheduler that switches at traced lines of jschon, and freely with a microsecond switch interval; every outcome compared with that of the same program run alone. '
        'State: distinct schedules and operation sequences')
OPS = ['build', 'load', 'fail', 'evaluate', 'validate', 'lookup', 'document', 'patch', 'pointer', 'uri', 'file', 'inner cache', 'formats', 'vocabulary']
REQUIRED = {'operations compared': 6000, 'scheduled switches': 30000, 'scheduled threads': 500, 'free threads': 400, 'caches empty afterwards': 500, 'same URIs in several threads': 400,
            'failures': 600, 'errors compared': 600}
REQUIRED.update({'op ' + k: 150 for k in OPS + ['relative', 'evaluate pointer']})


def setup(ctx):
    from jschon import create_catalog, URI
    from jschon.catalog import Source
    st = ctx.store
    docs = st['docs'] = {}

    class Mem(Source):
        def __call__(s, rel):
            return copy.deepcopy(docs[rel])
    st['cats'] = []
    for i in range(2):
        cat = create_catalog('2019-09', '2020-12', 'next', name=f'c32-{i}')
        cat.add_uri_source(URI('https://mem.test/'), Mem())
        st['cats'].append(cat)
    st['dir'] = ctx.tmpdir()
    st['n'] = 0


UUID = re.compile(r'[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}')


def norm(x):
    return UUID.sub('UUID', x) if isinstance(x, str) else {k: norm(v) for k, v in x.items()} if isinstance(x, dict) else [norm(v) for v in x] if isinstance(x, (list, tuple)) else x


class Program:
    """A sequence of operations fixed by a seed; run(cacheid) gives the list of outcomes."""

    def __init__(self, ctx, seed, d, shared, nops):
        self.ctx, self.seed, self.d, self.shared, self.nops = ctx, seed, d, shared, nops
        self.kinds = []

    def run(self, tag):
        from jschon import JSON
        ctx, st = self.ctx, self.ctx.store
        r = random.Random(self.seed)
        cat = st['cats'][r.random() < .25]
        self.cat = cat
        g = Gen(r, self.d, unevaluated=.2, annotations=.3, unknown=.1)
        outs, self.kinds = [], []
        js = []
        with cat.cache() as cid:
            self.cid = cid
            for i in range(self.nops):
                op = r.choice(self.ONLY or (OPS if js else ['build', 'build', 'load', 'fail', 'document', 'patch']))
                self.kinds.append(op)
                try:
                    out = getattr(self, 'do_' + op.replace(' ', '_'))(r, g, cat, cid, js, tag)
                except Violation:
                    raise
                except Exception as e:
                    out = f'{type(e).__name__}: {e}'
                outs.append(norm(json.loads(json.dumps(out, default=repr))))
            self.uris = [str(s.canonical_uri) for s, _ in js]
        return outs

    ONLY = None

    def build(self, r, g, cat, cid, uri):
        from jschon import JSONSchema, URI
        doc = g.document(r.choice([1, 1, 2]))
        if r.random() < .4:
            doc = add_ids(r, doc, self.d)
            doc.setdefault('$id', 'https://own.test/i' + str(r.randint(0, 2)))
        s = JSONSchema(copy.deepcopy(doc), catalog=cat, cacheid=cid, metaschema_uri=URI(META[self.d]), **({'uri': URI(uri)} if uri else {}))
        return s, doc

    def do_build(self, r, g, cat, cid, js, tag):
        s, doc = self.build(r, g, cat, cid, r.choice(['https://own.test/a', 'https://own.test/b', None]))
        js.append((s, g.instance(doc)))
        return [s.value, str(s.canonical_uri), str(s.metaschema_uri)]

    def do_load(self, r, g, cat, cid, js, tag):
        from jschon import URI
        s = cat.get_schema(URI('https://mem.test/' + r.choice(self.shared['names'])), cacheid=cid, metaschema_uri=URI(META[self.d]))
        js.append((s, g.instance(s.value)))
        return [s.value, str(s.uri), s.cacheid == cid, s.catalog is cat]

    def do_fail(self, r, g, cat, cid, js, tag):
        from jschon import JSONSchema, URI
        bad = r.choice([{'$ref': 'https://nowhere.test/x'}, {'$ref': '#/nope'}, {'$schema': 'https://nowhere.test/meta', 'type': 'string'}, {'$id': 'https://own.test/f#frag'}, {'pattern': '('},
                        {'$ref': 'https://mem.test/missing'}, {'properties': 12}])
        doc = {'$defs': {'x': {'$id': 'https://own.test/f' + str(r.randint(0, 2)), 'allOf': [bad]}, 'y': {'$anchor': 'yy'}}}
        try:
            JSONSchema(doc, catalog=cat, cacheid=cid, metaschema_uri=URI(META[self.d]), uri=URI('https://own.test/f'))
            out = ['built']
        except Exception as e:
            out = [type(e).__name__]
            self.ctx.event('failures')
        for u in ('https://own.test/f', 'https://own.test/f0', 'https://own.test/f#yy'):
            try:
                out.append(str(cat.get_schema(URI(u), cacheid=cid).value))
            except Exception as e:
                out.append(type(e).__name__)
        return out

    def pick(self, r, js):
        return r.choice(js)

    def do_evaluate(self, r, g, cat, cid, js, tag):
        from jschon import JSON
        s, x = self.pick(r, js)
        return snap(s.evaluate(JSON(copy.deepcopy(x))), ['basic', 'verbose'])

    def do_validate(self, r, g, cat, cid, js, tag):
        s, _ = self.pick(r, js)
        return snap(s.validate(), ['flag', 'detailed'])

    def do_lookup(self, r, g, cat, cid, js, tag):
        from jschon import URI, JSONSchema
        s, _ = self.pick(r, js)
        # a later schema may have taken the URI over: look up what the document now says
        out = []
        nodes = []

        def walk(n):
            if isinstance(n, JSONSchema):
                nodes.append(n)
            if n.type in ('array', 'object'):
                for c in (n if n.type == 'array' else n.values()):
                    walk(c)
        walk(s)
        for n in nodes[:6]:
            try:
                f = cat.get_schema(n.canonical_uri, cacheid=cid)
                out.append([f is n, str(f.path), f.value])
            except Exception as e:
                out.append(type(e).__name__)
        for u in ('https://own.test/a', 'https://own.test/b', 'https://own.test/i0', 'https://own.test/never'):
            try:
                out.append(cat.get_schema(URI(u), cacheid=cid).value)
            except Exception as e:
                out.append(type(e).__name__)
        return out

    def do_document(self, r, g, cat, cid, js, tag):
        from jschon import JSON
        v = gen.container(r, 3, 3)
        j = JSON(copy.deepcopy(v))
        out = [j.dumps()]
        for _ in range(3):
            p = r.choice(self.shared['pointers'])
            try:
                j.add(p, gen.value(r, 1, 2))
                out.append(j.dumps())
            except Exception as e:
                out.append(type(e).__name__)
            out.append(j == JSON(copy.deepcopy(j.value)))
        out.append([str(n.path) for n in (j if j.type == 'array' else j.values())])
        return out

    def do_patch(self, r, g, cat, cid, js, tag):
        p = r.choice(self.shared['patches'])
        v = r.choice(self.shared['values'])
        out = [v]
        try:
            out.append(p.evaluate(v))
        except Exception as e:
            out.append([type(e).__name__, str(e)])
        out.append(p.aslist())
        return copy.deepcopy(out)

    def do_pointer(self, r, g, cat, cid, js, tag):
        from jschon import JSON
        v = r.choice(self.shared['values'])
        j = JSON(copy.deepcopy(v))
        out = []
        for _ in range(3):
            p = r.choice(self.shared['pointers'])
            q = r.choice(self.shared['pointers'])
            for x in (v, j):
                try:
                    y = p.evaluate(x)
                    out.append(y.value if isinstance(y, JSON) else y)
                except Exception as e:
                    out.append(type(e).__name__)
            out += [str(p / q), str(p[1:]), p == q, p <= q, p.uri_fragment()]
            n = j
            while n.type in ('array', 'object') and len(n) and r.random() < .8:
                n = n[r.randrange(len(n))] if n.type == 'array' else n[r.choice(sorted(n))]
            rp = r.choice(self.shared['rel'])
            try:
                y = rp.evaluate(n)
                out.append(y.value if isinstance(y, JSON) else y)
            except Exception as e:
                out.append(type(e).__name__)
        return out

    def do_uri(self, r, g, cat, cid, js, tag):
        from jschon import URI
        out = []
        for _ in range(4):
            u, b = r.choice(self.shared['uris']), r.choice(self.shared['bases'])
            try:
                t = u.resolve(b)
                out.append([str(t), t == u, t.fragment, str(t.copy(fragment=False)), t.is_absolute(), t.has_absolute_base()])
            except Exception as e:
                out.append(type(e).__name__)
        return out

    def do_file(self, r, g, cat, cid, js, tag):
        from jschon import JSON
        j = JSON(gen.value(r, 2, 3))
        fn = os.path.join(self.ctx.store['dir'], f'{tag}.json')
        j.dumpf(fn)
        k = JSON.loadf(fn)
        os.unlink(fn)
        return [k == j, k.dumps() == j.dumps()]

    def do_inner_cache(self, r, g, cat, cid, js, tag):
        from jschon import JSON, URI
        with cat.cache() as c2:
            s, doc = self.build(r, g, cat, c2, 'https://own.test/a')
            x = g.instance(doc)
            out = [snap(s.evaluate(JSON(x)), ['basic']), cat.get_schema(URI('https://own.test/a'), cacheid=c2) is s]
            try:
                with cat.cache(c2):
                    out.append('re-entered')
            except Exception as e:
                out.append(type(e).__name__)
        try:
            out.append(cat.get_schema(URI('https://own.test/a'), cacheid=c2).value)
        except Exception as e:
            out.append(type(e).__name__)
        return out

    def do_formats(self, r, g, cat, cid, js, tag):
        from jschon import JSONSchema, URI, JSON
        f = r.choice(['json-pointer', 'regex', 'never-registered'])
        s = JSONSchema({'format': f}, catalog=cat, cacheid=cid, metaschema_uri=URI(META[self.d]))
        return [snap(s.evaluate(JSON(x)), ['basic']) for x in ('a', '/a', 1)] + [cat.is_format_enabled(f)]

    def do_vocabulary(self, r, g, cat, cid, js, tag):
        from jschon import URI
        m = cat.get_metaschema(URI(META[self.d]))
        return [str(m.uri), [k in m.kwclasses for k in ('type', 'items', 'prefixItems', '$recursiveRef', '$dynamicRef')], m.value['$id']]


class SharedProgram(Program):
    """Only operations on the pointers, patches, URIs and values that all threads share."""
    ONLY = ['patch', 'patch', 'pointer', 'pointer', 'relative', 'uri', 'document', 'evaluate pointer', 'evaluate pointer']

    def do_relative(self, r, g, cat, cid, js, tag):
        from jschon import JSON
        j = JSON(copy.deepcopy(r.choice(self.shared['values'])))
        out = []
        for _ in range(3):
            n = j
            while n.type in ('array', 'object') and len(n) and r.random() < .8:
                n = n[r.randrange(len(n))] if n.type == 'array' else n[r.choice(sorted(n))]
            try:
                y = r.choice(self.shared['rel']).evaluate(n)
                out.append([str(n.path), y.value if isinstance(y, JSON) else y])
            except Exception as e:
                out.append(f'{type(e).__name__}: {e}')
        return out

    def do_evaluate_pointer(self, r, g, cat, cid, js, tag):
        """the same pointer on another document of the same shape"""
        from jschon import JSON
        v = copy.deepcopy(r.choice(self.shared['values']))
        mark = f'{self.seed}-{len(self.kinds)}'

        def leaf(x):
            return {k: leaf(y) for k, y in x.items()} if isinstance(x, dict) else [leaf(y) for y in x] if isinstance(x, list) else f'{mark}:{x}'
        v = leaf(v)
        p = r.choice(self.shared['pointers'])
        out = []
        for x in (v, JSON(copy.deepcopy(v))):
            try:
                y = p.evaluate(x)
                out.append(y.value if isinstance(y, JSON) else y)
            except Exception as e:
                out.append(f'{type(e).__name__}: {e}')
        q = r.choice(self.shared['patches'])
        try:
            out.append(q.evaluate(v))
        except Exception as e:
            out.append(f'{type(e).__name__}: {e}')
        out.append(v)
        return out


def make_shared(ctx, r, d):
    """immutable things used by all threads, and the documents of the source"""
    from jschon import JSONPatch, JSONPointer, RelativeJSONPointer, URI
    st = ctx.store
    st['docs'].clear()
    g = Gen(r, d, unevaluated=.2, annotations=.2)
    names = ['m0', 'm1', 'm2']
    for i, n in enumerate(names):
        doc = g.document(r.choice([1, 2]))
        doc['allOf'] = doc.get('allOf', []) + ([{'$ref': r.choice(names[i + 1:] + [n + '#/$defs/d1'] * ('d1' in doc.get('$defs', {})))}] if i < 2 else [])
        if not doc['allOf']:
            del doc['allOf']
        st['docs'][n] = doc
    values = [gen.container(r, 3, 3) for _ in range(3)]
    ptrs = [JSONPointer(ptr_str(r.choice(list(all_paths(r.choice(values)))))) for _ in range(4)] + [JSONPointer('/a/0'), JSONPointer('/-'), JSONPointer()]
    patches = []
    for _ in range(3):
        ops = []
        for _ in range(r.randint(1, 3)):
            o = r.choice(['add', 'remove', 'replace', 'move', 'copy', 'test'])
            x = {'op': o, 'path': str(r.choice(ptrs))}
            if o in ('add', 'replace', 'test'):
                x['value'] = gen.value(r, 2, 2)
            if o in ('move', 'copy'):
                x['from'] = str(r.choice(ptrs))
            ops.append(x)
        patches.append(JSONPatch(*ops))
    return dict(names=names, values=values, pointers=ptrs, patches=patches, rel=[RelativeJSONPointer(x) for x in ('0', '1', '0#', '1/a', '1/0', '0+1', '1-1#', '2')],
                bases=[URI(x) for x in ('https://x.test/a/b?q', 'urn:x:y', 'https://x.test')], uris=[URI(x) for x in ('c', '../d#f', '//h/p', '?q=1', '#g', 'https://y.test/z', '')])


def fitting_patch(r, v):
    """a patch whose operations apply to v and to every document of the same shape"""
    from jschon import JSONPatch
    ops = []
    paths = [p for p in all_paths(v)]
    conts = [p for p in paths if isinstance(walk(v, p), (list, dict))]
    for _ in range(r.randint(1, 3)):
        o = r.choice(['add', 'add', 'replace', 'copy'])
        c = r.choice(conts)
        new = ptr_str(tuple(c) + (('-',) if isinstance(walk(v, c), list) else (r.choice(['new', 'a']),)))
        if o == 'replace':
            ops.append({'op': o, 'path': ptr_str(r.choice([p for p in paths if not isinstance(walk(v, p), (list, dict))] or [()])), 'value': gen.scalar(r)})
        elif o == 'copy':
            ops.append({'op': o, 'from': ptr_str(r.choice(paths)), 'path': new})
        else:
            ops.append({'op': o, 'path': new, 'value': gen.value(r, 1, 2)})
    return JSONPatch(*ops)


def walk(v, path):
    for k in path:
        v = v[int(k) if isinstance(v, list) else k]
    return v


def threads(ctx, r, sched, cls=Program):
    d = r.choice(DRAFTS)
    shared = make_shared(ctx, r, d)
    n = r.choice([2, 2, 3, 4])
    few = cls is not Program
    nops = r.choice([6, 10]) if few else r.choice([3, 4, 6]) if sched else r.choice([5, 8])
    if few:
        shared['pointers'] = r.sample(shared['pointers'], 3)
        shared['values'] = shared['values'][:r.choice([1, 2])]
        shared['patches'] = [fitting_patch(r, shared['values'][0]) for _ in range(r.choice([1, 1, 2]))]
        shared['rel'] = r.sample(shared['rel'], 2)
    seeds = [r.random() for _ in range(n)]
    if r.random() < .25:
        seeds = [seeds[0]] * n
    st = ctx.store
    st['last'] = dict(draft=d, docs=st['docs'], seeds=seeds)
    st['n'] += 1
    P = [cls(ctx, s, d, shared, nops) for s in seeds]
    before = copy.deepcopy([shared['values'], [p.aslist() for p in shared['patches']], [str(p) for p in shared['pointers']]])
    want = [p.run(f'a{k}') for k, p in enumerate(P)]
    again = P[0].run('z')
    if again != want[0]:
        i = next(i for i, (a, b) in enumerate(zip(want[0], again)) if a != b)
        check(False, f'the same program gives another outcome the second time ({P[0].kinds[i]})', first=short(json.dumps(want[0][i])), second=short(json.dumps(again[i])))
    got, errors = [None] * n, []
    S = Sched(n, random.Random(r.random()), os.path.join(ctx.scratch, 'tree'), r.choice([.03, .1, .3] if few else [.001, .004, .02])) if sched else None

    def work(me):
        try:
            if S:
                S.sem[me].acquire(timeout=60)
                sys.settrace(S.tracer(me))
            got[me] = P[me].run(f't{me}')
        except BaseException as e:
            import traceback
            errors.append((f'{type(e).__name__} in a thread: {e}', traceback.format_exc()))
        finally:
            sys.settrace(None)
            if S:
                S.done(me)
    old = sys.getswitchinterval()
    sys.setswitchinterval(old if sched else 2e-5)
    try:
        ts = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(n)]
        for t in ts:
            t.start()
        if S:
            S.sem[r.randrange(n)].release()
        for t in ts:
            t.join(120)
    finally:
        sys.setswitchinterval(old)
    if any(t.is_alive() for t in ts):
        raise RuntimeError('threads did not finish')
    info = dict(draft=d, threads=n, programs=[p.kinds for p in P], documents=st['docs'])
    check(not errors, errors and errors[0][0], trace=errors and errors[0][1], **info)
    for k in range(n):
        for i, (a, b) in enumerate(zip(want[k], got[k])):
            ctx.event('op ' + P[k].kinds[i])
            if a != b:
                check(False, f'operation "{P[k].kinds[i]}" has another outcome beside other threads than alone', thread=k, alone=short(json.dumps(a), 1500), together=short(json.dumps(b), 1500), **info)
            ctx.event('operations compared')
            if 'Error' in json.dumps(b):
                ctx.event('errors compared')
    now = [shared['values'], [p.aslist() for p in shared['patches']], [str(p) for p in shared['pointers']]]
    check(now == before, 'shared values, patches or pointers were modified', before=before, now=now)
    if len({p.cat for p in P}) < n:
        ctx.event('same URIs in several threads')
    # every cache is gone
    from jschon import URI
    for p in P:
        with p.cat.cache(p.cid):
            for u in p.uris:
                if u.startswith('https://mem.test'):
                    continue
                try:
                    p.cat.get_schema(URI(u), cacheid=p.cid)
                except Exception:
                    continue
                check(False, 'a schema of a thread is still in its cache after the context was left', uri=u, **info)
        ctx.event('caches empty afterwards')
    if S:
        ctx.event('scheduled threads', n)
        ctx.event('scheduled switches', len(S.trace))
        ctx.event('scheduler abandoned', int(S.broken))
        ctx.state('sched', n, tuple(S.trace[:300]))
    else:
        ctx.event('free threads', n)
        ctx.state('free', tuple(map(tuple, (p.kinds for p in P))))
    ctx.sample({'programs': [p.kinds for p in P], 'switches': len(S.trace) if S else None})


def scheduled(ctx, r):
    threads(ctx, r, True)


def free(ctx, r):
    threads(ctx, r, False)


def shared(ctx, r):
    threads(ctx, r, True, SharedProgram)


UNITS = {'scheduled': (scheduled, 400, 6000), 'free': (free, 300, 5000), 'shared': (shared, 500, 8000)}
