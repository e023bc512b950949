"""C21: evaluation is pure, repeatable and safe in threads."""
import copy, json, random, sys, threading
from lib.genschema import Gen
from lib.models import canon, jtype
from lib.refeval import *
from lib.smon import DRAFTS
from lib.harness import Violation, check, short
from checks.c14 import meta_doc

RULE = ('pools of schemas and instances shared by histories of evaluations, nested evaluations, output calls and partly consumed annotation iterators, and by threads under a seeded scheduler that '
        'switches at traced lines of jschon (plus free-running threads with a microsecond switch interval); every result compared with a single fresh evaluation, every earlier result re-observed. '
        'State: distinct schedules (sequence of thread switches) and history shapes')
REQUIRED = {'history evaluations': 4000, 'earlier results re-observed': 4000, 'nested evaluations': 2000, 'output calls': 15000, 'partial iterators': 800, 'schemas compared after': 2000,
            'instances compared after': 3000, 'scheduled threads evaluations': 1500, 'scheduled switches': 20000, 'free threads evaluations': 1500, 'validate': 300, 'subnode instances': 800,
            'first use in threads': 100, 'construction alongside': 100, 'dynamic scope systems': 80}
FORMATS = ['flag', 'basic', 'detailed', 'verbose']


def setup(ctx):
    from jschon import create_catalog, URI
    from jschon.catalog import Source
    from jschon.vocabulary import Keyword
    import jschon.output
    docs = ctx.store['docs'] = {}

    class Mem(Source):
        def __call__(s, rel):
            return copy.deepcopy(docs[rel])
    cat = ctx.store['cat'] = create_catalog('2019-09', '2020-12', 'next', name='c21')
    cat.add_uri_source(URI('https://p.test/'), Mem())
    st = ctx.store
    st['nest'], st['bad'], st['local'] = [], [], threading.local()

    class Nest(Keyword):
        key = 'x-nest'

        def evaluate(self, instance, result):
            result.annotate(self.json.value)
            result.noassert()
            loc = st['local']
            if getattr(loc, 'depth', 0) >= 2 or not st['nest']:
                return
            loc.depth = getattr(loc, 'depth', 0) + 1
            try:
                rng = getattr(loc, 'rng', None) or random.Random(0)
                c = rng.choice(st['nest'])
                got = snap(c['js'].evaluate(c['inst']), rng.choice([['flag'], ['basic'], FORMATS]))
                d = diff(c['want'], got)
                if d:
                    st['bad'].append((c, d))
                st['nested'] = st.get('nested', 0) + 1
            finally:
                loc.depth -= 1
    cat.create_vocabulary(URI('https://p.test/vocab/nest'), Nest)
    for d in DRAFTS:
        docs['meta/' + d] = meta_doc('https://p.test/meta/' + d, d, {'https://p.test/vocab/nest': True})
        cat.create_metaschema(URI('https://p.test/meta/' + d))


def norm(v):
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()}
    if isinstance(v, list):
        l = [norm(x) for x in v]
        if l and all(isinstance(x, str) for x in l):
            l.sort()
        return l
    return v


def tree(res):
    from lib.tree import plain
    return [str(res.path), str(res.relpath), str(res.instance.path), res.key, res.valid, res.passed, norm(plain(res.annotation)), norm(plain(res.error)), str(res.absolute_uri),
            [tree(c) for c in res.children.values()]]


def snap(res, formats=FORMATS):
    out = {f: json.dumps(norm(res.output(f)), sort_keys=True) for f in formats}
    out['valid'] = res.valid
    out['tree'] = json.dumps(tree(res), default=repr)
    return out


def diff(want, got):
    for k in got:
        if want.get(k) != got[k]:
            return f'{k}: was {short(str(want.get(k)), 900)}, now {short(str(got[k]), 900)}'
    return None


class Pool:
    """schemas and instances with the snapshot of a fresh evaluation of each pair"""

    def __init__(self, ctx, r, nest=True, small=False):
        from jschon import JSONSchema, URI, JSON
        self.ctx, self.r = ctx, r
        cat = self.cat = ctx.store['cat']
        ctx.store['nest'] = []
        self.docs, self.insts, self.pairs, self.entries = [], [], [], None
        d = self.d = r.choice(DRAFTS)
        meta = 'https://p.test/meta/' + d
        dyn = r.random() < .25
        if dyn:
            return self.dynamic(meta, nest)
        n = r.choice([1, 2, 3]) if not small else r.choice([1, 2])
        gens = []
        for i in range(n):
            g = Gen(r, d, unevaluated=.3, annotations=.3, unknown=.1)
            s = g.document(r.choice([1, 2, 2, 3]) if not small else r.choice([1, 2]))
            if i and r.random() < .5:
                s.setdefault('properties', {})['a'] = {'$ref': 's' + str(r.randrange(i))}
            if nest and r.random() < .6:
                s['x-nest'] = i
                for k in list(s['$defs']):
                    if isinstance(s['$defs'][k], dict) and r.random() < .4:
                        s['$defs'][k]['x-nest'] = k
            self.docs.append(s)
            gens.append(g)
        for i in range(r.choice([2, 3, 4])):
            g = r.choice(gens)
            x = g.instance(r.choice(self.docs))
            sub = None
            if r.random() < .3:
                x, sub = ({'a': x, 'b': g.instance(r.choice(self.docs))}, r.choice(['a', 'b']))
            self.insts.append((x, sub))
        self.expect(meta, [f'https://x.test/s{i}' for i in range(n)])

    def dynamic(self, meta, nest):
        """a system of resources whose dynamic references depend on the entry"""
        from checks import c18
        r, ctx, d = self.r, self.ctx, self.d
        docs = c18.Sys(r, d).docs()
        for u in docs:
            docs[u].setdefault('$id', u)
        s = {'$defs': {f'b{i}': v for i, v in enumerate(docs.values())}}
        if nest:
            for v in docs.values():
                if r.random() < .4:
                    v['x-nest'] = 1
        self.docs = [s]
        for _ in range(r.choice([2, 3])):
            self.insts.append((c18.instance(r, r.choice([1, 2, 3])), None))
        self.entries = [('$defs', f'b{i}') for i in range(len(docs))]
        ctx.event('dynamic scope systems')
        self.expect(meta, ['https://x.test/s0'])

    def expect(self, meta, uris):
        ctx, cat, d = self.ctx, self.cat, self.d
        reg = Registry(dialects={meta: Dialect(d, std_dialect(d).kw | {'x-nest'}, meta)})
        reg.default_meta = meta
        nodes = [reg.add(copy.deepcopy(s), u, meta) for s, u in zip(self.docs, uris)]
        self.values = self.docs
        if self.entries:
            nodes = [next(n for n in reg.nodes if n.keys == k) for k in self.entries]
            self.values = [self.docs[0]['$defs'][k[1]] for k in self.entries]
        ev = Evaluator(reg, max_depth=60, max_steps=250, custom={'x-nest': lambda *a: False})
        ctx.store['dbg'] = (self.docs, self.insts)
        self.ok = []
        for i in range(len(nodes)):
            for j, (x, sub) in enumerate(self.insts):
                try:
                    m = ev.evaluate(nodes[i], x if sub is None else x[sub])
                    self.ok.append((i, j, m.valid))
                except (Ambiguous, Infinite):
                    ctx.event('skipped: infinite or undetermined')
        self.want = {}
        for i, j, v in self.ok:
            # one fresh evaluation each: own cache, own schema objects, own instance
            with cat.cache() as cid:
                js = self.make(cid)
                res = js[i].evaluate(self.instance(j))
                if v is not None:
                    check(res.valid is v, f'verdict {res.valid}, specification says {v}', schema=json.dumps(self.values[i]), instance=json.dumps(self.insts[j][0]), draft=d)
                self.want[i, j] = snap(res)

    def make(self, cid):
        from jschon import JSONSchema, URI
        meta = URI('https://p.test/meta/' + self.d)
        js = [JSONSchema(copy.deepcopy(s), catalog=self.cat, cacheid=cid, uri=URI(f'https://x.test/s{i}'), metaschema_uri=meta) for i, s in enumerate(self.docs)]
        if self.entries:
            js = [js[0][k[0]][k[1]] for k in self.entries]
        return js

    def instance(self, j):
        from jschon import JSON
        x, sub = self.insts[j]
        jx = JSON(copy.deepcopy(x))
        return jx if sub is None else jx[sub]

    def info(self):
        return dict(schemas=json.dumps(self.docs), instances=json.dumps(self.insts), draft=self.d)


def nest_targets(ctx, p, js, insts):
    return [dict(js=js[i], inst=insts[j], want=p.want[i, j]) for i, j, v in p.ok]


def unchanged(ctx, p, js, insts):
    for i, s in enumerate(js):
        check(canon(s.value) == canon(p.values[i]) and s == p.values[i], 'evaluation modified the schema', now=json.dumps(s.value), **p.info())
        ctx.event('schemas compared after')
    for j, x in enumerate(insts):
        root = x
        while root.parent is not None:
            root = root.parent
        check(canon(root.value) == canon(p.insts[j][0]) and json.dumps(root.value) == json.dumps(p.insts[j][0]), 'evaluation modified the instance', now=json.dumps(root.value), **p.info())
        ctx.event('instances compared after')


def flush_nested(ctx, p):
    st = ctx.store
    ctx.event('nested evaluations', st.pop('nested', 0))
    if st['bad']:
        c, d = st['bad'].pop()
        del st['bad'][:]
        check(False, 'an evaluation nested in another differs from a fresh one', difference=d, **p.info())


def history(ctx, r):
    p = Pool(ctx, r)
    if not p.ok:
        return
    st = ctx.store
    shape = []
    with p.cat.cache() as cid:
        js = p.make(cid)
        insts = [p.instance(j) for j in range(len(p.insts))]
        st['nest'] = nest_targets(ctx, p, js, insts)
        st['local'].rng = random.Random(r.random())
        kept, iters = [], []
        for step in range(r.choice([8, 12, 16])):
            x = r.random()
            if x < .5 or not kept:
                i, j, _ = r.choice(p.ok)
                inst = insts[j] if r.random() < .7 else p.instance(j)
                if p.insts[j][1] is not None:
                    ctx.event('subnode instances')
                res = js[i].evaluate(inst)
                kept.append((i, j, res))
                shape.append('e')
                ctx.event('history evaluations')
                if r.random() < .6:
                    fs = [r.choice(FORMATS + ['basic']) for _ in range(r.choice([1, 2]))]
                    d = diff(p.want[i, j], snap(res, fs))
                    check(d is None, 'an evaluation differs from a fresh one', difference=d, schema=i, instance=j, **p.info())
                    ctx.event('output calls', len(fs))
            elif x < .62:
                i, j, res = r.choice(kept)
                it = iter(res.collect_annotations() if r.random() < .6 else res.collect_errors())
                next(it, None)
                iters.append(it)
                shape.append('i')
                ctx.event('partial iterators')
                if r.random() < .5:
                    for y in r.choice(iters):
                        pass
            elif x < .7:
                s = r.choice(js)
                v = s.validate()
                shape.append('v')
                ctx.event('validate')
                if r.random() < .3:
                    v.output('basic')
            elif x < .78:
                # output with filters
                i, j, res = r.choice(kept)
                res.output('basic', annotations=r.choice([['title'], [], None, ['properties', 'items']]) if res.valid else None)
                ctx.event('output calls')
                shape.append('f')
            else:
                i, j, res = r.choice(kept)
                fs = r.sample(FORMATS, r.choice([1, 2, 4]))
                d = diff(p.want[i, j], snap(res, fs))
                check(d is None, 'an earlier result changed', difference=d, schema=i, instance=j, history=''.join(shape), **p.info())
                ctx.event('earlier results re-observed')
                ctx.event('output calls', len(fs))
                shape.append('r')
            flush_nested(ctx, p)
        for i, j, res in kept:
            fs = r.sample(FORMATS, 2)
            d = diff(p.want[i, j], snap(res, fs))
            check(d is None, 'an earlier result changed', difference=d, schema=i, instance=j, history=''.join(shape), **p.info())
            ctx.event('earlier results re-observed')
            ctx.event('output calls', 2)
        unchanged(ctx, p, js, insts)
        flush_nested(ctx, p)
        st['nest'] = []
    ctx.state(p.d, ''.join(shape), len(p.docs))
    ctx.sample({'schemas': p.docs, 'instances': p.insts, 'history': ''.join(shape)})


class Sched:
    """A baton passed between threads at traced lines; the order is seeded."""

    def __init__(self, n, rng, tree, p):
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.live = set(range(n))
        self.rng, self.tree, self.p = rng, tree, p
        self.trace = []
        self.broken = False

    def switch(self, me):
        if self.broken:
            return
        others = [t for t in self.live if t != me]
        if not others:
            return
        t = self.rng.choice(others)
        self.trace.append(t)
        self.sem[t].release()
        if not self.sem[me].acquire(timeout=3.0):
            self.broken = True      # a lock in the code under test: run free
            for s in self.sem:
                s.release()

    def done(self, me):
        self.live.discard(me)
        if self.live and not self.broken:
            t = self.rng.choice(sorted(self.live))
            self.sem[t].release()

    def tracer(self, me):
        tree, rng, p = self.tree, self.rng, self.p

        def local(frame, event, arg):
            if event == 'line' and rng.random() < p:
                self.switch(me)
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(tree):
                return local
            return None
        return glob


def scheduled(ctx, r):
    run_threads(ctx, r, True)


def free(ctx, r):
    run_threads(ctx, r, False)


def run_threads(ctx, r, sched):
    import os
    p = Pool(ctx, r, small=True)
    if not p.ok:
        return
    st = ctx.store
    n = r.choice([2, 3, 4])
    errors, done = [], []
    plans = [[r.choice(p.ok)[:2] for _ in range(r.choice([1, 2, 3]) if sched else r.choice([3, 5]))] for _ in range(n)]
    if r.random() < .4:
        plans = [plans[0]] * n
    seeds = [r.random() for _ in range(n)]
    builder = r.random() < .3
    fresh = r.random() < .6
    with p.cat.cache() as cid:
        js = p.make(cid)
        insts = [p.instance(j) for j in range(len(p.insts))]
        st['nest'] = nest_targets(ctx, p, js, insts)
        if not fresh:
            for i, j, _ in p.ok:
                js[i].evaluate(insts[j])
        else:
            ctx.event('first use in threads')
        S = Sched(n, random.Random(r.random()), os.path.join(ctx.scratch, 'tree'), r.choice([.002, .01, .05])) if sched else None

        def work(me):
            st['local'].rng = random.Random(seeds[me])
            st['local'].depth = 0
            rng = random.Random(seeds[me] + 1)
            try:
                if S:
                    S.sem[me].acquire(timeout=20)
                    sys.settrace(S.tracer(me))
                for i, j in plans[me]:
                    res = js[i].evaluate(insts[j])
                    got = snap(res, [rng.choice(FORMATS), 'basic'])
                    d = diff(p.want[i, j], got)
                    if d:
                        errors.append(('an evaluation in a thread differs from a fresh one', d, i, j))
                    done.append((i, j, res))
                    if builder and me == 0:
                        with p.cat.cache() as c2:
                            s2 = p.make(c2)
                            d = diff(p.want[i, j], snap(s2[i].evaluate(p.instance(j)), ['basic']))
                            if d:
                                errors.append(('a schema built in a thread evaluates differently', d, i, j))
                            ctx.event('construction alongside')
            except Exception as e:
                import traceback
                errors.append((f'{type(e).__name__} in a thread: {e}', traceback.format_exc(), -1, -1))
            finally:
                sys.settrace(None)
                if S:
                    S.done(me)
        old = sys.getswitchinterval()
        sys.setswitchinterval(old if sched else 2e-5)
        try:
            ts = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(n)]
            for t in ts:
                t.start()
            if S:
                S.sem[r.randrange(n)].release()
            for t in ts:
                t.join(120)
        finally:
            sys.setswitchinterval(old)
        if any(t.is_alive() for t in ts):
            raise RuntimeError('threads did not finish')
        st['nest'] = []
        if errors:
            m, d, i, j = errors[0]
            check(False, m, difference=d, schema=i, instance=j, threads=n, first_use=fresh, **p.info())
        for i, j, res in done:
            d = diff(p.want[i, j], snap(res, ['basic', 'verbose']))
            check(d is None, 'a result obtained in a thread changed later', difference=d, schema=i, instance=j, **p.info())
        flush_nested(ctx, p)
        unchanged(ctx, p, js, insts)
        if S:
            ctx.event('scheduled threads evaluations', len(done))
            ctx.event('scheduled switches', len(S.trace))
            ctx.event('scheduler abandoned', int(S.broken))
            ctx.state('sched', n, tuple(S.trace[:400]))
        else:
            ctx.event('free threads evaluations', len(done))
            ctx.state('free', n, len(p.docs), tuple(map(tuple, plans[0])), p.d)
    ctx.sample({'schemas': p.docs, 'threads': n, 'plans': plans, 'switches': len(S.trace) if S else None})


UNITS = {'history': (history, 1000, 14000), 'scheduled': (scheduled, 350, 5000), 'free': (free, 200, 4000)}
