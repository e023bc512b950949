"""C14: failing constructions leave no trace."""
import copy, json
from lib.genschema import Gen
from lib.models import uri_resolve
from lib.refeval import *
from lib.smon import DRAFTS, catalog
from lib.harness import check, short

RULE = ('histories of good and failing constructions over graphs of documents and metaschemas with faults injected at sources, references, metaschemas and keywords at any depth; after every '
        'failure all earlier look-ups must give the identical objects and verdicts, the failed ones must fail again alike, and succeed after the fault is removed. '
        'State: (fault, position, entry, transitive, earlier objects)')
FAULTS = ['missing', 'oserror', 'exception', 'interrupt', 'bad pointer', 'bad anchor', 'bad fragment elsewhere', 'bad document', 'no metaschema', 'bad metaschema', 'regex', 'recursiveRef', 'id fragment',
          'relative $schema', 'not a schema', 'subschema not a schema', 'keyword constructor', 'keyword resolve', 'bad dynamicRef', 'bad $ref type']
REQUIRED = {f'fault {f}': 60 for f in FAULTS}
REQUIRED.update({'failures': 3000, 'repeated failures': 3000, 'failed look-ups': 6000, 'identity after failure': 6000, 'verdicts after failure': 6000, 'healed': 1500, 'healed verdicts': 3000,
                 'transitive failures': 1000, 'good constructions': 1500, 'failed replacement of a live schema': 150, 'metaschema failures': 1500, 'metaschema healed': 400, 'standard metaschemas kept': 1500,
                 'schema under failed metaschema': 400})


class Interrupt(BaseException):
    pass


class Boom(Exception):
    pass


def setup(ctx):
    from jschon import create_catalog, URI
    from jschon.catalog import Source
    from jschon.vocabulary import Keyword

    w = ctx.store['world'] = {'docs': {}, 'fault': {}, 'boom': False}

    class Mem(Source):
        def __call__(s, rel):
            f = w['fault'].get(rel)
            if f == 'oserror':
                raise OSError(2, 'gone', rel)
            if f == 'exception':
                raise Boom('source')
            if f == 'interrupt':
                raise Interrupt('source')
            if f == 'missing':
                raise KeyError(rel)
            return copy.deepcopy(w['docs'][rel])

    class BoomKeyword(Keyword):
        key = 'boom'

        def __init__(self, parentschema, value):
            super().__init__(parentschema, value)
            if value == 'init':
                raise Boom('constructor')

        def resolve(self):
            if self.json.value == 'resolve':
                raise Boom('resolve')

    cat = ctx.store['cat'] = create_catalog('2019-09', '2020-12', 'next', name='c14')
    cat.add_uri_source(URI('https://f.test/'), Mem())
    cat.create_vocabulary(URI('https://f.test/vocab/boom'), BoomKeyword)
    for d in DRAFTS:
        m = meta_doc(f'https://f.test/meta/{d}', d, {'https://f.test/vocab/boom': True})
        w['docs'][f'meta/{d}'] = m
        cat.create_metaschema(URI(f'https://f.test/meta/{d}'))
    bad = meta_doc('https://f.test/meta/bad', D20, {})
    bad['minLength'] = -1
    w['docs']['meta/bad'] = bad
    ctx.store['n'] = 0


def meta_doc(uri, d, extra):
    voc = {VOC[d] + v: True for v in VOCABS[d]}
    voc.update(extra)
    m = {'$schema': META[d], '$id': uri, '$vocabulary': voc, 'allOf': [{'$ref': META[d]}]}
    m.update({'$recursiveAnchor': True} if d == D19 else {'$dynamicAnchor': 'meta'})
    return m


def nest(r, doc, sub, d):
    """put `sub` at a random depth into doc"""
    depth = r.choice([0, 1, 1, 2, 3])
    for _ in range(depth):
        w = r.choice(['properties', 'allOf', 'not', '$defs', 'items', 'anyOf', 'additionalProperties', 'dependentSchemas'])
        sub = {w: {r.choice('xyz'): sub} if w in ('properties', '$defs', 'dependentSchemas') else [True, sub] if w in ('allOf', 'anyOf') else sub}
    key = r.choice(['properties', '$defs', 'allOf'])
    items = list(doc.items())
    if key in doc:
        if isinstance(doc[key], dict):
            doc[key] = {**doc[key], 'zz': sub} if r.random() < .5 else {'zz': sub, **doc[key]}
        else:
            doc[key] = doc[key] + [sub]
    else:
        items.insert(r.randint(0, len(items)), (key, [sub] if key == 'allOf' else {'zz': sub}))
        doc = dict(items)
    return doc, depth


def body(r, d):
    g = Gen(r, d, unevaluated=.1, annotations=0, unknown=0)
    s = g.schema(r.choice([1, 2]))
    return s if isinstance(s, dict) else {'not': s} if r.random() < .5 else {'type': 'object'}


def world(ctx, r, d, base, meta):
    """n documents referring to each other; {name: (good doc, refs)}"""
    n = r.choice([1, 2, 3, 3, 4])
    names = [f'n{i}' for i in range(n)]
    docs, refs = {}, {}
    for i, nm in enumerate(names):
        s = {}
        if r.random() < .5:
            s['$id'] = base + nm if r.random() < .6 else nm
        if r.random() < .7:
            s['$schema'] = meta
        defs = {'d': body(r, d)}
        if r.random() < .6:
            defs['d']['$anchor'] = 'anc'
        if r.random() < .5:
            defs['e'] = {'$id': f'sub-{nm}', **body(r, d)}
            if r.random() < .5:
                defs['e']['$anchor'] = 'inner'
        if d != D19 and r.random() < .3:
            defs['dyn'] = {'$dynamicAnchor': 'dyn', 'type': ['object', 'string']}
        s['$defs'] = defs
        s.update({k: v for k, v in body(r, d).items() if k not in ('$defs',)})
        rs = []
        for m in r.sample(names, r.choice([0, 1, 1, 2]) if n > 1 else r.choice([0, 1])):
            f = '#/$defs/d' if r.random() < .6 else ''
            rs.append((m, f))
        props = s.setdefault('properties', {})
        for j, (m, f) in enumerate(rs):
            props['r' + str(j)] = {'$ref': m + f if m != nm or r.random() < .5 else f or '#'}
        items = list(s.items())
        r.shuffle(items)
        docs[nm] = dict(items)
        refs[nm] = [m for m, f in rs]
    return names, docs, refs


def break_(r, kind, doc, nm, names, base, d, meta):
    """-> (faulty document or None when the source fails, description)"""
    doc = copy.deepcopy(doc)
    if kind in ('missing', 'oserror', 'exception', 'interrupt'):
        return doc, kind
    if kind == 'not a schema':
        return r.choice([5, None, 'x', [], [{}], 1.5]), kind
    if kind == 'no metaschema':
        if r.random() < .5:
            return {**doc, '$schema': base + 'nometa'}, kind
        sub = {'$schema': base + 'nometa', '$id': 'sub-nometa', 'type': 'object'}
    elif kind == 'bad metaschema':
        if r.random() < .5:
            return {**doc, '$schema': 'https://f.test/meta/bad'}, kind
        sub = {'$schema': 'https://f.test/meta/bad', '$id': 'sub-badmeta', 'type': 'object'}
    elif kind == 'relative $schema':
        if r.random() < .5:
            return {**doc, '$schema': r.choice(['meta', '/x', '', '#'])}, kind
        sub = {'$schema': r.choice(['meta', '/x']), '$id': 'sub-rel'}
    elif kind == 'bad pointer':
        sub = {'$ref': r.choice(['#/$defs/nope', '#/$defs', '#/nope/0', f'{nm}#/$defs/nope', '#/allOf/99', '#/properties'])}
    elif kind == 'bad anchor':
        sub = {'$ref': r.choice(['#nope', f'{nm}#nope'])}
    elif kind == 'bad fragment elsewhere':
        o = r.choice(names)
        sub = {'$ref': o + r.choice(['#nope', '#/$defs/nope', '#/$defs/d/nope'])}
    elif kind == 'bad document':
        sub = {'$ref': r.choice(['gone', base + 'gone#/x', 'https://nosource.test/x', 'urn:no:source'])}
    elif kind == 'bad dynamicRef':
        sub = {'$recursiveRef': '#x'} if d == D19 else {'$dynamicRef': r.choice(['#nope', 'gone#dyn', '#/$defs/nope'])}
    elif kind == 'regex':
        sub = r.choice([{'pattern': '('}, {'pattern': '*a'}])
    elif kind == 'recursiveRef':
        sub = {'$recursiveRef': 'x'} if d == D19 else {'$ref': '#/$defs/none'}
    elif kind == 'id fragment':
        sub = {'$id': 'sub-frag#frag', 'type': 'object'}
    elif kind == 'subschema not a schema':
        sub = r.choice([{'allOf': [True, 5]}, {'properties': {'a': 'x'}}, {'anyOf': [{}, None]}])
    elif kind == 'keyword constructor':
        sub = {'boom': 'init'}
    elif kind == 'keyword resolve':
        sub = {'boom': 'resolve'}
    elif kind == 'bad $ref type':
        sub = {r.choice(['$ref', '$id']): r.choice([5, None, [], {}])}
    if r.random() < .3:
        sub = {'$id': f'sub-broken-{nm}', '$anchor': 'inbroken', **sub} if '$id' not in sub else sub
    doc, depth = nest(r, doc, sub, d)
    return doc, kind + f' depth {depth}'


def uris_of(doc, uri):
    """every URI the document gives a name to"""
    out = {uri: ()}

    def rec(v, base, ks):
        if isinstance(v, dict):
            if isinstance(v.get('$id'), str) and '#' not in v['$id'] and ks:
                base = uri_resolve(v['$id'], base)
                out[base] = ks
            for a in ('$anchor', '$dynamicAnchor'):
                if isinstance(v.get(a), str):
                    out[base + '#' + v[a]] = ks
            for k, x in v.items():
                rec(x, base, ks + (k,))
        elif isinstance(v, list):
            for i, x in enumerate(v):
                rec(x, base, ks + (str(i),))
    rec(doc, uri, ())
    if isinstance(doc, dict) and isinstance(doc.get('$defs'), dict):
        for k in doc['$defs']:
            out[f'{uri}#/$defs/{k}'] = ('$defs', k)
    return out


def attempt(fn):
    try:
        return fn(), None
    except Interrupt as e:
        return None, e
    except Exception as e:
        return None, e


def insts(r, g, doc):
    return [g.instance(doc) if r.random() < .5 else {'r0': g.instance(doc), 'r1': r.choice([1, 'a', {}]), 'a': 1} for _ in range(3)]


def closure(nm, refs, resident):
    seen, todo = [], [nm]
    while todo:
        x = todo.pop()
        if x in seen or (x in resident and x != nm):
            continue
        seen.append(x)
        todo += refs[x]
    return seen


def documents(ctx, r):
    from jschon import JSONSchema, URI, JSON
    w, cat = ctx.store['world'], ctx.store['cat']
    ctx.store['n'] += 1
    d = r.choice(DRAFTS)
    meta = f'https://f.test/meta/{d}'
    rel = f'w{ctx.store["n"]}/'
    base = 'https://f.test/' + rel
    names, good, refs = world(ctx, r, d, base, meta)
    faulty = {}
    w['fault'].clear()
    for k in [k for k in w['docs'] if not k.startswith('meta/')]:
        del w['docs'][k]
    for nm in r.sample(names, r.choice([1, 1, 1, 2]) if len(names) > 1 else 1):
        kind = r.choice(FAULTS)
        fd, desc = break_(r, kind, good[nm], nm, names, base, d, meta)
        faulty[nm] = (kind, desc)
        w['docs'][rel + nm] = fd
        if kind in ('missing', 'oserror', 'exception', 'interrupt'):
            w['fault'][rel + nm] = kind
    for nm in names:
        w['docs'].setdefault(rel + nm, good[nm])
    dial = std_dialect(d)
    reg = Registry(dialects={meta: Dialect(d, dial.kw | {'boom'}, meta)}, loader=lambda u: copy.deepcopy(good.get(u[len(base):])) if u.startswith(base) else None)
    reg.default_meta = meta
    nodes = {nm: reg.add(copy.deepcopy(good[nm]), base + nm, meta) for nm in names}
    ev = Evaluator(reg, custom={'boom': lambda *a: False})
    g = Gen(r, d)
    live = {}       # uri -> object
    verd = []       # (object, instance, verdict)
    resident = set()

    def note(nm, js, healed=False):
        """record a usable schema and judge it"""
        resident.add(nm)
        for u, ks in uris_of(good[nm], base + nm).items():
            s = cat.get_schema(URI(u), cacheid=cid)
            check(isinstance(s, JSONSchema) and (u != base + nm or s is js), 'a constructed schema cannot be looked up by its URI', uri=u, **info())
            if u in live:
                check(live[u] is s, 'a later construction replaced an earlier schema object', uri=u, **info())
            live[u] = s
        for x in insts(r, g, good[nm]):
            try:
                m = ev.evaluate(nodes[nm], x)
            except (Infinite, Ambiguous):
                continue
            got = js.evaluate(JSON(x)).valid
            check(got is m.valid, f'verdict {got}, specification says {m.valid}' + (' after the fault was removed' if healed else ''), instance=json.dumps(x), schema=nm, **info())
            if healed:
                ctx.event('healed verdicts')
            verd.append((js, x, got))

    def info():
        return dict(docs=json.dumps({k: v for k, v in w['docs'].items() if k.startswith(rel)}), faults=str(faulty), history=str(hist))

    def construct(nm, how):
        if how == 'get':
            return attempt(lambda: cat.get_schema(URI(base + nm), cacheid=cid, metaschema_uri=URI(meta)))
        if how == 'fragment':
            return attempt(lambda: cat.get_schema(URI(base + nm + '#/$defs/d'), cacheid=cid, metaschema_uri=URI(meta)))
        doc = w['docs'][rel + nm]
        f = w['fault'].get(rel + nm)
        if f:
            return attempt(lambda: cat.get_schema(URI(base + nm), cacheid=cid, metaschema_uri=URI(meta)))
        return attempt(lambda: JSONSchema(copy.deepcopy(doc), catalog=cat if r.random() < .8 else 'c14', cacheid=cid, metaschema_uri=URI(meta), uri=URI(base + nm)))

    def survivors(where):
        for u, s in r.sample(sorted(live.items()), min(len(live), 8)):
            got, e = attempt(lambda: cat.get_schema(URI(u), cacheid=cid))
            check(e is None and got is s, f'a schema usable before {where} is no longer the identical object', uri=u, got=repr(e or got), **info())
            ctx.event('identity after failure')
        for js, x, v in r.sample(verd, min(len(verd), 4)):
            got, e = attempt(lambda: js.evaluate(JSON(x)).valid)
            check(e is None and got is v, f'a schema usable before {where} evaluates differently', was=v, now=repr(e or got), instance=json.dumps(x), schema=str(js.uri), **info())
            ctx.event('verdicts after failure')
        for dd in r.sample(DRAFTS, 1):
            check(cat.get_metaschema(URI(META[dd])) is ctx.store.setdefault('std' + dd, cat.get_metaschema(URI(META[dd]))), 'a standard metaschema was replaced', **info())

    hist = []
    with cat.cache() as cid:
        for step in range(r.choice([3, 5, 7])):
            nm = r.choice(names)
            ctx.store['last'] = (nm, hist, w['docs'])
            if nm in resident:
                # an attempt to replace a live schema by a faulty one
                if r.random() < .6:
                    kind = r.choice([k for k in FAULTS if k not in ('missing', 'oserror', 'exception', 'interrupt')])
                    fd, desc = break_(r, kind, good[nm], nm, names, base, d, meta)
                    hist.append(('replace', nm, desc))
                    got, e = attempt(lambda: JSONSchema(copy.deepcopy(fd), catalog=cat, cacheid=cid, metaschema_uri=URI(meta), uri=URI(base + nm)))
                    check(e is not None, 'a faulty document was accepted', doc=json.dumps(fd), fault=desc, **info())
                    ctx.event('failed replacement of a live schema')
                    survivors('a failed replacement')
                continue
            how = r.choice(['get', 'get', 'direct', 'fragment'])
            cl = closure(nm, refs, resident)
            bad = [x for x in cl if x in faulty]
            hist.append((how, nm))
            got, e = construct(nm, how)
            if not bad:
                check(e is None, 'a construction that must succeed failed', error=repr(e), **info())
                js = cat.get_schema(URI(base + nm), cacheid=cid)
                note(nm, js)
                for x in cl:
                    resident.add(x)
                    for u in uris_of(good[x], base + x):
                        if u not in live:
                            live[u] = cat.get_schema(URI(u), cacheid=cid)
                ctx.event('good constructions')
                continue
            check(e is not None, 'a construction that must fail succeeded', schema=nm, **info())
            ctx.event('failures')
            for x in bad:
                ctx.event('fault ' + faulty[x][0])
            trans = nm not in faulty
            if trans:
                ctx.event('transitive failures')
            ctx.state(tuple(sorted(faulty[x][1] for x in bad)), how, trans, bool(live), d)
            # look-ups of everything the failed documents name
            for x in {nm, *bad}:
                doc = w['docs'][rel + x]
                loadable = rel + x
                for u in r.sample(sorted(uris_of(doc, base + x)), min(len(uris_of(doc, base + x)), 6)):
                    if u in live:
                        continue
                    g2, e2 = attempt(lambda: cat.get_schema(URI(u), cacheid=cid, metaschema_uri=URI(meta)))
                    check(e2 is not None, 'a schema whose construction failed can be looked up afterwards', uri=u, failure=repr(e), **info())
                    ctx.event('failed look-ups')
            got2, e2 = construct(nm, how)
            check(e2 is not None, 'the same construction succeeds the second time', schema=nm, failure=repr(e), **info())
            check(type(e2) is type(e), f'the failure changes from {type(e).__name__} to {type(e2).__name__}', first=repr(e), second=repr(e2), **info())
            ctx.event('repeated failures')
            survivors('a failed construction')
            # a document that is not faulty itself may have been kept, complete
            for x in cl:
                if x not in bad and x not in resident and not any(y in faulty for y in closure(x, refs, resident)):
                    s, e3 = attempt(lambda: cat.get_schema(URI(base + x), cacheid=cid, metaschema_uri=URI(meta)))
                    check(e3 is None, 'a good document met during a failed construction is not usable', uri=x, error=repr(e3), **info())
                    note(x, s)
                    for y in closure(x, refs, resident):
                        resident.add(y)
                        for u in uris_of(good[y], base + y):
                            if u not in live:
                                live[u] = cat.get_schema(URI(u), cacheid=cid)
            if r.random() < .6:
                # remove the causes
                for x in list(faulty):
                    if r.random() < .8:
                        del faulty[x]
                        w['docs'][rel + x] = good[x]
                        w['fault'].pop(rel + x, None)
                if any(x in faulty for x in closure(nm, refs, resident)):
                    continue
                hist.append(('heal', nm, how))
                got, e = construct(nm, how)
                check(e is None, 'construction still fails after its cause was removed', schema=nm, error=repr(e), **info())
                js = cat.get_schema(URI(base + nm), cacheid=cid)
                ctx.event('healed')
                note(nm, js, True)
                for x in closure(nm, refs, resident):
                    resident.add(x)
                    for u in uris_of(good[x], base + x):
                        if u not in live:
                            live[u] = cat.get_schema(URI(u), cacheid=cid)
                survivors('a later construction')
    ctx.sample({'history': hist, 'faults': str(faulty)})


MFAULTS = ['missing', 'exception', 'interrupt', 'invalid', 'invalid deep', 'required vocabulary', 'no core', 'two cores', 'bad ref', 'missing vocabulary document', 'no $schema', 'schema of unknown', 'regex', 'core false',
           'bad vocabulary uri']


def metaschemas(ctx, r):
    from jschon import JSONSchema, URI, JSON
    w, cat = ctx.store['world'], ctx.store['cat']
    ctx.store['n'] += 1
    d = r.choice(DRAFTS)
    rel = f'm{ctx.store["n"]}/'
    base = 'https://f.test/' + rel
    uri = base + 'meta'
    good = meta_doc(uri, d, {base + 'vocab/opt': False})
    good['allOf'].append({'$ref': 'part'})
    good['properties'] = {'x-limit': {'type': 'integer'}}
    if r.random() < .4:
        good['$defs'] = {'deep': {'$anchor': 'deep', 'type': 'object'}, 'sub': {'$id': base + 'metasub', 'type': 'object'}}
    part = {'$id': base + 'part', '$schema': META[d], 'properties': {'x-name': {'type': 'string'}}}
    if r.random() < .5:
        good['$id'] = uri
    w['fault'].clear()
    kind = r.choice(MFAULTS)
    m, p = copy.deepcopy(good), copy.deepcopy(part)
    if kind in ('missing', 'exception', 'interrupt'):
        w['fault'][rel + r.choice(['meta', 'meta', 'part'])] = kind
    elif kind == 'invalid':
        m[r.choice(['minLength', 'maxItems'])] = r.choice([-1, 'x'])
    elif kind == 'invalid deep':
        m['properties']['y'] = {'items': {'minLength': -1}} if r.random() < .5 else {'type': 12}
    elif kind == 'required vocabulary':
        m['$vocabulary'][base + 'vocab/req'] = True
    elif kind == 'no core':
        del m['$vocabulary'][VOC[d] + 'core']
    elif kind == 'two cores':
        m['$vocabulary'][VOC[{D19: D20, D20: D19, DN: D20}[d]] + 'core'] = True
    elif kind == 'core false':
        m['$vocabulary'][VOC[d] + 'core'] = False
    elif kind == 'bad vocabulary uri':
        m['$vocabulary'][r.choice(['relative', ''])] = True
    elif kind == 'bad ref':
        m['allOf'].append({'$ref': '#/$defs/nope'})
    elif kind == 'missing vocabulary document':
        m['allOf'].append({'$ref': 'nodoc'})
    elif kind == 'no $schema':
        del m['$schema']
    elif kind == 'schema of unknown':
        m['$schema'] = base + 'unknown'
    elif kind == 'regex':
        m['properties']['p'] = {'pattern': '('}
    w['docs'][rel + 'meta'], w['docs'][rel + 'part'] = m, p
    schema = {'$schema': uri, 'type': 'object', 'properties': {'a': {'type': 'integer'}}, 'x-limit': 3}
    ctx.store['last'] = (kind, m)
    std = {dd: cat.get_metaschema(URI(META[dd])) for dd in DRAFTS}
    keep = {dd: JSONSchema({'$schema': META[dd], 'properties': {'a': {'type': 'integer'}}}, catalog=cat, cacheid=(cidk := f'k{ctx.store["n"]}{dd}')) for dd in DRAFTS}
    info = dict(kind=kind, metaschema=json.dumps(m), faults=str(w['fault']))
    with cat.cache() as cid:
        def op(how):
            if how == 'create':
                return attempt(lambda: cat.create_metaschema(URI(uri)))
            if how == 'get':
                return attempt(lambda: cat.get_metaschema(URI(uri)))
            if how == 'schema':
                return attempt(lambda: JSONSchema(copy.deepcopy(schema), catalog=cat, cacheid=cid, uri=URI(base + 's')))
            if how == 'arg':
                return attempt(lambda: JSONSchema({k: v for k, v in schema.items() if k != '$schema'}, catalog=cat, cacheid=cid, uri=URI(base + 's'), metaschema_uri=URI(uri)))
            if how == 'nested':
                return attempt(lambda: JSONSchema({'$schema': META[d], '$defs': {'x': {'$id': base + 'inner', **schema}}}, catalog=cat, cacheid=cid, uri=URI(base + 'outer')))
        first = {}
        order = [r.choice(['create', 'get', 'schema', 'arg', 'nested']) for _ in range(r.choice([3, 4, 6]))]
        for how in order:
            got, e = op(how)
            check(e is not None, f'a faulty metaschema is accepted ({how})', order=str(order), **info)
            ctx.event('metaschema failures')
            if how in ('schema', 'arg', 'nested'):
                ctx.event('schema under failed metaschema')
                for u in (base + 's', base + 'inner', base + 'outer', base + 's#/properties/a'):
                    g2, e2 = attempt(lambda: cat.get_schema(URI(u), cacheid=cid))
                    check(e2 is not None, 'a schema whose metaschema failed can be looked up', uri=u, **info)
            if how in first:
                check(type(e) is type(first[how]), f'the failure changes from {type(first[how]).__name__} to {type(e).__name__}', first=repr(first[how]), second=repr(e), how=how, order=str(order), **info)
            first.setdefault(how, e)
            ctx.state('meta', kind, how, d)
            for dd in DRAFTS:
                check(cat.get_metaschema(URI(META[dd])) is std[dd], 'a standard metaschema was replaced by a failed metaschema', draft=dd, **info)
                check(keep[dd].evaluate(JSON({'a': 'x'})).valid is False and keep[dd].evaluate(JSON({'a': 1})).valid is True and keep[dd].validate().valid is True, 'an earlier schema evaluates differently', **info)
            ctx.event('standard metaschemas kept')
        # heal
        w['fault'].clear()
        w['docs'][rel + 'meta'], w['docs'][rel + 'part'] = good, part
        order2 = r.sample(['create', 'get', 'schema', 'arg', 'nested'], r.choice([2, 3, 5]))
        for how in order2:
            got, e = op(how)
            check(e is None, f'the metaschema still fails after its fault was removed ({how})', error=repr(e), order=str(order), healed=str(order2), **info)
            if how in ('schema', 'arg'):
                check(got.evaluate(JSON({'a': 'x'})).valid is False and got.evaluate(JSON({'a': 1})).valid is True, 'a schema under the repaired metaschema evaluates wrongly', **info)
                check(got.validate().valid is True, 'a schema under the repaired metaschema does not validate', **info)
                bad = JSONSchema({'$schema': uri, 'x-limit': 'no'}, catalog=cat, cacheid=cid)
                check(bad.validate().valid is False, 'the repaired metaschema does not constrain its schemas', **info)
        ctx.event('metaschema healed')
    for u in (uri, base + 'part', base + 'metasub', uri + '#meta', uri + '#deep', META[d] + '#x'):
        cat.del_schema(URI(u), cacheid='__meta__')
    for dd in DRAFTS:
        cat.del_schema(keep[dd].uri, cacheid=f'k{ctx.store["n"]}{dd}')
    ctx.sample({'fault': kind, 'order': order})


UNITS = {'documents': (documents, 4000, 60000), 'metaschemas': (metaschemas, 700, 9000)}
