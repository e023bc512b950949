"""C25: format asserts only when enabled, and always annotates."""
import json, re
from collections import Counter
from lib.models import canon, ptr_str, jtype
from lib.refeval import *
from lib.smon import DRAFTS, norm_loc
from lib.harness import check, short
from lib.tree import plain
from lib import gen

RULE = ('histories over up to three catalogs: register recording validators (any instance types, any raising behaviour), enable formats, create schemas, evaluate old and new schemas; '
        'verdict, format annotations and validator calls judged by a model of (catalog, enabled at creation, registered validator). json-pointer strings judged by the RFC grammar. '
        'State: (enabled, registered, type covered, raises, position, draft)')
REQUIRED = {'asserted and rejected': 1500, 'asserted and accepted': 1500, 'type not covered': 1500, 'not enabled': 1500, 'enabled without validator': 200, 'enabled after creation': 500,
            'enabled in another catalog only': 500, 'annotation checked': 4000, 'validator calls': 3000, 'is_format_enabled': 3000, 'json-pointer accepted': 300, 'json-pointer rejected': 300,
            'fresh catalogs': 8, 'one of many formats': 300}
TYPES = ['null', 'boolean', 'number', 'string', 'array', 'object']


def setup(ctx):
    from jschon import create_catalog
    ctx.store['cats'] = [create_catalog('2019-09', '2020-12', 'next', name=f'f{i}') for i in range(3)]
    ctx.store['enabled'] = [set(), set(), set()]
    ctx.store['n'] = 0
    ctx.store['calls'] = []


class Weird(UnicodeError):
    pass


def predicate(r):
    """(description, function plain value -> accepted)"""
    return r.choice([
        ('none', lambda v: False),
        ('all', lambda v: True),
        ('short', lambda v: not hasattr(v, '__len__') or len(v) <= 2),
        ('even', lambda v: len(json.dumps(v)) % 2 == 0),
        ('truthy', lambda v: bool(v)),
        ('first', lambda v: not isinstance(v, str) or v[:1] in ('a', 'é', '')),
        ('nested', lambda v: not isinstance(v, (list, dict)) or all(isinstance(x, (int, str, bool, type(None), float)) for x in (v if isinstance(v, list) else v.values()))),
    ])


def register(ctx, r, name):
    from jschon.vocabulary.format import format_validator
    desc, pred = predicate(r)
    types = ('string',) if r.random() < .4 else tuple(r.sample(TYPES, r.choice([1, 2, 3, 6])))
    how = r.choice(['ValueError', 'ValueError', 'bare', 'subclass', 'message'])
    ret = r.choice([None, False, True, 0])
    calls = ctx.store['calls']

    def validator(v):
        calls.append((name, v))
        if not pred(v):
            if how == 'bare':
                raise ValueError
            if how == 'subclass':
                raise Weird('weird')
            raise ValueError(f'{v!r} is bad' if how == 'message' else 'bad {} %s')
        return ret
    if types == ('string',) and r.random() < .7:
        format_validator(name)(validator)
    else:
        format_validator(name, instance_types=types)(validator)
    return pred, types


def wrap(r, d, leaf, v):
    """put the format schema at some position; returns (schema, instance, position)"""
    w = r.choice(['root', 'root', 'allOf', 'anyOf', 'oneOf', 'not', 'if', 'properties', 'items', '$ref', 'contains', 'additionalProperties', 'propertyNames', 'patternProperties', 'deep'])
    if w == 'root':
        return leaf, v, w
    if w in ('allOf', 'anyOf', 'oneOf'):
        return {w: [leaf] + ([r.choice([True, False, {'type': 'string'}])] if r.random() < .4 else [])}, v, w
    if w == 'not':
        return {'not': leaf}, v, w
    if w == 'if':
        return {'if': leaf, 'then': r.choice([True, False]), 'else': r.choice([True, False])}, v, w
    if w == 'properties':
        return {w: {'p': leaf, 'q': {'format': leaf['format']}}}, {'p': v, 'q': v} if r.random() < .6 else {'p': v}, w
    if w in ('items', 'contains'):
        return {w: leaf}, [v, r.choice(['a', 1, v])], w
    if w == '$ref':
        return {'$ref': '#/$defs/f', '$defs': {'f': leaf}}, v, w
    if w == 'additionalProperties':
        return {w: leaf}, {'x': v}, w
    if w == 'patternProperties':
        return {w: {'^x': leaf}}, {'x': v}, w
    if w == 'propertyNames':
        return {w: leaf}, {v: 1} if isinstance(v, str) else {'k': v}, w
    return {'properties': {'p': {'items': {'allOf': [leaf]}}}}, {'p': [v]}, w


def instance(r):
    x = r.random()
    if x < .5:
        return r.choice(['', 'a', 'ab', 'abc', 'é', '/a', 'not it', '12', '\U0001F600', 'a\n', '\x00', 'x' * 50])
    return r.choice([None, True, False, 0, 1, -1.5, 1e300, 10**20, [], [1], ['a', 'b', 'c'], [[1]], {}, {'a': 1}, {'a': {'b': []}}, {'a': 1, 'b': 2, 'c': 3}])


class Made:
    pass


def make(ctx, r, c, names, world, cid):
    from jschon import JSONSchema, URI
    m = Made()
    m.c, m.name = c, r.choice(names)
    m.draft = r.choice(DRAFTS)
    leaf = {'format': m.name}
    if r.random() < .3:
        leaf['title'] = 't'
    if r.random() < .3:
        leaf['type'] = r.choice([['string', 'number'], ['string', 'null', 'array', 'object', 'number', 'boolean']])
    leaf = dict(sorted(leaf.items(), key=lambda _: r.random()))
    m.leaf = leaf
    m.doc, _, m.pos = wrap(r, m.draft, leaf, 'a')
    m.snapshot = {n: world['reg'][n] for n in names if n in ctx.store['enabled'][c] and n in world['reg']}
    m.enabled = m.name in ctx.store['enabled'][c]
    m.elsewhere = any(m.name in e for e in ctx.store['enabled']) and not m.enabled
    m.unreg = m.enabled and m.name not in world['reg']
    ctx.store['last'] = m.doc
    m.js = JSONSchema(json.loads(json.dumps(m.doc)), catalog=ctx.store['cats'][c], cacheid=cid, metaschema_uri=URI(META[m.draft]))
    reg = Registry()
    m.node = reg.add(m.doc, 'https://x.test/f', META[m.draft])
    m.ev = Evaluator(reg, formats=m.snapshot)
    m.regs = {n: world['reg'].get(n) for n in names}
    return m


def evaluate(ctx, r, m, world):
    from jschon import JSON
    # a validator registered after the schema was created is outside the statement
    if m.enabled and m.regs[m.name] is not world['reg'].get(m.name):
        return
    v = instance(r)
    _, x, _ = wrap_again(m, r, v)
    ctx.store['last'] = (m.doc, x)
    s = m.ev.evaluate(m.node, x)
    calls = ctx.store['calls']
    del calls[:]
    res = m.js.evaluate(JSON(x))
    info = dict(schema=json.dumps(m.doc), instance=json.dumps(x), enabled=m.enabled, types=m.snapshot.get(m.name, (0, 'none'))[1], catalog=m.c, draft=m.draft)
    check(res.valid is s.valid, f'verdict {res.valid}, specification says {s.valid}', **info)
    if m.enabled and m.snapshot.get(m.name) is None:
        ctx.event('enabled without validator')
    leaf_calls = []

    def rec(n):
        for k in n.kws:
            if k.key == 'format':
                t = jtype(n.inst)
                cov = m.name in m.snapshot and t in m.snapshot[m.name][1]
                if cov:
                    leaf_calls.append(canon(n.inst))
                    ctx.event('asserted and ' + ('accepted' if k.valid else 'rejected'))
                elif m.name in m.snapshot:
                    ctx.event('type not covered')
                elif not m.enabled:
                    ctx.event('not enabled')
                    if m.elsewhere:
                        ctx.event('enabled in another catalog only')
                    if m.name in ctx.store['enabled'][m.c]:
                        ctx.event('enabled after creation')
                ctx.state(m.enabled, m.name in m.snapshot, cov, k.valid, m.pos, m.draft, t)
            for q in k.subs:
                rec(q)
    rec(s)
    for n, a in calls:
        check(n == m.name, 'a validator of another format was called', called=n, **info)
        check(type(a) in (str, int, float, bool, type(None), list, dict) and not has_nodes(a), 'a validator received something that is not a JSON-compatible value', got=repr(a), **info)
        check(canon(a) in leaf_calls, 'a validator was called for an instance its format does not cover', got=a, **info)
        ctx.event('validator calls')
    if s.valid:
        want = Counter((canon(a[4]), ptr_str(a[1]), ptr_str(a[2])) for a in annotations(s) if a[0] == 'format')
        got = Counter((canon(plain(a['annotation'])), a['keywordLocation'], a['instanceLocation']) for a in res.output('basic', annotations=['format'])['annotations'])
        check(want == got, 'format annotations differ', want=list((want - got).elements())[:3], extra=list((got - want).elements())[:3], **info)
        ctx.event('annotation checked')


def has_nodes(a):
    if isinstance(a, list):
        return any(has_nodes(x) for x in a)
    if isinstance(a, dict):
        return any(has_nodes(x) for x in a.values())
    return type(a) not in (str, int, float, bool, type(None))


def wrap_again(m, r, v):
    pos = m.pos
    if pos in ('root', 'allOf', 'anyOf', 'oneOf', 'not', 'if', '$ref'):
        return m.doc, v, pos
    if pos == 'properties':
        return m.doc, {'p': v, 'q': v} if r.random() < .6 else {'p': v, 'other': v}, pos
    if pos in ('items', 'contains'):
        return m.doc, [v, r.choice(['a', 1, v])][:r.choice([1, 2, 2])], pos
    if pos in ('additionalProperties', 'patternProperties'):
        return m.doc, {'x': v, **({'xx': instance(r)} if r.random() < .4 else {})}, pos
    if pos == 'propertyNames':
        return m.doc, {v: 1} if isinstance(v, str) else {'k': v, 'ab': 1, 'abc': 2}, pos
    return m.doc, {'p': [v, instance(r)]}, pos


def history(ctx, r):
    ctx.store['n'] += 1
    cats, enabled = ctx.store['cats'], ctx.store['enabled']
    base = f'{ctx.store["n"]}-{r.randrange(10**6)}'
    names = [f'fmt{base}', f'FMT{base}', f'fmt{base}x', f'é/{base}~']
    if r.random() < .5:
        names = [n.replace('-', '') for n in names]
    world = {'reg': {}}
    made = []
    caches = [c.cache() for c in cats]
    cids = [c.__enter__() for c in caches]
    try:
        for step in range(r.choice([8, 12, 18])):
            x = r.random()
            c = r.randrange(3)
            if x < .24 or step < 2:
                n = r.choice(names)
                if n not in world['reg']:
                    world['reg'][n] = register(ctx, r, n)
            elif x < .44:
                ns = r.sample(names, r.choice([1, 1, 2]))
                cats[c].enable_formats(*ns)
                enabled[c] |= set(ns)
            elif x < .7 or not made:
                made.append(make(ctx, r, c, names, world, cids[c]))
            for m in r.sample(made, min(len(made), 3)):
                evaluate(ctx, r, m, world)
            past = ctx.store.setdefault('past', [])
            for n in r.sample(names, 2) + r.sample(past, min(2, len(past))):
                for i in range(3):
                    check(cats[i].is_format_enabled(n) is (n in enabled[i]), 'is_format_enabled differs from the history of enable_formats', catalog=i, format=n, want=n in enabled[i])
                    ctx.event('is_format_enabled')
        for m in made:
            evaluate(ctx, r, m, world)
        past.extend(names)
    finally:
        for c in caches:
            c.__exit__(None, None, None)
    ctx.sample({'schemas': [m.doc for m in made][:3]})


def broken(ctx, r):
    """Only ValueError is a rejection: a validator that breaks is never reported as an invalid instance; many formats in one catalog."""
    from jschon import JSONSchema, URI, JSON, create_catalog
    from jschon.vocabulary.format import format_validator
    ctx.store['n'] += 1
    if 'brk' not in ctx.store or r.random() < .02:
        ctx.store['brk'] = create_catalog('2019-09', '2020-12', 'next', name='brk'), []
    cat, on = ctx.store['brk']
    names = [f'b{ctx.store["n"]}{r.choice(["", "-x", ".y", " z"])}{i}{r.randrange(10**6)}' for i in range(r.choice([1, 2, 3, 5]))]
    made = {}
    for n in names:
        e = r.choice([None, None, TypeError('t'), KeyError('k'), ZeroDivisionError(), AttributeError('a'), IndexError(), RuntimeError('r'), LookupError(), AssertionError('x'), Exception('e'), OSError('o')])
        made[n] = e

        def validator(v, e=e):
            if e is not None:
                raise e
            if v != 'ok':
                raise ValueError('not ok')
        format_validator(n)(validator)
    todo = list(names)
    while todo:
        k = r.choice([1, 1, 2, len(todo)])
        cat.enable_formats(*todo[:k])
        on += todo[:k]
        todo = todo[k:]
    for n in r.sample(on, min(6, len(on))):
        check(cat.is_format_enabled(n) is True, 'an enabled format is no longer enabled', format=n, enabled=len(on))
    d = r.choice(DRAFTS)
    for n in names:
        v = r.choice(['ok', 'bad', ''])
        doc, x = r.choice([({'format': n}, v), ({'properties': {'p': {'format': n}}}, {'p': v}), ({'items': {'allOf': [{'format': n}]}}, ['ok', v])])
        ctx.store['last'] = (doc, x)
        with cat.cache() as cid:
            js = JSONSchema(doc, catalog=cat, cacheid=cid, metaschema_uri=URI(META[d]))
            try:
                got = js.evaluate(JSON(x)).valid
            except Exception as e:
                check(made[n] is not None, f'evaluation raised {type(e).__name__}: {e}', schema=doc, instance=x)
                ctx.event('broken validator raises')
                continue
        if made[n] is None:
            check(got is (v == 'ok'), 'verdict of one of many enabled formats', schema=doc, instance=x, enabled=len(on), got=got)
            ctx.event('one of many formats')
        else:
            check(got is True, f'a validator that broke ({type(made[n]).__name__}) was reported as an invalid instance', schema=doc, instance=x)
            ctx.event('broken validator ignored')
    ctx.state('many', min(len(on), 40), tuple(type(e).__name__ for e in made.values()))


RFC = re.compile(r'(/([^~/]|~0|~1)*)*', re.S)


def jsonpointer(ctx, r):
    from jschon import JSONSchema, URI, JSON, create_catalog
    if 'jp' not in ctx.store:
        ctx.store['jp'] = create_catalog('2019-09', '2020-12', name='jp')
        ctx.store['jp'].enable_formats('json-pointer')
    if r.random() < .6:
        s = ''.join(r.choice(['/', '/', 'a', '~0', '~1', '~', '~2', '\n', '\r', '\u2028', 'é', ' ', '%', '#', '0', '-', '\\', '"', '\x00', '\ud800', '\U0001F600', '~01', '~ 0', '~-', '~.', '^'])
                    for _ in range(r.choice([0, 1, 2, 3, 5, 8])))
        if r.random() < .5 and s and s[0] != '/':
            s = '/' + s
    else:
        s = r.choice(['', '/', '//', '/~', '/~0', '/~1~0', '~0', 'a', 'a/b', '/a\n', '\n', '/a/b/', '#/a', '#', '/~00', '/a~', '0', '/~1/~', '/%7e', ' /a', '/a ', '-', '/-', '/\u0000', '//~', '/~01', '1/a', '0/', '/~/a'])
    want = RFC.fullmatch(s) is not None
    d = r.choice([D19, D20])
    with ctx.store['jp'].cache() as cid:
        js = JSONSchema({'format': 'json-pointer'}, catalog=ctx.store['jp'], cacheid=cid, metaschema_uri=URI(META[d]))
        check(js.evaluate(JSON(s)).valid is want, 'json-pointer format differs from RFC 6901', string=repr(s), want=want)
        o = r.choice([None, 1, [], {}, True, [s], {s: s}, 1.5])
        check(js.evaluate(JSON(o)).valid is True, 'json-pointer rejects an instance that is not a string', instance=repr(o))
    c = ctx.store['cats'][r.randrange(3)]
    with c.cache() as cid:
        js = JSONSchema({'format': 'json-pointer'}, catalog=c, cacheid=cid, metaschema_uri=URI(META[d]))
        check(js.evaluate(JSON(s)).valid is True, 'a format enabled in one catalog asserts in another', string=repr(s))
    ctx.event('json-pointer accepted' if want else 'json-pointer rejected')
    ctx.state('jp', want, tuple(sorted(set(s)))[:6], len(s))


def fresh(ctx, r):
    """Catalogs made from scratch: nothing is enabled by default, created in any order."""
    from jschon import create_catalog, JSONSchema, URI, JSON, Catalog
    order = r.random() < .5
    n = f'fresh{r.randrange(10**9)}'
    a = create_catalog('2020-12', name=n + 'a')
    if order:
        a.enable_formats('json-pointer', n)
    b = create_catalog('2020-12', name=n + 'b')
    if not order:
        a.enable_formats('json-pointer', n)
    check(a.is_format_enabled('json-pointer') is True and b.is_format_enabled('json-pointer') is False and b.is_format_enabled(n) is False,
          'formats enabled in one catalog are enabled in another')
    check(a.is_format_enabled('email') is False and a.is_format_enabled('') is False, 'a format is enabled by default')
    for c, want in ((a, False), (b, True)):
        js = JSONSchema({'format': 'json-pointer'}, catalog=c, metaschema_uri=URI(META[D20]))
        check(js.evaluate(JSON('x')).valid is want, 'isolation of catalogs', want=want)
        sub = JSONSchema({'allOf': [{'properties': {'a': {'format': 'json-pointer'}}}]}, catalog=c.name, metaschema_uri=URI(META[D20]))
        check(sub.evaluate(JSON({'a': 'x'})).valid is want, 'isolation of catalogs (by name)', want=want)
    for k in (n + 'a', n + 'b'):
        Catalog._catalog_registry.pop(k, None) if hasattr(Catalog, '_catalog_registry') else None
    ctx.event('fresh catalogs')
    ctx.state('fresh', order)


UNITS = {'broken': (broken, 1200, 8000), 'history': (history, 12000, 120000), 'jsonpointer': (jsonpointer, 3000, 30000), 'fresh': (fresh, 24, 160)}
