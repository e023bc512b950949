"""C07: Relative JSON Pointers vs an independent model."""
import copy
from lib import gen
from lib.harness import check, Violation
from lib.models import rel_parse, rel_eval, Malformed, Missing, all_paths, ptr_str, ptr_eval, is_index
from checks.treemon import node_at

RULE = ('relative pointers (valid, failing and malformed) from random nodes of random documents, before and after mutations. '
        'State: (up, over sign, ref kind, outcome, container types)')
REQUIRED = {'resolved': 2000, 'keys returned': 500, 'reference errors': 1000, 'malformed': 1000, 'parsed': 2000, 'after mutation': 300, 'long arrays': 500, 'deep documents': 500}


def grammar(ctx, r):
    from jschon import JSONPointer, RelativeJSONPointer
    from jschon.exc import RelativeJSONPointerMalformedError as Mal
    x = r.random()
    up = r.choice(['0', '1', '2', '10', '00', '01', '', '-1', '+1', ' 1', '٣', '1٢', '1０', '99', '1.0'] if x < .5 else ['0', '1', '2', '3', '12', '100', '1000'])
    over = r.choice(['', '', '+1', '-1', '+1٢', '-3٠', '+0', '-0', '+10', '-12', '+01', '-00', '+', '-', '++1', '+-1', '+٣'] if x < .7 else ['', '+1', '-2', '+13', '+100', '-123', '+4096'])
    ref = r.choice(['', '#', '/', '/a', '/a~1b', '/~', 'a', '##', '#/a', '/a#', '/#', ' ', '\n', '/~2', '/é', '/0/1'])
    s = up + over + ref
    if r.random() < .05:
        s += r.choice(['\n', ' '])
    ctx.store['last'] = s
    try:
        want = rel_parse(s)
    except Malformed:
        want = None
    try:
        p = RelativeJSONPointer(s)
    except Mal:
        check(want is None, 'valid relative pointer refused', string=s)
        ctx.event('malformed')
        ctx.state('mal', s)
        return
    except Exception as e:
        raise Violation(f'{type(e).__name__} instead of RelativeJSONPointerMalformedError', string=s)
    check(want is not None, 'malformed relative pointer accepted', string=s, got=str(p))
    check(str(p) == s, 'string form differs', string=s, got=str(p))
    u, o, rf = want
    q = RelativeJSONPointer(up=u, over=o, ref='#' if rf == '#' else JSONPointer(rf))
    check(p == q and hash(p) == hash(q) and str(q) == s, 'keyword construction differs from the parsed form', string=s, got=str(q))
    check(repr(s) in repr(p), 'repr does not show the pointer', string=s, got=repr(p))
    kw = {}
    if u:
        kw['up'] = u
    if o:
        kw['over'] = o
    if rf == '#' or rf:
        kw['ref'] = '#' if rf == '#' else JSONPointer(rf)
    q = RelativeJSONPointer(**kw)
    check(p == q and hash(p) == hash(q) and str(q) == s, 'keyword construction with omitted arguments differs from the parsed form', string=s, got=str(q), kwargs=str(kw))
    check((p == s) is False and (p != s) is True, 'relative pointer equals a string', string=s)
    # inequality in each component
    for v in (RelativeJSONPointer(up=u + 1, over=o, ref='#' if rf == '#' else JSONPointer(rf)),
              RelativeJSONPointer(up=u, over=o + 1 if o != -1 else 5, ref='#' if rf == '#' else JSONPointer(rf)),
              RelativeJSONPointer(up=u, over=o, ref=JSONPointer(['zz']) if rf == '#' or rf != ['zz'] else '#'),
              RelativeJSONPointer(up=u, over=o, ref='#' if rf != '#' else JSONPointer())):
        check(p != v and not (p == v), 'different relative pointers compare equal', a=str(p), b=str(v))
        check(RelativeJSONPointer(str(v)) == v, 'round trip differs', v=str(v))
    check(RelativeJSONPointer(str(p)) == p, 'round trip differs', string=s)
    ctx.event('parsed')
    ctx.state('ok', u, o, str(rf))


def run(ctx, r, J, doc, at, log=None, up=None, over=None):
    from jschon import JSONPointer, RelativeJSONPointer
    from jschon.exc import RelativeJSONPointerReferenceError as Ref
    n = len(at)
    up = r.choice([0, 0, 1, 1, 2, n, max(0, n - 1), n + 1, r.randint(0, n)]) if up is None else up
    over = r.choice([0, 0, 0, 1, -1, 2, -2, 5]) if over is None else over
    base = list(at)[:n - up] if up <= n else []
    try:
        tgt = list(base)
        if over and tgt and is_index(tgt[-1]):
            tgt[-1] = str(int(tgt[-1]) + over)
        sub = ptr_eval(doc, tgt)
    except Exception:
        sub = None
    ref = '#' if r.random() < .3 else gen.pointer_keys(r, sub, hostile=.3)
    s = f'{up}{over:+d}' if over else str(up)
    s += '#' if ref == '#' else ptr_str(ref)
    ctx.store['last'] = (doc, at, s)
    try:
        want = rel_eval(doc, at, up, over, ref)
    except Missing:
        want = None
    p = RelativeJSONPointer(s) if r.random() < .6 else RelativeJSONPointer(up=up, over=over, ref='#' if ref == '#' else JSONPointer(ref))
    node = node_at(J, at)
    try:
        got = p.evaluate(node)
    except Ref:
        check(want is None, 'existing target reported as missing', doc=doc, at=ptr_str(at), pointer=s, history=log)
        ctx.event('reference errors')
        ctx.state('err', up, over, ref == '#', len(at))
        return
    except Exception as e:
        raise Violation(f'{type(e).__name__} instead of RelativeJSONPointerReferenceError', doc=doc, at=ptr_str(at), pointer=s, history=log)
    check(want is not None, 'impossible relative pointer evaluated', doc=doc, at=ptr_str(at), pointer=s, got=got, history=log)
    if want[0] == 'key':
        check(type(got) is type(want[1]) and got == want[1], 'wrong key/index returned', doc=doc, at=ptr_str(at), pointer=s, got=got, want=want[1], history=log)
        ctx.event('keys returned')
    else:
        check(got is node_at(J, want[1]), 'wrong node returned', doc=doc, at=ptr_str(at), pointer=s, got=got, want=ptr_str(want[1]), history=log)
        ctx.event('resolved')
    ctx.state('res', up, over, want[0], len(at))


def evaluate(ctx, r):
    from jschon import JSON
    doc = gen.container(r, 4, 4, small=r.random() < .5)
    if r.random() < .05:
        doc = gen.deep(r, r.randint(9, 40))
        ctx.event('deep documents')
    J = JSON(copy.deepcopy(doc))
    paths = list(all_paths(doc))
    for _ in range(8):
        run(ctx, r, J, doc, r.choice(paths))
    ctx.sample([doc])


def longarrays(ctx, r):
    from jschon import JSON
    n = r.choice([11, 40, 101, 130, 1005])
    doc = [r.choice([i, i % 3, [i], {'k': i}]) for i in range(n)]
    doc = r.choice([doc, {'10': doc}, [0, doc]])
    J = JSON(copy.deepcopy(doc))
    base = [] if isinstance(doc, list) and len(doc) != 2 else ['10'] if isinstance(doc, dict) else ['1']
    for _ in range(12):
        i = r.choice([0, n - 1, r.randrange(n)])
        j = r.choice([0, n - 1, n, r.randrange(n), i])
        run(ctx, r, J, doc, base + [str(i)], up=0, over=j - i)
    ctx.event('long arrays')


def mutated(ctx, r):
    from jschon import JSON
    doc = [gen.value(r, 2, 3, small=True) for _ in range(r.randint(2, 5))]
    doc = {'a': doc, 'b': gen.value(r, 2, 3)}
    J = JSON(copy.deepcopy(doc))
    if r.random() < .7:
        for p in list(all_paths(doc)):
            node_at(J, p).path
    log = []
    for _ in range(r.randint(1, 5)):
        a = doc['a']
        i = r.randint(0, len(a))
        x = r.random()
        if x < .4:
            J['a'].insert(i, [i])
            a.insert(i, [i])
            log.append(('insert', i))
        elif x < .8 and a:
            i = r.randrange(len(a))
            del J['a'][i]
            del a[i]
            log.append(('del', i))
        else:
            J['a'].reverse()
            a.reverse()
            log.append('reverse')
        for _ in range(3):
            run(ctx, r, J, doc, r.choice(list(all_paths(doc))), log)
    ctx.event('after mutation')


UNITS = {'grammar': (grammar, 60000, 120000), 'evaluate': (evaluate, 50000, 160000), 'mutated': (mutated, 25000, 60000), 'longarrays': (longarrays, 3000, 8000)}
