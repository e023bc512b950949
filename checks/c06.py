"""C06: JSON Pointer evaluation vs RFC 6901, native and JSON documents."""
import copy
from lib import gen
from lib.harness import check, Violation
from lib.models import ptr_eval, ptr_str, Missing, ident, all_paths, is_index, jtype
from checks.treemon import node_at

RULE = ('random documents, all existing paths plus hostile near-miss pointers, evaluated on native data, JSON, schema documents and '
        'tuples and compared with the RFC 6901 model. State: (found?, container type, token class of the failing step)')
REQUIRED = {'found': 3000, 'missing': 3000, 'whole documents': 500, 'index tokens': 1000}

TOK = ['-', '-1', '01', '00', '+1', ' 1', '1 ', '1.0', '1e0', '0x0', '1_0', '٣', '²', '', '0', '1', '2', '3', '4', '9' * 30, '-0', '１', '0\n', '1\n',
       '9' * 5000, 'length', 'a']


def ev(p, doc, exc):
    try:
        return True, p.evaluate(doc)
    except exc:
        return False, None
    except Exception as e:
        raise Violation(f'evaluate raised {type(e).__name__} instead of JSONPointerReferenceError', pointer=str(p), doc=doc)


def one(ctx, doc, J, keys):
    from jschon import JSONPointer
    from jschon.exc import JSONPointerReferenceError as Ref
    try:
        want = ptr_eval(doc, keys)
        ok = True
    except Missing:
        ok = False
        want = None
    p = JSONPointer(keys) if len(ptr_str(keys)) % 2 else JSONPointer(ptr_str(keys))
    g, x = ev(p, doc, Ref)
    check(g is ok, f'native evaluation {"succeeded" if g else "failed"} unlike RFC 6901', pointer=str(p), doc=doc, got=x)
    gj, xj = ev(p, J, Ref)
    check(gj is ok, f'JSON evaluation {"succeeded" if gj else "failed"} unlike RFC 6901', pointer=str(p), doc=doc, got=xj)
    if ok:
        check(x is want, 'native evaluation returned a different value', pointer=str(p), doc=doc, got=x)
        check(xj is node_at(J, keys), 'JSON evaluation returned a different node', pointer=str(p), doc=doc, got=xj)
        ctx.event('found')
    else:
        ctx.event('missing')
    return ok


def docs(ctx, r):
    from jschon import JSON, JSONPointer
    doc = gen.value(r, 4, 4, small=r.random() < .4, p_scalar=.15)
    if r.random() < .04:
        doc = gen.deep(r, r.randint(9, 40))
        ctx.event('deep documents')
    before = copy.deepcopy(doc)
    J = JSON(copy.deepcopy(doc))
    ctx.store['last'] = doc
    paths = list(all_paths(doc))
    for p in r.sample(paths, min(12, len(paths))):
        one(ctx, doc, J, list(p))
    for _ in range(8):
        ks = gen.pointer_keys(r, doc, hostile=.8)
        ok = one(ctx, doc, J, ks)
        ctx.state(ok, tuple(ks)[-2:])
    # index tokens at every container / string / scalar
    for p in r.sample(paths, min(3, len(paths))):
        v = ptr_eval(doc, p)
        toks = r.sample(TOK, 6)
        if isinstance(v, list):
            toks += [gen.fake_index(r, len(v)), gen.fake_index(r, len(v)), str(len(v)), str(max(len(v) - 1, 0)), '0' + str(max(len(v) - 1, 0)), '-' + str(len(v)), '-']
        for t in toks:
            ok = one(ctx, doc, J, list(p) + [t])
            if r.random() < .2:
                one(ctx, doc, J, list(p) + [t, r.choice(TOK)])
            ctx.event('index tokens')
            ctx.state(ok, jtype(v), t[:4])
    check(ident(doc, before) and ident(J.value, before), 'evaluation modified the document', doc=before)
    # relative to an inner node, and composition
    p = r.choice(paths)
    q = list(r.choice(list(all_paths(ptr_eval(doc, p)))))
    a, b = JSONPointer(p), JSONPointer(q)
    check((a / b).evaluate(J) is b.evaluate(a.evaluate(J)), 'composition differs', doc=doc, p=p, q=q)
    check((a / b).evaluate(doc) is b.evaluate(a.evaluate(doc)), 'composition differs (native)', doc=doc, p=p, q=q)
    check(JSONPointer().evaluate(doc) is doc and JSONPointer().evaluate(J) is J, 'empty pointer is not the whole document', doc=doc)
    ctx.event('whole documents')
    ctx.sample([doc, ptr_str(p)])


def numeric_keys(ctx, r):
    """Objects whose keys look like indices; arrays of objects of arrays."""
    from jschon import JSON
    ks = r.sample(['0', '1', '01', '-', '-1', '+1', '', '1.0', ' ', '00', '10'], r.randint(1, 7))
    doc = {k: [k, {k: [i]}] for i, k in enumerate(ks)}
    if r.random() < .5:
        doc = [doc, list(doc.values())]
    J = JSON(copy.deepcopy(doc))
    for _ in range(12):
        keys = []
        v = doc
        for _ in range(r.randint(0, 5)):
            k = r.choice(ks + ['0', '1', '-'])
            keys.append(k)
        one(ctx, doc, J, keys)
    for p in all_paths(doc):
        one(ctx, doc, J, list(p))


def sequences(ctx, r):
    """Tuples and other sequences/mappings behave like arrays/objects."""
    from types import MappingProxyType
    from jschon import JSONPointer
    from jschon.exc import JSONPointerReferenceError as Ref
    v = gen.container(r, 2, 4, small=True)

    def conv(x):
        if isinstance(x, list):
            return tuple(conv(y) for y in x) if r.random() < .7 else [conv(y) for y in x]
        if isinstance(x, dict):
            d = {k: conv(y) for k, y in x.items()}
            return MappingProxyType(d) if r.random() < .5 else d
        return x
    t = conv(v)
    for _ in range(6):
        ks = gen.pointer_keys(r, v, hostile=.5)
        try:
            want = ptr_eval(v, ks)
            ok = True
        except Missing:
            ok = False
        got, x = ev(JSONPointer(ks), t, Ref)
        check(got is ok, 'sequence/mapping evaluation differs', doc=v, pointer=ptr_str(ks))
        ctx.event('found' if ok else 'missing')


def long_arrays(ctx, r):
    """Arrays whose indices have two digits and more."""
    from jschon import JSON
    n = r.choice([10, 11, 12, 20, 30, 101, 120])
    doc = [r.choice([i, [i], {'a': i}]) for i in range(n)]
    base = []
    if r.random() < .5:
        doc, base = {'x': doc}, ['x']
    J = JSON(copy.deepcopy(doc))
    for _ in range(14):
        i = r.randrange(n)
        t = r.choice([str(i), gen.fake_index(r, n), '0' + str(i), str(i) + '٠'[:r.randint(0, 1)], str(-i), str(n + i), str(i) + '.0', f'{i}_0', '1' * 25,
                      str(i)[0] + ' ' + str(i)[1:], str(i)[0] + '_' + str(i)[1:]])
        ok = one(ctx, doc, J, base + [t] + r.choice([[], [], ['0'], ['a']]))
        ctx.event('index tokens')
        ctx.state('long', ok, n, len(t))


UNITS = {'long_arrays': (long_arrays, 9000, 18000), 'docs': (docs, 36000, 72000), 'numeric_keys': (numeric_keys, 13500, 27000), 'sequences': (sequences, 18000, 36000)}
