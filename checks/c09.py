"""C09: JSON Patch isolation, aliasing and data round trips."""
import copy, json
from lib import gen
from lib.harness import check, Violation
from lib.models import patch_apply, Fail, ident, jeq, all_paths, ptr_eval
from checks.patchgen import operation

RULE = ('patches evaluated twice around mutations of the input, of the result and of operation values; object-identity scan for '
        'shared mutable structure; aslist/asdict rebuilds; list behaviour vs a Python list model. State: (ops, outcome)')
REQUIRED = {'isolation': 3000, 'failing patches': 300, 'mutations after': 2000, 'rebuilds': 2000, 'sequence ops': 5000, 'operation equality': 3000}


def mutables(v, out=None):
    out = {} if out is None else out
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, (list, dict)):
            out.setdefault(id(x), 0)
            out[id(x)] += 1
            stack += x if isinstance(x, list) else list(x.values())
    return out


def spoil(r, v, tag):
    """Mutate every mutable inside v."""
    for p in list(all_paths(v)):
        x = ptr_eval(v, p) if _has(v, p) else None
        if isinstance(x, list):
            x.append(tag)
        elif isinstance(x, dict):
            x[tag] = tag


def _has(v, p):
    try:
        ptr_eval(v, p)
        return True
    except Fail:
        return False


def mkops(r, doc, n, hostile=.03):
    ops, cur, ok = [], copy.deepcopy(doc), True
    for _ in range(n):
        d = operation(r, cur, hostile)
        if d['op'] in ('add', 'replace') and r.random() < .4:
            d['value'] = gen.container(r, 2, 3, small=True)
        try:
            cur = patch_apply(cur, d)
        except Fail:
            if hostile == 0:
                continue
            ops.append(d)
            ok = False
            break
        ops.append(d)
        if len(repr(cur)) > 3000:
            break
    return ops, cur, ok


def isolation(ctx, r):
    from jschon import JSONPatch
    from jschon.exc import JSONPatchError
    doc = gen.container(r, 3, 4, small=r.random() < .6)
    ops, want, ok = mkops(r, doc, r.choice([0, 1, 1, 2, 3, 4, 5, 6]))
    opsin = copy.deepcopy(ops)
    ctx.store['last'] = (doc, ops)
    p = JSONPatch(*opsin)
    before = copy.deepcopy(doc)
    listed = copy.deepcopy(p.aslist())

    def ev(d):
        try:
            return p.evaluate(d)
        except JSONPatchError:
            return Fail
    res = ev(doc)
    check(ident(doc, before), 'input document modified', doc=before, ops=ops, now=doc)
    check(ident(opsin, ops), 'operation dictionaries modified', ops=ops, now=opsin)
    check(ident(p.aslist(), listed), 'patch modified by evaluation', ops=ops, now=p.aslist())
    check((res is Fail) == (not ok), 'unexpected outcome', doc=doc, ops=ops)
    ctx.event('isolation')
    if not ok:
        ctx.event('failing patches')
    else:
        check(ident(res, want), 'result differs', doc=doc, ops=ops, got=res, want=want)
        ids = mutables(res)
        dup = [i for i, c in ids.items() if c > 1]
        check(not dup, 'result shares mutable structure with itself', doc=doc, ops=ops, res=res)
        for other, what in ((doc, 'the input document'), (opsin, 'operation values'), ([o.value for o in p], 'the patch')):
            check(not set(ids) & set(mutables(other)), f'result shares mutable structure with {what}', doc=doc, ops=ops, res=res)
        # behavioural: mutate result, then re-evaluate
        spoil(r, res, 'RES')
        check(ident(doc, before) and ident(opsin, ops) and ident(p.aslist(), listed), 'mutating the result leaked', doc=before, ops=ops)
        res2 = ev(doc)
        check(res2 is not Fail and ident(res2, want), 'second evaluation differs after mutating the first result', doc=doc, ops=ops, got=res2, want=want)
        spoil(r, doc, 'DOC')
        check(ident(res2, want), 'mutating the input changed the result', doc=before, ops=ops, got=res2)
        for o in opsin:
            if isinstance(o.get('value'), (list, dict)):
                spoil(r, o['value'], 'VAL')
        check(ident(res2, want), 'mutating operation values changed the result', doc=before, ops=ops, got=res2)
        ctx.event('mutations after')
    ctx.state(tuple(o['op'][:2] for o in ops), ok, tuple(type(o.get('value')).__name__ for o in ops))
    ctx.sample([before, ops])


def rebuild(ctx, r):
    from jschon import JSONPatch, JSONPatchOperation
    doc = gen.container(r, 3, 3, small=r.random() < .5)
    ops, want, ok = mkops(r, doc, r.randint(0, 6), hostile=.1)
    for o in ops:
        if 'value' in o and o['op'] != 'test' and r.random() < .3:
            o['value'] = r.choice([None, False, 0, '', [], {}])
            break
    ctx.store['last'] = (doc, ops)
    p = JSONPatch(*copy.deepcopy(ops))
    lst = p.aslist()
    check(ident(lst, ops), 'aslist does not return the RFC 6902 operations', ops=ops, got=lst)
    q = JSONPatch(*json.loads(json.dumps(lst)))
    check(p == q and q == p and p == ops and not p != q, 'rebuilt patch is not equal', ops=ops)
    check([o.asdict() for o in p] == ops, 'asdict differs', ops=ops)

    def ev(x):
        from jschon.exc import JSONPatchError
        try:
            return x.evaluate(copy.deepcopy(doc))
        except JSONPatchError:
            return Fail
    a, b = ev(p), ev(q)
    check((a is Fail) == (b is Fail) and (a is Fail or ident(a, b)), 'rebuilt patch behaves differently', ops=ops, doc=doc, a=a, b=b)
    ctx.event('rebuilds')
    # a changed patch is not equal
    if ops:
        i = r.randrange(len(ops))
        alt = copy.deepcopy(ops)
        o = alt[i]
        y = r.random()
        if y < .4 and 'value' in o:
            o['value'] = gen.tweak(r, o['value'])
            same = jeq(o['value'], ops[i]['value'])
        elif y < .7:
            o['path'] = o['path'] + '/zz'
            same = False
        elif 'from' in o:
            o['from'] = o['from'] + '/zz'
            same = False
        else:
            del alt[i]
            same = False
        A = JSONPatch(*alt)
        check((A == p) is same and (p == A) is same and (A != p) is (not same), 'patch equality differs from equality of operations', a=alt, b=ops)
    ctx.state('re', tuple(o['op'][:2] for o in ops))


def opeq(ctx, r):
    from jschon import JSONPatchOperation
    doc = gen.container(r, 2, 3, small=True)
    a = operation(r, doc, .1)
    b = copy.deepcopy(a)
    x = r.random()
    same = True
    if x < .25:
        b['path'] += '/q'
        same = False
    elif x < .5 and 'value' in b:
        b['value'] = gen.tweak(r, a['value'])
        same = jeq(a['value'], b['value'])
    elif x < .65 and 'from' in b:
        b['from'] += '/q'
        same = False
    elif x < .8 and 'value' in b:
        b['op'] = r.choice([o for o in ('add', 'replace', 'test') if o != a['op']])
        same = False
    A, B = JSONPatchOperation(**a), JSONPatchOperation(**b)
    check((A == B) is same and (B == A) is same and (A == b) is same and (A != B) is (not same), 'operation equality differs', a=a, b=b)
    check(ident(A.asdict(), a), 'asdict differs', op=a, got=A.asdict())
    ctx.event('operation equality')
    ctx.state('eq', a['op'], same, x // .1)


def seqmodel(ctx, r):
    """A JSONPatch behaves as a list of operations."""
    from jschon import JSONPatch, JSONPatchOperation
    doc = gen.container(r, 2, 3, small=True)
    mk = lambda: operation(r, doc, .1)
    init = [mk() for _ in range(r.randint(0, 4))]
    p = JSONPatch(*[JSONPatchOperation(**o) if r.random() < .5 else copy.deepcopy(o) for o in init])
    m = copy.deepcopy(init)
    log = [copy.deepcopy(init)]
    ctx.store['last'] = log
    for _ in range(r.randint(2, 8)):
        o = mk()
        oo = JSONPatchOperation(**o) if r.random() < .5 else copy.deepcopy(o)
        n = len(m)
        act = r.choice(['insert', 'append', 'set', 'del', 'pop', 'extend', 'reverse', 'slice', 'clear', 'remove'])
        if act in ('set', 'del', 'pop', 'remove') and not n:
            act = 'append'
        i = r.randrange(-n, n) if n else 0
        log.append((act, i, o))
        if act == 'insert':
            j = r.randint(-n - 1, n + 1)
            p.insert(j, oo)
            m.insert(j, o)
        elif act == 'append':
            p.append(oo)
            m.append(o)
        elif act == 'set':
            p[i] = oo
            m[i] = o
        elif act == 'del':
            del p[i]
            del m[i]
        elif act == 'pop':
            x = p.pop(i)
            check(x == m.pop(i), 'pop returned another operation', history=log)
        elif act == 'extend':
            p.extend([oo])
            m.extend([o])
        elif act == 'reverse':
            p.reverse()
            m.reverse()
        elif act == 'clear' and r.random() < .2:
            p.clear()
            m.clear()
        elif act == 'remove':
            p.remove(JSONPatchOperation(**m[i]))
            k = next(j for j, x in enumerate(m) if JSONPatchOperation(**x) == m[i])
            del m[k]
        elif act == 'slice':
            s = slice(*[r.choice([None, r.randint(-n - 1, n + 1)]) for _ in range(2)], r.choice([None, None, 1, 2, -1]))
            q = p[s]
            check(isinstance(q, JSONPatch) and ident(q.aslist(), m[s]), 'slice differs', history=log, got=q)
            if r.random() < .5:
                q.append(o)
            else:
                p.append(oo)
                w = m[s]
                m.append(o)
                check(ident(q.aslist(), w), 'a slice changes with the patch it was taken from', history=log, got=q)
        check(len(p) == len(m) and ident(p.aslist(), m), 'patch differs from the list model', history=log, got=p.aslist(), want=m)
        check([x.asdict() for x in p] == m and [p[k].asdict() for k in range(len(m))] == m, 'iteration/indexing differs', history=log)
        try:
            p[len(m)]
            check(False, 'index past end accepted', history=log)
        except IndexError:
            pass
        ctx.event('sequence ops')


UNITS = {'isolation': (isolation, 42000, 200000), 'rebuild': (rebuild, 24000, 80000), 'opeq': (opeq, 24000, 80000), 'seqmodel': (seqmodel, 15000, 60000)}
