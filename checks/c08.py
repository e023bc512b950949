"""C08: JSON Patch evaluation vs an RFC 6902 model."""
import copy, json
from lib import gen
from lib.harness import check, Violation
from lib.models import patch_apply, Fail, ident, jtype
from checks.patchgen import operation

RULE = ('random documents and operation sequences (valid, failing, hostile pointers; '
        'operations generated against the evolving model document), compared op by op with RFC 6902. '
        'State: (op, outcome, shapes)')
REQUIRED = {'applied:' + o: 800 for o in ('add', 'remove', 'replace', 'move', 'copy', 'test')}
REQUIRED.update({'failed:' + o: 200 for o in ('add', 'remove', 'replace', 'move', 'copy', 'test')})
REQUIRED['patches'] = 3000


def go(p, doc):
    from jschon.exc import JSONPatchError
    try:
        return p.evaluate(doc)
    except JSONPatchError:
        return Fail
    except Exception as e:
        raise Violation(f'{type(e).__name__} instead of JSONPatchError', doc=doc, patch=p, error=repr(e))


def single(ctx, r):
    from jschon import JSONPatch, JSONPatchOperation, JSONPointer
    from jschon.exc import JSONPatchError
    doc = gen.value(r, 3, 4, small=r.random() < .5, p_scalar=.08) if r.random() < .96 else gen.long_array(r)
    d = operation(r, doc, hostile=.3)
    ctx.store['last'] = (doc, d)
    try:
        want = patch_apply(doc, d)
    except Fail:
        want = Fail
    got = go(JSONPatch(d), copy.deepcopy(doc))
    judge(ctx, d, doc, got, want)
    # the same operation built in other ways
    kw = dict(d)
    x = r.random()
    if 'from' in kw and x < .5:
        kw['from_'] = kw.pop('from')
    if x < .3:
        kw['path'] = JSONPointer(kw['path'])
        if 'from_' in kw:
            kw['from_'] = JSONPointer(kw['from_'])
    op = JSONPatchOperation(**kw)
    got = go(JSONPatch(op), copy.deepcopy(doc))
    judge(ctx, d, doc, got, want)
    try:
        got = op.apply(copy.deepcopy(doc))
    except JSONPatchError:
        got = Fail
    judge(ctx, d, doc, got, want)
    ctx.sample([doc, d])


def judge(ctx, d, doc, got, want):
    if want is Fail or got is Fail:
        check(want is got, 'patch ' + ('failed' if got is Fail else 'succeeded') + ' unlike RFC 6902', doc=doc, op=d, got=got, want=want)
    else:
        check(ident(got, want), 'patched document differs from RFC 6902', doc=doc, op=d, got=got, want=want)
    o = d['op']
    ctx.event(('failed:' if want is Fail else 'applied:') + o)
    ctx.state(o, want is Fail, jtype(doc), d['path'][-3:], d.get('from', '')[-3:])


def sequences(ctx, r):
    from jschon import JSONPatch
    doc = gen.value(r, 3, 4, small=r.random() < .6, p_scalar=.05)
    ops, cur, failed = [], copy.deepcopy(doc), False
    for _ in range(r.randint(1, 9)):
        d = operation(r, cur, hostile=.06)
        ops.append(d)
        try:
            cur = patch_apply(cur, d)
        except Fail:
            failed = True
            break
        if len(repr(cur)) > 4000:
            break
    if failed and r.random() < .5:
        ops += [operation(r, cur, 0) for _ in range(2)]
    ctx.store['last'] = (doc, ops)
    want = Fail if failed else cur
    p = JSONPatch(*ops)
    got = go(p, copy.deepcopy(doc))
    if failed or got is Fail:
        check(failed and got is Fail, 'patch ' + ('failed' if got is Fail else 'succeeded') + ' unlike RFC 6902', doc=doc, ops=ops, got=got, want=want)
    else:
        check(ident(got, want), 'patched document differs from RFC 6902', doc=doc, ops=ops, got=got, want=want)
    # one at a time
    x = copy.deepcopy(doc)
    for d in ops:
        x = go(JSONPatch(d), x)
        if x is Fail:
            break
    check((x is Fail) == failed and (failed or ident(x, want)), 'applying one operation at a time differs', doc=doc, ops=ops, got=x)
    # split in two
    if not failed:
        k = r.randint(0, len(ops))
        y = go(JSONPatch(*ops[k:]), go(JSONPatch(*ops[:k]), copy.deepcopy(doc)))
        check(y is not Fail and ident(y, want), 'splitting the patch differs', doc=doc, ops=ops, k=k)
    ctx.event('patches')
    ctx.state('seq', tuple(o['op'][:2] for o in ops), failed)
    ctx.sample([doc, ops])


def functions(ctx, r):
    """The module-level functions add/remove/... behave as the operations."""
    from jschon import JSONPointer, jsonpatch
    from jschon.exc import JSONPatchError
    doc = gen.value(r, 3, 4, small=True, p_scalar=.05)
    d = operation(r, doc, hostile=.2)
    try:
        want = patch_apply(doc, d)
    except Fail:
        want = Fail
    a = [copy.deepcopy(doc), JSONPointer(d['path'])]
    if 'value' in d:
        a.append(copy.deepcopy(d['value']))
    if 'from' in d:
        a.append(JSONPointer(d['from']))
    try:
        got = getattr(jsonpatch, d['op'])(*a)
    except JSONPatchError:
        got = Fail
    judge(ctx, d, doc, got, want)


UNITS = {'single': (single, 90000, 400000), 'sequences': (sequences, 45000, 200000), 'functions': (functions, 24000, 80000)}
