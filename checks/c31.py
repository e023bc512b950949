"""C31: any JSON node is an instance; only its value matters."""
import copy, json
from collections import Counter
from lib import gen
from lib.genschema import Gen
from lib.models import all_paths, canon, ptr_eval, ptr_str, patch_apply, Fail, jtype
from lib.refeval import *
from lib.smon import DRAFTS, catalog
from lib.harness import check, short
from lib.tree import plain, nodes
from checks.c01 import setp, _attached
from checks.treemon import node_at

RULE = ('documents that are mutated by every public mutator between evaluations of random schemas on random nodes of theirs (plus nodes of schemas, patch results, detached nodes, instances of JSON subclasses); '
        'every verdict, annotation, error, output and result location compared with those of a document constructed afresh from the same value, prefixed by the path of the node. '
        'State: (kind of node, last mutation, depth of the node, verdict)')
REQUIRED = {'evaluations': 6000, 'valid': 1500, 'invalid': 1500, 'mutations': 6000, 'after mutation': 3000, 'below root': 2500, 'evaluated before the mutation': 1500, 'earlier results observed': 1500,
            'schema nodes': 300, 'patch results': 300, 'detached nodes': 100, 'subclass instances': 300, 'filtered annotations': 3000, 'again evaluations': 8000, 'verdict changed by an edit': 1500, 'with unevaluated': 800, 'with references': 1500}
REQUIRED.update({'op ' + k: 100 for k in ('set', 'del', 'insert', 'append', 'extend', 'pop', 'reverse', 'put', 'delkey', 'update', 'add', 'remove', 'replace', 'swap', 'rotate')})
FORMATS = ['flag', 'basic', 'detailed', 'verbose']


def setup(ctx):
    from jschon import JSON
    catalog(ctx)

    class MyJSON(JSON):
        pass
    ctx.store['cls'] = MyJSON


def unshared(v):
    return json.loads(json.dumps(v))


def has_key(v, names):
    if isinstance(v, dict):
        return any(n in v for n in names) or any(has_key(x, names) for x in v.values())
    return isinstance(v, list) and any(has_key(x, names) for x in v)


def out_canon(o, pre):
    """an output with instance locations relative to the node, in a form that does not depend on the order of units or names"""
    if isinstance(o, dict):
        d = {}
        for k, v in o.items():
            if k == 'instanceLocation':
                check(v == pre or v.startswith(pre + '/'), 'instance location outside the instance', location=v, node=pre)
                d[k] = v[len(pre):]
            elif k in ('annotations', 'errors'):
                d[k] = sorted((out_canon(x, pre) for x in v), key=lambda x: json.dumps(x, sort_keys=True, default=repr))
            elif k in ('annotation', 'error'):
                v = plain(v)
                d[k] = msg(v) if k == 'error' else srt(v)
            else:
                d[k] = v
        return d
    return o


def snap(res, pre, with_loc=True):
    anns = Counter(canon(srt(plain(a))) for a in res.collect_annotations())
    s = {'valid': res.valid, 'annotations': sorted(map(repr, anns.elements())), 'errors': sorted(repr(msg(plain(a))) for a in res.collect_errors())}
    if with_loc:
        for f in FORMATS:
            s[f] = json.dumps(out_canon(res.output(f), pre), sort_keys=True, default=repr)
        t = []
        for n, _ in nodes(res):
            ip = str(n.instance.path)
            check(ip == pre or ip.startswith(pre + '/') or 'propertyNames' in str(n.path), 'a sub-result for an instance outside the node', path=str(n.path), instance=ip, node=pre)
            t.append((str(n.path), ip[len(pre):], n.valid, n.passed, repr(canon(n.instance.value))))
        s['results'] = sorted(t)
    return s


def msg(v):
    """the texts of errors list names in the order of the members of the instance: compare the characters"""
    return ''.join(sorted(v)) if isinstance(v, str) else srt(v)


def srt(v):
    return sorted(v, key=repr) if isinstance(v, list) else v


def compare(ctx, js, node, value, why, log, with_loc=True, r=None):
    from jschon import JSON
    pre = str(node.path) if with_loc else ''
    res = js.evaluate(node)
    check(res.instance is node, 'result.instance is not the node evaluated', history=log)
    f = JSON(copy.deepcopy(value))
    want = js.evaluate(f)
    a, b = snap(res, pre, with_loc), snap(want, '', with_loc)
    for k in b:
        check(a[k] == b[k], f'{k} of a {why} differ from those of a fresh document of the same value', got=short(a[k] if isinstance(a[k], str) else repr(a[k])), fresh=short(b[k] if isinstance(b[k], str) else repr(b[k])),
              schema=short(json.dumps(js.value)), value=value, node=pre, history=log)
    if with_loc and res.valid and r is not None:
        for keys in r.sample(list(all_paths(value)), min(3, len(list(all_paths(value))))):
            x, y = node_at(node, keys), node_at(f, keys)
            for kw in (None, r.choice(['title', 'properties', 'items', 'default', 'description'])):
                g = sorted(repr(canon(srt(plain(v)))) for v in res.collect_annotations(x, kw))
                w = sorted(repr(canon(srt(plain(v)))) for v in want.collect_annotations(y, kw))
                check(g == w, 'annotations filtered by instance differ from those of a fresh document', got=g, fresh=w, at=ptr_str(keys), keyword=kw, schema=short(json.dumps(js.value)), value=value, node=pre, history=log)
                ctx.event('filtered annotations')
    ctx.event('evaluations')
    ctx.event('valid' if res.valid else 'invalid')
    return res, a


def mutate(ctx, r, root, model, vals, log):
    """one public mutator applied to document and model -> (model, op)"""
    from jschon import JSON, JSONPointer
    conts = [p for p in all_paths(model) if isinstance(ptr_eval(model, p), (list, dict))]
    # prefer shallow containers, so that big parts of the document move
    keys = min(r.sample(conts, min(2, len(conts))), key=len)
    node, mv = node_at(root, keys), ptr_eval(model, keys)
    v = unshared(r.choice(vals) if r.random() < .8 else gen.value(r, 2, 3))
    gone = []
    at = ptr_str(keys)
    x = copy.deepcopy(v) if r.random() < .6 else JSON(copy.deepcopy(v))
    if r.random() < .22:
        op = r.choice(['add', 'remove', 'replace'])
        ps = [p for p in all_paths(mv) if p]
        pk = r.choice(ps) if ps else ['a']
        try:
            new = patch_apply(mv, {'op': op, 'path': ptr_str(pk), 'value': v})
        except Fail:
            return model, None, gone
        if op != 'add':
            gone.append(node_at(node, pk))
        getattr(node, op)(*((ptr_str(pk),) if op == 'remove' else (JSONPointer(ptr_str(pk)), x)))
        model = setp(model, keys, unshared(new))
    elif isinstance(mv, list):
        n = len(mv)
        op = r.choice(['set', 'del', 'insert', 'insert', 'append', 'extend', 'pop', 'reverse', 'swap', 'rotate'])
        i = r.randrange(-n, n) if n else 0
        if not n and op in ('set', 'del', 'pop', 'swap', 'rotate'):
            op = 'append'
        if op == 'set':
            gone.append(node[i])
            node[i] = x
            mv[i] = v
        elif op == 'del':
            gone.append(node[i])
            del node[i]
            del mv[i]
        elif op == 'insert':
            node.insert(i, x)
            mv.insert(i, v)
        elif op == 'append':
            node.append(x)
            mv.append(v)
        elif op == 'extend':
            node.extend([x, True])
            mv.extend([v, True])
        elif op == 'pop':
            gone.append(node.pop(i))
            mv.pop(i)
        elif op == 'reverse':
            node.reverse()
            mv.reverse()
        elif op == 'swap':
            j = r.randrange(n)
            node[i], node[j] = node[j], node[i]
            mv[i], mv[j] = copy.deepcopy(mv[j]), copy.deepcopy(mv[i])
        else:
            node.insert(0, node.pop())
            mv.insert(0, mv.pop())
    else:
        op = r.choice(['put', 'put', 'delkey', 'update'])
        ks = list(mv)
        k = r.choice(ks) if ks and r.random() < .6 else r.choice(['a', 'b', 'c', 'foo', 'bar', 'd/e', 'x~y', ''])
        if op == 'delkey' and not ks:
            op = 'put'
        if op == 'delkey':
            k = r.choice(ks)
            gone.append(node[k])
            del node[k]
            del mv[k]
        elif op == 'put':
            if k in mv:
                gone.append(node[k])
            node[k] = x
            mv[k] = v
        else:
            node.update({k: x, 'zz': 1})
            mv.update({k: v, 'zz': 1})
    log.append(f'{op} at {at!r} ({short(repr(v), 80)})')
    ctx.event('mutations')
    ctx.event('op ' + op)
    return model, op, gone


def history(ctx, r):
    from jschon import JSON, JSONSchema, JSONPatch, URI
    d = r.choice(DRAFTS)
    g = Gen(r, d, unevaluated=.3, annotations=.3, unknown=.1)
    cat = catalog(ctx)
    docs = [g.document(r.choice([1, 2, 2, 3])) for _ in range(r.choice([1, 2]))]
    vals = [unshared(g.instance(x)) for x in docs for _ in range(4)]
    log = ['schemas ' + json.dumps(docs)]
    ctx.store['last'] = log
    with cat.cache() as cid:
        jss = [JSONSchema(copy.deepcopy(x), catalog=cat, cacheid=cid, metaschema_uri=URI(META[d]), uri=URI(f'https://x.test/s{i}')) for i, x in enumerate(docs)]
        regs = []
        for i, x in enumerate(docs):
            reg = Registry()
            reg.default_meta = META[d]
            regs.append((Evaluator(reg, max_depth=60), reg.add(copy.deepcopy(x), f'https://x.test/s{i}', META[d])))

        def finite(i, v):
            # the reference evaluator only screens out infinitely recursive cases
            try:
                regs[i][0].evaluate(regs[i][1], v)
                return True
            except (Ambiguous, Infinite):
                return False
        # a document that has the interesting values somewhere
        model = copy.deepcopy(r.choice(vals))
        for _ in range(r.choice([0, 1, 1, 2])):
            w = [copy.deepcopy(r.choice(vals)) for _ in range(r.randint(0, 2))]
            w.insert(r.randint(0, len(w)), model)
            model = w if r.random() < .5 else {n: x for n, x in zip(r.sample(['a', 'b', 'p%q', 'd/e', 'x~y', '0', ''], 3), w)}
        cls = JSON
        if r.random() < .2:
            cls = ctx.store['cls']
        model = unshared(model)
        root = cls(copy.deepcopy(model))
        log.append('document ' + json.dumps(model))
        if not isinstance(model, (list, dict)):
            model, root = [model], cls([model])
        last, gone, earlier, seen = None, [], [], set()
        for _ in range(r.randint(3, 9)):
            if r.random() < .6:
                model, op, out = mutate(ctx, r, root, model, vals, log)
                if op is None:
                    continue
                last = op
                gone += out
                # results made before the mutation keep what they reported
                for res, s in earlier:
                    now = snap(res, '', False)
                    was = {k: s[k] for k in now}
                    check(now == was, 'an earlier result changed when its instance was mutated', was=was, now=now, history=log)
                    ctx.event('earlier results observed')
                earlier = earlier[-3:]
                if r.random() < .4:
                    continue
            paths = [p for p in all_paths(model)]
            if len(paths) > 200:
                break
            keys = r.choice([p for p in paths if len(p) <= 3])
            node, value = node_at(root, keys), ptr_eval(model, keys)
            i = r.randrange(len(jss))
            if not finite(i, value):
                continue
            log.append(f'evaluate schema {i} at {ptr_str(keys)!r}')
            res, s = compare(ctx, jss[i], node, value, 'mutated document' if last else 'node of a document', log, r=r)
            earlier.append((res, s))
            if last:
                ctx.event('after mutation')
                if (id(node), i) in seen:
                    ctx.event('evaluated before the mutation')
            seen.add((id(node), i))
            if keys:
                ctx.event('below root')
            if cls is not JSON:
                ctx.event('subclass instances')
            if has_key(docs[i], ('unevaluatedItems', 'unevaluatedProperties')):
                ctx.event('with unevaluated')
            if has_key(docs[i], ('$ref', '$dynamicRef', '$recursiveRef')):
                ctx.event('with references')
            ctx.state('document', last, len(keys), s['valid'], jtype(value), cls is JSON)
        gone = [n for n in gone if not _attached(n, root)]
        if gone:
            n = r.choice(gone)
            v = copy.deepcopy(n.value)
            i = r.randrange(len(jss))
            if finite(i, v):
                compare(ctx, jss[i], n, v, 'node that was removed from its document', log, with_loc=False)
                ctx.event('detached nodes')
        x = r.random()
        if x < .3:
            # a schema, or a part of one, as an instance
            i, j = r.randrange(len(jss)), r.randrange(len(jss))
            keys = r.choice(list(all_paths(docs[i]))) if r.random() < .7 else []
            v = ptr_eval(docs[i], keys)
            if finite(j, v):
                compare(ctx, jss[j], node_at(jss[i], keys), v, 'node of a schema', log, r=r)
                ctx.event('schema nodes')
                ctx.state('schema', jtype(v), len(keys))
        elif x < .6:
            # the result of a patch, evaluated as it comes
            ops, m = [], copy.deepcopy(model)
            for _ in range(r.randint(1, 3)):
                o = {'op': r.choice(['add', 'replace', 'remove', 'move', 'copy']), 'path': ptr_str(r.choice([p for p in all_paths(m)])), 'value': copy.deepcopy(r.choice(vals)),
                     'from': ptr_str(r.choice([p for p in all_paths(m)]))}
                try:
                    m2 = patch_apply(m, o)
                except Fail:
                    continue
                o = {k: y for k, y in o.items() if k in ('op', 'path') or k == 'value' and o['op'] in ('add', 'replace') or k == 'from' and o['op'] in ('move', 'copy')}
                if o['op'] == 'remove' and o['path'] == '':
                    continue
                m = unshared(m2)
                ops.append(o)
            log.append('patch ' + json.dumps(ops))
            out = JSONPatch(*ops).evaluate(root.value)
            keys = r.choice([p for p in all_paths(m) if len(p) <= 2])
            v = ptr_eval(m, keys)
            i = r.randrange(len(jss))
            if finite(i, v):
                compare(ctx, jss[i], node_at(JSON(out), keys), v, 'patch result', log, r=r)
                ctx.event('patch results')
                ctx.state('patch', jtype(v), len(keys), tuple(o['op'] for o in ops))
    ctx.sample(log, .02)


SMALL = [0, 1, 2, 1.0, True, False, 'a', 'ab', '', None, [], {}, [1], {'a': 1}]


def again(ctx, r):
    """the same few nodes evaluated again and again with focused schemas, after small edits in or below them"""
    from jschon import JSON, JSONSchema, URI
    d = r.choice(DRAFTS)
    leaf = lambda: r.choice([True, False, {'type': 'integer'}, {'const': 1}, {'enum': [1, 'a', []]}, {'uniqueItems': True}, {'required': ['a']}, {'maxItems': 1}, {'minProperties': 1},
                             {'properties': {'a': {'const': 1}}}, {'maximum': 1}, {'contains': {'const': 1}}, {'dependentRequired': {'a': ['b']}}])
    arr = {'uniqueItems': lambda: True, 'contains': leaf, 'minContains': lambda: r.choice([0, 2]), 'maxContains': lambda: 1, 'maxItems': lambda: 2, 'minItems': lambda: 2, 'unevaluatedItems': leaf,
           'items': leaf, 'const': lambda: [r.choice(SMALL) for _ in range(2)], 'enum': lambda: [[r.choice(SMALL)], [1, 2], [], 1]}
    if d != D19:
        arr['prefixItems'] = lambda: [leaf(), leaf()]
    obj = {'properties': lambda: {'a': leaf(), 'b': leaf()}, 'patternProperties': lambda: {'^a': leaf(), 'b': leaf()}, 'additionalProperties': leaf, 'unevaluatedProperties': leaf,
           'propertyNames': lambda: r.choice([{'enum': ['a', 'b']}, {'maxLength': 1}]), 'required': lambda: r.sample(['a', 'b', 'c'], 2), 'maxProperties': lambda: 2, 'minProperties': lambda: 2,
           'dependentRequired': lambda: {'a': ['b']}, 'dependentSchemas': lambda: {'a': leaf(), 'b': leaf()}, 'const': lambda: {'a': r.choice(SMALL)}, 'enum': lambda: [{'a': 1}, {}, {'a': 1, 'b': 2}]}
    is_arr = r.random() < .5
    fam = arr if is_arr else obj

    def some(n):
        s = {k: fam[k]() for k in r.sample(sorted(fam), n)}
        if ('minContains' in s or 'maxContains' in s) and 'contains' not in s:
            s['contains'] = leaf()
        return s
    doc = some(r.choice([1, 1, 2, 3]))
    for _ in range(r.choice([0, 0, 1, 2])):
        k = r.choice(['allOf', 'anyOf', 'oneOf', 'not', 'if', '$ref', 'dyn'])
        if '$defs' in doc:
            break
        if k in ('allOf', 'anyOf', 'oneOf'):
            doc = {k: [doc, some(1)], **some(r.choice([0, 1]))}
        elif k == 'not':
            doc = {'not': doc}
        elif k == 'if':
            doc = {'if': doc, 'then': some(1), 'else': some(1)}
        elif k == '$ref' or d == D19:
            doc = {'$ref': '#/$defs/x', '$defs': {'x': doc}}
        else:
            doc = {'$dynamicRef': '#x', '$defs': {'x': {'$dynamicAnchor': 'x', **doc}}}
    if r.random() < .25 and 'def' not in json.dumps(doc):
        doc = {'items': doc} if r.random() < .5 else {'additionalProperties': doc}
    log = ['schema ' + json.dumps(doc)]
    ctx.store['last'] = log
    with catalog(ctx).cache() as cid:
        js = JSONSchema(copy.deepcopy(doc), catalog=catalog(ctx), cacheid=cid, metaschema_uri=URI(META[d]))
        inner = [r.choice(SMALL) for _ in range(r.choice([1, 2, 2, 3]))] if is_arr else {k: r.choice(SMALL) for k in r.sample(['a', 'b', 'c', 'ab'], r.choice([1, 2, 3]))}
        if 'items' in doc or 'additionalProperties' in doc:
            inner = [inner, copy.deepcopy(inner)] if r.random() < .5 else {'a': inner, 'b': copy.deepcopy(inner)}
        model, keys = inner, []
        for _ in range(r.choice([0, 1, 2])):
            if r.random() < .5:
                model, keys = [model, 1], ['0'] + keys
            else:
                model, keys = {'a': model, 'z': []}, ['a'] + keys
        model = unshared(model)
        root = JSON(copy.deepcopy(model))
        log.append('document ' + json.dumps(model))
        for i in range(7):
            node, mv = node_at(root, keys), ptr_eval(model, keys)
            log.append('evaluate')
            res, s = compare(ctx, js, node, mv, 'document changed in place' if i else 'fresh document', log, r=r)
            ctx.event('again evaluations')
            if i and s['valid'] is not was:
                ctx.event('verdict changed by an edit')
            was = s['valid']
            ctx.state('again', tuple(sorted(doc)), i, was, log[-2].split(' ')[0])
            # a small edit in or below the node
            conts = [p for p in all_paths(mv) if isinstance(ptr_eval(mv, p), (list, dict))]
            p = min(r.sample(conts, min(2, len(conts))), key=len)
            n, m = node_at(node, p), ptr_eval(mv, p)
            v = unshared(r.choice(list(m.values() if isinstance(m, dict) else m)) if m and r.random() < .5 else r.choice(SMALL))
            if isinstance(m, list):
                op = r.choice(['set', 'set', 'append', 'pop', 'reverse']) if m else 'append'
                j = r.randrange(len(m)) if m else 0
                if op == 'set':
                    n[j] = v
                    m[j] = v
                elif op == 'append':
                    n.append(v)
                    m.append(v)
                elif op == 'pop':
                    n.pop(j)
                    m.pop(j)
                else:
                    n.reverse()
                    m.reverse()
            else:
                op = r.choice(['set', 'set', 'pop', 'put'])
                k = r.choice(sorted(m)) if m and op != 'put' else r.choice(['a', 'b', 'c', 'ab'])
                if op == 'pop' and m:
                    del n[k]
                    del m[k]
                else:
                    n[k] = v
                    m[k] = v
            model = unshared(model)
            log.append(f'{op} at {ptr_str(keys + list(p))!r}: now {json.dumps(m)}')
    ctx.sample(log, .02)


UNITS = {'again': (again, 4000, 80000), 'history': (history, 4000, 60000)}
