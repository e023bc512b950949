"""C01: live JSON trees vs a plain Python model over mutation histories."""
import copy, json
from lib import gen
from lib.harness import check
from lib.models import all_paths, ptr_eval, ptr_str, patch_apply, Fail, jtype, ident
from checks.treemon import verify, node_at, touch

RULE = ('seeded histories of 1-14 public mutators applied at random nodes of random documents, with random reads of '
        'path/value in between; a state is a distinct (operation kind, node shape, document shape) reached; non-trivial '
        'when the document is a container')
REQUIRED = {'trees checked': 2000, 'mutations': 5000, 'op:del-': 50, 'op:insert-': 50, 'op:set-': 50, 'op:reverse': 50,
            'op:pop': 50, 'op:add': 50, 'op:remove': 50, 'op:replace': 50, 'op:selfassign': 50, 'detached': 50,
            'subclass nodes': 10000, 'subclass documents': 1200}


def setp(model, keys, v):
    if not keys:
        return v
    p = ptr_eval(model, keys[:-1])
    if isinstance(p, list):
        p[int(keys[-1])] = v
    else:
        p[keys[-1]] = v
    return model


def shape(v):
    if isinstance(v, list):
        return ('a', len(v), tuple(jtype(x)[0] for x in v[:4]))
    if isinstance(v, dict):
        return ('o', len(v), tuple(sorted(jtype(x)[0] for x in v.values()))[:4])
    return jtype(v)


def newval(ctx, r, root, model, foreign):
    """Something to assign: (object to pass, plain model copy)."""
    from jschon import JSON
    x = r.random()
    if x < .55:
        v = gen.value(r, 2, 3)
        return v, copy.deepcopy(v)
    if x < .75:
        v = gen.value(r, 2, 3)
        return JSON(v), copy.deepcopy(v)
    if x < .9:
        ctx.event('op:selfassign')
        keys = r.choice(list(all_paths(model)))
        return node_at(root, keys), copy.deepcopy(ptr_eval(model, keys))
    fj, fm = foreign
    keys = r.choice(list(all_paths(fm)))
    return node_at(fj, keys), copy.deepcopy(ptr_eval(fm, keys))


def history(ctx, r, maxops=14, make=None, watch=lambda root: None):
    from jschon import JSON, JSONPointer
    model = gen.container(r, 3, 4, small=r.random() < .5)
    src = copy.deepcopy(model)
    root = (make or JSON)(src)
    watch(root)
    fm = gen.container(r, 2, 3)
    foreign = (JSON(fm), fm)
    fcopy = copy.deepcopy(fm)
    detached = []
    log = [repr(model)]
    ctx.store['last'] = log
    if r.random() < .5:
        verify(ctx, root, model)
    for _ in range(r.randint(1, maxops)):
        paths = list(all_paths(model))
        if len(paths) > 150:
            break
        conts = [p for p in paths if isinstance(ptr_eval(model, p), (list, dict))]
        keys = r.choice(conts) if conts and r.random() < .93 else r.choice(paths)
        node, mv = node_at(root, keys), ptr_eval(model, keys)
        if r.random() < .5:
            touch(r, root)
        obj, ov = newval(ctx, r, root, model, foreign)
        at = ptr_str(keys)
        op = None
        if isinstance(mv, list) and r.random() < .75:
            n = len(mv)
            op = r.choice(['set', 'del', 'insert', 'insert', 'append', 'extend', 'iadd', 'pop', 'popi', 'reverse', 'clear'])
            if op in ('set', 'del', 'popi') and not n:
                op = 'append'
            if op == 'set':
                i = r.randrange(-n, n)
                log.append(f'{at}[{i}] = {ov!r}')
                if isinstance(mv[i], (list, dict)):
                    detached.append(node[i])
                node[i] = obj
                mv[i] = ov
                ctx.event('op:set-' if i < 0 else 'op:set')
            elif op == 'del':
                i = r.randrange(-n, n)
                log.append(f'del {at}[{i}]')
                detached.append(node[i])
                del node[i]
                del mv[i]
                ctx.event('op:del-' if i < 0 else 'op:del')
            elif op == 'insert':
                i = r.randint(-n - 2, n + 2)
                log.append(f'{at}.insert({i}, {ov!r})')
                node.insert(i, obj)
                mv.insert(i, ov)
                ctx.event('op:insert-' if i < 0 else 'op:insert')
            elif op == 'append':
                log.append(f'{at}.append({ov!r})')
                node.append(obj)
                mv.append(ov)
            elif op in ('extend', 'iadd'):
                y = r.random()
                if y < .15 and n < 8:
                    log.append(f'{at}.{op}(itself)')
                    if op == 'extend':
                        node.extend(node)
                    else:
                        node += node
                    mv.extend(copy.deepcopy(mv))
                else:
                    vs = [gen.value(r, 1, 3) for _ in range(r.randint(0, 3))]
                    log.append(f'{at}.{op}({vs!r})')
                    arg = copy.deepcopy(vs) if y < .6 else JSON(vs)
                    if op == 'extend':
                        node.extend(arg)
                    else:
                        node += arg
                    mv.extend(vs)
            elif op == 'pop' and n:
                log.append(f'{at}.pop()')
                x = node.pop()
                check(ident(x.value, mv.pop()), 'pop() returned a different item', history=log)
                detached.append(x)
                ctx.event('op:pop')
            elif op == 'popi':
                i = r.randrange(-n, n)
                log.append(f'{at}.pop({i})')
                x = node.pop(i)
                check(ident(x.value, mv.pop(i)), 'pop(i) returned a different item', history=log)
                ctx.event('op:pop')
            elif op == 'reverse':
                log.append(f'{at}.reverse()')
                node.reverse()
                mv.reverse()
                ctx.event('op:reverse')
            elif op == 'clear' and r.random() < .4:
                log.append(f'{at}.clear()')
                node.clear()
                mv.clear()
        elif isinstance(mv, dict) and r.random() < .7:
            op = r.choice(['set', 'setold', 'del', 'update', 'pop', 'popitem', 'setdefault', 'clear'])
            ks = list(mv)
            if op in ('setold', 'del', 'pop', 'popitem') and not ks:
                op = 'set'
            if op == 'set' or op == 'setold':
                k = gen.key(r) if op == 'set' else r.choice(ks)
                log.append(f'{at}[{k!r}] = {ov!r}')
                if k in mv:
                    detached.append(node[k])
                node[k] = obj
                mv[k] = ov
            elif op == 'del':
                k = r.choice(ks)
                log.append(f'del {at}[{k!r}]')
                detached.append(node[k])
                del node[k]
                del mv[k]
            elif op == 'pop':
                k = r.choice(ks)
                log.append(f'{at}.pop({k!r})')
                x = node.pop(k)
                check(ident(x.value, mv.pop(k)), 'pop(key) returned a different value', history=log)
                ctx.event('op:pop')
            elif op == 'popitem':
                log.append(f'{at}.popitem()')
                k, x = node.popitem()
                check(k in mv and ident(x.value, mv.pop(k)), 'popitem returned a wrong pair', history=log)
            elif op == 'update':
                d = {gen.key(r): gen.value(r, 1, 3) for _ in range(r.randint(0, 3))}
                log.append(f'{at}.update({d!r})')
                node.update(copy.deepcopy(d) if r.random() < .5 else JSON(d))
                mv.update(d)
            elif op == 'setdefault':
                k = r.choice(ks) if ks and r.random() < .5 else gen.key(r)
                log.append(f'{at}.setdefault({k!r}, {ov!r})')
                node.setdefault(k, obj)
                mv.setdefault(k, ov)
            elif op == 'clear' and r.random() < .4:
                log.append(f'{at}.clear()')
                node.clear()
                mv.clear()
        else:
            # in-place patch operations relative to any node
            op = r.choice(['add', 'remove', 'replace'])
            pk = gen.pointer_keys(r, mv, hostile=.15)
            if op == 'add' and r.random() < .5:
                sub = ptr_eval(mv, pk) if _ok(mv, pk) else None
                if isinstance(sub, list):
                    pk = pk + [r.choice(['-', str(len(sub)), '0'])]
                elif isinstance(sub, dict):
                    pk = pk + [gen.key(r)]
            ps = ptr_str(pk)
            try:
                new = patch_apply(mv, {'op': op, 'path': ps, 'value': ov})
            except Fail:
                continue
            log.append(f'{at} .{op}({ps!r}, {ov!r})')
            arg = JSONPointer(ps) if r.random() < .5 else ps
            getattr(node, op)(*((arg,) if op == 'remove' else (arg, obj)))
            model = setp(model, keys, new)
            ctx.event('op:' + op)
        ctx.event('mutations')
        ctx.state(op, shape(mv), len(keys), shape(model))
        x = r.random()
        watch(root)
        if x < .55:
            verify(ctx, root, model)
        elif x < .7:
            touch(r, root)
        if detached and r.random() < .15:
            # a node no longer in the document must not influence it
            d = r.choice(detached)
            if not _attached(d, root):
                ctx.event('detached')
                log.append('mutate a detached node')
                if d.type == 'array':
                    d.append('DETACHED')
                elif d.type == 'object':
                    d['DETACHED'] = 1
    watch(root)
    verify(ctx, root, model)
    # sources of assignment are untouched, and independent afterwards
    check(ident(fcopy, fm), 'plain source value was modified', before=fcopy, after=fm)
    verify(ctx, foreign[0], fcopy)
    ctx.sample(log)


def _ok(v, k):
    try:
        ptr_eval(v, k)
        return True
    except Fail:
        return False


def _attached(d, root):
    stack = [root]
    while stack:
        n = stack.pop()
        if n is d:
            return True
        if n.type == 'array':
            stack += n.data
        elif n.type == 'object':
            stack += n.data.values()
    return False


def independence(ctx, r):
    """Copies made by assignment stay independent in both directions."""
    from jschon import JSON
    a = gen.container(r, 3, 3, small=True)
    src = copy.deepcopy(a)
    A = JSON(src)
    B = JSON({'x': None, 'y': [1, 2]})
    how = r.randrange(5)
    if how == 0:
        B['x'] = A
        put = B['x']
    elif how == 1:
        B['y'][r.choice([0, 1, -1])] = A
        put = next(c for c in B['y'] if c.type in ('array', 'object'))
    elif how == 2:
        B['y'].insert(1, A)
        put = B['y'][1]
    elif how == 3:
        B.add('/y/-', A)
        put = B['y'][2]
    else:
        B.replace('/x', src)
        put = B['x']
    ctx.store['last'] = (a, how)
    bv = copy.deepcopy(B.value)
    put_v = copy.deepcopy(a)
    # mutate the source (JSON and plain), then the copy
    conts = [p for p in all_paths(a) if isinstance(ptr_eval(a, p), (list, dict))]
    for _ in range(3):
        p = r.choice(conts)
        n = node_at(A, p)
        if n.type == 'array':
            n.append('SRC')
            ptr_eval(src, p).append('SRC')
        else:
            n['SRC'] = 1
            ptr_eval(src, p)['SRC'] = 1
    verify(ctx, B, bv)
    verify(ctx, A, src)
    p = r.choice(conts)
    n = node_at(put, p)
    if n.type == 'array':
        n.insert(0, 'COPY')
        ptr_eval(put_v, p).insert(0, 'COPY')
    else:
        n['COPY'] = 1
        ptr_eval(put_v, p)['COPY'] = 1
    verify(ctx, A, src)
    keys = list(put.path)
    verify(ctx, put, put_v, tuple(keys), put.parent, keys[-1])
    ctx.event('independence')
    ctx.state('ind', how, shape(a))


def subclasses(ctx, r):
    """documents whose nodes are of JSON subclasses: what a mutation creates is of its parent's item class, made with its item arguments"""
    from jschon import JSON
    tag = r.choice([5, 'T', (1, 2)])

    class Deep(JSON):
        def __init__(self, value, *, tag=None, itemclass=None, **kw):
            super().__init__(value, itemclass=Deep, tag=tag, **kw)
            self.tag = tag

    class Leaf(JSON):
        tag = None

        def __init__(self, value, *, tag=None, **kw):
            super().__init__(value, **kw)
            self.tag = tag or self.tag
    deep = r.random() < .6

    def kids(n):
        return list(n) if n.type == 'array' else list(n.values()) if n.type == 'object' else []

    def watch(root):
        def walk(n, cls):
            check(type(n) is cls, 'a node is not of the item class', at=str(n.path), got=type(n).__name__, want=cls.__name__, history=ctx.store['last'] if ctx.store.get('last') else None)
            check(cls is JSON or (n is root and not deep) or n.tag == tag, 'a node was not made with the item arguments', at=str(n.path))
            for c in kids(n):
                walk(c, Deep if deep else Leaf if n is root else JSON)
                ctx.event('subclass nodes')
        walk(root, Deep if deep else JSON)

    def make(v):
        if r.random() < .3:
            t = json.dumps(v)
            return Deep.loads(t, tag=tag) if deep else JSON.loads(t, itemclass=Leaf, tag=tag)
        return Deep(v, tag=tag) if deep else JSON(v, itemclass=Leaf, tag=tag)
    history(ctx, r, 14, make, watch)
    ctx.event('subclass documents')


UNITS = {'subclasses': (subclasses, 1500, 12000), 'history': (history, 16000, 120000), 'long': (lambda c, r: history(c, r, 60), 1200, 10000),
         'independence': (independence, 4000, 20000)}
