"""Schemas and instances whose size matters: long arrays, wide objects, many branches, long names, deep nesting."""
import copy
from lib.models import jeq
from lib.refeval import D19

SIZES = [9, 10, 11, 12, 17, 20, 33, 40, 65, 101, 130]


def size(r, cap=10 ** 9):
    return min(cap, r.choice(SIZES) + r.choice([0, 0, 0, 1, -1]))


def respell(r, v):
    """v written differently: the same JSON value"""
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, (int, float)):
        if float(v).is_integer():
            return r.choice([int(v), float(v)])
        return v
    if isinstance(v, list):
        return [respell(r, x) for x in v]
    items = [(k, respell(r, x)) for k, x in v.items()]
    r.shuffle(items)
    return dict(items)


def miss(r, v):
    """a value that looks like v and is not equal to it"""
    if v is True:
        return 1
    if v is False:
        return 0
    if v is None:
        return r.choice(['', 'null', 0, False])
    if isinstance(v, (int, float)):
        return True if v == 1 else False if v == 0 else r.choice([str(v), [v], v + 1000003])
    if isinstance(v, str):
        return r.choice([v + '_', [v], v.swapcase() + '_'])
    if isinstance(v, list):
        return v + [None] if not v or r.random() < .5 else v[:-1] + [miss(r, v[-1])]
    if not v or r.random() < .3:
        return {**v, '_extra_': None}
    k = r.choice(list(v))
    return {**v, k: miss(r, v[k])}


def distinct(r, n):
    """n values of all types, no two equal"""
    kind = r.choice(['ints', 'strs', 'mixed', 'mixed', 'objects', 'arrays', 'numbers', 'objects'])
    out = []
    for i in range(n):
        k = kind if kind != 'mixed' else r.choice(['ints', 'strs', 'objects', 'arrays', 'numbers'])
        out.append({'ints': i, 'strs': f'{i}', 'objects': {'a': i, 'b': {'c': [i, None], 'd': 'x'}}, 'arrays': [i, {'a': 1, 'b': 2}], 'numbers': i + .5 if i % 3 else float(i)}[k])
    if kind in ('mixed', 'ints') and n > 4:
        for p, v in zip(r.sample(range(2, n), min(3, n - 2)), [True, False, None]):
            out[p] = v
        if kind == 'mixed':
            out[0] = 0.0 if r.random() < .5 else 0
            out[1] = 1 if r.random() < .5 else 1.0
            for p in range(2, n):
                if any(jeq(out[p], out[q]) for q in (0, 1)):
                    out[p] = 'dup%d' % p
    r.shuffle(out)
    return out


def repeated(r, n):
    """an array in which at most one value occurs twice, the second time written differently or only alike"""
    a = distinct(r, n)
    x = r.random()
    if x < .75:
        i = r.randrange(len(a))
        v = copy.deepcopy(a[i])
        v = respell(r, v) if x < .4 else miss(r, v)
        a.insert(r.choice([r.randint(0, len(a)), len(a), 0, i]), v)
    return a


def names(r, n, long=False):
    style = r.choice(['x' * r.choice([30, 70, 130]) + '{}', 'n{}' + 'y' * r.choice([30, 70, 130])]) if long else r.choice(['p{}', '{}', '{:05d}', 'x' * r.choice([1, 40, 130]) + '{}', 'a/b~{}', 'é{}'])
    return [style.format(i) for i in range(n)]


LEAVES = [({'type': 'integer'}, 1, 'x'), ({'const': 1}, 1.0, True), ({'minimum': 2}, 3, 1), ({'type': 'string', 'title': 't'}, 'a', 1), ({'enum': [1, 2], 'description': 'd'}, 2, 3),
          ({'maxLength': 3}, 'abc', 'abcd'), ({'not': {'const': 0}}, 1, 0), ({'properties': {'q': {'type': 'integer'}}, 'title': 'o'}, {'q': 1}, {'q': 'x'})]


def leaf(r):
    return copy.deepcopy(r.choice(LEAVES))


def case(r, d, un=False):
    """-> (schema, list of instances), a big instance of one applicator family"""
    pre, rest = ('items', 'additionalItems') if d == D19 else ('prefixItems', 'items')
    fam = r.choice(['branches', 'props', 'patterns', 'tuple', 'items', 'contains', 'deep', 'names', 'dependent', 'refs'])
    n = size(r, 66 if fam in ('branches', 'refs') else 10 ** 9)
    s, xs = {}, []
    if fam == 'branches':
        k = r.choice(['allOf', 'anyOf', 'oneOf'])
        hit = sorted(r.sample(range(n), r.choice([0, 1, 1, 2, 3, 5])))
        if k == 'allOf':
            s[k] = [{'not': {'const': i}} if r.random() < .5 else {'properties': {f'k{i}': {'title': f't{i}'}}} for i in range(n)]
            xs = [r.choice([-1, n, 'a']), r.randrange(n), {f'k{i}': 1 for i in r.sample(range(n), min(n, 9))}]
        else:
            s[k] = [{r.choice(['const', 'minimum']): 7 if i in hit else 1000 + i, 'title': f't{i}'} for i in range(n)]
            xs = [7, 1000 + r.randrange(n), 3, 5000]
    elif fam == 'props':
        ns = names(r, n)
        L = {k: leaf(r) for k in ns}
        s['properties'] = {k: v[0] for k, v in L.items() if r.random() < .9}
        if r.random() < .6:
            s['additionalProperties'] = r.choice([False, {'type': 'integer'}, True])
        for _ in range(3):
            x = {k: v[1] for k, v in L.items() if k in s['properties'] or r.random() < .3}
            for k in r.sample(ns, r.choice([0, 0, 1, 2])):
                x[k] = L[k][2]
            if r.random() < .3:
                x['other'] = 1
            xs.append(shuffle(r, x))
    elif fam == 'patterns':
        ns = names(r, n, r.random() < .4)
        end = r.choice(ns)
        s['patternProperties'] = {p: leaf(r)[0] for p in r.sample(['^' + ''.join('\\' + c if c in '/~' else c for c in end) + '$', end[-1:] + '$', '9', '^p1', '00', 'x{30}', '^[nx]', '^n[1-5]', '[02468]$', 'y$'], r.choice([1, 2, 4, 6]))}
        for i in range(r.choice([0, 12])):
            s['patternProperties'][f'{i}$'] = {'title': str(i), 'not': {'const': i}}
        if r.random() < .7:
            s['additionalProperties'] = r.choice([False, {'type': ['integer', 'string']}])
        xs = [{k: r.choice([1, 1, 2, 'abc', 3] if r.random() < .9 else [None, {'q': 'x'}]) for k in ns} for _ in range(3)]
    elif fam == 'tuple':
        L = [leaf(r) for _ in range(n)]
        s[pre] = [v[0] for v in L]
        y = leaf(r)
        if r.random() < .6:
            s[rest] = y[0] if r.random() < .7 else False
        for m in (n, n + r.choice([1, 12]), n - 1, r.randint(0, n)):
            x = [v[1] for v in L[:m]] + [y[1]] * max(0, m - n)
            if x and r.random() < .5:
                i = r.choice([r.randrange(len(x)), len(x) - 1, min(9, len(x) - 1), min(10, len(x) - 1)])
                x[i] = L[i][2] if i < n else y[2]
            xs.append(x)
    elif fam == 'items':
        y = leaf(r)
        s['items'] = y[0]
        for _ in range(3):
            x = [y[1]] * n
            if r.random() < .7:
                x[r.choice([r.randrange(n), n - 1])] = y[2]
            xs.append(x)
    elif fam == 'contains':
        y = leaf(r)
        s['contains'] = y[0]
        k = r.randint(0, n)
        if r.random() < .7:
            s['minContains'] = k
        if r.random() < .7:
            s['maxContains'] = k + r.choice([0, 0, 3])
        for m in (k, k + 1, max(0, k - 1), n):
            x = [y[1]] * m + [y[2]] * max(0, n - m)
            r.shuffle(x)
            xs.append(x)
    elif fam == 'deep':
        n = r.choice([9, 12, 17, 25, 34])
        s, ok, bad = leaf(r)
        for i in range(n):
            w = r.choice(['properties', 'items', 'allOf', 'tuple', 'not', 'ap', 'if'])
            if w == 'properties':
                s, ok, bad = {'properties': {'a': s}, 'title': str(i)}, {'a': ok}, {'a': bad}
            elif w == 'ap':
                s, ok, bad = {'additionalProperties': s}, {'z': ok}, {'z': bad}
            elif w == 'items':
                s, ok, bad = {'items': s}, [ok, ok] if i < 5 else [ok], [ok, bad] if i < 5 else [bad]
            elif w == 'tuple':
                s, ok, bad = {pre: [True, s]}, [1, ok], [1, bad]
            elif w == 'allOf':
                s = {'allOf': [True, s]}
            elif w == 'if':
                s = {'if': True, 'then': s}
            else:
                s, ok, bad = {'not': s}, bad, ok
        xs = [ok, bad]
    elif fam == 'names':
        ns = names(r, n)
        s['propertyNames'] = r.choice([{'maxLength': len(ns[-1])}, {'maxLength': len(ns[0])}, {'enum': ns}, {'enum': ns[:-1]}, {'not': {'const': r.choice(ns)}}, {'pattern': '[0-8]$'}])
        xs = [{k: 1 for k in ns}, {k: 1 for k in ns[:-1]}, {k: 1 for k in r.sample(ns, n // 2)}]
    elif fam == 'dependent':
        ns = names(r, n)
        s['dependentSchemas'] = {k: {'required': [ns[(i + 1) % n]]} if r.random() < .8 else {'properties': {ns[i - 1]: {'type': 'integer'}}} for i, k in enumerate(ns)}
        x = {k: 1 for k in ns}
        y = dict(x)
        del y[r.choice(ns)]
        z = dict(x)
        z[r.choice(ns)] = 'x'
        xs = [x, y, z, {r.choice(ns): 1}]
    else:
        # a long chain of references
        y = leaf(r)
        n = min(n, 25)
        s = {'$ref': '#/$defs/r0', '$defs': {f'r{i}': {'title': f'{i}', ('$ref' if r.random() < .8 or d == D19 else '$dynamicRef'): f'#/$defs/r{i + 1}'} for i in range(n)}}
        s['$defs'][f'r{n}'] = {'properties': {'p': y[0]}, pre: [True, y[0]]}
        xs = [{'p': y[1], 'o': 1}, {'p': y[2]}, [1, y[1]], [1, y[2], 3]]
    if un and r.random() < .15:
        a, b = r.choice([1, 2, 3, 8, 9, 12]), r.choice([9, 10, 11, 20, 99, 101])
        parts = [{pre: [True] * a}, {pre: [True] * b, 'title': 'b'}]
        r.shuffle(parts)
        s = {r.choice(['allOf', 'allOf', 'anyOf']): parts, 'unevaluatedItems': r.choice([False, {'type': 'integer'}, {'type': 'integer'}])}
        if r.random() < .3:
            s[pre] = [True] * r.choice([1, 5, 12, 30])
        return s, [['x'] * k + [r.choice([1, 1, 'x'])] for k in (max(a, b) - 1, max(a, b), a, b - 2)]
    if un:
        u = 'unevaluatedItems' if any(isinstance(x, list) for x in xs) else 'unevaluatedProperties'
        v = r.choice([False, False, {'type': 'integer'}, {'const': 1}])
        if isinstance(s, dict):
            if r.random() < .5:
                defs = {k: s.pop(k) for k in list(s) if k == '$defs'}
                s = {'allOf': [s], u: v, **defs}
                if r.random() < .5:
                    m = r.choice([1, 2, 9, 10, 11, 12])
                    s['allOf'].insert(r.randint(0, 1), {pre: [True] * m} if u == 'unevaluatedItems' else {'properties': {k: True for x in xs if isinstance(x, dict) for k in list(x)[:m]}})
            else:
                s[u] = v
        more = []
        for x in xs:
            if isinstance(x, list):
                more.append(x + [r.choice([1, 'x'])])
            elif isinstance(x, dict):
                more.append({**x, 'un1': r.choice([1, 'x'])})
        xs += more[:2]
    return s, xs[:5]


def shuffle(r, d):
    items = list(d.items())
    r.shuffle(items)
    return dict(items)
