"""C15: every validation assertion keyword judged by an independent model."""
import copy, json
from fractions import Fraction
from lib import gen
from lib import large as big
from lib.genschema import REGEX, WORDS, Gen, inst
from lib.refeval import *
from lib.smon import Pair, DRAFTS, catalog
from lib.harness import check

RULE = ('one to three assertion keywords with hostile values x instances at, next to and away from the boundary, of every JSON type, in three '
        'drafts; verdicts judged by the reference evaluator. State: (draft, keyword, keyword value class, instance type, verdict)')
REQUIRED = {f'{k} {o}': 40 for k in ['type', 'enum', 'const', 'multipleOf', 'maximum', 'exclusiveMaximum', 'minimum', 'exclusiveMinimum', 'maxLength', 'minLength',
                                    'pattern', 'maxItems', 'minItems', 'uniqueItems', 'maxContains', 'minContains', 'maxProperties', 'minProperties', 'required',
                                    'dependentRequired'] for o in ('accepts', 'rejects')}
REQUIRED['ignored for other types'] = 1000
REQUIRED['huge'] = 3000
REQUIRED.update({f'large {k} {o}': 30 for k in ['uniqueItems', 'enum', 'const', 'required', 'dependentRequired', 'maxItems', 'minItems', 'maxProperties', 'minProperties', 'minContains', 'maxContains', 'pattern',
                                              'maxLength', 'minLength'] for o in ('accepts', 'rejects')})

NUM = gen.INTS + gen.FLOATS + [0.01, 0.001, 0.07, 1e-8, 1.1, 2.2, 3.3, 4.35, 0.0075, 19.99, 1e308, -1e308, 9007199254740993, 9007199254740992.0, 1e15 + .3,
                               10**30, 10**30 + 1, 1e30, 12345678901234567890, 0.1 + 0.2, 7, 49, 1.0000000000000002]
STRS = WORDS + ['e\u0301', 'a\nb', '\n', ' ', 'A', '\U0001F468\u200d\U0001F469', '\U00010000', 'é' * 3, 'foobar', 'xfoo', 'b\n', '0123', '\ud7ff', 'o\n', '٣']
RX = REGEX + ['^', '$', 'b', '^a$', '[^a]', '\\w+', 'a{2,}', '^(?:a|b)*$', '\\u00e9', '^\\u0061', '.*', '^$', '\\.', 'a.b', '^[^/]+$', '\\bfoo\\b', 'A', '(?:)', 'a|^b$', '\\s']


def num(r):
    x = r.random()
    if x < .6:
        return r.choice(NUM)
    if x < .8:
        return r.randint(-12, 12)
    v = round(r.uniform(-20, 20), r.randint(0, 5))
    return v


def near(r, v):
    c = [v, v, -v, v * 2]
    try:
        c += [v + 1, v - 1, float(v)]
        f = float(v)
        if f.is_integer():
            c.append(int(f))
        import math
        c += [math.nextafter(f, 1e400), math.nextafter(f, -1e400)]
    except OverflowError:
        c += [v + 1, v - 1]
    y = r.choice(c)
    return y if y not in (float('inf'), float('-inf')) else v


def keyword(r):
    k = r.choice(['type', 'enum', 'const', 'multipleOf', 'multipleOf', 'maximum', 'exclusiveMaximum', 'minimum', 'exclusiveMinimum', 'maxLength', 'minLength', 'pattern',
                  'maxItems', 'minItems', 'uniqueItems', 'uniqueItems', 'contains', 'contains', 'maxProperties', 'minProperties', 'required', 'dependentRequired'])
    v = None
    if k == 'type':
        T = ['null', 'boolean', 'integer', 'number', 'string', 'array', 'object']
        v = r.choice(T) if r.random() < .6 else r.sample(T, r.choice([1, 2, 3, 4]))
    elif k == 'enum':
        v = [gen.value(r, 2, 3) for _ in range(r.choice([0, 1, 2, 3, 6]))]
    elif k == 'const':
        v = gen.value(r, 3, 3)
    elif k == 'multipleOf':
        while True:
            v = abs(num(r))
            if v > 0:
                break
    elif k in ('maximum', 'exclusiveMaximum', 'minimum', 'exclusiveMinimum'):
        v = num(r)
    elif k in ('maxLength', 'minLength', 'maxItems', 'minItems', 'maxProperties', 'minProperties'):
        v = r.choice([0, 1, 1, 2, 2, 3, 4, 5, 2.0, 0.0, 10**20])
    elif k == 'pattern':
        v = r.choice(RX)
    elif k == 'uniqueItems':
        v = r.random() < .85
    elif k == 'required':
        v = list(dict.fromkeys(gen.key(r) for _ in range(r.choice([0, 1, 1, 2, 3]))))
    elif k == 'dependentRequired':
        v = {gen.key(r): list(dict.fromkeys(gen.key(r) for _ in range(r.choice([0, 1, 2])))) for _ in range(r.choice([0, 1, 2, 3]))}
    return k, v


def target(r, k, v):
    """an instance this keyword is about"""
    x = r.random()
    if x < .12:
        return gen.value(r, 2, 3)
    if k == 'type':
        return r.choice([None, True, False, 0, 1, -3, 1.0, 0.0, -0.0, 1.5, 1e300, 2**70, 'a', '', [], [1], {}, {'a': 1}, 1e-300, 5e-324, '1', 10**400])
    if k == 'enum':
        return gen.tweak(r, r.choice(v)) if v else gen.value(r, 2, 2)
    if k == 'const':
        return gen.tweak(r, v) if r.random() < .6 else json.loads(json.dumps(v))
    if k == 'multipleOf':
        y = r.random()
        if y < .5:
            m = r.choice([0, 1, 2, 3, 7, -4, 10, 1000, 10**6])
            p = Fraction(repr(v)) * m if isinstance(v, float) else v * m
            if isinstance(p, int):
                return p
            if p.denominator == 1:
                return int(p)
            try:
                return float(p)
            except OverflowError:
                return num(r)
        if y < .7:
            return near(r, v)
        return num(r)
    if k in ('maximum', 'exclusiveMaximum', 'minimum', 'exclusiveMinimum'):
        return near(r, v) if r.random() < .7 else num(r)
    n = v
    if k in ('maxLength', 'minLength', 'maxItems', 'minItems', 'maxProperties', 'minProperties'):
        n = min(int(v), 6) + r.choice([-1, 0, 0, 1])
        n = max(0, n)
    if k in ('maxLength', 'minLength'):
        return ''.join(r.choice(['a', 'é', '\U0001F600', 'e\u0301'[1], '\n', ' ', '中']) for _ in range(n)) if r.random() < .8 else r.choice(STRS)
    if k == 'pattern':
        return r.choice(STRS)
    if k in ('maxItems', 'minItems'):
        return [gen.scalar(r) for _ in range(n)]
    if k == 'uniqueItems':
        a = [r.choice([1, 1.0, True, 0, False, 0.0, '', None, [], {}, '1', [1], [True], [1.0], {'a': 1}, {'a': True}, {'a': 1.0}, {'a': 1, 'b': 2}, {'b': 2, 'a': 1}, [[]], 2, 3, 'a', 'A', [0],
                        [False], 2**53, 2**53 + 1, 2.0**53, {'a': [1, {'b': None}]}, {'a': [1, {'b': 0}]}]) for _ in range(r.choice([0, 1, 2, 2, 3, 4]))]
        if a and r.random() < .35:
            a.insert(r.randint(0, len(a)), gen.tweak(r, r.choice(a)))
        return a
    if k in ('maxProperties', 'minProperties'):
        d = {}
        while len(d) < n:
            d[gen.key(r) + r.choice(['', '', '1'])] = gen.scalar(r)
        return d
    if k == 'required':
        return {x: gen.scalar(r) for x in v + [gen.key(r)] if r.random() < .85}
    if k == 'dependentRequired':
        return {x: gen.scalar(r) for x in list(v) + [z for y in v.values() for z in y] + [gen.key(r)] if r.random() < .8}
    return gen.value(r, 2, 3)


def setup(ctx):
    catalog(ctx)


def asserts(ctx, r):
    d = r.choice(DRAFTS)
    k, v = keyword(r)
    s = {}
    if k == 'contains':
        s['contains'] = r.choice([True, False, {'type': 'integer'}, {'const': 1}, {'minimum': 2}, {'type': ['string', 'null']}])
        if r.random() < .7:
            s['minContains'] = r.choice([0, 1, 2, 3, 2.0, 0.0])
        if r.random() < .7:
            s['maxContains'] = r.choice([0, 1, 2, 3, 1.0])
        if len(s) > 1 and r.random() < .06:
            del s['contains']
    else:
        s[k] = v
    if r.random() < .25:
        k2, v2 = keyword(r)
        if k2 != 'contains':
            s.setdefault(k2, v2)
    if r.random() < .5:
        s = dict(sorted(s.items(), key=lambda _: r.random()))
    uri = None if r.random() < .7 else 'https://x.test/s'
    with catalog(ctx).cache() as cid:
        p = Pair(ctx, s, d, uri=uri, cacheid=cid, via=r.choice([None, 'text']))
        for _ in range(4):
            kk = r.choice(list(s))
            if kk in ('contains', 'minContains', 'maxContains'):
                x = [r.choice([1, 2, 'a', None, 1.0, True, 0, [], 3]) for _ in range(r.choice([0, 1, 2, 3, 4]))] if r.random() < .9 else gen.value(r, 1, 2)
            else:
                x = target(r, kk, s[kk])
            if inf(x):
                continue
            res, m = p.verdict(ctx, x, via=r.choice([None, 'text']))
            done = set()
            for q in m.kws:
                ctx.event(f"{q.key} {'accepts' if q.valid else 'rejects'}")
                done.add(q.key)
                ctx.state(d, q.key, jtype(s[q.key]), type(x).__name__, q.valid, short_class(s[q.key]))
            for q in s:
                if q not in done:
                    ctx.event('ignored for other types')
    ctx.sample({'draft': d, 'schema': s, 'instance': x, 'valid': m.valid})


def inf(x):
    if isinstance(x, float):
        return x != x or x in (float('inf'), float('-inf'))
    if isinstance(x, list):
        return any(map(inf, x))
    if isinstance(x, dict):
        return any(map(inf, x.values()))
    return False


def short_class(v):
    return v if isinstance(v, (bool, str)) or v is None else type(v).__name__ if not isinstance(v, (int, float)) else ('big' if abs(v) > 1e15 else 'tiny' if 0 < abs(v) < 1e-3 else type(v).__name__)


def large(ctx, r):
    """long arrays, wide objects, long strings and lists of names"""
    d = r.choice(DRAFTS)
    n = big.size(r)
    k = r.choice(['uniqueItems'] * 4 + ['enum'] * 3 + ['required', 'required', 'dependentRequired', 'const', 'const', 'counts', 'counts', 'contains', 'contains', 'pattern', 'length'])
    xs = []
    if k == 'uniqueItems':
        s = {k: True}
        xs = [big.repeated(r, n) for _ in range(3)]
    elif k == 'enum':
        e = big.distinct(r, n)
        s = {k: e}
        for _ in range(4):
            v = r.choice(e) if r.random() < .7 else e[-1]
            xs.append(big.respell(r, v) if r.random() < .5 else big.miss(r, v))
    elif k == 'const':
        v = big.distinct(r, n)
        if r.random() < .6:
            v = dict(zip(big.names(r, n), v))
        s = {k: v}
        w = copy.deepcopy(v)
        i = r.choice(list(w) if isinstance(w, dict) else range(len(w)))
        w[i] = big.miss(r, w[i])
        xs = [big.respell(r, v), w, big.respell(r, w), [big.respell(r, v)]]
        if isinstance(v, list):
            xs.append(v[1:] + v[:1])
    elif k in ('required', 'dependentRequired'):
        ns = big.names(r, n)
        r.shuffle(ns)
        s = {k: ns} if k == 'required' else {k: {ns[0]: ns[1:], **{x: [ns[i - 1]] for i, x in enumerate(ns[5:], 5)}}}
        full = {x: 1 for x in r.sample(ns, n)}
        one = dict(full)
        one.pop(r.choice([r.choice(ns), ns[-1]]))
        xs = [full, {**full, 'other': 1}, one, {}]
    elif k == 'counts':
        k = r.choice(['maxItems', 'minItems', 'maxProperties', 'minProperties'])
        s = {k: r.choice([n, float(n)])}
        xs = [[0] * m if 'Items' in k else {str(i): 0 for i in range(m)} for m in (n - 1, n, n + 1)]
    elif k == 'contains':
        c = r.randint(0, n)
        s = {'contains': {'const': 1}, **({'minContains': c} if r.random() < .7 else {}), **({'maxContains': c} if r.random() < .7 else {})}
        for m in {c, max(0, c - 1), c + 1, n}:
            x = [1] * m + [r.choice([True, 2, 'x', [1]]) for _ in range(n - m)]
            r.shuffle(x)
            xs.append(x)
    elif k == 'length':
        n = r.choice([n, 255, 256, 1000, 4096, 70000])
        k = r.choice(['maxLength', 'minLength'])
        s = {k: n}
        xs = [r.choice(['a', 'é', '\U0001F600', '\n']) * m for m in (n - 1, n, n + 1)]
    else:
        n = r.choice([n, 300, 5000])
        s = {k: r.choice(['b$', '^a*b$', 'ab', '^a{3,}b?$', '[^a]', '^.*b'])}
        xs = ['a' * n + 'b', 'a' * n, 'b' + 'a' * n, 'a' * n + 'b\n', 'a' * (n - 1) + 'b' + 'a']
    with catalog(ctx).cache() as cid:
        p = Pair(ctx, s, d, uri=None, cacheid=cid, via=r.choice([None, 'text']))
        for x in xs:
            res, m = p.verdict(ctx, x, via=r.choice([None, 'text']))
            for q in m.kws:
                ctx.event(f"large {q.key} {'accepts' if q.valid else 'rejects'}")
            ctx.state(d, 'large', k, n, m.valid)


def huge(ctx, r):
    """integers beyond the floats, also with more digits than the interpreter converts to text"""
    from jschon import JSON, JSONSchema, URI
    d = r.choice(DRAFTS)
    e, off, sign = r.choice([308, 309, 400, 4299, 4300, 4301, 5000, 6001]), r.choice([0, 0, 1, -1, 2, 5]), r.choice([1, 1, -1])
    N = sign * (10 ** e + off)
    name = f'{sign}*(10**{e}+{off})'
    small = r.choice([0, 1, -1, 2.5, 1e308, -1e308, 7, 10 ** 300, N + 1, N - 1, -N, N, N])
    if e == 308 and isinstance(small, float):        # which number 1e308 is then matters: left to the other units
        small = 2.5
    k = r.choice(['multipleOf', 'multipleOf', 'maximum', 'minimum', 'exclusiveMaximum', 'exclusiveMinimum', 'const', 'enum', 'uniqueItems', 'type', 'length'])
    fr = lambda v: Fraction(v) if isinstance(v, int) else Fraction(repr(v))
    if k == 'multipleOf':
        v, x = r.choice([1, 2, 3, 7, 10, 0.5, 0.1, 2.5, 0.003, 1e300, 10 ** 20 + 1, abs(N), 10 ** e, 11]), N
        if r.random() < .2:
            v, x = abs(N), r.choice([N * 2, N * 3 + 1, 0, 5, 1e308, 2.5])
        want = fr(x) % fr(v) == 0
    elif k in ('const', 'enum'):
        v, x = (N, small) if r.random() < .5 else (small, N)
        if r.random() < .3:
            v, x = {'a': [v]}, {'a': [x]}
            want = fr(v['a'][0]) == fr(x['a'][0])
        else:
            want = fr(v) == fr(x)
        if k == 'enum':
            v = [None, v, str(off)]
    elif k == 'uniqueItems':
        v, x = True, [N, small, True, 'x']
        want = fr(N) != fr(small)
    elif k == 'type':
        v = r.choice(['integer', 'number', 'string', ['null', 'integer'], ['array', 'boolean']])
        x = N
        want = bool({'integer', 'number'} & set([v] if isinstance(v, str) else v))
    elif k == 'length':
        k = r.choice(['maxLength', 'minLength', 'maxItems', 'minItems', 'maxProperties', 'minProperties'])
        v, x = abs(N), {'L': 'abc', 'I': [1, 2], 'P': {'a': 1}}[k[3]]
        want = k[:3] == 'max'
    else:
        v, x = (N, small) if r.random() < .5 else (small, N)
        a, b = fr(x), fr(v)
        want = {'maximum': a <= b, 'exclusiveMaximum': a < b, 'minimum': a >= b, 'exclusiveMinimum': a > b}[k]
    with catalog(ctx).cache() as cid:
        got = JSONSchema({k: v}, catalog=catalog(ctx), cacheid=cid, metaschema_uri=URI(META[d])).evaluate(JSON(x)).valid
    check(got is want, 'verdict on a huge integer', keyword=k, N=name, draft=d, got=got, want=want, other=name if small is N else repr(small) if isinstance(small, float) or abs(small) < 10 ** 301 else 'N + ' + str(small - N) if abs(small - N) < 9 else '-N')
    ctx.event('huge')
    ctx.state('huge', k, e, want)


UNITS = {'huge': (huge, 4000, 40000), 'large': (large, 5000, 60000), 'asserts': (asserts, 120000, 900000)}
