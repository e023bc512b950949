"""C03: equality, containment and ordering vs the JSON data model."""
import copy, itertools
from lib import gen
from lib.harness import check
from lib.models import jeq, jtype, num, canon, ident

RULE = ('pairs/triples of random and near-equal nested values, compared JSON/JSON, JSON/plain and plain/JSON with an exact '
        'model; arrays probed with in/index/count/remove-by-value; order operators on numbers and strings. '
        'State: (types, equal?, nesting) of the pair')
REQUIRED = {'equal pairs': 1500, 'unequal pairs': 1500, 'containment': 1500, 'order': 1500, 'triples': 300, 'mutated': 300, 'large pairs': 500}


def eqcheck(ctx, a, b):
    from jschon import JSON
    want = jeq(a, b)
    A, B = JSON(copy.deepcopy(a)), JSON(copy.deepcopy(b))
    ctx.store['last'] = (a, b)
    for x, y, how in ((A, B, 'JSON/JSON'), (A, b, 'JSON/plain'), (b, A, 'plain/JSON'), (B, A, 'reverse'), (B, a, 'JSON/plain')):
        got, gne = (x == y), (x != y)
        check(got is want, f'== gives {got!r} ({how})', a=a, b=b)
        check(gne is (not want), f'!= gives {gne!r} ({how})', a=a, b=b)
    check((A == A) is True and (A != A) is False and (A == copy.deepcopy(a)) is True, 'not reflexive', a=a)
    check(ident(A.value, a) and ident(B.value, b), 'comparison modified an operand', a=a, b=b)
    ctx.event('equal pairs' if want else 'unequal pairs')
    ctx.state(jtype(a), jtype(b), want, len(repr(a)) // 6, len(repr(b)) // 6)
    return want


def pairs(ctx, r):
    a = gen.value(r, 3, 4, small=r.random() < .5)
    if r.random() < .25:
        a = gen.scalar(r)
    elif r.random() < .02:
        a = r.choice([gen.wide(r), gen.wide(r), [gen.wide(r)], gen.long_array(r), {gen.long_str(r): 1}])
        ctx.event('large pairs')
    b = copy.deepcopy(a)
    for _ in range(r.choice([0, 1, 1, 1, 2])):
        b = gen.tweak(r, b)
    if r.random() < .1:
        b = gen.value(r, 2, 3, small=True)
    eqcheck(ctx, a, b)
    if isinstance(a, dict):
        items = list(a.items())
        r.shuffle(items)
        eqcheck(ctx, a, dict(items))
    ctx.sample([a, b])


def triples(ctx, r):
    from jschon import JSON
    base = gen.value(r, 2, 3, small=True)
    vs = [base] + [gen.tweak(r, base) for _ in range(4)]
    js = [JSON(v) for v in vs]
    eq = {(i, j): js[i] == js[j] for i in range(5) for j in range(5)}
    for i, j, k in itertools.product(range(5), repeat=3):
        if eq[i, j] and eq[j, k]:
            check(eq[i, k], 'equality not transitive', a=vs[i], b=vs[j], c=vs[k])
    for (i, j), e in eq.items():
        check(e == eq[j, i], 'equality not symmetric', a=vs[i], b=vs[j])
        check(e == (canon(vs[i]) == canon(vs[j])), 'equality differs from the canonical form', a=vs[i], b=vs[j])
    ctx.event('triples')


def contain(ctx, r):
    from jschon import JSON
    base = [gen.value(r, 1, 3, small=True) for _ in range(r.randint(0, 5))]
    if base:
        base += [gen.tweak(r, r.choice(base)) for _ in range(2)]
    r.shuffle(base)
    A = JSON(copy.deepcopy(base))
    ctx.store['last'] = base
    for _ in range(6):
        p = gen.tweak(r, r.choice(base)) if base and r.random() < .8 else gen.scalar(r)
        want = [i for i, x in enumerate(base) if jeq(x, p)]
        for q in (p, JSON(p)):
            check((q in A) is bool(want), 'in disagrees with equality', array=base, probe=p)
            check(A.count(q) == len(want), 'count disagrees with equality', array=base, probe=p, got=A.count(q))
            try:
                i = A.index(q)
            except ValueError:
                i = None
            check(i == (want[0] if want else None), 'index disagrees with equality', array=base, probe=p, got=i)
        ctx.event('containment')
        ctx.state('in', jtype(p), len(want))
    o = {gen.key(r): 1 for _ in range(3)}
    O = JSON(o)
    for k in list(o) + gen.KEYS[:12]:
        check((k in O) is (k in o), 'key containment differs', obj=o, key=k)


def order(ctx, r):
    from jschon import JSON
    if r.random() < .5:
        a, b = (r.choice(gen.INTS + gen.FLOATS) if r.random() < .7 else r.randint(-5, 5) for _ in range(2))
        if r.random() < .3:
            b = a
            if isinstance(b, int) and abs(b) < 2**53:
                b = float(b)
        na, nb = num(a), num(b)
    else:
        a, b = r.choice(gen.STRS), r.choice(gen.STRS)
        if r.random() < .4:
            b = a + r.choice(['', 'a', '\x00'])
        na, nb = a, b
    A, B = JSON(a), JSON(b)
    for x, y in ((A, B), (A, b)):
        check((x < y) is (na < nb), '< differs', a=a, b=b)
        check((x <= y) is (na <= nb), '<= differs', a=a, b=b)
        check((x > y) is (na > nb), '> differs', a=a, b=b)
        check((x >= y) is (na >= nb), '>= differs', a=a, b=b)
    check((a < B) is (na < nb) and (a >= B) is (na >= nb) and (a > B) is (na > nb) and (a <= B) is (na <= nb),
          'reflected order differs', a=a, b=b)
    for bad in (None, [], {}, 'x' if not isinstance(a, str) else 1):
        try:
            A < JSON(bad)
        except TypeError:
            continue
        check(False, 'ordering of unorderable types accepted', a=a, b=bad)
    ctx.event('order')
    ctx.state('ord', jtype(a), na < nb, na == nb)


def mutated(ctx, r):
    """Equality reflects the content after mutation."""
    from jschon import JSON
    a = gen.container(r, 2, 3, small=True)
    A, B = JSON(copy.deepcopy(a)), JSON(copy.deepcopy(a))
    check(A == B, 'equal documents differ', a=a)
    a.append(0) if isinstance(a, list) else a.__setitem__('k\x01', 0)
    A.append(0) if A.type == 'array' else A.__setitem__('k\x01', 0)
    check((A == B) is False and (B == A) is False and A == a, 'stale equality after mutation', a=a)
    ctx.event('mutated')


UNITS = {'pairs': (pairs, 60000, 400000), 'triples': (triples, 7500, 40000), 'contain': (contain, 12500, 80000),
         'order': (order, 25000, 120000), 'mutated': (mutated, 5000, 20000)}
