"""Hostile seeded generators for JSON values, keys, pointers."""
KEYS = ['a', 'b', 'c', '', '0', '1', '-', '01', '-1', '~', '/', 'a/b', 'm~n', '~0', '~1', '~01', '%', '%25', '#', '"', "'",
        ' ', 'e f', '\\', 'é', '中', '\U0001F600', '\u0000', '\n', '+1', '10', '$ref', '$id', '__proto__', 'é/~', '?', 'A',
        '٣', '.', '..', 'length', '²', '{', '\x7f', '^', '|', '`', '\u2028', 'ﬀ']
STRS = KEYS + ['foo', 'bar', 'x' * 40, '\ufeff', '\r\n', '\t', '\b\f', 'null', 'true', '1.0', 'e\u0301', '\ud7ff', 'I\u0307',
               '</script>', '\\u0041', '\x1f']
INTS = [0, 1, -1, 2, 3, 5, 7, 10, 100, 255, -7, 2**31, 2**53, 2**53 + 1, -2**53 - 1, 10**20, 10**40, 123456789012345678901234567890]
FLOATS = [0.0, -0.0, 1.0, -1.0, 2.0, 0.5, 1.5, 0.1, 0.2, 0.3, 1e-7, 1e16, 1e20, 1e22, 1.5e300, 5e-324, 2.0**53, 3.0, 10.0, 100.0, 1 / 3, 123.456]


def key(r, small=False):
    x = r.random()
    if small or x < 0.45:
        return r.choice('abc')
    if x < 0.9:
        return r.choice(KEYS)
    if x > .994:
        return long_str(r)
    return ''.join(r.choice('ab~/01%-é"# ') for _ in range(r.randint(0, 5)))


def scalar(r):
    x = r.random()
    if x < .12:
        return None
    if x < .28:
        return r.random() < .5
    if x < .48:
        return r.choice(INTS) if r.random() < .6 else r.randint(-20, 20)
    if x < .66:
        return r.choice(FLOATS) if r.random() < .7 else round(r.uniform(-50, 50), r.randint(0, 6))
    y = r.random()
    return r.choice(STRS) if y < .8 else ''.join(r.choice(STRS)[:3] for _ in range(r.randint(0, 4))) if y < .985 else long_str(r)


def value(r, depth=3, width=4, small=False, p_scalar=.35):
    if depth <= 0 or r.random() < p_scalar:
        return scalar(r)
    n = r.choice([0, 1, 1, 2, 2, 3, width, width])
    x = r.random()
    if x < .012 and width > 2:      # indices of two digits and more
        return [scalar(r) for _ in range(r.choice([10, 11, 12, 21, 101]))]
    if x < .02 and width > 2:       # wide objects
        return wide(r)
    if x < .5:
        return [value(r, depth - 1, width, small) for _ in range(n)]
    return {key(r, small): value(r, depth - 1, width, small) for _ in range(n)}


def wide(r):
    d = {key(r): scalar(r) for _ in range(4)}
    d.update((r.choice(['', 'k', '0', 'a/']) + str(i), scalar(r)) for i in range(r.choice([8, 11, 13, 20, 33, 70, 130])))
    items = list(d.items())
    r.shuffle(items)
    return dict(items)


def long_str(r):
    c = r.choice(['a', 'b', 'é', '/', '~', '~1', '%', '0', 'ab', '\U0001F600'])
    return (r.choice(['', 'x', '/']) + c * r.choice([33, 64, 65, 127, 256, 300, 1030]))[:r.choice([64, 65, 255, 256, 2000])] + r.choice(['', 'y', '~0'])


def long_array(r):
    """A document holding an array whose indices have two digits and more."""
    a = [r.choice([i, [i], {'a': i}]) for i in range(r.choice([10, 11, 12, 13, 25, 101, 112]))]
    return r.choice([a, a, {'x': a}, [a, 1]])


def container(r, depth=3, width=4, small=False):
    while True:
        v = value(r, depth, width, small, p_scalar=0)
        if isinstance(v, (list, dict)):
            return v


def fake_index(r, n):
    """An index below n spelt partly with digits RFC 6901 does not allow."""
    s = str(r.randrange(n)) if n else '0'
    zero = ord(r.choice('٠０०۰'))
    i = r.randrange(len(s)) if r.random() < .4 else len(s) - 1
    return ''.join(chr(zero + int(c)) if j >= i else c for j, c in enumerate(s))


def deep(r, n):
    v = scalar(r)
    for _ in range(n):
        v = [v] if r.random() < .5 else {key(r): v}
    return v


def tweak(r, v):
    """A value close to v: equal as JSON, or different in one small way."""
    import copy
    x = r.random()
    if isinstance(v, list) and v and x < .8:
        v = list(v)
        i = r.randrange(len(v))
        y = r.random()
        if y < .6:
            v[i] = tweak(r, v[i])
        elif y < .75:
            del v[i]
        elif y < .9:
            v.insert(i, scalar(r))
        else:
            v = v[::-1]
        return v
    if isinstance(v, dict) and v and x < .8:
        items = list(v.items())
        i = r.randrange(len(items))
        y = r.random()
        if y < .5:
            items[i] = (items[i][0], tweak(r, items[i][1]))
        elif y < .65:
            del items[i]
        elif y < .75:
            items[i] = (key(r), items[i][1])
        elif y < .85:
            items.append((key(r), scalar(r)))
        r.shuffle(items)
        return dict(items)
    if isinstance(v, bool):
        return r.choice([v, not v, int(v), float(v), str(v).lower(), [v], None])
    if isinstance(v, (int, float)):
        c = [v, v + 1, -v, str(v), [v], bool(v), None, {}]
        try:
            c += [float(v)]
            if float(v).is_integer():
                c += [int(v)]
        except OverflowError:
            pass
        return r.choice(c)
    if isinstance(v, str):
        return r.choice([v, v + 'a', v[:-1], [v], {v: v}, list(v), None, v.swapcase()])
    if v is None:
        return r.choice([None, False, 0, '', [], {}])
    if v == []:
        return r.choice([[], {}, None, '', [[]], False, 0])
    if v == {}:
        return r.choice([{}, [], None, '', {'': None}, False])
    return copy.deepcopy(v) if r.random() < .5 else [v]


def pointer_keys(r, doc, hostile=.3):
    """Key list that usually walks into doc, then possibly goes astray."""
    keys, v = [], doc
    while True:
        x = r.random()
        if x < .15:
            break
        if isinstance(v, dict) and v and x < .9:
            k = r.choice(list(v))
            keys.append(k)
            v = v[k]
        elif isinstance(v, list) and v and x < .9:
            i = r.randrange(len(v))
            keys.append(str(i))
            v = v[i]
        else:
            break
    if r.random() < hostile:
        bad = ['-', '-1', '01', '00', '+1', ' 1', '1 ', '1.0', '1e0', '0x0', '1_0', '٣', '²', '', '999', str(10**25), '-0', 'a', '0', '1',
               '2', '3', '4', 'é', '０', '\n0', '0\n']
        if isinstance(v, list) and r.random() < .3:
            bad = [str(len(v)), '0' + str(max(0, len(v) - 1)), '-' + str(len(v)), str(len(v) + 1), '-', fake_index(r, len(v))]
        t = r.choice(bad) if r.random() < .8 else key(r)
        y = r.random()
        if keys and y < .4:
            keys[r.randrange(len(keys))] = t
        else:
            keys.append(t)
            if y > .9:
                keys.append(r.choice(bad))
    return keys
