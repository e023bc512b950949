"""C05: JSON Pointer grammar, codec and sequence algebra."""
import urllib.parse
from lib import gen
from lib.harness import check, Violation
from lib.models import ptr_parse, ptr_str, Malformed, frag_ok, frag_decode, frag_encode

RULE = ('random key lists (every key class incl. all ASCII and sampled Unicode characters) and arbitrary strings through '
        'construction, printing, URI fragments, concatenation, slicing, prefix order and hashing vs a list model. '
        'State: key classes used')
REQUIRED = {'round trips': 3000, 'accepted strings': 1000, 'malformed strings': 1000, 'fragments': 5000, 'undecodable fragments': 500, 'algebra': 3000, 'immutability': 3000}


def klist(r, n=5):
    out = []
    for _ in range(r.randint(0, n) if r.random() < .98 else r.randint(9, 45)):
        x = r.random()
        if x < .6:
            out.append(gen.key(r))
        elif x < .8:
            out.append(chr(r.randrange(128)) * r.randint(1, 2))
        elif x < .9:
            out.append(''.join(r.choice('~/01%2fF ') for _ in range(r.randint(0, 6))))
        else:
            c = r.choice([r.randrange(0x80, 0xd800), r.randrange(0xe000, 0x110000), r.choice([0xd800, 0xdbff, 0xdc00, 0xdfff, 0xfffe, 0x10ffff, 0x85, 0x2028])])
            out.append('x' + chr(c))
    return out


def codec(ctx, r):
    from jschon import JSONPointer, URI
    ks = klist(r)
    ctx.store['last'] = ks
    p = JSONPointer(ks)
    check(list(p) == ks and len(p) == len(ks), 'keys not preserved by construction', keys=ks, got=list(p))
    s = str(p)
    check(s == ptr_str(ks), 'string form differs from RFC 6901', keys=ks, got=s, want=ptr_str(ks))
    q = JSONPointer(s)
    check(list(q) == ks and q == p and hash(q) == hash(p), 'string round trip loses keys', keys=ks, got=list(q))
    f = p.uri_fragment()
    check(frag_ok(f), 'URI fragment contains illegal characters', keys=ks, fragment=f)
    check(frag_decode(f) == s, 'URI fragment does not decode to the pointer', keys=ks, fragment=f)
    g = JSONPointer.parse_uri_fragment(f)
    check(list(g) == ks and isinstance(g, JSONPointer), 'fragment round trip loses keys', keys=ks, fragment=f, got=list(g))
    enc = frag_encode(s)
    if r.random() < .5:       # other legal encodings of the same fragment
        enc = ''.join('%%%02x' % b if r.random() < .5 else chr(b) if chr(b) in 'abcdefghijklmnopqrstuvwxyz0123456789/~' else '%%%02X' % b
                      for b in s.encode('utf-8', 'surrogatepass'))
    check(list(JSONPointer.parse_uri_fragment(enc)) == ks, 'percent-decoding of a fragment differs', fragment=enc, keys=ks)
    u = URI('https://example.com/x#' + f)
    check(u.fragment == f and list(JSONPointer.parse_uri_fragment(u.fragment)) == ks, 'fragment does not survive in a URI', keys=ks)
    for k in ks:
        e = JSONPointer.escape(k)
        check(e == ptr_str([k])[1:] and JSONPointer.unescape(e) == k, 'escape/unescape differ', key=k, got=e)
    check('JSONPointer' in repr(p) and repr(s) in repr(p), 'repr does not show the pointer', keys=ks, got=repr(p))
    ctx.event('round trips')
    ctx.state(tuple(sorted({k[:2] for k in ks})))
    ctx.sample(s)


def grammar(ctx, r):
    from jschon import JSONPointer
    from jschon.exc import JSONPointerMalformedError
    x = r.random()
    if x < .4:
        s = ''.join(r.choice(['/', '~', '~0', '~1', '~2', 'a', '0', '%', '#', '\n', ' ', 'é', '~~', '//', '~01', '-', '\r', '\x00', '\u2028', '\ud800', '\udfff', '\U0010ffff']) for _ in range(r.randint(0, 7)))
    elif x < .7:
        s = ptr_str(klist(r, 4))
        if r.random() < .6:
            i = r.randint(0, len(s))
            s = s[:i] + r.choice(['~', '/', '~2', '#', '\n', 'x', '~x', '']) + s[i:]
    elif x < .85:
        s = r.choice(gen.STRS) + r.choice(['', '/', '\n', '/~', '~0'])
    else:
        s = r.choice(['/', '']) + r.choice(gen.STRS)
    ctx.store['last'] = s
    try:
        want = ptr_parse(s)
    except Malformed:
        want = None
    for f in (lambda: JSONPointer(s), lambda: JSONPointer.parse_uri_fragment(urllib.parse.quote(s, safe='', errors='surrogatepass')), lambda: JSONPointer('/ok', s),
              lambda: JSONPointer(s, ['z'])):
        try:
            got = f()
        except JSONPointerMalformedError:
            got = None
        except Exception as e:
            raise Violation(f'{type(e).__name__} instead of JSONPointerMalformedError', string=s)
        check((got is None) == (want is None), 'acceptance differs from the RFC 6901 grammar', string=s, got=got, want=want)
    if want is not None:
        check(list(JSONPointer(s)) == want and str(JSONPointer(s)) == s, 'parse differs', string=s, want=want)
        check(list(JSONPointer('/ok', s)) == ['ok'] + want and list(JSONPointer(s, ['z'])) == want + ['z'], 'concatenation differs', string=s)
        ctx.event('accepted strings')
    else:
        ctx.event('malformed strings')
    ctx.state(want is None, s[:8])
    for bad in (1, None, 1.5, True):
        try:
            JSONPointer(bad)
        except TypeError:
            pass
        else:
            check(False, 'non-string non-iterable accepted', value=bad)


def fragments(ctx, r):
    """percent-encodings of any bytes: a pointer or JSONPointerMalformedError, by the decoded structure"""
    from jschon import JSONPointer
    from jschon.exc import JSONPointerMalformedError
    f = ''.join(r.choice(['/', 'a', '0', '~0', '~1', '~', '%7E0', '%2F', '%25', '%', '%4', '%zz', '%FF', '%C3', '%C3%A9', '%80', '%ED%A0%80', '%F4%90%80%80', '%00', 'é', '+', '%2b', '%c3%28', '%E2%82']) for _ in range(r.randint(0, 6)))
    if r.random() < .8:
        f = '/' + f
    ctx.store['last'] = f
    # pointer syntax is ASCII: bytes that are not UTF-8 cannot affect it
    text = urllib.parse.unquote(f, encoding='latin-1') if f.isascii() else urllib.parse.unquote(f, errors='replace')
    try:
        want = ptr_parse(text)
    except Malformed:
        want = None
    try:
        got = JSONPointer.parse_uri_fragment(f)
    except JSONPointerMalformedError:
        got = None
    check((got is None) == (want is None), 'acceptance of a fragment differs from its decoded form', fragment=f, got=got, want=want)
    if want is not None:
        check(len(got) == len(want), 'number of keys of a fragment', fragment=f, got=list(got), want=want)
        try:
            exact = ptr_parse(urllib.parse.unquote_to_bytes(f).decode('utf-8', 'surrogatepass'))
        except UnicodeError:
            ctx.event('undecodable fragments')
        else:
            check(list(got) == exact, 'percent-decoding of a fragment differs', fragment=f, got=list(got), want=exact)
    ctx.event('fragments')
    ctx.state('frag', f[:10])
    P = JSONPointer('/a')
    for op in (lambda: P < 5, lambda: P <= '/a', lambda: P > None, lambda: P / 5, lambda: P / None, lambda: P['a'], lambda: P[1.0], lambda: P[None]):
        try:
            op()
            check(False, 'an operation with something that is not a pointer, key or index succeeded')
        except TypeError:
            pass


def algebra(ctx, r):
    from jschon import JSONPointer
    a, b = klist(r, 4), klist(r, 3)
    if r.random() < .5:
        b = a[:r.randint(0, len(a))] + (b[:1] if r.random() < .4 else [])
    A, B = JSONPointer(a), JSONPointer(b)
    ctx.store['last'] = (a, b)
    ka = list(a)
    sA, hA = str(A), hash(A)
    # concatenation in all forms
    check(list(JSONPointer(A, B)) == a + b, 'constructor concatenation differs', a=a, b=b)
    check(list(JSONPointer(str(A), b, B, ())) == a + b + b, 'mixed concatenation differs', a=a, b=b)
    check(list(JSONPointer(iter(a), str(B))) == a + b, 'iterator concatenation differs', a=a, b=b)
    check(list(A / B) == a + b and list(A / b) == a + b and list(A / tuple(b)) == a + b and list(A / iter(b)) == a + b, "'/' with iterables differs", a=a, b=b)
    for k in b + ['/x', '~1', '']:
        check(list(A / k) == a + [k], "'/' with a single key differs", a=a, k=k)
    check(type(A / B) is JSONPointer and type(A[:1]) is JSONPointer, 'wrong result type')
    chain = A
    for k in b:
        chain = chain / k
    check(chain == A / B and hash(chain) == hash(A / B) and str(chain) == str(A) + str(B), 'chained / differs', a=a, b=b)
    # sequence behaviour
    n = len(a)
    for _ in range(4):
        i, j, st = r.randint(-n - 1, n + 1), r.randint(-n - 1, n + 1), r.choice([None, None, 1, 2, -1])
        check(list(A[i:j:st]) == a[i:j:st], 'slice differs', a=a, s=(i, j, st))
        try:
            got = A[i]
        except IndexError:
            got = IndexError
        try:
            want = a[i]
        except IndexError:
            want = IndexError
        check(got == want, 'index differs', a=a, i=i)
    check(list(A) == a and list(reversed(A)) == a[::-1] and bool(A) == bool(a), 'iteration differs', a=a)
    for k in b:
        check((k in A) == (k in a) and A.count(k) == a.count(k), 'containment differs', a=a, k=k)
        if k in a:
            check(A.index(k) == a.index(k), 'index() differs', a=a, k=k)
    # comparisons
    check((A == B) is (a == b) and (A != B) is (a != b), 'equality differs', a=a, b=b)
    if a == b:
        check(hash(A) == hash(B), 'equal pointers hash differently', a=a)
        check(len({A, B}) == 1 and {A: 1}[B] == 1, 'equal pointers are distinct as keys', a=a)
    pre = b[:len(a)] == a
    check((A <= B) is pre, '<= is not prefix', a=a, b=b)
    check((A < B) is (pre and len(a) < len(b)), '< is not proper prefix', a=a, b=b)
    check((B >= A) is pre and (B > A) is (pre and len(a) < len(b)), '>= / > differ', a=a, b=b)
    check((A == str(A)) is False and (A == a) is False, 'pointer equals a non-pointer', a=a)
    ctx.event('algebra')
    # immutability
    src = list(a)
    P = JSONPointer(src)
    src.append('later')
    check(list(P) == a, 'pointer aliases its source list', a=a)
    check(list(A) == ka and str(A) == sA and hash(A) == hA and list(B) == b, 'an operand changed', a=a, b=b)
    C = JSONPointer(A)
    D = A[:]
    C / 'x'
    JSONPointer(C, ['y'])
    check(list(A) == ka and list(C) == ka and list(D) == ka, 'an operand changed', a=a)
    ctx.event('immutability')
    ctx.state('alg', len(a), len(b), a == b, pre)


UNITS = {'codec': (codec, 96000, 450000), 'grammar': (grammar, 72000, 300000), 'fragments': (fragments, 16000, 60000), 'algebra': (algebra, 72000, 240000)}
