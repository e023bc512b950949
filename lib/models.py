"""Independent reference models for the non-schema parts: JSON data model
equality, RFC 6901 pointers, RFC 6902 patches, relative pointers, RFC 3986
resolution.  Nothing here imports jschon."""
import copy
import re
from fractions import Fraction


class Fail(Exception):
    """The modelled operation is not possible."""


class Missing(Fail):
    pass


class Malformed(Fail):
    pass


# ---------------------------------------------------------------- JSON model
def jtype(v):
    if v is None:
        return 'null'
    if isinstance(v, bool):
        return 'boolean'
    if isinstance(v, (int, float)):
        return 'number'
    if isinstance(v, str):
        return 'string'
    if isinstance(v, list):
        return 'array'
    if isinstance(v, dict):
        return 'object'
    raise TypeError(type(v))


def num(v):
    """Exact mathematical value (floats in this harness are finite unless stated)."""
    if isinstance(v, float) and (v != v or v in (float('inf'), float('-inf'))):
        return v
    return Fraction(v)


def jeq(a, b):
    ta, tb = jtype(a), jtype(b)
    if ta != tb:
        return False
    if ta == 'number':
        return num(a) == num(b)
    if ta == 'array':
        return len(a) == len(b) and all(jeq(x, y) for x, y in zip(a, b))
    if ta == 'object':
        return set(a) == set(b) and all(jeq(a[k], b[k]) for k in a)
    return a == b


def ident(a, b):
    """Same JSON value *and* same Python representation (types of numbers and
    member order of objects not ignored except order)."""
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(ident(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(ident(a[k], b[k]) for k in a)
    if isinstance(a, float):
        return a == b and str(a) == str(b) or a != a and b != b
    return a == b


def canon(v):
    """Hashable canonical form under JSON equality."""
    t = jtype(v)
    if t == 'number':
        return ('n', num(v))
    if t == 'array':
        return ('a', tuple(canon(x) for x in v))
    if t == 'object':
        return ('o', tuple(sorted((k, canon(x)) for k, x in v.items())))
    return (t, v)


# ------------------------------------------------------------- JSON Pointers
def ptr_parse(s):
    if s == '':
        return []
    if s[0] != '/':
        raise Malformed(s)
    out = []
    for tok in s[1:].split('/'):
        i, key = 0, ''
        while i < len(tok):
            c = tok[i]
            if c == '~':
                n = tok[i + 1:i + 2]
                if n == '0':
                    key += '~'
                elif n == '1':
                    key += '/'
                else:
                    raise Malformed(s)
                i += 2
            else:
                key += c
                i += 1
        out.append(key)
    return out


def ptr_str(keys):
    out = ''
    for k in keys:
        out += '/' + ''.join('~0' if c == '~' else '~1' if c == '/' else c for c in k)
    return out


FRAG_OK = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~!$&'()*+,;=:@/?")


def frag_ok(s):
    i = 0
    while i < len(s):
        if s[i] == '%':
            if not re.match(r'%[0-9A-Fa-f]{2}', s[i:i + 3]):
                return False
            i += 3
        elif s[i] in FRAG_OK:
            i += 1
        else:
            return False
    return True


def frag_encode(s):
    """Minimal percent-encoding of s for a URI fragment (used to write inputs)."""
    out = ''
    for b in s.encode('utf-8', 'surrogatepass'):
        c = chr(b)
        out += c if c in FRAG_OK else '%%%02X' % b
    return out


def frag_decode(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '%' and re.match(r'%[0-9A-Fa-f]{2}', s[i:i + 3]):
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out += s[i].encode('utf-8', 'surrogatepass')
            i += 1
    return out.decode('utf-8', 'surrogatepass')


def is_index(tok):
    return tok != '' and all(c in '0123456789' for c in tok) and (tok == '0' or tok[0] != '0')


def ptr_step(v, tok):
    if isinstance(v, dict):
        if tok in v:
            return v[tok]
        raise Missing(tok)
    if isinstance(v, list):
        if is_index(tok) and len(tok) < 20 and int(tok) < len(v):
            return v[int(tok)]
        raise Missing(tok)
    raise Missing(tok)


def ptr_eval(v, keys):
    for k in keys:
        v = ptr_step(v, k)
    return v


def all_paths(v, base=()):
    yield base
    if isinstance(v, dict):
        for k, x in v.items():
            yield from all_paths(x, base + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from all_paths(x, base + (str(i),))


# ------------------------------------------------------------------ RFC 6902
def patch_apply(doc, op):
    """Apply one operation dict to doc functionally; raise Fail if impossible."""
    doc = copy.deepcopy(doc)
    o = op['op']
    path = ptr_parse(op['path'])
    if o == 'add':
        return _add(doc, path, copy.deepcopy(op['value']))
    if o == 'remove':
        return _remove(doc, path)[0]
    if o == 'replace':
        if not path:
            return copy.deepcopy(op['value'])
        parent = ptr_eval(doc, path[:-1])
        ptr_step(parent, path[-1])
        if isinstance(parent, list):
            parent[int(path[-1])] = copy.deepcopy(op['value'])
        else:
            parent[path[-1]] = copy.deepcopy(op['value'])
        return doc
    if o == 'move':
        frm = ptr_parse(op['from'])
        if len(frm) < len(path) and path[:len(frm)] == frm:
            ptr_eval(doc, frm)
            raise Fail('move into own descendant')
        doc, val = _remove(doc, frm)
        return _add(doc, path, val)
    if o == 'copy':
        val = copy.deepcopy(ptr_eval(doc, ptr_parse(op['from'])))
        return _add(doc, path, val)
    if o == 'test':
        if not jeq(ptr_eval(doc, path), op['value']):
            raise Fail('test')
        return doc
    raise AssertionError(o)


def _add(doc, path, val):
    if not path:
        return val
    parent = ptr_eval(doc, path[:-1])
    t = path[-1]
    if isinstance(parent, list):
        if t == '-':
            parent.append(val)
        elif is_index(t) and len(t) < 20 and int(t) <= len(parent):
            parent.insert(int(t), val)
        else:
            raise Fail('index')
    elif isinstance(parent, dict):
        parent[t] = val
    else:
        raise Fail('not a container')
    return doc


def _remove(doc, path):
    if not path:
        return None, doc
    parent = ptr_eval(doc, path[:-1])
    val = ptr_step(parent, path[-1])
    if isinstance(parent, list):
        del parent[int(path[-1])]
    else:
        del parent[path[-1]]
    return doc, val


# --------------------------------------------------------- relative pointers
_REL = re.compile(r'(0|[1-9][0-9]*)([+-][1-9][0-9]*)?(.*)', re.S)


def rel_parse(s):
    m = _REL.fullmatch(s)
    # greedy digits: a following digit after "0" is malformed because the rest
    # must start with '/', '#', or be empty
    if not m:
        raise Malformed(s)
    up, over, rest = int(m[1]), int(m[2]) if m[2] else 0, m[3]
    if not (m[1].isascii() and (m[2] or '').isascii()):
        raise Malformed(s)
    if rest == '#':
        return up, over, '#'
    return up, over, ptr_parse(rest)


def rel_eval(doc, at, up, over, ref):
    """Result as ('key', k) or ('path', keys). `at` is the starting key path."""
    at = list(at)
    if up > len(at):
        raise Missing('up')
    if up:
        at = at[:-up]
    if over:
        if not at:
            raise Missing('over at root')
        parent = ptr_eval(doc, at[:-1])
        if not isinstance(parent, list):
            raise Missing('over in non-array')
        i = int(at[-1]) + over
        if not 0 <= i < len(parent):
            raise Missing('over out of range')
        at[-1] = str(i)
    if ref == '#':
        if not at:
            raise Missing('no key')
        parent = ptr_eval(doc, at[:-1])
        return ('key', int(at[-1]) if isinstance(parent, list) else at[-1])
    node = ptr_eval(doc, at)
    ptr_eval(node, ref)
    return ('path', at + list(ref))


# ------------------------------------------------------------------ RFC 3986
_URI = re.compile(r'(?:([^:/?#]+):)?(?://([^/?#]*))?([^?#]*)(?:\?([^#]*))?(?:#(.*))?', re.S)


def uri_split(s):
    return _URI.fullmatch(s).groups()


def uri_unsplit(parts):
    s, a, p, q, f = parts
    out = ''
    if s is not None:
        out += s + ':'
    if a is not None:
        out += '//' + a
    out += p or ''
    if q is not None:
        out += '?' + q
    if f is not None:
        out += '#' + f
    return out


def remove_dots(p):
    out = ''
    while p:
        if p.startswith('../'):
            p = p[3:]
        elif p.startswith('./'):
            p = p[2:]
        elif p.startswith('/./'):
            p = p[2:]
        elif p == '/.':
            p = '/'
        elif p.startswith('/../'):
            p = p[3:]
            out = out[:out.rfind('/')] if '/' in out else ''
        elif p == '/..':
            p = '/'
            out = out[:out.rfind('/')] if '/' in out else ''
        elif p in ('.', '..'):
            p = ''
        else:
            j = p.find('/', 1)
            j = len(p) if j < 0 else j
            out += p[:j]
            p = p[j:]
    return out


def uri_resolve(ref, base):
    rs, ra, rp, rq, rf = uri_split(ref)
    bs, ba, bp, bq, bf = uri_split(base)
    if rs is not None:
        t = (rs, ra, remove_dots(rp), rq)
    elif ra is not None:
        t = (bs, ra, remove_dots(rp), rq)
    elif rp == '':
        t = (bs, ba, bp, rq if rq is not None else bq)
    elif rp.startswith('/'):
        t = (bs, ba, remove_dots(rp), rq)
    else:
        if ba is not None and bp == '':
            m = '/' + rp
        else:
            m = bp[:bp.rfind('/') + 1] + rp
        t = (bs, ba, remove_dots(m), rq)
    return uri_unsplit(t + (rf,))
