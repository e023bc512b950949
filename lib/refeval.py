"""Independent reference evaluator for JSON Schema 2019-09, 2020-12 and next,
written from the specification, producing validity, annotations, failing nodes
and locations. Used as the oracle for the schema checks."""
import re
from fractions import Fraction
from lib.models import jtype, jeq, num, uri_resolve, uri_split, uri_unsplit, frag_encode, frag_decode, ptr_str, ptr_parse, is_index, Fail

D19, D20, DN = '2019-09', '2020-12', 'next'
META = {d: f'https://json-schema.org/draft/{d}/schema' for d in (D19, D20, DN)}
VOC = {d: f'https://json-schema.org/draft/{d}/vocab/' for d in (D19, D20, DN)}

_ONE = ['not', 'if', 'then', 'else', 'contains', 'additionalProperties', 'propertyNames', 'unevaluatedItems', 'unevaluatedProperties']
_APPL19 = ['allOf', 'anyOf', 'oneOf', 'not', 'if', 'then', 'else', 'dependentSchemas', 'items', 'additionalItems', 'unevaluatedItems', 'contains',
           'properties', 'patternProperties', 'additionalProperties', 'unevaluatedProperties', 'propertyNames']
_APPL20 = ['allOf', 'anyOf', 'oneOf', 'not', 'if', 'then', 'else', 'dependentSchemas', 'prefixItems', 'items', 'contains', 'properties',
           'patternProperties', 'additionalProperties', 'propertyNames']
_VALID = ['type', 'enum', 'const', 'multipleOf', 'maximum', 'exclusiveMaximum', 'minimum', 'exclusiveMinimum', 'maxLength', 'minLength', 'pattern',
          'maxItems', 'minItems', 'uniqueItems', 'maxContains', 'minContains', 'maxProperties', 'minProperties', 'required', 'dependentRequired']
_METAD = ['title', 'description', 'default', 'deprecated', 'readOnly', 'writeOnly', 'examples']
_CONTENT = ['contentMediaType', 'contentEncoding', 'contentSchema']
_CORE19 = ['$schema', '$vocabulary', '$id', '$ref', '$anchor', '$recursiveRef', '$recursiveAnchor', '$defs', '$comment']
_CORE20 = ['$schema', '$vocabulary', '$id', '$ref', '$anchor', '$dynamicRef', '$dynamicAnchor', '$defs', '$comment']

VOCABS = {
    D19: {'core': _CORE19, 'applicator': _APPL19, 'validation': _VALID, 'format': ['format'], 'meta-data': _METAD, 'content': _CONTENT},
    D20: {'core': _CORE20, 'applicator': _APPL20, 'unevaluated': ['unevaluatedItems', 'unevaluatedProperties'], 'validation': _VALID,
          'format-annotation': ['format'], 'meta-data': _METAD, 'content': _CONTENT},
}
VOCABS[DN] = {k: list(v) for k, v in VOCABS[D20].items()}
ALL_VOCAB_KW = {VOC[d] + v: set(k) for d in VOCABS for v, k in VOCABS[d].items()}
ALL_VOCAB_KW[VOC[D20] + 'format-assertion'] = None     # not known to jschon by default

ARRAYS = {'allOf', 'anyOf', 'oneOf', 'prefixItems'}
OBJECTS = {'$defs', 'properties', 'patternProperties', 'dependentSchemas'}
SINGLES = set(_ONE) | {'items', 'additionalItems'}
ASSERTIONS = set(_VALID)
STATIC = {'$schema', '$vocabulary', '$id', '$anchor', '$dynamicAnchor', '$recursiveAnchor', '$defs', '$comment'}
META_ANN = set(_METAD) | set(_CONTENT) | {'format'}


class Dialect:
    """sem: {keyword: fn(ev, k, val, ctx)} for custom keywords; subs: how those hold
    subschemas ('single', 'array', 'object')."""

    def __init__(self, draft, keywords, uri=None, sem=None, subs=None):
        self.draft, self.kw, self.uri = draft, frozenset(keywords), uri
        self.sem, self.subs = sem or {}, subs or {}


def std_dialect(d):
    return Dialect(d, set().union(*VOCABS[d].values()), META[d])


STD = {META[d]: std_dialect(d) for d in META}


class Infinite(Exception):
    """the schema recurses infinitely for this instance"""


class Ambiguous(Exception):
    """the outcome is not determined by the specification"""


class Unresolvable(Exception):
    pass


class Node:
    """A schema location."""
    __slots__ = ('value', 'keys', 'parent', 'dialect', 'base', 'uri', 'doc', 'root', 'kids', 'curi')

    def __init__(self, value, keys, parent, dialect):
        self.value, self.keys, self.parent, self.dialect = value, keys, parent, dialect
        self.kids = {}

    def __repr__(self):
        return f'<{self.curi}>'


class Registry:
    def __init__(self, dialects=None, loader=None):
        self.dialects = dict(STD)
        if dialects:
            self.dialects.update(dialects)
        self.res = {}           # absolute URI -> Node
        self.anchors = {}       # (uri, name) -> Node
        self.dyn = {}           # (uri, name) -> Node
        self.loader = loader    # uri -> plain document (or None)
        self.nodes = []

    # ---------------------------------------------------------- documents
    def add(self, doc, uri, metaschema_uri=None):
        n = self._add(doc, (), None, uri, self.dialects.get(metaschema_uri), metaschema_uri)
        return n

    def _add(self, value, keys, parent, uri, dialect, murimeta=None):
        if isinstance(value, dict) and isinstance(value.get('$schema'), str):
            dialect = self.dialects[value['$schema'].rstrip('#')]
        if dialect is None and isinstance(value, dict):
            raise Unresolvable('no metaschema')
        n = Node(value, keys, parent, dialect)
        self.nodes.append(n)
        n.doc = parent.doc if parent else n
        n.uri = None
        base = parent.base if parent else uri
        if isinstance(value, dict) and isinstance(value.get('$id'), str):
            u = uri_resolve(value['$id'], base) if base is not None else value['$id']
            sc, a, p, q, f = uri_split(u)
            n.uri = uri_unsplit((sc, a, p, q, None))
        elif parent is None:
            n.uri = uri
        if n.uri is not None:
            n.base, n.root = n.uri, n
            self.res[n.uri] = n
            if parent is None and uri is not None and uri != n.uri:
                self.res.setdefault(uri, n)
            n.curi = n.uri
        else:
            n.base = base
            n.root = parent.root if parent else n
            up, ks = parent, keys
            n.curi = None
            if n.root.uri is not None:
                n.curi = n.root.uri + '#' + frag_encode(ptr_str(keys[len(n.root.keys):]))
        if not isinstance(value, dict):
            return n
        K = dialect.kw
        for a, store in (('$anchor', self.anchors), ('$dynamicAnchor', self.dyn)):
            if a in K and isinstance(value.get(a), str):
                self.anchors[n.base, value[a]] = n
                if store is self.dyn:
                    self.dyn[n.base, value[a]] = n
        for k, v in value.items():
            if k not in K:
                continue
            if k in dialect.sem:
                how = dialect.subs.get(k)
                if how == 'single' and isinstance(v, (dict, bool)):
                    n.kids[k,] = self._add(v, keys + (k,), n, None, dialect)
                elif how == 'array' and isinstance(v, list) or how == 'object' and isinstance(v, dict):
                    for i, x in enumerate(v) if how == 'array' else v.items():
                        n.kids[k, str(i)] = self._add(x, keys + (k, str(i)), n, None, dialect)
                continue
            if (k in SINGLES) and isinstance(v, (dict, bool)):
                n.kids[k,] = self._add(v, keys + (k,), n, None, dialect)
            elif k in ARRAYS or (k == 'items' and dialect.draft == D19 and isinstance(v, list)):
                for i, x in enumerate(v):
                    n.kids[k, str(i)] = self._add(x, keys + (k, str(i)), n, None, dialect)
            elif k in OBJECTS:
                for m, x in v.items():
                    n.kids[k, m] = self._add(x, keys + (k, m), n, None, dialect)
        return n

    def find(self, uri):
        sc, a, p, q, f = uri_split(uri)
        base = uri_unsplit((sc, a, p, q, None))
        if base not in self.res:
            if self.loader is not None:
                doc = self.loader(base)
                if doc is None:
                    raise Unresolvable(uri)
                self.add(doc, base, self.default_meta)
            if base not in self.res:
                raise Unresolvable(uri)
        n = self.res[base]
        if not f:
            return n
        if f.startswith('/'):
            keys = tuple(k.replace('~1', '/').replace('~0', '~') for k in frag_decode(f).split('/')[1:])
            return walk(n, keys, uri)
        if (base, f) in self.anchors:
            return self.anchors[base, f]
        raise Unresolvable(uri)

    default_meta = None


def rec_anchor(n):
    return isinstance(n.value, dict) and n.value.get('$recursiveAnchor') is True and '$recursiveAnchor' in n.dialect.kw


def walk(n, keys, uri=''):
    keys = tuple(keys)
    while keys:
        for k in (keys[:1], keys[:2]):
            if k in n.kids:
                n, keys = n.kids[k], keys[len(k):]
                break
        else:
            raise Unresolvable(uri)
    return n


# ------------------------------------------------------------------ results

class S:
    """evaluation of one schema against one instance location"""
    __slots__ = ('node', 'path', 'ip', 'valid', 'kws', 'props', 'items', 'inst', 'fam')

    def __init__(self, node, path, ip, inst):
        self.node, self.path, self.ip, self.inst = node, path, ip, inst
        self.valid = True
        self.kws = []
        self.props = set()      # evaluated property names (if valid)
        self.items = set()
        self.fam = set()        # which drafts' item keywords (True: 2019-09) were evaluated here in place


class K:
    __slots__ = ('key', 'path', 'ip', 'valid', 'ann', 'has_ann', 'subs', 'asserts', 'node', 'target', 'soft', 'maybe')

    def __init__(self, key, s):
        self.key, self.path, self.ip, self.node = key, s.path + (key,), s.ip, s.node
        self.valid, self.ann, self.has_ann, self.subs, self.asserts = True, None, False, [], True
        self.target = None
        self.soft = False       # failure status not determined (a sibling failed already)
        self.maybe = []         # then: subschema evaluations that may be reported

    def annotate(self, v):
        self.ann, self.has_ann = v, True


def dec(v):
    return Fraction(repr(v)) if isinstance(v, float) else Fraction(v)


INT_INF = (float('inf'), float('-inf'))


class Evaluator:
    def __init__(self, registry, formats=None, custom=None, max_depth=180, max_steps=60000):
        self.reg = registry
        self.formats = formats or {}
        self.custom = custom or {}
        self.max_depth, self.max_steps = max_depth, max_steps
        self.steps = 0

    def evaluate(self, node, inst):
        self.steps = 0
        return self.ev(node, inst, (), (), (), 0)

    def ev(self, node, inst, path, ip, scope, depth):
        self.steps += 1
        if depth > self.max_depth or self.steps > self.max_steps:
            raise Infinite()
        s = S(node, path, ip, inst)
        v = node.value
        if v is True:
            return s
        if v is False:
            s.valid = False
            return s
        t = jtype(inst)
        scope = scope + (node,)
        d = node.dialect
        kn = d.kw
        res = {}
        ctx = (s, node, inst, t, ip, scope, depth)
        late = []
        for k in v:
            if k in STATIC and k in kn:
                continue
            if k in ('unevaluatedItems', 'unevaluatedProperties') and k in kn:
                late.append(k)
                continue
            res[k] = self.kw(k, v[k], ctx)
        # minContains may relax contains
        if 'contains' in res and res['contains'] and 'contains' in kn and t == 'array':
            kc = res['contains']
            n = len(kc.ann)
            mn = v.get('minContains', 1) if 'minContains' in kn else 1
            kc.valid = n > 0 or (mn == 0)
        if res.get('additionalItems') and res.get('items') and not res['items'].valid and d.draft == D19 and 'additionalItems' in kn:
            res['additionalItems'].soft = True
        order = [k for k in v if k in res and res[k] is not None]
        s.kws = [res[k] for k in order]
        s.valid = all(k.valid or not k.asserts for k in s.kws)
        if t == 'object':
            ev = set()
            for k in s.kws:
                self.props_of(k, ev, inst)
            if 'unevaluatedProperties' in late:
                kk = K('unevaluatedProperties', s)
                kk.soft = not s.valid
                names = [n for n in inst if n not in ev]
                sub = node.kids['unevaluatedProperties',]
                ok = []
                for n in names:
                    r = self.ev(sub, inst[n], kk.path, ip + (n,), scope, depth + 1)
                    kk.subs.append(r)
                    ok.append(n)
                    if not r.valid:
                        kk.valid = False
                if kk.soft:
                    kk.maybe = [self.ev(sub, inst[n], kk.path, ip + (n,), scope, depth + 1) for n in inst if n in ev]
                if kk.valid:
                    kk.annotate(ok)
                    ev |= set(ok)
                s.kws.append(kk)
            s.props = ev
        elif t == 'array':
            ev = set()
            for k in s.kws:
                self.items_of(k, ev, inst, d)
                if k.key in kn and k.valid:
                    if k.key in self.INPLACE:
                        s.fam |= set().union(*[r.fam for r in k.subs if r.valid])
                    elif k.key in ('items', 'prefixItems', 'additionalItems', 'contains'):
                        s.fam.add(d.draft == D19)
            if 'unevaluatedItems' in late and (d.draft != D19) in s.fam:
                raise Ambiguous('unevaluatedItems over another draft')
            if 'unevaluatedItems' in late:
                s.fam.add(d.draft == D19)
            if 'unevaluatedItems' in late:
                kk = K('unevaluatedItems', s)
                kk.soft = not s.valid
                idx = [i for i in range(len(inst)) if i not in ev]
                sub = node.kids['unevaluatedItems',]
                for i in idx:
                    r = self.ev(sub, inst[i], kk.path, ip + (str(i),), scope, depth + 1)
                    kk.subs.append(r)
                    if not r.valid:
                        kk.valid = False
                if kk.soft:
                    kk.maybe = [self.ev(sub, inst[i], kk.path, ip + (str(i),), scope, depth + 1) for i in sorted(ev)]
                if kk.valid:
                    if idx:
                        kk.annotate(True)
                    ev |= set(idx)
                s.kws.append(kk)
            s.items = ev
        s.valid = all(k.valid or not k.asserts for k in s.kws)
        return s

    INPLACE = {'allOf', 'anyOf', 'oneOf', 'if', 'then', 'else', 'dependentSchemas', '$ref', '$dynamicRef', '$recursiveRef'}

    def props_of(self, k, ev, inst):
        if k.key in self.INPLACE and k.key in k.node.dialect.kw:
            for r in k.subs:
                if r.valid:
                    ev |= r.props
        elif k.valid and k.key in ('properties', 'patternProperties', 'additionalProperties') and k.has_ann and k.key in k.node.dialect.kw:
            ev |= set(k.ann)

    def items_of(self, k, ev, inst, d):
        if k.key not in d.kw:
            return
        if k.key in self.INPLACE:
            for r in k.subs:
                if r.valid:
                    ev |= r.items
        elif k.valid and k.has_ann and k.key in ('items', 'prefixItems', 'additionalItems'):
            if k.ann is True:
                ev |= set(range(len(inst)))
            else:
                ev |= set(range(k.ann + 1))
        elif k.key == 'contains' and d.draft != D19 and k.valid and k.has_ann:
            ev |= set(k.ann)

    # ------------------------------------------------------------ keywords
    def kw(self, key, val, ctx):
        s, node, inst, t, ip, scope, depth = ctx
        kn = node.dialect.kw
        k = K(key, s)
        v = node.value
        fn = node.dialect.sem.get(key) or self.custom.get(key)
        if fn and key in kn:
            r = fn(self, k, val, ctx)
            return k if r is not False else None
        if key not in kn:
            k.annotate(val)
            k.asserts = False
            return k

        def sub(kk, i, p, ipp):
            r = self.ev(node.kids[kk], i, p, ipp, scope, depth + 1)
            k.subs.append(r)
            return r.valid

        def by_ref(target):
            k.target = target
            r = self.ev(target, inst, k.path, ip, scope, depth + 1)
            k.subs.append(r)
            k.valid = r.valid
            return k

        if key == '$ref':
            return by_ref(self.reg.find(self.absolute(val, node)))
        if key == '$dynamicRef':
            u = self.absolute(val, node)
            target = self.reg.find(u)
            f = uri_split(u)[4]
            if isinstance(target.value, dict) and f and target.value.get('$dynamicAnchor') == f and '$dynamicAnchor' in target.dialect.kw:
                for n in scope:
                    x = self.reg.dyn.get((n.base, f))
                    if x is not None:
                        target = x
                        break
            return by_ref(target)
        if key == '$recursiveRef':
            target = self.reg.find(node.base)
            if rec_anchor(target):
                a = next((n for n in scope if rec_anchor(n)), target)
                b = next((n.root for n in scope if rec_anchor(n.root)), target)
                if a is not b:
                    raise Ambiguous('recursiveAnchor')
                target = a
            return by_ref(target)

        if key in ('allOf', 'anyOf', 'oneOf'):
            n = 0
            for i in range(len(val)):
                n += sub((key, str(i)), inst, k.path + (str(i),), ip)
            k.valid = n == len(val) if key == 'allOf' else n >= 1 if key == 'anyOf' else n == 1
            return k
        if key == 'not':
            k.valid = not sub((key,), inst, k.path, ip)
            return k
        if key == 'if':
            k.valid = sub((key,), inst, k.path, ip)
            k.asserts = False
            return k
        if key in ('then', 'else'):
            if 'if' not in v or 'if' not in kn:
                return None
            c = self.ev(node.kids['if',], inst, s.path + ('if',), ip, scope, depth + 1)
            if c.valid != (key == 'then'):
                return None
            k.valid = sub((key,), inst, k.path, ip)
            return k

        if key == 'type':
            types = [val] if isinstance(val, str) else val
            k.valid = t in types or (t == 'number' and 'integer' in types and (isinstance(inst, int) or (inst not in INT_INF and inst == inst and inst == int(inst))))
            return k
        if key == 'enum':
            k.valid = any(jeq(inst, x) for x in val)
            return k
        if key == 'const':
            k.valid = jeq(inst, val)
            return k
        if key == 'format':
            k.annotate(val)
            f = self.formats.get(val)
            if f and t in f[1]:
                k.valid = bool(f[0](inst))
            else:
                k.asserts = False
            return k
        if key in _METAD:
            k.annotate(val)
            k.asserts = False
            return k
        if key in _CONTENT:
            if t != 'string' or (key == 'contentSchema' and not ('contentMediaType' in v and 'contentMediaType' in kn)):
                return None
            k.annotate(val)
            k.asserts = False
            return k

        if t == 'number':
            if key == 'multipleOf':
                if inst in INT_INF or val in INT_INF:
                    raise Ambiguous('infinite')
                k.valid = dec(inst) % dec(val) == 0
                return k
            if key in ('maximum', 'exclusiveMaximum', 'minimum', 'exclusiveMinimum'):
                k.valid = {'maximum': inst <= val, 'exclusiveMaximum': inst < val, 'minimum': inst >= val, 'exclusiveMinimum': inst > val}[key]
                return k
        elif t == 'string':
            if key in ('maxLength', 'minLength'):
                k.valid = len(inst) <= val if key == 'maxLength' else len(inst) >= val
                return k
            if key == 'pattern':
                k.valid = re.search(val, inst) is not None
                return k
        elif t == 'array':
            return self.array_kw(key, val, k, ctx, sub)
        elif t == 'object':
            return self.object_kw(key, val, k, ctx, sub)
        return None

    def array_kw(self, key, val, k, ctx, sub):
        s, node, inst, t, ip, scope, depth = ctx
        v, kn, draft = node.value, node.dialect.kw, node.dialect.draft
        n = len(inst)
        if key == 'maxItems':
            k.valid = n <= val
        elif key == 'minItems':
            k.valid = n >= val
        elif key == 'uniqueItems':
            k.valid = not val or all(not jeq(inst[i], inst[j]) for i in range(n) for j in range(i))
        elif key in ('maxContains', 'minContains'):
            if 'contains' not in v or 'contains' not in kn:
                return k
            c = sum(self.ev(node.kids['contains',], x, s.path + ('contains',), ip + (str(i),), scope, depth + 1).valid for i, x in enumerate(inst))
            k.valid = c <= val if key == 'maxContains' else c >= val
        elif key == 'contains':
            hits = [i for i, x in enumerate(inst) if sub((key,), x, k.path, ip + (str(i),))]
            k.annotate(hits)
            k.valid = bool(hits)
        elif key == 'prefixItems' or (key == 'items' and isinstance(val, list)):
            m = min(n, len(val))
            ok = [sub((key, str(i)), inst[i], k.path + (str(i),), ip + (str(i),)) for i in range(m)]
            k.valid = all(ok)
            if k.valid and m:
                k.annotate(True if key == 'prefixItems' and m == n else m - 1)
        elif key == 'items':
            start = 0
            if draft != D19 and 'prefixItems' in v and 'prefixItems' in kn:
                start = len(v['prefixItems'])
            ok = [sub((key,), inst[i], k.path, ip + (str(i),)) for i in range(start, n)]
            k.valid = all(ok)
            if k.valid and ok:
                k.annotate(True)
        elif key == 'additionalItems':
            if not ('items' in v and 'items' in kn and isinstance(v['items'], list)):
                return None
            ok = [sub((key,), inst[i], k.path, ip + (str(i),)) for i in range(len(v['items']), n)]
            k.valid = all(ok)
            if k.valid and ok:
                k.annotate(True)
        else:
            return None
        return k

    def object_kw(self, key, val, k, ctx, sub):
        s, node, inst, t, ip, scope, depth = ctx
        v, kn = node.value, node.dialect.kw
        n = len(inst)
        if key == 'maxProperties':
            k.valid = n <= val
        elif key == 'minProperties':
            k.valid = n >= val
        elif key == 'required':
            k.valid = all(x in inst for x in val)
        elif key == 'dependentRequired':
            k.valid = all(y in inst for x in val if x in inst for y in val[x])
        elif key == 'dependentSchemas':
            hit = [x for x in val if x in inst]
            ok = [sub((key, x), inst, k.path + (x,), ip) for x in hit]
            k.valid = all(ok)
            if k.valid:
                k.annotate(hit)
        elif key == 'properties':
            hit = [x for x in inst if x in val]
            ok = [sub((key, x), inst[x], k.path + (x,), ip + (x,)) for x in hit]
            k.valid = all(ok)
            if k.valid:
                k.annotate(hit)
        elif key == 'patternProperties':
            hit, ok = set(), True
            for x in inst:
                for p in val:
                    if re.search(p, x):
                        hit.add(x)
                        ok &= sub((key, p), inst[x], k.path + (p,), ip + (x,))
            k.valid = ok
            if ok:
                k.annotate(sorted(hit))
        elif key == 'additionalProperties':
            known = set(v['properties']) if 'properties' in v and 'properties' in kn else set()
            pats = list(v['patternProperties']) if 'patternProperties' in v and 'patternProperties' in kn else []
            hit = [x for x in inst if x not in known and not any(re.search(p, x) for p in pats)]
            ok = [sub((key,), inst[x], k.path, ip + (x,)) for x in hit]
            k.valid = all(ok)
            if k.valid:
                k.annotate(hit)
        elif key == 'propertyNames':
            k.valid = all([sub((key,), x, k.path, ip + (x,)) for x in inst])
        else:
            return None
        return k

    @staticmethod
    def absolute(ref, node):
        if uri_split(ref)[0] is not None:
            return ref
        if node.base is None:
            raise Unresolvable(ref)
        return uri_resolve(ref, node.base)


# ------------------------------------------------------------------ reports

def abs_location(s_node, rel=()):
    """canonical location of a keyword (or index below it) of a schema node"""
    c = s_node.curi
    if c is None:
        return None
    base, _, f = c.partition('#')
    keys = tuple(s_node.keys[len(s_node.root.keys):]) + tuple(rel)
    return base + '#' + frag_encode(ptr_str(keys))


def annotations(s, out=None):
    """[(keyword, eval path, instance path, absolute location, value)]"""
    if out is None:
        out = []
    if s.valid:
        for k in s.kws:
            if k.has_ann and k.valid:
                out.append((k.key, k.path, k.ip, abs_location(s.node, (k.key,)), k.ann))
            if k.key != 'not' or 'not' not in k.node.dialect.kw:
                for r in k.subs:
                    annotations(r, out)
    return out


def walk_results(s, fn):
    """fn(kind, s, k) for every schema and keyword evaluation."""
    fn('schema', s, None)
    for k in s.kws:
        fn('kw', s, k)
        for r in k.subs + k.maybe:
            walk_results(r, fn)


def failing(s):
    """set of (path, ip) of every schema or keyword evaluation that failed"""
    out = set()

    def fn(kind, s, k):
        if kind == 'schema':
            if not s.valid:
                out.add((s.path, s.ip))
        elif not k.valid or k.soft:
            out.add((k.path, k.ip))
    walk_results(s, fn)
    return out


def must_errors(s, out=None):
    """[(keyword, path, ip, absloc)] of assertion keywords failing along failing
    subschemas only."""
    if out is None:
        out = []
    if s.valid:
        return out
    for k in s.kws:
        if k.valid or not k.asserts or k.soft:
            continue
        if k.key in ASSERTIONS and k.key in k.node.dialect.kw or k.key == 'not' and k.key in k.node.dialect.kw:
            out.append((k.key, k.path, k.ip, abs_location(s.node, (k.key,))))
        if k.key != 'not':
            for r in k.subs:
                must_errors(r, out)
    return out
