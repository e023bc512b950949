"""Seeded generators of schemas, schema documents and schema-directed instances."""
import re
from lib import gen
from lib.refeval import D19, D20, DN, META

NAMES = ['a', 'b', 'c', 'aa', 'ab', '', '0', 'a/b', 'm~n', 'é', '%25', '$ref']
PATTERNS = ['^a', 'b$', 'a', '.', '', '^[bc]$', '^$', '[0-9]', '~|/', 'aa+', '^.$', '(?i)A', 'é']
REGEX = ['^a', 'b$', 'a', '.', '', '^[a-c]+$', '^$', '[0-9]{2}', 'é', '^.{2}$', '\\d', 'fo+', '(a|b)c', '^\\S*$', 'o$']
TYPES = ['null', 'boolean', 'integer', 'number', 'string', 'array', 'object']
WORDS = ['a', 'b', 'c', 'ab', 'foo', '', 'é', '12', 'ac', '\U0001F600', 'abc']
NUMS = [0, 1, 2, 3, 5, -1, 10, 0.5, 1.0, 2.0, 2.5, 1.5, 0.1, 0.3, 3.0, 100, 1e2, 2**53 + 1, -0.0]


def name(r):
    return r.choice(NAMES[:5]) if r.random() < .85 else r.choice(NAMES)


def scal(r):
    x = r.random()
    if x < .1:
        return None
    if x < .22:
        return r.random() < .5
    if x < .6:
        return r.choice(NUMS)
    return r.choice(WORDS)


def inst(r, depth=2, width=4):
    x = r.random()
    if depth <= 0 or x < .3:
        return scal(r)
    n = r.choice([0, 1, 2, 2, 3, width])
    if x < .65:
        return {name(r): inst(r, depth - 1, width) for _ in range(n)}
    return [inst(r, depth - 1, width) for _ in range(n)]


class Gen:
    """Options: draft, and what reference targets exist (filled by callers)."""

    def __init__(self, r, draft, refs=(), annotations=.15, unevaluated=.25, unknown=.06, bools=.15, assertions=True, formats=()):
        self.r, self.draft, self.refs = r, draft, list(refs)
        self.p_ann, self.p_un, self.p_unk, self.p_bool = annotations, unevaluated, unknown, bools
        self.formats = formats
        self.tag = 0
        self.dyns, self.rec, self.targets = [], False, {}

    # ------------------------------------------------------------ schemas
    def schema(self, depth=3, want=None):
        """want: 'object', 'array', 'scalar' or None — the kind of instance
        the keywords mostly talk about."""
        r = self.r
        if r.random() < (self.p_bool if depth < 3 else .03) or depth <= 0 and r.random() < .3:
            return r.random() < .6
        if want is None or r.random() < .15:
            want = r.choice(['object', 'object', 'array', 'array', 'scalar'])
        s = {}
        if depth <= 0:
            self.assertions(s, want, r.choice([1, 1, 2]))
        else:
            x = r.random()
            if x < .75:
                {'object': self.objkw, 'array': self.arrkw, 'scalar': lambda s, d: self.assertions(s, 'scalar', 2)}[want](s, depth)
            if r.random() < (.55 if x < .75 else 1):
                self.inplace(s, depth, want)
            if r.random() < .3:
                self.assertions(s, want, 1)
            if self.refs and r.random() < .3:
                self.ref(s)
        if r.random() < self.p_ann:
            self.annotation(s)
        if r.random() < self.p_unk:
            s[r.choice(['x-foo', 'unknown', 'Foo', 'foo/bar', 'définitions', '', '$x', 'a~b', 'p%q r'])] = r.choice([1, True, 'x', {'type': 'string'}, [False], 0, False, {'a': False}])
        items = list(s.items())
        r.shuffle(items)
        return dict(items)

    def ref(self, s):
        r = self.r
        if self.dyns and r.random() < .45:
            s['$dynamicRef'] = r.choice(self.dyns)
            if r.random() < .8:
                return
        if self.rec and r.random() < .5:
            s['$recursiveRef'] = '#'
            if r.random() < .8:
                return
        s['$ref'] = r.choice(self.refs)

    def annotation(self, s):
        r = self.r
        self.tag += 1
        k = r.choice(['title', 'description', 'default', 'deprecated', 'readOnly', 'writeOnly', 'examples', 'format', 'contentMediaType',
                      'contentEncoding', 'contentSchema', '$comment', 'title', 'title'])
        s[k] = {'title': f't{self.tag}', 'description': f'd{self.tag}', 'default': r.choice([0, False, '', [], {}, 'x', {'a': [1]}, 1.0]),
                'deprecated': r.random() < .5, 'readOnly': r.random() < .5, 'writeOnly': r.random() < .5,
                'examples': r.choice([[], [1, 'a'], [None], [{'a': 1}]]), 'format': r.choice(['email', 'xyz', 'date-time', 'json-pointer', 'uri']),
                'contentMediaType': 'application/json', 'contentEncoding': 'base64', 'contentSchema': r.choice([True, {'type': 'object'}]),
                '$comment': f'c{self.tag}'}[k]
        if k == 'contentSchema' and r.random() < .6:
            s['contentMediaType'] = 'application/json'

    def sub(self, depth, want=None):
        return self.schema(depth - 1, want)

    def objkw(self, s, depth):
        r = self.r
        ks = r.sample(['properties', 'patternProperties', 'additionalProperties', 'propertyNames', 'required', 'dependentSchemas', 'assert'], r.choice([1, 1, 2, 2, 3]))
        for k in ks:
            if k == 'properties':
                s[k] = {name(r): self.sub(depth) for _ in range(r.choice([0, 1, 1, 2, 3]))}
            elif k == 'patternProperties':
                s[k] = {r.choice(PATTERNS): self.sub(depth) for _ in range(r.choice([0, 1, 1, 2]))}
            elif k == 'additionalProperties':
                s[k] = self.sub(depth)
            elif k == 'propertyNames':
                s[k] = r.choice([True, False, {'pattern': r.choice(REGEX)}, {'maxLength': r.choice([1, 2])}, {'enum': ['a', 'b', 'c', 'aa']}, {'const': 'a'},
                                 {'minLength': 1}, {'not': {'const': 'b'}}, {'title': 'pn'}]) if r.random() < .85 else self.sub(depth, 'scalar')
            elif k == 'required':
                s[k] = sorted({name(r) for _ in range(r.choice([0, 1, 1, 2]))})
            elif k == 'dependentSchemas':
                s[k] = {name(r): self.sub(depth, 'object') for _ in range(r.choice([1, 1, 2]))}
            else:
                self.assertions(s, 'object', 1)
        if r.random() < self.p_un:
            s['unevaluatedProperties'] = r.choice([False, False, False, True]) if r.random() < .7 else self.sub(depth)

    def arrkw(self, s, depth):
        r = self.r
        n19 = self.draft == D19
        pool = ['items', 'contains', 'assert', 'contains', 'additionalItems' if n19 else 'prefixItems', 'items']
        for k in set(r.sample(pool, r.choice([1, 2, 2, 3]))):
            if k == 'items':
                if n19 and r.random() < .6:
                    s[k] = [self.sub(depth) for _ in range(r.choice([1, 1, 2, 3]))]
                else:
                    s[k] = self.sub(depth)
            elif k == 'prefixItems':
                s[k] = [self.sub(depth) for _ in range(r.choice([1, 1, 2, 3]))]
            if k in ('items', 'prefixItems') and isinstance(s[k], list) and r.random() < .06:
                self.many(s[k], depth)
            elif k == 'additionalItems':
                s[k] = self.sub(depth)
            elif k == 'contains':
                s[k] = self.sub(depth, 'scalar' if r.random() < .6 else None)
                if r.random() < .45:
                    s['minContains'] = r.choice([0, 0, 1, 2, 3, 1.0])
                if r.random() < .35:
                    s['maxContains'] = r.choice([0, 1, 1, 2, 3])
            else:
                self.assertions(s, 'array', 1)
        if r.random() < .03:
            s[r.choice(['minContains', 'maxContains'])] = r.choice([0, 1, 2])
        if r.random() < self.p_un:
            s['unevaluatedItems'] = r.choice([False, False, False, True]) if r.random() < .7 else self.sub(depth)

    def inplace(self, s, depth, want):
        r = self.r
        for k in r.sample(['allOf', 'anyOf', 'oneOf', 'not', 'if'], r.choice([1, 1, 1, 2])):
            if k in ('allOf', 'anyOf', 'oneOf'):
                s[k] = [self.sub(depth, want) for _ in range(r.choice([1, 2, 2, 3]))]
                if r.random() < .08:
                    self.many(s[k], depth, want)
            elif k == 'not':
                s[k] = self.sub(depth, want)
            else:
                y = r.random()
                if y < .93:
                    s['if'] = self.sub(depth, want)
                if y < .75 or y > .93:
                    s['then'] = self.sub(depth, want)
                if .2 < y < .9 or y > .95:
                    s['else'] = self.sub(depth, want)

    def many(self, subs, depth, want=None):
        """lengthen an array of subschemas with small ones"""
        r = self.r
        for _ in range(r.choice([3, 4, 6, 9])):
            subs.insert(r.randint(0, len(subs)), self.sub(min(depth, r.choice([1, 1, 2])), want))

    def assertions(self, s, want, n):
        r = self.r
        for _ in range(n):
            x = r.random()
            if x < .3:
                self.common(s)
            elif want == 'object':
                k = r.choice(['maxProperties', 'minProperties', 'required', 'dependentRequired'])
                s[k] = {'maxProperties': r.choice([0, 1, 2, 3, 2.0]), 'minProperties': r.choice([0, 1, 2]),
                        'required': sorted({name(r) for _ in range(r.choice([0, 1, 2]))}),
                        'dependentRequired': {name(r): sorted({name(r) for _ in range(r.choice([0, 1, 2]))}) for _ in range(r.choice([0, 1, 2]))}}[k]
            elif want == 'array':
                k = r.choice(['maxItems', 'minItems', 'uniqueItems', 'uniqueItems'])
                s[k] = {'maxItems': r.choice([0, 1, 2, 3, 3.0]), 'minItems': r.choice([0, 1, 2]), 'uniqueItems': r.random() < .8}[k]
            else:
                k = r.choice(['multipleOf', 'maximum', 'exclusiveMaximum', 'minimum', 'exclusiveMinimum', 'maxLength', 'minLength', 'pattern'])
                s[k] = {'multipleOf': r.choice([1, 2, 0.5, 0.1, 3, 1.5, 10]), 'maximum': r.choice(NUMS), 'exclusiveMaximum': r.choice(NUMS),
                        'minimum': r.choice(NUMS), 'exclusiveMinimum': r.choice(NUMS), 'maxLength': r.choice([0, 1, 2, 3, 1.0]),
                        'minLength': r.choice([0, 1, 2]), 'pattern': r.choice(REGEX)}[k]

    def common(self, s):
        r = self.r
        x = r.random()
        if x < .55:
            s['type'] = r.choice(TYPES) if r.random() < .7 else sorted(set(r.sample(TYPES, r.choice([1, 2, 3]))))
        elif x < .8:
            s['enum'] = [inst(r, 1, 2) for _ in range(r.choice([1, 2, 4]))]
        else:
            s['const'] = inst(r, 1, 2)

    def deref(self, ref):
        return self.targets.get(ref)

    # ---------------------------------------------------------- documents
    def document(self, depth=3, ndefs=None, dynamic=.3):
        """A schema with $defs and references between them: pointer, anchor,
        recursive and dynamic."""
        r = self.r
        names = ['d1', 'd2', 'd3', 'a/b'][:ndefs if ndefs is not None else r.choice([1, 2, 3, 3, 4])]
        self.refs = ['#/$defs/' + n.replace('/', '~1') for n in names]
        anchored, dyn = [], []
        for n in names:
            if r.random() < .3:
                anchored.append(n)
            if self.draft != D19 and r.random() < dynamic:
                dyn.append(n)
        self.refs += ['#A' + n[:1] + n[-1] for n in anchored]
        self.dyns = ['#D' + n[:1] + n[-1] for n in dyn]
        rec = self.draft == D19 and r.random() < dynamic
        if r.random() < .3:
            self.refs.append('#')
        self.rec = rec or (self.draft == D19 and r.random() < .1)
        defs = {}
        for n in names:
            d = self.schema(max(1, depth - 1))
            if isinstance(d, dict):
                if n in anchored:
                    d['$anchor'] = 'A' + n[:1] + n[-1]
                if n in dyn:
                    d['$dynamicAnchor'] = 'D' + n[:1] + n[-1]
            elif n in anchored or n in dyn:
                d = {**({'$anchor': 'A' + n[:1] + n[-1]} if n in anchored else {}), **({'$dynamicAnchor': 'D' + n[:1] + n[-1]} if n in dyn else {}),
                     **({} if d else {'not': True})}
            defs[n] = d
        root = self.schema(depth)
        if isinstance(root, bool) or r.random() < .3:
            root = {'$ref': r.choice(self.refs), **(root if isinstance(root, dict) else {})}
        root['$defs'] = defs
        if rec:
            root['$recursiveAnchor'] = True
        items = list(root.items())
        r.shuffle(items)
        root = dict(items)
        self.targets = {'#': root}
        for n in names:
            self.targets['#/$defs/' + n.replace('/', '~1')] = self.targets['#A' + n[:1] + n[-1]] = self.targets['#D' + n[:1] + n[-1]] = defs[n]
        return root

    # ---------------------------------------------------------- instances
    def directed(self, s, depth=4):
        """An instance the schema talks about, often valid."""
        r = self.r
        if depth <= 0 or not isinstance(s, dict) or r.random() < .1:
            return inst(r, 2)
        for k in ('$ref', '$dynamicRef', '$recursiveRef'):
            if k in s and r.random() < .7:
                t = self.deref(s[k])
                if t is not None:
                    return self.merge(s, self.directed(t, depth - 1), depth)
        if 'const' in s and r.random() < .8:
            return s['const']
        if s.get('enum') and r.random() < .8:
            return r.choice(s['enum'])
        for k in ('allOf', 'anyOf', 'oneOf'):
            if isinstance(s.get(k), list) and s[k] and r.random() < .35:
                return self.merge(s, self.directed(r.choice(s[k]), depth - 1), depth)
        for k in ('then', 'else', 'if', 'not'):
            if k in s and r.random() < .25:
                return self.merge(s, self.directed(s[k], depth - 1), depth)
        t = s.get('type')
        if isinstance(t, list):
            t = r.choice(t) if t else None
        keys = set(s)
        obj = keys & {'properties', 'patternProperties', 'additionalProperties', 'propertyNames', 'required', 'dependentSchemas', 'maxProperties',
                      'minProperties', 'dependentRequired', 'unevaluatedProperties'}
        arr = keys & {'items', 'prefixItems', 'contains', 'maxItems', 'minItems', 'uniqueItems', 'unevaluatedItems', 'additionalItems'}
        if t == 'object' or (t is None and obj and (not arr or r.random() < .5)):
            return self.obj(s, depth)
        if t == 'array' or (t is None and arr):
            return self.arr(s, depth)
        if t == 'string' or keys & {'pattern', 'maxLength', 'minLength'}:
            return r.choice(WORDS)
        if t in ('number', 'integer') or keys & {'multipleOf', 'maximum', 'minimum', 'exclusiveMaximum', 'exclusiveMinimum'}:
            return r.choice(NUMS)
        if t == 'null':
            return None
        if t == 'boolean':
            return r.random() < .5
        return inst(r, 2)

    def merge(self, s, v, depth):
        """add what s itself wants to v"""
        if isinstance(v, dict) and self.r.random() < .7:
            o = self.obj(s, depth)
            o.update(v)
            return o
        return v

    def obj(self, s, depth):
        r, o = self.r, {}
        P = s.get('properties') if isinstance(s.get('properties'), dict) else {}
        for k in P:
            if r.random() < .6:
                o[k] = self.directed(P[k], depth - 1)
        for k in s.get('required', []) if isinstance(s.get('required'), list) else []:
            if k not in o and r.random() < .9:
                o[k] = self.directed(P.get(k), depth - 1)
        for p, x in (s.get('patternProperties') or {}).items():
            if r.random() < .6:
                for n in r.sample(NAMES, len(NAMES)):
                    if re.search(p, n):
                        o.setdefault(n, self.directed(x, depth - 1))
                        break
        for k in s.get('dependentSchemas') or {}:
            if r.random() < .5:
                o.setdefault(k, inst(r, 1))
                d = self.directed(s['dependentSchemas'][k], depth - 1)
                if isinstance(d, dict):
                    for a, b in d.items():
                        o.setdefault(a, b)
        for k in ('additionalProperties', 'unevaluatedProperties'):
            if k in s and r.random() < .5:
                o.setdefault(name(r), self.directed(s[k], depth - 1))
        if r.random() < .35:
            o.setdefault(name(r), inst(r, 1))
        items = list(o.items())
        r.shuffle(items)
        return dict(items)

    def arr(self, s, depth):
        r, a = self.r, []
        pre = s.get('prefixItems') if isinstance(s.get('prefixItems'), list) else s.get('items') if isinstance(s.get('items'), list) else []
        for x in pre[:r.choice([len(pre), len(pre), max(0, len(pre) - 1)])]:
            a.append(self.directed(x, depth - 1))
        for k in ('items', 'additionalItems', 'contains', 'unevaluatedItems'):
            if k in s and not isinstance(s[k], list):
                for _ in range(r.choice([0, 1, 1, 2])):
                    x = self.directed(s[k], depth - 1)
                    a.insert(r.randint(min(len(a), len(pre)), len(a)), x)
        if r.random() < .3:
            a.append(inst(r, 1))
        if a and r.random() < .15:
            a.append(r.choice(a))
        return a

    def instance(self, s, depth=4):
        x = self.r.random()
        if x < .12:
            return inst(self.r, 3)
        v = self.directed(s, depth)
        if x < .3:
            v = gen.tweak(self.r, v)
        elif x < .36:
            v = monotype(self.r, v)
        return v


def monotype(r, v):
    """Make every item of a random array in v (or v itself) a scalar of one type."""
    if isinstance(v, list):
        if not v or r.random() < .6:
            pool = r.choice([[True, False], [True], [False], [None], [0, 1, 2], [1.5, 2.5, 1.0], ['a', 'b', ''], [[]], [{}]])
            return [r.choice(pool) for _ in range(len(v) or r.randint(1, 3))]
        i = r.randrange(len(v))
        return v[:i] + [monotype(r, v[i])] + v[i + 1:]
    if isinstance(v, dict) and v:
        k = r.choice(list(v))
        return {**v, k: monotype(r, v[k])}
    return v


REFKEYS = ('$ref', '$dynamicRef', '$recursiveRef', '$anchor', '$dynamicAnchor', '$recursiveAnchor', '$id')


def contains_refs(v):
    if isinstance(v, dict):
        return any(k in REFKEYS for k in v) or any(contains_refs(x) for x in v.values())
    if isinstance(v, list):
        return any(contains_refs(x) for x in v)
    return False


def add_ids(r, doc, draft, relative=True, p=.4):
    """Turn some reference-free subschemas into embedded resources."""
    from lib.refeval import Registry
    reg = Registry()
    reg.add(doc, 'https://x.test/dir/s', META[draft])
    pointed = set()

    def scan(v):
        if isinstance(v, dict):
            if isinstance(v.get('$ref'), str) and v['$ref'].startswith('#/'):
                pointed.add(v['$ref'][1:])
            for x in v.values():
                scan(x)
        elif isinstance(v, list):
            for x in v:
                scan(x)
    scan(doc)
    n = 0
    for nd in reg.nodes:
        if nd.parent is None or not isinstance(nd.value, dict) or r.random() > p or contains_refs(nd.value):
            continue
        anc, bad = nd, False
        while anc.parent is not None:
            if '$id' in anc.value:
                bad = r.random() < .5
            anc = anc.parent
        if bad:
            continue
        n += 1
        u = r.choice([f'https://y.test/n{n}', f'https://x.test/dir/n{n}', f'urn:n:{n}'] + ([f'n{n}', f'/abs/n{n}', f'../up/n{n}'] if relative else []))
        anc, rooted = nd.parent, False
        while anc is not None:
            if isinstance(anc.value, dict) and str(anc.value.get('$id', '')).startswith('urn:'):
                rooted = True
            anc = anc.parent
        if rooted:
            u = f'https://y.test/n{n}'
        if r.random() < .1 and draft != DN:
            u += '#'
        items = [('$id', u)] + list(nd.value.items())
        if r.random() < .5:
            r.shuffle(items)
        nd.value.clear()
        nd.value.update(items)
    return n
