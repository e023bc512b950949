"""Observing jschon Result trees through their public attributes."""
from lib.models import canon


def nodes(res, out=None, chain=True):
    """[(result, whole-chain-same-validity-as-root)]"""
    if out is None:
        out = []
    out.append((res, chain))
    for c in res.children.values():
        nodes(c, out, chain and c.valid is res.valid)
    return out


def key(res):
    return (str(res.path), str(res.instance.path))


def multiset(it):
    from collections import Counter
    return Counter(it)


def vcanon(v):
    """canonical form that keeps numeric type distinctions out"""
    return canon(plain(v))


def plain(v):
    if type(v).__name__ == 'JSON' or hasattr(v, 'value') and hasattr(v, 'itemclass'):
        v = v.value
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    return v


# ------------------------------------------------- Result tree vs the model

from lib.models import ptr_str, ptr_eval, canon, frag_decode
from lib.refeval import walk, uri_split, uri_unsplit


class Want:
    """Everything the reference evaluation says about one evaluation:
    kw/sub: (keywordLocation, instanceLocation) -> (valid or None, node, rel keys, target, K or S)"""

    def __init__(self, m):
        self.at = {}
        self.must = set()
        self._rec(m, True)

    def _rec(self, s, must):
        for k in s.kws:
            key = ptr_str(k.path), ptr_str(k.ip)
            self.at[key] = (None if k.soft else k.valid, s.node, (k.key,), k.target, k)
            if must and not k.soft and (k.subs or k.key not in ('unevaluatedItems', 'additionalItems')):
                self.must.add(key)
            known = k.key in k.node.dialect.kw
            below = must and not k.soft and not (known and k.key in ('not', 'contains'))
            for r in k.subs + k.maybe:
                if len(r.path) > len(k.path):
                    key = ptr_str(r.path), ptr_str(r.ip)
                    self.at[key] = (r.valid, s.node, (k.key,) + r.path[len(k.path):], None, r)
                    if below and r in k.subs:
                        self.must.add(key)
                self._rec(r, below)

    def static(self, key, root):
        """(document node, keys) of the schema location reported on"""
        if key == ('', ''):
            return root.doc, root.keys
        valid, node, rel, target, k = self.at[key]
        if target is not None:
            return target.doc, target.keys
        return node.doc, node.keys + rel


def locate(reg, uri):
    """absolute location -> (document node, keys) via the registry"""
    base, _, frag = str(uri).partition('#')
    n = reg.res[base]
    toks = [t.replace('~1', '/').replace('~0', '~') for t in frag_decode(frag).split('/')[1:]]
    return n.doc, n.keys + tuple(toks)


def value_at(doc, keys):
    return ptr_eval(doc.value, list(keys))
