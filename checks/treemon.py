"""Structural monitor for live JSON documents (used by several checks)."""
import json
from lib.harness import check
from lib.models import ident, jtype, ptr_str


def verify(ctx, root, model, root_path=(), parent=None, key=None):
    """Walk the live tree `root` against the plain value `model`."""
    from jschon import JSON, JSONPointer
    n = [0]

    def walk(node, mv, keys, par, k):
        n[0] += 1
        where = ptr_str(keys)
        check(isinstance(node, JSON), 'tree node is not a JSON instance', at=where, node=node)
        check(node.type == jtype(mv), 'node type differs from model', at=where, got=node.type, want=jtype(mv))
        check(node.parent is par, 'wrong parent link', at=where, model=model)
        check(node.key == k and (k is None or type(node.key) is str), 'wrong key', at=where, got=node.key, want=k)
        p = node.path
        check(list(p) == list(keys), 'stale or wrong path', at=where, got=str(p), want=where)
        check(str(p) == where, 'path string differs', got=str(p), want=where)
        check(ident(node.value, mv), 'stale or wrong value', at=where, got=node.value, want=mv)
        if isinstance(mv, list):
            check(len(node) == len(mv), 'wrong len', at=where)
            kids = list(node)
            check(len(kids) == len(mv), 'iteration differs', at=where)
            for i, c in enumerate(kids):
                check(node[i] is c and node[i - len(mv)] is c, 'indexing differs from iteration', at=where, i=i)
                walk(c, mv[i], keys + (str(i),), node, str(i))
            check(list(reversed(node)) == kids[::-1], 'reversed differs', at=where)
            check([x.value for x in node[1:3]] == mv[1:3], 'slice differs', at=where)
            try:
                node[len(mv)]
                check(False, 'index past the end accepted', at=where)
            except IndexError:
                pass
        elif isinstance(mv, dict):
            check(len(node) == len(mv), 'wrong len', at=where)
            check(list(node) == list(node.keys()) and set(node) == set(mv), 'keys differ', at=where, got=list(node), want=list(mv))
            for kk, c in node.items():
                check(node[kk] is c and node.get(kk) is c and kk in node, 'access differs from items()', at=where)
                walk(c, mv[kk], keys + (kk,), node, kk)
            check('\x01nope' not in node and node.get('\x01nope') is None, 'phantom key', at=where)
        else:
            check(ident(node.data, mv), 'scalar data differs', at=where, got=node.data, want=mv)
            if isinstance(mv, str):
                check(len(node) == len(mv), 'wrong len', at=where)
        check(bool(node) == bool(mv), 'truth value differs', at=where, value=mv)

    walk(root, model, tuple(root_path), parent, key)
    text = root.dumps()
    check(ident(json.loads(text), model), 'serialization differs from content', got=text, want=model)
    check(str(root) == text, 'str differs from dumps')
    check(root == model, 'document does not equal its content', doc=text, model=model)
    # identity of pointer evaluation, from the document root
    top = root
    while top.parent is not None:
        top = top.parent

    def ev(node):
        check(node.path.evaluate(top) is node, 'path does not evaluate to the node', at=str(node.path))
        if node.type == 'array':
            for c in node.data:
                ev(c)
        elif node.type == 'object':
            for c in node.data.values():
                ev(c)
    ev(root)
    ctx.event('tree nodes checked', n[0])
    ctx.event('trees checked')


def node_at(root, keys):
    for k in keys:
        root = root[int(k)] if root.type == 'array' else root[k]
    return root


def touch(r, root, k=3):
    """Read cached properties of a few random nodes."""
    node = root
    for _ in range(k):
        x = r.random()
        if x < .3:
            node.path
        elif x < .6:
            node.value
        elif x < .8:
            str(node.path), node.value
        if node.type == 'array' and len(node):
            node = node[r.randrange(len(node))]
        elif node.type == 'object' and len(node):
            node = node[r.choice(list(node))]
