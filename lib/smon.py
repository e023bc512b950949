"""Shared driving code for the schema checks: build a schema with jschon and
with the reference evaluator, evaluate both, compare."""
import copy, json
from lib.harness import Violation, check, short
from lib.models import ident, uri_split, uri_unsplit, frag_decode
from lib.refeval import *

DRAFTS = (D19, D20, DN)


def catalog(ctx, name='catalog'):
    key = 'cat-' + name
    if key not in ctx.store:
        from jschon import create_catalog
        ctx.store[key] = create_catalog('2019-09', '2020-12', 'next', name=name)
    return ctx.store[key]


def luri(u):
    """Location URI compared modulo percent-encoding of the fragment."""
    if u is None:
        return None
    b, h, f = str(u).partition('#')
    return b, frag_decode(f) if h else None


def norm_loc(u):
    b, f = luri(u)
    return b, f or ''


class Pair:
    """One schema document in both worlds."""

    def __init__(self, ctx, doc, draft, uri='https://x.test/s', how='arg', cacheid='default', cat=None, docs=None, via=None):
        from jschon import JSONSchema, URI
        self.doc, self.draft = doc, draft
        ctx.store['last'] = doc
        self.cat = cat or catalog(ctx)
        d = copy.deepcopy(doc)
        kw = dict(catalog=self.cat, cacheid=cacheid)
        if not (isinstance(doc, dict) and '$schema' in doc):
            kw['metaschema_uri'] = URI(META[draft])
        if uri is not None:
            kw['uri'] = URI(uri)
        if via == 'text':
            self.js = JSONSchema.loads(json.dumps(d), **kw)
        else:
            self.js = JSONSchema(d, **kw)
        if uri is None and isinstance(doc, dict):
            uri = str(self.js.uri) if '$id' not in doc else None
        self.reg = Registry(loader=(lambda u: copy.deepcopy(docs[u]) if u in docs else None) if docs else None)
        self.reg.default_meta = META[draft]
        self.node = self.reg.add(doc, uri, META[draft])
        self.ev = Evaluator(self.reg)

    def run(self, ctx, inst, via=None):
        """-> (jschon Result, model S)"""
        from jschon import JSON
        ctx.store['last'] = (self.doc, inst)
        m = self.ev.evaluate(self.node, inst)
        j = JSON.loads(json.dumps(inst)) if via == 'text' else JSON(inst)
        return self.js.evaluate(j), m

    def verdict(self, ctx, inst, via=None):
        r, m = self.run(ctx, inst, via)
        check(r.valid is m.valid, f'verdict {r.valid}, specification says {m.valid}', draft=self.draft, schema=json.dumps(self.doc), instance=json.dumps(inst),
              errors=short(json.dumps(r.output('basic'))) if not r.valid else '')
        return r, m


def sig_kw(s, acc=None, path=()):
    """Structural signature of an evaluation: which keywords, outcomes."""
    acc = set() if acc is None else acc
    for k in s.kws:
        acc.add((path[-2:] + (k.key,), k.valid))
        for r in k.subs:
            sig_kw(r, acc, path + (k.key,))
    return tuple(sorted(acc))
