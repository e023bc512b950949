"""Regenerates MANIFEST.json from the checks present (dev helper)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 'C01': 'JSON trees driven by seeded mutation programs against a plain-Python model; a structural monitor (parent/key/path/identity/len/iteration/serialisation of every node) runs after every operation.',
 'C02': 'add/remove/replace and every rejected edit judged by a sequential RFC 6902 model; a rejected edit must leave value, keys, paths and node identities unchanged.',
 'C03': 'pairs and triples of adversarial values judged by an independent JSON-equality model; symmetry, transitivity, containment, ordering laws.',
 'C04': 'round trips through text and files (also under an ASCII locale) judged by the standard json module plus a type-strict comparison.',
 'C05': 'pointer algebra judged by an independent RFC 6901 codec; operands re-observed after every operation.',
 'C06': 'pointer evaluation on JSON and native data judged by an RFC 6901 model, including which node is returned.',
 'C07': 'relative pointers parsed/evaluated against a grammar and model of the draft, on documents before and after mutation.',
 'C08': 'random patches, valid and faulty, judged by an RFC 6902 interpreter over plain values.',
 'C09': 'inputs fingerprinted before/after evaluation, results mutated and re-evaluated, alias scan, patch-as-sequence programs against a list model.',
 'C10': 'URI operations judged by an independent RFC 3986 implementation on normalised hierarchical bases.',
 'C11': 'catalog source programs against a longest-prefix model; LocalSource runs in a scratch tree with decoys outside the base while an audit hook records every file open; RemoteSource against a recording HTTP server on the loopback interface.',
 'C12': 'random cache/catalog operation programs against a (catalog, cache, URI) -> object map; identity of every lookup observed.',
 'C13': 'generated sets of documents with nested ids, anchors and references loaded in any order; verdicts, locations and structure judged by the reference evaluator.',
 'C14': 'failing constructions injected among good ones; every observable look-up compared before and after, and construction retried once the cause is removed.',
 'C15': 'assertion keywords against an independent evaluator (cross-validated offline against two other implementations).',
 'C16': 'applicators in random combination and depth against the reference evaluator.',
 'C17': 'unevaluated* in random combination with in-place applicators against the reference evaluator.',
 'C18': 'dynamic-scope documents (chains of references over several resources, recursion) against the reference evaluator; same schema from different entry points in any order.',
 'C19': 'the whole annotation multiset of every valid result compared with the reference evaluator, and the filters with the unfiltered set.',
 'C20': 'metamorphic monitor: presentation-changing transformations of schema and instance (keyword and member order, inline or referenced, loaded or direct) must not change verdict or annotations.',
 'C21': 'evaluations repeated, interleaved, nested and threaded (a seeded scheduler switching at traced lines, and free-running with a tiny switch interval); every earlier result re-observed.',
 'C22': 'output units checked one by one against the public Result tree, the schema document, the instance and the catalog.',
 'C23': 'errors judged by the reference evaluator for soundness and completeness; Result navigation invariants on every node.',
 'C24': 'metaschemas with random vocabulary subsets and custom keywords; verdict/annotations judged by the reference evaluator restricted to those keywords; depends_on order observed by hooks in custom keywords.',
 'C25': 'catalogs with random enabled formats and recording validators; verdict, annotations and validator calls judged by the specification table.',
 'C26': 'schema documents, valid and corrupted, validated by jschon and by the reference evaluator over the same metaschema documents; also embedded resources under another metaschema.',
 'C27': 'structural monitor over schema trees against the source document; source mutated after construction.',
 'C28': 'hostile documents and instances; only documented exceptions at construction and none in evaluation/output; termination by a step counter.',
 'C29': 'keywords whose values are little programs over the Result API; an interpreter of the same programs says which calls, nodes, validities, annotations, errors, sibling and globals observations there must be.',
 'C30': 'histories over several catalogs that re-use names and URIs, against a model of what each catalog was given, with a table of probes per draft.',
 'C31': 'histories that interleave document mutations with evaluations of random schemas on random nodes, each compared with the evaluation of a fresh document of the same value.',
 'C32': 'per-thread programs run alone and then together (a seeded scheduler switching at traced lines, and free-running with a tiny switch interval); every outcome compared, caches and shared objects inspected afterwards.',
}
NA = 'No check registered yet (work in progress); the family applies.'
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        c = f'/opt/venv/bin/python checks/run.py {i} --tier '
        checks.append(dict(property=i, quick_cmd=c + 'quick', thorough_cmd=c + 'thorough', evidence_file=f'evidence/{i}.json',
                           technique='runtime monitoring: reference-model oracle and invariant monitors over seeded hostile workloads', level='exploration',
                           level_note=NOTE[i] + ' Held on the executions observed only (counts in the evidence file); trusts the reference model in lib/.'))
    else:
        na.append(dict(property=i, reason=NA))
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python -c "import rfc3986, requests, json; print(\'nothing to build\')"',
               hooks=dict(guard='none (no hooks are needed in /repo: the monitors observe the public API, custom keyword classes, sources and audit events)', enable='checks copy /repo/jschon into a scratch directory, add the metaschema files the empty git submodules lack, and import that copy', source_commits=[]),
               checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'na')
