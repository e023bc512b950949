"""Writes /verif/properties.jsonl (run by hand when the property texts change)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": observe, "hook_needed": None}})

J='jschon/json.py'; PT='jschon/jsonpointer.py'; PA='jschon/jsonpatch.py'; S='jschon/jsonschema.py'; C='jschon/catalog/__init__.py'
V='jschon/vocabulary/'

p('C01','JSON document trees stay coherent under every sequence of mutations',
 "After any sequence of successful JSON mutations (item assignment and deletion with positive or negative indices, insert, append, extend, pop, clear, update, reverse, +=, add, remove, replace, on any node at any depth) the document's value equals what the same operations produce on a plain Python list/dict/scalar. Every node reachable in the document has the correct parent, its key is its index (as a string) or property name within that parent, its path evaluates from the root to that very node, and len, iteration, indexing, containment, type, value and serialization all reflect the current content, with nothing stale from before the mutation. A value assigned from another JSON node is copied, so the two documents never influence each other afterwards. In documents of a JSON subclass, every node that construction or a mutation creates is of the item class in force for its parent and receives the item arguments.",
 ['histories','inputs'],"all documents and all finite sequences of the public mutators applied at any nodes, interleaved with any reads of path/value",
 "Unit tests and small hypothesis cases exercise one mutation from a fresh document; cached paths/values and re-keying only go wrong for particular sequences of reads and mutations.",
 [J,PT],[('re-keying and cache invalidation in __setitem__/__delitem__/insert','jschon/json.py:JSON'),('cached path/value properties','jschon/json.py:JSON.path, JSON.value')],
 ['JSON public mutators and accessors'],[('parent/key links','position of each node in its document','jschon/json.py'),('cached path and value','memoised views that mutations must invalidate','jschon/json.py')])

p('C02','In-place add/remove/replace follow RFC 6902, and rejected edits change nothing',
 "JSON.add, JSON.remove and JSON.replace at any path, relative to any node of a document, produce exactly the document that the RFC 6902 operation of the same name produces on the plain value. When the operation is not possible (missing parent or target, array index malformed or out of range, parent not a container) JSONError is raised. Any rejected mutation (these methods, or item assignment, deletion, insert or pop with a bad index, key or a value that is not JSON-compatible) leaves the document's value, keys and paths unchanged.",
 ['inputs','histories'],"all documents, target nodes, JSON pointers (including '-', leading zeros, out-of-range, escaped, non-existent) and values, within mutation histories",
 "Tests use valid targets of a few shapes; rejection behaviour and in-place/functional agreement need arbitrary pointers against arbitrary documents.",
 [J,PA],[('target resolution and index checks in add/remove/replace','jschon/json.py:JSON.add, remove, replace')],['JSON.add/remove/replace, JSON item mutators'])

p('C03','JSON equality, containment and ordering follow the JSON data model',
 "Two JSON instances (or a JSON instance and a plain JSON-compatible value) are equal exactly when they have the same JSON type and value: numbers compare mathematically across int and float, booleans never equal numbers, null equals only null, arrays compare element-wise in order, objects regardless of member order. Equality is reflexive, symmetric, transitive and consistent with !=; `in`, index and count on arrays agree with it, and <, <=, >, >= on numbers and strings agree with the underlying values whether the other operand is JSON or plain.",
 ['inputs'],"all pairs and triples of JSON values, however nested, on both sides JSON or plain",
 "Existing tests compare values with themselves or a few hand-picked pairs; near-equal nested values (true vs 1, 1 vs 1.0, reordered members, prefix arrays) are not covered.",
 [J],[('recursive type-aware comparison','jschon/json.py:JSON.__eq__')],['JSON.__eq__, __ne__, __contains__, index, count, comparison operators'])

p('C04','JSON text and files round-trip losslessly and reject non-JSON constants',
 "For any JSON value, parsing the text produced by dumps/str (or the file produced by dumpf) gives back an equal value with the same types, structure and member order, and JSON.loads/loadf/loadr parse exactly what a standard JSON parser parses; the same holds after the document has been mutated. Files are UTF-8 regardless of locale. NaN and infinities are refused in both directions with ValueError, as is malformed text.",
 ['inputs','configurations'],"all JSON-compatible values including non-ASCII, control and escape characters, big integers, floats, deep nesting, empty containers; all locales",
 "Tests round-trip small generated values in one locale and do not combine serialization with mutation.",
 [J,'jschon/utils.py'],[('json_dumps/json_loads wrappers','jschon/utils.py'),('value property','jschon/json.py:JSON.value')],['JSON.loads/loadf/dumps/dumpf/value/str/repr'])

p('C05','JSON Pointer syntax, escaping and sequence algebra are exact',
 "JSONPointer accepts exactly the RFC 6901 strings and raises JSONPointerMalformedError for all others; converting keys to a pointer string, to a URI fragment, and back (in any order) reproduces the same keys for every possible key, including empty keys, '~', '/', '%', '#', '\"', spaces and non-ASCII, and the fragment contains only characters legal in a URI fragment. Concatenation by constructor arguments and by '/', indexing, slicing and length behave as on the sequence of keys; == and hash are by key sequence; <= and < are prefix and proper-prefix. Pointers are immutable: no operation changes its operands.",
 ['inputs'],"all key sequences, all strings, all combinations of pointer operations",
 "Tests sample the algebra with separate narrow generators and never check immutability, fragment legality for all characters, or mixed pipelines.",
 [PT],[('grammar regex, escape/unescape, quote/unquote','jschon/jsonpointer.py:JSONPointer')],['JSONPointer constructor, str, uri_fragment, parse_uri_fragment, operators'])

p('C06','JSON Pointer evaluation resolves exactly per RFC 6901, on JSON and native data',
 "Evaluating a JSONPointer on a document yields the value at that location if the location exists and raises JSONPointerReferenceError otherwise, with array index tokens limited to '0' or digits without a leading zero (never '-', signs or padding) and object keys matched exactly, even when they look like indices. The outcome on a plain Python document and on the JSON built from it is the same, and on a JSON document it returns the actual node. Nothing is modified by evaluation.",
 ['inputs'],"all documents (native and JSON) and all pointers, existing or not",
 "Tests evaluate pointers generated to be valid on one document type, so index grammar, strings as containers and native/JSON agreement go unchecked.",
 [PT],[('resolve loop','jschon/jsonpointer.py:JSONPointer.evaluate')],['JSONPointer.evaluate'])

p('C07','Relative JSON Pointers parse, print and resolve per the specification',
 "RelativeJSONPointer accepts exactly the strings of the Relative JSON Pointer grammar (non-negative level count without leading zeros, optional non-zero index adjustment, then a JSON Pointer or '#') and raises RelativeJSONPointerMalformedError otherwise; str, ==, hash and keyword construction agree with the parsed form. Evaluation from any node of any document goes up the given number of levels, applies the array index adjustment, then resolves the pointer or returns the key (string for objects, integer for arrays). Every impossible step raises RelativeJSONPointerReferenceError, and the result is right also after the document was mutated.",
 ['inputs','histories'],"all documents, all starting nodes, all relative pointers including failing ones",
 "Tests use the draft's few examples and generated valid strings; combinations of up, adjust and index at every node are not enumerated.",
 [PT,J],[('up/over/ref evaluation over parent links','jschon/jsonpointer.py:RelativeJSONPointer.evaluate')],['RelativeJSONPointer constructor, str, evaluate'])

p('C08','JSON Patch evaluation implements RFC 6902 exactly',
 "JSONPatch.evaluate(document) returns exactly the document obtained by applying add, remove, replace, move, copy and test in order per RFC 6902, on any document including root scalars and whole-document targets, with '-' only meaning the end of an array for insertion. If any operation cannot be applied (missing parent, target or source, bad array index, failed test by JSON equality, move into its own descendant) JSONPatchError is raised and nothing else. Applying a patch is equal to applying its operations one at a time.",
 ['inputs','histories'],"all documents and all sequences of well-formed operations, successful or not",
 "The tests apply single generated operations with valid targets; multi-operation interplay (index shifts, moves, removed parents) and error classes are not covered.",
 [PA],[('Node resolution and operation functions','jschon/jsonpatch.py')],['JSONPatch.evaluate, JSONPatchOperation.apply'])

p('C09','JSON Patch never leaks or mutates its inputs and round-trips as data',
 "JSONPatch.evaluate never modifies the input document (even when it fails part-way), the patch, or the values in its operations, and the result shares no mutable structure with them or within itself, so later edits to any of them have no effect on the others and evaluating again gives the same result. aslist/asdict return RFC 6902 operation objects from which an equal patch with the same behaviour is rebuilt, including null and falsy values. A JSONPatch behaves as a mutable sequence of operations (index, slice, assignment, deletion, insert, iteration, equality by operations).",
 ['inputs','histories'],"all documents, patches and subsequent mutations of input, result and operation values",
 "Aliasing shows only when a value is mutated after the fact, which no test does.",
 [PA],[('deepcopy of document and values','jschon/jsonpatch.py')],['JSONPatch.evaluate/aslist/sequence API, JSONPatchOperation.asdict/=='])

p('C10','URI resolution, comparison, copying and validation follow RFC 3986',
 "URI.resolve produces, for every URI reference and every normalized hierarchical base with a scheme (paths without empty segments), the target defined by RFC 3986 section 5.2, and URIError for a base without a scheme; string conversion preserves the reference given, and scheme, authority, path, query and fragment are its RFC 3986 components. Equality is by normalized form, symmetric, and equal URIs hash equally. copy replaces, keeps or removes exactly the requested components, validate raises URIError exactly when the stated requirement (scheme present, normalized, no fragment, no non-empty fragment) is not met, and is_absolute/has_absolute_base reflect scheme and fragment presence; no operation alters its operands.",
 ['inputs'],"all URI references (relative forms, dot segments, empty components, percent-encodings, unicode-free) and bases, all component combinations",
 "Tests compare against the same rfc3986 library on a few inputs; resolution of the reference space and hash/equality consistency are unchecked.",
 ['jschon/uri.py'],[('wrapper around rfc3986 references','jschon/uri.py:URI')],['URI public methods'])

p('C11','Catalog sources: longest matching prefix is used and local files stay contained',
 "Catalog.load_json(uri) reads from the registered source whose base URI is the longest string prefix of the URI (the default source only if no other matches), passing the remainder plus suffix, irrespective of registration order; the later registration of the same base wins. URIs that are not normalized absolute URIs without fragment, unmatched URIs and any loading failure raise CatalogError, and invalid base URIs are refused. A LocalSource returns exactly the JSON content of the file under its base directory and never reads outside it; a RemoteSource fetches the remainder resolved against its base URL.",
 ['inputs','configurations','fault_sequences'],"all sets and orders of registered sources, all URIs, and all loading faults (missing file, directory, bad JSON, bad encoding, HTTP errors, exceptions of custom sources)",
 "Tests register one or two disjoint sources and check happy paths.",
 [C,'jschon/utils.py'],[('prefix selection and error wrapping','jschon/catalog/__init__.py:Catalog.load_json'),('LocalSource/RemoteSource','jschon/catalog/__init__.py')],['Catalog.add_uri_source, load_json; Source calls; files opened'])

p('C12','Schema cache lookup: identity, canonical URIs and isolation between caches',
 "Every schema or subschema created in a catalog can be retrieved with get_schema by its canonical URI, $id URI, anchor URI or pointer-fragment URI, and is the identical object that is reachable through its document; repeated lookups return the same object, and a fragment that does not identify a schema raises CatalogError. Schemas in one cache identifier or one catalog are never visible from another, the cache() context manager drops exactly its own schemas on exit (also on error) and refuses an identifier in use, and del_schema/add_schema/reassigning uri affect exactly that URI. Catalogs are retrieved by name and a new one replaces the old under the same name.",
 ['histories','configurations'],"all sequences of schema construction, lookup, deletion and cache-context entry/exit over several catalogs and cache identifiers",
 "Tests check single lookups; isolation and cleanup depend on histories over several caches with overlapping URIs.",
 [C,S],[('cache dictionary by cacheid and URI','jschon/catalog/__init__.py:Catalog'),('uri setter','jschon/jsonschema.py:JSONSchema.uri')],['Catalog.get_schema/add_schema/del_schema/cache/get_catalog'],[('schema cache','cacheid -> URI -> schema','jschon/catalog/__init__.py')])

p('C13','$id, $anchor and $ref resolve to exactly the schema the specification names',
 "For any set of schema documents with nested $id (absolute or relative, at any depth), $anchor, $defs and $ref (relative, absolute, pointer fragment, anchor fragment, recursive, across documents loaded through sources in any order, mutually recursive), each $ref evaluates the instance against exactly the schema its URI identifies after RFC 3986 resolution against the nearest enclosing base URI, in addition to sibling keywords. base_uri, canonical_uri, uri, parentschema, resource_rootschema and document_rootschema of every subschema agree with the document's structure. An unresolvable reference raises CatalogError (or JSONSchemaError when there is no base URI) at construction.",
 ['programs','configurations','inputs'],"all systems of schema documents with identifiers and references, and all instances",
 "Repository tests for references need the external test suite and cover a fixed list of schemas.",
 ['jschon/vocabulary/core.py',S,C],[('IdKeyword/AnchorKeyword registration','jschon/vocabulary/core.py'),('RefKeyword.resolve','jschon/vocabulary/core.py'),('get_schema fragment resolution','jschon/catalog/__init__.py')],['JSONSchema construction, evaluate, URI properties'])

p('C14','A failed schema or metaschema construction leaves no trace in the catalog',
 "When constructing or loading a schema or metaschema fails for any reason (unresolvable reference, missing or invalid metaschema, bad keyword value, source failure, invalid against its own metaschema), looking it up again fails again in the same way rather than returning a partially built or invalid object, and every schema that was usable before keeps being the identical object and evaluates as before. Once the cause is removed (the missing document becomes available) the same construction succeeds and evaluates correctly.",
 ['fault_sequences','histories'],"all sequences of good and failing constructions and lookups with faults injected at any source load or keyword",
 "Tests never look at the catalog again after an expected exception.",
 [C,S],[('cache registration during construction, and rollback','jschon/jsonschema.py:JSONSchema.__init__, jschon/catalog/__init__.py')],['get_schema/get_metaschema/create_metaschema/JSONSchema after exceptions'])

p('C15','Validation assertions decide every instance as the specification says',
 "For every JSON value and every keyword value, type, enum, const, multipleOf, maximum, exclusiveMaximum, minimum, exclusiveMinimum, maxLength, minLength, pattern, maxItems, minItems, uniqueItems, maxContains/minContains (with contains), maxProperties, minProperties, required and dependentRequired accept or reject the instance exactly as the JSON Schema 2019-09 and 2020-12 (and next) validation vocabulary defines. That includes 1.0 being an integer, mathematically exact numbers, length in Unicode code points, unanchored patterns, JSON equality for const/enum/uniqueItems, and keywords ignoring instances of other types.",
 ['inputs','programs'],"all instances and all keyword values, alone and combined, in all supported drafts",
 "The per-keyword tests sample each keyword separately with matching instance types and mirror the implementation as oracle.",
 [V+'validation.py'],[('keyword classes','jschon/vocabulary/validation.py')],['JSONSchema.evaluate(...).valid'])

p('C16','Applicators combine subschema results exactly per the specification',
 "allOf, anyOf, oneOf, not, if/then/else, dependentSchemas, prefixItems, items (both the 2019-09 and 2020-12 forms), additionalItems, contains (with minContains/maxContains), properties, patternProperties, additionalProperties and propertyNames apply their subschemas to exactly the instance locations the specification names and combine the outcomes as it says, at any nesting depth and in any combination, including boolean subschemas, empty arrays and objects, and patterns overlapping properties.",
 ['programs','inputs'],"all schemas built from the applicator vocabulary (any nesting) and all instances, in each supported draft",
 "The official test suite gives a few schemas per keyword; interplay through shared evaluation results needs arbitrary combinations.",
 [V+'applicator.py',V+'legacy.py',S],[('keyword evaluate methods and shared Result nodes','jschon/vocabulary/applicator.py, legacy.py'),('JSONSchema.evaluate','jschon/jsonschema.py')],['JSONSchema.evaluate(...).valid'])

p('C17','unevaluatedItems/unevaluatedProperties see exactly what was evaluated',
 "unevaluatedProperties and unevaluatedItems apply to exactly those properties and items not evaluated successfully by adjacent keywords or by in-place applicators (allOf, anyOf, oneOf, if/then/else, dependentSchemas, $ref, $dynamicRef, $recursiveRef) that passed, at any nesting depth and however keywords are ordered in the schema. Subschemas that failed, were not applied, are under not, or belong to cousin or parent locations contribute nothing; in 2020-12 and next, items matched by contains count as evaluated.",
 ['programs','inputs'],"all schemas combining unevaluated* with in-place applicators and references, in each draft, and all instances",
 "Correctness depends on annotation flow through failing and passing branches in combination; tests have a fixed list.",
 [V+'applicator.py',V+'legacy.py',S],[('collect_annotations','jschon/jsonschema.py:Result.collect_annotations'),('unevaluated keywords','jschon/vocabulary/applicator.py, legacy.py')],['JSONSchema.evaluate(...).valid'])

p('C18','$dynamicRef and $recursiveRef follow the dynamic scope',
 "$dynamicRef resolves to its initial target unless that target carries the matching $dynamicAnchor, in which case it evaluates the outermost schema resource in the dynamic scope that defines the same $dynamicAnchor; $recursiveRef does the analogous thing with $recursiveAnchor: true. This holds through any chain of $ref, dynamic references, embedded resources, separate documents and recursion into instance children, and one schema reused from different entry points resolves differently per entry point, every time it is evaluated.",
 ['programs','inputs','histories'],"all systems of extensible recursive schemas, entry points and instances, and all orders of evaluations",
 "Only a handful of dynamic-scope shapes exist in the official suite; each evaluation must recompute the scope.",
 ['jschon/vocabulary/core.py',V+'legacy.py'],[('DynamicRefKeyword.evaluate walk','jschon/vocabulary/core.py'),('RecursiveRefKeyword','jschon/vocabulary/legacy.py')],['JSONSchema.evaluate(...).valid'])

p('C19','Annotations are collected exactly from the subschemas that apply and pass',
 "For a valid instance, the annotations in the basic output and from Result.collect_annotations are exactly those the specification prescribes: one per annotation keyword (title, description, default, deprecated, readOnly, writeOnly, examples, format, content*, unknown keywords) in every applied subschema whose whole chain of enclosing subschemas passed, with the keyword's value, instance location, evaluation path and absolute schema location; and the applicators' own annotations name the properties and items they evaluated. Nothing is collected from failed, untaken or negated branches, and filtering by keyword or instance returns exactly the matching subset.",
 ['programs','inputs'],"all schemas with annotation keywords below any applicators and references, and all valid instances (JSON null annotation values excepted)",
 "Tests look at two fixed outputs; leaks occur only in particular combinations of failing branches.",
 [S,V+'annotation.py',V+'applicator.py','jschon/output.py'],[('annotate/collect_annotations/discard','jschon/jsonschema.py:Result')],["Result.output('basic'), Result.collect_annotations"])

p('C20','Evaluation outcome is independent of presentation of schema and instance',
 "The validity verdict, and the set of annotations of a valid instance, do not depend on the order of keywords in any schema object, on the order of members in instance objects, on whether subschemas are written inline or behind a $ref to $defs, on the schema being loaded from a source or constructed directly, on which other schemas are in the catalog, or on integers being written as equal floats. Logical equivalences hold: allOf[S] and S, anyOf[S] and S, oneOf[S] and S, not not S and S agree on validity, and allOf is invariant under permutation.",
 ['programs','inputs','configurations'],"all schemas and instances and all such rewrites of them",
 "Tests evaluate each schema in one written form only.",
 [S,V+'applicator.py'],[('dependency ordering of keywords','jschon/jsonschema.py:JSONSchema._resolve_dependencies')],['JSONSchema.evaluate over rewritten schemas'])

p('C21','Evaluation is pure, repeatable and safe to run concurrently',
 "Evaluating a schema modifies neither the schema, the instance nor any other evaluation's result: any number of evaluations of the same or different instances, in any order, interleaved, nested or in concurrent threads sharing schemas and catalog, give each time the same verdict, annotations and output as a single fresh evaluation. Earlier Result objects keep reporting what they reported, and producing output in any format, any number of times and in any order, changes nothing.",
 ['schedules','histories'],"all interleavings of evaluations and output calls over shared schemas and instances, sequential or in threads",
 "Tests evaluate once per schema in a single thread.",
 [S,'jschon/vocabulary/core.py','jschon/output.py'],[('per-evaluation Result tree','jschon/jsonschema.py:Result')],['JSONSchema.evaluate, Result.output in histories and threads'])

p('C22','Output formats agree with the result and with each other',
 "For any schema and instance, flag, basic, detailed, verbose and hierarchical output are JSON-serializable and all carry the result's validity; each unit's keywordLocation is a real dynamic path through the schema, its instanceLocation evaluates to an existing instance value (or property name for propertyNames), and its absoluteKeywordLocation, looked up, is the schema node reached by that path. basic lists exactly the non-empty errors (or annotations) of nodes that failed (or passed) along with all their ancestors, verbose contains every evaluated node with its own validity, detailed contains the same leaf units as basic, and hierarchical has units for schemas only, each with its own validity, location and its keywords' annotations or errors, including every schema that shares the verdict along with all its ancestors. The annotations filter of basic returns exactly the units for the named keywords.",
 ['programs','inputs'],"all schemas (with references and embedded resources) and instances",
 "Tests compare with three fixed examples from the specification.",
 ['jschon/output.py',S],[('formatter visitors','jschon/output.py'),('Result.path/absolute_uri','jschon/jsonschema.py:Result')],['Result.output(format)'])

p('C23','Errors explain exactly the failures, and Result navigation is consistent',
 "An invalid result carries at least one error, and a valid one collects no errors; each error reported by collect_errors or basic output belongs to a keyword that really fails for that instance location, and every assertion keyword failing along failing subschemas is reported. In the Result tree each child's path extends its parent's by its key, schema_node and absolute_uri designate the keyword it reports on, instance is the evaluated node, and the filters of collect_errors by instance and key return exactly the matching subset.",
 ['programs','inputs'],"all schemas and instances, valid or not",
 "Tests look only at the top-level validity.",
 [S,V+'applicator.py',V+'validation.py'],[('fail/pass_/collect_errors','jschon/jsonschema.py:Result')],['Result.children/collect_errors/error/path/schema_node/absolute_uri'])

p('C24','Keyword behaviour is decided by the metaschema\'s vocabularies',
 "A schema object uses exactly the keywords of the vocabularies its metaschema (from $schema, inherited from the parent schema, or metaschema_uri) declares: keywords of undeclared vocabularies and unknown keywords of any name are annotations only and never affect validity, custom Keyword classes in custom vocabularies take effect exactly where declared, and different drafts coexist in one catalog, also in one document, without influencing each other. Unknown optional vocabularies are ignored, unknown required ones are refused with JSONSchemaError, as is a (non-empty) schema object with no determinable metaschema. Keywords listed in depends_on are evaluated before the keyword that depends on them.",
 ['configurations','programs'],"all metaschemas composed of any subset of vocabularies with custom keywords, and all schemas using them",
 "Tests cover one custom keyword and one custom metaschema.",
 [V+'__init__.py','jschon/vocabulary/core.py',S,C],[('Metaschema.get_kwclass','jschon/vocabulary/__init__.py'),('VocabularyKeyword','jschon/vocabulary/core.py'),('dependency resolution','jschon/jsonschema.py')],['create_vocabulary/create_metaschema, JSONSchema.evaluate'])

p('C25','format asserts only when enabled, and always annotates',
 "A format keyword rejects an instance exactly when that format was enabled in the schema's catalog before the schema was created, a validator is registered for it, the instance is of a type the validator covers, and the validator raises ValueError; otherwise it never affects validity. In every passing case its value is an annotation. The built-in json-pointer format accepts exactly the RFC 6901 strings, and enabling formats in one catalog never affects another.",
 ['configurations','histories','inputs'],"all histories of registering validators, enabling formats and creating schemas in several catalogs; all instances",
 "Tests check one format in one catalog.",
 [V+'format.py','jschon/formats.py',C],[('FormatKeyword','jschon/vocabulary/format.py'),('enable_formats','jschon/catalog/__init__.py')],['Catalog.enable_formats/is_format_enabled, JSONSchema.evaluate'])

p('C26','schema.validate() agrees with the metaschema specification',
 "JSONSchema.validate() reports a schema valid exactly when the schema document is valid against its declared metaschema per the specification (including all vocabulary metaschemas reached through dynamic or recursive references, and custom metaschemas extending them), and its result locates failures in the schema document. create_metaschema succeeds exactly for metaschemas that are valid against their own metaschema.",
 ['programs'],"all schema documents constructible by the library, well-formed or with one or more misused keywords at any depth, per draft and custom metaschema",
 "Tests validate a few fixed schemas; the metaschemas are the largest dynamic-scope programs the library runs.",
 [S,V+'__init__.py','jschon/catalog/'],[('Metaschema.evaluate over the schema as an instance','jschon/jsonschema.py:JSONSchema.validate')],['JSONSchema.validate().valid'])

p('C27','A schema object faithfully represents its source document',
 "A JSONSchema built from any schema document has a value, JSON text and equality identical to that document (keywords in nested subschemas, $id, $ref and unknown keywords included, booleans preserved), and its nodes can be navigated and addressed by JSON Pointer like any JSON document, each node's path, parent and key being correct. The source document passed in is never modified nor aliased, and documents equal as JSON give schemas that behave identically, whether built from plain data, JSON text or a file.",
 ['programs','inputs'],"all schema documents in all drafts",
 "Tests check a few schemas and do not walk the schema tree.",
 [S,V+'__init__.py'],[('keyword construction filling data','jschon/jsonschema.py:JSONSchema.__init__')],['JSONSchema.value/dumps/==/path/parent/key'])

p('C28','Schema construction fails only as documented; evaluation never raises',
 "Constructing a JSONSchema from any document that is valid against its metaschema (any embedded schema against its own, and with well-formed regular expressions) either succeeds or raises a JschonError subclass: CatalogError, JSONSchemaError or URIError. Evaluating a constructed, metaschema-valid schema against any JSON instance - including huge, tiny and extreme numbers, empty and unusual strings and keys, and nesting as deep as the interpreter's recursion limit allows - terminates with a boolean verdict and producible output and never raises, unless the schema's references recurse infinitely for that instance.",
 ['programs','inputs'],"all metaschema-valid schemas (keyword names and values of any shape the metaschema allows) and all JSON instances",
 "Tests use well-behaved keywords and instances; crashes need unusual but legal values.",
 [S,C,V],[('keyword constructors and evaluate methods','jschon/vocabulary/'),('exception classes','jschon/exc.py')],['JSONSchema construction, evaluate, output; exceptions leaving the API'])

p('C29','Custom keywords, the Result API and mixins have their documented effect',
 "A custom Keyword's evaluate is called exactly once for each evaluation of its schema against an instance of one of its instance_types (never if static), after the keywords it depends on; annotate, fail, pass_ and noassert set the annotation, error, validity and assertion of its result as documented, so that the schema fails exactly when some keyword for the same instance neither passes nor is marked noassert, and a discarded result leaves no trace. Sub-results opened by a keyword appear in the Result tree under their key and instance path and use a given Result class throughout their subtree; sibling returns the kept result of that keyword for that instance or None, and globals is one dictionary per evaluation, fresh for each. Values of a mixin's shape become schemas at their location with references resolved, other values stay JSON, and a registered output formatter receives the result and keyword arguments.",
 ['programs','inputs'],"all custom keyword implementations over the documented API, in any schema (with applicators and references) and on all instances",
 "Tests define one or two extension keywords with one fixed behaviour each.",
 [S,V+'__init__.py','jschon/output.py'],[('Result API','jschon/jsonschema.py:Result'),('keyword dispatch','jschon/jsonschema.py:JSONSchema.evaluate'),('mixins','jschon/vocabulary/__init__.py:SubschemaMixin')],['create_vocabulary with Keyword subclasses, Result methods, output_formatter'])

p('C30','create_catalog provides exactly the dialects asked for; catalogs are independent',
 "create_catalog supports exactly the named drafts, in any combination, order and repetition: schemas of a requested draft evaluate and validate alike in every catalog that has it, the vocabularies of a draft not requested are unavailable and schemas (with keywords) declaring it are refused with a JschonError, and an unknown version raises ValueError. Sources, vocabularies, metaschemas, enabled formats and schemas put into one catalog are never seen by another, even under the same URIs or after its name has been taken over by a newer catalog. A schema belongs, with all its subschemas, to the catalog it was given as an object or by name (the latest created under that name, 'catalog' by default), goes on behaving as it did when other catalogs appear, and names never used raise CatalogError.",
 ['configurations','histories'],"all histories of creating catalogs under any names, with any versions, and of registering and using things in them",
 "Tests use one catalog per run, with fixed versions.",
 ['jschon/__init__.py',C,'jschon/catalog/_2019_09.py','jschon/catalog/_2020_12.py','jschon/catalog/_next.py'],[('create_catalog','jschon/__init__.py'),('catalog registry','jschon/catalog/__init__.py:Catalog')],['create_catalog, Catalog.get_catalog, JSONSchema(catalog=...)'])

p('C31','Any JSON node is an instance, and only its current value matters',
 "Evaluating a schema on any JSON node gives the verdict, annotations, errors and outputs that a document constructed afresh from the node's current value gives, every instance location being prefixed by the path of the node. This holds for roots and descendants, for nodes of JSON subclasses, of patch results and of schemas, and after any sequence of mutations of the document, including documents evaluated earlier against the same schema; nodes removed from their document keep verdict, annotations and errors too. Mutating an instance does not change the verdict, annotations and errors that earlier results report.",
 ['histories','inputs'],"all documents, nodes, sequences of public mutators and schemas, with evaluations interleaved in any way",
 "Tests evaluate fresh whole documents; stale state on nodes, or dependence on the position of the node, shows only when mutation and evaluation are interleaved.",
 [J,S,V+'validation.py',V+'applicator.py'],[('result nodes keyed by instance path','jschon/jsonschema.py:Result.__call__'),('cached path and value','jschon/json.py:JSON')],['JSONSchema.evaluate on JSON nodes, JSON mutators, Result.output, Result.collect_annotations, Result.collect_errors'])

p('C32','Threads with caches and documents of their own do not influence each other',
 "Any number of threads may work at the same time with one catalog, each with a cache context, schemas, instances and documents of its own - constructing and loading schemas (also under the same URIs), failing to construct them, looking them up, evaluating and validating them, mutating, patching and saving documents, opening and leaving caches - while sharing immutable objects (pointers, relative pointers, patches, URIs, metaschemas created beforehand). Under every interleaving each operation returns or raises what it does when its thread runs alone, the shared objects and documents stay as they were, and each cache is empty once its context has been left.",
 ['schedules','histories'],"all interleavings of threads that construct in caches of their own; constructions sharing a cache, and the creation of metaschemas or catalogs by several threads at once, are not claimed",
 "Tests are single-threaded; state kept on shared objects or a cache touched as a whole shows only when threads interleave at particular lines.",
 [C,S,'jschon/jsonpointer.py','jschon/jsonpatch.py','jschon/uri.py'],[('schema cache','jschon/catalog/__init__.py:Catalog'),('schema construction','jschon/jsonschema.py:JSONSchema.__init__'),('shared pointers and patches','jschon/jsonpointer.py, jschon/jsonpatch.py')],['threads over Catalog.cache, JSONSchema, Catalog.get_schema, JSON, JSONPointer, JSONPatch'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
for x in P:
    n = x['statement'].count('. ') + 1
    if n > 3: print(x['id'], 'sentences', n)
