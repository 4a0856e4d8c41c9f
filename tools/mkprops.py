# Writes /verif/properties.jsonl.  Edit here, then run:  python3 tools/mkprops.py
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = 'pyopenapi/migration/'
CONV = M + 'versions/v2_0/scanner/upgrade/converters.py'
P = []

def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe: a['observe_at'] = observe
    if state: a['state'] = state
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})

p('C01', 'JSON Pointer composition and splitting are lossless inverses',
  'Composing any list of names onto a base pointer and splitting the result gives back the tokens of the base followed by exactly those names, whatever characters (including "/", "~", digits and the empty string) the names contain. Composing step by step equals composing all at once, the text produced is the RFC 6901 escaping of each name, and the caller\'s list is left unmodified.',
  ['inputs'], 'all token lists up to the bound over all short strings on the characters that matter to the escaping (~ 0 1 / and an ordinary one), all non-empty bases, every way of cutting the composition into steps',
  'tests sample four or five pointers; the escaping rules interact (e.g. "~01" vs "~1") only for particular adjacent characters',
  ['pyopenapi/utils.py'], [('jp_compose', 'pyopenapi/utils.py'), ('jp_split', 'pyopenapi/utils.py')], ['return values'])

p('C02', 'References resolve against their document URL as RFC 3986 requires',
  'Normalising a reference against the URL of the document that contains it gives the absolute URL (RFC 3986 resolution, dot segments removed, the query being that of the reference; an absolute reference unchanged) plus the fragment unchanged; splitting any absolute reference gives its URL and "#"-fragment, and joining them names the same place. The folder of a document URL, and a name joined to that folder, have exactly one separator between them and keep scheme and host.',
  ['inputs'], 'all combinations of base URLs (http/file, with and without folders, at the root of the host), relative references built from up to 4 path segments including ".", "..", names and extensions, absolute-path and absolute references, and fragments',
  'tests list about a dozen combinations, none with the base at the root of a host or an absolute-path reference',
  ['pyopenapi/utils.py', M + 'versions/v2_0/scanner/norm_ref.py', M + 'versions/v3_0_0/scanner/norm_ref.py'],
  [('normalize_jr', 'pyopenapi/utils.py'), ('derelativise_url', 'pyopenapi/utils.py'), ('jr_split', 'pyopenapi/utils.py'), ('url_dirname/url_join', 'pyopenapi/utils.py'), ('NormalizeRef', M + 'versions/*/scanner/norm_ref.py')], ['return values', 'documents fetched by the loader'])

p('C03', 'Loading a document and dumping it loses and invents nothing',
  'For Swagger 1.2, Swagger 2.0 and OpenAPI 3.0 documents, the dump of the loaded object tree equals the source document restricted to fields defined by that specification version: every defined field in every object keeps its exact value, including false, 0 and "". Only absent containers and empty ones (empty object or empty array members) may be missing from the dump, and nothing that was not in the source appears.',
  ['inputs'], 'for each object type of each version, all sets of up to k defined fields (k=2 quick, 3 thorough) with ordinary and falsy values, nested in every place of the document where the type may appear',
  'tests round-trip a few fixed sample files; rarely used fields and field pairs never occur in them',
  [M + 'spec/obj.py', M + 'versions/v1_2/objects.py', M + 'versions/v2_0/objects.py', M + 'versions/v3_0_0/objects.py'],
  [('field/child descriptors', M + 'spec/obj.py'), ('dump', M + 'spec/obj.py'), ('object tables', M + 'versions/*/objects.py')], ['dump()'])

p('C04', 'Every JSON pointer addresses exactly its own node',
  'For every node of a loaded 2.0 or 3.0 document, looking it up by its JSON pointer (through the application or by walking the object tree) yields the object holding exactly that part of the document, whatever characters are in the names on the way. Distinct pointers yield distinct objects, equal pointers the same object, a pointer to nothing is an error, and each object\'s parent is the node that encloses it.',
  ['inputs'], 'all documents of the bounded shape family (every container kind crossed with names containing "/", "~", digits, braces, prefixes of each other) and every pointer into them',
  'tests look up a handful of pointers with ordinary names',
  [M + 'spec/obj.py', M + 'base.py', M + 'store.py'],
  [('resolve on objects and containers', M + 'spec/obj.py'), ('ApiBase.resolve_obj', M + 'base.py'), ('SpecObjStore.get', M + 'store.py')], ['resolve_obj()', 'obj.resolve()', 'get_parent()'])

p('C05', 'What a reference resolves to never depends on what was resolved before',
  'In any order of resolving references on one application (local, in other full documents, in document fragments, nested in one another, names that are prefixes of others, different target versions), each reference yields the content found at its address, and repeating it yields the same object (or, once the document enclosing a path item, parameter or response has been migrated to 3.0 as a whole, the part of that). Every document is fetched at most once per application, and what was handed out stays usable as long as the application lives.',
  ['histories', 'inputs'], 'all sequences of resolve requests up to the depth bound over an alphabet of overlapping and prefix-colliding references, for 2.0 and 3.0 roots',
  'tests resolve one or two references per application in one fixed order; cache collisions need particular earlier requests',
  [M + 'base.py', M + 'store.py', M + 'resolve.py'],
  [('ApiBase.resolve_obj/load_obj', M + 'base.py'), ('SpecObjStore.get/get_until', M + 'store.py'), ('Resolver.resolve', M + 'resolve.py')], ['resolve_obj()', 'loader call log'])

p('C06', 'The object store answers like a map keyed by URL, pointer and version',
  'After any sequence of stores and removals, a lookup returns the object stored for that document, pointer and specification version, or the node reached by walking from a stored enclosing object, and nothing when there is none; "enclosing" means whole pointer segments, so "#/a/b" never answers for "#/a/bc". Listing everything under a pointer returns exactly the stored objects at or below it, keyed by their relative pointer, and removing them removes exactly those; looking up the newest version of an object returns the newest stored one.',
  ['histories'], 'all reachable store states and all operations on them up to the depth bound, over colliding URLs, pointers (ancestors, prefixes, escaped names) and the three versions',
  'the store tests use a few fixed sequences with pointers none of which is a string prefix of another',
  [M + 'store.py'], [('SpecObjStore.set/get/get_under/get_until', M + 'store.py')], ['return values of store operations'])

p('C07', 'Pointer relocation across versions follows the route map on whole segments',
  'A pointer into an older version is rewritten by the most specific route whose source is a whole-segment prefix of it, keeping the remainder unchanged, and pointers no route covers stay as they are; relocating through several versions equals relocating step by step. After migrating a 2.0 document, every pointer to a named schema, parameter, response or security scheme, to a path item, an operation, a parameter of either or the schema of a body or a response of the old document leads to the converted counterpart of exactly that object, whatever the names.',
  ['inputs', 'configurations'], 'all route maps up to the size bound (nested, absolute and relative targets) crossed with all pointers up to the length bound; all documents of the name-collision family crossed with their component pointers',
  'tests relocate a few pointers of fixed documents; collisions need component names that are prefixes of each other or contain escaped characters',
  [M + 'store.py', CONV, M + 'base.py'], [('SpecObjStore.relocate', M + 'store.py'), ('to_openapi relocation map', CONV), ('ApiBase.resolve_obj', M + 'base.py')], ['relocate()', 'resolve_obj()'])

p('C08', 'Migrating 2.0 operations to 3.0 preserves parameters, bodies and responses',
  'After migration to 3.0.0 each operation has the same non-body parameters (name, place, required, schema, serialisation style), one request body carrying all its body, form or file parameters under its own effective media types, and the same responses with schema, headers and media types, as OpenAPI 3.0 requires for the meaning to be unchanged. Parameters shared at the path level apply to every operation of the path unless the operation overrides them, and nothing declared in one operation shows up in another.',
  ['inputs'], 'all path items built from up to k independent features (parameter kinds and options, consumes/produces at either level, several operations, references, responses) with the reference translation computed independently',
  'tests migrate one parameter or response at a time, and fixed sample documents',
  [CONV, M + 'versions/v2_0/scanner/upgrade/parameter_context.py'],
  [('to_operation/to_path_item', CONV), ('from_parameter/to_parameter/to_request_body/to_media_type', CONV), ('to_response', CONV)], ['dump() of the migrated document'])

p('C09', 'Migrating 2.0 schemas, security, info and servers to 3.0 preserves meaning',
  'After migration to 3.0.0 every schema keyword, security scheme and OAuth2 flow, security requirement, tag, external documentation, info block and the API base URL appear at the place and under the name OpenAPI 3.0 assigns to them, with unchanged values, for any combination of fields. Nothing else is added.',
  ['inputs'], 'all sets of up to k features over every field of every such object, with ordinary and falsy values, and schema nesting to depth 3',
  'tests cover one sample per object; combinations, falsy values and nesting are not sampled',
  [CONV, M + 'versions/v2_0/scanner/upgrade/constants.py'],
  [('to_schema', CONV), ('to_security_scheme/to_flows', CONV), ('to_openapi/from_swagger_to_server', CONV), ('to_info/to_tag/to_header', CONV)], ['dump() of the migrated document'])

p('C10', 'Every $ref ends up attached to the object it names, for any reference graph',
  'After loading and migrating, every reference in the document and in every document it pulls in carries the object located at its target in the target version, and its text, read in its own document, names the target\'s document, whatever the shape of the reference graph (chains, shared targets, cycles, self-references, cycles across documents). Loading always terminates and succeeds when every target exists, and fails when one does not.',
  ['inputs'], 'all reference graphs over up to 3 named schemas in up to 3 documents with each node being a leaf, a direct reference, or a container holding references, for 2.0, 3.0 and 2.0-to-3.0',
  'tests contain a few hand-made graphs',
  [M + 'base.py', M + 'versions/v2_0/scanner/resolve.py', M + 'versions/v3_0_0/scanner/resolve.py', M + 'versions/v2_0/main.py', M + 'versions/v3_0_0/main.py'],
  [('Resolve scanner', M + 'versions/*/scanner/resolve.py'), ('upgrade', M + 'versions/*/main.py'), ('resolve_obj', M + 'base.py')], ["get_attrs('migration')", 'termination'])

p('C11', 'A path item with $ref is its own content over the referenced content',
  'For a path item that references another one, directly or through a chain, in the same or another document, the merged path item has each member from the first path item in the chain that defines it, and no other; the original path items are left unmodified. A reference cycle neither hangs nor fails loading, and each path item then merges what is reachable.',
  ['inputs'], 'all chains and cycles of up to 3 path items across up to 2 documents with all distributions of up to 3 members, for 2.0, 3.0 and 2.0-to-3.0',
  'tests have two fixed chains and one cycle',
  [M + 'versions/comm.py', M + 'versions/v2_0/scanner/merge.py', M + 'versions/v3_0_0/scanner/merge.py', M + 'spec/obj.py'],
  [('_merge_path_item', M + 'versions/comm.py'), ('merge_children', M + 'spec/obj.py'), ('final', 'pyopenapi/utils.py')], ['final()', 'dump()'])

p('C12', 'Dereferencing follows a chain to its end and reports every cycle',
  'Dereferencing an object follows attached references to the first object that is not a reference (or whose reference is not attached) and returns that object; if the chain is cyclic it reports cycle detection instead of looping or returning an intermediate object. The answer does not depend on the starting point\'s position in the chain nor on earlier dereferences, and the final view of an object is its merged form when there is one and the object itself otherwise.',
  ['inputs', 'histories'], 'all functional graphs over up to 5 reference objects (every successor choice including none), every start, and repeated calls with shared and fresh guards',
  'tests check one chain and one cycle',
  ['pyopenapi/utils.py'], [('deref', 'pyopenapi/utils.py'), ('final', 'pyopenapi/utils.py'), ('CycleGuard', 'pyopenapi/utils.py')], ['return value or CycleDetectionError'])

p('C13', 'Traversal visits every object exactly once, with its JSON pointer',
  'Scanning an object tree visits every specification object in it exactly once and pairs it with the JSON pointer (RFC 6901) under which the document holds it, for all names and nestings; objects below a declared leaf type are not visited. Each visited object is passed to every handler registered for its type by every route, in registration order, and to no other, and the results reach the route\'s result function.',
  ['inputs', 'configurations'], 'all documents of the bounded shape family of versions 1.2, 2.0 and 3.0, all leaf-type choices, and all handler registrations up to the bound',
  'tests count visits in fixed documents with ordinary names',
  [M + 'scan.py', M + 'spec/obj.py'], [('default_tree_traversal', M + 'scan.py'), ('scan/Scanner', M + 'scan.py'), ('Dispatcher', M + 'scan.py'), ('get_children', M + 'spec/obj.py')], ['handler call log'])

p('C14', 'After any edits, all views of an object tree agree',
  'After any sequence of edits through the public operations of objects and containers (set or attach a child, add or replace a map entry, append or extend a list, merge children, write a field), every view of the tree - membership, length, iteration, lookup by key or pointer, child listing, traversal, dump - shows exactly the edited content, at every level above and below the edit. Attributes attached to an object stay with that object and namespace only.',
  ['histories'], 'all edit sequences up to the depth bound, interleaved with reads, over a tree with nested maps, lists and objects, against a plain dict/list model',
  'tests perform one edit and one read; stale caches need a read between two edits at different levels',
  [M + 'spec/obj.py', M + 'spec/attr.py'], [('_Map/_List mutators', M + 'spec/obj.py'), ('attach_child/merge_children/child setter', M + 'spec/obj.py'), ('children cache', M + 'spec/obj.py'), ('get_attrs', M + 'spec/obj.py')], ['public views of objects'])

p('C15', 'The same document loads the same from any source and syntax',
  'A document given as a mapping, JSON text, YAML text, text or bytes, by URL, by file path or by the path of a folder that holds a conventionally named file (the first of resource_list.json, swagger.json, swagger.yaml and swagger.yml), with or without the URL hook, yields the same object tree; YAML numeric response codes count as strings. References between local files find the sibling file that they name, and asking for a file that is not there is an error.',
  ['inputs', 'configurations'], 'all combinations of a document family with every syntax, source kind, file name and extension, folder layout and hook',
  'tests load a few files each in one way',
  [M + 'getter.py', M + 'resolve.py', M + 'base.py', 'pyopenapi/utils.py', M + 'versions/v2_0/scanner/yaml.py'],
  [('Getter/LocalGetter/SimpleGetter/DictGetter', M + 'getter.py'), ('Resolver', M + 'resolve.py'), ('normalize_url/patch_path', 'pyopenapi/utils.py'), ('YamlFixer', M + 'versions/v2_0/scanner/yaml.py')], ['dump() of the loaded tree', 'exceptions'])

p('C16', 'Migrating Swagger 1.2 resources yields the equivalent 2.0 document',
  'Every operation of every resource of a 1.2 listing appears in the migrated document exactly once under its full path and method with its parameters, response type, media types, documentation and security, and every model appears under its resource-qualified name with its properties, required list, discriminator and inheritance. References to models resolve to the model of the same resource, and authorizations and API information are carried over.',
  ['inputs'], 'all listings built from up to k features over every supported field of resources, operations, parameters, models and authorizations, with one or two resources and colliding model names',
  'tests migrate one sample (the wordnik pet store)',
  [M + 'versions/v1_2/scanner/upgrade.py', M + 'versions/v1_2/objects.py', M + 'base.py'],
  [('Upgrade', M + 'versions/v1_2/scanner/upgrade.py'), ('load_obj', M + 'base.py')], ['dump() of the migrated document'])

p('C17', 'A failed load never turns into a wrong result',
  'If any fetch during loading, migrating or resolving fails or returns something unusable, the call in progress raises; it never returns a partial or wrong object. When the cause is gone, repeating the call on the same application gives the result of a run without the failure, with every reference attached.',
  ['fault_sequences', 'histories'], 'for a family of multi-document APIs, every position of the fetch sequence crossed with every kind of failure, single and double faults, followed by retry',
  'tests have no fault injection; the failing position decides which objects are already cached',
  [M + 'base.py', M + 'resolve.py', M + 'store.py', M + 'versions/v2_0/main.py', M + 'versions/v3_0_0/main.py'],
  [('load_obj/migrate_obj/resolve_obj', M + 'base.py'), ('Resolver cache', M + 'resolve.py'), ('upgrade', M + 'versions/*/main.py')], ['exceptions', 'dump() after retry', "get_attrs('migration')"])

p('C18', 'Loading and migrating are pure, repeatable and isolated',
  'Loading, migrating, dumping and resolving never modify the mappings the caller supplied nor the objects of the older version, give equal results every time, on every application and under any hash seed, and two applications used alternately behave like two used alone. Migrating the same object again gives an equal object and leaves the application usable.',
  ['histories', 'inputs', 'configurations'], 'all operation sequences up to the depth bound on two applications sharing source mappings, over a document family, under several hash seeds',
  'tests use each application once in one process',
  [M + 'base.py', CONV, M + 'versions/v3_0_0/main.py', M + 'versions/v3_0_0/scanner/resolve.py', M + 'spec/obj.py'],
  [('migrate_obj', M + 'base.py'), ('converters', CONV), ('upgrade', M + 'versions/*/main.py')], ['input mappings', 'dump()'])

p('C19', 'Comparison reports a difference exactly when there is one',
  'Comparing two object trees says equal if and only if they are of the same type and hold the same content, and otherwise names the place of a real difference; comparing plain containers returns an empty list if and only if they are equal apart from list order of scalars and excluded keys, and lists every differing place. Both are reflexive and symmetric in their verdict.',
  ['inputs'], 'all pairs of documents at edit distance 0 to 2 over a feature alphabet, and all pairs of small nested containers over a value alphabet, with every include/exclude choice',
  'tests compare a dozen pairs',
  [M + 'spec/obj.py', 'pyopenapi/utils.py'], [('compare', M + 'spec/obj.py'), ('compare_container', 'pyopenapi/utils.py')], ['return values'])

p('C20', 'Scoped names compose, split and look up without confusion',
  'Composing scope names and splitting the result with the same separator are inverse; a scoped dictionary finds an entry by its full name, its tuple of names, or any trailing names that identify a single entry, and reports missing or ambiguous names instead of returning another entry. A trailing name matches only whole names between separators.',
  ['inputs', 'histories'], 'all dictionaries of up to 3 composed keys over names that are suffixes of each other, and all queries, separators and tuple forms',
  'tests use a few names none of which is a suffix of another',
  ['pyopenapi/utils.py'], [('scope_compose/scope_split', 'pyopenapi/utils.py'), ('ScopeDict', 'pyopenapi/utils.py')], ['return values', 'KeyError/ValueError'])

p('C21', 'Loading an enclosing document adopts the parts already resolved',
  'When parts of a document were resolved first and the whole document is loaded later, the whole contains those very objects at their pointers, for any names and nesting, and content that was not resolved before equals the source. No object is duplicated, and references to the parts keep working.',
  ['histories', 'inputs'], 'all subsets and orders of parts (up to 3, nested or siblings, names with escaped characters) resolved before the whole, for 2.0 and 3.0',
  'one fixed part and document in the tests',
  [M + 'base.py', M + 'store.py', M + 'spec/obj.py'], [('load_obj override', M + 'base.py'), ('get_under', M + 'store.py'), ('override handling', M + 'spec/obj.py')], ['object identity', 'dump()'])

p('C22', 'Members read and write the same by their name and by their Python alias',
  'Every member the specification defines for an object can be read through the attribute of that name, and, where the name is not an ordinary snake_case identifier, through its Python alias as well (operation_id, all_of, ref for "$ref", type_, in_, format_, ...). Both always give the value the document has at that member, false, 0 and "" included (or the default when it is absent), never that of another member. A value assigned through either is what both read afterwards and what dump() shows, and nothing else changes.',
  ['inputs', 'histories'], 'for each object type of each version, every member x every kind of value, alone and among all other members, and every sequence of up to k assignments through names and aliases',
  'there are some 300 members and 150 aliases; tests use a few of them, and an alias that is missing or leads to a neighbour is not noticed until someone reads exactly that one',
  [M + 'versions/v1_2/objects.py', M + 'versions/v2_0/objects.py', M + 'versions/v3_0_0/objects.py', M + 'spec/obj.py'],
  [('rename/field/child', M + 'spec/obj.py'), ('__internal__ tables', M + 'versions/*/objects.py')], ['attributes of objects', 'dump()'])

p('C23', 'Content of the wrong kind is refused, never read as something else',
  'Where the specification of 1.2, 2.0 or 3.0.0 has an object, an array, a map or a list or map of texts, a document (or a part of another document that a reference leads to) with any other kind of JSON value there fails to load, every time; it is never read as empty, shortened or something else. A source that is no document, a version nobody knows, a reference that is no text, and content that the version migrated to can not express (several bodies or form fields of one name in a parameter list, models in other 1.2 parameters than the body) are errors as well, and so is reading a member that 1.2 or 3.0.0 requires and the document lacks. Documents without such content still load on the same application.',
  ['inputs', 'histories'], 'every place of every object type and of full documents whose kind the specification fixes x every other JSON kind, on its own, nested, in referenced documents, in 1.2 resources; all versions, sources, reference values and parameter lists of the bounded families',
  'there are several hundred such places times nine wrong kinds times the ways a document is reached; a test tries one, and a missing check shows as content that silently disappears',
  [M + 'spec/obj.py', M + 'base.py', M + 'resolve.py', M + 'getter.py', M + 'versions/v1_2/objects.py', M + 'versions/v2_0/objects.py', M + 'versions/v3_0_0/objects.py', M + 'versions/v2_0/scanner/upgrade/converters.py', M + 'versions/v1_2/scanner/upgrade.py'],
  [('Base2Obj/_List/_Map constructors, field(required)', M + 'spec/obj.py'), ('is_str, if_not_bool_else', M + 'versions/v3_0_0/objects.py'), ('load_obj', M + 'base.py'), ('to_request_body', M + 'versions/v2_0/scanner/upgrade/converters.py')], ['load_obj', 'migrate_obj', 'resolve_obj', 'attributes of objects'])

p('C24', 'What an application hands out went through its prepare hook',
  'Every object that an application hands out or attaches to a reference, in every version it is migrated through, is one (or part of one) that the prepare hook of the application was given, together with the URL and pointer at which the application has it, after the references inside it were attached. What the hook gives back is what migrating and resolving return and what the next version is made from. The original and the current version an application reports are those of the full document it loaded and migrated last, whatever fragments were resolved and whatever failed in between.',
  ['inputs', 'histories', 'programs'], 'all reference graphs over a document and fragments of two others with one reference each x versions x orders; full APIs of every version; hooks that give other objects for every kind of object; all sequences of loads, migrations, fragments and failures up to a depth',
  'which objects reach the hook, when and under which address depends on the graph of references and on what was resolved before; the test application has a hook that does nothing',
  [M + 'base.py', M + 'versions/v2_0/main.py', M + 'versions/v3_0_0/main.py', M + 'versions/v2_0/scanner/resolve.py', M + 'versions/v3_0_0/scanner/resolve.py'],
  [('migrate_obj, resolve_obj', M + 'base.py'), ('upgrade', M + 'versions/v3_0_0/main.py')], ['prepare_obj', 'migrate_obj', 'resolve_obj', 'original_spec_version', 'current_spec_version'])

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
