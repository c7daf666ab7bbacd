# single source of properties.jsonl and MANIFEST.json (see gen_meta.py)
# id, title, statement, over, quantifier text, why_tests_cant, files, mechanisms[(name, where)], level_note
PROPS = []


def prop(id, title, statement, over, quant, why, files, mech, note, observe=None, state=None):
    PROPS.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=over, quant=' '.join(quant.split()),
                      why=' '.join(why.split()), files=files, mech=mech, note=' '.join(note.split()), observe=observe or [],
                      state=state or []))


prop('C01', 'Every part of a document is reached exactly by its JSON pointer',
     '''After preparing a Swagger 2.0 document, every value written in a field the specification defines (vendor extensions are not kept) is returned when its JSON
     pointer (~0/~1 escaped, with or without the URL of the document) is resolved, and when the same path is walked by attributes, keys and indices; fields that
     are not written read as their documented defaults. Pointers which are textual prefixes of one another, or differ only in escaping,
     never yield each other's object. A pointer to something that does not exist raises an error instead of returning another value.''',
     ['inputs', 'configurations'], '''all documents made of a skeleton with adversarial key names (prefixes, '/', '~', numeric) times
     subsets of features, all pointers inside of each''',
     'tests resolve a few dozen hand-picked pointers in fixed files; aliasing depends on which names coexist',
     ['pyswagger/core.py', 'pyswagger/spec/base.py', 'pyswagger/utils.py', 'pyswagger/spec/v2_0/parser.py'],
     [('App.resolve', 'pyswagger/core.py'), ('BaseObj.resolve', 'pyswagger/spec/base.py'), ('jp_compose/jp_split', 'pyswagger/utils.py')],
     'Exhaustive over the pointer space of each generated document; documents bounded by the alphabet in the scenario.')

prop('C02', 'Dumping a document loses nothing and is stable',
     '''The dump of a prepared App is a Swagger 2.0 document that still holds every value of the source document written in a field the specification defines, except empty values and values equal to the
     field's default (references into the document itself are local, those to others absolute; inherited settings may be added). Loading the dump, from the same or another URL, gives an App that offers the same operations, builds the
     same requests and converts the same responses, and dumping that App again gives an equal document.''',
     ['inputs', 'configurations'], 'all subsets (up to the bound) of document features: every field of every 2.0 object kind, vendor values of every JSON type',
     'tests dump a handful of files and compare with themselves; a dropped field shows only for the object kind and value that has it',
     ['pyswagger/core.py', 'pyswagger/spec/base.py', 'pyswagger/spec/v2_0/objects.py'],
     [('BaseObj.dump', 'pyswagger/spec/base.py'), ('App.dump', 'pyswagger/core.py')],
     'Round trip compared with the source document and behaviourally on the reloaded App.')

prop('C03', 'A $ref behaves exactly like its target written in place',
     '''For parameters, schemas, responses and path items, a document which refers to an object by $ref (local, in another document by
     absolute or relative URL, in a fragment of it or the whole file, or through a chain of references) builds the same requests and
     converts the same responses as the document in which that object is written in place. Relative references inside a referred
     document are relative to that document.''',
     ['inputs', 'configurations'], 'all placements (kinds of object x reference spelling x chain length up to 3 x folder layouts) within the bound',
     'tests cover one file layout per kind; a wrong base URL or a lost field shows only for particular combinations',
     ['pyswagger/core.py', 'pyswagger/utils.py', 'pyswagger/scanner/v2_0/resolve.py', 'pyswagger/scanner/v2_0/merge.py',
      'pyswagger/scanner/v2_0/norm_ref.py', 'pyswagger/resolve.py'],
     [('NormalizeRef', 'pyswagger/scanner/v2_0/norm_ref.py'), ('Merge', 'pyswagger/scanner/v2_0/merge.py'), ('Resolve', 'pyswagger/scanner/v2_0/resolve.py')],
     'Differential: inlined document against every reference placement within the bound, observed through requests and responses.')

prop('C04', 'Cyclic references: always detected, never invented, never fatal',
     '''Preparing a document always terminates. In strict mode it raises the cycle error exactly when the references among its schemas form
     a cycle; in non-strict mode it succeeds for cyclic schemas, parameters, responses and path items, and everything not involved in a cycle
     keeps working; finite values of recursive schemas are converted. The cycle enumeration helper reports exactly the elementary cycles reachable from its start.''',
     ['inputs'], 'all directed graphs up to the vertex bound, with every kind of schema edge (property, items, allOf, additionalProperties, direct $ref), local or across documents',
     'the number of graph shapes is exponential; tests contain a few hand-drawn cycles',
     ['pyswagger/utils.py', 'pyswagger/scanner/cycle_detector.py', 'pyswagger/scanner/v2_0/aggt.py', 'pyswagger/scanner/v2_0/merge.py', 'pyswagger/core.py'],
     [('walk', 'pyswagger/utils.py'), ('CycleDetector', 'pyswagger/scanner/cycle_detector.py'), ('CycleGuard', 'pyswagger/utils.py')],
     'All digraphs up to 4 vertices on the helper; all schema reference graphs up to 3 definitions (edge kind rotated) on the App; oracle: reachability closure.')

prop('C05', 'Reference resolution does not depend on what was resolved before',
     '''Whatever sequence of references was resolved before, including attempts that failed, resolving a reference on an App or a
     resolver gives the same result as resolving it first on a fresh one. Each document is fetched at most once while fetches succeed, and a
     failed fetch is reported as an error and retried by the next attempt rather than remembered.''',
     ['histories', 'fault_sequences'], 'all histories of resolve calls up to the depth bound over documents with nested, prefix-named and whole-file targets, with every placement of fetch failures',
     'tests resolve each reference once per App; cache poisoning needs particular orders and failures',
     ['pyswagger/core.py', 'pyswagger/resolve.py', 'pyswagger/getter.py'],
     [('App.__objs cache', 'pyswagger/core.py'), ('Resolver cache', 'pyswagger/resolve.py')],
     'Explicit-state search over operation histories with injected fetch failures against fresh-App results.')

prop('C06', 'Where and how a document is stored makes no difference',
     '''The same API description gives the same behaviour whether it is written as JSON or YAML, given as path, file URL, folder with
     a default file name, HTTP URL, redirected by a url hook, or served by a custom getter (class or instance), including its relative references when the location is the file or URL of a document,
     and including the resources of a Swagger 1.2 listing, which are found beside it (with the same query). A location where there is no document, or content that cannot be parsed, raises an error.''',
     ['configurations', 'inputs'], 'all combinations of serialisation, location form, file name and getter form in the alphabet',
     'tests use one layout per form; combinations of form, extension and referenced file are not covered',
     ['pyswagger/getter.py', 'pyswagger/resolve.py', 'pyswagger/utils.py', 'pyswagger/core.py', 'pyswagger/scanner/v2_0/yaml.py', 'pyswagger/spec/v1_2/parser.py'],
     [('LocalGetter/SimpleGetter/DictGetter', 'pyswagger/getter.py'), ('Resolver', 'pyswagger/resolve.py'), ('YamlFixer', 'pyswagger/scanner/v2_0/yaml.py')],
     'Exhaustive product of storage forms; files live in scratch folders; HTTP is a stand-in for urlopen.')

prop('C07', 'Operation and model lookup finds the right object or fails',
     '''Every operation with an id is found by its full scoped key (first tag and id, as tuple or joined by the separator) and by any
     textual suffix of the keys that identifies it alone; an exact key always wins over suffix matches. Models are found the same way by their names, path items and operations by the shortcut App.s. An ambiguous key raises ValueError, an unknown
     one KeyError, duplicated keys are rejected at preparation, and custom separators behave like the default one.''',
     ['inputs', 'configurations'], 'all sets of up to 3 operations over an alphabet of tags and ids where names are suffixes of one another, all lookup keys, two separators',
     'suffix matching interacts with the set of names present; tests contain one fixed dictionary',
     ['pyswagger/utils.py', 'pyswagger/scanner/type_reducer.py', 'pyswagger/core.py'],
     [('ScopeDict.__getitem__', 'pyswagger/utils.py'), ('TypeReduce', 'pyswagger/scanner/type_reducer.py')],
     'Exhaustive within the alphabet against a specification of the lookup order.')

prop('C08', 'Arguments reach exactly the declared places of a request',
     '''Calling an operation puts every given argument, converted, under its name into the declared location (path, query, header, form, body,
     file) and nowhere else; declared defaults are sent when the argument is omitted, other omitted parameters are absent. A missing required argument
     without default, or an undeclared argument, raises ValueError.''',
     ['inputs', 'configurations'], 'all operations with up to 2 parameters over locations x types x required x default, and all argument subsets including unknown names and falsy values',
     'the product of location, type, requiredness, default and presence has thousands of cells; tests touch a few dozen',
     ['pyswagger/spec/v2_0/objects.py', 'pyswagger/io.py', 'pyswagger/primitives/__init__.py'],
     [('Operation.__call__', 'pyswagger/spec/v2_0/objects.py'), ('Request.prepare', 'pyswagger/io.py')],
     'Exhaustive enumeration against a reference routing model.')

prop('C09', 'The request URL is scheme, host, base path and the filled path template',
     '''A prepared request's URL is the chosen scheme, the document's host (else that of the document's URL, else localhost), the base path and the
     path template, each template variable replaced by its percent-encoded value such that splitting the path and decoding gives back the argument.
     The netloc and scheme options replace just these parts.''',
     ['inputs', 'configurations'], 'all combinations of host, basePath, document URL, path templates and argument values over an alphabet of reserved and non-ASCII characters, and patch options',
     'encoding errors show only for particular characters and positions; tests use plain names',
     ['pyswagger/io.py', 'pyswagger/scanner/v2_0/patch_obj.py'],
     [('Request.prepare/_patch', 'pyswagger/io.py'), ('PatchObject._path_item', 'pyswagger/scanner/v2_0/patch_obj.py')],
     'All strings up to length 2 over a reserved-character alphabet in each template position.')

prop('C10', 'Array arguments are serialised by their collectionFormat',
     '''An array parameter is sent as its elements, converted by the item type, joined by the separator of its collectionFormat (csv by default, ssv, tsv,
     pipes) in path, query, header or form, or as one query/form entry per element with multi; nested arrays use the format of each level. A string given
     in place of a list is split by the same separator, duplicates are removed when uniqueItems is set, order is kept, and the item count limits are
     enforced.''',
     ['inputs'], 'all lists up to length 3 over element alphabets per item type x formats x locations x nesting x uniqueItems x limits',
     'tests have one list per format',
     ['pyswagger/primitives/_array.py', 'pyswagger/spec/v2_0/objects.py'],
     [('Array', 'pyswagger/primitives/_array.py')],
     'Exhaustive over bounded lists with a reference serialiser; round trip through the string form.')

prop('C11', 'Form fields and files survive encoding',
     '''Form parameters are sent urlencoded (or as multipart/form-data when there is a file) such that a conforming decoder gets back exactly the
     values, file contents and part headers the caller gave, in order, whatever characters they contain and whatever (ASCII compatible) encoding option is used; names and file names, too, as long as they contain no quotes or line breaks.
     The Content-Type sent matches the encoding, and an operation whose consumes list does not allow it is refused.''',
     ['inputs', 'configurations'], 'all combinations of up to 2 fields and 2 files over adversarial contents (boundary-like text, CRLF, binary, unicode, empty), file sources and consumes lists',
     'tests decode one example by eye; separators and encodings matter only for particular contents',
     ['pyswagger/io.py', 'pyswagger/primitives/_file.py', 'pyswagger/spec/v2_0/objects.py'],
     [('Request._prepare_forms/_prepare_files', 'pyswagger/io.py')],
     'Independent strict multipart and urlencoded parsers as oracle.')

prop('C12', 'JSON bodies carry the argument and come back as the same value',
     '''The body argument is sent as JSON text that decodes to the given value with every part converted by its schema (dates, uuids and byte strings in their
     string forms), at any nesting of objects, arrays and maps. Feeding that text back as response of the same schema gives equal typed data (byte strings stay in their base64 form).''',
     ['inputs'], 'all values of bounded schemas (nesting 2) over element alphabets for every type and format',
     'tests convert a few fixed models',
     ['pyswagger/io.py', 'pyswagger/primitives/__init__.py', 'pyswagger/primitives/_model.py', 'pyswagger/primitives/codec.py', 'pyswagger/primitives/comm.py'],
     [('Primitive.produce', 'pyswagger/primitives/__init__.py'), ('JsonCodec', 'pyswagger/primitives/codec.py')],
     'Exhaustive over the schema/value grammar within bounds.')

prop('C13', 'Values outside their declared constraints are rejected, others accepted',
     '''Minimum and maximum (inclusive or exclusive), multipleOf, minLength and maxLength, string enum, minItems and maxItems, and email format
     are enforced for every value given to or received from an operation, wherever the constraint is written: directly, in items, in properties, in parts of allOf,
     in referred schemas, in parameters or in response headers. A value meeting all constraints is accepted unchanged.''',
     ['inputs', 'configurations'], 'all constraint settings x boundary values (below, at, above, zero, empty) x places x types within the bound',
     'boundary and falsy values times places are too many for hand-written tests',
     ['pyswagger/primitives/_int.py', 'pyswagger/primitives/_float.py', 'pyswagger/primitives/_str.py', 'pyswagger/primitives/_array.py', 'pyswagger/primitives/comm.py', 'pyswagger/primitives/__init__.py'],
     [('validate_*', 'pyswagger/primitives/'), ('min_max', 'pyswagger/primitives/comm.py')],
     'Exhaustive over boundary values; reference: direct evaluation of the constraints.')

prop('C14', 'Objects follow their schema: inheritance, defaults, extras, discriminator',
     '''A value for an object schema becomes a model holding each declared property (own or inherited through any nesting of allOf) converted by its schema,
     defaults for absent ones, additional properties as allowed (kept raw, converted by a schema, or dropped), and the schema's name in
     the discriminator property. Missing required properties, and read-only properties sent at the top level of a body, are rejected.''',
     ['inputs', 'configurations'], 'all allOf hierarchies up to 4 schemas (chains, diamonds) x property placements x required/default/additionalProperties settings x value subsets',
     'tests contain two fixed hierarchies; interactions among parts of allOf grow combinatorially',
     ['pyswagger/primitives/_model.py', 'pyswagger/primitives/__init__.py', 'pyswagger/scanner/v2_0/aggt.py', 'pyswagger/scanner/v2_0/patch_obj.py'],
     [('Model.apply_with/cleanup', 'pyswagger/primitives/_model.py'), ('Primitive.produce', 'pyswagger/primitives/__init__.py')],
     'Exhaustive bounded hierarchies with a reference interpreter.')

prop('C15', 'Dates, times and uuids keep their value across the wire',
     '''A date, date-time or uuid given as string, number (a timestamp) or native object denotes the same day, instant (including fraction and offset) or uuid
     on the wire and when read back; ISO-8601 variants (Z or offset, lower case, fractions of any length, missing seconds) are understood.
     Strings which are not valid are rejected instead of being reinterpreted.''',
     ['inputs'], 'all combinations of field boundary values, fraction lengths, offsets and spellings; all single-character corruptions of a template',
     'tests have a dozen fixed strings',
     ['pyswagger/utils.py', 'pyswagger/primitives/_time.py', 'pyswagger/primitives/_uuid.py', 'pyswagger/primitives/_byte.py'],
     [('from_iso8601', 'pyswagger/utils.py'), ('Date/Datetime', 'pyswagger/primitives/_time.py')],
     'Grammar enumerated exhaustively; oracle: integer arithmetic on the written fields.')

prop('C16', 'Responses are interpreted by the declaration for their status',
     '''A response is interpreted by the declaration of its status code, else by the default one: the body is decoded by its content type and converted by
     that schema, each declared header is converted by its type (names compared case-insensitively, repeated headers kept in order), and status and raw body are
     kept as received. Without a schema, or when only the raw body is asked for, no data is produced, and a body given before any status is refused.''',
     ['inputs', 'configurations', 'histories'], 'all combinations of declared responses, received status, body, content type, header sets, and the order/splitting of apply calls',
     'tests check single statuses with whole responses at once',
     ['pyswagger/io.py', 'pyswagger/spec/v2_0/objects.py'],
     [('Response.apply_with', 'pyswagger/io.py')],
     'Exhaustive product plus all splittings of a response into apply calls.')

prop('C17', 'Media types are negotiated within what the document allows',
     '''The Content-Type of a body and the Accept header are the ones chosen by the caller, else the first declared for the operation (or the document), else JSON
     for bodies; a choice that is not declared is refused. Bodies are encoded and decoded by the codec registered for the media type, ignoring case and parameters,
     and an unknown media type is an error.''',
     ['inputs', 'configurations', 'histories'], 'all consumes/produces lists x caller choices x register/unregister histories up to the depth bound',
     'tests use one list and one choice',
     ['pyswagger/io.py', 'pyswagger/primitives/codec.py'],
     [('Request._prepare_body/prepare', 'pyswagger/io.py'), ('MimeCodec', 'pyswagger/primitives/codec.py')],
     'Exhaustive product and explicit-state search over the codec registry.')

prop('C18', 'The scheme used is supported by client, operation and caller',
     '''A request is only ever sent by a scheme supported by the client and declared for the operation (else for the document, else that of the document's URL);
     when the caller prefers a scheme it is used if allowed, otherwise an error is raised. If client and operation share no scheme, the request is refused.''',
     ['configurations', 'histories'], 'all subsets of schemes at document, operation and client level x preferences x repeated sends',
     'tests check three combinations',
     ['pyswagger/core.py', 'pyswagger/io.py', 'pyswagger/scanner/v2_0/patch_obj.py'],
     [('BaseClient.prepare_schemes', 'pyswagger/core.py'), ('Request.prepare', 'pyswagger/io.py')],
     'Exhaustive subsets.')

prop('C19', 'Credentials go where the security scheme says, only on operations needing them',
     '''For each security requirement of an operation (its own, or the document's if it has none; an empty list means no security) whose credentials are known, the request carries
     them as declared: basic as Authorization header, API key under its name in header or query, oauth2 as access token. Operations without requirement carry no
     credentials, updating credentials replaces the old ones, unknown scheme names are refused, and sending again does not duplicate anything.''',
     ['configurations', 'histories'], 'all requirement sets over 5 schemes x known credentials x update histories x repeated sends',
     'tests check one scheme at a time, once',
     ['pyswagger/core.py', 'pyswagger/utils.py', 'pyswagger/scanner/v2_0/patch_obj.py'],
     [('Security.__call__/update_with', 'pyswagger/core.py'), ('nv_tuple_list_replace', 'pyswagger/utils.py')],
     'Explicit enumeration of update/send histories against a reference credential store.')

prop('C20', 'All client adapters put the same request on the wire',
     '''For the same operation, arguments, custom headers and options, the requests, Flask-test and Tornado clients send the same method, URL, query, headers, and
     body (modulo framing the transport chooses), and turn the same server answer into the same typed response. Repeated query and form entries, and repeated headers of an answer, survive; custom headers have names the request does not use itself, and those given several times are joined.''',
     ['inputs', 'configurations'], 'all combinations (within the bound) of parameter kinds, files, custom headers, options and server answers on the three adapters',
     'tests exercise each adapter on its own with one petstore flow',
     ['pyswagger/contrib/client/requests.py', 'pyswagger/contrib/client/flask.py', 'pyswagger/contrib/client/tornado.py', 'pyswagger/core.py'],
     [('request()', 'pyswagger/contrib/client/'), ('compose_headers', 'pyswagger/core.py')],
     'Differential against the documented request with in-process transports; webapp2 excluded (does not run on Python 3).')

prop('C21', 'A request can be sent again: no trace of earlier sends remains',
     '''Sending the same request/response pair again, on the same or another client, with other options, after an answer or after a failed send, puts the same
     request on the wire as a fresh pair would, and the response then shows the new answer only. Different calls of one operation never influence each other.''',
     ['histories', 'fault_sequences'], 'all histories of sends (client, options, headers, answer, failure) up to the depth bound on one pair, and interleavings of two pairs',
     'tests send each pair once or twice with equal settings',
     ['pyswagger/io.py', 'pyswagger/core.py', 'pyswagger/contrib/client/requests.py'],
     [('Request.reset/Response.reset', 'pyswagger/io.py')],
     'Explicit enumeration of histories, each compared with a fresh pair.')

prop('C22', 'Arguments and prepared Apps are never modified; Apps do not share state',
     '''Calling operations, preparing and sending requests, converting responses and rendering leave the caller's arguments, header and option containers, the source document and the
     prepared App unchanged, so that any later call behaves as if it were the first. Separate Apps, factories and codecs do not influence each other.''',
     ['histories'], 'all sequences up to the depth bound over operations that touch defaults, shared lists, merged parameters, credentials and headers, on one or two Apps',
     'aliasing shows only when a particular later call reuses the object modified earlier',
     ['pyswagger/spec/v2_0/objects.py', 'pyswagger/io.py', 'pyswagger/core.py', 'pyswagger/primitives/__init__.py', 'pyswagger/spec/base.py', 'pyswagger/scanner/v2_0/patch_obj.py'],
     [('Operation.__call__', 'pyswagger/spec/v2_0/objects.py'), ('BaseObj.merge', 'pyswagger/spec/base.py')],
     'All action sequences; fingerprint of the App and the arguments after every action.')

prop('C23', 'One prepared App can be used by several threads and overlapping exchanges',
     '''When threads share one prepared App and codec (with all its documents loaded, each having its own request/response pair), every thread calling, sending, converting, looking up, dumping or rendering observes the outcome it would observe alone, for every interleaving;
     the same holds for overlapping asynchronous exchanges in every order of completion and failure, and while another App is being loaded and prepared.''',
     ['schedules'], 'all interleavings of 2 threads within the preemption bound at line granularity; all completion orders of up to 3 exchanges',
     'tests are single-threaded',
     ['pyswagger/core.py', 'pyswagger/io.py', 'pyswagger/primitives/__init__.py', 'pyswagger/spec/v2_0/objects.py', 'pyswagger/contrib/client/tornado.py'],
     [('per-call state in Operation.__call__, Primitive.produce', 'pyswagger/')],
     'Controlled scheduler on the real threads (line granularity within pyswagger), context-bounded; sequential consistency as given by the interpreter lock.')

prop('C24', 'Rendered inputs are valid whatever the random numbers',
     '''For every outcome of the random source, rendering a parameter, schema or operation of a supported type and format, with limits that can be met and without cyclic references, terminates with a value that its own declaration accepts: right type and format, within limits,
     from the enum, all required and only declared properties (or additional ones where allowed), and that can be passed to the operation. Options (templates, minimal, maximal, exclusions, size limits)
     are honoured.''',
     ['inputs', 'schedules'], 'all outcomes (bounded alphabet of each random draw: extremes and middle) x schema grammar x options',
     'tests run the renderer with a few random seeds',
     ['pyswagger/primitives/render.py'],
     [('Renderer', 'pyswagger/primitives/render.py')],
     'The random source is owned by the explorer; every draw is a choice point over its extreme and middle outcomes.')

prop('C25', 'Swagger 1.2 documents behave like their 2.0 equivalents',
     '''A Swagger 1.2 API whose resources share one host behaves like the equivalent 2.0 document: same operations under resource scope and nickname, same requests for the same arguments (accepted or refused), same typed responses (also those of response messages with a model) and models (inheritance by subTypes, discriminator, limits, defaults, enums), same security and media types, whether declared by the resource or the operation.''',
     ['inputs', 'configurations'], 'all subsets (up to the bound) of 1.2 features over 2 resources, parameter kinds, models with inheritance and references, authorizations',
     'tests load two fixed 1.2 documents',
     ['pyswagger/scanner/v1_2/upgrade.py', 'pyswagger/spec/v1_2/parser.py', 'pyswagger/spec/v1_2/objects.py'],
     [('Upgrade', 'pyswagger/scanner/v1_2/upgrade.py')],
     'Differential against an independently written 2.0 document.')

prop('C26', 'Validation reports exactly the violated rules',
     '''Validating a document reports an error at the right place for each violated rule (1.2: missing mandatory fields other than lists and maps, ill-formed types, parameters and authorizations; 2.0: read-only properties listed as
     required) and none for a correct document; strict mode raises exactly when there is an error, and validating changes nothing.''',
     ['inputs', 'configurations'], 'all single and double mutations of a valid document per rule and place',
     'tests validate a few wrong files',
     ['pyswagger/scanner/v1_2/validate.py', 'pyswagger/scanner/v2_0/validate.py', 'pyswagger/core.py'],
     [('Validate', 'pyswagger/scanner/v1_2/validate.py'), ('App.validate', 'pyswagger/core.py')],
     'Mutations enumerated; expected set of (place, rule) computed by the harness.')

prop('C27', 'Operations inherit exactly what they do not declare themselves',
     '''Path-level parameters apply to every operation of the path that does not declare one of the same name; document-level consumes, produces, schemes and security apply to every operation that does not
     declare its own (an empty security list counts as declared, empty lists of the others do not), and no operation is affected by what its siblings declare.''',
     ['configurations'], 'all combinations of declarations at document, path and operation level for two sibling operations',
     'tests check each setting on its own',
     ['pyswagger/scanner/v2_0/patch_obj.py', 'pyswagger/scanner/v2_0/merge.py'],
     [('PatchObject', 'pyswagger/scanner/v2_0/patch_obj.py')],
     'Exhaustive product of presence/absence per level.')

prop('C28', 'Registered custom primitives are used for their type and format only',
     '''A creator (and validator) registered for a type and format in a primitive factory handles exactly the values declared with them, wherever they occur (parameters, items, properties, additional
     properties, allOf parts, headers, responses), formats not registered fall back to the handler of the plain type, and other factories are unaffected.''',
     ['inputs', 'histories'], 'all registration histories up to the bound x types/formats x places of use',
     'tests register one type in one place',
     ['pyswagger/primitives/__init__.py'],
     [('Primitive.register/get/produce', 'pyswagger/primitives/__init__.py')],
     'Registration histories enumerated against a reference map.')

prop('C29', 'Custom headers are added without losing or altering any header',
     '''Custom headers given to a client as dict or list are sent together with the headers of the request: repeated list entries are all sent (or joined by commas, in order, with the join option), in the dict form
     a header of the request wins over a custom one of the same name, and nothing else is changed, lost or duplicated.''',
     ['inputs', 'configurations'], 'all lists/dicts up to 3 entries over colliding names x request headers x join option x result form',
     'tests check one list and one dict',
     ['pyswagger/core.py'],
     [('BaseClient.compose_headers', 'pyswagger/core.py')],
     'Exhaustive against a reference composition.')

prop('C30', 'Header maps are case-insensitive mappings that keep the last spelling',
     '''Request and response header maps behave as mappings whose keys compare case-insensitively: reading, testing, overwriting and deleting by any spelling refer to the same entry, iteration yields each entry
     once with the spelling and value last set, in insertion order.''',
     ['histories'], 'all operation sequences up to the depth bound over 2 names in 2 spellings',
     'tests use a fixed sequence',
     ['pyswagger/utils.py'],
     [('CaseInsensitiveDict', 'pyswagger/utils.py')],
     'Explicit-state search over operation sequences against a reference map.')


prop('C31', 'A converted Swagger 1.2 document stands on its own',
     '''The dump of an App loaded from a Swagger 1.2 API is one Swagger 2.0 document: operations, parameters, schemas and security definitions have the fields and values 2.0 asks for (descriptions are not converted),
     and every reference points into the document itself. Saved as JSON or YAML and placed at any URL, it can be loaded without any of the
     1.2 files, and gives an App that offers the same operations, builds the same requests, converts the same responses and models, and asks for the same security as
     the 1.2 original; dumping that App gives the same document again.''',
     ['inputs', 'configurations'], 'all subsets (up to the bound) of 1.2 features of C25, times the format and place the converted document is saved with',
     'tests compare the dump of one 1.2 document with a stored file and accept known differences',
     ['pyswagger/core.py', 'pyswagger/scanner/v1_2/upgrade.py', 'pyswagger/spec/base.py'],
     [('App.dump', 'pyswagger/core.py'), ('Upgrade', 'pyswagger/scanner/v1_2/upgrade.py')],
     'Differential: the App of the 1.2 API against the App of its dump, plus the rules of 2.0 checked on the dump.')


prop('C32', 'Preparing is repeatable, and Apps do not disturb each other',
     '''Whatever happened before on an App (preparing it strictly or not, preparations refused or broken off because a document could not be fetched, validation), preparing it has the outcome it has on a fresh App, and
     once prepared it behaves like a fresh one prepared once; a later preparation that is refused leaves it usable. Validation always reports the same. Apps loaded from one Resolver, from the same getter or the same
     in-memory documents, in any interleaving of loading, preparing and using them, behave as if each was alone.''',
     ['histories', 'fault_sequences'], '''all histories of prepare/validate up to the depth bound over 8 kinds of documents with every placement of fetch failures up to the bound; all
     interleavings of the life of two Apps over 10 pairs of APIs''',
     'tests prepare each App once, and never after a failure',
     ['pyswagger/core.py', 'pyswagger/resolve.py', 'pyswagger/scanner/v2_0/merge.py', 'pyswagger/scanner/v2_0/patch_obj.py', 'pyswagger/scanner/v1_2/upgrade.py'],
     [('App.prepare', 'pyswagger/core.py'), ('App.prepare_obj', 'pyswagger/core.py'), ('Resolver.resolve', 'pyswagger/resolve.py')],
     'Every history compared with a fresh App prepared once.')


prop('C33', 'What is patched into a prepared request is what is sent',
     '''The converted parameters of a request can be changed by its `_p` placeholder after the operation is called: path, header and body maps, query and form pairs, contents of files, also with values the declaration
     would refuse, undeclared names, removed or repeated entries and whole bodies. What any client then sends is exactly the patched content (nothing re-validated, restored or left over from an earlier preparation or
     send); the arguments of the caller and other requests are not affected.''',
     ['inputs', 'histories'], '''all sequences of patches up to the depth bound over 5 kinds of operations, with preparations and sends between them, by each adapter''',
     'the documentation describes it with one example; no test patches and sends',
     ['pyswagger/io.py', 'pyswagger/core.py', 'pyswagger/primitives/_model.py', 'pyswagger/primitives/codec.py'],
     [('Request._p', 'pyswagger/io.py'), ('Request.prepare', 'pyswagger/io.py')],
     'The wire content is decoded and compared with the patched reference content.')


prop('C34', 'A scan visits every object of a document once, with its pointer',
     '''Scanning a loaded or prepared document (or a part of it), of either version, calls the handlers registered for the class of an object, or for one of its base classes, once for every such object that is written in
     the document, with the JSON pointer (from the start of the scan) at which it is found, containers before what they contain, and not below objects of a leaf class; what is only referred to is not entered. The result of each handler is
     given to the result function of its dispatcher. Dispatchers do not see the handlers of each other, an error of a handler reaches the caller, and scanning changes nothing.''',
     ['inputs', 'configurations'], 'documents of both versions with every kind of object and adversarial names, times ways to register handlers, start of the scan, leaf classes and preparation',
     'tests scan one document with one dispatcher and count what is visited',
     ['pyswagger/scan.py', 'pyswagger/spec/base.py'],
     [('Scanner.scan', 'pyswagger/scan.py'), ('Dispatcher', 'pyswagger/scan.py'), ('default_tree_traversal', 'pyswagger/scan.py'), ('BaseObj._children_', 'pyswagger/spec/base.py')],
     'Every scan compared with a walk over the raw document guided by the containment rules of the specifications.')


prop('C35', 'Comparing two documents tells whether and where they differ',
     '''Comparing two parsed documents says they are the same exactly when every field defined by the specification has the same value, and otherwise gives the pointer of a place where they differ (under the given name); the comparison
     of plain values reports exactly the places that differ, with both values, lengths or types as documented, looking only at the included and not at the excluded keys. Neither changes what it compares.''',
     ['inputs'], 'every single edit (thorough: pair of edits) at every place of documents with most kinds of objects and of nested plain values, in both directions, with each key included or excluded',
     'tests compare a few pairs of stored documents, most of them equal',
     ['pyswagger/spec/base.py', 'pyswagger/utils.py'],
     [('BaseObj.compare', 'pyswagger/spec/base.py'), ('_diff_', 'pyswagger/utils.py'), ('jp_compose', 'pyswagger/utils.py')],
     'The edit that was made is known, so the place and values that have to be reported are.')
