import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
API=["Schema.Validate / Validate: Result.Valid(), Result.Errors()"]
p("C01","Numeric and type assertions are decided exactly",
 "For every JSON number, however it is written (1, 1.0, 1e0, 100 digits, large exponents), a schema using type, minimum, maximum, exclusiveMinimum, exclusiveMaximum and multipleOf accepts it if and only if its exact mathematical value satisfies every one of them; \"integer\" means a number without fractional part, and the numeric keywords never affect non-numbers. Every JSON value has exactly one of the types null, boolean, number (integers included), string, array and object, and a schema with type accepts it iff that type (or \"integer\" for integral numbers) is listed.",
 ["inputs"],"all numbers (any representation, sign, magnitude with exponent up to 10^6) x all combinations of the numeric and type keywords in every draft",
 "The suite samples a few dozen small numbers per keyword; equality of representations, sign, boundary and precision classes combine into a space it does not touch.",
 ["validation.go","schema.go","utils.go","schemaType.go"],[("big.Rat arithmetic","validateNumber, checkJSONInteger, mustBeNumber"),("type gate","validateRecursive, jsonSchemaType.Contains")],observe=API)
p("C02","String assertions count code points and search the pattern anywhere",
 "A string satisfies minLength/maxLength iff its number of Unicode code points is within the limits, and satisfies pattern iff the regular expression matches somewhere in it (patterns are not implicitly anchored). Strings of every length and alphabet are treated alike, and these keywords never affect values that are not strings.",
 ["inputs"],"all strings over all of Unicode x all limits x all regular expressions in the common RE2/ECMA subset",
 "The suite uses ASCII strings of at most a handful of characters plus one emoji case.",
 ["validation.go","schema.go"],[("utf8.RuneCount","validateString"),("regexp.MatchString","validateString, parseSchema pattern")],observe=API)
p("C03","enum, const and uniqueItems use JSON value equality",
 "Two JSON values are equal iff they have the same type and: equal mathematical value (numbers, independent of notation and without loss of precision), the same code points (strings), pairwise equal elements in order (arrays), or the same member names with equal values in any order (objects). enum accepts exactly the values equal to a listed one, const exactly the values equal to its operand, and uniqueItems exactly the arrays without two equal elements.",
 ["inputs"],"all pairs of JSON values, nested arbitrarily, in any notation and member order, at any distance inside an array",
 "Tests compare a few scalar and shallow values; equality is a relation over all pairs and all nesting/notation choices.",
 ["validation.go","schema.go","utils.go"],[("canonical marshalling","marshalWithoutNumber"),("string set membership","isStringInSlice, stringifiedItems in validateArray")],observe=API)
p("C04","Array assertions hold for every element position",
 "For arrays of every length: a single items schema constrains every element, a list of item schemas constrains the elements at the same positions and additionalItems (boolean or schema) every element after them, contains (draft 6 and later) requires at least one matching element, and minItems/maxItems bound the length; nothing else about the array matters and non-arrays are unaffected.",
 ["inputs"],"all arrays (any length, any element values) x all combinations of the array keywords",
 "Tests use arrays of at most a few elements; position and length arithmetic must hold for all lengths.",
 ["validation.go","schema.go"],[("positional walk","validateArray"),("items/additionalItems parsing","parseSchema")],observe=API)
p("C05","Object assertions apply to exactly the right members",
 "For every object: properties constrains the members of that exact name; every patternProperties entry constrains every member whose name it matches; additionalProperties (boolean or schema) constrains exactly the members covered by neither; propertyNames (draft 6 and later) constrains every name; required, minProperties and maxProperties constrain the set of names; dependencies (name list or schema) constrain the object exactly when the triggering member is present, whatever its value. Member order, unusual names and non-objects make no difference.",
 ["inputs"],"all objects (any member names and values, any size) x all combinations of the object keywords, overlapping patterns included",
 "The suite checks each keyword nearly in isolation with 1-3 members; the partition of members between the three property keywords must hold for all combinations.",
 ["validation.go","schema.go"],[("member partition","validateObject, validatePatternProperty, propertiesChildren loop in validateRecursive"),("dependencies","validateSchema, parseDependencies")],observe=API)
p("C06","Combinators obey their boolean meaning, to any nesting depth",
 "allOf accepts iff all, anyOf iff at least one, oneOf iff exactly one of its subschemas accepts; not accepts iff its operand does not; with if (draft 7), then decides when the condition accepts and else when it does not, an absent branch accepting; the schema true (and {}) accepts everything and false nothing. Keywords in one schema object act as a conjunction, and the verdict of a subschema never depends on where it is nested or on errors found elsewhere.",
 ["inputs"],"all schema trees over the combinators, to any depth and width x all instances",
 "Verdicts compose: the suite checks depth one or two with two branches; short-circuiting, score keeping and error merging interact at greater depth.",
 ["validation.go","schema.go"],[("subValidateWithContext isolation","validateSchema"),("boolean schema shortcut","validateRecursive pass")],observe=API)
p("C07","$ref means exactly the schema its URI designates",
 "A $ref is resolved against the base URI set by the enclosing id/$id keywords and document location, and validates exactly like the designated schema: a location reached by JSON pointer (with ~ and % escapes), an embedded schema with an id or plain-name fragment, or another document's root or part, and keywords beside $ref are ignored. Recursive and mutually recursive references work for instances of any depth, and a reference that designates nothing makes compilation fail.",
 ["inputs","configurations"],"all schema graphs over several documents (any base URI nesting, any reference form, cycles included) x all instances",
 "Tests contain some twenty hand-made reference shapes; resolution must hold for every combination of base-URI scope, reference form, traversal order and cycle.",
 ["schemaPool.go","schema.go","schemaReferencePool.go"],[("reference rewriting","parseReferencesRecursive"),("lookup","schemaPool.GetDocument"),("cycle cut","schemaReferencePool, parseReference")],
 state=[("schemaPoolDocuments","absolute URI -> document part and its draft","schemaPool.go"),("referencePool","absolute URI -> compiled schema","schemaReferencePool.go")],observe=["SchemaLoader.Compile error","Schema.Validate result"])
p("C08","The effective draft selects exactly that draft's keywords",
 "With AutoDetect on, a document whose $schema names draft 4, 6 or 7 is interpreted by the rules of that draft, wherever it is referenced from; otherwise the draft configured on the loader (hybrid by default) or, for a referenced document without known $schema, the draft of the referring schema applies; with AutoDetect off $schema has no influence. In a strict draft, keywords and keyword forms it does not define (boolean schemas, const, contains, propertyNames, if/then/else, numeric or boolean exclusive limits, $id versus id) have no effect or are rejected as that draft demands, while hybrid mode supports all of them.",
 ["inputs","configurations"],"all (AutoDetect, Draft) settings x all $schema values x all documents and cross-draft reference graphs",
 "The only draft tests cross two fixed documents; every keyword times every draft times every reference path is out of their reach.",
 ["draft.go","schemaLoader.go","schemaPool.go","schema.go"],[("detection","parseSchemaURL, SchemaLoader.Compile"),("draft inheritance","parseSchema, parseReference")],
 state=[("subSchema.draft","draft in force for a schema","subSchema.go")],observe=["Compile error","Validate result"])
p("C09","Compilation accepts exactly the well-formed schemas",
 "Compiling succeeds iff the root and every schema reachable from it (through any keyword of the draft, definitions, or references) is well-formed: every keyword of the draft has an operand of the prescribed type and range, valid regular expressions, known and distinct types, distinct required and enum entries, no minimum length or property count above the maximum. A malformed operand anywhere is always reported as an error rather than ignored, unknown keywords and keywords of other drafts are ignored whatever their operand, and the outcome does not depend on member order.",
 ["inputs"],"all JSON values used as schemas, in every draft; every keyword, operand type and position, at any depth",
 "Only a handful of malformed schemas is tested; the product of keyword, operand type, draft and position is in the thousands.",
 ["schema.go","schemaType.go","utils.go"],[("operand checks","parseSchema, parseProperties, parseDependencies, jsonSchemaType.Add")],observe=["NewSchema / SchemaLoader.Compile error"])
p("C10","Meta-schema validation accepts exactly what the meta-schema accepts",
 "With Validate on, adding or compiling a schema fails iff it does not satisfy its meta-schema (the published draft 4, 6 or 7 meta-schema, the one named by $schema, or the configured draft's; none in hybrid mode without $schema), besides the errors reported without it. The shipped meta-schemas accept and reject the same documents as the published ones, meta-schema validation is on for every later call until the user turns it off whatever earlier calls returned, and it never changes what an accepted schema means.",
 ["inputs","histories"],"all JSON values used as schemas x drafts x sequences of add/compile calls, including failing ones",
 "The suite only compiles schemas that are valid; rejections and call sequences are almost untested.",
 ["schemaLoader.go","draft.go"],[("nested compile","validateMetaschema"),("embedded meta-schemas","draft.go drafts")],
 state=[("SchemaLoader.Validate","meta-schema validation switch","schemaLoader.go")],observe=["AddSchema / AddSchemas / Compile error"])
p("C11","A schema loader behaves as a registry of identified documents",
 "After AddSchema(url, s) references to url, and after AddSchema or AddSchemas references to every id declared in s, designate s or the declaring part, for all schemas compiled later with that loader, regardless of the order in which documents were added and without fetching them. Adding a document under an identifier that is already bound fails and never changes what the existing identifier designates; a schema once compiled keeps its meaning whatever is added or compiled afterwards.",
 ["histories"],"all sequences of AddSchema, AddSchemas, Compile and Validate calls on one loader",
 "Tests run three fixed two-step histories.",
 ["schemaLoader.go","schemaPool.go"],[("pool registration","parseReferences, parseReferencesRecursive"),("duplicate detection","parseReferences")],
 state=[("schemaPoolDocuments","identifier -> document","schemaPool.go")],observe=["AddSchema / AddSchemas / Compile error","Validate result of every compiled schema"])
p("C12","Errors report every violated assertion at its exact location",
 "For an invalid instance the errors are exactly one per violated assertion of the schemas applied to each part of the instance: each with the right type, the path of the offending value as context and field, that value, and the details documented for the error type; errors of failed subschemas are included according to their combinator and those of satisfied anyOf, oneOf, contains, not and if subschemas never appear. Valid() is true iff there are no errors, and the multiset of errors is the same on every run.",
 ["inputs"],"all schema/instance pairs",
 "Tests look at error contents in about five places; a wrong path, value, detail or a lost or duplicated error passes the suite.",
 ["validation.go","result.go","errors.go","jsonContext.go"],[("context list","NewJsonContext chain in validateRecursive/validateArray/validateObject"),("error construction","addInternalError, newError, mergeErrors")],observe=["Result.Errors(): Type, Context, Field, Value, Details, dynamic Go type"])
p("C13","Failed alternatives report the closest match, completely",
 "When anyOf fails, when no oneOf alternative matches, or when no element satisfies contains, the errors of exactly one alternative (element) follow the summary error, all of them and of no other alternative: the one with the best score, where satisfied checks raise and violated ones lower the score, the first one winning ties. When more than one oneOf alternative matches, only the summary error is reported.",
 ["inputs"],"all anyOf/oneOf/contains nestings x all instances failing them",
 "No test looks at which alternative is reported.",
 ["validation.go","result.go"],[("scoring","Result.score, incrementScore, mergeErrors"),("selection","bestValidationResult in validateSchema and validateArray")],observe=["Result.Errors()"])
p("C14","Messages are the locale's templates filled with the error's details",
 "Every reported error's description is the template its locale defines for that error type with the error's own details substituted (field and context included), its string form is the locale's error format filled with field, context, value and description, and a custom locale or template function is honoured for every error type. Result.AddError appends the given error unchanged apart from a description rendered from its own description format and the given details, and makes the result invalid.",
 ["inputs","histories"],"all errors of all types, all locales, all orders in which templates are first used",
 "One message is compared literally by the tests; the template cache is shared, keyed state across all errors.",
 ["errors.go","locales.go","result.go"],[("template cache","formatErrorDescription, errorTemplates"),("error to template mapping","newError")],
 state=[("errorTemplates","template text -> parsed template","errors.go")],observe=["ResultError.Description, DescriptionFormat, String, Details"])
p("C15","Validation is a pure function of schema and instance",
 "Validating a document never changes the compiled schema, the document, earlier results or any later outcome: every Validate call on a schema gives the same verdict and errors for equal documents, whatever was validated before, in whatever order and however often, and results stay unchanged once returned.",
 ["histories"],"all sequences of validations (valid and invalid, repeated and interleaved over several schemas)",
 "Tests validate each document once; state leaking between calls only shows in longer histories.",
 ["validation.go","result.go","schema.go"],[("fresh Result per call","validateDocument, subValidateWithContext"),("immutable schema tree","subSchema")],observe=["Validate results, re-read after later calls","the document passed through a raw loader"])
p("C16","Concurrent use equals some sequential use",
 "Any number of goroutines may validate with the same compiled schema, compile different schemas and add, remove or query format checkers at the same time: every call returns what it would return in some sequential order of the calls consistent with real time, without data races, crashes or deadlock. A format checker may itself block, validate, or use the format registry without blocking other callers.",
 ["schedules"],"all interleavings of concurrent Validate, NewSchema and FormatCheckers calls, including calls made from inside format checkers",
 "The suite is single-threaded.",
 ["format_checkers.go","errors.go","validation.go"],[("registry lock released before the checker runs","FormatCheckerChain.IsFormat/Has/Add/Remove"),("template cache lock","formatErrorDescription")],
 state=[("FormatCheckers.formatters","format name -> checker","format_checkers.go"),("errorTemplates","template cache","errors.go")],observe=["call results and their real-time order","race detector reports"])
p("C17","The format registry decides format, at validation time",
 "A value satisfies format iff no checker is registered under that (non-empty) name at the time of validation or the registered checker accepts the value, whatever the type of the value; Add makes a checker (also one replacing a default) effective for all schemas including those compiled earlier, Remove makes the name unknown again, and Has tells whether a checker is registered. The checker receives the instance value exactly as decoded.",
 ["histories","inputs"],"all sequences of Add, Remove, Has, compile and validate over any names and checkers",
 "One fixed registration sequence is tested.",
 ["format_checkers.go","validation.go"],[("dynamic lookup","FormatCheckerChain.IsFormat, validateCommon")],
 state=[("FormatCheckers.formatters","format name -> checker","format_checkers.go")],observe=["Validate result","FormatCheckers.Has / IsFormat"])
p("C18","Built-in formats accept exactly their documented languages",
 "The built-in checkers for date, time, date-time, ipv4, ipv6, hostname, uuid, json-pointer, relative-json-pointer, regex, email, uri, uri-reference, uri-template and their internationalized aliases accept every string of the documented grammar (calendar-correct dates, ranges of time fields and offsets, label and total lengths of host names, compression rules of addresses) and reject strings outside it; all of them accept every value that is not a string. Strings on which the published grammar and common practice differ (leap seconds, display names in e-mail addresses and the like) are left open.",
 ["inputs"],"all strings, with the boundary of each grammar as the critical region",
 "Tests sample about five strings per format, and the format suite does not even run reliably.",
 ["format_checkers.go"],[("checkers","*FormatChecker.IsFormat and their regular expressions")],observe=["FormatCheckers.IsFormat","Validate with format"])
p("C19","All loaders deliver the same document, or an error",
 "For the same JSON text, loading a schema or document from a string, bytes, reader, writer, Go value, decoded value, file or HTTP reference leads to the same compilation outcome, verdict and errors, with numbers kept at full precision and files found under the percent-decoded path of their URL. If the text is not JSON, a file or server is unavailable, or a server answers with a status other than 200, the call returns an error, never a verdict.",
 ["inputs","fault_sequences"],"all JSON texts x all loader kinds x all load failures",
 "Three loaders are compared on one schema; failures are not tested.",
 ["jsonLoader.go"],[("decoding","decodeJSONUsingNumber"),("reference loading","loadFromFile, loadFromHTTP, LoadJSON")],observe=["LoadJSON, Compile, Validate results for each loader"])
p("C20","Documents are fetched only when needed, once, and released",
 "Compiling fetches exactly the documents that are designated by reachable references and neither added before, fetched before by the same loader, nor a built-in meta-schema, each once and through the file system of the loader of the root schema; validating fetches nothing. A failed fetch fails the compilation, an added or previously fetched document is never fetched again, and every opened file and response body is closed.",
 ["histories","fault_sequences"],"all call histories and reference graphs over local, remote and added documents, with any subset of fetches failing",
 "Tests never observe file or network accesses.",
 ["schemaPool.go","jsonLoader.go","schemaLoader.go"],[("pool lookup before load","GetDocument"),("loader factory","schemaPool.jsonLoaderFactory"),("embedded meta-schemas","loadFromHTTP")],
 state=[("schemaPoolDocuments","documents known to the loader","schemaPool.go")],observe=["requests seen by http.DefaultTransport and http.FileSystem, closing of bodies and files"])
p("C21","No JSON input can crash compilation or validation",
 "For every JSON value used as a schema (reference cycles that never descend into the instance excepted, which JSON Schema leaves undefined) and every JSON value used as an instance, in every draft and with meta-schema validation on or off, compiling and validating return normally with a result or an error and never panic or run forever.",
 ["inputs"],"all pairs of JSON values as schema and instance, including extreme numbers, nesting and sizes",
 "Tests only feed reasonable schemas.",
 ["schema.go","validation.go","utils.go","schemaPool.go"],[("type checks before assertions","isKind guards in parseSchema"),("nil checks of parsed numbers","mustBeNumber users")],observe=["return of Compile and Validate"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
