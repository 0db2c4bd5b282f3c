#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

BC='bytecode/bytecode.go'; RE='resolver.go'; PA='parse.go'
p('C01','Parsing any bytes terminates with a program or errors, never a crash',
  'For every byte sequence offered as a query document, parsing returns normally: no panic, no endless loop, and either no errors or a non-empty list of errors whose reported positions lie inside the document. Parsing the same bytes again on the same or a fresh parser gives the same verdict.',
  ['inputs'],'every byte string used as the query document (any bytes, including NUL, invalid UTF-8 and truncated constructs), on a fresh or reused parser',
  'The parser tests feed a few dozen well-formed documents and a handful of malformed ones; a crash needs one particular byte at one particular place of a construct.',
  [BC],[('recursive-descent parser','bytecode/bytecode.go: ParseQueryToBytecode, parseOperatorOrFragment, parseSelectionSet, parseAssignmentSet, parseInputValue'),('error position','bytecode/bytecode.go: err / ErrorWLocation')])
p('C02','Every request gets a well-formed JSON response and never a crash',
  'For every query document and every variables document, executing the request returns normally and writes one syntactically valid JSON object with a data member; the errors member is present exactly when errors were reported. This holds also for failing, partially failing and hostile requests.',
  ['inputs'],'every query document and variables document against a schema covering scalars, lists, structs, pointers, methods, enums, interfaces, ids, times and errors',
  'Tests check the response of some sixty fixed documents; malformed output appears only for particular combinations of a failing argument, an alias, a directive or a list position.',
  [RE],[('response writer','resolver.go: Resolve, resolveSelectionSet, resolveField, resolveFieldDataValue'),('argument binding','resolver.go: bindInputToGoValue, bindJSONToValue')])
p('C04','String and block-string arguments reach the resolver exactly as written',
  'For every valid string literal the resolver receives exactly the text the literal denotes: simple escapes, \\uXXXX escapes, raw UTF-8 and control characters written by escape, regardless of which other arguments, list elements or object members surround it; block strings keep every character other than indentation and surrounding blank lines. Invalid escapes and unterminated strings are rejected with an error and the resolver is not called with a guessed value.',
  ['inputs'],'every sequence of literal characters and escapes inside a quoted string or block string, in any argument position',
  'Tests decode a few escape sequences; a wrong nibble, a terminator inside the data or a length slip shows only for particular code points and positions.',
  [BC,RE],[('literal scanner','bytecode/bytecode.go: parseInputValue string branch, unicode escape decoding'),('value reader','resolver.go: bindInputToGoValue string case, getValue helpers')])
p('C05','Integer and boolean arguments arrive exactly or are rejected',
  'For every integer written in a literal, a list, a variable, a default value or an ID, and for every destination width and signedness, the resolver receives exactly that integer, or the request is rejected with an error; a value is never truncated, wrapped or changed in sign. Values of the wrong kind are rejected (a number for a boolean may be coerced), and true/false reach the resolver unchanged.',
  ['inputs'],'every integer literal and JSON number up to the stated number of digits, for int/int8..int64/uint..uint64, in literals, lists, input objects, ids and variables',
  'Tests use the number 3; truncation happens only at the boundary of one width through one of several conversion paths.',
  [RE],[('literal binding','resolver.go: bindInputToGoValue'),('variable binding','resolver.go: bindJSONToValue'),('id binding','resolver.go: bindInputToGoValue/bindJSONToValue id branches')])
p('C06','Insignificant formatting never changes the meaning of a document',
  'White space, line breaks, commas and comments placed between tokens of a valid document never change the outcome: the same data and the same success or failure are produced as for the compact spelling. A byte that is not insignificant is never silently skipped.',
  ['inputs','programs'],'every insertion of white space, comma, line break or comment at any token boundary of documents covering all grammar constructs',
  'Tests use one formatting per document; there are hundreds of token boundaries each with several kinds of filler.',
  [BC],[('ignored tokens','bytecode/bytecode.go: mightIgnoreNextTokens, parseComment, isIgnoredToken'),('token readers','bytecode/bytecode.go: parseAndWriteName, matches')])
p('C07','The response mirrors the selection: names, aliases, order, nesting and values',
  'For every selection over existing fields the response object contains exactly the selected response keys in order of selection, with aliases applied, nested to the same depth, and each leaf carries the value held by the Go value behind it; lists have one entry per element in order. Nothing that was not selected appears.',
  ['programs','inputs'],'every selection set up to the stated size and depth over a schema of structs, pointers, lists, methods and scalars, with and without aliases',
  'Tests pick a few selections; mix-ups of position, alias or nesting need particular combinations and orders.',
  [RE],[('selection walk','resolver.go: resolveSelectionSet, resolveField'),('value walk','resolver.go: resolveFieldDataValue')])
p('C08','Unknown names are errors and never resolve to something else',
  'A field, argument, input member, enum value, directive, fragment or type name that the schema or document does not define is always reported as an error, whatever its spelling; it never silently resolves to another item. A defined name always resolves to its own item.',
  ['inputs'],'every name of up to the stated length, in each position where a name is looked up',
  'Lookup goes through hashes, prefixes and lengths; a confusion needs a colliding or prefix-related name that no test author writes by chance.',
  [RE,BC],[('field lookup','resolver.go: resolveField, parse.go: getObjKey'),('argument and directive lookup','resolver.go: walkInputObject callers, directives.go'),('fragment lookup','resolver.go: resolveSpread')])
p('C09','A fragment behaves as if its selection were written in place',
  'Spreading a named or inline fragment gives the same data as writing its fields at that position when its type condition names the object type at hand, and contributes nothing otherwise; the fragment used is the one with exactly the spread name. Fragments that spread themselves, directly or through others, give an error and never an endless execution.',
  ['programs'],'documents with up to the stated number of fragments, with arbitrary names, conditions, nesting and spread positions',
  'Tests contain a handful of fragments with unrelated names; name-prefix confusion, ordering and cycles need specific sets of definitions.',
  [RE,BC],[('spread resolution','resolver.go: resolveSpread'),('fragment table','bytecode/bytecode.go: FragmentLocations')])
p('C10','@skip and @include decide exactly whether a field or fragment appears',
  'A field, inline fragment or spread is present exactly when every @include condition on it is true and no @skip condition on it is true, for conditions given as literals or variables, alone or combined, with or without arguments and alias, on every kind of item. A condition that is not a boolean is an error.',
  ['programs','inputs'],'every combination of up to two directives with literal or variable conditions on each selectable kind of item',
  'Tests check a few single directives; combinations with arguments, aliases, variables and sub-selections are not sampled.',
  [RE,'directives.go',BC],[('directive evaluation','resolver.go: resolveField/resolveSpread directive handling'),('directive definitions','directives.go')])
p('C11','Variables, defaults and null behave as the literal would',
  'Supplying an argument through a variable has the same effect as writing the value literally; an absent variable takes its declared default, an explicit null leaves the argument unset, and an absent variable without default is an error or leaves it unset. Variables whose declared type does not fit, or undeclared variables, give an error.',
  ['inputs'],'every provided/absent/null/default combination and every value within bounds, for scalars, lists, input objects and enums',
  'Tests use about ten variable set-ups; the literal and the variable path are two separate implementations whose agreement is never compared.',
  [RE],[('variable substitution','resolver.go: bindInputToGoValue variable branch'),('JSON binding','resolver.go: bindJSONToValue')])
p('C12','The operation that runs is the one the request names',
  'With an operation name, exactly the operation with that exact name runs, against the query root for a query and the mutation root for a mutation; an unknown name is an error and runs nothing. Without a name the last operation runs. No operation other than the selected one has any effect.',
  ['inputs','programs'],'documents with up to three operations of symbolic names and kinds, and every requested operation name up to the stated length',
  'Tests select one fixed name; prefix-related names and order of definitions are not sampled.',
  [BC,RE],[('target selection','bytecode/bytecode.go: parseOperatorOrFragment/TargetIdx'),('root selection','resolver.go: resolveOperation')])
p('C13','A request is not influenced by the requests before it',
  'Executing a request on a schema that has already served any history of requests, successful or not, gives the same data and errors as on a freshly built schema. No argument, variable, error, fragment or nesting state leaks from one request into another.',
  ['histories','inputs'],'every pair or triple of requests drawn symbolically from a family covering all features, including failing and truncated ones',
  'The parser and executor reuse their buffers and contexts; tests run one request per schema, so leftovers never meet a second request.',
  [RE,BC],[('context reuse','resolver.go: Resolve, ctx reset'),('parser reuse','bytecode/bytecode.go: ParseQueryToBytecode reset')])
p('C14','Answering from the parsed-query cache is unobservable',
  'A request answered with the help of the parsed-query cache gives the same response as without it, for every history of requests, operation names and cache rules. Documents that merely share a hash, a length or a prefix with a cached one are never confused with it.',
  ['histories','inputs'],'histories of up to four requests with symbolic documents and operation names, with caching always on versus off',
  'Caching only starts for long documents, so most tests never touch it; one test checks a single stored entry.',
  ['bytecode/cache/bytecode_cache.go',BC],[('cache','bytecode/cache/bytecode_cache.go: GetEntry, SetEntry'),('use','bytecode/bytecode.go: ParseQueryToBytecode cache branch')])
p('C15','A copied schema answers alike and shares no mutable state',
  'A copy of a schema gives the same response to every request as the original, including introspection, tracing and configured limits. Serving requests on, or reconfiguring, either of them never changes what the other answers.',
  ['histories','inputs'],'every request of a symbolic family, on original and copy in either order, after symbolic configuration steps',
  'Tests copy a schema once and run one introspection; shared maps and pointers show only in interleaved use.',
  ['copy_schema.go'],[('copy','copy_schema.go: Schema.Copy, obj.copy, qlType.copy'),('per-request state','resolver.go: Ctx')])
p('C16','The nesting limit is enforced for every shape of query and data',
  'With a configured maximum depth, a query nested deeper than the limit is answered with an error and without running resolvers below the limit, whatever mix of structs, lists, pointers, interfaces, methods and fragments produces the nesting; a query within the limit is never refused. The largest limits work as well as small ones: queries nested hundreds of levels deep neither crash nor change other values.',
  ['inputs','programs','configurations'],'every limit up to the stated bound and every nesting shape up to the stated depth',
  'One test checks one limit on plain structs.',
  [RE],[('depth guard','resolver.go: resolveSelection depth check'),('value stack','resolver.go: reflectValues')])
p('C17','String output is valid JSON that decodes to the original text',
  'For every Go string a resolver returns, the response contains a JSON string literal that decodes to exactly that text, and the text can never end the literal early or add members to the response. Invalid UTF-8 is carried or replaced but never breaks the literal.',
  ['inputs'],'every byte string up to the stated length, as field value, list element, map of errors and error message',
  'Tests encode about ten strings; there are 2^32 code-point/position combinations at encoder state boundaries.',
  ['helpers/encodeString.go',RE],[('encoder','helpers/encodeString.go: StringToJson')])
p('C18','Integers, booleans, ids and enum values are output exactly',
  'Every integer, boolean, id or enum value a resolver returns appears in the response exactly, for every width and sign; ids are quoted and carry the same digits or text. An enum value given as argument reaches the resolver as the Go value registered for exactly that name and is written back under the same name.',
  ['inputs'],'every value of every integer width, both booleans, every registered enum value and every enum name up to the stated length',
  'Tests output a few small numbers and three enum values.',
  [RE,'enums.go'],[('leaf output','resolver.go: resolveFieldDataValue number/bool/id branches'),('enum maps','enums.go: registerEnum, getEnumVal')])
p('C19','Times survive the round trip and denote the same instant',
  'A time value returned by a resolver is written in the documented format and denotes the same instant (to the written precision) whatever its zone; a time argument in that format reaches the resolver as exactly the instant written. Texts that are no time are rejected.',
  ['inputs'],'every calendar date/time of the years 0..9999 with whole-minute zone offsets, and every argument string up to the stated length',
  'One test formats one UTC time.',
  ['helpers/time.go',RE],[('format','helpers/time.go: TimeToIso8601String, ParseIso8601String'),('time leaf','resolver.go')])
p('C20','Errors carry the right path and leave the rest of the answer intact',
  'When resolvers fail, each failure (an error returned by a resolver, or a context that has ended) is reported exactly once with its message and the response path of the failing field (aliases and list positions included), the failing field becomes null, and every field that did not fail has the value it would have had otherwise.',
  ['inputs','fault_sequences'],'every subset of failing resolvers over a query with nesting, lists, aliases and fragments',
  'Tests have one failing field at a time.',
  [RE],[('error recording','resolver.go: ctx.err, GetPath'),('path stack','resolver.go: ctx.path')])
p('C21','The HTTP entry point answers like a direct request, for every transport',
  'A query submitted as URL parameters, JSON body, form fields or element of a JSON batch gives the same result as executing it directly with the same query, operation name and variables. A malformed body gives a well-formed error response, and a batch has one answer per element in order.',
  ['inputs'],'symbolic method, content type, query, operation name and variables, batches of up to three elements, and arbitrary short bodies',
  'Tests send one fixed query per transport.',
  ['implement_helpers.go'],[('transport decoding','implement_helpers.go: HandleRequest, getBodyData')])
p('C22','Introspection describes exactly what can be queried',
  'For every registered schema, a field, argument, input member, enum value or interface is listed by introspection exactly when a request can use it, with the named type and list structure that is enforced; repeated introspection, in any order of questions, gives the same answer.',
  ['programs','histories'],'every pair of introspection questions on several schemas and every name reported or not reported by them',
  'Tests check a few type names and counts and never compare the answer with executability, nor ask twice.',
  ['inject_schema.go','grahql_types.go'],[('introspection builder','inject_schema.go: injectQLTypes, objToQlTypeName'),('type model','grahql_types.go')])
p('C23','Values handed to resolvers stay valid after the request',
  'Any string, slice or struct a resolver receives as argument and keeps is never changed by later requests on the same schema, whether it came from a literal, a variable, a default or an id.',
  ['histories','inputs'],'every pair of requests with symbolic argument contents, through each argument path',
  'Resolvers in the tests use their arguments at once; retention needs a second request.',
  [RE],[('argument conversion','resolver.go: bindInputToGoValue/bindJSONToValue, b2s')])
p('C24','Request values and context reach resolvers and do not leak',
  'A value stored in the request context by the caller or by a resolver is what later resolvers of the same request read, under the same key only, also when no request context was supplied; it is gone in the next request; a batch or single request over HTTP hands them on alike.',
  ['histories','inputs'],'every sequence of up to three set/get/context operations with symbolic keys over one or two requests',
  'Tests set one value and read it back once.',
  [RE],[('values','resolver.go: Ctx.GetValue/SetValue, GetContext/SetContext')])
p('C25','Reported syntax errors point at the offending byte',
  'For every rejected document, each reported line and column designate a position inside the document (or its end), lines and columns count from one: lines by line breaks before it, columns by bytes since the last line break. A document with one wrong byte gives exactly one error, at that byte. Inserting filler lines before the document moves reported lines by exactly that number.',
  ['inputs'],'every document up to the stated length with symbolic line breaks',
  'Tests never look at positions.',
  [BC],[('position','bytecode/bytecode.go: err')])
p('C26','Fields marked as ignored are never exposed',
  'A Go field or method excluded from the schema by its tag, or because it is unexported, can never be read, set as argument or seen in introspection, however it is requested; renamed fields are reachable only under their new name.',
  ['inputs','programs'],'every field and argument name up to the stated length against structs with ignored, renamed, embedded and hidden members',
  'Tests check a couple of names for one struct.',
  [PA],[('tag parsing','parse.go: parseFieldTagGQ, checkStructFieldFunc')])
p('C27','File arguments deliver exactly the named upload',
  'A file argument is delivered as the upload with exactly the given form name, by literal or variable; if uploads are unavailable or the name is unknown the request fails with an error and never a crash.',
  ['inputs'],'every form name up to the stated length, with and without a file source, by literal and variable',
  'One test uploads one file by literal.',
  [RE],[('file binding','resolver.go: bindInputToGoValue/bindJSONToValue file branch')])
p('C28','Interface values resolve to their registered implementation',
  'A value behind an interface is answered with the fields of its own registered type and that type\'s name, for every mix of implementations in lists and nested positions; nil or unregistered implementations give null (a pointer to an implementation gives null or the answer of the value). Type-conditioned fragments contribute exactly for the matching implementations.',
  ['inputs','programs'],'every assignment of implementations (value, pointer, nil, unregistered) to fields and list elements and every selection up to the bound',
  'Tests use one implementation per query.',
  ['interfaces.go',RE],[('dispatch','resolver.go: interface branch'),('registration','interfaces.go')])
p('C30','Tracing never changes the answer',
  'Turning request tracing on adds the tracing extension and changes nothing else: data and errors are identical, for every request, and turning it off removes it again. The trace has exactly one entry for each resolved field, with its path, parent type, name and return type, and the span of a field holds those of the fields below it.',
  ['inputs','configurations'],'every request of a symbolic family, tracing on or off, in any order',
  'One test asserts that a tracing member exists.',
  ['apollo_tracing.go',RE],[('tracing','apollo_tracing.go; resolver.go: Resolve, resolveField')])
p('C31','Lists, input objects and nested arguments arrive structurally intact',
  'Every list or input object given as argument reaches the resolver with the same shape: each element and member at its place with its value, absent members untouched, nulls as nil, for any nesting; arguments written after it are received as well.',
  ['inputs','programs'],'every nesting of lists, nulls, objects and scalars up to the stated depth and length, literal or variable, in any argument order',
  'Tests pass one flat list and one object as the last argument.',
  [RE],[('composite binding','resolver.go: bindInputToGoValue list/object cases, walkInputObject')])
p('C29','Floats are read and written as the same number',
  'Every finite float a resolver returns, of 32 or 64 bits and at any place of an answer, is written as a JSON number that reads back as the same float, and a value that is not finite never produces an invalid document. Every float argument, in a document, a variable or a default, reaches the resolver as the float nearest to the number written, or the request fails if the destination cannot hold it.',
  ['inputs'],'every 32- and 64-bit float and every spelling of one',
  'Tests encode and decode a few floats.',
  ['helpers/encodeFloat.go','resolver.go'],[('encoder','helpers/encodeFloat.go: FloatToJson'),('arguments','resolver.go: bindInputToGoValue, bindJSONToValue')])
p('C32','Concurrent use of separate copies is safe',
  'Requests running at the same time on separate copies of one schema never influence each other\'s answers and never race for memory, also while further copies are made from a schema that is idle or other schemas are built.',
  ['schedules'],'every interleaving of requests on two or more copies',
  'The tests run one request at a time.',
  ['copy_schema.go'],[('copy','copy_schema.go: Schema.Copy')])
p('C33','Every supported resolver form gets its own arguments and gives its own result',
  'Whatever the order of a resolver\'s parameters (context, one or several argument structs) and results (value, error, id mark), and whether it is a method, a function in a field, or belongs to an anonymous or renamed type, each argument of the request reaches the parameter it belongs to, the context is the one of the request, the value, the error and the id mark are taken from the right result, and nil functions are null. Anonymous types and types of equal structure are never taken for one another.',
  ['programs','inputs'],'every supported order of parameters and results, every subset of given arguments, every error pattern, on a schema and its copy, with free values',
  'Tests use three or four signatures, nearly always (value, error) with one argument struct.',
  [PA,RE,'copy_schema.go'],[('signature analysis','parse.go: checkFunction, checkFunctionIns'),('call','resolver.go: resolveField method branch, reflect call'),('anonymous types','parse.go: check, checkFunctionInput')])
p('C34','Registration accepts exactly what works, and types of one name are never confused',
  'Every enum, directive and type name that registration accepts works in requests under exactly the registered name and is listed by introspection; what no request could use, and what is no enum or directive at all, is refused with an error (a panic for TypeRename and Implements) and leaves nothing behind. Go types that merely share their bare name, from different packages or functions or by renaming, are never taken for one another: each keeps its own fields, members, values and implementations, or building the schema gives an error.',
  ['inputs','configurations'],'every key and name up to the stated length, every kind of Go value offered for registration, and pairs of types of one name in every role',
  'Tests register a few well-formed names in one package; a clash needs two packages, and an unusable name needs one particular spelling.',
  ['enums.go','directives.go','type_rename.go','interfaces.go',PA],[('enum registration','enums.go: RegisterEnum, registerEnumCheck, getEnum'),('directive registration','directives.go: RegisterDirective, checkDirective'),('type identity','parse.go: check, checkFunctionInput; interfaces.go: Implements; type_rename.go: TypeRename')])
p('C35','The schema assertions of the tester package agree with the schema',
  'For every type name, GetTypeByName, HasType and TypeKind find a type exactly if the schema has one of that name, with its kind and its fields; for every list of field names HasFields accepts exactly the lists whose names are all fields of the type and OnlyHasFields exactly those that moreover name all of them; types without fields and names that are no types are refused. Asking never changes the answer to a request.',
  ['inputs'],'every type name and list of field names up to the stated length against a schema with types of every kind',
  'The tests ask for one type with one field.',
  ['tester/tester.go','inject_schema.go'],[('assertions','tester/tester.go: GetTypeByName, HasFields, OnlyHasFields'),('introspection','inject_schema.go')])
p('C36','Asking for the data alone gives exactly the data of the full answer',
  'For every request, with NoMeta set the result is exactly the text of the data member of the answer the same request gets without it: no member of the envelope, no trace even where tracing is on; the returned errors, what the resolvers are given and the answers of later requests are the same.',
  ['inputs','histories'],'every query document, variables document and operation name up to the stated length, after other requests',
  'The tests use the option in their helper, and never compare it with a full answer of a failing or traced request.',
  [RE],[('envelope','resolver.go: Resolve')])
p('C37','The same declarations always give the same schema and the same answers',
  'Building, copying and asking a schema is deterministic: whatever order the maps of Go happen to iterate in, schemas built from the same declarations give byte for byte the same answers, introspection included.',
  ['schedules','inputs'],'every combination of forward and backward iteration at the places that go through a map, with every request of the stated kinds',
  'The order of maps is random: a test sees one order per run, and a schema that differs now and then passes nearly always.',
  [PA,'inject_schema.go','copy_schema.go','enums.go','directives.go'],[('maps','parse.go: check; inject_schema.go: getTypes; copy_schema.go: Copy; enums.go: registerEnumCheck')])
p('C38','Building a schema accepts exactly the Go types the library can serve, and never crashes',
  'Whatever Go values are given as queries and mutations, building the schema ends with a usable schema or with an error, never with a crash, an endless recursion or the end of the process. It is refused exactly if a root is no struct or both are of one type, if a member, result or argument that is part of the schema is of a kind that cannot be served there (functions other than resolvers, channels, maps, complex numbers, inline or unimplemented interfaces, interfaces as arguments, lists and pointers that contain only themselves), if a resolver has a shape the library cannot call, or a field tag names no name or an unknown modifier; ignored members never matter. In an accepted schema every member has exactly the name its tag or method name says, is listed by introspection and can be asked. A refused schema answers requests with an error, is refused again, and can be built of other types as if nothing had happened.',
  ['programs','configurations'],'every kind of Go type in every role, every resolver shape, tag, method name and pair of roots of the stated families',
  'Tests build schemas from a dozen well-formed types and three bad ones; each combination of a kind and a role is a path of its own.',
  [PA,'inject_schema.go'],[('type check','parse.go: Parse, check, checkStructField, checkFunctionInput'),('resolver shapes','parse.go: checkFunction, checkFunctionIns'),('tags','parse.go: parseFieldTagGQ, validGraphQlName')])
P.sort(key=lambda x:x['id'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
