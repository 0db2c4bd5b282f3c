"""Texts and budgets of the checks (see mkchecks.py)."""
BUDGET={}
RACE={'C32_requests','C32_bytes','C32_copying','C32_http'}
def q(a,b): return 'quick %s, thorough %s'%(a,b)
BOUNDS={
'C01_frames':'about 50 frames (every construct, complete and cut off), hole of 0..2 (thorough 3) bytes of any value, on a fresh and on a used parser.',
'C01_cut':'6 documents with every construct, cut off at every byte or with 0..2 (thorough 0..3) bytes of any value inserted or replaced at every byte.',
'C02_deep':'5 ways of nesting, 13 depths up to 240 (two values per level), one free byte.',
'C02_names':'16 places of a name, lengths 1..78, 255..257, first byte free.',
'C02_frames':'41 frames, hole of 0..2 (thorough 3) bytes of any value.',
'C02_vars':'frames of a variables document for every kind of declared type, hole of 0..1 (thorough 2) bytes of any value.',
'C02_mix':'2 (thorough 3) selections out of a list that holds every failing and succeeding kind.',
'C04_raw':'0..4 (thorough 6) bytes of any value between the quotes.',
'C04_places':'one or two free bytes, or an escape with one or two free digits, in each of the argument places.',
'C04_unicode':'four free hex digits; one byte of any value at each digit; surrogate pairs with five free digits; cut off escapes.',
'C04_block':'0..4 (thorough 6) bytes of any value.',
'C04_blockesc':'up to two free bytes of a set before and after each of the escapes.',
'C04_open':'0..3 bytes of any value behind the opening quote(s).',
'C05_scalar':'every destination width by literal, variable and default; 1..3 (thorough 4) free digits and free digits around the limits of every width, both signs.',
'C05_list':'the same numbers as list elements and object members.',
'C05_odd':'1..3 characters out of 0-9 - + . _ e E x X ".',
'C05_bool':'both words with one byte of any value in every place, and other tokens.',
'C05_kinds':'every pair of value kind and destination kind, by literal and variable.',
'C06_fill':'documents with every construct; at every token boundary one filler out of: one byte of any value, two bytes, a comment with 1 (thorough 2) bytes of any value.',
'C06_tail':'0..3 (thorough 4) bytes of any value in comments in four places.',
'C06_strings':'2 (thorough 3) ignored bytes inside of strings.',
'C07_select':'2 (thorough 3) selections of every kind with free aliases of 1..3 bytes and free values.',
'C07_lists':'lists of 0..4 (thorough 0..8) elements.',
'C07_alias':'aliases of lengths up to 254 with a free byte.',
'C08_field':'names of 1..3 (thorough 4) free bytes.',
'C08_hash':'two (thorough three) free bytes behind prefixes that can reach the hash of a known field.',
'C08_clash':'three schemas with two fields of one hash.',
'C08_arg':'names of 1..2 (thorough 3) free bytes in eight positions.',
'C08_words':'each keyword, directive and fragment name with a byte of any value replaced, or added.',
'C09_errors':'an error of 7 kinds inside 0..3 fragments on 5 fields, twice, against the same fields in place.',
'C09_inline':'a chain of three levels, each item plain, inline, spread or with another condition, on struct, list (thorough: pointer and recursive) fields.',
'C09_name':'a spread of 1..2 (thorough 3) free bytes against definitions of one and of two free bytes.',
'C09_type':'four type names with any byte replaced, removed or added.',
'C09_cycle':'3 (thorough 4) fragments, each spreading any one of them or none.',
'C09_deepcycle':'cycles of one and two fragments below three kinds of fields.',
'C10_conditions':'every kind of item, one or two directives, conditions by literal, variable and default, free booleans.',
'C10_many':'3 (thorough 4) items, flat and nested, with free booleans.',
'C10_bad':'every other kind of value, free names of 2 and 4 bytes for variables, arguments and directives.',
'C10_custom':'a free digit as argument, by literal and variable, on fields and fragments, also combined with @skip.',
'C10_text':'a word of 4..5 free bytes as condition.',
'C11_same':'26 argument types, with one free byte for each text and number and for the variable name.',
'C11_inside':'variables as element and member of lists and objects, free bytes.',
'C11_unset':'26 argument types, null by literal and variable, missing with and without default.',
'C11_wrong':'26 argument types, other declared types, other JSON values, undeclared names of 1..2 free bytes.',
'C12_named':'2 (thorough 3) operations with free names of 1..3 bytes, of either kind, at most one without name; a free target.',
'C12_single':'four heads, free name and value.',
'C12_order':'the order of three fields with effects, free values.',
'C12_subscription':'free name.',
'C13_frames':'41 frames with 1 (thorough 1..2) bytes of any value, then each of the probing requests.',
'C13_history':'2 (thorough 3) requests out of 20, with bytes of any value, over every transport (plain, JSON body, batch, url-encoded, multipart), with values and contexts, then each of the probing requests.',
'C13_values':'four requests with free values, then each of eleven that leave them out.',
'C14_history':'3 (thorough 4) requests out of eight document templates with free bytes, free targets and variables; cache on against cache off.',
'C14_bytes':'documents with one byte of any value replaced, added or inserted.',
'C14_target':'3 (thorough 4) free operation names of 1..2 bytes for one document.',
'C14_evict':'more documents than the cache holds, of one and of different lengths.',
'C14_rules':'three settings of the rules between four requests.',
'C15_frames':'41 frames with 0..1 (thorough 2) bytes of any value.',
'C15_apart':'20 requests and 41 frames with a byte of any value, on either of them, then each probing request including complete introspection.',
'C15_late':'20 requests before and after the copy, copies of copies.',
'C15_limits':'limits 0..7, set before and after the copy on either of them.',
'C15_trace':'requests of 1..4 fields, free alias.',
'C16_limit':'limits 0..8 (thorough 10), chains of 1..4 (thorough 5) items of every kind.',
'C16_siblings':'limits 0..8, pairs of neighbours.',
'C16_deep':'nesting up to 300 levels around the limits 128, 200, 254 and 255.',
'C17_text':'0..3 (thorough 4) bytes of any value at each of the places text is written.',
'C17_long':'two (thorough three) bytes of any value inside of longer texts.',
'C18_small':'all 256 values of the 8 bit types in every position.',
'C18_wide':'all values of the 16 bit types; 256 values (quick 64) around zero and the limits of the 32 and 64 bit types, and around powers of ten.',
'C18_lists':'8 bits of freedom for each number, all enum values, nil pointers.',
'C18_enum':'names of 1..4 free bytes, by literal, variable, default and in lists.',
'C19_arg':'two free digits at every place of three base instants, by literal, variable and default.',
'C19_malformed':'any byte at any place, one byte removed or added.',
'C19_output':'base instants plus 0..2 units and 0..9 ms in zones with odd offsets.',
'C20_tree':'a failure pattern of 16 free bits over 5 tree shapes (structs, lists, pointers, lists of lists), free alias.',
'C20_pairs':'3 (thorough 4) fields in any order with 5 free failure bits and free keys of two bytes.',
'C20_text':'messages of 0..2 (thorough 3) bytes of any value.',
'C20_ended':'ended contexts, free alias.',
'C21_same':'eight requests by eight transports with 1 (thorough 1..2) bytes of any value inside.',
'C21_text':'0..3 (thorough 4) bytes of any value.',
'C21_batch':'0..3 (thorough 4) elements of eleven kinds, with operation names.',
'C21_malformed':'bodies with any byte replaced, cut off anywhere, or one byte more; 0..4 (thorough 5) bytes of a set.',
'C21_form':'error texts of 0..2 (thorough 3) bytes of any value.',
'C21_options':'two free bytes by three transports.',
'C22_field':'names of 1..3 (thorough 4) free bytes on every object type, anonymous and renamed ones and those used in both directions included.',
'C22_arg':'names of 1..2 (thorough 3) free bytes.',
'C22_input':'names of 1..2 (thorough 3) free bytes on every input type.',
'C22_enum':'names of 1..3 free bytes in six positions.',
'C22_type':'every argument and member with its own type, with each byte of the type replaced by a free one, and with other type names and list depths.',
'C22_order':'every pair of introspection requests; map iteration first-to-last and last-to-first.',
'C22_name':'every type name with a free byte replaced or added; names of 2..4 free bytes.',
'C22_whole':'every type of the schema; map iteration first-to-last and last-to-first.',
'C23_kept':'26 argument types by literal, variable and default with free bytes, then 1 (thorough 2) of seven later requests.',
'C23_two':'texts with three bytes of any value and escapes.',
'C29_out':'21 places (types, pointers, lists, named types, behind an interface), both signs, 1..15 (32 bit: 1..6) free significant digits, 43 exponents.',
'C29_special':'27 constants (zeros, not finite, limits, subnormal, 17 digits) at each of the 21 places.',
'C29_arg':'7 destinations, 0..5 (thorough 0..8) digits before and 0..5 behind the point, all free, literal, variable and default (thorough: default with exponent), exponents with a free digit.',
'C29_range':'about 500 spellings around the limits of both precisions, both signs, 7 destinations, 3 ways.',
'C29_echo':'1..7 digits before and 0..6 behind the point, all free, literal and variable, there and back.',
'C23_path':'free aliases and values, two further requests.',
'C24_steps':'2..3 (thorough 2..4) steps out of nine kinds.',
}
S='The schemas are those of the harness (Go types are compile time objects and cannot be symbolic).'
OUTSIDE={
'C01':'Documents with more free bytes than stated; nesting so deep (megabytes) that the goroutine stack is used up.',
'C02':'Documents with more free bytes than stated. Resolvers that panic. '+S,
'C04':'Longer literals than stated (the scanner treats bytes independently apart from escapes). Leading and trailing blank lines and common indentation of block strings are left open: the project\'s tests fix a trimming other than that of the specification.',
'C05':'Digits outside the windows for numbers of more than five digits; numbers for a boolean may be coerced; underscores in numbers are accepted (fixed by the tests).',
'C06':'Other documents than the templates; the byte order mark is not ignored by the library.',
'C07':'More selections than stated; duplicate keys are written twice by the library (not merged). '+S,
'C08':'Longer names than stated, except for those with the hash of a known one.',
'C09':'Larger sets of fragments; fragments on the name of an interface type (only the exact type name counts); inline fragments need a type condition; directives on fragment definitions.',
'C10':'@skip and @include without their argument (required arguments are not validated by the library); directives on operations and fragment definitions.',
'C11':'More than one free byte per text; a variable without value and default is an error by design; a variable declared List for a list is accepted.',
'C12':'More operations than stated; without a name the last operation runs (fixed by the tests).',
'C13':'Longer histories than stated. '+S,
'C14':'Longer histories than stated, except for the fixed eviction histories.',
'C15':'Longer histories than stated. '+S,
'C16':'Longer chains; input nesting of megabytes.',
'C17':'More free bytes than stated.',
'C18':'Values of the 32 and 64 bit types outside of the windows.',
'C19':'Digits beyond two neighbours at once; leniencies of time.Parse (one digit hours, a comma as decimal separator).',
'C20':'Failed arguments, limits and unknown fields end the selection by design and are outside; larger trees.',
'C21':'Bodies with more free bytes; leniencies of the JSON parser fastjson (a body that is no JSON but is accepted by it).',
'C22':'Whether types are nullable (not enforced by the library); descriptions. '+S,
'C23':'Longer histories; paths returned by GetPath of the context itself.',
'C24':'More steps than stated; the map of values given by the caller is shared by the elements of a batch by design.',
'C25':'Documents with more than one wrong byte; semantic errors have no position.',
'C26':'Unexported fields of plain data (known finding). '+S,
'C27':'The content of uploads; longer names.',
'C28':'Larger lists; pointers to implementations behind interfaces may give null. '+S,
'C29':'Floats of more than 15 (32 bit: 6) significant digits other than the 27 constants; spellings with an exponent inside of a variables document (the JSON library scales by the exponent in a second rounding); underscores in numbers. '+S,
'C30':'Absolute times (the clock is a stub that advances by about a millisecond per reading).',
'C31':'Larger and deeper values than stated.',
'C34':'Names given by struct tags are compile time texts; longer names than stated. '+S,
'C33':'Parameters or results of kinds the library refuses; two argument structs with a member of the same name (the last one gets it). '+S,
'C32':'Resolvers of the user that share state; more than two requests at a time (pairs suffice for data races: a race is between two accesses). Reads and writes are compared per object, a coarser grain than memory cells.',
}
_base=['The engine (engine/) executes the go/ssa form of the current /repo and of the standard library; its intrinsics for reflect, sync, sync/atomic, time.Now, fmt, sort and unsafe follow their documented contracts.',
 'Every fork is decided by z3; a share of the unsatisfiable answers is decided again by another solver, and models of completed paths are replayed in the compiled code and compared.']
ASSUME={c:_base for c in ['C%02d'%i for i in range(1,40)]}
ASSUME['C29']=_base+['A float is represented as the decimal it is nearest to: up to 15 significant digits (6 for 32 bits) of the normal range name floats one to one, so strconv gives exactly these digits back and orders them like the decimals.']
ASSUME['C30']=_base+['time.Now is a strictly increasing clock.']
ASSUME['C32']=_base+['Two executions whose footprints (objects read and written) do not conflict commute in every interleaving; memory used inside of sync and sync/atomic is not counted.']
NOTE={}
NOTAPP={}

ORACLE={
'C29':'the JSON number of the answer is read by the symbolic reading of decimals (engine/float.go: a decimal of up to 15 digits is its own shortest form) and must equal the float the resolver had; arguments likewise against the number written.',
'C01':'no panic and no endless loop on any path; errors have positions inside of the document; a second parse, on a used parser, gives the same verdict and program.',
'C02':'an independent JSON decoder (UTF-8 included) accepts the response, data is an object, errors present exactly if errors were returned; no panic.',
'C04':'an independent reader of string literals; what the resolver received is compared byte by byte.',
'C05':'an independent reader of integers with the limits of the destination; resolver got exactly that value or the request failed and the resolver did not run with another one.',
'C06':'the same document without filler; for other bytes: an error.',
'C07':'a model of the response (keys, order, values) built next to the query.',
'C08':'the list of names of the schema; anything else must fail.',
'C09':'the same selection written in place; a model of cycles.',
'C10':'the boolean formula of the conditions against presence of the key.',
'C11':'the same request with the literal.',
'C12':'a log of executed resolvers against the named operation.',
'C13':'the same request on a schema built alike that has served nothing, through the same transport.',
'C14':'the same history on a schema that never caches.',
'C15':'the same request on the original, or on a schema built alike.',
'C16':'the depth of the query as built, against the limit; resolvers below must not have run.',
'C17':'an independent JSON decoder gives back the bytes (invalid UTF-8 replaced).',
'C18':'an independent reader of decimal numbers; the table of registered enum values.',
'C19':'an independent calendar computation of the instant.',
'C20':'a model of the answer tree with its failure pattern: paths, messages, nulls, neighbours.',
'C21':'the same request by Resolve on another schema.',
'C22':'requests that use what is listed, and requests that use any other name.',
'C23':'a copy of the received values taken at once.',
'C24':'a model of the key-value store of one request.',
'C25':'an independent count of lines and columns of the byte at fault.',
'C26':'the list of allowed names; secret values must never appear.',
'C27':'a table of uploads by name; what the resolver received.',
'C28':'a table of registered implementations and their fields.',
'C30':'the same request without tracing; the trace against a walk over the answer; spans nested.',
'C31':'the tree of values the literal was printed from.',
'C32':'disjoint footprints, and the answers of the reference schema.',
'C34':'an independent definition of usable names; requests that use what was registered; the fields and values of each Go type.',
'C33':'the arguments as given, the results as defined by the resolver.',
}
OUTSIDE['C35']='Schemas whose MaxDepth is below 3 (the package asks by introspection); names beginning with two underscores; lists with several changed names. '+S
ASSUME['C35']=_base+['encoding/json.Unmarshal is replaced by a model written in Go (harness/models: JSONUnmarshal), checked against the real one by the native replays.']
ORACLE['C35']='a table of the types, kinds and fields as the Go declarations of the schema give them; the lists are compared as sets.'
OUTSIDE['C36']='Longer holes. '+S
ASSUME['C36']=_base
ORACLE['C36']='the full answer of a schema built alike, read by an independent JSON decoder and compared byte by byte.'
OUTSIDE['C37']='Orders of maps other than forwards and backwards; a place that goes through maps of different content in different orders within one run. '+S
ASSUME['C37']=_base+['The order of a map is chosen once per place in the code and run: forwards or backwards.']
ORACLE['C37']='the answer of a schema built with all maps in order, byte by byte.'
OUTSIDE['C38']='Types outside the stated families; generic types; names of Go types and members that are no GraphQL names; arrays as arguments, which are accepted and refused when used; a schema that is built again while it serves requests. '+S
ASSUME['C38']=_base
ORACLE['C38']='for each kind, role, shape, tag and root, written down by hand from the rules in the statement: refused, or served under this name with this value.'
