"""Registry: which units (functions under contract x build configuration) and which bounded stand-ins decide each property."""
TRUSTED = [
    'clang 18 front end and the opt passes sroa, simplifycfg, instsimplify, early-cse (IR extracted from /repo on every run is taken to mean what the C++ means)',
    'the VC generator vcg/*.py (memory model: disjoint typed regions, buffers below 2^40 bytes) and z3',
    'IR is built with -fno-exceptions -fno-inline: exceptional control flow (bad_alloc) is not modelled',
]
SC = ['findStringEnd', 'findNumberEnd', 'findAsciiEnd', 'skipComment', 'findStartOfNextValue', 'findDelimiter', 'findTokenEnd']
COST = {'findStringEnd': 45, 'findNumberEnd': 5, 'findAsciiEnd': 6, 'skipComment': 2, 'findStartOfNextValue': 170, 'findDelimiter': 110, 'findTokenEnd': 115}
CF = {'scalar': 0.05, 'sse2': 0.5, 'sse42': 0.5, 'avx2': 1}
def U(module, unit, harness, config='sse2', cost=10, name=None, **k):
    return dict(module=module, unit=unit, harness=harness, config=config, cost=cost, name=name or unit, **k)
SCAN = [U('scan', f, 'tok.cpp', c, COST[f] * CF[c]) for c in CF for f in SC]
SIMD = [('sse2', []), ('scalar', ['-DJS_DISABLE_SIMD']), ('avx2', ['-mavx2', '-mbmi'])]
ASAN = ('asan', ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-g'])
def N(src, variants, q, t, bound, **k): return dict(src=src, variants=variants, q=q, t=t, bound=bound, **k)

PROPS = {}
PROPS['P01'] = dict(title='Token boundaries do not depend on the SIMD configuration',
    units=SCAN,
    native=[N('scan.cpp', SIMD + [('sse42', ['-msse4.2'])], 8, 120, 'every byte value at every position of filler runs up to 70 bytes, then random buffers up to ~130 bytes')],
    assumptions=['the aarch64 scanners are compiled in no configuration available here and are not covered'])
PROPS['P01']['note'] = 'Every scanner of the tokenizer is proved against a byte-at-a-time specification for all buffers, positions and option values in four instruction-set configurations; equality across configurations follows because the specification is the same. Trusts the clang front end, the VC generator and z3. The top-level glue is covered by P02/P03/P04.'
STRENC = [U('strings', 'string-encode', 'str.cpp', c, k) for c, k in (('scalar', 3), ('sse2', 21), ('avx2', 50))]
PROPS['P05'] = dict(title='Parsing a string decodes exactly its JSON escapes',
    units=[U('strings', 'string-decode', 'str.cpp', 'sse2', 130)],
    native=[N('strs.cpp', [('sse2', []), ASAN], 8, 150, 'all 65536 \\uXXXX values, all escapes at all positions of strings up to 128 bytes, random strings up to ~300 bytes', args=['dec'])],
    note='The decoder is proved to produce the reference decoding for every byte sequence of every length. std::string operations are modelled (assumed) as sequence operations.',
    assumptions=['std::string members (append, push_back, assign, reserve, clear) behave as sequence operations; allocation does not fail'])
PROPS['P06'] = dict(title='Strings and map keys are written escaped and read back unchanged',
    units=STRENC,
    native=[N('strs.cpp', SIMD + [ASAN], 8, 150, 'every byte value at every position of strings up to 70 bytes, random strings up to ~140 bytes; as values, members and map keys', args=['enc'])],
    note='The encoder is proved to hand the reference encoding of the string to the serializer, in three SIMD configurations; per-byte lemma: the reference decoding inverts the reference encoding. The map-key glue is covered by the bounded driver.',
    assumptions=['std::string members behave as sequence operations; allocation does not fail'], bounded_only=['map keys (TypeHandlerMap::from): same encoder, glue covered by the bounded driver only'])
INTS = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'll', 'ull', 'ch']
PROPS['P08'] = dict(title='Writing an integer gives its decimal digits',
    units=[U('num', 'write-' + k, 'num.cpp', 'sse2', 1) for k in INTS],
    native=[N('ints.cpp', [('sse2', []), ASAN], 6, 120, 'all values up to 70000, neighbourhoods of all powers of two and ten and their multiples, random values, eleven types', args=['write'])],
    note='For each of the eleven integer types the handler is proved, for every value, to hand the serializer exactly one number token whose bytes are the shortest decimal representation (digits only, no leading zero, decimal value equal to the integer); digit loops are unrolled exactly, signed overflow is an obligation. Reading back: P07.',
    assumptions=['Serializer::write(const Token&) is represented by its contract (proved under P09/P10)'])
PROPS['P07'] = dict(title='Reading an integer gives the exact value, truncated and saturated',
    units=[U('num', 'parse-integer-text', 'num.cpp', 'sse2', 45), U('num', 'parse-any-text', 'num.cpp', 'sse2', 6)] + [U('num', 'read-' + k, 'num.cpp', 'sse2', 20) for k in INTS],
    native=[N('ints.cpp', [('sse2', []), ASAN], 8, 150, 'all texts around the limits of every type in all notations (fraction, exponent), digit strings up to 60 digits, random texts', args=['read'])],
    note='parseNumber is proved to compute, for every JSON number text of any length up to 10^7 bytes, the longest digit prefix that fits 64 bits, the number of dropped digits, the sign and the decimal exponent (saturating beyond nine exponent digits), and to stay inside the text for every byte sequence; each TypeHandlerIntType<T>::to is then proved, for every such result, to store exactly the truncated and saturated value (multiplications and divisions by ten unrolled exactly, at most 20). value_lemmas (proved by z3 in the same run) connect (prefix, exponent) with the mathematical value of the whole text.',
    assumptions=['number texts are at most 10^7 bytes long'])
GL = lambda *us, cost=3: [U('glue', u, 'tok.cpp', 'sse2', cost) for u in us]
STEP = ['step-TE', 'step-NAME', 'step-DELIM', 'step-DATA'] + ['step-%s-%s' % (p, t) for p in ('NAMEEND', 'DATAEND') for t in ('String', 'Number', 'Ascii')]
SAFE = ['safe-' + x for x in ('FindingName', 'FindingDelimiter', 'FindingData', 'FindingTokenEnd', 'FindingName-cont', 'FindingData-cont')]
SCAN1 = [u for u in SCAN if u['config'] == 'scalar'] + [u for u in SCAN if u['config'] == 'sse2']
PROPS['P02'] = dict(title='Tokenizing any bytes stays inside the input and terminates',
    units=GL(*SAFE, 'strnlen', 'next-token', 'word-type', 'release') + SCAN1,
    native=[N('toks.cpp', SIMD + [ASAN], 10, 150, 'all texts up to 4 bytes over the structural alphabet, random bytes and mutated documents up to ~8000 bytes against guard pages, split and whole, 16 option settings, up to eight requests after an error', args=['safe'])],
    note='populateNextTokenFromDataRef (with its helpers) is proved memory safe and to make progress from every state that satisfies the tokenizer invariant, which it re-establishes, for all buffers and options, against the contracts of the scanners; the scanners themselves are proved in bounds and terminating in scalar and SSE2 builds (the other configurations under P01). nextToken terminates for every finite supply of buffers. The error-context text (updateErrorContext) is covered by the bounded driver only.',
    assumptions=['the application callback only adds buffers', 'std::vector and std::string members behave as sequence operations'], bounded_only=['updateErrorContext/makeErrorString: bounded driver only', 'release unit: unrolled for up to two captures and three registered buffers'])
PROPS['P03'] = dict(title='The token stream does not depend on how the text is split into buffers',
    units=GL(*STEP, 'next-token', 'release') + [u for u in SCAN1 if u['config'] == 'scalar' or u['unit'] in ('findStringEnd', 'findNumberEnd', 'findAsciiEnd')],
    native=[N('chunk.cpp', SIMD + [ASAN], 10, 150, 'all texts up to 5 bytes over the structural alphabet cut at every byte, random and mutated documents up to 400 bytes cut at every position and in random pieces incl. empty ones; buffers given on request, by callback and up front')],
    note='An abstract tokenizer over the whole text (no buffers) is the specification. For every state that represents an abstract state, and every buffer, one call of populateNextTokenFromDataRef is proved to deliver exactly the abstract token or error, or to keep a state that represents the same abstract state at the start of the next buffer; nextToken is proved to carry that state over unchanged. Chunk independence is the induction over the buffers. Scanner contracts are proved in the same check.',
    assumptions=['comments off, no NUL byte in the text (as stated)', 'std::string append is sequence append'], bounded_only=['release unit: unrolled for up to two captures and three registered buffers'])
PROPS['P04'] = dict(title='A closing bracket is delivered only for the innermost open container',
    units=GL('next-token', *STEP),
    native=[N('toks.cpp', [('sse2', []), ASAN], 10, 150, 'all sequences of up to 6 structural tokens, nesting depths to 70000, random and mutated documents', args=['nest'])],
    note='nextToken is proved to deliver a closing bracket exactly when the innermost entry of its container stack is the matching opener, and to push and pop that stack exactly for delivered brackets, for any stack; that scalar values carry a name exactly inside objects follows from the step units.',
    assumptions=['std::vector push_back/pop_back/back behave as stack operations'])
PROPS['P15'] = dict(title='Bare words are classified exactly',
    units=GL('word-type', *STEP) + [U('handlers', k, 'types.cpp', 'sse2', 1) for k in ('bool-to', 'bool-from', 'to-nullable', 'to-nullable-checked', 'from-nullable-checked', 'to-unique-ptr', 'from-unique-ptr', 'to-optional', 'to-optional-checked', 'from-optional-checked')] + [u for u in SCAN1 if u['unit'] == 'findAsciiEnd'],
    native=[N('words.cpp', [('sse2', []), ASAN], 8, 120, 'every single-byte change, insertion and deletion of each keyword, in objects and arrays, cut at every byte; random words up to 7 letters; boolean and nullable targets')],
    note='getType is proved to return Null/Bool exactly for the keyword bytes; the step units prove it is applied to the complete word also when the word is split over buffers; the boolean handler is proved to accept exactly the two words; the nullable wrappers are proved, for an arbitrary element type, to treat exactly the null token as absent. shared_ptr is covered by the bounded driver only.',
    assumptions=['the element handler of a nullable wrapper is represented by an arbitrary-result contract'], bounded_only=['std::shared_ptr<T> handler'])
SERU = lambda *us: [U('ser', u, 'ser.cpp', 'sse2', c) for u, c in us]
TOKENW = [('token-compact-delimiter', 3), ('token-compact-no-delimiter', 3), ('token-pretty-delimiter', 14), ('token-pretty-no-delimiter', 14)]
PROPS['P09'] = dict(title='Serializer output does not depend on output buffer sizes',
    units=SERU(('raw-write', 2), ('literal-write', 9), ('typed-write', 1), ('construct', 1), ('context', 1), *TOKENW),
    native=[N('serial.cpp', [('sse2', []), ASAN], 8, 150, 'random token sequences up to depth 14; every uniform buffer size up to 24, every kind of two-buffer split, random buffer sequences, buffers running out; buffers end at a guard page; serializeStruct around the growth steps of its string', args=['buf'])],
    note='Serializer::write(data, size) is proved, for every data, every buffer state and every sequence of supplied buffers, to store exactly the next bytes of the data at the end of what the current buffer holds, inside it, to ask for a new buffer only when the current one is full, to report success exactly when everything was stored and to terminate; the literal writer for every literal length likewise. Tokens are then proved against that contract: all their bytes reach the output through it in order, and a failure is reported and followed by nothing more. The doubling output string of serializeStruct is proved to hand out consecutive parts of itself and to be cut to what was stored.',
    assumptions=['the buffer callback supplies a buffer through setBuffer or supplies none (and then none later)', 'a serializer without a buffer is represented as one with an empty buffer', 'std::string members behave as sequence operations'])
PROPS['P10'] = dict(title='Serialized tokens are the JSON text of those tokens in the chosen style',
    units=SERU(*TOKENW, ('typed-write', 1), ('literal-write', 9), ('raw-write', 2), ('options', 1), ('construct', 1)),
    native=[N('serial.cpp', [('sse2', []), ASAN], 8, 150, 'random token sequences up to depth 14 (all indentation shortcuts and beyond), both styles, indentation 0..8, options set in two ways; text compared with an independent recursive formatter, then tokenized again', args=['text'])],
    note='For every serializer state (style, depth up to 2^30, indentation width, first/start flags, separator on or off) and every token, write(Token) is proved to append exactly: the separator unless at a start or end, the line break and depth*width spaces in pretty style, the name and colon, the value quoted exactly when it is a string; and to move depth and flags so that the next token continues correctly; an end without an open container is refused. The options class is proved to keep its strings in step with style and depth. That tokenizing gives the tokens back is decided by the bounded driver (with P01-P04 proved for the reading side).',
    assumptions=['the indentation width is set before writing starts', 'std::string members behave as sequence operations'], bounded_only=['tokenizing the output gives the token sequence back: bounded driver'])
SK = lambda *us: [U('stream', u, 'skip.cpp', 'sse2', 2) for u in us]
PROPS['P11'] = dict(title='Skipping a value consumes exactly that value',
    units=SK('skip', 'go-to-end-of-scope', 'push-scope', 'pop-scope') + GL('next-token'),
    native=[N('skip.cpp', [('sse2', []), ASAN], 8, 120, 'hand-picked shapes, nesting up to 600 (arrays to 70000) of mixed containers, random values up to depth 5, in structs, nested structs and lists, cut over two buffers and truncated; scope interface left after 0..5 tokens')],
    note='skipArrayOrObject and the scope functions are proved, for every token sequence nextToken can deliver (what unit next-token proves of it: closing brackets only for the innermost open container), never to read a token after the value is complete, to return without error exactly at its end, to pass every error on, and to consume nothing for a scalar.',
    assumptions=['fewer than 2^31 containers of one type are open at a time'])
ST = lambda *us: [U('structs', u, 'struct.cpp', 'sse2', c) for u, c in us]
PROPS['P17'] = dict(title='Struct members receive exactly the values of their names',
    units=ST(('read-Q', 5), ('read-P', 6), ('read-S', 40), ('write-Q', 1), ('write-P', 1), ('write-S', 1)) + SK('skip'),
    native=[N('structs.cpp', [('sse2', []), ASAN], 8, 120, 'a struct of 15 members (aliases, one equal to the name of another member, names that are prefixes of others, three super classes, one nested, three kinds of optional member, nested struct, list of structs); random subsets and orders of members with unknown and repeated ones, all strictness options, cut over two buffers; round trip in both styles')],
    note='For three structs that use every mapping feature (with an arbitrary element type) the generated reader is proved, for every token sequence: each member value is consumed by exactly one of: the element handler of the member whose name (or, when no member has that name, alias) equals it byte for byte; skipping, when no member wants it and unknown members are allowed. Unknown names and unassigned required members are reported exactly when tracking is on, and become errors exactly as the options say; nothing else writes the struct; element errors stop the parse and are passed on. The writer is proved to emit every member exactly once under its name between the brackets. The templates are verified at these instances (as generated code, all names and member sets of other structs differ only in constants).',
    assumptions=['element handlers consume exactly their value (proved for integers, strings, booleans, wrappers elsewhere) and leave the context error clear on success', 'nextToken delivers no closing array bracket directly inside an object (P04)'])
ARRAYS = ['%s-%s%d' % (d, k, n) for k, ns in (('A', (1, 3, 999)), ('S', (1, 3, 999)), ('V', (1, 3, 999)), ('T', (1, 3)), ('J', (1, 3))) for n in ns for d in ('read', 'write')]; CONTAINERS = ['%s-%s' % (d, k) for k in ('Vec', 'Set', 'Map', 'OoM') for d in ('read', 'write')]
SQ = lambda us: [U('seqs', u, 'arr.cpp', 'sse2', 5 if u.startswith('read-') else 1) for u in us]
PROPS['P20'] = dict(title='Fixed-size targets are never overrun',
    units=SQ(ARRAYS),
    native=[N('arrays.cpp', [('sse2', []), ASAN], 8, 120, 'arrays, std::array and ArrayVariableContent of 1 and 3 elements of 14 types (strings that look like brackets, nested arrays and lists, pointers, raw JSON), tuples of 3; 0 to N+3 elements; alone, as a member between others, cut over two buffers, in lists with broken tails')],
    note='T[N], std::array<T,N> and ArrayVariableContent<T,N> for N = 1, 3, 999 and std::tuple / JS::Tuple of 1 and 3 elements (of arbitrary element types) are proved, for every token sequence: the k-th element handler call gets the k-th slot, k < N, at the start of an element that is not consumed yet (never at the closing bracket); no error is returned exactly when the array ended after N elements (at most N for the variable one, whose size is then that count); a non-array is refused. Writing is proved to emit the brackets and each element once, in order.',
    assumptions=['element handlers consume exactly their value', 'nextToken delivers no closing object bracket directly inside an array (P04)', 'N other than 1, 3 and 999: the same template text'])
PROPS['P24'] = dict(title='Containers receive every element once, in order',
    units=SQ(CONTAINERS),
    native=[N('containers.cpp', [('sse2', []), ASAN], 8, 120, 'vectors, sets, maps (ordered and unordered), OneOrMany of integers, booleans, strings, structs, pointers and containers; 0 to 70 elements, repeated keys and elements, used targets, two buffers, broken last element, round trip in two styles')],
    note='The handlers of std::vector, std::set (and the template behind std::unordered_set), std::map (and the template behind std::unordered_map) and OneOrMany, for an arbitrary element type, are proved for every token sequence: old content is dropped where the statement says so, each element is consumed once by the element handler and ends up as the next element (under its decoded name for maps) before the next token is read, success exactly at the closing bracket, errors and duplicates passed on. Writing emits the brackets and each element once, in iteration order, map values under their encoded key.',
    assumptions=['element handlers consume exactly their value', 'std::vector, std::set, std::map behave as specified', 'vector<bool> and the unordered containers are only checked by the bounded driver'])
RAWT = ['JsonObject', 'JsonArray', 'JsonObjectOrArray', 'JsonObjectRef', 'JsonArrayRef', 'JsonObjectOrArrayRef']
PROPS['P14'] = dict(title='Captured raw JSON is the exact source text of the value',
    units=[U('raw', u, 'raw.cpp', 'sse2', 3) for u in ['copy-from-value', 'copy-including-value', 'read-JsonTokens'] + [d + k for k in RAWT for d in ('read-', 'write-')]] + GL('release', 'next-token'),
    native=[N('raw.cpp', [('sse2', []), ASAN], 8, 120, 'objects and arrays of all shapes up to depth 6, alone, as members, in lists and nested captures, repeated members, used targets, cut over up to four buffers, truncated documents with a reused tokenizer; written back in two styles')],
    note='The handlers of the six raw-text types and of JsonTokens are proved, for every token sequence: another kind of value is refused without consuming anything; otherwise exactly the tokens of the value are consumed (never one more), the capture runs from the opening token to the token that closes it, is ended on every path including errors, and starts from an empty target; the Ref types point from the first byte of the opening to the last byte of the closing token; JsonTokens holds every token once. copyFromValue / copyIncludingValue are proved to register and end one capture among up to three and to append exactly the bytes between the recorded position and the cursor; that a buffer change in between appends the rest of the old buffer is unit release. Writing hands the serializer the text itself under the given name.',
    assumptions=['at most three captures are open at a time', 'the Ref types are used with one buffer', 'isValueInIntermediateToken (a pointer comparison) tells exactly whether the token lies in the tokenizer\'s own buffer', 'after a closing bracket the cursor stands behind it (step units, P03)'],
    bounded_only=['writing JsonTokens back'])
PROPS['P25'] = dict(title='A tokenizer reset to new data behaves like a new one',
    units=[U('reset', k, 'reset.cpp', 'sse2', 2) for k in ('reset-data', 'reset-tokens', 'construct-tokenizer')] + GL('next-token'),
    native=[N('reset.cpp', [('sse2', []), ASAN], 8, 120, 'random, truncated and mutated documents (also split, also after token lists and with scopes left open), then a reset to another document, a fragment, a position inside it or a token list; 16 option settings; token stream compared with that of a new tokenizer; release callback counted')],
    note='The constructor and both resetData functions are proved to leave, from every state that satisfies the tokenizer invariant, a state that satisfies the representation predicate of the abstract initial state (the predicate the step units of P03 start from): no unfinished token, no open container or scope, no capture, no expectation, the cursor at the given index, exactly the new data registered; every buffer still registered is handed to the release callback once. Equal token streams follow with P03/P04.',
    assumptions=['std::vector and std::string members behave as sequence operations', 'ErrorContext::clear() clears'], bounded_only=['unrolled for up to three registered buffers'])
MAPU = ['index', 'next-member', 'begin', 'end', 'positions', 'find', 'compare-name', 'cast-whole', 'cast-iterator', 'cast-name', 'list', 'read-Map', 'write-Map', 'write-JsonTokens']
PROPS['P21'] = dict(title='The map document model keeps every member and finds it by path',
    units=[U('mapdoc', u, 'map.cpp', 'sse2', 40 if u == 'index' else 3) for u in MAPU] + [U('reset', 'reset-tokens', 'reset.cpp', 'sse2', 2), U('raw', 'read-JsonTokens', 'raw.cpp', 'sse2', 3)],
    native=[N('map.cpp', [('sse2', []), ASAN], 8, 120, 'documents of depth up to 4 with 0 to 5 members, escaped names, arrays as root; iteration, lookup of present, absent and nested names, casts to seven types, writing in two styles, index compared with a recount, histories of up to six setValue calls of six types on new, replaced and nested members')],
    note='For every well-formed token list: metaForTokens (unit index) gives one entry per container, in order, whose position, size, number of containers inside, number of members, number of container members, kind and has-data flag are those of that container (proved for an arbitrary container, with the definitions of those counts as recursive functions over the token list and three lemmas by induction); over such an index, begin / end / ++ step through exactly the members of the root in order (unit next-member: from the position of a member, ++ gives the position of the next one, or end, and keeps the iterator\'s cursor into the index right); find stops at the first member whose name compares equal and returns end only after all; compare-name is equality of the decoded name; the three casts reset the tokenizer to the list at the member\'s token and run the type\'s handler; a tokenizer reading a token list (unit list) delivers the listed tokens one by one and NeedMoreData at the end. Reading stores every token once (read-Map, read-JsonTokens), writing writes every token once, in order, with its name.',
    assumptions=['fewer than 2^30 tokens', 'token lists are the balanced ones the readers produce', 'std::vector behaves as a sequence', 'asserts are compiled out (they are obligations on the units instead where they matter)'],
    bounded_only=['setValue (both forms)', 'castTo<T> wrappers'])
PROPS['P23'] = dict(title='Reformatting preserves the document and is idempotent',
    units=[U('reform', u, 'reformat.cpp', 'sse2', 3) for u in ('reformat', 'reformat-string')] + SERU(*TOKENW, ('typed-write', 1), ('options', 1), ('construct', 1)),
    native=[N('reformat.cpp', [('sse2', []), ASAN], 8, 120, 'documents of depth up to 30 and up to 120 members per container (results up to several hundred kB), random white space, both styles, indentation 0 to 5, empty and used output strings; text compared with an independent formatter, reformatted again; mismatched brackets, missing separators and illegal bytes at random places')],
    note='reformat (both overloads and its buffer callback) is proved, for every token sequence: the whole text is given to the tokenizer; every token nextToken delivers is handed to write(Token) once, unchanged and in order, before the next one is read; nothing is read after an error; the callback doubles the output and supplies the new part, behind what is written, in the memory the string has after growing; at the end the string is cut to exactly the bytes stored; NeedMoreData becomes NoError, every other error is returned. What write(Token) appends is the contract of the token- units (P10), a function of the tokens and the options alone, so equal token sequences give equal texts: with "the result has the same token sequence" (P03 / P10) the second pass returns the text unchanged.',
    assumptions=['nextToken reports an error after finitely many tokens (P02)', 'memory for the output can be had (less than 2^57 bytes)'], bounded_only=['tokenizing the result gives the token sequence back: bounded driver'])
PROPS['P16'] = dict(title='Floating point values survive writing and reading unchanged',
    units=[U('num', 'parse-float-text', 'num.cpp', 'sse2', 20), U('num', 'parse-any-float-text', 'num.cpp', 'sse2', 10)] +
          [U('flt', u, 'num.cpp', 'sse2', c) for u, c in (('format-double-1-5', 25), ('format-double-6-9', 25), ('format-double-10-13', 30), ('format-double-14-17', 35), ('format-float-1-9', 35), ('write-double', 1), ('write-float', 1), ('read-double', 1), ('read-float', 1), ('convert-fast', 2), ('convert-range', 1), ('powers-of-five', 1), ('shortest', 100), ('multiply-shift', 6), ('umul128', 1), ('count-chars', 1), ('get-parts', 1), ('decode-special', 1)) + tuple(('decode-double-%d' % k, 45) for k in range(0, 2047, 128)) + (('decode-float-0', 40), ('decode-float-128', 40))] +
          [U('scale', u, 'num.cpp', 'sse2', 5) for u in ('scaling', 'two-word-operations', 'normalise', 'settle-midpoint', 'round-to-bits')],
    native=[N('floats.cpp', [('sse2', []), ASAN], 15, 300, 'every exponent of both types with 40 mantissas, random values; texts: about 9,400 texts next to rounding midpoints, all significands up to 99 with exponents from -330 to 312, random texts of up to 19 digits, leading and trailing zeros up to 1000')],
    note='Writing: for every decimal (sign, significand of up to 17 or 9 digits, exponent) convert_parsed_to_buffer is proved to write a JSON number that denotes exactly that decimal; the handlers are proved to write exactly that text for every finite value and null for infinities and NaN; ryu::decode is proved, for each exponent field of both types with the mantissa symbolic, to deliver a decimal of at most 17 or 9 digits inside the rounding interval of the value (its ends included only for even mantissas), with the right exponent, digit count and sign: it uses the contracts of multiply_and_shift, umul128, compute_shortest, count_chars, get_parts, is_nan and is_inf, each proved by a unit of its own, and one lemma decided exactly with big integers (where the truncated table entries give the exact quotient, and the few operands of float where they are one too small). Reading: parseNumber is proved to deliver the significand, exponent and sign of every number text; convertToNumber is proved to be one IEEE operation on exact operands for significands below 2^53 with |exponent| <= 15, zero for zero and below 10^-324, infinity from 10^309, and everywhere else (for every 64-bit significand and every exponent) the double nearest to the exact value, ties to even: the scaling loops carry an invariant (the exact value lies between the scaled number and at most 3500 * 2^-124 above it, relatively; the error steps are lemmas z3 decides over the reals), settle_midpoint is proved to leave a number that rounds like the exact value, and the two-word operations, the normalisation and the packing into bits are each proved for every operand; the handlers are proved to return that value and an error exactly for texts that are not a whole number.',
    assumptions=['IEEE 754 double multiplication, division and conversions are correctly rounded (hardware)', 'the C library strtod/strtof (oracle of the bounded driver) are correctly rounded'],
    bounded_only=['the exact comparison compare_to_midpoint (big integers) and correctly_round_float (bounded driver)', 'texts of more than 19 digits'])
NOT_BUILT = {'P22': 'json_struct_diff.h builds and walks flattened diff token lists with its own start/end/depth bookkeeping; the technique applies in principle (it is plain code over token vectors), but its contracts were not written in the time available and a bounded check alone would not be this technique'}
