#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json (one source for both)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = 'include/json_struct/json_struct.h'
P = []
def prop(id, title, statement, over, text, why, mech, files=(H,)):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mech])))
prop('P01', 'Token boundaries do not depend on the SIMD configuration',
     'For every input and every tokenizer option, the tokenizer finds the same token boundaries, token types and errors in every build configuration (scalar, SSE2, SSE4.2, AVX2). Those boundaries are the ones a byte-at-a-time reading defines: a string ends at its first unescaped quote, numbers and bare identifiers end at the first byte that cannot belong to them, and insignificant bytes and enabled comments are skipped. At the end of a buffer the answer is that more data is needed, never a boundary in the middle of a token.',
     ['inputs', 'configurations'], 'all byte buffers, all start positions, all option combinations, four instruction-set configurations',
     'The test build compiles a single configuration, and SIMD bugs depend on where a byte falls relative to 16/32-byte blocks; tests sample a few documents.',
     [('Tokenizer::findStringEnd / findNumberEnd / findAsciiEnd / findDelimiter / findStartOfNextValue / findTokenEnd / skipComment', H + ':1960-2500')])
prop('P02', 'Tokenizing any bytes stays inside the input and terminates',
     'For every sequence of input bytes, valid JSON or not, and every option setting, asking for tokens reads no byte outside the supplied buffers, executes no undefined behaviour, and returns after a bounded amount of work. Repeated requests end in an error or a request for more data after at most a number of tokens linear in the input size. Every delivered name and value lies inside the supplied data or data the tokenizer owns.',
     ['inputs', 'configurations'], 'all byte strings of any length, all option combinations',
     'Memory safety and termination quantify over all malformed inputs; the tests use a few hand-written malformed documents without guard pages.',
     [('Tokenizer::nextToken, populateNextTokenFromDataRef, populateFromDataRef', H + ':1708-1800, 2525-2845')])
prop('P03', 'The token stream does not depend on how the text is split into buffers',
     'Splitting a text into any sequence of buffers, including empty ones, delivers exactly the tokens (names, values, types, in order) and the error that the same text delivers as one buffer. This holds with a token cut at any byte, also inside escape sequences. Comments are off and the text contains no NUL byte.',
     ['inputs', 'histories'], 'all texts, all ways of cutting them, comments disabled',
     'The number of cut positions is combinatorial; the partial tests cut a handful of documents in two.',
     [('intermediate token handling in Tokenizer::nextToken / populateNextTokenFromDataRef', H + ':1708-1800, 2652-2845')])
prop('P04', 'A closing bracket is delivered only for the innermost open container',
     'In every token stream the tokenizer delivers, each end-of-object or end-of-array token matches the innermost container that is still open, for any nesting depth; any other closing bracket makes tokenizing fail instead. Scalar values delivered inside an object carry a name, and scalar values delivered inside an array carry none.',
     ['inputs', 'histories'], 'all inputs, all nesting depths, all options',
     'Mismatched closers can occur at any depth and position; tests hold a few shallow examples.',
     [('container_stack handling in Tokenizer::populateNextTokenFromDataRef', H + ':2652-2845')])
prop('P05', 'Parsing a string decodes exactly its JSON escapes',
     'A string value read into a string object is exactly the text the raw bytes denote: the two-character escapes, \\\\uXXXX as UTF-8 and surrogate pairs as one UTF-8 code point, all other bytes unchanged and in order. An escape that is not well formed is kept as the two bytes written, or for an unpaired surrogate as its own three-byte encoding. Decoding reads no byte outside the value and does not depend on what the target held before.',
     ['inputs'], 'all byte sequences of all lengths',
     'Tests check about fifty escape strings; position relative to block boundaries and truncation of escapes at the end of the value are not enumerable by tests.',
     [('handle_json_escapes_in, TypeHandler<std::string>::to', H + ':5890-6060, 6132-6140')])
prop('P06', 'Strings and map keys are written escaped and read back unchanged',
     'For every string, the text written for it is a valid JSON string that escapes the quote, the backslash and every control character below 0x20 and copies every other byte unchanged. Reading that text back yields the original string. The same holds for strings used as keys of maps.',
     ['inputs', 'configurations'], 'all byte strings of all lengths in every SIMD configuration',
     'The encoder has block-wise fast paths whose behaviour depends on the position of each special byte; tests round-trip a few strings.',
     [('handle_json_escapes_out, TypeHandler<std::string>::from, TypeHandlerMap::from', H + ':6065-6150, 9790-9810')])
prop('P07', 'Reading an integer gives the exact, truncated and saturated value',
     'For every JSON number and every integer type from 8 to 64 bits, reading the number yields its mathematical value truncated towards zero, and the nearest limit of the type when it does not fit (zero for a negative number read into an unsigned type). This includes fractions, exponents of any size, leading zeros and any number of digits. No number causes undefined behaviour or reads outside the value.',
     ['inputs'], 'all number texts of any length, all integer types',
     'Overflow happens only for particular combinations of digits, decimal point and exponent; tests use a few values per type.',
     [('ft::parseNumber<.., true>, ft::integer::convert_to_integer, TypeHandlerIntType::to', H + ':7940-8100, 8230-8320, 8690-8710')])
prop('P08', 'Writing an integer gives its decimal digits',
     'For every value of every integer type from 8 to 64 bits, the text written is its shortest decimal representation: an optional minus sign and digits without leading zeros, including the extreme values of the type. Reading that text back into the same type gives the same value.',
     ['inputs'], 'all values of the eight integer types',
     'The 64-bit types have 2^64 values; the digit-count computation has a case per power of ten.',
     [('ft::count_chars, ft::integer::to_buffer, TypeHandlerIntType::from', H + ':6600-6700, 8180-8230, 8705-8720')])
prop('P09', 'Serializer output does not depend on output buffer sizes',
     'For every sequence of tokens and every sequence of output buffers the application supplies, of any sizes but zero, the bytes the serializer stores in them, concatenated, are the same as with one sufficiently large buffer. Nothing is ever written outside a supplied buffer. When the application stops supplying buffers, writing reports failure and what was stored is a prefix of the full output.',
     ['inputs', 'histories'], 'all token sequences, all buffer segmentations',
     'Where a buffer boundary falls relative to delimiters, names, quotes and indentation is combinatorial; tests use few sizes.',
     [('Serializer::write(const char*, size_t), write(Token), writeAsString, SerializerBuffer::append', H + ':3212-3470')])
prop('P10', 'Serialized tokens are the JSON text of those tokens in the chosen style',
     'For every well-formed token sequence the serializer writes the tokens in order with exactly one separator between members and none before the first or after the last, a name and colon for each named value, and strings quoted. The compact style writes no insignificant white space; the pretty style indents every line by the nesting depth, at any depth. Tokenizing the output gives the token sequence back.',
     ['inputs', 'histories'], 'all well-formed token sequences (non-empty names), all styles, indent sizes and depths',
     'Depth counters and separator state depend on the whole history of tokens; tests check a few documents.',
     [('Serializer::write(const Token&), SerializerOptions', H + ':3131-3470')])
prop('P11', 'Skipping a value consumes exactly that value',
     'When a value is skipped because no member wants it (or through the scope interface), exactly the tokens of that value are consumed, whatever it contains and however deeply it nests. The members before and after it are parsed as if it were not there. A value cut short by the end of input is reported as an error, not accepted.',
     ['inputs', 'histories'], 'all values of any depth and content, all positions',
     'Nesting depth and content of the skipped value are unbounded; tests skip a few small values.',
     [('skipArrayOrObject, Tokenizer::pushScope / goToEndOfScope / popScope, ScopeCounter', H + ':1353-1372, 1839-1860, 4603-4640')])
prop('P14', 'Captured raw JSON is the exact source text of the value',
     'Reading an object or array into one of the raw-text types yields exactly the source bytes from its opening to its closing bracket, whether or not the input arrived in several buffers for the owning types. The token following the captured value is the next one in the document. Writing the captured text back as a value reproduces those bytes. A target used before holds only the new text, and a capture that failed leaves nothing behind that later parsing could write to.',
     ['inputs', 'histories'], 'all objects and arrays, all cuts of the input',
     'The captured range is found by counting brackets over an unbounded document; tests capture few values.',
     [('TypeHandler<JsonObject/JsonArray/JsonObjectOrArray(Ref)>, Tokenizer::copyFromValue / copyIncludingValue', H + ':1802-1838, 9250-9540')])
prop('P15', 'Bare words are classified exactly',
     'An unquoted word is delivered as null, true or false exactly when its bytes are that keyword, and as any other bare identifier otherwise; keywords are never recognised by prefix, length or case alone. Reading a boolean accepts exactly true and false, and nullable types treat exactly null as absent.',
     ['inputs'], 'all bare words of any length',
     'Tests only use the keywords themselves and one or two near misses.',
     [('Internal::getType, TypeHandler<bool>::to, Nullable/optional/pointer handlers', H + ':2604-2643, 8784-8990')])
prop('P16', 'Floating point values survive writing and reading unchanged',
     'For every finite float and double, the text written is a valid JSON number and reading it back gives the same bits; infinities and NaN never produce invalid JSON. Reading a number text of at most 19 significant digits gives the nearest representable value, including numbers with leading zeros, and huge or tiny exponents give infinity and zero.',
     ['inputs'], 'all 2^64 doubles and 2^32 floats; all number texts',
     'Rounding errors show for isolated values among 2^64; tests sample some.',
     [('ft::parseNumber<.., false>, ft::convertToNumber, ft::ryu::decode / convert_parsed_to_buffer, TypeHandler<double/float>', H + ':6155-8230, 8550-8690')])
prop('P17', 'Struct members receive exactly the values of their names',
     'Parsing an object into a struct assigns each member from the value whose name is that member (or one of its aliases), in any order of members, and leaves members without a value untouched. The names of unknown values and of required members without a value are reported exactly, optional members are never reported, and the strictness options turn those reports into errors. Writing the struct and reading it back gives an equal struct.',
     ['inputs', 'histories'], 'all objects: any member order, any unknown members, any subset of members present',
     'The combinations of order, presence and nesting are unbounded; tests check fixed documents.',
     [('unpackMember, verifyMember, MemberChecker, SuperClassHandler, TypeHandler<T>::to', H + ':4300-4560, 5740-5830')])
prop('P20', 'Fixed-size targets are never overrun',
     'Reading a JSON array into a fixed-size array, tuple or bounded variable-length array never writes outside the target, whatever the number of elements; too many or too few elements are reported as an error, and for the bounded variable-length array the reported size is the number of elements stored.',
     ['inputs'], 'all array lengths and element contents',
     'The length mismatch cases are unbounded and an overrun by one is invisible without a memory checker.',
     [('TypeHandler<T[N]>, TypeHandler<std::array>, TypeHandler<ArrayVariableContent>, tuple handlers', H + ':9565-9760, 10150-10340')])
prop('P21', 'The map document model keeps every member and finds it by path',
     'Parsing any object (or array) into JS::Map keeps every member: iterating delivers exactly the members of the top level, in order, skipping over whatever is nested in them. Looking a non-empty name up finds the (first) member of that name exactly when it exists at that level, never one nested deeper; a missing name is reported as KeyNotFound. Casting a member to a type other than the raw-text types yields what parsing its text yields, and casting a member to a JS::Map gives the document of that member. setValue on an object replaces or adds exactly the member of that name and leaves every other member as it was, over any sequence of calls. Writing the map back gives the same document.',
     ['inputs', 'histories'], 'all objects, all names',
     'The number of documents and look-up paths is unbounded; tests use one or two.',
     [('JS::Map, MapIterator, TypeHandler<Map>', H + ':9820-10150')])
prop('P22', 'Diffs list exactly the differences',
     'Comparing two documents reports a difference exactly when their values differ, and the reported tree marks exactly the members that changed, were added or removed.',
     ['inputs'], 'all pairs of documents', 'Pairs of documents are unbounded; tests compare a few.',
     [('DiffContext, DiffFlags', 'include/json_struct/json_struct_diff.h')], files=('include/json_struct/json_struct_diff.h',))
prop('P23', 'Reformatting preserves the document and is idempotent',
     'For every valid document whose top level is an object or array and whose names are not empty, reformatting succeeds and the result has the same token sequence. Reformatting the result in the same style returns it unchanged. A document with a tokenizing error (a mismatched bracket, a missing separator, an illegal character) is reported as an error.',
     ['inputs', 'configurations'], 'all documents, all styles',
     'Documents are unbounded in depth and content; tests reformat two.',
     [('JS::reformat', H + ':2941-2980')])
prop('P24', 'Containers receive every element once, in order',
     'Reading a JSON array into a vector or set gives a container that holds exactly the elements of the array (a vector in their order, replacing what it held before; a set reports a repeated element as an error). Reading an object into a map stores every value under its decoded name, the last one winning. A one-or-many target accepts a single value or an array. An error in any element is reported, and another kind of value is refused. Writing a container emits every element exactly once, and map values under their escaped keys, so that reading it back gives an equal container.',
     ['inputs'], 'all element counts, contents and orders',
     'The number of elements is unbounded; tests read short lists.',
     [('TypeHandler<std::vector>, TypeHandlerSet, TypeHandlerMap, TypeHandler<OneOrMany>', H + ':9044-9140, 9670-9720, 9758-9830, 10197-10245')])
prop('P25', 'A tokenizer reset to new data behaves like a new one',
     'After resetData, with a text or with a token list and any start position, the tokenizer delivers exactly the tokens and errors that a newly created tokenizer with the same options delivers for the data from that position, whatever it read before: unfinished tokens, open containers and scopes, errors, captures in progress, another token list. The buffers it still held are given to the release callback.',
     ['histories', 'inputs'], 'all histories before the reset, all new data',
     'The state left behind depends on where the previous input stopped; the tests only reset after complete documents.',
     [('Tokenizer::resetData, Tokenizer::Tokenizer', H + ':1605-1690')])
NA = {}
sys.path.insert(0, HERE)
from props import PROPS, NOT_BUILT
checks = []
for p in P:
    i = p['id']
    if i in PROPS:
        q = PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s quick' % i, thorough_cmd='python3-vt check.py %s thorough' % i,
                           technique=q.get('technique', 'function contracts on the real code (extracted as LLVM IR on every run), obligations discharged by z3 function by function; native driver replays failing inputs'),
                           level=q.get('level', 'proof'), level_note=q['note']))
na = [dict(property=p['id'], reason=NOT_BUILT.get(p['id'], 'no contract built yet')) for p in P if p['id'] not in PROPS]
man = dict(version=1, setup_cmd='bash tools/setup.sh', hooks=dict(guard='JSON_STRUCT_VERIF (reserved; no hook is needed: the checks take /repo unmodified)', enable='nothing to enable', source_commits=[]), checks=checks, not_applicable=na,
           notes='See DESIGN.md. KNOWN_FINDINGS.txt lists the defects found and repaired (fixed:) or recorded.')
open(os.path.join(HERE, 'properties.jsonl'), 'w').write(''.join(json.dumps(p) + '\n' for p in P))
json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(checks), 'claimed')
# DESIGN.md: template + per-property text + seeded-bug table
tab = []
for p in P:
    q = PROPS.get(p['id'])
    if q:
        us = sorted(set('%s' % u['name'] for u in q['units']))
        tab.append('### %s %s\n*Decided by:* %s\n*Units under contract:* %s (%d unit/configuration pairs).\n*Bounded stand-ins:* %s\n*Unchecked:* %s\n' % (p['id'], p['title'], q['note'], ', '.join(us) or 'none', len(q['units']),
            '; '.join('native/%s (%s): %s' % (n['src'], '/'.join(v[0] for v in n['variants']), n['bound']) for n in q.get('native', [])) or 'none',
            '; '.join(q.get('assumptions', []) + ['bounded only: ' + b for b in q.get('bounded_only', [])]) or 'only the common trusted base'))
    else:
        tab.append('### %s %s\nNot applicable: %s\n' % (p['id'], p['title'], NOT_BUILT.get(p['id'], 'no contract built yet')))
sd = ['| bug | property | needs | caught by |', '|---|---|---|---|']
SR = os.path.join(HERE, 'tools', 'seed_results.json')
res = json.load(open(SR)) if os.path.exists(SR) else {}
SDIR = os.path.join(HERE, 'seeded')
for d in sorted(os.listdir(SDIR)) if os.path.isdir(SDIR) else []:
    mf = os.path.join(SDIR, d, 'meta.json')
    if os.path.exists(mf):
        m = json.load(open(mf)); sd.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/'), res.get(d, 'not run yet').replace('|', '/')))
t = open(os.path.join(HERE, 'tools', 'design.in.md')).read().replace('@@TABLE@@', '\n'.join(tab)).replace('@@SEEDS@@', '\n'.join(sd))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(t)
