import json
P=[]
def add(id,title,stmt,over,qtext,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
J="Code/Json4C4/C4Json.cpp"; H="Code/Json4C4/C4Json.h"
T="Code/Terathon/"
add("C01","A text parses successfully exactly when it is a valid RFC 8259 JSON text",
"Parsing a null-terminated text reports success if and only if the text is one JSON value of the RFC 8259 grammar, in valid UTF-8, with optional surrounding whitespace: every valid document nested at most 1000 levels deep is accepted and everything else is rejected with an error status. Single-character documents, numbers in every legal spelling (and no illegal one), every legal escape and raw character in strings, and bytes hidden behind an embedded NUL are all covered. Left open: the escape \\u0000, unpaired surrogates, a leading byte order mark, trailing NUL padding, and nesting deeper than 1000.",
["inputs"],"every byte sequence given as a null-terminated text buffer",
"The tests parse a handful of fixed valid and invalid files; acceptance is a statement about every byte string, and tokens such as 0e5, +1, 1., DEL in strings or text after a NUL are in none of them.",
[J,T+"TSText.cpp"],[("recursive descent over strings, numbers, literals, arrays and objects","C4Json.cpp: ParseAnyValue, ReadStringLiteral, ReadDoubleLiteral, ArrayValue::Parse, ObjectValue::Parse, ParseJsonRoot"),("UTF-8 validation","TSText.cpp: Text::ValidateUnicodeChar")],
obs=["status returned by StructuredData::Parse(Array<char>)"])
add("C02","A parsed document holds exactly the values the text denotes",
"After a successful parse, the value tree has the same structure as the text: every array element in order, every object member under its decoded name, each with the right kind (string, number, boolean, null, array, object). Every number is the double nearest to the written decimal (sign of zero included, overflow giving an infinity), and every string is exactly the UTF-8 decoding of its literal, with all escapes resolved and surrogate pairs combined into one code point.",
["inputs"],"every valid JSON text",
"Tests compare a few short strings and numbers; correct rounding, escape decoding and structure must hold for every literal and every nesting.",
[J,H,T+"TSText.cpp",T+"TSString.h"],[("literal conversion","C4Json.cpp: ReadDoubleLiteral, ReadStringLiteral, ReadStringEscapeChar"),("tree construction","C4Json.cpp: ArrayValue::Parse, ObjectValue::Parse")],
state=[("rootJsonValue","the parsed tree","C4Json.h: StructuredData")],obs=["GetRootJsonValue, GetDataAsPointerTo<T>, AsJsonObjectValue, iteration over ObjectValue"])
add("C03","Parsing any bytes is memory safe, leak free, terminating and leaves no debris",
"For every byte sequence, however malformed, truncated, deeply nested or containing NULs, parsing returns a status without crashing, reading or writing outside the given buffer, undefined behaviour, unbounded recursion or running forever. A parse that rejects its text leaves the document object empty (no root value; left open: when no text could be obtained at all, because the buffer is unterminated or empty, or the file unreadable, the previous document may remain), and once the object is destroyed or reused no memory allocated on its behalf remains.",
["inputs"],"every byte sequence, of any length and nesting depth, terminated or not",
"Tests parse six well-formed or nearly well-formed files without sanitizers; out-of-bounds reads at truncation points, leaks on error paths and stack exhaustion need every truncation and nesting depth.",
[J,H],[("NUL-terminated scanning, ownership of partially built values","C4Json.cpp: ParseValue, ArrayValue::Parse, ObjectValue::Parse, ParseJsonRoot, StructuredData::Parse")],
obs=["process exit, sanitizer reports, allocation balance, GetRootJsonValue after failure"])
add("C04","Parse errors name the right problem at the right line and column",
"A rejected text reports a status describing the kind of problem actually present at the first offending token, and a 1-based line and byte column, counted from the start of the text, that lies between the start of that token and the first byte that no valid document could have there (exactly that byte when the error is a missing or unexpected structural token). A successful parse, an unreadable or too large file and an empty text report line 0 and column 0. The textual form of every status is distinct, non-empty and describes that status, and the textual form of a result contains the status text and, when there is a position, its line and column.",
["inputs"],"every invalid text, including ones with leading whitespace and newlines, and every status value",
"One test checks one error position; the position arithmetic and the status-to-text table must be right for every error kind at every place.",
[J],[("error position computed by walking back from the failure point","C4Json.cpp: ParseJsonRoot"),("status texts","C4Json.cpp: StatusString, StatusToString, ParseResultToString")],
obs=["ParseResult, ParseResultToString, StatusToString"])
add("C05","Writing a document and parsing the file back yields the same document",
"Whatever document was obtained by parsing, writing it to a file with any indentation width and any whitespace indentation character succeeds, produces a valid RFC 8259 text in which every line is indented by the given width per nesting level, and parsing that file again yields an equal document: same kinds, same strings byte for byte, bit-identical numbers, same array order, and object members in the order of the original text. Writing the re-parsed document produces the identical bytes.",
["inputs","histories"],"every accepted document whose written form fits the size limit, every indentation width and whitespace indentation character",
"Tests write one fixed document and never re-read hostile strings; escaping, number formatting and member order must survive for every document.",
[J,H],[("serialisation to text","C4Json.cpp: StringValue::Write, NumberValue::Write, ArrayValue::Write, ObjectValue::Write, ExpandArray"),("member order memory","C4Json.h: ObjectValue::insertionOrder")],
obs=["file bytes after StructuredData::Write, tree after re-parse"])
add("C06","User objects survive serialise, write, parse, deserialise unchanged",
"For every supported type (text, number, boolean, null, dynamic arrays and vectors, string-keyed maps of both families, and user structures nested in any of these, described by free functions, member functions, or optional fields) serialising an object (whose texts hold no NUL character and are valid UTF-8) succeeds, and deserialising the result, directly or after writing to a file and parsing it back, into a fresh object yields an equal object. The produced tree is exactly the document the object denotes: one member per described field in declaration order, arrays as JSON arrays, maps as JSON objects with one member per key.",
["inputs","programs"],"every value of every supported type combination",
"Tests and examples serialise one or two fixed objects; vectors, maps, empty containers and hostile strings are never round-tripped.",
[H,J],[("typed conversion overload set","C4Json.h: Serialize, Deserialize, SerializeProto, DeserializeProto, Detail::CreateValueFor"),("standard-library support","C4Json.h under JSON4C4_ENABLE_STD_SUPPORT_INTERNAL")],
obs=["tree after SerializeFrom, bytes after Write, object after DeserializeTo"])
add("C07","Validation and deserialisation agree with the declared structure",
"For every document and every declared structure, validation succeeds exactly when deserialisation succeeds, and both succeed exactly when the document conforms: every required name present and every described value of the declared kind, recursively through nested objects, arrays and maps. When it does not conform, both report a status naming a problem that is really there (wrong kind, or a missing required name). Neither ever modifies the document, and validation never modifies the object.",
["inputs","programs"],"every document against every supported structure declaration",
"Tests validate one document against one structure; the equivalence quantifies over all mismatches at all depths.",
[H,J],[("validation and deserialisation overloads","C4Json.h: Validate, Deserialize, ValidateProto, DeserializeProto")],
obs=["Status of Validate and DeserializeTo"])
add("C08","Optional members may be absent, never wrong; unknown members are ignored",
"Deserialising a structure whose optional name is absent succeeds and leaves that field at its previous value, while a present optional member is read like a required one: if its value is malformed at any depth (wrong kind, or missing a required name of its own) the operation reports that error instead of treating it as absent. Members the structure does not mention, and the order of members in the text, never influence the outcome or any field.",
["inputs"],"every combination of present, absent, malformed, reordered and extra members",
"One example has one optional field; combinations of nested optional and required names are not sampled.",
[H],[("optional marker handling","C4Json.h: ValidateProto and DeserializeProto overloads taking Detail::Optional")],
obs=["fields and status after DeserializeTo and Validate"])
add("C09","Objects behave as finite maps from names to values",
"In any parsed object, looking up a name through the typed finders or the map interface returns a value exactly when a member with byte-for-byte that name (and, for typed finders, that kind) exists, and returns that member's value; iteration visits every distinct name exactly once in ascending byte order. When a name occurs more than once in the text, exactly one member remains, holding the first value, and it is written once.",
["inputs"],"every object, with any names (empty, long, prefixes of each other, non-ASCII, duplicated) in any order",
"Tests look up a few short names in small objects; balanced-tree lookup and duplicate handling depend on the insertion order and number of names.",
[J,H,T+"TSMap.h",T+"TSMap.cpp",T+"TSString.cpp"],[("name lookup","C4Json.cpp: ObjectValue::FindString ... FindJsonObjectValue, InsertAccountedMapElement"),("balanced map","TSMap.cpp: MapBase::InsertMapElement")],
obs=["Find* results, iteration order, written text"])
add("C10","Parsing a file equals parsing its bytes, whatever the read schedule",
"Parsing a file gives the same status, error position and document as parsing a buffer with the file's contents, for every file of at most 65534 bytes and every way the operating system may split the reads; a larger file is refused as too large. If the file cannot be opened, a read fails, or the data ends early, an open or read error is reported and parsing never hangs. A file that grows while it is being read counts with its old or its new content. No file descriptor stays open after the call.",
["inputs","fault_sequences"],"every file content up to and beyond the size limit, every schedule of short, failing and early-ending reads",
"Tests read small regular files where a single read returns everything.",
[J],[("file reading loop and size limit","C4Json.cpp: File::ReadFile, File::GetFileSize, StructuredData::Parse(const char*)")],
obs=["ParseResult and tree versus buffer parse, descriptor count"])
add("C11","Write reports success only if the file holds exactly the complete document",
"If writing returns success, the file's content is exactly the complete text of the document, whether the file was new or previously longer or shorter, and whatever short writes occurred. If any open, write or close fails, an error status is returned, and writing an empty document object reports an error without touching the file. The result never depends on earlier file contents, and no file descriptor stays open.",
["inputs","fault_sequences"],"every document, prior file content and schedule of short or failing writes and closes",
"Tests write one document to a fresh file on a healthy disk.",
[J],[("file creation and writing","C4Json.cpp: File::OpenFile, File::WriteFile, File::operator<<, StructuredData::Write")],
obs=["Status of Write versus file bytes"])
add("C12","A document object can be reused freely; earlier operations leave no trace",
"Across any sequence of parsing (texts or files, valid or not), serialising, validating, deserialising and writing on one document object, each operation gives the same result and leaves the same document as the same operation would on a fresh object holding the current document. After a failed parse or failed serialisation the object is usable: operations that need a document report an error instead of crashing. Nothing leaks over the whole history, and distinct objects never influence each other.",
["histories"],"every finite sequence of operations on one or several document objects",
"Each test uses a document object once; stale state only shows in sequences.",
[H,J],[("ownership of the root value across operations","C4Json.h/.cpp: StructuredData::Parse, SerializeFrom, DeserializeTo, Write, destructor")],
state=[("rootJsonValue","current document or null","C4Json.h: StructuredData")],obs=["status, tree and files after each step"])
add("C13","Allocation failure at any point yields an error status, never a crash or leak",
"If any single memory allocation made inside parsing, writing, serialising, validating or deserialising fails (or all from that point on), the operation returns a non-success status rather than terminating the process or reporting success for incomplete work. Nothing is leaked or freed twice, the document object and the caller's objects remain valid to destroy and reuse, and repeating the operation with memory available succeeds.",
["fault_sequences","inputs"],"every operation, input and index of the failing allocation",
"No test injects allocation failures; each allocation site is a separate path.",
[H,J,T+"TSArray.h",T+"TSString.h"],[("exception containment","C4Json.h: MayThrow and the cleanup after it"),("container growth","TSArray.h: SetReservedCount; TSString.h: Resize")],
obs=["Status, allocation balance, process survival"])
add("C14","The ordered map behaves as a sorted key set and stays balanced",
"Under any sequence of insertions (plain, replacing, or through a reservation), removals, lookups, iteration (forwards and backwards), moves between maps and purges, the map behaves exactly like a mathematical ordered map with unique keys: rejected duplicates, exact lookups, ascending iteration, first and last elements, neighbours and positions all agree with the model. Owned elements are destroyed exactly once, elements destroyed on their own leave their map, and the tree is never deeper than a height-balanced (AVL) tree of as many elements can be.",
["histories"],"every sequence of map operations with any keys",
"The tests only touch the map indirectly with a few keys; rotations on removal depend on the whole history.",
[T+"TSMap.h",T+"TSMap.cpp"],[("AVL insertion, removal and rotation","TSMap.cpp: MapBase::InsertLeftMapElement ... RemoveMapElement, ReplaceMapElement, RotateLeft/Right")],
state=[("rootElement, child pointers, balance","tree shape","TSMap.h: MapBase, MapElementBase")],obs=["public Map/MapElement interface"])
add("C15","The growable array behaves as a sequence and manages element lifetimes exactly",
"Under any sequence of append, insert, remove, resize, reserve, clear, purge, copy, move and find operations, the array (with or without inline storage) holds exactly the element sequence of the mathematical model. Every element is constructed exactly once and destroyed exactly once, never used after destruction, and no storage is lost, also when an element given to append or insert is one of the array's own, and when an element's constructor throws while an array is being copied, appended to, inserted into or resized. Appending takes amortised constant time, and elements stay in place while the count is within the inline or reserved capacity.",
["histories"],"every sequence of array operations, element types with non-trivial lifetimes, any inline capacity",
"The tests only append a few elements; lifetime errors need growth, moves and inline-to-heap transitions combined.",
[T+"TSArray.h"],[("storage management","TSArray.h: SetReservedCount, SetArrayElementCount, InsertArrayElement, RemoveArrayElement, copy and move")],
obs=["public Array interface, instance counters, allocation balance"])
add("C16","Strings of every capacity behave as value-semantic byte strings",
"Under any sequence of assignments (from texts, ranges, UTF-16 texts, integers, floats, other strings of any capacity, itself or a part of itself), appends, concatenations, resizing, case and character replacement, escaping, in-place edits, purging, comparisons, copies and moves, a dynamic string equals the model byte string, is null terminated with the right length, and never touches memory it does not own; a fixed-capacity string holds the model truncated to its capacity. An operation on a dynamic string that fails for lack of memory leaves the string as it was. Comparisons order strings by unsigned byte value, and decimal rendering of 32-bit and 64-bit integers is exact.",
["histories"],"every sequence of string operations, across the inline and heap representations and all capacities",
"The tests construct short strings; transitions between inline and heap storage and aliasing need sequences.",
[T+"TSString.h",T+"TSString.cpp"],[("small-buffer string","TSString.h/.cpp: String<0>::Resize, SetStringLength, operator=, operator+=, AppendString, ReplaceChar, EncodeEscapeSequences, fixed String<N>")],
obs=["public String interface"])
add("C17","Unicode and text primitives are exact inverses and total on any bytes",
"Encoding any code point as UTF-8 and decoding or validating it gives back that code point and the same byte count; validation accepts exactly the well-formed sequences (encoded surrogates aside) and decoding consumes one byte as a replacement character for anything else, never reading past the terminator. Conversions between UTF-8 and UTF-16 text are mutually inverse on well-formed text and respect the given limit, and the text helpers (length, copy, compare, search, case and whitespace handling, decimal and hexadecimal conversion) agree with their plain definitions on every text; the text of a float denotes it to within 5e-5 (relative below 1e-4 and from 1 on, absolute between).",
["inputs"],"every code point, every null-terminated byte string, every 16-bit text",
"No test calls these functions directly; the parser depends on them for every string.",
[T+"TSText.cpp",T+"TSText.h"],[("UTF-8 and UTF-16 conversion","TSText.cpp: ValidateUnicodeChar, ReadUnicodeChar, WriteUnicodeChar, ConvertStringToWideText, ConvertWideTextToString"),("text utilities","TSText.cpp: CompareText, FindText, CopyText, Hash, IntegerToString, ...")],
obs=["return values and output buffers"])
add("C18","Results do not depend on build configuration or process locale",
"The library gives the same statuses, positions, documents and written bytes for the same inputs whether built with or without standard-library support, with or without exceptions, as a static or shared library, with either compiler and any optimisation level, and whatever locale the process has set. With the number conversion used without system services, acceptance, positions and structure are the same, parsed numbers agree within rounding error, and written numbers within the precision of a float to text conversion.",
["configurations","inputs"],"every supported build configuration and installed locale, over all inputs",
"The test suite runs in one configuration in the C locale.",
[H,J,"CMakeLists.txt"],[("configuration switches","C4Json.h/.cpp: JSON4C4_DISABLE_STD_SUPPORT, TERATHON_NO_SYSTEM, JSON4C4_USE_SYSTEM_DOUBLE_STRING_CONVERSIONS, MayThrow"),("number conversion","C4Json.cpp: ReadDoubleLiteral, NumberValue::Write")],
obs=["transcript of results compared across builds and locales"])
add("C19","Independent documents can be used from several threads at once",
"Threads that parse, write, validate, serialise and deserialise distinct document objects concurrently get exactly the results they would get alone, without data races; several threads may also concurrently read, look up, validate and deserialise from one unchanging document.",
["schedules","inputs"],"every interleaving of operations on distinct objects, and of read-only operations on a shared one",
"All tests are single threaded; hidden shared state would only show under concurrency.",
[J,H,T+"TSMap.h",T+"TSString.cpp"],[("absence of shared mutable state","C4Json.cpp, TSText.cpp, TSString.cpp: no mutable globals")],
obs=["per-thread results, race detector reports"])
add("C20","Documents built or edited by hand behave like parsed ones",
"A document put together or changed through the public tree interface (serialising a named value into an object or array value, serialising into a value that already has content, assigning scalars through the typed pointers, purging and inserting elements, rearranging and moving array elements), also by user types with hand-written functions, always equals the document the same edits denote: named values become new members after the existing ones or new array elements, a name already present keeps its value, container contents are replaced completely, and a value of the wrong kind gives an invalid type error and stays as it was. The value given may be a part of the document itself. Reading, looking up, validating and writing such a document give the same results as for an equal parsed document, and nothing leaks or is freed twice.",
["histories"],"every finite sequence of the listed editing operations on documents of any shape, with values of every supported or user-defined type",
"The tests serialise whole objects into empty documents; replacing content, repeated names and values of the wrong kind only occur in editing histories.",
[H,J],[("member-wise serialisation","C4Json.h: Serialize( value, name, data ), Serialize( value, data ) and its overloads for arrays and maps, CreateValueFor"),("accounted members","C4Json.cpp: ObjectValue::InsertAccountedMapElement, PurgeObject, Write")],
state=[("member map and insertion order","members of an object value and the order in which they are written","C4Json.h: ObjectValue")],obs=["status of each operation, tree, written file"])
add("C21","Math, vector and integer primitives compute what they are named for",
"With SSE2, with AVX and without SIMD: the integer helpers (absolute value, sign, minimum, maximum, clamping at zero, modular step, leading zeros, powers of two, exchange) are exact for every argument whose result is representable; floor, ceiling, their fused and one-signed forms (the latter up to 2^23 in magnitude), fraction, absolute value, sign, minimum, maximum and clamping of floats are exact for every number; square roots of normal numbers are within 2e-6 relative (1.5e-5 without SIMD) and those of zero and negative numbers zero, sines and cosines within 6e-7 times max(1,|x|) up to |x| = 200000, tangents accordingly, inverse functions within 1e-5 absolute over their domain, exponentials within 1e-6 relative with infinity from 89 on and at most 1.7e-38 below -87, and logarithms within 5e-7 times max(1,|result|). Vector operations act on each of their elements as the single operation does, products, sums, comparisons, selections, shuffles, stores, integer packing, unpacking and merging included, and the constants and tables are right to float precision.",
["inputs"],"every argument in the stated domains, every combination of vector elements, every buildable instruction set",
"The tests never call these functions; the errors sit at single table entries, instruction sets, domain ends and magnitudes.",
[T+"TSMath.cpp",T+"TSMath.h",T+"TSSimd.h",T+"TSBasic.h"],[("scalar functions","TSMath.h/.cpp: Sqrt, Sin, Arctan, Exp, Log, Floor, ..."),("vector functions","TSSimd.h: Vec..., Exv..."),("integer helpers","TSBasic.h")],
obs=["return values"])
import os
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
