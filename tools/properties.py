import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))
ALLC=["solidlist.go","immutablelist.go","sparselist.go","sortedmap.go","immutablemap.go"]
p("C01","Pack then unpack gives back the same value",
 "Packing any value and unpacking the bytes yields a value of the same kind (for numbers and strings also the same type) with identical content at every depth, where an absent cell comes back as Null. The original reports itself Equal to the result unless a NaN is inside. This holds at every size and nesting (within the decoder's nesting limit), in particular at every length where the encoding switches header form.",
 ["inputs"],"all value trees: every kind and variant (mutable, immutable, sparse), every payload, sizes from 0 past 65536, nil cells, duplicate keys",
 "Tests pack a few dozen literals and collections of at most ten small elements; nothing reaches a 16-bit or 32-bit header, a bigint/decimal/ext payload inside a collection or a nil cell.",
 ["utils.go","msgpack.go","unpack.go"]+ALLC+["number.go","string.go","unknown.go"],
 [("Pack / per-kind Pack methods","utils.go, *.go"),("doParse, doParseList, doParseMap, doParseExt","unpack.go")],
 ["value.Pack, value.Unpack, Value.Equal, typed accessors"])
p("C02","Packed bytes are canonical MessagePack",
 "The bytes produced for any value are exactly the MessagePack encoding of its content in the shortest form the format offers: non-negative integers in unsigned and negative ones in signed forms, doubles as float64, big integers as ext type 1 and decimals as ext type 2, dense lists as arrays, sparse lists as integer-keyed maps, maps with string keys in ascending byte order. Pack, Write, MarshalBinary, Hex, and PackStruct of a value, all give these same bytes.",
 ["inputs"],"all value trees, all integer magnitudes, all string/binary/ext/list/map lengths around every header boundary",
 "Tests compare hex for about 50 literals; no str8/str16/bin16/ext8/ext16/array16/array32/map16/map32 header is ever produced by them.",
 ["msgpack.go","utils.go"]+ALLC+["number.go","string.go","unknown.go"],
 [("messageWriter.Write*Header / WriteLong","msgpack.go"),("MarshalBinary","every value file")],
 ["value.Pack, value.Write, value.Hex, MarshalBinary"])
p("C03","Every valid MessagePack document decodes to its content",
 "Unpacking any valid MessagePack document, also one using longer forms than needed, yields the content the format assigns to it: integers exactly (or an error when they do not fit in 64 signed bits, never another number), float32 widened, str as text, bin as raw bytes, foreign ext tag and data preserved, arrays in order, with up to 10,000 arrays and maps inside each other. A non-empty map whose keys are all integers becomes a list holding each value at its integer index, any other map with scalar keys becomes a map holding each value under the key's text; the empty map becomes an empty map. An integer key that does not fit the platform's int is an error where it would be an index, never another index.",
 ["inputs"],"all valid documents: every format code, every legal width for each item, key kinds mixed within one map, keys in any order",
 "Tests only decode bytes the library itself wrote; no float32, signed form of a positive number, over-long header, mixed-key or unsorted map is ever decoded.",
 ["unpack.go","msgpack.go"],
 [("messageParser.Parse*","msgpack.go"),("nextFormat and its code tables","msgpack.go"),("doParseMap key handling and sorting","unpack.go")],
 ["value.Unpack and accessors of the result"])
p("C04","Decoding untrusted bytes is total and bounded",
 "Unpack and Read return a value or an error for every byte string, on 64-bit and on 32-bit platforms: they never panic, overflow the stack or run forever. The memory they allocate is bounded by a constant plus a fixed multiple of the input length, whatever lengths, counts, nesting or exponents the input claims. A value they return without error can be packed, printed as text and JSON, and compared without a panic, and its packed form decodes back to the same packed form.",
 ["inputs"],"all byte strings: random, mutated valid encodings, truncated, with inflated counts, deep nesting, huge exponents",
 "No test feeds malformed input at all.",
 ["unpack.go","msgpack.go","number.go"],
 [("messageBufUnpacker.Next/Read bounds checks","msgpack.go"),("allocation from claimed counts","unpack.go"),("recursion on nesting","unpack.go")],
 ["value.Unpack, value.Read: return, panic, bytes allocated"])
p("C05","Truncated input is always rejected",
 "Every strict prefix of a value's encoding is rejected with an error and never yields a value, from a buffer and from a reader alike. Input that ends inside a value, in a buffer or a reader, is not reported as a clean end of input (io.EOF), which is reported only when the input ends exactly between values.",
 ["inputs","fault_sequences"],"all values and all cut positions, in single values and in streams of several values",
 "No test truncates anything.",
 ["unpack.go","msgpack.go","utils.go"],
 [("messageBufUnpacker / messageIOUnpacker end-of-input handling","msgpack.go"),("EOF mapping inside containers","unpack.go")],
 ["error returned by value.Unpack, value.Read, value.ReadStream"])
p("C06","Serialization is deterministic for equal content",
 "The packed bytes, hex, JSON and hash of a collection depend only on its content: building the same content by any order of insertions, overwrites and removals, from Go maps, from unsorted or sorted entries, by copy constructors, in the mutable or the immutable variant, gives identical output every time. Packing a decoded value reproduces the bytes it was decoded from when they came from Pack. Hash returns the packed bytes together with exactly the requested digest of them.",
 ["histories","inputs"],"all construction histories of the same content (including nested collections and re-serialization of the same object)",
 "README promises determinism for hashing; tests compare one hex string for one fixed insertion order of three keys and never call Hash.",
 ["sortedmap.go","immutablemap.go","sparselist.go","utils.go"],
 [("sorted entry order kept by Insert/Put/constructors","sortedmap.go, immutablemap.go, sparselist.go"),("Hash","utils.go")],
 ["value.Pack, value.Hex, value.Hash, value.Jsonify"])
p("C07","Immutable collections never change",
 "No operation on an immutable list or map, or on anything derived from it, ever changes the content observed through that collection or any other version of it: every version keeps exactly the content it had when it was created. The same holds for versions of a sparse list when fast appends are switched off, as long as no in-place update is made. Insertion of a slice of values leaves the caller's slice unchanged and does not keep reading it later.",
 ["histories"],"all histories of derivations in which any older version may be the base of the next operation (branching histories), with every version re-read after every step",
 "Tests keep only the latest version (b = b.Put(...)), so sharing of storage between versions is never observed.",
 ["immutablelist.go","immutablemap.go","sparselist.go"],
 [("copy-on-write in append/insertAt/removeAt/replaceAt/insertSliceAt/removeSliceAt","immutablelist.go, immutablemap.go"),("AllowFastAppends","api.go, sparselist.go")],
 ["all readers of every version"])
p("C08","Dense lists behave as sequences",
 "Mutable and immutable dense lists behave as a plain sequence under any history of operations applied to the latest version: append, put (past the end it pads with absent cells), insert (at or past the end it appends), remove, and bulk insert/delete at an index, with negative or out-of-range indexes leaving the list unchanged where the sequence has no such position. Length, element access (Null outside the list), items, entries, values and select all agree with that sequence.",
 ["histories"],"all operation sequences with indexes before, inside, at the ends and beyond the list, and nil arguments",
 "Tests run one fixed sequence of five calls per list type; insertion and bulk operations on dense lists are never called.",
 ["solidlist.go","immutablelist.go"],
 [("insertAt/removeAt/putAt/insertSliceAt special cases for first, last and middle","solidlist.go, immutablelist.go")],
 ["List interface"])
p("C09","Maps behave as sorted multimaps",
 "Mutable and immutable maps behave, under any history of operations applied to the latest version, as a sequence of entries kept in ascending byte order of their keys: Put replaces the first entry of an existing key, Insert and InsertAll add entries in front of those with the same key, Remove drops the first, DeleteAll all of them. Len, keys, values, entries, lookup (first entry, Null when absent), select and the Go-map view all agree with that sequence, for keys that are any strings and for maps built by any constructor.",
 ["histories"],"all operation sequences over few and many keys, including empty, prefix-related, non-ASCII and duplicated keys",
 "Tests run one fixed sequence of about eight calls over four keys; bulk insertion/deletion on maps is never called.",
 ["sortedmap.go","immutablemap.go"],
 [("binary search plus insertAt/replaceAt/removeAt/insertSliceAt/removeSliceAt","sortedmap.go, immutablemap.go")],
 ["Map interface"])
p("C10","Sparse lists behave as index-keyed sorted multimaps",
 "A sparse list behaves, under any history of operations applied to the latest version and with fast appends on or off, as a sequence of cells kept in ascending order of their integer keys: PutAt replaces the first cell of an existing key, InsertAt and InsertAll add cells in front of those with the same key, Append adds after the highest key (at FirstIndexKey when empty), RemoveAt drops the first cell of a key and DeleteAll all of them. Length is one past the highest key, never negative and never beyond the highest integer, at which Append stays; access, select, items, entries, values (dense, negative keys left out) agree with that sequence.",
 ["histories","configurations"],"all operation sequences over negative, small, clustered and very large keys, both settings of the fast-append switch",
 "Tests cover two short fixed sequences with the default switch only; negative keys and values are not touched.",
 ["sparselist.go","listitem.go","api.go"],
 [("binary search plus insertAt/replaceAt/removeAt/insertSliceAt/removeSliceAt and AllowFastAppends","sparselist.go")],
 ["List interface of sparse lists"])
p("C11","In-place updates are exact, honest and isolated from copies",
 "An in-place update on a mutable list or map calls the updater once with the current value of the addressed (first matching) cell, replaces exactly that cell with the result (nil becomes Null) and returns true. When the cell does not exist, or the collection is immutable, it returns false without calling the updater, and nothing changes. While the updater runs the collection still has its old content and may be used, and an updater that panics changes nothing. A collection made by a copy constructor has the source's content, is updatable if and only if it is of the mutable variant, and neither side ever sees updates made to the other. Packed and printed forms and equality always follow the current content.",
 ["histories"],"all mixes of updates, structural operations and copies between mutable and immutable variants, including duplicate keys and updates through entries",
 "Update, UpdateAt and the copy constructors have no test at all.",
 ["listitem.go","mapentry.go","solidlist.go","sparselist.go","sortedmap.go","immutablemap.go","immutablelist.go"],
 [("Update / UpdateAt","all collections"),("SortedMapCopyOf, ImmutableMapCopyOf","sortedmap.go, immutablemap.go")],
 ["Update return value and all readers of source and copy"])
p("C12","Equal is a faithful, symmetric, nil-tolerant comparison",
 "Equal(a, b) never panics and always gives the same answer as Equal(b, a), for nil, every kind and every representation. It is true for two values of the same content whatever variant they are held in (mutable or immutable, text or raw string bytes, integer type of a number; nil counts as Null; doubles within PrecisionLevel), except that a NaN equals nothing. It is false whenever kind, length, any key, position or element differs, or two numbers differ in value (when one of them is a double both are compared as doubles, within that precision).",
 ["inputs"],"all pairs of values: equal content in different variants, minimally different content, unrelated values, nil; nested and with duplicate keys",
 "Tests only ever compare a value with its own decoded copy and expect true; no inequality between similar values is tested.",
 ["utils.go","number.go","string.go","null.go","bool.go","unknown.go","mapentry.go","listitem.go"]+ALLC,
 [("Equal methods and value.Equal","all value files, utils.go")],
 ["value.Equal, Value.Equal, MapEntry.Equal, ListItem.Equal"])
p("C13","JSON output is valid and faithful",
 "The JSON text produced for any value is valid JSON, and a standard JSON parser reads from it the same structure: null, booleans, long and double numbers exactly (NaN and infinities as null), text strings (invalid UTF-8 replaced), base64 strings with the configured prefixes for raw bytes and ext values, quoted hexadecimal text for big integers and decimals, arrays for dense lists, objects for maps and sparse lists. PrintJSON, MarshalJSON, Jsonify, encoding/json and String of a collection agree.",
 ["inputs"],"all value trees, including strings and keys with quotes, backslashes, control, non-printable, non-BMP and invalid characters",
 "Tests print ASCII literals with at most one quote; keys are always alphanumeric.",
 ["string.go","number.go","sortedmap.go","immutablemap.go","sparselist.go","solidlist.go","immutablelist.go","unknown.go","utils.go"],
 [("PrintJSON / MarshalJSON","every value file")],
 ["value.Jsonify, MarshalJSON, json.Marshal"])
p("C14","Text forms parse back and parsing is total",
 "Parsing a number's text form gives a number of exactly the same value (for a double, the same double), and parsing a raw string's text form gives the same bytes; booleans and null parse back as well, and of other texts only those Go's strconv takes for true are true. Parsing never panics on any text: decimal integers that fit in 64 bits parse exactly, hexadecimal text (with optional sign and hexadecimal decimal exponent) parses exactly as big integer or decimal, other text accepted as floating point parses to that nearest double, the empty text and null are zero, and everything else (including an exponent out of range) is NaN. The text of an extension is its prefix followed by its bytes as base64. The prefixes and the exponent delimiter are the configured ones. Text without the base64 prefix, or whose base64 part is malformed, parses as that same text.",
 ["inputs"],"all numbers of the four types, all byte strings, and arbitrary text",
 "Tests parse about 15 literals; exponents are always small and well formed.",
 ["number.go","string.go","bool.go","null.go"],
 [("ParseNumber, parseHexNumber, parseExp, formatBigInt, formatDecimal, formatExp","number.go"),("ParseString","string.go")],
 ["value.ParseNumber, ParseString, ParseBoolean, ParseNull, String()"])
p("C15","Number arithmetic and conversion match exact mathematics",
 "Add and Subtract give a result of the left operand's type equal to the mathematical result (64-bit wrap-around for longs, IEEE for doubles with NaN absorbing, exact for big integers and decimals) after converting the right operand (a number of any implementation) to that type, never change their operands, also when both are the same number, and never panic. Conversions between long, double, big integer and decimal are exact whenever the value is representable; otherwise doubles are the nearest double, fractions are dropped toward zero (decimal to big integer rounds down), a double converts to the decimal of its shortest text, and NaN and infinities convert to big integer and decimal as zero.",
 ["inputs"],"all pairs of numbers over the four types, including extremes, huge magnitudes, positive and negative exponents, NaN and infinities",
 "Tests add and subtract 3 and 2, 3.3 and 2.2, and NaN; no mixed types, no bigint or decimal arithmetic.",
 ["number.go"],
 [("Add/Subtract/Long/Double/BigInt/Decimal on the four number types","number.go")],
 ["Number interface"])
p("C16","Typed getters are total and give documented defaults",
 "The typed getters of every list and map never panic, whatever value (or absence) the addressed cell holds. A value of the requested kind is returned as it is; an absent or Null cell gives false, zero, the empty string, the empty list or the empty map; any other value is converted through its text form, which for a collection is its JSON; a map asked for as a list gives its values in key order, a list asked for as a map gives its elements under their index text, and any other kind asked for as list or map gives the empty one.",
 ["inputs"],"all collections of all variants holding any kind in the addressed cell, gaps, nil cells, out-of-range and negative indexes, missing keys",
 "Tests call getters only on present cells of the requested kind.",
 ALLC,
 [("GetBool*/GetNumber*/GetString*/GetList*/GetMap*","all collection files")],
 ["List.Get*At, Map.Get*"])
p("C17","Tagged structs survive packing and stay readable as values",
 "Packing any tagged struct and unpacking it into a fresh struct of the same type restores every field: scalars, lists, maps, nested structs, and slices of them, in both the plain and the repeated slice form, in order; nil fields stay nil. The bytes are an integer-keyed map with tags in ascending order and, read generically, hold each field's content under its tag; fields may arrive in any order.",
 ["inputs","programs"],"all struct types composed of the supported field shapes with any tags, and all field contents",
 "Tests use three fixed struct types with one content each, and never look at the content of unpacked slices.",
 ["struct.go"],
 [("doReflectPackStruct, ParseStruct, setFieldValue, reflectSchema","struct.go")],
 ["value.PackStruct, value.UnpackStruct, value.Unpack"])
p("C18","Struct decoding of untrusted bytes is total and bounded",
 "Unpacking arbitrary bytes into a struct returns nil or an error: it never panics, overflows the stack or runs forever, and allocates no more than a constant plus a fixed multiple of the input length. It returns an error for truncated input, an unknown tag, a non-integer tag and a value of a kind the field cannot hold.",
 ["inputs"],"all byte strings (mutated encodings, inflated counts, wrong kinds, truncations) against struct types of every field shape",
 "No test unpacks anything but the bytes just packed.",
 ["struct.go","unpack.go"],
 [("ParseStruct, parseFieldValue, setFieldValue","struct.go")],
 ["value.UnpackStruct: error, panic, bytes allocated"])
p("C19","Reading does not depend on how the input is delivered",
 "Reading from any io.Reader gives the same result as unpacking the same bytes from a buffer, however the reader splits its data into chunks, however often a read gives nothing, whatever else it can do (read single bytes, tell a length), and whether it reports end of input with the last data or after it. Reading a value consumes exactly the bytes of that value, so consecutive reads on one reader give consecutive values. A read error other than end of input is reported to the caller, not turned into a value or a clean end of input.",
 ["inputs","fault_sequences"],"all documents times all chunkings, reader capabilities and injected read errors at any position",
 "Tests read only from one bytes.Buffer, which always delivers everything in one call.",
 ["msgpack.go","utils.go","unpack.go"],
 [("messageIOUnpacker.Next/Read","msgpack.go")],
 ["value.Read, value.ReadStream"])
p("C20","Write errors are reported and stop the output",
 "If the underlying writer fails at any point, Write, WriteStream and the packer report that error instead of success and write nothing more after it; WriteStream then returns at once, even when its channel is never closed. What was written before the failure is a prefix of the correct encoding. Without a failure they report success and the complete encoding has been written.",
 ["fault_sequences","inputs"],"all values and value streams times all failure positions (call index or byte budget, with or without a partial write)",
 "No test uses a failing writer.",
 ["msgpack.go","utils.go"],
 [("messagePacker error state","msgpack.go"),("Write, WriteStream","utils.go")],
 ["error of value.Write, value.WriteStream, Packer.Error, and the bytes that reached the writer"])
p("C21","Streams deliver every value once and in order",
 "Writing any sequence of values to a stream and reading it back delivers exactly that sequence, each value once, in order and with its content intact even after later values have been read, and then closes the output channel and reports io.EOF. Streams do not hold values back: a value given to WriteStream has been written when the next one is taken, and ReadStream delivers a value as soon as its bytes have arrived. On malformed input the values before the defect are delivered, the channel is closed and the error is returned.",
 ["histories","inputs"],"all sequences of values (any kinds, any sizes, nil included), any channel buffering, corrupt tails",
 "One test streams the same string ten times.",
 ["utils.go","msgpack.go","unpack.go"],
 [("WriteStream, ReadStream","utils.go"),("reuse of the reader's header buffer","msgpack.go")],
 ["channel contents and returned errors"])
p("C22","Byte buffers are not shared behind the caller's back",
 "A value unpacked with the copy flag, or read from a reader, or a raw string made with the copy flag, never changes when the source buffer is overwritten afterwards (nor do numbers, text and map keys, copy flag or not), and no decoding ever writes to the source buffer; appending to the bytes such a value gives out changes no other value. Bytes returned by Pack, MarshalBinary, MarshalJSON, Hash or PackStruct belong to the caller: overwriting them changes no value and no later output.",
 ["inputs","histories"],"all values, every position overwritten, repeated serialization afterwards",
 "No test overwrites a buffer; copy is always false in tests.",
 ["msgpack.go","unpack.go","string.go","null.go","bool.go","utils.go"],
 [("copy flag in messageBufUnpacker.Read","msgpack.go"),("ext payload handling","unpack.go"),("shared constant encodings","msgpack.go")],
 ["content of values and later encodings after scribbling"])
p("C23","Sealed values open only unmodified and with the right keys",
 "Unsealing a sealed value with the matching keys gives back the same value. Changing, adding or dropping any byte, or using any other key, gives an error; no input of any length makes unsealing panic. Sealing the same value twice gives different bytes, in whatever portions the source of randomness delivers its bytes, and the packed value does not show in them.",
 ["inputs","fault_sequences"],"all values, key pairs, tamper positions and lengths from 0 up",
 "Seal and Unseal have no test.",
 ["utils.go"],
 [("Seal, Unseal","utils.go")],
 ["value.Seal, value.Unseal"])
p("C24","Immutable values can be shared between goroutines",
 "Any number of goroutines may concurrently read, derive from, compare, print and serialize the same immutable values (and pack, unpack and read structs of the same types) without data races, each getting the same results as a single goroutine would. Serializing and reading a collection of any variant concurrently, without modifying it, is equally safe.",
 ["schedules","histories"],"all combinations of operations run concurrently on shared values, observed under the race detector",
 "README promises values are good for multi-threading; no test uses two goroutines on one value.",
 ["immutablelist.go","immutablemap.go","struct.go","msgpack.go","utils.go"],
 [("copy-on-write","immutablelist.go, immutablemap.go"),("schemaCache","struct.go")],
 ["race detector reports and results per goroutine"])
p("C25","Unsupported struct shapes are reported, not crashed on",
 "Packing or unpacking a struct type that is not supported (a field without a tag or with a non-numeric tag, two fields with the same tag, an unexported field, a field that is neither a value nor a struct pointer, a fixed-size array, a recursive type, a non-pointer or a pointer to a non-struct) and packing nil list elements returns an error, repeatedly and regardless of which types were used before. It never panics and never overflows the stack.",
 ["programs","histories"],"all Go struct types mixing supported and unsupported field shapes at any nesting depth, used in any order",
 "Tests use only well-formed struct types.",
 ["struct.go"],
 [("doReflectSchema, schemaCache, doReflectPackValue","struct.go")],
 ["error of value.PackStruct, value.UnpackStruct"])
p("C26","Token-level packing and parsing mirror each other",
 "Any sequence of tokens written with the packer is read back by the buffer unpacker and by the reader unpacker as exactly the same sequence of formats and parsed payloads, with headers of every width, consuming exactly the bytes written; raw bytes are passed through verbatim and negative sizes count as zero. Parsing a token with the parser method of another token kind reports an error.",
 ["histories","inputs"],"all token sequences and payload sizes, all mismatched parse calls",
 "Tests use the token API only through whole values.",
 ["msgpack.go","pack.go"],
 [("messagePacker, messageBufUnpacker, messageIOUnpacker, messageParser","msgpack.go")],
 ["Packer, Unpacker and Parser interfaces"])
p("C27","Values describe themselves truthfully",
 "For every value, built or decoded, at every depth: Kind, the type of a number or string and their names tell what the value holds, and exactly the interface of that kind (Bool, Number, String, Extension, List, Map) is implemented. Class is the Go type of the value, one and the same for all values of a variant and different between variants. Object and Native give the exact content (nil, bool, int64, float64, *big.Int, decimal, string, bytes, the values, items or entries in order). IsNaN is true exactly for doubles that are not a number. A formatted string holds what package fmt makes of the same arguments.",
 ["inputs"],"all value trees, built with every constructor and decoded in every way",
 "Tests look at the kind and class of a few literals, never at Object of collections or decoded values.",
 ["api.go","number.go","string.go","unknown.go","immutablelist.go","immutablemap.go","solidlist.go","sortedmap.go","sparselist.go"],
 [("Kind, NumberType, StringType","api.go"),("Class, Object, Native","number.go, string.go, unknown.go, the collections")],
 ["Value.Kind, Class, Object; Number.Type, IsNaN; String.Type; Extension.Native"])
p("C28","Packing and parsing work through any implementation of the interfaces",
 "A value given to any Packer makes exactly the calls whose encodings, put together, are the value's encoding. Parse and ParseStruct over any Unpacker and Parser, whatever their headers look like and even when the header buffer is used again by the next call, give the content of the token sequence they deliver, consume exactly its tokens, and report every failure of a Next, Read or parser call as an error, with the cause as Parse's error. Collections holding values of foreign types that implement the interfaces pack, print, compare, and answer their getters like ones holding the package's own.",
 ["inputs","fault_sequences"],"all values and documents, all header representations, all points of failure, all placements of foreign values",
 "Tests use only the package's own packer, unpackers, parser and values.",
 ["pack.go","unpack.go","struct.go","msgpack.go"],
 [("doParseNested, doParseList, doParseMap","unpack.go"),("ParseStruct, Schema, Field","struct.go"),("Packer, Unpacker, Parser","pack.go")],
 ["value.Parse, value.ParseStruct, Value.Pack with implementations of the caller"])
with open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), max(len(x["title"]) for x in P))
