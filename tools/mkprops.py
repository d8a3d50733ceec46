import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech]}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    assert len(title)<=80
    P.append(d)
ALLC=["immutablelist.go","solidlist.go","sparselist.go","immutablemap.go","sortedmap.go"]
p("C01","Encode then decode gives the same value back",
 "For every value built from this library (null, booleans, all four number types, UTF-8 and raw strings, foreign extensions, dense and sparse lists, maps, nested to any depth), decoding the bytes produced by packing it succeeds and yields a value of the same kinds, with bit-identical numbers, identical strings and bytes, and the same elements or keys and values in the same order. An absent (nil) element comes back as Null; the empty sparse list comes back as the empty map, because the wire format has one empty-map encoding; extensions whose tag is reserved for big integers and decimals, and collections or strings of 2^32 or more entries, are outside the claim.",
 ["inputs"],"every value tree, of every size and nesting, through Pack/Write/MarshalBinary and Unpack/Read/Parse",
 "The tests round-trip a handful of small values; the claim ranges over all values and all lengths, including the header-size boundaries (31/32, 255/256, 65535/65536) and nesting, which no sample reaches.",
 ["msgpack.go","unpack.go","utils.go","number.go","string.go","unknown.go"]+ALLC,
 [("encoder: one header per kind and size class","msgpack.go messagePacker/messageWriter"),("decoder: dispatch on the first byte","unpack.go doParse/doParseList/doParseMap/doParseExt, msgpack.go nextFormat/messageParser")],
 ["Pack","Unpack"])
p("C02","Encoded bytes are canonical MessagePack",
 "The bytes produced for any value are exactly its MessagePack encoding with the shortest applicable integer form (fixint, 8/16/32/64-bit, big-endian), the shortest applicable string, binary, extension, array and map header, 64-bit floats, maps in ascending key order and sparse lists as integer-keyed maps. Packing through a packer, Pack, MarshalBinary, Write and the hex rendering all agree on those bytes.",
 ["inputs"],"every value, and every 64-bit integer, float and length below 2^32 given to the writer",
 "Tests pin a few literals; a wrong size class or a wrong header byte at one boundary shows only for lengths or integers the samples skip (for example arrays longer than 65535).",
 ["msgpack.go","utils.go","number.go","string.go","null.go","bool.go","unknown.go"]+ALLC,
 [("header writers choose the size class by the length","msgpack.go messageWriter"),("each value kind packs itself","Pack methods")],
 ["Pack","MarshalBinary","Hex","Write"])
p("C03","Decoding arbitrary bytes is total and rejects truncated data",
 "For every byte sequence, decoding returns (it never panics) and gives either a value with a nil error or a nil value with a non-nil error. A sequence that stops before the encoded value is complete is always reported as an error, and a successful decode is one that the MessagePack grammar justifies byte by byte (the reserved byte 0xc1 reads as null). The memory the decoder reserves is bounded by a fixed multiple of the bytes actually present, whatever lengths the headers announce.",
 ["inputs"],"every byte sequence of every length, from memory or from a stream",
 "The tests never decode malformed input; all prefixes, all 256 leading bytes, mixed-key maps and lying length headers have to be covered.",
 ["unpack.go","msgpack.go","utils.go"],
 [("first-byte table and size check","msgpack.go nextFormat, messageBufUnpacker.Next/Read"),("recursive descent with error propagation","unpack.go")],
 ["Unpack","Read","Parse"])
p("C04","Stream decoding equals memory decoding for any fragmentation",
 "Reading a value from an io.Reader gives exactly the value that decoding the same bytes from memory gives, and an error exactly when that fails, however the reader splits its data into short reads, whether or not it offers ReadByte, and whether it reports end of input together with the last bytes or afterwards. It consumes no byte beyond the value it returns, so consecutive values can be read from one stream.",
 ["inputs","schedules"],"every byte sequence and every way a reader may deliver it (chunk sizes, data together with EOF, no ByteReader)",
 "Tests read from bytes.Buffer only, which always fills the request; short reads and readers without ReadByte never occur.",
 ["msgpack.go","utils.go","unpack.go"],
 [("stream unpacker","msgpack.go messageIOUnpacker.Next/Read, MessageReader")],
 ["Read","ReadStream","MessageReader"])
p("C05","Sink failures are reported and stop the output",
 "If the writer a value is packed to fails at any point, Write, WriteStream and the packer's error report that failure, whatever kind of value was being written. After the first failed write nothing further is handed to the writer.",
 ["fault_sequences","inputs"],"every value and every position in the output at which the sink starts to fail",
 "Tests write to memory buffers, which never fail; every call site of the sink has to keep the first error.",
 ["msgpack.go","utils.go"],
 [("sticky error in the packer","msgpack.go messagePacker"),("loop condition on the packer error","utils.go WriteStream")],
 ["Write","WriteStream","Packer.Error"])
p("C06","Serialization is deterministic in the content",
 "The bytes, the hex rendering, the JSON text and the hash of a value are functions of its content alone: two values with the same content serialize identically whatever sequence of operations, iteration order of a source hash map, mutability flavour of the collection or appended spare capacity produced them. Serializing never changes the value, so serializing again gives the same bytes.",
 ["inputs","histories"],"every pair of equal-content values and every construction history",
 "Tests compare one construction against one literal; map iteration order and construction history are sampled once.",
 ["immutablemap.go","sortedmap.go","utils.go"]+["immutablelist.go","solidlist.go","sparselist.go"],
 [("entries kept sorted by key","immutablemap.go, sortedmap.go, sparselist.go"),("constructors from hash maps sort","ImmutableMapOf, SortedMapOf")],
 ["Pack","Hex","Jsonify","Hash"])
p("C07","Maps stay sorted and behave as ordered multimaps",
 "After any sequence of operations a map's entries are in ascending key order, and Get, Put, Insert, Remove, Select, InsertAll, DeleteAll, Len, Keys, Values, Entries and HashMap act as on a sorted multimap: Get returns the first entry's value or Null, Put replaces the first entry of the key or adds one, Insert and InsertAll add entries in order before existing ones of the same key except at the end, Remove drops the first entry of the key, DeleteAll all of them, and every other entry is kept with its order. Both the immutable and the mutable map obey this; a mutable map's receiver may be consumed by the call, the returned map is the result.",
 ["inputs","histories"],"every sorted map of every size, every key and value, every operation sequence",
 "Tests exercise three or four keys; position-dependent branches (first, last, middle, absent, duplicates) multiply with size and spare capacity.",
 ["immutablemap.go","sortedmap.go","mapentry.go"],
 [("binary search for the first entry not below the key","sort.Search in each operation"),("position-specific splice","insertAt/removeAt/insertSliceAt/removeSliceAt")],
 ["Map methods"],[("entries","sorted slice of entries","immutablemap.go, sortedmap.go")])
p("C08","Dense lists behave as sequences",
 "For dense lists, immutable and mutable, PutAt, InsertAt, Append, RemoveAt, InsertAll, DeleteAll, Select, GetAt, Len, Items, Entries and Values act as on a mathematical sequence: PutAt replaces one position (growing with absent elements when beyond the end), InsertAt and InsertAll splice before the position (appending when at or beyond the end), RemoveAt drops one position, negative or absent positions leave the list unchanged, nil arguments become Null, and all other elements are kept in order. A mutable list's receiver and the slice handed to its InsertAll may be consumed by the call; the returned list is the result.",
 ["inputs","histories"],"every list length, spare capacity, index (including negative and far beyond the end) and value",
 "Tests use two or three elements; the code has separate branches for first, last and middle positions and depends on spare capacity and aliasing.",
 ["immutablelist.go","solidlist.go"],
 [("splice helpers","insertAt/removeAt/putAt/insertSliceAt/appendSlice")],
 ["List methods"])
p("C09","Sparse lists stay sorted and behave as integer-keyed multimaps",
 "After any sequence of operations a sparse list's items are in ascending index order, and GetAt, PutAt, InsertAt, Append, RemoveAt, Select, InsertAll, DeleteAll, Len, Items, Entries and Values act as on a sorted multimap from integers: PutAt replaces the first item at the index or adds one, InsertAt and InsertAll add items without disturbing others, RemoveAt drops the first item, DeleteAll all items at the index, Append uses the index after the largest, Len is one more than the largest index (zero when there is none or it is negative) and Values places non-negative indexes in an array of that length. This holds whether or not fast in-place appends are allowed; the receiver may be consumed by the call, the returned list is the result.",
 ["inputs","histories","configurations"],"every sorted item sequence, every index (negative included) and both settings of the fast-append switch",
 "Tests use a few non-negative indexes with one switch setting.",
 ["sparselist.go","listitem.go"],
 [("binary search by index","sort.Search in each operation"),("splice helpers under AllowFastAppends","append/insertAt/removeAt/insertSliceAt/removeSliceAt")],
 ["List methods on sparse lists"])
p("C10","Immutable collections never change",
 "No operation on an immutable list or immutable map changes that list or map, an earlier version derived from it, or any slice or value passed in as an argument; each modifying operation returns a new collection and leaves the old one with its old content. Updating in place is refused: Update and UpdateAt return false and do nothing.",
 ["histories","inputs"],"every immutable list and map, every operation, every chain of versions sharing storage",
 "Aliasing only shows when two versions share an array with spare capacity; the tests keep one version at a time.",
 ["immutablelist.go","immutablemap.go","mapentry.go","listitem.go"],
 [("copy before write","immutable list/map splice helpers"),("Update methods of immutable items and entries return false","immutablelist.go, immutablemap.go, listitem.go, mapentry.go")],
 ["old versions after each operation"])
p("C11","Read-only operations write nothing shared",
 "Packing, serializing to JSON or text, hashing, comparing, measuring and every getter or accessor (including the typed getters, Items, Entries, Keys, Values, HashMap, Select) leave every pre-existing object unmodified: they write only to memory they allocate themselves and to the writer, builder or packer they are given. Values can therefore be read from several goroutines without synchronization, and no returned byte slice from MarshalBinary or MarshalJSON aliases shared or later reused memory.",
 ["schedules","inputs"],"every read-only operation on every value, under any interleaving with other read-only operations",
 "A benign-looking write (a lazy sort, a cached buffer, a shared constant slice) is invisible in single-threaded tests.",
 ["null.go","bool.go","number.go","string.go","unknown.go","utils.go","msgpack.go"]+ALLC,
 [("value receivers and local buffers","all Pack/PrintJSON/Marshal/Get methods")],
 ["memory footprint of readers"])
p("C12","Typed getters are total and coerce as documented",
 "GetBoolAt, GetNumberAt, GetStringAt, GetListAt and GetMapAt on lists and GetBool, GetNumber, GetString, GetList and GetMap on maps never panic and never return nil: a missing, nil or Null element gives false, zero, the empty string, the empty list or the empty map; an element of the requested kind is returned as it is; asked for a boolean, number or string, an element of another kind is converted by parsing its text form; asked for a list, a map gives its values; asked for a map, a list gives its entries keyed by decimal index; any other kind gives the empty collection.",
 ["inputs"],"every collection, every index or key, every element kind including absent elements",
 "Tests ask for a few present elements; nil gaps and cross-kind conversions are not sampled.",
 ALLC,
 [("typed getters","Get*At / Get* in each collection")],
 ["typed getters"])
p("C13","Equality is total, symmetric and content-based",
 "Equal never panics, treats nil and Null alike, is symmetric for every pair of values, and is reflexive for values containing no NaN. Two maps or two sparse lists are equal exactly when they hold equal values under the same keys in the same order, two dense lists, or a dense and a sparse one, exactly when they have the same length and equal values at every index below it, regardless of mutability flavour; two strings are equal exactly when their bytes agree, whether UTF-8 or raw; numbers of exact types (long, big integer, decimal) exactly when they denote the same number; when a double takes part, both are compared as doubles within the declared precision, infinities only to themselves, NaN to nothing.",
 ["inputs"],"every pair of values of every kind and nesting",
 "Pairs of kinds and number types grow quadratically and tests touch mostly same-type pairs.",
 ["utils.go","null.go","bool.go","number.go","string.go","unknown.go","listitem.go","mapentry.go"]+ALLC,
 [("Equal methods","all value types"),("nil-friendly helper","utils.go Equal")],
 ["Equal"])
p("C14","JSON output is well formed and consistent",
 "For every value, the JSON text is syntactically valid JSON with the documented shape: strings escaped as JSON strings, map keys included; raw bytes as prefixed base64; big integers and decimals as quoted hexadecimal; NaN and infinities as null; absent elements as null; sparse lists as objects keyed by decimal index. PrintJSON, Jsonify, MarshalJSON and the collections' String all give that same text, and PrintJSON only appends to the builder.",
 ["inputs"],"every value, including every string and key content (control characters, quotes, invalid UTF-8)",
 "Tests print a few ASCII values; escaping and non-finite numbers need arbitrary content.",
 ["string.go","number.go","unknown.go","null.go","bool.go","utils.go"]+ALLC,
 [("PrintJSON methods","all value types")],
 ["Jsonify","MarshalJSON","String"])
p("C15","Number text form parses back; parsing is total",
 "Parsing the text form of any number returns a number of the same type with the same value: longs in decimal, big integers and decimals in hexadecimal with the exponent delimiter (every sign and every 32-bit exponent), NaN to NaN, and any other double to a number whose double value equals it (a decimal with exponent zero comes back as the big integer of the same value). Parsing never panics: for every string it returns a number, NaN when the string denotes none; parsing strings, booleans and null is likewise total and inverse to their text forms.",
 ["inputs"],"every number and every string",
 "Tests parse about twenty literals; exponents, odd-length and oversized hexadecimal digits are unbounded.",
 ["number.go","string.go","bool.go","null.go"],
 [("formatBigInt/formatDecimal/formatExp","number.go"),("ParseNumber/parseHexNumber/parseExp","number.go")],
 ["ParseNumber","ParseString","ParseBoolean","ParseNull"])
p("C16","Number arithmetic and conversions are exact for their type",
 "Add and Subtract return a number of the receiver's type: for longs the 64-bit wrap-around sum of both long values, for big integers and decimals the exact sum of the operands converted to that type, for doubles the floating-point sum with NaN whenever an operand is NaN. Conversions agree with the mathematical value: integers convert to big integer and decimal exactly, a decimal or a finite double converts to big integer by rounding down or towards zero respectively, and no conversion or operation panics or alters an operand.",
 ["inputs"],"every pair of numbers of every type",
 "Sixteen type pairs times unbounded values; tests cover small same-type sums.",
 ["number.go"],
 [("Add/Subtract/Long/Double/BigInt/Decimal methods","number.go")],
 ["Number methods"])
p("C17","Decoded values do not alias what they were decoded from",
 "A value decoded with the copy flag, or from a stream, shares no memory with the input buffer, with the decoder's internal scratch buffer or with any value decoded before or after it, so later changes to the input or further decoding never change it. Without the copy flag only raw strings and foreign extensions may refer to the input.",
 ["histories","inputs"],"every input and every later use of the input buffer or the decoder",
 "Tests look at a value right after decoding it, before the scratch buffer is reused.",
 ["msgpack.go","unpack.go"],
 [("copy flag","messageBufUnpacker.Read"),("fresh buffer per read","messageIOUnpacker.Read"),("scratch buffer reused for headers","messageIOUnpacker.Next")],
 ["Unpack(copy)","Read","ReadStream"])
p("C18","Value streams keep order and end cleanly",
 "Writing a channel of values emits exactly the concatenation of their encodings in channel order (a nil value as Null) and returns nil when the channel closes without a sink error; reading a stream delivers exactly the values encoded in it, in order, then closes the output channel and returns the error: end-of-input exactly when the stream ends between two values, another error at the first malformed or truncated value. The output channel is closed exactly once on every path and nothing is sent after an error.",
 ["histories","inputs"],"every sequence of values and every stream content, including ones that fail midway",
 "Tests run one short sequence.",
 ["utils.go"],
 [("WriteStream/ReadStream loops","utils.go")],
 ["WriteStream","ReadStream"])
p("C19","Sealing and hashing carry exactly the packed bytes",
 "Hash returns the packed bytes of the value together with the digest of exactly those bytes. Sealing encrypts exactly the packed bytes under a fresh random nonce that is prepended to the result; unsealing with the matching keys returns the decoded value, and returns an error and no value, never a panic, for every other input including ones too short to hold a nonce.",
 ["inputs"],"every value, every key pair, every ciphertext of every length",
 "One seal/unseal pair is tested; short, truncated or tampered inputs are not.",
 ["utils.go"],
 [("Seal/Unseal/Hash","utils.go")],
 ["Seal","Unseal","Hash"])
p("C20","In-place update changes exactly the addressed element",
 "Updating a mutable list, sparse list or sorted map at an index or key that exists calls the updater exactly once with the current value, stores its result there (nil becomes Null), returns true and changes nothing else; at an index or key that does not exist it returns false, never calls the updater and changes nothing. Mutable items and entries update the same way and immutable ones never do.",
 ["inputs"],"every mutable collection, index or key and updater result",
 "Tests update one element of a two-element collection.",
 ["solidlist.go","sparselist.go","sortedmap.go","listitem.go","mapentry.go"],
 [("UpdateAt/Update","solidlist.go, sparselist.go, sortedmap.go, listitem.go, mapentry.go")],
 ["UpdateAt","Update"])
p("C21","Tagged structs survive pack and unpack",
 "For every struct type whose fields are all tagged and hold library values, pointers to such structs, or slices of these, packing an instance and unpacking the bytes into a fresh instance reproduces every non-nil field with equal content and leaves nil fields nil, including repeated fields, and unpacking never panics on malformed bytes: it returns an error.",
 ["programs","inputs"],"every conforming struct type and instance, and every byte sequence",
 "Tests use two fixed struct types and well-formed bytes.",
 ["struct.go"],
 [("schema by reflection","struct.go doReflectSchema"),("PackStruct/UnpackStruct","struct.go")],
 ["PackStruct","UnpackStruct"])
p("C22","Constructors and copies produce exactly the given content",
 "Collection constructors hold exactly the given elements (sorting a supplied entry or item slice by key when it is not declared sorted, one entry per key when built from a hash map); copy constructors and CopyOf yield independent collections with the same content, so that later updates to the source do not show in the copy and the copy has the mutability its constructor names. Scalar constructors and accessors return the payload they were given, and a raw string built with the copy flag does not share its bytes with the argument.",
 ["inputs"],"every source slice, hash map, collection and payload",
 "Tests construct small collections and never mutate the source afterwards.",
 ["factory.go","immutablelist.go","solidlist.go","sparselist.go","immutablemap.go","sortedmap.go","mapentry.go","listitem.go","utils.go","string.go","number.go"],
 [("constructors","*Of, *CopyOf, SparseList, ImmutableMap, SortedMap, Raw, CopyOf")],
 ["constructors"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
