"""Writes /verif/properties.jsonl from the table below."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": ["src/v8serialize/" + f for f in files],
                    "mechanism": [{"name": n, "where": "src/v8serialize/" + w} for n, w in mech],
                    "state": [{"name": n, "meaning": m, "where": "src/v8serialize/" + w} for n, m, w in (state or [])],
                    "observe_at": observe or ["v8serialize.dumps / v8serialize.loads"],
                    "hook_needed": None}})

p("C01", "Every integer survives a dumps/loads round trip exactly",
  "For every Python int n and bool b, loads(dumps(n)) == n with no loss of precision, bools stay bools, and integers outside the exactly-representable double range come back as int. The wire form is the one JavaScript reads as the same number: values within the safe-integer range are Numbers, all others are BigInts.",
  ["inputs"], "all ints (every varint/zigzag/byte-length boundary), both bools, at the top level, inside containers and as property keys",
  "Tests sample integers at random; the boundaries between the uint32/int32/double/bigint representations and every varint and BigInt byte-length step must all be right at once.",
  ["encode.py", "decode.py", "constants.py"],
  [("varint / zigzag / bigint writers", "encode.py:WritableTagStream"), ("varint / zigzag / bigint readers", "decode.py:ReadableTagStream"), ("integer representation choice", "encode.py:TagWriter.serialize_int")])
p("C02", "Every double survives a round trip bit for bit",
  "For every 64-bit double x (including -0.0, infinities, subnormals and NaN), loads(dumps(x)) is a float with the same value and sign (NaN stays NaN). The same holds for doubles inside containers and wrapper objects, whatever other values are serialized alongside them: no value is ever replaced by a different value that merely compares equal to it.",
  ["inputs"], "all 2^64 bit patterns, alone and in pairs inside one container",
  "Random floats almost never hit equal-but-different pairs such as 0.0/-0.0 or 1/1.0/True in one payload.",
  ["encode.py", "decode.py"],
  [("write_double", "encode.py:WritableTagStream.write_double"), ("read_double", "decode.py:ReadableTagStream.read_double"), ("value de-duplication", "encode.py:DefaultEncodeContext.deduplicate")])
p("C03", "Every string survives a round trip in every string encoding",
  "For every string of Unicode scalar values (lone surrogates are outside this property), writing it in the one-byte, two-byte or UTF-8 representation and reading it back yields the same string, and the stream position afterwards is exactly at the end of the value. Text outside a representation's repertoire is rejected, never altered, and two-byte payloads written with their tag start at an even offset as V8 requires.",
  ["inputs"], "all strings up to the length bound over all code points, at all preceding stream offsets (parity, varint boundary)",
  "Round-trip tests sample short strings at a few offsets; alignment depends on the combination of offset and the number of length bytes.",
  ["encode.py", "decode.py"],
  [("write_string_*", "encode.py:WritableTagStream"), ("read_string_*", "decode.py:ReadableTagStream"), ("read_padding", "decode.py:ReadableTagStream.read_padding")])
p("C04", "loads() of arbitrary bytes returns a value or a decode error",
  "For any byte string, loads() terminates and either returns a value or raises DecodeV8SerializeError; no other exception type escapes and no read happens outside the supplied data. The error carries the data and a position within it. (Data nested deeper than the interpreter's recursion limit raises RecursionError.)",
  ["inputs"], "all byte strings up to the length bound, with every tag reachable",
  "Fuzz-style tests sample byte strings; malformed inputs that reach a given branch with a given boundary value are rare.",
  ["decode.py", "extensions.py", "constants.py", "jstypes/jsbuffers.py", "jstypes/jsregexp.py"],
  [("ensure_capacity", "decode.py:ReadableTagStream.ensure_capacity"), ("throw", "decode.py:ReadableTagStream.throw"), ("per-tag readers", "decode.py:TagReader")])
p("C05", "Truncated or over-declared data is always rejected",
  "If bytes d decode successfully consuming all of d, then every strict prefix of d is rejected with DecodeV8SerializeError (except the prefix ending exactly between a top-level array buffer and the view that follows it, which is itself complete data). Likewise a container whose trailing element/property count or length disagrees with its contents is rejected.",
  ["inputs"], "all encodings up to the length bound and all cut points; all declared counts",
  "Tests cut a few fixed messages; per-tag capacity checks have off-by-one positions that only one cut reveals.",
  ["decode.py", "extensions.py"],
  [("ensure_capacity", "decode.py:ReadableTagStream.ensure_capacity"), ("read_varint end of stream", "decode.py:ReadableTagStream.read_varint"), ("container count checks", "decode.py:ReadableTagStream")])
p("C06", "Object graphs keep their values, sharing and cycles",
  "For every graph of lists, tuples, dicts, sets, JSObjects, JSArrays, JSMaps and JSSets with shared and cyclic references, loads(dumps(g)) has the same shape: equal leaves, same container kinds and orders, and two positions hold the same mutable object after the round trip exactly when they did before (immutable values such as tuples, frozensets and primitive wrappers keep their value; equal ones may share). Nesting depth is within Python's recursion limit.",
  ["inputs"], "all graphs up to the node/edge bound: symbolic choice of container kind per node and of target per edge",
  "Hypothesis generates mostly trees; the aliasing pattern space (who points to whom, through which container kind) is combinatorial.",
  ["encode.py", "decode.py", "_references.py"],
  [("object log", "_references.py:SerializedObjectLog"), ("back references", "encode.py:serialize_object_references"), ("identity registered before children", "decode.py:TagReader")])
p("C07", "Back-reference IDs agree with V8's numbering in both directions",
  "In everything dumps() writes, the number in each object reference is the position of its target in V8's own object numbering, and loads() resolves each reference by that numbering, for every kind of object that takes an ID (plain containers, wrappers, dates, regexps, errors, buffers, views, shared/transferred buffers, host objects) and never counts one that does not.",
  ["inputs"], "all sequences of object kinds up to the length bound followed by a reference to any of them",
  "Each object kind takes its ID in its own reader and writer; a kind that forgets is only visible when a later object is referenced, which tests per kind do not do.",
  ["encode.py", "decode.py", "_references.py", "extensions.py"],
  [("record_reference calls", "encode.py:WritableTagStream"), ("record_reference calls", "decode.py:ReadableTagStream")],
  [("object log", "objects in order of their ID", "_references.py:SerializedObjectLog")])
p("C08", "Property keys are canonicalised exactly as JavaScript does",
  "Two property keys (str, int, or integral float of magnitude below 1e21) address the same JSObject property exactly when JavaScript would convert them to the same property key, and a key is an array index exactly when it is the canonical decimal form of an integer in 0..2^32-2. Canonicalisation is idempotent.",
  ["inputs"], "all strings up to the length bound, all ints, all integral floats",
  "The boundary cases (leading zeros, sign, 2^32-1, non-ASCII digits, integral floats, -0) interact and tests list a few of them.",
  ["jstypes/_normalise_property_key.py", "jstypes/jsobject.py"],
  [("normalise_property_key", "jstypes/_normalise_property_key.py"), ("canonical_numeric_index_string", "jstypes/_normalise_property_key.py")],
  observe=["JSObject.__getitem__/__setitem__", "normalise_property_key"])
p("C09", "JSObject and JSArray behave as JavaScript-ordered mappings",
  "After any history of set, delete, pop, update and clear operations, a JSObject or JSArray holds exactly the properties of a plain mapping given the same history, iterates integer keys in ascending order followed by string keys in insertion order, reports their number as its length, and never exposes a hole as a value. No operation fails except lookups or deletes of absent keys.",
  ["histories", "inputs"], "all operation histories up to the length bound with symbolic operation, key and value at every step, crossing the dense-to-sparse switch",
  "The state-machine test samples histories with random keys; bugs need specific orders of operations around representation switches.",
  ["jstypes/jsobject.py", "jstypes/jsarray.py", "jstypes/jsarrayproperties.py"],
  [("JSObject mapping methods", "jstypes/jsobject.py:JSObject"), ("dense/sparse switch", "jstypes/jsobject.py:JSObject._ensure_array_capacity")],
  [("array", "integer-keyed properties", "jstypes/jsobject.py:JSObject.array"), ("properties", "string-keyed properties", "jstypes/jsobject.py:JSObject.properties")],
  ["JSObject / JSArray mapping API"])
p("C10", "Dense and sparse array storage behave as one list-with-holes",
  "For any history of sequence operations (set, delete, insert, append, extend, resize, reverse, pop, clear), dense and sparse array properties contain the same elements, holes, length, used-element count and index order as a plain Python list with hole markers given the same history. The region and element views describe exactly that content. (Inserting at an index below -length is refused by both.)",
  ["histories", "inputs"], "all histories up to the length bound, symbolic operation, index (in and out of range, negative) and value-or-hole at each step",
  "Tests compare the two classes on sampled single operations; cached counts and sorted-key caches go stale only after particular sequences.",
  ["jstypes/jsarrayproperties.py"],
  [("DenseArrayProperties", "jstypes/jsarrayproperties.py"), ("SparseArrayProperties", "jstypes/jsarrayproperties.py"), ("element views", "jstypes/jsarrayproperties.py:ArrayPropertiesElementsView")],
  [("elements_used", "count of non-hole elements, kept incrementally", "jstypes/jsarrayproperties.py"), ("sorted keys cache", "lazily sorted index list of the sparse store", "jstypes/jsarrayproperties.py")],
  ["ArrayProperties sequence API"])
p("C11", "JSMap and JSSet key by JavaScript same-value-zero",
  "JSMap and JSSet treat two keys as the same exactly when JavaScript's same-value-zero does (numbers by value across int/float with 0 == -0 and NaN == NaN, bools never equal to numbers, strings by value, objects by identity), for any operation history, keep insertion order, and never fail on a legal key of any size.",
  ["histories", "inputs"], "all pairs/triples of keys over ints, floats, bools, strings, None/undefined and objects, with all operation histories up to the bound",
  "Python's own equality (1 == True == 1.0, nan != nan) conflicts with the rule on measure-zero pairs that sampling misses.",
  ["jstypes/jsmap.py", "jstypes/jsset.py", "jstypes/_equality.py"],
  [("same_value_zero", "jstypes/_equality.py"), ("JSMap", "jstypes/jsmap.py"), ("JSSet", "jstypes/jsset.py")],
  observe=["JSMap / JSSet API", "same_value_zero"])
p("C12", "Equality of cyclic values terminates and is sound",
  "Comparing any two graphs of JSObject/JSArray/JSMap/JSSet/JSError values, cyclic or not, terminates, is reflexive and symmetric, holds for isomorphic graphs that have no object in common, and never holds for graphs that can be told apart by following the same path from both roots to different leaf values. A comparison leaves no residue that changes a later one, even when it raised.",
  ["inputs", "histories"], "all pairs of graphs up to the node/edge bound with symbolic edges and leaves, including comparisons that raise",
  "The cycle-breaking rule depends on which objects are on both comparison stacks; only particular cross-linked graph pairs expose it.",
  ["_recursive_eq.py", "jstypes/jsobject.py", "jstypes/jsmap.py", "jstypes/jsset.py", "jstypes/jserror.py"],
  [("recursive_eq", "_recursive_eq.py:recursive_eq")],
  [("running comparisons", "objects whose comparison is on the stack", "_recursive_eq.py:_RUNNING_EQ_KEYS")],
  ["== on jstypes values"])
p("C13", "Views expose exactly the bytes JavaScript typed arrays would",
  "For every backing buffer, view type, offset and length, a typed array or DataView either is rejected at creation exactly when JavaScript would reject it, or spans exactly the specified in-bounds, element-aligned byte range; for resizable buffers its length, bounds state and contents after any resize are those JavaScript specifies. Element reads and writes address exactly those bytes and no others.",
  ["inputs", "histories"], "all buffer lengths, max lengths, offsets, lengths, resizes and view types within the size bound",
  "Length-tracking, out-of-bounds and alignment rules form a large grid; tests sample it.",
  ["jstypes/jsbuffers.py"],
  [("view bounds", "jstypes/jsbuffers.py:JSArrayBufferView"), ("typed views", "jstypes/jsbuffers.py:JSTypedArray"), ("DataView accessors", "jstypes/jsbuffers.py:JSDataView")],
  observe=["JSTypedArray / JSDataView properties and accessors"])
p("C14", "Array buffers keep contents and limits across resizes",
  "A JSArrayBuffer's byte length always lies in 0..max_byte_length; resizing keeps the common prefix and zero-fills growth (including bytes that were cut off and regrown), a disallowed resize is refused without changing anything, and data and max_byte_length always agree with each other for every kind of buffer the constructor accepts.",
  ["histories", "inputs"], "all initial contents, max lengths and resize sequences within the bound",
  "Stale bytes after shrink-then-grow and item-size confusion need specific sequences or inputs.",
  ["jstypes/jsbuffers.py"],
  [("JSArrayBuffer.resize", "jstypes/jsbuffers.py:JSArrayBuffer")], observe=["JSArrayBuffer API"])
p("C15", "Buffers and views survive a round trip and stay V8-readable",
  "Every array buffer (fixed, resizable, shared, transferred) and every in-bounds view over one round-trips through dumps/loads with the same bytes, limits, offset, length, element type and length-tracking state, and views that shared a buffer still share it. The view flags written always agree with the buffer written before them, so V8 accepts the result. Without the feature for resizable buffers they are written as fixed-length ones; shared and transferred buffers are named by their ID, and IDs and limits beyond 32 bits are refused.",
  ["inputs", "configurations"], "all buffer kinds, view types, geometries within the bound, both settings of each serialization feature",
  "The combination of buffer kind x feature flags x view geometry is large; tests cover the diagonal.",
  ["encode.py", "decode.py", "jstypes/jsbuffers.py"],
  [("write_js_array_buffer*", "encode.py:WritableTagStream"), ("read_js_array_buffer*", "decode.py:ReadableTagStream")])
p("C16", "Feature gating follows V8 versions monotonically",
  "dumps() uses an optional format feature only when it is enabled, either explicitly or because the requested V8 version supports it; a newer version never supports fewer features than an older one; and the reported first compatible V8 version is exactly the newest introduction version among the enabled features. With no optional features the output never contains optional constructs.",
  ["configurations", "inputs"], "all feature sets, all version numbers with symbolic components",
  "Tests use a handful of literal versions; ordering bugs need particular component combinations.",
  ["constants.py", "encode.py", "_versions.py"],
  [("SerializationFeature.supported_by", "constants.py:SerializationFeature"), ("Encoder.first_v8_version", "encode.py:Encoder"), ("feature checks", "encode.py:WritableTagStream")],
  observe=["SerializationFeature", "Encoder", "dumps"])
p("C17", "dumps() only ever emits well-formed V8 data",
  "Whenever dumps() returns, its output parses completely under the V8 wire grammar: version header, one value, declared counts and lengths equal to the actual contents, object keys only numbers or strings, references only to earlier objects; holes appear only as array elements; values that cannot be represented raise an error (a ValueError such as EncodeV8SerializeError) instead. An error never leaves a constraint behind that affects a later value: a custom step may catch a refusal and write something else in place of a value of which nothing was written yet.",
  ["inputs"], "all nested values up to the bound, including illegal keys and values at every position",
  "Round-trip tests use the same code's own reader and legal values only; constraint leaks need an illegal value in a particular position.",
  ["encode.py"],
  [("tag constraints", "encode.py:WritableTagStream.constrain_tags"), ("container writers", "encode.py:WritableTagStream")])
p("C18", "Errors round trip and both V8 error layouts are read",
  "A JSError or JSErrorData with any combination of name, message, stack and cause round-trips with every field preserved for the standard error names (any other name reads back as the generic Error), and loads() reads both the older (cause before stack) and newer (stack before cause) layouts to the same result. Cyclic causes work exactly when the feature for them is enabled, otherwise they are refused with IllegalCyclicReferenceV8SerializeError. (A JSError always has a message: None reads back as ''.)",
  ["inputs", "configurations"], "all field presence combinations, all names, both layouts, feature on/off, cause nesting within the bound",
  "Field order and optionality give many layouts; tests sample a few with fixed names.",
  ["encode.py", "decode.py", "jstypes/jserror.py", "constants.py"],
  [("write_js_error", "encode.py:WritableTagStream.write_js_error"), ("read_js_error", "decode.py:ReadableTagStream.read_js_error"), ("error names", "constants.py:JSErrorName")])
p("C19", "RegExp flags map one-to-one and round trip",
  "Every JavaScript-valid flag set and source round-trips unchanged, every invalid set (u and v together) is rejected, converting Python flags to JavaScript flags and back is the identity for the flags both languages have (IGNORECASE, MULTILINE, DOTALL, UNICODE), flags with no counterpart are dropped where they do not change the meaning (ASCII, LOCALE) and refused otherwise (VERBOSE), and flag letters map one-to-one to flags. An empty source reads as '(?:)'.",
  ["inputs"], "all flag bit sets, symbolic source strings within the bound",
  "2^9 flag sets and their Python counterparts; tests sample.",
  ["constants.py", "jstypes/jsregexp.py", "encode.py", "decode.py"],
  [("JSRegExpFlag", "constants.py"), ("JSRegExp", "jstypes/jsregexp.py")], observe=["JSRegExp", "dumps / loads"])
p("C20", "Dates round trip to the millisecond",
  "A timezone-aware datetime serialized and read back denotes the same instant to the precision of JavaScript dates: within one millisecond for every datetime, exact for whole milliseconds, and exact to the microsecond while a double can hold it (less than 2^43 ms from the epoch). Naive datetimes are local time. Dates that datetime cannot represent (outside years 1-9999, NaN, infinities) are decode errors.",
  ["inputs"], "all datetimes representable in both",
  "Double rounding in epoch conversion depends on the exact microsecond value.",
  ["encode.py", "decode.py"],
  [("write_js_date", "encode.py:WritableTagStream.write_js_date"), ("read_js_date", "decode.py:ReadableTagStream.read_js_date")])
p("C21", "Node.js buffer host objects interoperate exactly",
  "Every Node.js host-object buffer (each view type, any length within its element size) is read to a view of the same type over exactly its bytes, what the handler writes is what it reads back, malformed (unknown type code, length beyond the data) or truncated host objects are rejected, and surrounding values are unaffected.",
  ["inputs"], "all view type codes, lengths and contents within the bound",
  "The Node view-type numbering differs from V8's and alignment rules differ; tests use a fixture.",
  ["extensions.py"],
  [("NodeJsArrayBufferViewHostObjectHandler", "extensions.py")])
p("C22", "The reference log resolves each object to its own ID",
  "For any history of recording, replacing and acyclic recording, looking up an object gives the ID under which it was recorded, looking up an ID gives that object, unknown IDs (of any size or sign) and unrecorded objects raise the documented error, and an object being recorded acyclically is unreachable until its recording ends, even when it ends by exception.",
  ["histories", "inputs"], "all histories up to the bound, symbolic choice of operation and object, symbolic lookup ID",
  "Interaction of replacement with forward references and negative IDs is not sampled.",
  ["_references.py"],
  [("SerializedObjectLog", "_references.py")], observe=["SerializedObjectLog API"])
p("C23", "Wrapper objects keep their primitive's type and value",
  "A primitive wrapper object accepts exactly the primitive values and tags that JavaScript can wrap, is written with the tag it carries, and reads back as the same primitive value for every bool, number, BigInt and string. (loads() by default unwraps wrappers; a tag reader that keeps them gets the wrapper it was written from.)",
  ["inputs"], "all ints, doubles, bools and strings within the bound with every wrapper tag",
  "The value/tag compatibility boundary is at the safe-integer limits.",
  ["jstypes/jsprimitiveobject.py", "encode.py", "decode.py"],
  [("JSPrimitiveObject", "jstypes/jsprimitiveobject.py"), ("read_js_primitive_object", "decode.py:ReadableTagStream")])
p("C24", "Arrays keep holes, length and named properties when serialized",
  "Every JSArray round-trips with the same length, holes, elements and named properties whether it is written in the dense or the sparse form, both forms denote the same array, and the choice between them never changes the result; declared lengths beyond JavaScript's maximum are refused, as are start and end lengths that disagree. (An index beyond a sparse array's declared length grows the array.)",
  ["inputs"], "all arrays up to the length bound with symbolic hole patterns, plus all lengths up to the maximum with few elements",
  "The encoder picks the form from a size heuristic, so each hole pattern exercises only one form.",
  ["encode.py", "decode.py", "jstypes/jsarray.py"],
  [("serialize_js_array", "encode.py:TagWriter.serialize_js_array"), ("deserialize_js_array_*", "decode.py:TagReader")])
p("C25", "Encode and decode steps compose as documented",
  "Steps are consulted in order, each may handle, modify, delegate or refuse a value, an unhandled value or tag ends in the documented unhandled error, and replacing constants, container types or tag readers affects exactly the values it names and nothing else. Conflicting options (decode_steps with any other option, nodejs=True with a host_object_deserializer) are rejected with TypeError rather than ignored.",
  ["configurations", "inputs"], "all step chains up to the length bound with symbolic behaviour per step; all option combinations",
  "The chain x behaviour x option space is combinatorial; tests use one chain each.",
  ["encode.py", "decode.py"],
  [("DefaultEncodeContext", "encode.py"), ("DefaultDecodeContext", "decode.py"), ("TagReader", "decode.py:TagReader"), ("loads option checks", "decode.py:loads")])
p("C26", "Decoding does not depend on or alias the input buffer's type",
  "bytes, bytearray, memoryview and other byte buffers with the same contents decode to equal results, the input is left unchanged, and later changes to a mutable input never change an already decoded value.",
  ["inputs"], "all buffer-bearing payloads within the bound in every input type",
  "Tests pass bytes almost everywhere.",
  ["decode.py", "jstypes/jsbuffers.py", "_pycompat/typing.py"],
  [("Decoder.decodes", "decode.py:Decoder.decodes"), ("JSArrayBuffer copy", "jstypes/jsbuffers.py:JSArrayBuffer")])
p("C27", "Each Python value kind is written as its documented JavaScript kind",
  "Values of every supported Python kind (including subclasses and abstract collections) are written as the documented JavaScript kind: mappings as Map, sets as Set, other collections as Array, JS types as themselves, with elements in iteration order. Instances of subclasses of int, str and the like are written as that base value; kinds with no JavaScript counterpart (date, time, Decimal, plain Enum members, iterators) are refused as unhandled.",
  ["inputs"], "all supported value kinds nested within the bound",
  "Dispatch order among overlapping abstract kinds is only observable for values matching several.",
  ["encode.py"],
  [("TagWriter dispatch", "encode.py:TagWriter")])
p("C28", "Repr settings always return to their previous value and reprs are finite",
  "Overriding repr settings in nested scopes, including scopes left by an exception, always restores the settings in force before; leaving a scope out of order warns with JSReprSettingsNotRestored and leaves the settings alone unless restoring is forced. Values with cycles always have a finite repr in which exactly the cycles are marked, a repr that fails leaves nothing behind, limits cut exactly what is beyond them, and a repr with nothing cut evaluates to an equal value.",
  ["histories"], "all nestings of setting scopes within the bound",
  "Tests nest at most once.",
  ["jstypes/_repr.py"], [("JSRepr settings", "jstypes/_repr.py")], observe=["js_repr_settings", "repr()"])
p("C29", "Stack texts of exceptions are complete and in V8's order",
  "Formatting any Python exception as a V8-style stack always succeeds: the exception's own description, then every frame once, most recent call first, as 'at name (file:line:column)' with unknown parts as <unknown>; then every member of an exception group labelled with its path and indented; then each exception it occurred while handling, until one is suppressed. The error data made from an exception has the description's first line as its message, that text as its stack, and the exception's chain of causes as its cause; dumps() of a raised exception reads back as such an error.",
  ["inputs"], "all exceptions and tracebacks",
  "Tests have snapshots of five fixed exceptions; combinations of missing locations, suppressed contexts, nested groups and causes are open.",
  ["jstypes/_v8traceback.py", "jstypes/jserror.py", "encode.py"], [("format_exception_for_v8", "jstypes/_v8traceback.py"), ("JSErrorData.from_exception", "jstypes/jserror.py")], observe=["format_exception_for_v8", "JSErrorData.from_exception", "dumps"])
p("C30", "Whatever loads() returns can be written and reads back the same",
  "For every byte string that loads() accepts, whether or not V8 or this library wrote it, dumps() (with every feature enabled) writes the decoded value without error, reading that back gives the same value (kinds, contents, property order, lengths, holes, identities of shared objects and cycles; numbers by value), and writing it once more gives the same bytes.",
  ["inputs"], "all payloads that loads() accepts within the bound",
  "Round-trip tests start from Python values; values that only decoding can produce (odd orders, references, padded lengths, unusual encodings, flags) are never written again.",
  ["decode.py", "encode.py", "jstypes/"], [("loads", "decode.py"), ("dumps", "encode.py")], observe=["loads", "dumps"])
p("C31", "Serializing and deserializing leave nothing behind",
  "dumps() never changes the value it is given (contents, order, lengths, identities, buffers), also when it fails, and writing the same value again gives the same bytes, whatever other calls (succeeding, failing, or made while it runs, by the same or other encoders and steps) happened before. Reading the same data again gives the same value or the same refusal; values from two calls share no mutable object.",
  ["inputs", "histories"], "all values and payloads within the bound, with any call in between",
  "Tests make one call per value; state left in shared steps, logs and streams shows only in later or nested calls.",
  ["encode.py", "decode.py", "_references.py", "jstypes/"], [("dumps", "encode.py"), ("Encoder", "encode.py"), ("loads", "decode.py"), ("Decoder", "decode.py")], observe=["dumps", "loads", "Encoder.encode", "Decoder.decodes"])
p("C32", "Calls in several threads do not disturb each other",
  "Comparing values, showing them with repr(), dumps() and loads() give in each thread what they give alone, whichever calls on the same or other values (succeeding or failing) run in other threads at the same time and wherever they interrupt each other at the points where user code runs (items being compared or shown, encode and decode steps), with shared values, steps, encoders and decoders; and they leave nothing behind that changes a later call. (The settings of repr() are common to all threads; values that are modified meanwhile are outside.)",
  ["inputs", "schedules"], "all interleavings with up to the bounded number of switches at the calls of user code",
  "Tests run one call at a time; state shared between calls shows only under particular interleavings.",
  ["_recursive_eq.py", "jstypes/_repr.py", "encode.py", "decode.py"], [("recursive_eq", "_recursive_eq.py"), ("RecursiveReprMixin", "jstypes/_repr.py"), ("Encoder", "encode.py"), ("Decoder", "decode.py")], observe=["dumps", "loads", "JSObject.__eq__", "JSObject.__repr__"])
p("C33", "Stream methods read back what they write and check what they expect",
  "Encode steps, decode steps and host object handlers call the methods of WritableTagStream and ReadableTagStream directly. Whatever sequence of write methods was called (with the tag or with tag=None; values, containers, objects, references), the matching read methods give the same values, counts and reference numbers in the same order and end exactly where writing did. A primitive value that a write method refuses (out of range, not representable, a tag not allowed under constrain_tags()) leaves the stream's data as it was. read_tag() with a tag or a group of tags, and every read method called with tag=True, accept exactly the data whose next tag (after padding) is the expected one and otherwise raise a decode error that names the tag's position, without moving past the tag; peak_tag() and consume=False do not consume the tag; reads past the end raise a decode error.",
  ["inputs", "histories"], "all sequences of calls and values within the bound",
  "Tests write and read one value of each kind; orders of calls, alignment of two-byte text, refused writes in between and wrong expectations are open.",
  ["encode.py", "decode.py"], [("WritableTagStream", "encode.py"), ("ReadableTagStream", "decode.py")], observe=["WritableTagStream.write_*", "ReadableTagStream.read_*"])
p("C34", "Equal values have equal hashes, and values that can change have none",
  "Comparing two values of the JS types with == gives a bool, the same from either side, with != its negation: views of data that cannot change are equal exactly when they have the same number of elements with equal numeric values, whatever their types; views of shared or transferred array buffers (whose contents Python cannot see) only when they are the same kind of view of the same region of the same buffer; array buffers with the same bytes; wrapper objects with the same tag and value (never a wrapper and its primitive value); RegExps with the same source and flags. Values that compare equal have equal hashes, so they are one member of a set and one key of a dict, and a value's hash stays the same. JSObject, JSArray, JSMap, JSSet, JSError, JSErrorData, array buffers whose bytes can change and views of such memory cannot be hashed.",
  ["inputs"], "all pairs of values within the bound",
  "Tests compare and hash a few values of one type; equal values whose hashes differ get lost in sets, dicts and the encoder's deduplication.",
  ["jstypes/jsbuffers.py", "jstypes/jsprimitiveobject.py", "jstypes/jsregexp.py"], [("JSArrayBufferView.__eq__/__hash__", "jstypes/jsbuffers.py:JSArrayBufferView")], observe=["==", "hash()"])
if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for q in P: f.write(json.dumps(q) + "\n")
    print(len(P))
