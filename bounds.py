"""What each check covers (quick tier; the thorough tier's larger parameters are in checks.py) and what it leaves out."""
B = {}
def b(id, bounds, outside):
    B[id] = (bounds, outside)

b("C01", "top-level ints |n| < 2^130 (thorough 2^520), in containers |n| < 2^66 (2^130), as property keys -200..2^32+300; both bools; ints of 9 to 255 (513) bytes around the byte-length boundaries (63, 64, 127, 128) whose top 8 (12) and bottom 8 (12) bits are free, both signs",
  "free bits in the middle of ints beyond 17 (65) bytes; ints beyond 513 bytes")
b("C02", "all 2^64 doubles at top level; all pairs of doubles side by side in lists, tuples, frozensets, wrappers, map keys/values and properties; a double next to any 64-bit int and a bool",
  "three or more doubles at once")
b("C03", "all strings of up to 2 code points (0..0x10FFFF without surrogates) in each representation at stream offsets 0..3, up to 3 at top level; lengths 30..32, 62..64, 126..129 with one free character",
  "strings whose first unusual character comes after more than 3 others, except through the long strings; lone surrogates")
b("C04", "all byte strings of 3 bytes; 3 to 6 free bytes behind a valid header and each of 40 openings that lead into every tag's reader, versions 13 and 15; the recursion limit is not reached",
  "more free bytes than that; nesting beyond Python's recursion limit (RecursionError)")
b("C05", "payloads of a symbolic tag (22 tags) with 2 free bytes, every cut; a catalogue of every kind of value with numbers up to 300, every cut; declared counts of up to 3 items with any 35-bit count; declared lengths with 4 free bytes",
  "longer free payloads")
b("C06", "all graphs of 2 nodes with 2 edges over 8 container kinds; 3 nodes with 1 edge (all kinds) or 2 edges (list, JSObject); 4 nodes with 1 edge (JSArray, JSMap, error); an object of each of 50 kinds, and an equal one or itself, used from any two of 9 containers and two lists; references to the objects around the 127th of 127 and 130 (thorough up to 1000)",
  "larger graphs; graphs deeper than the recursion limit; the causes of Python exceptions, which are documented to be copied")
b("C07", "1 or 2 objects of any kind (plain values, containers, wrappers, dates, regexps, errors, buffers, views, host objects), then references to each; read: 2 (thorough 3) pieces of wire data of any kind then a reference with any 35-bit ID; references from inside objects still being read, depth 2 (3); references to the objects around the 127th of 127 and 130 (thorough up to 1000)",
  "longer sequences")
b("C08", "all strings of 0..4, 7, 10 and 11 code points; digit strings of 9, 10, 11, 20 and 5000 digits; all ints |n| < 2^70; all integral doubles below 1e21; all keys in the wire's six forms with symbolic value; pairs of keys of 2 characters",
  "strings of 5, 6, 8, 9, 12 and more characters that are not all digits")
b("C09", "one operation (10 kinds) with any key in 0..70, 2^32-2..2^32 or two names, form int/str/float, from 8 start states; two operations over 3 start states; 3 writes at any index up to 2^32-2; creation from 2 entries of any key; lists of 3 values or holes",
  "histories of 3 or more general operations (quick; thorough: 3)")
b("C10", "one operation from any content of 0..3 elements (value or hole each), two from 0..2, indices within 2 beyond either end; sparse: 0..2 elements at any position of an array of any length up to 2^32-1, up to 3 operations; creation from up to 2 (3) entries or values in every form, with every length, and from arguments out of range; both classes and the reference list agree after each",
  "longer histories and longer contents")
b("C11", "all pairs of keys over ints < 2^70, doubles, bools, 1-character strings, None, undefined, 6 objects; triples of numbers; 2 (thorough 3) operations on maps and sets of 1 initial entry with keys from that pool",
  "longer histories")
b("C12", "all pairs of graphs: 2 nodes with 2 edges over all kinds mixed, 3 nodes with 2 edges over 5 kinds, 4 nodes with 1 edge; every pair of nodes one after another (3 nodes); raising comparisons; two values of any kinds with up to 3 entries of any contents (falsy values and holes included); rings of any two lengths up to 4 (8)",
  "larger graphs; graphs deeper than the recursion limit; whether two graphs sharing an object compare equal is only required to be sound")
b("C13", "buffers of 0..16 bytes, symbolic offset, length and contents, all 13 view types; resizes to any size up to 12 (2 resizes up to 8); element access at any index; DataView accessors at any position; all element values by their bytes",
  "larger buffers; more than 2 resizes per history")
b("C14", "contents of 0..4 bytes, any max length; 2 or 3 resizes or writes (thorough 5) to any size up to 4; every constructor source; an owner growing the bytearray",
  "larger buffers")
b("C15", "buffers of 0 and 3 bytes of every kind, 4 wrappings; views over 5, 8 and 9 bytes with every offset/length/tracking, all 13 types, feature on and off; 3 views over 2 buffers in any order with values between; wire data of any buffer and view geometry (0..8 bytes), versions 14 and 15; buffers of 126, 127, 128, 300 and 16384 bytes with limits, offsets and lengths around them",
  "larger buffers (thorough: 16, 130)")
b("C16", "all versions with components 0..10^6 symbolic; all 16 feature sets; every value kind with an optional construct in 4 wrappings, features given directly or by any version",
  "the unsupported RegExpUnicodeSets gate is a known finding")
b("C17", "any leaf (31 kinds, symbolic contents) next to a second one in each of 13 containers and 3 positions; refused keys replaced by any other value; sizes up to 2^33 declared by odd collections; references between 2 objects; collections of 11 kinds with 63, 64, 127 and 128 (thorough 16384) entries",
  "deeper nesting (other properties' graphs are also parsed by the same oracle); JSHole outside arrays is a known finding")
b("C18", "every combination of name (8 + symbolic texts of 0, 1, 5 characters), message, stack and cause presence with 0..1 character texts (thorough 2); any sequence of 4 (5) fields on the wire; chains of 2 (3) errors with any back or side link; names of 0, 5, 8, 9 symbolic characters",
  "longer texts; deeper causes")
b("C19", "all 512 flag sets; every Python flag set; sources of 0..3 (5) free characters with selected flag sets and 0..1 with all; the three string encodings; a list of patterns for Python translation",
  "translation of arbitrary patterns to Python")
b("C20", "every microsecond of datetime's whole range in fixed-offset zones (any offset within a day), in zones whose offset changes once (any time, any offsets) and in a local zone with two changes, both folds, split where rounding changes: exact ms anywhere, fractions where |ms| in 2^38..2^45 and around 0; every double on the wire incl. NaN and infinities",
  "zones with more than two offset changes; fractions of a millisecond between the bands (thorough: all)")
b("C21", "all 13 type codes plus 8 unknown ones, 0..16 bytes (33) and declared lengths to 2^32-1, any contents, between other values, 5 ways of reading; every view over 8/9 bytes written; every cut",
  "larger contents")
b("C22", "5 (6) operations over 2 (3) objects, then lookups of each and of any 40-bit signed ID; nested acyclic recordings of depth 3, left normally or by exceptions",
  "longer histories")
b("C23", "all ints < 2^70 (2^300), doubles, bools, strings of 0..2 (3) characters with every tag; every wrapper in 3 positions; wire wrappers in every string encoding; pairs",
  "longer strings")
b("C24", "all patterns of holes of arrays of 0..5 (7) elements with 0..2 names in dense, sparse and mixed storage, both wire forms; 0..2 elements anywhere in arrays of any length to 2^32-1; any declared lengths up to 35 bits; arrays of 5 kinds with 63, 64 and 128 (thorough 600) elements or names",
  "more elements")
b("C25", "chains of 1..3 (4) steps, each of 6 behaviours, as objects or functions, in 5 positions; every pair of options over 7; every constant; every tag's reader; unregistered tags",
  "longer chains")
b("C26", "payload templates of every kind with symbolic bytes in each of 7 input types next to bytes (bytearray, memoryviews whole, read-only, sliced and cast, any buffer object, wider items), changed afterwards",
  "buffers that are not C-contiguous")
b("C27", "every supported kind and its subclasses with symbolic elements in every position; kinds nested to depth 3 (4); kinds that are refused; collections of 63, 64 and 128 (600) entries",
  "third-party collection types beyond the abstract base classes")
b("C28", "2 or 3 scopes opened (any field, own settings, nothing) and left in any order, normally or by exceptions, with any value; reprs of all graphs of 2 nodes (10 kinds) and 3 nodes (4 kinds); limits 0..4 against 0..4 entries of 9 layouts; level limits 0..3 against values of 16 kinds nested 2 deep (thorough 0..4, 3 deep); content of 2 entries; property names of 1 (2) free characters and keywords; buffers and views of up to 3 (9) bytes, of every kind, offset, length and limit; errors with and without each part",
  "depth at the recursion limit; threads")

b("C29", "stand-ins for TracebackException with up to 2 (thorough 3) frames whose name, file, line and column are known or not and have free characters/digits; up to 8 (40) frames with known locations; chains of up to 3 (5) contexts, each suppressed or not; groups of up to 2 (3) members, 2 levels deep, with frames and contexts; chains of up to 2 (4) causes; really raised exceptions of 10 kinds through 0..2 (6) calls",
  "how Python's traceback module extracts frames and descriptions; multi-line descriptions of group members")
b("C30", "4 free bytes behind a valid header, 3 to 6 behind each of 40 openings that lead into every tag's reader (versions 13 and 15); payload templates of every kind with symbolic bytes; 1 or 2 (thorough 3) pieces of wire data of any kind followed by a reference with any 7-bit ID, and references out of 2 (3) nested containers; any double as value, wrapper and key; dates of any ms up to 10^14; objects and arrays with any two string keys of 2 (3) characters; sparse arrays of any length up to 2^32-1 with a property at any index",
  "longer free payloads; RegExp flag bits without a meaning (they are read but not written)")
b("C31", "1 value of any of 56 kinds in 8 containers, 2 in lists and objects (thorough: all 8), with symbolic ints up to 300; all graphs of 2 nodes with 2 edges over 8 container kinds and of 3 nodes with 1 edge over 4 (8); 1 or 2 pieces of wire data of any kind with a reference of any 7-bit ID, read twice around 5 (2 pieces: 1; thorough 5) other payloads; payload templates with symbolic bytes; dumps() failing at any position in 4 ways around any of 10 kinds; dumps() and loads() called while a dumps() runs; errors of 7 names with and without each part; memory of the caller (7 kinds) used in 7 ways; loads() from memory of the caller that is overwritten afterwards",
  "threads; objects whose own iteration changes them")
b("C32", "2 threads (3 with up to 2 (thorough 4) switches): comparisons and reprs of 9 shapes of values with 2 interruptible leaves and symbolic contents, up to 4 and 6 (8 and 12) switches; dumps() of values of 6 kinds with shared parts and a symbolic int, default or own steps, a shared encoder, up to 1 (2) switches at any step; loads() of 4x4 payloads with shared steps or decoder, up to 2 (3) switches; the other call may fail",
  "switches inside the library between two calls of user code; values modified meanwhile; settings of repr()")
b("C33", "sequences of 2 write calls of any of 10 kinds with any value (ints to 2^34, any double, texts of 0..1 characters, surrogates included), tagged or not, after a header or not; 3 (thorough also bigints and doubles) calls around two-byte texts; every single-tag reader against every next byte after 0, 1 or 3 bytes of padding; containers of up to 2 (3) items with symbolic ints; one object of each of 15 kinds",
  "longer sequences; longer texts than 1 character (lengths: C03)")
b("C34", "pairs of views of all 13 types with up to 2 (8-byte types 1; thorough 3 and 2) elements of any bytes (elements of 16 and 32-bit floats: 5 values), over bytes, memoryviews and array buffers; views of 5 types of shared and transferred buffers with any ID up to 9 and offset up to 3; array buffers of up to 2 (6) bytes; wrapper objects of any int within 64 bits, any double, booleans and texts of up to 2 (4) characters; RegExps, references and constants; 15 kinds of values that can change",
  "longer views; equality of containers (C12); values compared with types of other libraries. Hashes are compared by what they depend on, and a difference is confirmed with the real hash()")
