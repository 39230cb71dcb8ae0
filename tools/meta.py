#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (python3 tools/meta.py)."""

import json
import pathlib

HERE = pathlib.Path(__file__).resolve().parent.parent
S = "src/v8serialize/"
DEC, ENC, REF, CON = S + "decode.py", S + "encode.py", S + "_references.py", S + "constants.py"
PROPS, NOT = [], []


def prop(pid, title, statement, over, text, why, files, mech, technique, note, state=None, claim=True):
    rec = {
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]},
    }
    if state:
        rec["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    PROPS.append((rec, technique, note, claim))


def na(pid, title, statement, over, text, why, files, mech, reason):
    prop(pid, title, statement, over, text, why, files, mech, None, None, claim=False)
    NOT.append({"property": pid, "reason": reason})


prop("C01", "Objects are numbered in V8's order on both sides",
     "When a value graph is encoded, every object, array, map, set, date, regular expression, error, wrapper object, "
     "buffer, buffer view and host object takes exactly one object number, assigned in the order V8 assigns them (a "
     "container before its contents, a buffer before the view on it), and strings, numbers and other primitives take none. "
     "Decoding assigns numbers in exactly the same order, so that an object reference in any stream written by V8 denotes "
     "the same object here as in V8.",
     ["inputs"], "all object graphs and all valid streams, with any mix of object types, nesting and sharing",
     "A number that is missing, doubled or out of order only shows when a later back-reference is off by one; the tests "
     "sample a few graphs whose shared object rarely follows an affected type.",
     [DEC, ENC, REF],
     [("object writers", ENC + " (WritableTagStream.write_*)"), ("object readers", DEC + " (ReadableTagStream.read_*)"),
      ("object log", REF + " (SerializedObjectLog)")],
     "abstract interpretation; id allocation order per path compared with V8's grammar",
     "All paths of every writer entry point and every tag's reader in the abstract model; loops by one arbitrary iteration.")

prop("C02", "A repeated object becomes a back-reference to the very same object",
     "While encoding, an object that has already been written is written again only as a reference carrying the number its "
     "first occurrence took, and the number is associated with the object the caller supplied. While decoding, the object "
     "registered under a number is the very object handed to the surrounding value, so shared and cyclic structure is "
     "preserved by identity.",
     ["inputs"], "all object graphs, including shared and cyclic ones, through every encode and decode step",
     "Identity can be lost on one type or one branch (for example an intermediate copy being registered), which needs a "
     "graph that shares exactly that type.",
     [DEC, ENC, REF],
     [("reference step", ENC + " (serialize_object_references)"), ("object log", REF + " (SerializedObjectLog)"),
      ("readers", DEC + " (ReadableTagStream.read_*)")],
     "abstract interpretation; identity of registered and returned objects per path",
     "All paths in the abstract model; identity is structural equality of abstract values.")

prop("C03", "Every value is laid out on the wire exactly as V8 lays it out",
     "For every type, the bytes written (tag, lengths, flags, payload, order of parts, closing tag and counts, alignment "
     "padding before two-byte strings, byte order, zig-zag and bigint encodings, text encodings) follow V8's format, and "
     "lengths count what V8 counts. Reading consumes exactly that layout for every tag V8 can write in the supported "
     "versions and gives each part its meaning.",
     ["inputs"], "all values and all valid streams: every type, size, sign, string width, alignment, buffer shape",
     "Each layout has data-dependent branches (sign, width, parity of position, version, resizability) whose combinations "
     "the tests sample sparsely, and an encoder and decoder that are wrong in the same way still round-trip.",
     [DEC, ENC, CON],
     [("writers", ENC + " (WritableTagStream)"), ("readers", DEC + " (ReadableTagStream)")],
     "abstract interpretation to wire-token sequences matched against a V8 grammar",
     "Oracle: sa/v8spec.py and sa/wire.py, written from V8's format. All paths; loops by one arbitrary iteration.")

prop("C06", "Malformed input is only ever reported through the library's own errors",
     "Whatever bytes are given to the decoder, it either returns a value or raises an error of the library's "
     "serialization-error family; no other exception (index, value, overflow, decoding, assertion, struct errors and the "
     "like) escapes unless a caller-supplied callback or type raised it.",
     ["inputs"], "all byte strings, with every option left at its default or set",
     "Tests feed a handful of corrupted streams; the exception sources are spread over every reader and many need a "
     "specific invalid payload inside otherwise valid framing.",
     [DEC, REF, S + "extensions.py", S + "jstypes/jsregexp.py", S + "jstypes/jsbuffers.py"],
     [("readers", DEC + " (ReadableTagStream, TagReader)"), ("error type", S + "_errors.py")],
     "exception-flow analysis by abstract interpretation",
     "Exceptions modelled: raises in the package, failed lookups, asserts, text/date conversions, enum conversions. "
     "MemoryError and RecursionError are outside.")

prop("C07", "The decoder never reads outside the input",
     "Every byte and slice the decoder takes lies inside the given data at the current position, and the position never "
     "moves backwards or past the end; truncated input is detected before the missing bytes are used, at every point "
     "where the data can end.",
     ["inputs"], "all byte strings and every truncation point",
     "Slices past the end silently shorten in Python, so a missing check returns wrong data instead of failing; tests "
     "truncate few streams at few points.",
     [DEC], [("capacity check", DEC + " (ReadableTagStream.ensure_capacity)"), ("readers", DEC + " (ReadableTagStream)")],
     "interval analysis of every input access along every path",
     "Linear integer facts; every access on every path must be proved inside.",
     state=[("position", "offset of the next unread byte, never beyond the data's length", DEC)])

prop("C09", "Only strings and numbers are ever written or accepted as object keys",
     "In an object or an array's named properties, the encoder writes each key as a string or number tag V8 accepts there, "
     "whatever steps or options are in use, and raises an error for any other key instead of writing it; the restriction "
     "covers only the key and is lifted for the value that follows and after an error. The decoder accepts only such tags "
     "in key position.",
     ["inputs", "configurations"], "all mappings, all key types, all encode-step chains",
     "Tests try a few bad keys; the restriction is a mode switched on and off around each nested write, and a path that "
     "leaves it on or never checks it needs a specific value type in a specific place.",
     [DEC, ENC, CON],
     [("key constraint", ENC + " (constrain_tags, write_tag)"), ("key reading", DEC + " (_read_js_object_properties)"),
      ("key tags", CON + " (JS_OBJECT_KEY_TAGS)")],
     "typestate analysis of the key constraint over all writer paths",
     "All paths of all writers; the constraint's state is tracked through context managers and exceptions.")

prop("C10", "Collection counts on the wire equal the entries present, and are verified",
     "Every count the encoder writes at the end of an object, array, map or set equals the number of entries it actually "
     "wrote (pairs counted as two for maps), and the leading and trailing lengths of an array agree. When decoding, a "
     "collection is returned only if the counts in the stream match what was read; otherwise decoding fails.",
     ["inputs"], "all collections of any size, and all streams with wrong counts",
     "Counting is spread over loops and generators; tests have few sizes and few miscounted streams.",
     [DEC, ENC], [("writers", ENC + " (write_jsmap, write_js_object, write_js_array_*)"),
                  ("readers", DEC + " (read_jsmap, read_jsset, read_js_object, read_js_array_*)")],
     "linear-arithmetic facts per path relating counts to loop iterations",
     "Loops by one arbitrary iteration with inferred counter increments.")

prop("C11", "Streams start with a version header, and only versions 13 to 15 are read",
     "Every complete encoding starts with the header of the supported format version before any value, and decoding "
     "accepts exactly versions 13, 14 and 15 and rejects every other header. Parts of the format that depend on the "
     "version are read according to the version in the header.",
     ["inputs", "configurations"], "all streams and all header values",
     "Tests read two or three header values out of an unbounded range.",
     [DEC, ENC, CON], [("header reader", DEC + " (ReadableTagStream.read_header)"), ("header writer", ENC + " (write_header)")],
     "interval analysis of the header path; ordering of header and values",
     "The version is a symbolic integer.")

prop("C04", "Every code, tag and name in the tables is the one V8 and JavaScript use",
     "Every value tag, error part, buffer-view type, view flag, regular-expression flag and host view code has exactly the "
     "code V8 or Node.js gives it, no two share one, and the tag groups used for keys, constants, buffers and wrapper "
     "objects are V8's. Every JavaScript error name stands for the error prototype of that name, in both directions, and "
     "any other name for the plain Error prototype.",
     ["inputs"], "every row of every table, and every error name",
     "Encoder and decoder share the tables, so a wrong row still round-trips; tests compare only the rows that appear in "
     "their recorded V8 data.",
     [CON, S + "jstypes/jserror.py", S + "jstypes/jsbuffers.py", S + "extensions.py", S + "jstypes/jsregexp.py"],
     [("tags and flags", CON + " (SerializationTag, ErrorTag, ArrayBufferViewTag, ArrayBufferViewFlags, JSRegExpFlag)"),
      ("error names", CON + " (JSErrorName)"), ("tag groups", CON + " (JS_OBJECT_KEY_TAGS, JS_CONSTANT_TAGS, ...)"),
      ("host view codes", S + "extensions.py (NodeBufferFormat)")],
     "abstract evaluation of the tables, compared row by row with V8's",
     "Oracle: sa/v8spec.py. One row is a known finding (URIError).")

prop("C08", "Output only uses format features the chosen V8 version can read",
     "Each optional format feature names the first V8 release that reads it; choosing a target release enables exactly the "
     "features that release and its predecessors understand, and the defaults are the most compatible ones. A feature that "
     "is not enabled never appears in the output: the value is written in the older form where one exists and refused with "
     "an error otherwise.",
     ["inputs", "configurations"], "all values crossed with all feature sets and all target versions",
     "The tests use a few feature sets; every writer branch must be safe under each of the sixteen combinations.",
     [ENC, CON],
     [("features", CON + " (SerializationFeature)"), ("feature decisions", ENC + " (WritableTagStream.write_*)"),
      ("option wiring", ENC + " (Encoder, dumps)")],
     "path-condition analysis: feature-dependent tokens must be dominated by the feature test",
     "All writer paths; the feature set and the target version are symbolic.")

prop("C14", "Every option given to the public functions acts, and nothing else changes",
     "Each option of the encoding and decoding functions reaches the component that acts on it and the values of that type "
     "are built with it; when it is not given its documented default applies. Combinations documented as contradictory are "
     "refused rather than silently ignored.",
     ["configurations"], "every option alone and in the combinations the documentation names, for every value type",
     "An option dropped or cross-wired on one of several hand-over points is only seen by a test that sets exactly that "
     "option and decodes exactly that type.",
     [DEC, ENC],
     [("encoding entry points", ENC + " (dumps, Encoder)"), ("decoding entry points", DEC + " (loads, Decoder, TagReader)")],
     "dataflow of each symbolic option through the abstract entry points into the values built",
     "All paths of dumps, loads, Encoder and Decoder in the abstract model.")


prop("C05", "Every supported Python value has its documented JavaScript form, and back",
     "Each kind of Python value the documentation lists, including any subclass or registered implementation of the "
     "abstract collection types, is written as the JavaScript type documented for it; every other value is left to the "
     "following encode steps and is never written as something it is not. Every value tag V8 produces is read, and never refused for a number in it that V8 can have written; a tag "
     "the library has no reader for is left to the following decode steps (tags of features it does not support may also be refused).",
     ["inputs"], "all Python types, by their place in the type hierarchy, and all tag bytes",
     "Dispatch depends on the hierarchy of a value's type; tests use one or two types per form, and a more general handler "
     "can silently take over a type in between.",
     [ENC, DEC, CON],
     [("type dispatch", ENC + " (TagWriter)"), ("tag dispatch", DEC + " (TagReader, TagReaderRegistry)")],
     "method-resolution analysis of the dispatch table over the declared class hierarchy, plus abstract interpretation of each handler",
     "28 standard and 31 package kinds of value, and every tag.")

prop("C12", "Every integer is written in a form that holds it exactly",
     "An integer is written in a fixed-width or floating-point form only if that form represents exactly that integer, and as "
     "a big integer otherwise. As an object key it is written so that JavaScript sees the same property name, and never as a "
     "big integer.",
     ["inputs"], "all integers, as values and as keys",
     "The boundaries between forms are single points in an infinite domain, and an off-by-one there produces valid output "
     "with the wrong number.",
     [ENC], [("integer writer", ENC + " (TagWriter)"), ("varint and integer forms", ENC + " (WritableTagStream.write_*)")],
     "interval analysis of the integer writer's paths", "All paths with an arbitrary integer.")

prop("C13", "Encode and decode steps form a chain that always sees every value",
     "Every value, nested or not, is offered first to the first step given and then, only if that step asks for it, to the "
     "following ones in order, with the value (possibly replaced) that step handed on and the same context. A decode step "
     "receives what the following step returned, and a value that no step handles is reported as unhandled, naming it.",
     ["inputs", "histories"], "all chains of steps and all patterns of handing on, once, repeatedly or not at all",
     "Tests use one custom step around the built-in one; state kept between hand-overs only shows with repeated or nested use.",
     [ENC, DEC], [("encode context", ENC + " (DefaultEncodeContext)"), ("decode context", DEC + " (DefaultDecodeContext)")],
     "abstract interpretation of the contexts with symbolic steps",
     "Chains of three symbolic steps under eleven patterns of handing on; the context code treats all positions alike.")

prop("C15", "Calls are independent of each other and leave their input unchanged",
     "What a call to encode or decode produces depends only on its arguments: no call leaves behind state that another call, "
     "the same encoder or decoder used again, or another thread could see. Encoding does not change the value encoded, and "
     "separate values and default arguments never share mutable parts.",
     ["histories", "schedules"], "all sequences and interleavings of calls",
     "Leaked state shows only for particular sequences of calls on particular values, or under concurrency.",
     [ENC, DEC, REF, S + "jstypes/_repr.py", S + "_recursive_eq.py", S + "extensions.py"],
     [("entry points", ENC + " (dumps, Encoder), " + DEC + " (loads, Decoder)"), ("contexts", ENC + " (DefaultEncodeContext)")],
     "effect analysis of every function, and heap-sharing comparison of abstract calls",
     "Every function of the package; entry points in the abstract model.")

prop("C16", "Maps and sets find their entries by same-value-zero",
     "In the map and set types, two keys are the same exactly when JavaScript's same-value-zero says so: numbers, strings, "
     "null and undefined by value (NaN being the same as itself), booleans apart from numbers, and every other object by "
     "identity, hashable or not. Every lookup, store, removal, bulk update and membership test uses that rule, entries keep "
     "the key and value given, are listed in the order they were first added, and equality compares size and entries in order.",
     ["inputs", "histories"], "all keys and values, and all sequences of operations",
     "Keys clash only for particular pairs of kinds (1 and True, NaN, equal but distinct objects), in whichever method forgot "
     "the rule.",
     [S + "jstypes/jsmap.py", S + "jstypes/jsset.py", S + "jstypes/_equality.py"],
     [("key function", S + "jstypes/_equality.py (same_value_zero)"), ("maps", S + "jstypes/jsmap.py (JSMap)"),
      ("sets", S + "jstypes/jsset.py (JSSet)")],
     "abstract interpretation of each method with the key function opaque; case split of the key function by kind",
     "All paths of every method the two classes define; inherited mixin methods are those of the standard library.",
     state=[("entries", "dictionary from same-value-zero key to the key and value given", S + "jstypes/jsmap.py")])

prop("C17", "Objects treat keys as JavaScript does: array indexes and names never clash",
     "A property key is an array index exactly when it is an integer from 0 to 2**32-2, an integral float in that range, or the "
     "canonical decimal string of one; every other key is a name, so that all spellings of one JavaScript key reach the same "
     "property. Reading, storing, deleting, counting and listing properties agree with each other, indexes come first in "
     "ascending order, holes are absent, and objects are equal exactly when their elements and their named properties are.",
     ["inputs", "histories"], "all keys and values, and all sequences of operations",
     "The boundary of the index range, leading zeros, signs and non-ASCII digits are points in an infinite domain; storage "
     "switches between representations only for particular histories.",
     [S + "jstypes/jsobject.py", S + "jstypes/jsarray.py", S + "jstypes/_normalise_property_key.py"],
     [("key normalisation", S + "jstypes/_normalise_property_key.py (normalise_property_key)"),
      ("objects", S + "jstypes/jsobject.py (JSObject)"), ("arrays", S + "jstypes/jsarray.py (JSArray)")],
     "interval analysis of key normalisation; effect summary of each object operation compared with the property model",
     "All paths with an arbitrary key; the array storage is abstract here and decided by C18.",
     state=[("array storage and names", "elements under integer indexes, other properties under strings", S + "jstypes/jsobject.py")])

prop("C18", "Dense and sparse array storage both behave as one list with holes",
     "Every operation on array storage (reading, storing, inserting, deleting, resizing, extending, reversing, removing holes, "
     "counting elements, iterating, listing present indexes, building from an iterable, comparing) has the effect it has on a "
     "plain list in which missing elements are holes, whichever storage is in use. The bookkeeping (number of elements present, "
     "length, order of keys) stays consistent after every operation, and the length never exceeds 2**32-1.",
     ["inputs", "histories"], "all contents, indexes, and sequences of operations on both storages",
     "The two storages reimplement the list operations with counters and lazily sorted keys; an operation may be wrong only "
     "after another left the bookkeeping in a particular state.",
     [S + "jstypes/jsarrayproperties.py"],
     [("dense storage", S + "jstypes/jsarrayproperties.py (DenseArrayProperties)"),
      ("sparse storage", S + "jstypes/jsarrayproperties.py (SparseArrayProperties)")],
     "inductive class-invariant analysis: each operation from an arbitrary state satisfying the invariant",
     "All paths of each operation with arbitrary contents and arguments; loops by one arbitrary iteration.",
     state=[("elements present", "count of elements that are not holes", S + "jstypes/jsarrayproperties.py"),
            ("sorted keys", "whether the sparse storage's keys are in ascending order", S + "jstypes/jsarrayproperties.py")])

prop("C19", "Buffers and views show exactly the bytes JavaScript's would",
     "A buffer holds exactly the bytes it was made from (or zeros), with the requested read-only, resizable and maximum-length "
     "settings; resizing keeps the common prefix, zero-fills growth, and is refused outside zero to the maximum or on a buffer "
     "that is not resizable. A typed view shows exactly the elements of its type in its part of the buffer as it is now: nothing "
     "once its part no longer fits, whole elements to the end of the buffer when it tracks the length, and views that JavaScript "
     "cannot create are refused. DataView accessors read and write one value of the named type at the given offset, big-endian "
     "unless asked otherwise, and refuse offsets outside the view.",
     ["inputs", "histories"], "all buffers, offsets, lengths, element types, and resizes after a view was made",
     "Range arithmetic goes wrong only for particular combinations of offset, length, element size and later resizes.",
     [S + "jstypes/jsbuffers.py"],
     [("buffers", S + "jstypes/jsbuffers.py (JSArrayBuffer)"), ("views", S + "jstypes/jsbuffers.py (JSArrayBufferView)"),
      ("accessors", S + "jstypes/jsbuffers.py (DataView)")],
     "abstract interpretation with byte ranges as linear forms over buffer length, offset and item count",
     "All paths of construction, resize, the views' accessors and DataView; the float16 fallback for old Pythons is not analysed.",
     state=[("backing bytes", "the buffer's bytes and its current length", S + "jstypes/jsbuffers.py")])

prop("C20", "Comparing and printing self-containing values ends and leaves no trace",
     "Comparing or printing objects, arrays, maps, sets and errors that contain themselves ends: an object met again while it is "
     "being compared equals its counterpart only if that is also met again, and one met again while it is being printed is shown "
     "as a placeholder, which is never shown for a value that is not. Once a comparison or printing ends, also by an exception, "
     "it has no effect on later ones, and those in other threads never affect it. Settings for printing apply within their block "
     "and those in force before are back after it, also after an exception, unless others were activated meanwhile.",
     ["inputs", "histories", "schedules"], "all object graphs, nested comparisons, threads, and exceptions raised while comparing or printing",
     "Cycles, exceptions raised half-way by a user's own comparison, and concurrent comparisons are combinations a test samples at will.",
     [S + "_recursive_eq.py", S + "jstypes/_repr.py", S + "jstypes/jserror.py", S + "jstypes/jsmap.py", S + "jstypes/jsset.py",
      S + "jstypes/jsobject.py"],
     [("comparison guard", S + "_recursive_eq.py (recursive_eq)"), ("printing guard", S + "jstypes/_repr.py (RecursiveReprMixin)"),
      ("settings", S + "jstypes/_repr.py (js_repr_settings)")],
     "typestate of the guards' records over all paths, exceptional ones included, and a decorator rule for guarded classes",
     "All paths of the guards with an arbitrary record; what the classes' own comparisons decide is covered by other properties.",
     state=[("comparisons under way", "object identities with their thread", S + "_recursive_eq.py"),
            ("active settings", "the printer in force", S + "jstypes/_repr.py")])

prop("C21", "Buffer views survive Node.js's own encoding of them",
     "With Node.js support on, a host object is read as Node.js writes it: a view code, a byte length and exactly that many bytes, "
     "giving a view of the code's type over a copy of those bytes; an unknown code or bytes that are not all there are reported as "
     "a decoding error. Every view type Node.js has a code for is written with that code, the number of bytes it shows and "
     "exactly those bytes, and everything else is left to the other encode steps untouched.",
     ["inputs"], "all view codes, byte lengths, amounts of data left, view types, and positions of a view in its buffer",
     "Truncation at each byte, unknown codes, and views of part of a buffer with each element size are combinations tests sample.",
     [S + "extensions.py"],
     [("reader", S + "extensions.py (NodeJsArrayBufferViewHostObjectHandler)"), ("codes", S + "extensions.py (NodeBufferFormat)"),
      ("encode step", S + "extensions.py (serialize_js_array_buffer_views_as_nodejs_host_object)")],
     "abstract interpretation per view code and type with symbolic data, length and position",
     "All paths for each of the 13 codes and representatives of unknown ones; what a view shows is decided by another property.")

prop("C22", "Regular expressions keep their source and the meaning of their flags",
     "Converting between Python patterns and JavaScript RegExps keeps the source and turns each flag into the one of the same meaning: "
     "ignore-case, multiline, dot-all and Unicode both ways, while JavaScript's matching-API flags have no effect in Python. "
     "What has no counterpart (verbose patterns, Linear, a source that does not compile or is not UTF-8) ends in the library's RegExp error, "
     "or in None when the caller asks not to raise, and never in another exception; "
     "an empty source is the empty group (?:), Unicode and UnicodeSets together are refused, and every flag has JavaScript's bit and letter.",
     ["inputs"], "all sets of flags, all sources, and every way compilation or decoding can fail",
     "There are 512 JavaScript and 128 Python flag sets, and failures of the regular expression compiler depend on the source; tests try few of either.",
     [S + "jstypes/jsregexp.py", S + "constants.py"],
     [("conversions", S + "jstypes/jsregexp.py (JSRegExp)"), ("flags", S + "constants.py (JSRegExpFlag)")],
     "constant propagation of flag sets through the tables, and path-sensitive exception-flow analysis of the conversions",
     "Every flag set is decided; exceptions are those CPython documents for re.compile and bytes.decode, without resource limits.")

prop("C23", "Values are equal exactly when they hold the same, and hash accordingly",
     "Two RegExps, wrapper objects, errors, maps, sets, objects, buffers or views compare equal exactly when every part of their JavaScript value does: "
     "maps and sets entry by entry in order (in any order against Python's dicts and sets), views of any type by the items they show, "
     "and otherwise no value equals one of another JavaScript kind. "
     "Values that can be hashed give equal values equal hashes, which cannot change during their life, "
     "and RegExps, wrapper objects and buffer handles can be hashed. "
     "A comparison returns an answer and does not raise, apart from what the parts themselves raise.",
     ["inputs"], "all pairs of values of each type, with arbitrary parts; maps and sets by way of all those of up to three entries",
     "Tests compare a few examples; a part left out of a comparison or a hash shows only for values that differ in just that part.",
     [S + "jstypes/jserror.py", S + "jstypes/jsmap.py", S + "jstypes/jsset.py", S + "jstypes/jsobject.py", S + "jstypes/jsbuffers.py",
      S + "jstypes/jsregexp.py", S + "jstypes/jsprimitiveobject.py", S + "jstypes/_v8.py"],
     [("map comparison", S + "jstypes/jsmap.py (JSMap.__eq__)"), ("set comparison", S + "jstypes/jsset.py (JSSet.__eq__)"),
      ("error comparison", S + "jstypes/jserror.py (JSError.__eq__)"), ("object comparison", S + "jstypes/jsobject.py (JSObject.__eq__)"),
      ("view comparison and hash", S + "jstypes/jsbuffers.py (JSArrayBufferView)")],
     "abstract interpretation of comparisons with symbolic parts, and a dependency analysis of hashes against comparisons",
     "Every path of a comparison is decided; entries of maps and sets beyond three are covered by the loops being over all of them.")


prop("C24", "Space and work stay in proportion to the input and to the entries present",
     "No length, count or index found in the input makes the decoder reserve space or repeat work by itself: every repetition consumes input, "
     "numbers have a bounded length, and neither the rest of the input nor the output so far is copied for reading or writing one value. "
     "Objects and arrays with gaps take space, are gone over and are encoded in proportion to the entries they hold, whatever their indexes. "
     "Adding, finding or removing an entry of an object, map or set, or a reference to an object, does not go over the other entries "
     "(removing from the middle of an array's own sequence interface aside).",
     ["inputs", "histories"], "all inputs and all sequences of entries set, with any lengths, counts and indexes",
     "Work out of proportion gives the right results; it shows only for inputs much larger, or numbers in them much larger, than tests can use.",
     [S + "decode.py", S + "encode.py", S + "_references.py", S + "jstypes/jsobject.py", S + "jstypes/jsarrayproperties.py", S + "jstypes/jsmap.py",
      S + "jstypes/jsset.py"],
     [("switch to sparse storage", S + "jstypes/jsobject.py (JSObject._ensure_array_capacity)"),
      ("sparse storage", S + "jstypes/jsarrayproperties.py (SparseArrayProperties)"),
      ("choice of array encoding", S + "encode.py (TagWriter.serialize_js_array)"),
      ("reading", S + "decode.py (ReadableTagStream, TagReader)"), ("object numbers", S + "_references.py (SerializedObjectLog)")],
     "abstract interpretation with allocation, iteration and copy effects, whose sizes are compared with the path's linear constraints",
     "Costs are those of the operations in the source, taking Python's list, dict and bytearray operations to cost what they document; "
     "user-supplied types and steps are not covered.")

prop("C25", "Errors keep their parts, and exceptions become errors with all of theirs",
     "An error made from a name, message, stack and cause, or copied from another error, has exactly those (only a JSError's missing message "
     "is the empty string), and an error builder gives one and the same object as the error to complete and the error to use. "
     "A Python exception becomes an error named Error whose message is the first line of Python's description of it, whose stack is its whole report, "
     "and whose cause is its explicit cause converted the same way, however long the chain; it has no cause otherwise. "
     "The report has the exception's own description and every frame (most recent call first, with function, file, line and column as far as known), "
     "every member of an exception group, and then the exceptions it arose from up to a suppressed context.",
     ["inputs"], "all parts, all exception chains, groups and frames",
     "Which part of which exception is lost depends on the chain: a cause below a cause, a context below a group, a frame without a file; "
     "tests format a few fixed tracebacks.",
     [S + "jstypes/jserror.py", S + "jstypes/_v8traceback.py"],
     [("errors", S + "jstypes/jserror.py (JSError, JSErrorData)"), ("reports", S + "jstypes/_v8traceback.py (format_exception_for_v8)")],
     "path-sensitive abstract interpretation of constructors, copies and report generators with symbolic exceptions",
     "Which exceptions, frames and parts are reported, and in which order, is decided; the fixed words between them are not.")

prop("C26", "A wrapper object only holds values its tag can hold exactly",
     "A wrapper object is made from a string, boolean, float or integer and holds that very value under the tag of its kind: "
     "a string only as String, True and False only as their own tags, a float only as Number, an integer as Number by default when it is in the "
     "range of exactly representable integers (or BigInt when asked), and otherwise only as BigInt. "
     "Asking for any other tag is a ValueError and any other kind of value a TypeError.",
     ["inputs"], "every kind of value with every tag, and every integer",
     "The boundary lies between integers that tests seldom use, and a wrong tag writes a different number without an error.",
     [S + "jstypes/jsprimitiveobject.py"], [("construction", S + "jstypes/jsprimitiveobject.py (JSPrimitiveObject.__init__)")],
     "path-sensitive abstract interpretation with interval facts on the integer",
     "All kinds and tags are enumerated; the integer is symbolic and unbounded.")

prop("C27", "Errors report what went wrong with what, and belong to their family",
     "A decoding error carries the input and the position the reader had reached, an unread tag's error also the tag, an unwritten value's error the value, "
     "a missing feature's error the feature, and a bad reference's error the id or object looked for. All decoding errors are DecodeV8SerializeErrors, all encoding errors above are EncodeV8SerializeErrors, "
     "both are ValueErrors and V8SerializeErrors; the buffers', RegExps', references' and JavaScript errors' classes are V8SerializeErrors, "
     "and a missing property is a KeyError. A tag or value no step handles is always reported this way.",
     ["inputs"], "every error class and every place that reports on the reader's or writer's behalf",
     "Error paths are many and their contents are rarely compared by tests; handlers rely on the family.",
     [S + "_errors.py", S + "decode.py", S + "encode.py"],
     [("classes", S + "_errors.py"), ("reports", S + "decode.py (ReadableTagStream.throw, DefaultDecodeContext)"), ("unwritten values", S + "encode.py (DefaultEncodeContext)")],
     "class-hierarchy analysis and abstract interpretation of constructors and reporting paths",
     "The wording of messages is not judged.")


def main():
    lines, checks = [], []
    for rec, tech, note, claim in PROPS:
        lines.append(json.dumps(rec, ensure_ascii=False))
        if claim:
            pid = rec["id"]
            checks.append({
                "property": pid, "quick_cmd": f"python3 check.py {pid}",
                "thorough_cmd": f"python3 check.py {pid} --tier thorough",
                "technique": tech, "level": "other", "level_note": note,
            })
    (HERE / "properties.jsonl").write_text("\n".join(lines) + "\n")
    man = {
        "version": 1, "setup_cmd": "python3 -m compileall -q sa check.py", "checks": checks, "not_applicable": NOT,
        "notes": "Static analysis only (Python's ast); no code of the repository is imported or run by any check.",
    }
    (HERE / "MANIFEST.json").write_text(json.dumps(man, indent=1, ensure_ascii=False) + "\n")


main()
