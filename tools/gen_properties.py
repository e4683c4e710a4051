#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe or [], "hook_needed": hook}})

NOASSERT = "The repository's tests contain no assertions at all (they print and pass unless they panic) and use a handful of fixed documents; "

p("C01", "JSON decoding yields exactly the document's content",
  "For every valid JSON document with distinct keys per object, every decoding entry point (new value or load into an existing one, with or without cache, sharing or copying the input) succeeds and yields the same tree a standard decoder yields: same nesting, key order, decoded key and string text, exact 64-bit integers, other numbers at full float64 precision, booleans and nulls. Exempt are the library's documented dialect points only: strings of the form Date(n) or /Date(n)/ become date-times and %XX triplets in strings are percent-decoded. Numbers are within the float64 range; the document's text is valid UTF-8.",
  ["inputs", "configurations"], "all valid JSON texts (nesting up to 10000) x {new, load} x {cached, uncached} x {shared, copied}",
  NOASSERT + "numbers at end of input, exponents, escaped quotes in keys, long digits or surrogate pairs never occur in them.",
  ["jsonparse.go", "dxvalue.go"],
  [("recursive descent parser, two variants (new value / into value)", "jsonparse.go:parseJsonValue, parseJson2Value"), ("lazy key/string unescaping", "dxvalue.go:UnEscapestrs, String")],
  observe=["NewValueFromJson", "LoadFromJson", "Unmarshal", "Items/ValueByName/String/Int/Double"])
p("C02", "JSON encoding is valid JSON denoting exactly the tree",
  "For every value tree whose strings are valid UTF-8, the compact and the indented encoding, with either escaping style (or with escaping off when no text needs it), are valid RFC 8259 JSON that a standard decoder turns back into the same tree: key order, string text, integers and finite floats exactly; non-finite numbers are written as null and binary data as a JSON string or object carrying all its bytes in hexadecimal. Compact and indented forms denote the same document, and decoding the output with this library gives the same tree again. Texts of the Date(n) dialect are exempt from decoding with this library; numbers compare by numeric value.",
  ["inputs", "configurations"], "all value trees x {compact, indented} x {escape-all, escape-ascii}",
  NOASSERT + "they print JSON but never parse it back; control characters, apostrophes, astral characters, short binaries and huge floats are not encoded anywhere.",
  ["jsonparse.go"], [("compact writer", "jsonparse.go:Value2Json"), ("indented writer", "jsonparse.go:formatValue"), ("string escaping", "jsonparse.go")],
  observe=["Value2Json", "Value2FormatJson", "ToJson", "Marshal", "String"])
p("C03", "Malformed JSON is rejected with an error, never a crash",
  "For every byte string the JSON entry points return (no panic, no hang, memory bounded by a multiple of the input size); if the input is not structurally well-formed JSON (unbalanced or missing brackets, quotes, colons or commas, bad literals or numbers, truncation, trailing data) they return an error and no value, and the error's text can be rendered. A failed load leaves the target value empty and usable. Accepted as leniency of the dialect: inf and nan words, a leading plus, leading zeros, a bare leading or trailing point, raw control characters and unknown escapes. Nesting is at most 10000 deep. Loading empty or blank input just empties the value.",
  ["inputs", "fault_sequences"], "all byte strings up to 64 KiB with nesting up to 10000; in particular every truncation and every single-byte corruption of valid documents",
  NOASSERT + "no test feeds malformed JSON.",
  ["jsonparse.go", "dxvalue.go"], [("structural checks returning ErrorParseJson", "jsonparse.go:parseJsonObj, parseJsonArray, parseJsonString, parseJsonNum"), ("error rendering", "jsonparse.go:ErrorParseJson.Error")],
  observe=["NewValueFromJson", "LoadFromJson", "error.Error()", "the target after a failed load"])
p("C04", "MsgPack encoding is spec-conformant and round-trips",
  "For every value tree, the MsgPack encoding is one complete, spec-conformant MsgPack object that an independent decoder reads as the same tree (integers, floats bit-exactly, strings, binaries, extension type and payload, timestamps, arrays, maps in key order), and decoding it with this library gives a tree of the same kinds and content. Each integer, string, binary, array and map header uses the smallest format that fits.",
  ["inputs"], "all value trees incl. all header-size boundaries (15/16, 31/32, 255/256, 65535/65536)",
  NOASSERT + "one config file is re-encoded and printed; size-class boundaries and extension types are never reached.",
  ["msgpackparse.go", "msgpack_value.go"], [("writer", "msgpackparse.go:Value2MsgPack"), ("header writers", "msgpack_value.go:write*Code, writeInt")],
  observe=["Value2MsgPack", "ToMsgPack", "NewValueFromMsgPack"])
p("C05", "Every conforming MsgPack encoding decodes to its value",
  "For every conforming MsgPack object with string map keys and integers within int64, in whichever of the equivalent wire formats each item is written (including non-minimal headers, all three timestamp formats and all extension sizes), every decoding entry point (new, load into an existing value, cached or not, shared or copied) succeeds and yields exactly the encoded value.",
  ["inputs", "configurations"], "all conforming encodings of all trees x {new, load} x {cached, uncached} x {shared, copied}",
  NOASSERT + "only encodings this library itself produces for one file are decoded.",
  ["msgpackparse.go", "msgpack_value.go", "msgpack_codes.go"], [("format dispatch, two variants", "msgpackparse.go:parseMsgPackValue, parseMsgPack2Value"), ("length parsing", "msgpack_value.go:parse*Len"), ("code classes", "msgpack_codes.go")],
  observe=["NewValueFromMsgPack", "LoadFromMsgPack"])
p("C06", "Malformed MsgPack is rejected with an error, never a crash",
  "For every byte string the MsgPack entry points return without panic or hang and with memory bounded by a multiple of the input size; input that is truncated anywhere, uses the reserved code, or has a non-string map key yields an error and no value. A failed load leaves the target value empty and usable. Loading empty input just empties the value; bytes after the object are ignored.",
  ["inputs", "fault_sequences"], "all byte strings up to 64 KiB; in particular every truncation and every single-byte corruption of valid encodings",
  NOASSERT + "no test feeds malformed MsgPack.",
  ["msgpackparse.go", "msgpack_value.go"], [("length checks before slicing", "msgpackparse.go, msgpack_value.go")],
  observe=["NewValueFromMsgPack", "LoadFromMsgPack"])
p("C07", "BSON encoding is spec-conformant and round-trips",
  "For every object whose keys contain no NUL, the BSON encoding is one complete, spec-conformant BSON document whose embedded lengths are exact and which an independent decoder reads as the same tree (order, strings, int32/int64, doubles, booleans, nulls, binaries with subtype, object ids, decimals, timestamps, date-times to the millisecond, nested and empty documents and arrays). Decoding it with this library gives the same tree again.",
  ["inputs"], "all object trees with NUL-free keys",
  NOASSERT + "one five-field object is encoded and printed; negative ints, float32, empty containers and binaries are not compared.",
  ["bson_parse.go"], [("document/array writers with back-patched length", "bson_parse.go:writeObjBsonValue, writeArrayBsonValue"), ("element type and payload selection", "bson_parse.go:writeBsonElementType, writeSimpleBsonValue")],
  observe=["Value2Bson", "ToBson", "NewValueFromBson"])
p("C08", "Every conforming BSON document decodes to its value",
  "For every conforming BSON document built from the supported element types (double, string, document, array, binary of any subtype, object id, boolean, UTC date-time, null, int32, timestamp, int64, decimal128) every decoding entry point (new, load, cached or not, shared or copied) succeeds and yields exactly the encoded tree; a document containing an unsupported element type with payload is refused with an error instead of being misread.",
  ["inputs", "configurations"], "all conforming documents x {new, load} x {cached, uncached} x {shared, copied}",
  NOASSERT + "the BSON test file is missing, so only the library's own output for one object is decoded.",
  ["bson_parse.go"], [("document/array/element readers", "bson_parse.go:parseBsonDocument, parseBsonArray, parseValue")],
  observe=["NewValueFromBson", "LoadFromBson"])
p("C09", "Malformed BSON is rejected with an error, never a crash",
  "For every byte string the BSON entry points return without panic or hang and with memory bounded by a multiple of the input size; input that is truncated, whose declared lengths do not fit the enclosing document, or that lacks terminators yields an error and no value. A failed load leaves the target value empty and usable. Loading empty input just empties the value; bytes after the document are ignored.",
  ["inputs", "fault_sequences"], "all byte strings up to 64 KiB; in particular every truncation, every single-byte and every length-field corruption of valid documents",
  NOASSERT + "no test feeds malformed BSON.",
  ["bson_parse.go"], [("length and terminator checks", "bson_parse.go:parseBsonDocument, parseBsonArray, parseValue")],
  observe=["NewValueFromBson", "LoadFromBson"])
p("C10", "YAML block documents decode to the tree they denote",
  "For every YAML document in the supported block subset (nested mappings and sequences indented consistently, sequences indented deeper than their key, '- key: value' items, plain scalars, comments, blank lines, LF or CRLF, with or without final newline, anchors, aliases and '<<' merges) decoding yields the tree the document denotes: true/false become booleans, numbers become numbers, other scalars become their text. An alias yields an independent copy of the anchored value, and merged keys never displace or duplicate the keys written explicitly. Numbers are -?digits[.digits][exponent], read as float64. Outside the subset: flow and quoted scalars, tabs, multi-line scalars, keys without value, null/inf/nan words, numbers with a leading plus, keys starting with a dash, compact nested sequences ('- - a'). The order of merged keys is open.",
  ["inputs", "configurations"], "all documents of the subset x {new, load} x {cached, uncached}",
  NOASSERT + "two documents are parsed and printed.",
  ["yamlparse.go"], [("indentation stack", "yamlparse.go:parseLine, parseObject, parseArray"), ("anchors, aliases, merge", "yamlparse.go:mergeObject, parseStringValue, getUseage/setCachedUseage")],
  observe=["NewValueFromYaml", "LoadFromYaml"])
p("C11", "YAML decoding of arbitrary text always returns",
  "For every byte string the YAML entry points return, with a value or an error, without panic, without hanging and with memory bounded by a multiple of the size of the input with its aliases expanded. A failed load leaves the target empty and usable. One parse never influences the result of a later one, whether or not it failed.",
  ["inputs", "histories"], "all byte strings up to 64 KiB, and all sequences of parses over a recycled parser",
  NOASSERT + "no irregular YAML is fed and no sequence of parses is compared.",
  ["yamlparse.go"], [("line splitting loop", "yamlparse.go:parse"), ("parser pool reset", "yamlparse.go:newyamParser, freeyamlParser, reset")],
  observe=["NewValueFromYaml", "LoadFromYaml"])
p("C12", "An object behaves as an insertion-ordered map",
  "For every history of key operations (set by every typed setter or by type, replace, attach, remove, extract, clear, look-ups by key and index, visits, counts) on an object built by hand or decoded, the object shows exactly what an insertion-ordered map shows: each key at most once, last written value under it, replaced keys keep their position, removed keys are gone, other entries and their order untouched. A value of another type that is given an entry by key becomes an object of this one entry (numeric keys index an array). With case-insensitive matching switched on, the same holds with keys compared ignoring case.",
  ["histories", "configurations"], "all finite operation histories x case sensitivity x origin of the object (fresh, cached, decoded with escaped keys)",
  NOASSERT + "a dozen sets on fresh objects, no removal, extraction or replacement history is compared with anything.",
  ["dxvalue.go", "cache.go"], [("linear key table with lazy unescape", "dxvalue.go:VObject.*"), ("get-or-create setters", "dxvalue.go:SetKeyCached, SetKeyValue")],
  observe=["Count/Items/ValueByName/ValueByIndex/KeyNameByIndex/Visit after each operation"])
p("C13", "An array behaves as a list",
  "For every history of index operations (set inside or past the end, insert, append, remove, attach, clear, numeric-key access) on an array built by hand or decoded, the array shows exactly what a list shows: in-range sets replace one element, out-of-range sets append, inserts and removals shift the rest by one, and no other element changes. A value of another type that is given an element becomes an array of this one element.",
  ["histories"], "all finite operation histories on arrays of any length and origin",
  NOASSERT + "arrays of at most four elements are filled and printed.",
  ["dxvalue.go"], [("slice of nodes", "dxvalue.go:SetIndexCached, SetIndexValue, InsertValue, RemoveIndex")],
  observe=["Count/Items/ValueByIndex/Visit after each operation"])
p("C14", "Path access finds or creates exactly the addressed node",
  "For every tree and path, looking up by path returns the node that stepping key by key (decimal keys index arrays) reaches, and every typed look-up returns that node's value or the given default when, and only when, the path does not exist. Forcing a path makes exactly that path exist with the requested type, converting scalars on the way into objects, and leaves every node not on the path unchanged. Array keys are non-negative decimals, forced indexes at most the length.",
  ["inputs", "histories"], "all trees x all paths (existing, missing, through scalars and shared constants, through arrays with valid index)",
  NOASSERT + "two forced paths are printed.",
  ["dxvalue.go"], [("path walk", "dxvalue.go:ValueByPath, ForcePath, *ByPath, As*, *ByName, *ByIndex")],
  observe=["ValueByPath and typed look-ups", "tree diff around ForcePath"])
p("C15", "A scalar reads back as written, and conversions are exact",
  "For every scalar type and value, whatever the node held before, setting it makes the node that type and reading it back returns the value unchanged. Cross-type reads follow the numeric value: integers read as floats of that value, floats read as integers truncate, booleans read as 0/1, decimal text reads as that number (integer text also as an integer), text true (any case) reads as true, and numbers greater than zero read as true, others as false. The one exception: a node that is a date-time keeps that type when a plain float is set, and a float node keeps its type when a time is set (both share the day-number representation).",
  ["inputs", "histories"], "all values of each scalar type x all previous states of the node (incl. recycled ones)",
  NOASSERT + "a few SetKeyInt/String/Float values are printed.",
  ["dxvalue.go", "bin_value.go"], [("raw 8-byte slot with per-type reinterpretation", "dxvalue.go:Set*/Int/Double/Float/Bool/String, Reset")],
  observe=["Set*/Int/Double/Float/Bool/String/Binary/Duration"])
p("C16", "Clones and copies are equal, deep and independent",
  "For every value tree, cloning it (cached or not), copying it into another value, or adding its entries to a container gives content equal to the source in every respect including binaries, extension types and key text; afterwards no operation on either side, including clearing or freeing it, is observable on the other. Adding entries leaves keys the container already has as they are. A value that contains the target, or lies inside it, may be the source: the operation then still terminates with a finite tree.",
  ["inputs", "histories"], "all trees x {clone, copy, add} x {cached, uncached} x all later mutation histories on either side",
  NOASSERT + "one four-element array is cloned and printed.",
  ["dxvalue.go"], [("recursive copy", "dxvalue.go:clone, CopyFrom, AddFrom")],
  observe=["tree snapshots of both sides before/after mutations, node identity sets"])
p("C17", "Equality is an equivalence that reflects content",
  "For all value trees, equality is reflexive, symmetric and transitive, holds between a tree and any faithful copy of it, and fails as soon as any one string, number, binary, key, order or element count differs; it never panics. Numbers compare by numeric value across integer and float types, exactly (negative zero equals zero, NaN equals itself) and strings by decoded text regardless of how they were obtained.",
  ["inputs"], "all pairs and triples of trees, in particular trees differing in exactly one place",
  NOASSERT + "equality is exercised only inside one array merge.",
  ["dxvalue.go"], [("structural comparison", "dxvalue.go:Equal")],
  observe=["Equal on pairs with known relation"])
p("C18", "Merging is a complete recursive union",
  "For all pairs of objects, merging adds every key of the source missing in the target and, for each common key, calls the decision function (if any) once with the full slash-separated path and both values and then: keeps the target's value if custom, takes a copy of the source's if replace, and by default merges objects recursively, unites arrays without duplicating equal elements, and otherwise combines old and new into a two-element array. Merging two arrays unites them the same way; the source is never changed, nothing is shared with it afterwards, and no key of the target is lost. The two are separate trees, and an array of the source has no equal elements among its own.",
  ["inputs", "configurations"], "all pairs of trees x all decision functions",
  NOASSERT + "one pair with one common nested object and a pair of three-element arrays are printed.",
  ["dxvalue.go"], [("recursive merge", "dxvalue.go:mergeObject, MergeWith")],
  observe=["target/source snapshots, callback log"])
p("C19", "Recycled storage never leaks between values",
  "For every history of creating, decoding, editing, clearing, reloading, cloning and freeing cached values, a value obtained after others were freed starts empty (no keys, elements, text, bytes or numbers of earlier values), and distinct live values never share a node: no operation on one is observable on another. Caching is only an optimisation: every result equals the uncached result. A node taken out of a cached container is not used after that container is cleared, reloaded or freed.",
  ["histories"], "all interleaved life-cycle histories over many live values with recycling, with documents on both sides of the internal growth thresholds",
  NOASSERT + "values are freed at the end of a test and nothing is allocated afterwards.",
  ["cache.go", "dxvalue.go"], [("value cache pool", "cache.go:getCache, getValue, FreeValue, Reset"), ("slot reset", "dxvalue.go:Reset, Clear")],
  state=[{"name": "ValueCachePool", "meaning": "recycled node blocks", "where": "cache.go"}],
  observe=["snapshots of all live values after each step, node identity sets"])
p("C20", "Goroutines working on their own values do not interfere",
  "For every schedule of goroutines that each decode, build, edit, encode, merge, clone and free only values of their own, in all formats and with caching on, there is no data race and every goroutine obtains exactly the results it would obtain alone.",
  ["schedules"], "all interleavings of any number of goroutines sharing the process-wide pools, constants and type registry",
  "All tests are single-threaded; the benchmarks run in parallel but are not run by the tests and check nothing.",
  ["cache.go", "yamlparse.go", "jsonparse.go", "struct_type.go"], [("sync.Pool of caches and YAML parsers", "cache.go, yamlparse.go"), ("shared read-only constants", "jsonparse.go:valueTrue..., dxvalue.go:ReadOnly"), ("sync.Map registry", "struct_type.go")],
  observe=["race detector reports", "per-goroutine results vs. sequential results"])
p("C21", "The shared constants can never be altered",
  "For every history of API calls on nodes that report themselves read-only (true, false, null, NaN and infinity as obtained from constructors, decoders or setters), the constants stay exactly what they are for everybody: same type, text, truth value, zero elements, same encodings, and no memory is retained or written by the attempt. Setters on a parent that replace such an entry give a writable node that takes the value.",
  ["histories"], "all operation histories applied to read-only nodes obtained in all possible ways",
  NOASSERT + "one test forces a path through a boolean.",
  ["dxvalue.go", "jsonparse.go", "reflect_parse.go", "bin_value.go"], [("ReadOnly guards", "dxvalue.go:ReadOnly, Reset, Set*"), ("replace-on-write in SetKeyCached/SetIndexCached", "dxvalue.go")],
  state=[{"name": "valueTrue, valueFalse, valueNull, valueNAN, valueINF", "meaning": "process-wide constants", "where": "jsonparse.go"}],
  observe=["deep bytes of the constant structs before/after", "race detector"])
p("C22", "Caller-owned buffers are neither kept nor modified",
  "Whatever the format, a value decoded without sharing is unaffected by any later change to the input buffer, and no operation (decoding with or without sharing, later edits of the value, encoding) ever writes into a caller's input buffer. Encoders append to the destination they are given, leaving its existing bytes intact and producing the same bytes as with an empty destination, and bytes set by copy are independent of the caller's slice.",
  ["inputs", "histories"], "all documents, formats, sharing modes, edit histories and destination prefixes/capacities",
  NOASSERT + "no test touches a buffer after use or passes a non-empty destination.",
  ["jsonparse.go", "msgpackparse.go", "bson_parse.go", "yamlparse.go", "bin_value.go"], [("copy vs. share switches", "sharebinary parameters"), ("append-style writers", "Value2Json, Value2MsgPack, Value2Bson")],
  observe=["input/destination buffer contents before/after", "snapshot after scribbling over the input"])
p("C23", "Reading and encoding never change a value",
  "For every value tree and every sequence of read-only operations (look-ups, typed reads, counts, visits, equality, cloning, encodings in every format and style, export to Go values), every operation returns the same answer however many others ran before it, and the tree's content stays the same; in particular lazily decoded strings and keys are indistinguishable from eagerly decoded ones. JSON text is judged by the document it denotes.",
  ["inputs", "histories"], "all trees of all origins x all orders of read-only operations",
  NOASSERT + "values are printed once.",
  ["dxvalue.go", "jsonparse.go", "msgpackparse.go", "bson_parse.go"], [("lazy unescape in place", "dxvalue.go:String, UnEscapestrs")],
  observe=["answers of each read operation in different orders"])
p("C24", "Go values convert into trees without loss",
  "For every Go value composed of booleans, all integer and float kinds (within int64), strings, byte slices, times, nil, pointers to these, string-keyed maps, slices and structs, including named types and values implementing the encode interface, converting it (as root, under a key or at an index) yields the tree of the same content: one entry per map key or field, one element per slice element in the same position, nil as null. Whatever the root, key or index held before is replaced, and the tree keeps its content when the Go value's byte slices are overwritten later. It never panics. Unsigned integers are at most MaxInt64, map keys are of string kind, unexported fields may lack an entry (one that is there is right), nil maps and slices are empty containers, named byte-slice types may become arrays of numbers, and types that encode themselves through a pointer are passed as pointer.",
  ["inputs", "programs"], "all such Go values x {root, key, index} x {cached, uncached}",
  NOASSERT + "one struct and one map are converted and printed; unsigned fields, nil pointers, nil elements and named types do not occur.",
  ["reflect_parse.go", "struct_type.go"], [("type switches plus reflection fallback, three variants", "reflect_parse.go:SetValue, SetKeyvalue, SetIndexvalue")],
  observe=["NewValueFrom", "SetValue", "SetKeyvalue", "SetIndexvalue"])
p("C25", "Trees export into Go values without loss",
  "For every tree, exporting it into pointers to scalars, generic maps and slices, typed slices and structs (nested, with slices, times, byte slices, decode-interface implementers and registered type converters; names matched exactly or ignoring case) stores the tree's content at the matching places, leaves everything without counterpart untouched, reports whether the target is supported, and never panics. A struct of such fields converted to a tree and exported into a fresh struct of the same type is equal to the original. Unexported fields count as without counterpart; fields of pointer, map and array type are outside. Targets are non-nil, nil and empty slices count as the same, null is exported only into generic, numeric, boolean and pointer targets, and field names do not differ by case only.",
  ["inputs", "programs"], "all trees x supported target types x case matching",
  NOASSERT + "two structs are filled and printed.",
  ["reflect_parse.go", "struct_type.go"], [("export", "reflect_parse.go:ToStdValue, decode2reflectFromdxValue, decodeArray2reflect"), ("converter registry", "struct_type.go:RegisterTypeMapFunc")],
  observe=["ToStdValue on prepared targets"])
p("C26", "Converting between formats preserves content",
  "For every document decoded from one format, re-encoding it in any other format and decoding that, through any chain of JSON, MsgPack, BSON and YAML input, preserves the content common to the formats: structure, key order, decoded key and string text, integers, floats, booleans, nulls. In particular text that was escaped in JSON arrives decoded in the binary formats and the reverse. The root is an object, keys have no NUL, and texts of the Date(n) and %XX dialect are exempt.",
  ["inputs", "configurations"], "all documents x all chains of formats",
  NOASSERT + "no test converts between formats and compares.",
  ["jsonparse.go", "msgpackparse.go", "bson_parse.go", "dxvalue.go"], [("shared tree with raw (escaped) JSON strings and keys", "VT_RawString, keysUnescaped")],
  observe=["content after each hop"])
p("C27", "Date-times survive storage and every format",
  "For every instant between 1900 and 2190, whatever the zone of the time passed in and whatever the process's local zone (with summer time or other changes of offset included), a stored time reads back as the same instant to the nearest millisecond, and that reading survives cloning, copying, export, MsgPack and BSON exactly; JSON in date-text form and in /Date(ms)/ form, and a date-time's own text, keep it to the second, rounded down, and typed decoding of the three supported text layouts is exact to the second. Local texts that stand for two instants (clocks put back) and /Date(n)/ numbers of at most nine digits, which the dialect takes for seconds, are left out.",
  ["inputs", "configurations"], "all instants and zones of the argument x local zones x formats x entry points",
  NOASSERT + "time.Now() is stored once and printed.",
  ["dxvalue.go", "msgpackparse.go", "bson_parse.go", "jsonparse.go", "reflect_parse.go"], [("days-since-1899 float representation", "dxvalue.go:SetTime, GoTime, DateTime"), ("wire timestamps", "msgpackparse.go, bson_parse.go")],
  observe=["GoTime/DateTime after each hop, in processes started under different TZ"])
p("C28", "Files written are read back identically",
  "For every value tree and destination, saving as JSON (plain or indented, with or without byte-order mark) over any previous file content and loading it again gives the same tree, binaries saved to and loaded from a file are byte-identical whatever their size, MsgPack and YAML files load as their bytes would, and an unreadable or unwritable path yields an error.",
  ["inputs", "fault_sequences"], "all trees, binaries of all sizes, pre-existing files, missing/unwritable paths",
  NOASSERT + "file tests refer to the author's drive d: and ignore errors.",
  ["iofiles.go", "jsonparse.go", "msgpackparse.go", "yamlparse.go", "bin_value.go"], [("whole-file reader", "iofiles.go:ReadFile"), ("writers", "jsonparse.go:Value2File, bin_value.go:SaveBinaryToFile")],
  observe=["file bytes and decoded trees in a scratch directory"])
p("C29", "Loading replaces whatever the value held before",
  "For every format and document, loading into a value of any previous type and content (including a previously loaded, cleared, failed, cached or recycled one) gives exactly the tree that decoding into a new value gives, with nothing of the previous content left, and the value stays fully usable for further edits and loads. Loading empty input empties the value.",
  ["inputs", "histories"], "all documents x all prior states of the target x sequences of loads across formats",
  NOASSERT + "one load into a cached object of the right type is printed.",
  ["dxvalue.go", "jsonparse.go", "msgpackparse.go", "bson_parse.go", "yamlparse.go"], [("Clear then decode in place", "dxvalue.go:LoadFrom*, Clear"), ("in-place decoder variants", "parseJson2Value, parseMsgPack2Value, parseBsonDocument")],
  observe=["tree after load vs. tree from constructor"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
