#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single place where the properties are worded)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

API = ["return values of Marshal, MarshalOpts, Append, AppendOpts"]

p("C01", "Default output is byte-identical to encoding/json",
  "For every Go value built from types that encoding/json supports (no sync.Map, no omitnil tag, no AppendJSON/AppendJSONContext methods), Marshal with default options returns exactly the bytes json.Marshal returns, except that U+0008 and U+000C are written \\u0008 and \\u000c; when json.Marshal reports an error Marshal reports one too, and never panics or crashes. This covers every combination of kinds: scalars, strings, pointers, interfaces (with and without methods), structs, arrays, slices, maps, and the standard types time.Time, time.Duration, json.Number, json.RawMessage, however they are nested.",
  ["inputs", "programs"], "every Go type (program) and every value of it, under the default options",
  "The tests compare some 50 hand-written values with encoding/json; the claim is about every type a program can declare and every value, including shapes no test has (arrays of one pointer, interfaces with methods, deep embedding, map-kind marshalers).",
  ["encode.go", "instruction.go", "struct.go", "types.go", "unsafe.go", "json.go"],
  [("instruction selection by type", "instruction.go:newInstruction"), ("eface packing / inlined kinds", "unsafe.go:packEface, types.go:isInlined")], API)

p("C02", "Successful output is exactly one well-formed, compact JSON text",
  "Whenever a marshal call succeeds, the bytes produced are exactly one syntactically valid JSON value with no insignificant white space, valid UTF-8 (as far as the texts of RawMessages and of MarshalJSON, AppendJSON and AppendJSONContext methods are), and with object keys that are JSON strings, for every option combination that does not include NoStringEscaping, NoUTF8Coercion, NoNumberValidation or NoCompact (and provided AppendJSON/AppendJSONContext methods append valid compact JSON themselves). Unless NoHTMLEscaping is given, the bytes contain no literal <, > or &, and by default no U+2028 or U+2029.",
  ["inputs", "programs", "configurations"], "every type, value and combination of the validity-preserving options",
  "No test parses the output of an option combination; the tests check fixed strings for single options.",
  ["encode.go", "struct.go", "options.go"],
  [("comma/brace placement", "encode.go:encodeStruct, encodeArray, encodeMap"), ("escaping", "encode.go:appendEscapedBytes"), ("marshaler output validation", "encode.go:encodeJSONMarshaler")], API)

p("C03", "String escaping is faithful for every byte sequence and escape option",
  "A string or string key is written between quotes so that decoding the JSON string gives back the original, with every byte that is not part of a valid UTF-8 sequence replaced by U+FFFD; control characters, the quote and the backslash are always escaped, <, > and & are escaped as \\u00XX unless NoHTMLEscaping, and U+2028/U+2029 are escaped as \\u2028/\\u2029, exactly in encoding/json's form. NoUTF8Coercion keeps invalid bytes as they are and changes nothing else about bytes below 0x80; NoStringEscaping writes the bytes untouched and overrides the other two.",
  ["inputs", "configurations"], "every byte sequence (valid or not, any length, any alignment of multi-byte sequences) x every combination of the three escape options",
  "The tests use a dozen fixed strings; truncated, overlong, surrogate and boundary sequences and option pairs are not reached.",
  ["encode.go"], [("escape loop", "encode.go:appendEscapedBytes"), ("string instruction", "encode.go:encodeString")], API)

p("C04", "Struct fields: exactly the visible ones, once, in declaration order",
  "A struct is encoded as an object holding one member for each visible field and no other: exported fields and the fields promoted from embedded structs (through pointers too), names resolved by Go's visibility rules with JSON-tagged names winning at equal depth and ambiguous names dropped, '-' fields, unexported fields and fields behind a nil embedded pointer left out. Members come in declaration (index sequence) order, each under its tag name when that is valid and its field name otherwise, HTML-escaped unless NoHTMLEscaping, and each carries the value of that very field at any embedding depth.",
  ["programs", "inputs"], "every struct declaration: any embedding depth and fan-out, pointer and value embedding, recursive embedding, any tag text",
  "The tests declare about twenty structs; embedding trees deeper than three levels with siblings, and tag characters, are not covered.",
  ["struct.go", "tags.go", "encode.go"],
  [("breadth-first field scan", "struct.go:structFields, scanFields"), ("dominance", "struct.go:dominantField"), ("offset chain", "encode.go:encodeStruct")], API,
  [("embedSeq", "offset/indirection chain to a promoted field", "struct.go:field"), ("fieldsCache", "per-type field list", "struct.go")])

p("C05", "omitempty and omitnil omit exactly the empty / nil fields",
  "A field tagged omitempty is left out if and only if it is false, zero, a nil pointer, a nil interface, or an empty array, slice, map or string (decided on the field itself, never on what it encodes to); a field tagged omitnil is left out if and only if it is a nil pointer, interface, slice or map, or its json.Marshaler yields the literal null. Leaving a field out, be it first, middle or last, leaves the rest of the object as if the field had never been declared.",
  ["inputs", "programs"], "every field type and value x tag combination x position of the omitted field in the object",
  "Tests hold one big struct per option in which the omitted field is never first among marshaler-null fields, nor are options combined with embedding.",
  ["encode.go", "struct.go", "types.go", "instruction.go"],
  [("empty functions", "types.go:emptyFuncOf"), ("nil check and null roll-back", "encode.go:encodeStruct")], API)

p("C06", "The string tag option quotes exactly the scalar fields",
  "A field tagged with the string option whose type (after at most one unnamed pointer) is a string, boolean, integer or floating-point kind, json.Number and time.Duration in their default forms included, is written as a JSON string holding the JSON encoding of the value, so that decoding twice gives the value back; a nil pointer stays null. The option has no effect on fields of any other kind or on types with marshaling methods, and never reaches nested values.",
  ["inputs", "programs"], "every field type x value (string contents included) with the string option",
  "The single test uses one plain string and small numbers; strings that need escaping, json.Number and named types are not tried.",
  ["encode.go", "instruction.go", "struct.go"], [("quoted instructions", "instruction.go:wrapQuotedInstr, encode.go:encodeQuotedString")], API)

p("C07", "Maps: every entry once, keys by precedence, sorted by key text",
  "A non-nil map is encoded as an object with exactly one member per entry, each key paired with its own value, sorted by the bytes of the unescaped key text; with UnsortedMap the same members appear in some order. The key text follows encoding/json's precedence: string kinds as they are, then MarshalText (nil pointer keys give the empty key), then decimal integers; time.Time and time.Duration keys are written in the time and duration format in force; it is always written as one escaped JSON string, whatever other methods the key type has and whatever options are set.",
  ["inputs", "programs", "configurations"], "every key type, key set and value type, sorted and unsorted, nested maps included",
  "Tests use few keys, none of which needs escaping or has two methods; order under escaping and key/value pairing on large maps are unobserved.",
  ["encode.go", "instruction.go", "map.go"],
  [("map iteration through the runtime", "map.go:mapiterinit, mapiternext"), ("sort buffer", "encode.go:encodeSortedMap"), ("key instruction", "instruction.go:newMapInstr")], API,
  [("mapElemsPool, hiterPool, bufferPool", "recycled scratch objects", "map.go, buffer.go")])

p("C08", "A sync.Map is encoded exactly like the Go map with the same entries",
  "Marshaling a sync.Map gives the same output (or an error, like for keys of an unsupported type or a nil key) as marshaling an ordinary map with interface values holding the same entries and the same key texts: sorted or unsorted, empty as {}, nil values as null, nil text-marshaler keys as the empty key. It never panics, whatever keys and values are stored and whatever options are given.",
  ["inputs", "configurations"], "every set of stored keys and values of any dynamic type x options",
  "Tests store seven fixed entries; nil values, nil pointer keys, keys needing escaping and option interplay are not tried.",
  ["encode.go"], [("Range based encoders", "encode.go:encodeSyncMap, encodeSortedSyncMap, encodeUnsortedSyncMap, appendSyncMapKey")], API)

p("C09", "Marshaling methods: right method, right receiver, at every position",
  "A value whose type has marshaling methods is encoded by the first of AppendJSONContext, AppendJSON, MarshalJSON, MarshalText it has; a pointer-receiver method counts exactly when the value is addressable (reached through a pointer, a slice element, or a field/array element of such), and not otherwise. The method is called on the value being encoded itself, whatever its kind and memory layout (map, func, slice, single-pointer struct or array, interface, promoted methods), once for each place where its result is written, nil pointers and nil interfaces give null without a call, and AppendJSONContext receives the context given by WithContext.",
  ["programs", "inputs"], "every kind x method set x receiver kind x position (top level, field, embedded field, element, map value, interface, behind pointers)",
  "Tests cover string and empty-struct receivers in struct fields only; pointer-shaped kinds and addressability through embedded pointers are missing.",
  ["encode.go", "instruction.go", "unsafe.go", "types.go"],
  [("precedence", "instruction.go:newMarshalerTypeInstr"), ("receiver packing", "encode.go:encodeMarshaler, unsafe.go:packEface"), ("addressability propagation", "instruction.go: canAddr")], API)

p("C10", "Marshaler output and RawMessage: validated, compacted, content preserved",
  "The result of MarshalJSON and the content of a json.RawMessage are written with insignificant white space removed, HTML characters escaped unless NoHTMLEscaping, and nothing else changed (U+2028/2029 escaped), or unchanged with NoCompact; if it is not valid JSON the call fails instead of producing broken output. The text of MarshalText is written as a JSON string escaped like any other string; the result of AppendJSON is taken as it is.",
  ["inputs", "configurations"], "every byte string a method may return or a RawMessage may hold x NoCompact/NoHTMLEscaping",
  "Tests return short constants without white space, escapes or invalid syntax.",
  ["encode.go"], [("compaction", "encode.go:appendCompactJSON"), ("validation", "encode.go:encodeJSONMarshaler, encodeRawMessage"), ("text", "encode.go:encodeTextMarshaler")], API)

p("C11", "Nil and empty values: null, [] and {} by kind and option",
  "Nil pointers, nil interfaces and nil values of any pointer chain encode as null; nil maps as null, or {} with NilMapEmpty; nil slices as null, or [] with NilSliceEmpty; empty non-nil maps, slices and zero-length arrays as {} or []. A nil byte slice is null. Neither option affects anything that is not nil or not of that kind, at any nesting depth.",
  ["inputs", "configurations"], "every nil/empty/non-empty mix at every position x the two options",
  "One example per option in the tests, at top level of a struct only.",
  ["encode.go"], [("nil branches", "encode.go:encodePointer, encodeSlice, encodeMap, encodeInterface, encodeByteSlice")], API)

p("C12", "Byte slices and byte arrays round-trip at every length",
  "A slice of a byte kind is written as a JSON string holding standard padded base64 of its content (null when nil), or as an escaped JSON string of its raw bytes with RawByteSlice; a byte array is written as an array of numbers, or as an escaped string with ByteArrayAsString. This holds at every length, whatever the spare capacity of the destination, for named element and slice types too, and elements with marshaling methods are encoded one by one instead.",
  ["inputs", "configurations"], "every content and length (0.. past any internal buffer size), any destination capacity, options on/off",
  "The tests use five random slices and no destination with spare capacity.",
  ["encode.go", "instruction.go"], [("base64 into spare capacity", "encode.go:encodeByteSlice"), ("byte array view", "encode.go:encodeByteArrayAsString")], API)

p("C13", "Numbers: exact integers, shortest ES6 floats, only valid json.Number",
  "Every integer of every width and sign is written as its exact decimal; every finite float32/float64 as the shortest decimal that reads back to the same value, in positional form when 1e-6 <= |x| < 1e21 and with a minimal exponent otherwise; NaN and infinities are errors. A json.Number is written verbatim exactly when it is a valid JSON number ('' as 0) and is an error otherwise, unless NoNumberValidation, which writes any text verbatim.",
  ["inputs"], "every value of each numeric kind; every byte string as json.Number",
  "Tests sample boundaries of some kinds and a short list of number literals.",
  ["integer.go", "encode.go", "number.go"], [("integers", "integer.go"), ("floats", "encode.go:appendFloat"), ("number grammar", "number.go:isValidNumber")], API)

p("C14", "time.Time is rendered exactly for every instant, zone and layout",
  "A time.Time with year 0..9999 is written as the quoted text time.Format gives for the layout in force (RFC 3339 with nanoseconds by default, escaped where the layout's text needs it), for every instant, fraction and zone offset of less than 24 hours; with UnixTime as its Unix seconds, which overrides TimeLayout. Years outside 0..9999 are an error. The same holds for *time.Time and for times in fields, elements and map values.",
  ["inputs", "configurations"], "every instant in years 0..9999 (every day, leap years, year 0 included), any zone offset, every layout",
  "The time test draws random instants between 1970 and 2100 or so in a few layouts.",
  ["time.go", "encode.go"], [("civil date from day number", "time.go:rdnToYmd"), ("RFC3339 writer", "time.go:appendRFC3339Time")], API)

p("C15", "time.Duration is rendered exactly in every format",
  "A time.Duration is written according to the DurationFormat in force: nanoseconds (default), microseconds or milliseconds as integers truncated toward zero, seconds and minutes as the JSON number of Duration.Seconds/Minutes, or the quoted text of Duration.String. This holds for every int64 value, the extremes and negatives included.",
  ["inputs", "configurations"], "every int64 duration x every DurationFmt",
  "Tests check a handful of durations per format.",
  ["time.go", "encode.go"], [("duration text", "time.go:appendDuration, fmtFrac, fmtInt"), ("formats", "encode.go:encodeDuration")], API)

p("C16", "AllowList and DenyList filter struct fields by JSON name everywhere",
  "With DenyList no struct member whose JSON name is listed appears at any depth; with AllowList only listed names appear; with both, a name in both lists is denied; the last use of each option counts. The lists act on struct members only (never on map keys), by exact unescaped name, promoted fields included, and the remaining members are encoded exactly as without the lists.",
  ["inputs", "configurations", "programs"], "every struct type and nesting x every pair of lists",
  "Two examples in the tests, flat structs.",
  ["options.go", "encode.go"], [("field filter", "options.go:isDeniedField"), ("filter point", "encode.go:encodeStruct")], API)

p("C17", "Append extends dst with exactly Marshal's bytes and disturbs nothing else",
  "For any dst (nil, empty, with or without spare capacity), Append(dst, v) and AppendOpts return dst's bytes followed by exactly the bytes Marshal/MarshalOpts give for v, with the same options meaning the same. The bytes of dst up to its length are never changed, also when the call fails; Marshal returns no bytes with an error, and fails if and only if Append fails.",
  ["inputs", "histories"], "every dst content, length and capacity x every value, successful or failing",
  "Tests append to nil or tiny buffers; prefix preservation on failure, roll-backs (omitnil) and growth at any point are not observed.",
  ["json.go", "encode.go"], [("append entry points", "json.go:Append, AppendOpts, appendJSON"), ("roll-back in dst", "encode.go:encodeStruct")], API)

p("C18", "Failures are reported as errors, of the documented type, never as panics",
  "Values that cannot be encoded (channels, functions, complex numbers, maps with unsupported keys, NaN/Inf, invalid numbers, out of range years, failing or invalid marshalers) make the call return a non-nil error wherever they occur in the value, and only then: an unsupported type that is never reached (nil pointer, omitted or denied field, empty slice) is no error. The error is the documented one: UnsupportedTypeError and UnsupportedValueError name the type or value, and MarshalerError names method and type and unwraps to the method's own error.",
  ["inputs", "programs"], "every position of an unencodable value in every type",
  "Tests put unsupported values at top level or one level deep.",
  ["json.go", "encode.go", "instruction.go"], [("unsupported instruction", "instruction.go:newUnsupportedTypeInstr"), ("error wrapping", "encode.go:encode*Marshaler, json.go:MarshalerError")], API)

p("C19", "Every call is independent of the calls before it",
  "The result of a call depends only on its arguments: not on which types were encoded before, in which order, by value or by pointer, with which options, or on earlier calls that failed or whose user methods panicked. A byte slice returned by Marshal belongs to the caller: no later call changes it, and writing to it (or to what was passed in) changes no later result; encoding never modifies the value.",
  ["histories"], "every sequence of calls over types (same-named distinct types and re-entrant marshalers included), options, failures and writes to returned slices",
  "Each test makes isolated calls; caches and pools are only ever exercised in one order.",
  ["instruction.go", "struct.go", "types.go", "buffer.go", "map.go", "json.go"],
  [("instruction caches", "instruction.go:cachedInstr, newStructInstr"), ("pools", "buffer.go, map.go"), ("copy out of the pooled buffer", "json.go:marshalJSON")], API,
  [("instrCachePtr", "copy-on-write type -> instruction map", "instruction.go"), ("structInstrCache", "struct type+addressability -> instruction", "instruction.go"),
   ("bufferPool, mapElemsPool, hiterPool", "recycled scratch objects", "buffer.go, map.go")])

p("C20", "Concurrent calls behave like sequential ones, first use of types included",
  "Any number of goroutines may call the API at once on the same or different values and types, never-seen and recursive types included: every call returns what it would return alone, no call blocks forever, panics or races. The first encoding of a recursive type that is being prepared by another goroutine waits for, or does without, that preparation but never uses it half done.",
  ["schedules"], "every interleaving of concurrent calls around first use of types (mutually recursive ones included) and around the recycling of buffers",
  "No test starts a goroutine; the race detector only sees sequential runs.",
  ["instruction.go", "struct.go", "types.go", "buffer.go", "map.go"],
  [("placeholder with wait group", "instruction.go:newStructInstr"), ("copy-on-write cache", "instruction.go:storeInstr"), ("sync.Pool recycling", "buffer.go, map.go")],
  API + ["goroutine states"], [("structInstrCache", "placeholder or final instruction per struct type", "instruction.go"), ("instrCachePtr", "copy-on-write map", "instruction.go")],
  "none in /repo: the checks rebuild the package through a build overlay that redirects sync primitives to a controlled scheduler")

p("C21", "The encoding of a value does not depend on where it sits",
  "A value of a type without pointer-receiver marshaling methods has the same encoding at top level, behind any chain of pointers, in an interface (of any static interface type without marshaling methods), as a struct field (alone, first, last, promoted), as array or slice element and as map value, also for types the runtime stores directly in interfaces (single-pointer structs and arrays, maps, funcs). A value with pointer-receiver methods has one encoding at all the positions where it is addressable (behind pointers, wherever these are held, in slices, in what is reached through them), and one at all the others.",
  ["inputs", "programs"], "every type and value x every context it can be placed in",
  "Each test value sits at one position.",
  ["instruction.go", "types.go", "unsafe.go", "encode.go"], [("inlined values", "types.go:isInlined, instruction.go:wrapInlineInstr"), ("offset arithmetic", "encode.go:encodeArray, encodeStruct")], API)

p("C22", "Recursive types and cyclic values: encoding terminates",
  "Types that refer to themselves in any way (through structs, slices, maps, pointers, arrays of such, mutually) can be encoded like any other, at any finite depth of the value. A value that contains itself gives an error, as with encoding/json, instead of exhausting the stack.",
  ["programs", "inputs"], "every recursive type declaration, every depth of value, every cyclic value",
  "The one test has a struct holding a pointer to itself, two levels deep.",
  ["instruction.go", "encode.go"], [("placeholder instruction", "instruction.go:newStructInstr")], API)

p("C23", "Options are validated, independent, and the last one wins",
  "An empty time layout, an unknown duration format or a nil context makes MarshalOpts/AppendOpts return an InvalidOptionError and no bytes for any non-nil value; nil options are ignored; when options of the same sort repeat, the last one counts; order is otherwise irrelevant. Each option affects only the constructs it documents: output parts that do not contain such a construct are the same with and without it, for every combination of options, and options of one call never affect another call.",
  ["configurations", "inputs"], "every list of options (duplicates, nil, invalid ones, any order) x every value",
  "Tests set one option at a time.",
  ["options.go", "json.go"], [("option application and validation", "options.go:apply, validate"), ("flags", "options.go:bitmask")], API)

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(P), "properties")
