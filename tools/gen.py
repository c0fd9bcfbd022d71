#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note, level="model_checking", state=None, claimed=True, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
        mech=mech, observe=observe, technique=technique, note=note, level=level, state=state, claimed=claimed, na=na))

TR = "; trusts the Go toolchain and, where it is the oracle, encoding/json and strconv"

prop("C01", "Exactly the RFC 8259 texts are accepted, by every entry point",
 "A byte sequence is accepted by validation, by skipping, by raw reading, by untyped reading and by ignoring an unknown object member if and only if it is a JSON text of RFC 8259, whatever its nesting depth; the single exception is an untyped read of a number outside the float64 range. All these entry points therefore agree with each other on every input.",
 ["inputs"], "every byte sequence",
 "The tests list a few dozen malformed texts per routine; each routine has its own hand-written state machine over an explicit stack, and they must agree on all byte sequences and depths.",
 ["standard_like.go", "iterator.go", "iterator_skip*.go", "iterator_raw.go", "iterator_read*.go", "stack.go"],
 [("skip state machine over a bit stack of nesting", "iterator_skip.go, iterator_skip_array.go, iterator_skip_object.go, stack.go"),
  ("literal, number and string recognisers", "iterator_null.go, iterator_bool.go, iterator_skip_number.go, iterator_skip_str.go"),
  ("untyped reader", "iterator_read.go, iterator_read_array.go, iterator_read_object.go")],
 ["Valid", "Iterator.Skip and the typed skips", "SkipRaw", "Read", "Unmarshal into interface{}, RawMessage, struct"],
 "exhaustive enumeration of byte strings and of the live prefixes of a pushdown-automaton model, replayed on the real code",
 "Exhaustive for all byte strings over a 26-letter alphabet and all live prefixes of the JSON pushdown automaton to the stated lengths, all nesting shapes with one deviation to depth 200/400, all single edits of seed documents. The automaton is itself compared with encoding/json on every text")

prop("C02", "Untyped decoding preserves the document",
 "Decoding a JSON text into an empty interface gives exactly the value tree the text denotes: objects as maps holding the last of duplicate members, arrays in order with all elements, strings, booleans, nulls, and numbers as the nearest float64, or as their literal text when the number mode is on. The result is the same through every untyped reading entry point and at every nesting depth, and equals what the standard library produces.",
 ["inputs", "configurations"], "every JSON text, number mode on or off, every untyped entry point",
 "Tests read a handful of documents; the reader is an iterative machine with explicit stacks of partially built containers whose behaviour depends on the exact nesting and sibling history.",
 ["iterator_read.go", "iterator_read_array.go", "iterator_read_object.go", "node.go", "val_decoder_native_interface.go", "iterator_number.go", "decoder.go"],
 [("stack of partially built nodes", "node.go, iterator_read.go"), ("dispatch on the first byte", "iterator_read.go")],
 ["Unmarshal into interface{}", "Iterator.Read", "Decoder with UseNumber", "map[string]interface{} and []interface{} targets"],
 "exhaustive enumeration of all JSON documents of bounded size and shape, compared with a reference decoder",
 "Every document of up to 9 (quick) / 11 (thorough) tokens over a token alphabet with duplicate keys, every sibling shape after every nesting depth; every entry point compared by value" )

prop("C03", "Integers decode exactly or are rejected",
 "Decoding a JSON number, a quoted number or an object key into any signed or unsigned integer type yields the exact mathematical value when the text is a plain decimal integer that fits, and an error in every other case (overflow, sign on an unsigned type, leading zero, fraction, exponent, trailing characters). No out-of-range text wraps, saturates or is truncated, and memory next to the destination is never changed.",
 ["inputs", "configurations"], "every text, every integer width and signedness, every position (value, map key, quoted field, iterator call)",
 "Tests sample the limits per width; overflow detection is unrolled by hand per width, with distinct fast and slow paths.",
 ["iterator_int*.go", "val_decoder_native_int.go", "val_decoder_native_uint.go", "val_decoder_native_map.go"],
 [("unrolled digit readers with overflow thresholds", "iterator_int8.go, iterator_int16.go, iterator_int32.go, iterator_int64.go"),
  ("quoted integers and integer map keys", "val_decoder_native_int.go, val_decoder_native_uint.go, val_decoder_native_map.go")],
 ["Iterator.ReadInt*/ReadUint*", "Unmarshal into integers, quoted fields, map keys", "UnmarshalFromReader"],
 "exhaustive enumeration of digit strings and boundary neighbourhoods against arbitrary-precision arithmetic",
 "All values of the 8 and 16 bit types and their surroundings, all strings over a number alphabet to length 6/7, all values within a window of every power-of-two and power-of-ten boundary with every truncation and digit substitution; through whole-buffer and chunked input")

prop("C04", "Floats decode to the correctly rounded value or are rejected",
 "Decoding a JSON number into a 32 or 64 bit float yields the value the IEEE-754 round-to-nearest-even conversion of the literal gives, including the sign of zero, and a number outside the finite range of the type is an error. A text that is not a JSON number is rejected and exactly the characters of the number are consumed.",
 ["inputs"], "every number literal of any length, both float types, every input chunking",
 "Tests sample some literals; conversion has a hand-written recogniser for every literal shape in front of the parser, separately for both widths.",
 ["iterator_float.go", "iterator_float32.go", "iterator_float64.go", "val_decoder_native_float.go"],
 [("recogniser per literal part, feeding the parser", "iterator_float32.go, iterator_float64.go")],
 ["Iterator.ReadFloat32/ReadFloat64", "Unmarshal into floats, quoted floats, interface{}"],
 "exhaustive enumeration of number literals by grammar, compared bit for bit with strconv",
 "Every string over a number alphabet to length 6/7, every literal of the grammar with bounded parts and all exponents -360..360, float32/float64 boundary and halfway values, long literals")

prop("C05", "String decoding yields exactly the denoted text",
 "Decoding a JSON string gives the text it denotes: every escape is translated, surrogate pairs combine, an unpaired surrogate becomes U+FFFD, all other characters are kept, and control characters, unknown escapes, bad hex digits and unterminated strings are errors. Every consumer of strings - string values, object keys, map keys, struct field names, text hooks, base64 bytes, raw readers - sees the same text.",
 ["inputs"], "every sequence of string characters and escapes, every string consumer, every input chunking",
 "Tests list single escapes; the decoder switches between a zero-copy path and a copying path and keeps surrogate state between escapes, so sequences and positions matter.",
 ["iterator_str.go", "iterator_object.go", "iterator_skip_str.go", "val_decoder_native_slice.go"],
 [("fast zero-copy path and slow unescaping path", "iterator_str.go"), ("surrogate pairing", "iterator_str.go readEscapedChar")],
 ["Iterator.ReadString*", "Unmarshal into strings, keys, interface{}, []byte"],
 "exhaustive enumeration of escape and character sequences against a reference unescaper, for every consumer and chunking",
 "All sequences of string items (raw classes, escapes, surrogate kinds, malformed items) to length 4/5, all 65536 \\u escapes, all bytes at all positions around the buffer sizes")

prop("C06", "Results do not depend on how the input is delivered",
 "For every input text, decoding it from a reader gives the same value, the same acceptance and the same consumed position as decoding it from one byte slice, however the reader splits the text into reads, including empty reads and end-of-input reported together with the last data. This holds for every decoding operation and for tokens of any length at any offset of the internal buffer.",
 ["inputs", "schedules"], "every text and every partition of it into reads, every operation",
 "Tests use whole-buffer readers and a few one-byte readers; every reading routine has its own refill point at which saved slices and offsets may be stale.",
 ["iterator.go", "iterator_*.go", "decoder.go", "decoder_config.go"],
 [("refill of the buffer in the middle of a token", "iterator.go readMore"), ("captured raw bytes across refills", "iterator_raw.go")],
 ["UnmarshalFromReader", "Iterator.Reset + every read", "Decoder.Decode"],
 "exhaustive enumeration of read schedules (all partitions) over a document corpus, differential against whole-slice decoding",
 "All 2^(n-1) partitions for documents to 12/16 bytes, all 2-cut partitions and all uniform chunk sizes for longer ones, with empty reads and data+EOF, at all paddings around the 64 and 512 byte buffer sizes")

prop("C07", "A stream of values is decoded one by one, in order, to the end",
 "A stream decoder returns the values of a concatenated, whitespace-separated input one after the other, in order and completely, and then end-of-input; after each value the reported offset is the exact number of bytes consumed and the buffered remainder followed by the unread input is exactly the rest of the stream. Whether more input follows is reported truthfully, and after a failed decode no later value is fabricated or duplicated.",
 ["inputs", "schedules", "histories"], "every sequence of values and separators, every read partition, every interleaving of Decode, More, Buffered and InputOffset",
 "Tests decode one or two fixed streams; the decoder carries buffer, offset and error state between calls.",
 ["decoder.go", "iterator.go", "iterator_val.go"],
 [("offset bookkeeping across refills", "iterator.go readMore, decoder.go InputOffset"), ("sticky error", "decoder.go Decode")],
 ["Decoder.Decode/More/Buffered/InputOffset"],
 "exhaustive exploration of operation sequences of a stream-decoder model, replayed step by step on the real decoder",
 "All operation sequences to the bound over all streams of up to 3/4 values from an alphabet and all chunkings; the reference model tracks position, remaining bytes and error")

prop("C08", "Failures of the input reader are reported, never swallowed",
 "If the input reader fails with an error before a value is complete, the decoding call returns an error and that error is observable from it; a value is reported as decoded only if all of its bytes were delivered. Truncated input is always an error, and no retry, panic or endless loop results from any finite sequence of short, empty or failing reads.",
 ["inputs", "fault_sequences"], "every document, every read position at which the reader fails, every way of failing, every operation",
 "Tests inject a few failing readers; each read routine has its own handling of the refill error.",
 ["iterator.go", "iterator_*.go", "errors_decoder.go", "decoder.go"],
 [("error propagation from the refill", "iterator.go readMore, nextToken"), ("wrapping", "errors_decoder.go, iterator.go WrapError")],
 ["UnmarshalFromReader", "Decoder.Decode", "Iterator.Reset + every read"],
 "exhaustive fault injection at every read of every schedule",
 "Every byte position x failing mode x chunking x operation for a document corpus covering every token kind and target type", level="fault_enumeration")

prop("C09", "Writers receive the encoded bytes once, in order, and their failures surface",
 "The writer of an encoder or streamer receives exactly the bytes that encoding the values produces, each once and in order, with one newline per encoded value, however the writer behaves per call; when the writer fails, the call that flushes reports that error and later calls do not silently succeed or resend. When a value cannot be encoded, the error is reported and nothing of that value reaches the writer.",
 ["fault_sequences", "histories"], "every sequence of encode, flush and reset operations and every failure point of the writer",
 "Tests write to an always-successful buffer; partial writes, failures and reuse after failures are histories.",
 ["encoder.go", "streamer.go", "streamer_pool.go", "errors_encoder.go"],
 [("flush and buffer truncation", "streamer.go Flush"), ("sticky encoder error", "encoder.go")],
 ["Encoder.Encode", "Streamer.Flush", "Streamer.Error"],
 "exhaustive enumeration of operation sequences x writer failure points against a reference writer model",
 "All operation sequences to length 5/6 over an operation alphabet, with every failing write call and failure mode", level="model_checking")

prop("C10", "Scalars are encoded exactly and identically to the standard library",
 "Every integer, float, boolean and string is encoded as JSON text that denotes exactly that value: integers in shortest decimal, floats as the shortest text that reads back to the same bits, strings with every required character escaped and, when enabled, the HTML characters escaped, with invalid UTF-8 replaced by the replacement character. Apart from the spelling of the backspace and form feed escapes the bytes equal those of the standard library, at every position where a scalar can be written, and non-finite floats are errors.",
 ["inputs", "configurations"], "every scalar value, every position (top level, element, field, quoted field, key, streamer call), both escaping modes",
 "Tests sample values; the integer printer works by digit triples and the string encoder has a fast and slow path over tables.",
 ["streamer_int.go", "streamer_float.go", "streamer_str.go", "val_encoder_native*.go"],
 [("digit-triple integer printing", "streamer_int.go"), ("shortest float formatting", "streamer_float.go"), ("escape tables, fast and slow path", "streamer_str.go")],
 ["Marshal", "Streamer scalar calls"],
 "exhaustive enumeration of scalar spaces compared byte for byte with the standard encoder",
 "All 8 and 16 bit integers, windows at every power of two and ten, (thorough: all 2^32 float32 and int32), grids over all float64 exponents; all code points; all byte strings to length 3 over byte classes and items around table boundaries")

prop("C11", "Composite values are encoded as the documented JSON",
 "Encoding any value built from structs, maps, slices, arrays, pointers and interfaces gives JSON with exactly the members and elements the value has, equal to the standard library's output up to the order of map keys: nil handling, embedded fields, field naming and omission options, quoting option, byte slices, number and raw types, and key conversion included. The result does not depend on where in a larger value it stands or whether it is reached through a pointer or an interface, and unsupported values are errors rather than malformed output.",
 ["inputs", "programs", "configurations"], "every Go type of the supported kinds and every acyclic value of it",
 "Tests check individual types; the encoder is assembled per type from unsafe accessors whose correctness depends on memory layout (pointer-shaped values) and on combinations of kinds.",
 ["val_encoder*.go", "encoder_config.go", "struct.go", "struct_field.go", "struct_tag.go", "is_empty.go"],
 [("encoder construction per type with fix-up of recursive types", "encoder_config.go"), ("direct/indirect value access", "val_encoder_direct.go, eface.go"), ("field collection", "struct.go")],
 ["Marshal", "Streamer.Value"],
 "exhaustive enumeration of types (type constructors to a depth) and values over a small-scope universe, compared with the standard encoder",
 "All types of depth <=2/3 over the type constructors crossed with all small-scope values, plus a struct universe; runtime-built struct types with all tag option combinations")

prop("C12", "Object members reach the struct field of that name, whatever the struct size",
 "Decoding an object stores each member in the struct field the naming rules select - exact name first, then case-insensitive, honouring tags, embedding and conflict rules and the configured tag key, tagged-only and case-sensitive options - and changes no other field. Unknown members are skipped, or rejected when that is requested, and none of this depends on the number of fields, the member order, or how the key is spelled with escapes.",
 ["inputs", "programs", "configurations"], "every struct type, every object, every configuration",
 "Tests check a few structs; three different decoders exist for one, few and many fields, each with its own name lookup.",
 ["val_decoder_native_struct*.go", "struct.go", "struct_field*.go", "struct_tag.go", "val_decoder_skip.go"],
 [("three struct decoders by field count", "val_decoder_native_struct.go, val_decoder_native_struct_small.go, val_decoder_native_struct_one_field.go"), ("hash and case-folded lookup", "val_decoder_native_struct.go find")],
 ["Unmarshal", "DecoderConfig options", "Decoder.DisallowUnknownFields"],
 "exhaustive enumeration of struct shapes (field counts 0..14, name sets, tags, embeddings), keys and options against a reference resolver",
 "Runtime-built struct types with every field count and all key spellings from a name alphabet, all configuration combinations; oracle is the standard library and an explicit resolver for the options it lacks")

prop("C13", "Encoding followed by decoding restores the value",
 "For every value of a type that both sides support, decoding the encoded bytes into a fresh destination of that type yields an equal value, and encoding that again yields the same JSON up to the order of map keys. This holds through every encode and decode entry point and under every configuration whose two sides match.",
 ["inputs", "programs", "configurations"], "every type and value, all encode/decode entry point pairs",
 "Tests round-trip a few values; the composition covers interactions of both sides that neither side's tests show.",
 ["encoder.go", "decoder.go", "standard_like.go", "val_encoder*.go", "val_decoder*.go"],
 [("paired encoders and decoders per type", "val_encoder*.go, val_decoder*.go")],
 ["Marshal then Unmarshal", "Encoder then Decoder", "Streamer then Iterator"],
 "exhaustive enumeration of a type and value universe with the real encoder and decoder composed",
 "All small-scope values of all types of the universe, all entry point pairs, chunked and unchunked")

prop("C14", "Any well-formed sequence of streamer calls writes the JSON it describes",
 "For every sequence of streamer calls that follows the JSON grammar, the bytes written are exactly the JSON text those calls describe, with commas and colons in the right places, whatever the mixture of scalar, raw, value and nested container calls and however often the output is flushed in between. Errors raised by a value stay visible and are not overwritten by later calls.",
 ["histories"], "every grammatical call sequence, with flushes at every point",
 "Tests check a few chains; separators depend on one flag that every call must maintain, so any pair of adjacent calls can go wrong.",
 ["streamer.go", "streamer_int.go", "streamer_float.go", "streamer_str.go", "streamer_val.go"],
 [("separator flag maintained by every call", "streamer.go")],
 ["Streamer chained calls", "Flush"],
 "explicit-state enumeration of all grammatical call sequences of a writer model, replayed on the real streamer",
 "All grammatical call sequences to length 11/13 over the call alphabet, each call kind in each context pair, flush points at every position")

prop("C15", "No operation is influenced by earlier, unrelated operations",
 "The outcome of every encode or decode depends only on its own input and configuration: not on earlier operations, successful or failed, that used the same recycled internal objects, and per-use overrides (number mode, unknown-field checking, escaping, attached context) never outlive the use that set them. Values handed to the caller are never changed by later operations, and input buffers are never modified.",
 ["histories", "configurations"], "every sequence of operations sharing pools and configurations",
 "Each test starts from whatever pooled state exists; leaks need specific pairs or triples of operations.",
 ["iterator_pool.go", "streamer_pool.go", "iterator.go", "streamer.go", "decoder.go", "encoder.go", "decoder_config_adaptor.go", "encoder_config_adaptor.go"],
 [("reset on return to the pool", "iterator.go reset, streamer.go, decoder_config_adaptor.go")],
 ["all public operations", "results retained by the caller"],
 "exhaustive enumeration of operation histories on one pool, each result compared with the same operation in a fresh configuration",
 "All histories of length 3/4 (one iterator 4/5, one streamer 6/7, type caches 4/5) over an alphabet of public operations incl. failing ones and overrides; all retained results re-checked after every later operation")

prop("C16", "Configurations can be shared by concurrent users",
 "Any number of goroutines may encode and decode through the same configuration at the same time, including the first use of a type, mutually recursive types and types whose conversion fails, and each gets the result it would get alone. There are no data races, deadlocks or half-initialised converters under any interleaving.",
 ["schedules", "histories"], "every interleaving of concurrent first and later uses",
 "A test run sees one schedule; the type caches are copy-on-write under a lock and filled in two phases for recursive types.",
 ["decoder_config.go", "encoder_config.go", "iterator_pool.go", "streamer_pool.go", "iterator.go", "streamer.go"],
 [("copy-on-write cache published atomically", "decoder_config.go createDecoder, encoder_config.go createEncoder"), ("object pools", "iterator_pool.go, streamer_pool.go")],
 ["Marshal/Unmarshal from several goroutines on one configuration"],
 "stateless model checking: the real code under a controlled scheduler exploring all interleavings to a preemption bound, plus a race-detector pass over the explored schedules",
 "Code instrumented by an overlay generated from /repo at check time (synchronisation operations are scheduling points); all interleavings of 2-3 goroutines up to the preemption bound")

prop("C17", "Every way of reading a value consumes the same bytes",
 "Skipping a value, capturing it raw, reading it untyped, reading it into a matching typed target, and walking it piece by piece all succeed on the same inputs and leave the read position at the same place, so any mixture of them over one input stays aligned. A captured raw value is exactly the input bytes of that value.",
 ["inputs", "histories"], "every JSON text, every assignment of a reading method to each of its values",
 "Tests use each method alone; alignment is about all combinations at all positions.",
 ["iterator_skip*.go", "iterator_raw.go", "iterator_read*.go", "iterator_array.go", "iterator_object.go", "iterator_val.go"],
 [("begin/more protocol of containers", "iterator_array.go, iterator_object.go"), ("raw capture", "iterator_raw.go")],
 ["Iterator methods", "Buffer"],
 "exhaustive enumeration of documents x assignments of reading methods to their nodes",
 "All documents of up to 6/8 nodes x all method assignments, whole-slice and one-byte readers")

prop("C18", "Decoding updates its destination as documented and nothing else",
 "Decoding into an existing destination follows the standard library: null clears pointers, maps, slices and interfaces and leaves scalars alone, existing pointers are followed, arrays are filled and the rest zeroed, maps are merged, and a non-nil interface holding a pointer decodes into what it points to. Destinations that are not pointers, nil pointers, and interface loops are errors, and memory outside the selected destination is never written.",
 ["inputs", "programs", "histories"], "every destination type and prior content, every JSON text",
 "Tests use mostly zero destinations; the outcome depends on prior content, aliasing and layout.",
 ["val_decoder_native*.go", "iterator_val.go", "iterator.go", "val_decoder_json_*.go"],
 [("pointer, array, map and interface decoders", "val_decoder_native_ptr.go, val_decoder_native_array.go, val_decoder_native_map.go, val_decoder_native_interface.go")],
 ["Unmarshal into prepared destinations"],
 "exhaustive enumeration of destination types x prior contents x texts against the standard decoder, with guard memory around every target",
 "Whole universe of destination types with all prior-content variants crossed with all small JSON texts; two-step histories into the same destination")

prop("C19", "Decoded and encoded data stay intact under garbage collection",
 "A garbage collection or stack movement at any moment of any operation changes no result: everything a decoded value refers to stays alive, nothing reachable is freed or overwritten, and the unsafe memory accesses stay within the objects they belong to. Values returned to the caller never share memory with internal buffers.",
 ["schedules", "inputs"], "every point at which a collection can happen during every operation",
 "Collections are rare in short tests; the library reaches memory through unsafe pointers, so a missed reference is silent until a collection falls into a small window.",
 ["val_decoder_native_slice.go", "val_decoder_native_map.go", "eface.go", "link_reflect*.go", "convert.go", "val_encoder_native_map*.go"],
 [("runtime-linked allocation and typed copies", "link_reflect.go"), ("unsafe slice header", "val_decoder_native_slice.go"), ("noescape conversions", "convert.go, val_decoder.go, val_encoder.go")],
 ["Unmarshal*/Marshal with collections forced at every callback and read"],
 "exhaustive enumeration of collection points (every read, hook call and allocation point) with freed memory clobbered and pointer checking on",
 "Each operation re-run once per possible collection point, and with a collection at all points; freed memory is overwritten, checkptr instrumentation on")

prop("C20", "Custom conversion hooks are honoured everywhere, with the right data",
 "A type's JSON or text conversion methods, or the converters registered in a configuration, are used at every position where a value of that type occurs - top level, element, field, embedded field, map value, behind pointers and interfaces, and for text methods also map key - and get exactly the bytes of the value or the address of the value. Their output is inserted unchanged, their errors surface from the call, and without an entry for the type they are not called (an entry for a predeclared scalar type also serves named types of its kind that have neither methods nor an entry of their own).",
 ["programs", "inputs", "configurations"], "every hook kind x receiver kind x type shape x position",
 "Tests check selected positions; hooks on pointer-shaped types and on pointer receivers take different unsafe paths.",
 ["val_decoder_json_unmarshaler.go", "val_decoder_text_unmarshaler.go", "val_encoder_json_marshaler.go", "val_encoder_text_marshaler.go", "val_encoder_direct.go", "encoder_config.go", "decoder_config.go"],
 [("hook detection per type", "encoder_config.go, decoder_config.go"), ("direct, pointer and dynamic hook adapters", "val_encoder_json_marshaler.go, val_encoder_text_marshaler.go")],
 ["Marshal/Unmarshal with hooks", "NewEncoderConfig/NewDecoderConfig with custom converters"],
 "exhaustive enumeration of hook types x positions x values, with a recording hook as the monitor",
 "All hook kinds on value shapes (scalar, struct, pointer-shaped, map, slice, interface) crossed with all position compositions to depth 2/3")

prop("C21", "Typed decoding is total and accepts what the standard library accepts",
 "For every input and every destination type, decoding terminates without panicking, with memory proportional to the input, and it succeeds exactly when the standard library succeeds, with an equal value. A text that is malformed, of the wrong kind for the destination, or followed by anything but whitespace is an error.",
 ["inputs", "programs"], "every byte sequence and every supported destination type",
 "Tests pair each type with a few texts; the product of types and malformed texts is never explored.",
 ["val_decoder*.go", "iterator*.go", "decoder_config.go", "standard_like.go"],
 [("per-type decoders dispatching on the first byte", "val_decoder*.go"), ("trailing data check", "iterator.go unmarshal")],
 ["Unmarshal", "UnmarshalFromReader"],
 "explicit-state exploration of destination types x (all token paths of the JSON automaton, all single corruptions of accepted texts, all trailing bytes, nesting ladders, growth families), compared with the standard decoder on the real code",
 "All types of the universe x all live token prefixes to the bound and their one-token corruptions; divergences that are documented (lenient quoted fields, unsupported kinds) are excluded by name in DESIGN.md")

# engines added on top of those the notes above describe; ENGINES.md has the bounds
D = "relatives of JSON (JSON5, YAML, language literals, comments, foreign blanks and quotes)"
L = "documents of 36 families at every size around 2^12..2^16"
EXTRA = {
 "C01": "documents growing in one dimension with corruptions; " + D,
 "C02": "documents growing in one dimension; " + L,
 "C03": D, "C04": D, "C05": D,
 "C06": "all kinds of io.Reader; " + L,
 "C07": "all kinds of io.Reader; one destination for all values of a stream",
 "C08": "33 kinds of error (wrapped, joined, comparable or not, io sentinels, nil-valued) at every failure point",
 "C09": "values whose text begins or ends in any byte; failures of late writes after large and many small outputs; kinds of writer error",
 "C10": "texts of methods at every place",
 "C11": L, "C12": "spellings of member names by character; " + D + "; " + L,
 "C13": L, "C14": "each call sequence after large output",
 "C15": "streamers, encoders, iterators and decoders abandoned or failed at every call before reuse; results of every size re-read after everything connected was reused",
 "C17": "every character as a member, element or name; " + D,
 "C18": "chains and circles of interfaces; interfaces with priors of every shape; " + L,
 "C19": "values that change while they are encoded; growing values",
 "C20": "registered encoders that decide emptiness; 24 kinds of error returned by a hook at every call; all sets of up to 3 converters for types that contain each other",
 "C16": "the same type used with values of different sizes by two goroutines",
 "C21": "quoted fields; " + D + "; " + L,
}

def main():
    built = set(os.environ.get("BUILT", "").split()) or None
    claimed_file = os.path.join(V, "tools", "claimed.txt")
    if os.path.exists(claimed_file):
        built = set(open(claimed_file).read().split())
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None}
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
              "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in built:
            checks.append({"property": i, "quick_cmd": f"./check.sh run {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh run {i}",
              "evidence_file": f"evidence/{i}.json", "technique": p["technique"], "level": p["level"], "level_note": p["note"] + ("; also: " + EXTRA[i] if i in EXTRA else "") + TR + "."})
        else:
            na.append({"property": i, "reason": p["na"] or "check under construction"})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
      "notes": "No hooks are committed in /repo; C16 instruments a generated overlay of /repo's sources at check time."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
main()
