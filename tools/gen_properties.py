#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    assert statement.count(". ") <= 2, (id, statement)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

JS, JD, JB = "ser-write-json/src/ser.rs", "ser-write-json/src/de.rs", "ser-write-json/src/base64.rs"
MS, MD = "ser-write-msgpack/src/ser.rs", "ser-write-msgpack/src/de.rs"
L, F = "src/lib.rs", "src/foreign.rs"

p("C01", "A failing writer stops serialization at once and its error is reported",
  "Whenever the destination writer fails at any of its calls, serializing to JSON or MessagePack returns an error, never success, makes no further call to the writer after the failed one, and what the writer had accepted is an exact prefix of the bytes a healthy writer receives for the same value. "
  "The reported error is the writer's own error unchanged, except that it may be a formatting error when it struck while text was being collected from a display formatter. "
  "Once the writer works again, the same serializer object produces the same complete message as a fresh one.",
  ["fault_sequences", "inputs", "programs"],
  "every value of the serde data model (that itself propagates errors) x every serializer flavour and byte encoding x every position and sequence of writer failures, transient or permanent",
  "Existing tests only overflow a handful of fixed buffers with a few fixed values; they never fail an arbitrary call, never count calls after the failure and never reuse a serializer after a fault.",
  [JS, MS, JB, L], [("error propagation by ? at every write", JS), ("error propagation by ? at every write", MS), ("StringCollector error mapping", JS), ("base64 encode chunk writes", JB)],
  ["return value of to_writer* and of serialize on a Serializer", "calls received by the SerWrite implementation"])

p("C02", "Fixed-size buffers: success exactly when the message fits, same bytes anywhere",
  "Serializing a value into a fixed-capacity buffer succeeds exactly when its complete encoding fits the remaining capacity, and then the buffer holds, after what it held before, the same bytes every other kind of sink receives for that value. "
  "When it does not fit, an error is returned (buffer full, or a formatting error for text collected from a display formatter) and what was written is a prefix of that encoding. "
  "Neither bytes before the starting position nor anything beyond the buffer or beyond the reported length changes, whatever sequence of messages is packed into one buffer.",
  ["inputs", "histories", "configurations"],
  "every value x flavour x buffer kind x remaining capacity from 0 to just above the encoded size x histories of several messages packed, split off and retried in one buffer",
  "Tests use a few generous buffers or one hard-coded too-small size; they never compare sinks with each other and never look at the memory around the buffer.",
  [L, F, JS, MS], [("SliceWriter::write bounds check and len update", L), ("capacity-checked foreign sinks", F)],
  ["buffer content, length and surrounding memory after each call", "return values"])

p("C03", "Every sink is an all-or-nothing append log under any history of operations",
  "Under any history of appends (byte slices, single bytes, strings, formatted text), clears and splits, mixed with lack of capacity or of memory, the content of every provided sink equals the concatenation, in order, of exactly the appends that reported success. "
  "An append reports failure only when there really is no room (or no memory), leaves the content as it was, and does not prevent later appends that fit, including empty ones, from succeeding; pieces split off earlier keep their bytes. "
  "Only the standard I/O cursor may keep part of an append that failed.",
  ["histories", "fault_sequences", "configurations"],
  "every history of operations x every provided sink type (slice writer, vectors, deques, array-backed, inline/heap hybrids, borrowed slices, I/O cursors, references to sinks) x capacities x allocation failures",
  "Each sink has one fixed three-write unit test; no test mixes failures with later successful operations, splits after failures, or crosses the inline-to-heap switch at an arbitrary point.",
  [L, F], [("SliceWriter write/split/clear", L), ("try_reserve before every growing write", F), ("tinyvec spare-slice write", F)],
  ["sink content, length and remaining capacity after each operation"])

p("C04", "Running out of heap while serializing is an error, never a crash",
  "When any allocation fails while a value is serialized into a growable sink, or by the functions that return an owned string or byte vector, the call reports that the buffer is full instead of aborting or panicking (a formatting error may be reported instead while text is collected from a display formatter). "
  "Bytes the sink held before stay intact and what it accepted is an exact prefix of the full output. "
  "When memory is available again, the same call gives the normal, complete result.",
  ["fault_sequences", "inputs", "configurations"],
  "every value x flavour x growable sink x every allocation failure point (k-th allocation, all, memory budget), in builds with a heap; messages of errors raised by the value itself and the I/O cursor over a growable vector are outside",
  "The repository's only out-of-memory test asks for one impossible size; real allocation failures in the middle of a message cannot be produced without a controlled allocator.",
  [F, JS, MS], [("try_reserve in growable sinks", F), ("to_string*/to_vec* built on fallible sinks", JS)],
  ["return value", "process survival", "sink content after the failure"])

p("C05", "Serializing to fixed buffers and borrowing deserialization never need the heap",
  "With every heap allocation failing, serializing to a fixed-size buffer and deserializing into types that borrow from the input give exactly the results they give with memory available, both for success and for the plain format errors (end of input, full buffer, wrong type, malformed text or number). "
  "This holds in every build configuration, also those with heap support.",
  ["fault_sequences", "inputs", "configurations"],
  "every value, valid, truncated or corrupted message x flavour x build configuration; exempt are text collected from a display formatter into MessagePack in builds with a heap (which needs memory, and is reported as a formatting error without), and error messages composed by the value or type itself",
  "Tests run with a working allocator, and a no_std build only shows that the code compiles without one; a hidden allocation in a heap-enabled build is invisible to them.",
  [JS, JD, MS, MD, L], [("in-place unescaping and decoding", JD), ("borrowed str/bytes visits", MD), ("stack buffers for numbers", JS)],
  ["results with a healthy and with a failing allocator"])

p("C06", "MessagePack streams: each message delivered once, in order, exactly, on time",
  "A receiver that accumulates a stream of concatenated MessagePack messages and decodes at its front recovers every message equal to what was sent, exactly once and in order, with the exact number of bytes each occupied, however the stream is fragmented, delayed, cut or restarted. "
  "While a message is incomplete, every attempt to decode or skip it reports unexpected end of input, never another error or a value, and it is decoded as soon as its last byte has arrived whatever follows it. "
  "This holds for messages of all serializer flavours mixed and for messages of other conforming encoders using wider than necessary encodings.",
  ["schedules", "crash_points", "inputs", "fault_sequences"],
  "every sequence of values x flavour or foreign encoder per message x every fragmentation, reset and resume schedule x the cursor, tuple and split-tail entry points",
  "Tests decode complete single buffers; a few truncated constants are checked, but not every cut of every type of message, and never several messages with partial arrival.",
  [MS, MD], [("smallest-representation length headers", MS), ("checked fetch/split of input", MD), ("consumed length from end()", MD)],
  ["decoded values and consumed lengths at each arrival"])

p("C07", "Skipping MessagePack data stays exactly in step with decoding it",
  "Skipping a message without decoding it, ignoring a value, or ignoring unknown fields and extension types consumes exactly the bytes of that message, so that the following message or field is decoded as if the skipped one had been decoded. "
  "An incomplete message reports unexpected end of input, the reserved type code reports an error, and neither loses or alters the messages before it. "
  "Skipping works in bounded memory for any nesting depth.",
  ["inputs", "histories", "fault_sequences"],
  "every stream of well-formed messages (all type codes, all length widths, extensions, deep nesting) x every interleaving of skipping and decoding x every cut or reserved-code corruption",
  "Tests skip a few hand-written messages; they do not relate skipping to decoding over all type codes, widths, nestings and positions.",
  [MD], [("eat_message", MD), ("deserialize_ignored_any", MD)],
  ["cursor position and values decoded after a skip"])

p("C08", "Damaged MessagePack input never crashes the decoder or yields a made-up value",
  "For any bytes received in place of a message, decoding returns a value or an error without panicking, overflowing the stack, exhausting memory or looping beyond the input, consumes no more than the input and lends out only slices of it. "
  "A value is returned only if the consumed bytes are one complete well-formed message of the requested shape, and it is then the value an independent decoder reads from those bytes.",
  ["inputs", "fault_sequences"],
  "every target type x every sequence of byte flips, overwrites, insertions, deletions, truncations, splices and duplications applied to valid streams, and arbitrary bytes",
  "Tests feed a few dozen hand-picked malformed constants; corruption of realistic messages in transit or at rest is not sampled and there is no independent decoder to compare with.",
  [MD], [("checked slicing", MD), ("checked integer conversions", MD), ("declared-length accounting", MD)],
  ["result, consumed length and address range of borrowed data"])

p("C09", "JSON frames decode exactly in a shared, fragmented receive buffer",
  "Every JSON document serialized with any byte encoding, or written by another conforming encoder with arbitrary whitespace and with any escapes in its text (encoded bytes and keys standing for numbers are not escaped), is recovered exactly when it is decoded in place from a receive buffer, however its fragments arrived and in whatever order neighbouring frames are decoded. "
  "Decoding changes nothing outside the document's own slice, and text and bytes borrowed from it keep their value as long as they are held, while other frames arrive and are decoded. "
  "Several documents following each other in one slice are decoded one by one in step.",
  ["schedules", "inputs", "fault_sequences", "configurations"],
  "every set of values x byte encoding (number array, hex, base64, custom) x writer style x fragmentation, reordering, duplication and loss of fragments x decode order",
  "Tests decode one fresh buffer at a time and compare only the result; the surroundings of the slice, previously borrowed data and neighbouring frames are never looked at.",
  [JD, JS, JB], [("in-place unescape", JD), ("in-place hex/base64/array byte decoding", JD), ("split_input lifetime split (unsafe)", JD), ("base64 decode (unsafe)", JB)],
  ["decoded values, borrowed slices and receive buffer memory"])

p("C10", "Damaged JSON input never crashes the parser, corrupts memory or is misread",
  "For any bytes received in place of a JSON document, decoding returns a value or an error without panicking, hanging, overflowing the stack or writing outside its slice, and lends out only slices of it, text always being valid UTF-8. "
  "A value is returned only if the bytes are one JSON document (up to surrounding whitespace) from which an independent parser reads the same value; only the spelling of numbers, the inside of skipped values and the contents of byte strings may deviate from strict JSON.",
  ["inputs", "fault_sequences"],
  "every target type and byte decoding x every sequence of byte flips, overwrites, insertions, deletions, truncations, splices and duplications applied to valid documents, and arbitrary bytes",
  "Tests feed a few dozen malformed constants; corruption of realistic documents is not sampled, and out-of-bounds writes of the unsafe in-place code would go unnoticed.",
  [JD, JB], [("in-place unescape", JD), ("UTF-8 validation of text", JD), ("comma/colon/bracket state machine", JD)],
  ["result, address range of borrowed data, memory around the slice"])

p("C11", "A torn JSON document is never mistaken for a complete one",
  "When only a strict prefix of a JSON object, array, string or literal has arrived or survived a crash, decoding it as the type it was written from (or ignoring it) never succeeds and reports unexpected end of input, or an invalid number when the cut falls inside a number. "
  "The complete document decodes once the rest arrives, so a log of documents recovers exactly the documents completely written before a crash.",
  ["crash_points", "inputs", "schedules"],
  "every document whose top level is not a bare number x byte encoding x every cut position",
  "Tests check a few truncated constants; not every cut inside escapes, multi-byte characters, encoded bytes, keys, enum wrappers or literals.",
  [JD], [("UnexpectedEof on exhausted input", JD)],
  ["result of decoding at each cut position"])

p("C12", "Values that misreport themselves never yield malformed MessagePack as success",
  "When a value declares a sequence, map or struct length that differs from what it then emits, declares none, skips fields, formats differently each time it is displayed, or fails part-way, serializing to MessagePack either returns an error or the output is exactly one well-formed message. "
  "A declared length that matches what is emitted is never rejected, and where fields are identified by position a field left out before another one is refused.",
  ["programs", "fault_sequences", "configurations"],
  "every value with any combination of misdeclared or missing lengths, skipped fields, unstable or failing display text and mid-way failures x serializer flavour x build with and without a heap",
  "Tests misdeclare one length on a few types; they do not vary nesting, the direction and size of the mismatch, or unstable display text in builds without a heap.",
  [MS], [("remaining-length countdown", MS), ("end() length check", MS), ("two-pass string collection without a heap", MS)],
  ["returned result and well-formedness of the written bytes"])

p("C13", "Successful JSON serialization always yields exactly one valid JSON document",
  "Whenever serializing a value to JSON reports success, the output is exactly one well-formed UTF-8 JSON document that an independent parser reads as that value (with non-finite floats as null), also when lengths are misdeclared or missing, keys are of any kind, or pre-serialized fragments are passed through. "
  "Text collected piecewise from a display formatter gives the same bytes however it is chopped into pieces, and a value, key or formatter that fails, or a key JSON cannot represent, makes serialization fail.",
  ["programs", "inputs", "fault_sequences"],
  "every value of the serde data model x byte encoding x chopping of formatted text x misdeclared lengths, failing formatters and mid-way failures",
  "Tests compare a few fixed values with expected strings; text containing every kind of character, piecewise formatting and unrepresentable keys at depth are not combined.",
  [JS], [("string escaping", JS), ("comma state of sequences and maps", JS), ("key serializer", JS), ("string collector", JS)],
  ["returned result and written bytes"])

p("C14", "Peers of other versions or flavours decode the right values or get an error",
  "A receiver whose type has fewer, more (optional) or reordered fields or another integer width than the sender's decodes every field it knows, matched by name or, for index-keyed messages, by index, to exactly the sent value and ignores unknown fields entirely, in JSON and MessagePack and whether structs travel as maps or arrays. "
  "A number that does not fit the receiving integer type, a missing required field, too many or too few array elements or an unknown variant is an error. "
  "No value is ever assigned to another field, variant or message, also when versions are mixed in one stream.",
  ["histories", "inputs", "configurations"],
  "every pair of sender and receiver type versions related by adding, removing, reordering or widening/narrowing fields and variants x format x flavour x order of messages in the stream and of upgrades of the two sides",
  "Tests decode a few structs from both layouts; evolution of nested types on both sides over a mixed stream is not tested.",
  [MD, JD, MS, JS], [("field and variant identifiers from strings or integers", MD), ("ignored values", MD), ("checked integer conversion", MD), ("ignored values", JD)],
  ["decoded values at the receiver"])

p("C15", "All build configurations give the same bytes, values and errors",
  "For the same history of operations, faults and inputs, builds with standard library, with heap only or without heap, optimised or with debug checks, for 64-bit or 32-bit machines, produce identical output bytes, decoded values, consumed lengths, and the same kind of success or error, and leave the same bytes in decoded buffers. "
  "Only the wording carried by custom errors may differ, a refused write inside text collected from a display formatter may be reported as a writer or a formatting error, and values whose display text changes between two formattings, and lengths some machine cannot express, are outside.",
  ["configurations", "inputs", "histories"],
  "every simulated run (all other workloads' values, corruptions and faults) x build configuration",
  "Each configuration is tested against the same few constants in isolation; code that exists twice (heap and no-heap text collection, debug and release byte arrays) is never compared on the same input.",
  [MS, JD, L, F], [("cfg(feature) duplicates of string collection", MS), ("cfg(debug_assertions) duplicates of byte-array decoding", JD)],
  ["digest of all observable results per run, compared across builds"])

p("C16", "Low-level cursors keep exact account under any history of operations",
  "Under any history of the public low-level reading operations (peek, advance, skip whitespace, fetch, split off, skip a message or string, parse a number, token, text or bytes), the cursor behaves as a position in the received bytes: each operation returns what a reference reader returns and leaves exactly the unread bytes it should, and slices handed out earlier keep their content. "
  "Advancing past what has arrived makes later operations report end of input, never panic or read or write elsewhere.",
  ["histories", "inputs", "fault_sequences"],
  "every history of low-level operations (except the documented panics of splitting beyond the input) x every input, partial arrival and over-advance",
  "Tests call each helper once or twice on constants; histories mixing operations, and positions beyond the arrived bytes, are not covered.",
  [MD, JD], [("index/input pair", MD), ("index/input pair", JD), ("split_input (unsafe)", JD)],
  ["return value and remaining bytes after each operation"])

# ---- not claimed: pure functions of one input, no fault, schedule or history in them -----------------
p("C17", "MessagePack output uses the smallest representation of every number and length",
  "Every integer, string, byte array, array and map header written to MessagePack is the shortest the format allows for its value.",
  ["inputs"], "every value", "Tests sample boundary constants.", [MS], [("width selection", MS)], ["written bytes"])
p("C18", "JSON numbers are the shortest text that reads back to the same number",
  "Every finite float is written as the shortest decimal text that parses back to the same float, and every integer as its plain decimal digits.",
  ["inputs"], "every number", "Tests sample a few numbers.", [JS], [("ryu-js and integer formatting", JS)], ["written bytes"])
p("C19", "The JSON parser accepts every valid JSON document",
  "Every document valid under the JSON grammar whose shape matches the target type is accepted, including text with escaped surrogate pairs.",
  ["inputs"], "every valid document", "Tests sample a few documents; surrogate pairs are known to be rejected by design.", [JD], [("escape decoding", JD)], ["result of decoding"])
p("C20", "The base64 codec conforms to its published standard alphabet and tail rules",
  "Encoding and decoding bytes as base64 are inverse and follow the standard alphabet with optional padding.",
  ["inputs"], "every byte string", "Tests sample short strings.", [JB], [("encode/decode", JB)], ["encoded text"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
