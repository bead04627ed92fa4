#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json, pathlib
ROOT = pathlib.Path(__file__).resolve().parent.parent
def q(over, text): return {"over": over.split(), "text": text}
def m(name, where): return {"name": name, "where": where}
PDU_FILES = ["src/pdu_macro.rs", "src/entity_information.rs", "src/entity_management.rs", "src/warfare.rs", "src/logistics.rs",
             "src/minefield.rs", "src/radio_communications.rs", "src/distributed_emissions.rs", "src/simulation_management.rs",
             "src/simulation_management_with_reliability.rs", "src/synthetic_environment.rs", "src/information_operations.rs"]
P = []
def prop(id, title, statement, quant, why, files, mech, observe, state=None, tech="", note="", hook=None):
    a = {"files": files, "mechanism": mech, "observe_at": observe, "hook_needed": None}
    if state: a["state"] = state
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": quant, "why_tests_cant": why, "anchors": a}, tech, note))

prop("C01", "Every PDU survives being written and read back",
 "For every PDU type and every assignment of its fields (with counts and lengths set consistently), writing the PDU and reading the result back gives a PDU of the same type in which every field, every list element, every optional part and every header field other than the computed length has the value that was written. Floating-point values keep their bit patterns, and no field takes part of its value from a neighbour.",
 q("inputs", "all PDU types, built in or declared with define_pdu!; all values of all public fields, including list lengths 0, 1, many, 255 and more, optional parts present and absent, and all enumeration members"),
 "Most tests serialize one default PDU and compare its length; the round trips in the tests use a handful of fixed values, mostly zero and with empty lists, so a dropped, swapped or truncated field shows no difference.",
 PDU_FILES + ["src/common/data_types"], [m("define_pdu! serializer and deserializer", "src/pdu_macro.rs"), m("record serialize/deserialize pairs", "src/common/data_types/*.rs"), m("FieldSerialize/FieldDeserialize impls", "src/pdu_macro.rs")],
 ["Pdu::serialize, Pdu::deserialize and the public fields of every PDU"],
 tech="property-based round-trip testing (proptest) with value sweeps and shrinking",
 note="Explored: generated PDUs of every type, and a sweep in which every 8/16-bit scalar and every enumeration member occurs in every field. Trusts the schema (field names and types) that drives the generators, and that counts are set by the caller. Two recorded findings (Minefield Data lists, Gridded Data padding) are excluded by exact prediction.")

prop("C02", "The octets of every PDU are exactly those of the wire format",
 "Every PDU is written as exactly the octets its wire format prescribes: fields in order, big-endian, at their prescribed widths and offsets, zero padding where padding is prescribed, list elements one after the other, fixed-width strings zero-filled. Conversely, octets in that format are read as the values they encode, whatever is in padding, and an enumeration code that is not defined is read as the default of the enumeration.",
 q("inputs", "all PDU types, built in or declared with define_pdu!, and field values when writing; all octet strings that hold a complete PDU when reading, including undefined enumeration codes and non-zero padding"),
 "A round trip cannot see an error made on both sides, and the tests check few octets of few PDUs; interoperation with other implementations depends on every octet of every PDU.",
 PDU_FILES + ["src/common/data_types", "src/common/enums.rs"], [m("field order and types of define_pdu! bodies", "src/*.rs"), m("record serialize/deserialize", "src/common/data_types/*.rs"), m("integer and float codecs", "src/pdu_macro.rs")],
 ["the buffer after Pdu::serialize", "the PDU returned by Pdu::deserialize"],
 tech="differential testing against an independent reference encoder/decoder (proptest), mutation-based byte generation",
 note="Octet-for-octet comparison with a table-driven reference codec written separately; decode direction on generated wire forms and on mutated and random octets. The reference tables were derived from the code at the pinned commit (after repairs) and reviewed; a deviation of the original code from the IEEE text that the tables copied would not be seen.")

prop("C03", "Written length, header length and calculated length always agree; at most 8192",
 "For every PDU the number of octets that writing it appends, the length in its header afterwards, the length field on the wire and the length calculated before, after and by finalizing are one and the same number, whatever the lists and variable parts hold. A PDU of more than 8192 octets is refused with an error that states its size, when its length is calculated as well as when it is written, and nothing is written; one of 8192 octets or fewer is not refused.",
 q("inputs", "all PDU types and field values; in particular sizes around 255, 256, 8191, 8192, 8193 and 65535 octets"),
 "Receivers frame the stream by this number; tests check it for default PDUs, which have no variable part, and no test comes near 8192 octets.",
 PDU_FILES + ["src/common/pdu.rs", "src/common/constants.rs", "src/common/dis_error.rs", "src/common/data_types"], [m("calculate_length and the size limit", "src/pdu_macro.rs"), m("FieldLen of every record", "src/common/data_types/*.rs"), m("finalize", "src/common/pdu.rs")],
 ["Pdu::calculate_length, Pdu::serialize, Pdu::finalize, header length"],
 tech="property-based testing with size-targeting generators (proptest)",
 note="Sizes are steered onto and around the limit for every PDU type that can reach it, and every list takes every length from 0 to 300.")

prop("C04", "Decoding any octets ends in a PDU or an error, within bounded effort",
 "Reading a PDU of any type from any octet string returns a PDU or an error: it never panics, overflows or loops, a given octet string always has the same outcome, and what was accepted can be measured, printed and written again without a panic. Octets that end before the PDU is complete are always refused with an error. Effort and memory stay within a fixed allowance plus an amount proportional to the input, however large the counts and lengths the input declares, and reading on and on keeps nothing.",
 q("inputs", "all octet strings, in particular truncations of valid PDUs at every position, inflated counts and lengths, mutations of valid PDUs and random octets"),
 "The octets come from the network and are untrusted; the tests decode only complete, well-formed, small PDUs.",
 PDU_FILES + ["src/common/data_types", "src/common/pdu_header.rs"], [m("checked buffer that turns missing octets into an error", "src/pdu_macro.rs"), m("list decoding that stops at the end of the input", "src/pdu_macro.rs"), m("length-aware record decoders", "src/common/data_types/*.rs")],
 ["result of Pdu::deserialize and Pdu::deserialize_without_header", "operations on the input buffer", "allocated memory"],
 tech="structure-aware fuzzing (proptest) with a counting buffer and counting allocator; exhaustive truncation",
 note="Panics are caught with overflow checks on; work and memory are measured by counting; processor time per case is bounded as well, with a margin of more than ten. A case that computes for 60 s is reported as a violation.")

prop("C05", "A PDU is read and written under its own type and family only",
 "Every PDU type carries the one type code and protocol family that the protocol assigns to it: a fresh PDU has them, writing sets them whatever the header held before, and no two PDU types share a type code. Reading a PDU succeeds only from a header with its own type code: any other code is refused as an invalid header, whether the header is read together with the body or before it.",
 q("inputs", "all PDU types, crossed with all 256 type codes, all family codes and arbitrary other header content"),
 "Tests check at most the type code of a default PDU; none tries to read a PDU under another type or to write one whose header was changed.",
 PDU_FILES + ["src/common/pdu_header.rs", "src/common/enums.rs"], [m("type and family of define_pdu!", "src/pdu_macro.rs"), m("type check when reading", "src/pdu_macro.rs")],
 ["header after construction and writing; Pdu::deserialize"],
 tech="exhaustive type-code matrix plus property-based testing (proptest)",
 note="All PDU types times all 256 codes times all families; generated header contents on top.")

prop("C06", "Headers are read and written octet for octet",
 "Both kinds of header occupy exactly twelve octets: version, exercise, type, family, timestamp, length, status or subprotocol, padding, in this order, big-endian. Reading twelve octets gives exactly the values they encode (undefined enumeration codes give the default) and writing them back gives the same octets; the type can be read from a buffer without consuming it, exactly when at least twelve octets are there, and agrees with reading the whole header.",
 q("inputs", "all header octets, in particular all 256 values of each octet, all lengths and timestamps, and buffers of any length"),
 "Tests use two or three fixed headers.",
 ["src/common/pdu_header.rs", "src/common/live_entity_pdu_header.rs", "src/common/generic_header.rs", "src/common/enums.rs"], [m("GenericHeader for both headers", "src/common/pdu_header.rs, src/common/live_entity_pdu_header.rs"), m("get_pdu_type", "src/common/pdu_header.rs")],
 ["GenericHeader::serialize/deserialize, accessors, get_pdu_type"],
 tech="property-based testing against a reference header codec (proptest), octet sweeps",
 note="Every octet position takes every value; combinations are sampled.")

prop("C07", "Status record fields occupy their own bits and only those",
 "Each field of the PDU status record reads and changes exactly the bits assigned to it: transferred entity bit 0, LVC bits 1-2, coupled extension bit 3, detonation/radio/intercom type bits 4-5, fire type and IFF mode bit 4, active interrogation bit 5. Setting any field to any value leaves all other bits as they were and is read back as that value; converting to and from an octet loses nothing.",
 q("inputs histories", "all 256 octets, all fields, all values, and sequences of updates"),
 "The fields share bits, so errors depend on the previous content; no test sets one field after another.",
 ["src/common/pdu_header.rs", "src/common/enums.rs"], [m("bit field and its shared accessors", "src/common/pdu_header.rs"), m("two-bit indicator conversions", "src/common/enums.rs")],
 ["getters, setters, to_u8/from_u8, header octet 10"],
 tech="exhaustive small-scope plus stateful model-based property testing (proptest)",
 note="All octets times all pairs of updates are covered completely; longer sequences are sampled.")

prop("C08", "Enumerations map codes to members and back without loss",
 "Every enumeration has exactly its defined codes: converting a defined code to a member and back gives the code, different codes give different members, and reading a code from a buffer consumes exactly the width of the enumeration. A code that is not defined converts to nothing, and is read from a buffer as the default member; the codes and default of each enumeration are those of the published tables the protocol relies on.",
 q("inputs", "all enumerations; all codes of 8- and 16-bit enumerations, boundary, neighbouring, aliasing and random codes of wider ones"),
 "There are about 400 enumerations with thousands of members; tests touch a few members of a few.",
 ["src/common/enums.rs"], [m("FromPrimitive/ToPrimitive derivations and explicit discriminants", "src/common/enums.rs"), m("deserialize and FieldSerialize/FieldDeserialize/FieldLen of enumerations", "src/common/enums.rs, src/pdu_macro.rs")],
 ["from_u8/16/32/64, as-casts, deserialize, field codecs"],
 tech="exhaustive enumeration of code spaces and property-based testing (proptest) against recorded code tables",
 note="Complete over 8- and 16-bit code spaces. The tables were recorded from the code at the pinned commit: an original transcription error in a table would not be seen, a change to it is.")

prop("C09", "Reading a PDU consumes exactly its octets, from any kind of buffer",
 "Reading a complete PDU consumes exactly the octets that were written for it and none of those that follow, so PDUs written one after another are read back one after another. The outcome does not depend on how the octets are split over the chunks of the buffer, on the kind of buffer, or on whether the header is read first and the body afterwards.",
 q("inputs histories", "sequences of PDUs of any types with anything behind them; all ways to cut the octets into chunks; one-step and two-step reading"),
 "Tests read single PDUs from a single contiguous buffer that ends with the PDU.",
 PDU_FILES + ["src/common/data_types", "src/common/pdu_body.rs"], [m("deserialize and deserialize_without_header", "src/pdu_macro.rs"), m("length- and count-driven record decoders", "src/common/data_types/*.rs")],
 ["remaining octets after Pdu::deserialize", "PDUs read from chunked buffers"],
 tech="property-based metamorphic testing over streams and chunkings (proptest)",
 note="Every single cut of sample PDUs of each type plus generated streams and cuts. Two recorded findings (Minefield Data lists, Gridded Data padding) are excluded by exact prediction.")

prop("C10", "Writing appends, depends only on the fields, and changes nothing else",
 "Writing a PDU appends to the buffer and leaves what is there untouched; the octets appended depend only on the fields of the PDU, not on what was written, read, measured, finalized or refused before, on the buffer's state, or on the value the length fields happened to hold. Apart from the header fields that writing computes and the lengths of variable parts, writing changes no field; a refused write leaves buffer and later writes unaffected.",
 q("histories", "sequences of assignments, writes (also failing ones), measurements, finalizations and reads on several PDUs and one buffer"),
 "Tests write each PDU once into an empty buffer; state carried over between calls is invisible to them.",
 PDU_FILES, [m("serialize of define_pdu!, which first updates lengths and header", "src/pdu_macro.rs"), m("finalize", "src/common/pdu.rs")],
 ["buffer contents and PDU fields after each operation"],
 tech="stateful model-based property testing (proptest)",
 note="A fresh PDU with the same field values is the model; histories of up to 23 operations over two PDU types and one buffer.")

prop("C11", "Every record type is its own faithful, self-measuring codec",
 "Every record type that occurs in PDUs, taken on its own, is written as exactly its prescribed octets, reports exactly that number as its length, and is read back from them equal, consuming exactly these octets whatever follows; a record's fixed size constant, where it has one, is the number of octets written. The two ways to write, measure and read a record agree, and variable records honour their count, length and padding fields at every size; the codecs of primitives, strings, lists and optional values do likewise.",
 q("inputs", "all record types, all field values, all lengths of their variable parts (also beyond 255 and 65535 octets), anything behind them"),
 "Few records have tests of their own, with one value each; errors in rarely used variants show in no PDU test.",
 ["src/common/data_types", "src/common/serialized_length.rs", "src/pdu_macro.rs"], [m("serialize/deserialize, FieldSerialize/FieldDeserialize/FieldLen and SerializedLength impls of each record", "src/common/data_types/*.rs")],
 ["each record's public codec functions and LENGTH"],
 tech="property-based round-trip and differential testing per record (proptest), size sweeps",
 note="As C01-C03 but per record, which reaches states that no PDU exposes. One recorded finding (grid padding) is excluded by exact prediction.")

prop("C12", "Vector arithmetic agrees with real arithmetic",
 "For all vectors with finite components, sum, difference, scaling, dot product, cross product and magnitude agree with real arithmetic up to rounding, whatever the scale of the components. Normalizing gives the vector of magnitude one in the same direction, for every vector but the zero vector, for which it gives nothing.",
 q("inputs", "all pairs of finite vectors: all signs, axes, parallel and opposite pairs, components from the smallest to the largest magnitude"),
 "One test uses two small integer vectors.",
 ["src/common/data_types/vector3_float.rs"], [m("vector operations", "src/common/data_types/vector3_float.rs")],
 ["results of the vector operations"],
 tech="property-based testing against an f64 reference (proptest)",
 note="Tolerance 8 ulp of the largest term; sums whose terms may overflow are not judged.")

prop("C13", "Timestamps are the time past the hour in protocol units",
 "A fresh header, and a fresh PDU of any type, carries the time past the current UTC hour in units of 1/2^31 hour, exact to a few microseconds: it is below 2^31, never decreases within an hour and starts again at zero with each hour. This holds at every instant, also across second, minute and hour boundaries and when the clock moves while it is read.",
 q("inputs schedules", "all instants, in particular around boundaries; all movements of the clock during the computation"),
 "The result depends on the clock, which the tests cannot set; they check at most that there is a timestamp.",
 ["src/common/pdu_header.rs", "src/common/live_entity_pdu_header.rs", "src/pdu_macro.rs"], [m("calculate_dis_timestamp of both headers", "src/common/pdu_header.rs, src/common/live_entity_pdu_header.rs")],
 ["header timestamps under a supplied clock"],
 tech="property-based testing with an injected clock (proptest)",
 note="The process clock is replaced by one the generator controls; 2 units (about 3.4 microseconds) of tolerance. The absolute/relative flag bit of the standard is not modelled.")

prop("C14", "What was read is written back stably",
 "For any octets that are accepted as a PDU small enough to be written, writing the PDU gives octets that are accepted again and give the same PDU, and writing that one gives the same octets: one pass normalizes, further passes change nothing. Fields that were read keep their values in the first pass.",
 q("inputs", "all octet strings that are accepted: undefined codes, non-zero padding, inconsistent lengths, trailing octets"),
 "Gateways and loggers forward PDUs they did not create; tests start from PDUs the library created itself.",
 PDU_FILES + ["src/common/data_types"], [m("matching serializer and deserializer of each PDU and record", "src/pdu_macro.rs, src/common/data_types/*.rs")],
 ["Pdu::deserialize followed by Pdu::serialize, twice"],
 tech="property-based idempotence testing on mutated encodings (proptest)",
 note="Inputs are mutated and random octets near valid encodings of every type.")

prop("C15", "Bit-flag sets keep every bit in its place",
 "Every defined flag of a bit-flag set stands for its one prescribed bit; conversion from an integer succeeds exactly for combinations of defined flags and gives the integer back, and set operations agree with bitwise arithmetic. On the wire a flag set occupies its fixed width and keeps all bits, defined or not.",
 q("inputs", "all values of the 8- and 16-bit sets, all single bits, pairs and random values of the 32-bit set"),
 "No test covers combinations of flags or undefined bits.",
 ["src/common/enums.rs"], [m("bitflags definitions and integer conversions", "src/common/enums.rs"), m("wire codecs of flag sets", "src/common/enums.rs")],
 ["integer conversions, set operations, wire codecs of flag sets"],
 tech="exhaustive small domains and property-based testing (proptest)",
 note="Complete for the two sets that go on the wire; the 32-bit set is sampled.")

prop("C16", "Constructors and fresh values hold what was given and nothing else",
 "A record made by its constructor holds each argument, unchanged, in the field it is for and neutral values everywhere else; a default record and a new PDU of any type hold neutral values only (zeros, empty lists, absent parts, the default member of an enumeration, simulation address 1/1), whatever was made before. A new header holds the type, family, exercise and length it was given, protocol version 7, exercise 1 unless given, and a clear status; what was made is written accordingly.",
 q("inputs", "all record constructors with all arguments; all records with a default; all PDU types; both header constructors with all types, families, exercises and lengths"),
 "Constructors take up to ten arguments of the same type; tests call few of them, with equal or zero arguments, so swapped or dropped arguments and stray defaults show no difference.",
 ["src/common/data_types", "src/common/pdu_header.rs", "src/common/live_entity_pdu_header.rs", "src/pdu_macro.rs"], [m("new of every record", "src/common/data_types/*.rs"), m("new and Default of define_pdu! types", "src/pdu_macro.rs"), m("PduHeader::new, LiveEntityPduHeader::new", "src/common/pdu_header.rs, src/common/live_entity_pdu_header.rs")],
 ["fields and octets of constructed records, PDUs and headers"],
 tech="property-based testing against a field-assignment model (proptest), value sweeps",
 note="Arguments generated and swept so that every 8/16-bit argument takes every value. Which argument belongs to which field was read off the signatures. Header timestamps are C13's subject.")

prop("C17", "Copies and comparisons go by value",
 "A copy of any record, header, status record or enumeration member is equal to the original in every field and independent of it: changing one never changes the other. Where a type can be compared, two values are equal exactly when all their fields are (floating-point fields as numbers), and unequal otherwise.",
 q("inputs", "all pairs of values of all copyable types, in particular pairs that differ in a single field, list element or bit"),
 "Tests compare a few equal values with each other; none compares values that differ in one field, or changes a copy.",
 ["src/common/data_types", "src/common/pdu_header.rs", "src/common/live_entity_pdu_header.rs", "src/common/enums.rs"], [m("Clone and PartialEq of records and headers", "src/common/data_types/*.rs, src/common/*_header.rs"), m("Clone and PartialEq of enumerations", "src/common/enums.rs")],
 ["clone, clone_from, == and != of records, headers and enumeration members"],
 tech="property-based testing on pairs of values against field-by-field comparison (proptest), exhaustive pairs of enumeration members",
 note="PDUs themselves can be neither copied nor compared at the pinned commit. Comparison is judged where the type offers it.")

prop("C18", "Errors and size limits say precisely what is the case",
 "An error made from particulars (reason, field, value, sizes, versions, states, cause) holds exactly these, its message contains them in order, and its source is the cause it was given, or none. A PDU of which only the first octets are there is refused, in one step and after its header, with a buffer underflow that claims no more octets than there were and an attempt beyond them; the size helpers accept exactly the sizes up to their limits, for every size.",
 q("inputs", "all kinds of error with all texts, numbers and causes; all PDU types cut at every place; all sizes"),
 "Tests check a few sizes around the limits and no error's contents.",
 ["src/common/dis_error.rs", "src/common/constants.rs", "src/pdu_macro.rs"], [m("DISError and its constructors", "src/common/dis_error.rs"), m("CheckedBuf::finish", "src/pdu_macro.rs"), m("size helpers", "src/common/constants.rs")],
 ["DISError variants, Display, source; results of Pdu::deserialize; size helpers"],
 tech="property-based testing (proptest)",
 note="Wording of messages is not prescribed, only the particulars they contain.")

prop("C19", "A bundle of PDUs comes apart by peeked type and header length alone",
 "When PDUs of any types are written one after another, a receiver that knows nothing but the octets can take them apart: the type it can see at the front belongs to exactly one PDU type, that of the PDU written there, and the length in the header is exactly the distance to the next PDU. Decoding precisely that many octets as that type, in whatever way they are cut out, reads all of them and gives the PDU that was written; one octet less, or any other type, is refused. After the last PDU nothing remains and no type is to be seen.",
 q("histories", "all sequences of PDUs of all types, small and near the size limit, behind any other octets"),
 "Tests write and read one PDU at a time with the type known in advance; whether type codes, header lengths, sizes and reading agree across types and neighbours shows only in combinations.",
 ["src/pdu_macro.rs", "src/common/pdu_header.rs", "src/common/generic_header.rs", "src/common/enums.rs"] + [f for f in PDU_FILES if f != "src/pdu_macro.rs"], [m("PduHeader::get_pdu_type", "src/common/pdu_header.rs"), m("length written into the header", "src/pdu_macro.rs"), m("type check when reading", "src/pdu_macro.rs")],
 ["PduHeader::get_pdu_type, header length, Pdu::deserialize"],
 tech="property-based testing on generated sequences of PDUs (proptest): write, frame, dispatch, read",
 note="Bundles of one to six PDUs; every type occurs in every position. The records of the recorded findings are generated in the form that reads back.")

with open(ROOT / "properties.jsonl", "w") as f:
    for p, _, _ in P: f.write(json.dumps(p) + "\n")
man = {"version": 1, "setup_cmd": "./build.sh",
 "checks": [{"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
             "technique": t, "level": "exploration", "level_note": n, "evidence_file": f"evidence/{p['id']}.json"} for p, t, n in P],
 "not_applicable": [],
 "notes": "All checks are one Rust program, harness/, built against /repo by each check. No hooks in /repo. Replay: target/release/odr-verif replay FILE."}
(ROOT / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
for p, _, _ in P:
    assert len(p["title"]) <= 80, p["id"]
    assert p["statement"].count(". ") <= 2, p["id"]
