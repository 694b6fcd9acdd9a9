#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl from the table below (kept readable here)."""
import json, pathlib

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": ["binobj/" + f for f in files],
            "mechanism": [{"name": n, "where": "binobj/" + w} for n, w in mech],
            **({"state": [{"name": n, "meaning": m, "where": "binobj/" + w} for n, m, w in state]} if state else {}),
            "observe_at": observe, "hook_needed": None,
        },
    })


S, B, C, N, T = "structures.py", "fields/base.py", "fields/containers.py", "fields/numeric.py", "fields/stringlike.py"
V, H, P5, D = "varints.py", "helpers.py", "pep526.py", "decorators.py"

prop("C01", "Values survive a dump/load round trip",
     "For every structure definition and every assignment of valid values, loading the bytes produced by dumping gives back, field by field, the values that were dumped, and dumping the loaded values again gives the same bytes. "
     "A value that the declared format cannot carry exactly (time below the resolution, float precision, text padding, fields declared to be discarded) comes back as the documented approximation and nothing else.",
     ["inputs", "programs"], "all structure definitions composed of the library's field types and options, nested to any depth, and all valid value assignments, including boundary values",
     "The tests round-trip a few dozen hand-picked structures with one or two values each; they cannot cover the product of field types, options, nesting and boundary values.",
     [S, B, C, N, T, V], [("dump loop", S + ": to_stream"), ("load loop", S + ": from_stream"), ("per-type load/dump pairs", "fields/*: _do_load, _do_dump")],
     ["structure to_bytes / from_bytes", "field to_bytes / from_bytes"])

prop("C02", "Dumped bytes follow the declared layout exactly",
     "A dumped structure is exactly the concatenation, in declaration order with inherited fields first, of the documented encoding of each present field, with nothing before, between or after. "
     "Each encoding is fully determined by the declaration: integer width, signedness and byte order, IEEE-754 width, text encoding with terminator or padding, UUID layout, epoch offset at the declared resolution, variable-length scheme, element sequence, nested structure.",
     ["inputs", "programs"], "all structure definitions and all valid value assignments",
     "Tests compare against literal bytes for a handful of declarations; a mistake made symmetrically in dump and load survives round-trip tests and shows only for a particular width, sign, order, encoding or nesting.",
     [S, B, C, N, T, V, H], [("dump loop in declaration order", S + ": to_stream, collect_assigned_fields"), ("size check and padding of each field", B + ": Field.to_stream"), ("encoders", "fields/*: _do_dump; varints.py; helpers.py: write_int")],
     ["bytes written to the output stream, in order"])

prop("C03", "Loading arbitrary bytes gives the layout's values or an error",
     "For any input bytes, loading a structure either returns exactly the values that its declared layout assigns to those bytes or raises an error. "
     "It never returns values the layout does not assign to that input, never accepts input that violates a declared constant, and always terminates.",
     ["inputs", "programs"], "all byte strings (valid, mutated, random, empty) against all structure definitions",
     "Tests decode a few well-formed literals; the space of malformed or merely unusual inputs per definition is unbounded.",
     [S, B, C, N, T, V, H], [("load loop", S + ": from_stream"), ("field load with null/const/validator handling", B + ": Field.from_stream"), ("decoders", "fields/*: _do_load; varints.py; helpers.py: read_int, iter_bytes")],
     ["return value or exception of from_bytes / from_stream for structures and fields"])

prop("C04", "Loading consumes exactly one record; exact mode is exact",
     "Loading or dumping through a stream starts at the stream's current position and leaves it immediately after the structure's last byte, so records placed back to back, with anything before or after them, are read independently and completely. "
     "Loading from a byte string in exact mode fails whenever at least one byte is left over and succeeds otherwise; in non-exact mode leftover bytes never influence the result. "
     "Byte-string and stream entry points agree with each other for structures and for stand-alone fields.",
     ["inputs", "histories"], "all structure definitions, all sequences of records in one stream, all prefixes and trailers, and each of the entry points",
     "Tests check one or two trailers on one structure; off-by-one consumption shows only for particular field types, trailer lengths and record sequences.",
     [S, B, H], [("exactness check", S + ": from_bytes; " + B + ": Field.from_bytes"), ("lookahead with restored position", H + ": peek_bytes; " + C + ": Array.should_halt"), ("bounded byte iteration", H + ": iter_bytes")],
     ["stream position before and after, recorded read/seek/write calls"])

prop("C05", "Truncated input is always rejected",
     "If a valid serialization is cut off at any byte before its end, loading it raises a deserialization error (or the text-decoding error, when what is left of a null representation is not valid text), unless the layout itself says that the data extends to the end of the input and the cut is at an element boundary. "
     "No value is ever fabricated from missing bytes, for whole structures, for stand-alone fields, and for the requested field when only part of a structure is loaded; only fields that occupy no bytes may be read at or past the end.",
     ["inputs", "fault_sequences"], "every cut point of every valid serialization of every structure definition",
     "Tests truncate a handful of fields at one place; every field type has its own short-read handling and the interesting cut lies inside particular multi-byte elements.",
     [B, H, T, C, V, N], [("exact reads", B + ": _read_exact_size; " + H + ": read_int"), ("terminator search", T + ": StringZ._do_load"), ("UUID read", T + ": UUID4._do_load")],
     ["exception type from from_bytes / from_stream / partial_load / get_field per cut point"])

prop("C06", "Unrepresentable values are refused, never altered",
     "Dumping a value that its field cannot represent (out of range, too long or too short, wrong element count, negative in an unsigned format, missing, null where null is not allowed, not encodable) raises an error. "
     "No byte of the refused value reaches the output, and the value is never clipped, wrapped, padded without permission or truncated to fit.",
     ["inputs", "programs"], "all field declarations and all values just outside and far outside what they can carry, alone and nested inside arrays, nested structures and unions",
     "Tests probe a few overflows on a few types; the boundary differs for every width, sign, encoding, size reference and container.",
     [B, C, N, T, V, H], [("size check before writing", B + ": Field.to_stream"), ("range checks", N + ": Integer._do_dump, Timestamp._do_dump; " + V + ": encoders"), ("element count check", C + ": Array._do_dump, _dump_unsized"), ("text size check", T + ": String._encode_and_resize, Bytes._do_dump")],
     ["exception and bytes present in the output stream"])

prop("C07", "Reported sizes and offsets equal the real ones",
     "Whenever a structure class, a structure instance or a bound field reports a size in bytes or a byte offset, that number equals the size or offset found in every actual serialization; a structure of unconditional fixed-size fields reports its size, and when a size or offset varies between valid values, no fixed number is reported. "
     "The length of a fully assigned instance is the number of bytes it dumps to.",
     ["inputs", "programs"], "all structure definitions, including variable-size, conditional, nested, inherited and defaulted fields, and all valid values",
     "Tests check sizes of a few definitions; wrong static sizes appear only for combinations such as a defaulted variable-size field inside a nested or inherited structure.",
     [S, B, C, T, N, P5], [("static size", S + ": StructMetadata.get_size, Struct.get_size"), ("offset assignment", S + ": collect_assigned_fields; " + P5 + ": dataclass"), ("instance length", S + ": Struct.__len__"), ("per-field size", B + ": get_expected_size; fields/*: _size_for_value")],
     ["get_size, len, field size/offset against recorded write positions"],
     [("offset, size", "static position and width of a field", B + ": Field.offset, Field.size")])

prop("C08", "Partial loading and single-field reads agree with full loading",
     "Reading a single field from a stream positioned at a structure yields the same value as loading the whole structure, and always returns the stream to where it was, even after an error. "
     "Loading part of a structure yields exactly the leading fields with the values a full load gives them; without a named end it stops before the first incomplete field with the stream positioned at the start of that field.",
     ["inputs", "programs"], "all structure definitions, all valid serializations, every field, every end field, every amount of available data, and any starting position",
     "Tests use one or two small structures; the direct-seek path and the sequential path only disagree for particular layouts (variable-size, conditional, referencing, discarded or inherited fields).",
     [S, B], [("direct or sequential read", S + ": get_field"), ("sequential prefix load", S + ": partial_load")],
     ["returned values, stream position, recorded seeks"])

prop("C09", "Partial dumps are exact prefixes of the full dump",
     "Dumping a structure up to a named field writes exactly the leading part of the full serialization, ending after that field; without a named end it writes every leading field that has a value and stops at the first that has none. "
     "A missing required field before the named end is an error, and nothing after the end is touched.",
     ["inputs", "programs"], "all structure definitions, all assignments including incomplete ones, every end field",
     "Tests dump prefixes of a single structure with plain fields; computed, referencing, defaulted, conditional and nested fields take other paths.",
     [S, B], [("prefix dump", S + ": partial_dump"), ("value resolution", B + ": compute_value_for_dump")],
     ["bytes written against the full dump"])

prop("C10", "Validators and constants are enforced on every path",
     "A field or structure validator, however attached (argument, method for one or several fields, whole-structure method, inherited, on a nested structure, on an element or an alternative), runs on every complete load and dump with the real value of each field that is present; if any of them refuses, the operation raises, and no structure is returned. "
     "A declared constant is written unless another value was passed at construction, cannot be reassigned, and any other value read in its place is refused. "
     "Assigning a value that the field's own validators (those given as its argument, which also run in partial operations and single-field reads) refuse leaves the previous value in place, and a validator added by a subclass never affects its parent.",
     ["programs", "inputs", "histories"], "all placements of validators over all structure definitions and inheritance chains, all values, load, partial load, dump and assignment",
     "Tests attach validators in a few places and check one rejection; skipping a validator is invisible unless the right placement meets the right path with a refused value.",
     [S, B, D, C, P5], [("struct and method validators", S + ": validate_contents, bind_validators_to_struct"), ("field validators on load, dump and set", B + ": from_stream, to_stream, __set__"), ("const check", B + ": from_stream")],
     ["recorded validator invocations and operation outcome"])

prop("C11", "Null is carried exactly as declared",
     "A field declared nullable dumps null as its declared null representation (raw bytes, a designated value, or zero bytes of its size) and loads exactly that representation (for a designated value, whatever reads as that value) as null, consuming exactly those bytes; every other representation loads as an ordinary value. "
     "A field not declared nullable refuses to dump null and never loads null.",
     ["inputs", "programs"], "all field types and null declarations, all values including those whose bytes share a prefix with the null representation, at every position including the end of input",
     "Tests cover a few null declarations on a few types; partial matches, short inputs and null next to other fields are unsampled.",
     [B, H, N, T], [("null representation", B + ": _get_null_repr"), ("lookahead comparison", B + ": from_stream; " + H + ": peek_bytes")],
     ["loaded values, bytes and stream position"])

prop("C12", "Conditional fields appear exactly when their condition holds",
     "A field with a presence condition occupies bytes exactly when the condition holds for the other fields and the caller's context, on dump and on load alike; when absent it contributes no bytes, the following fields close up, and its loaded value is the declared stand-in. "
     "An absent field needs no value, its lack of a value is never validated, and it never disturbs its neighbours.",
     ["inputs", "programs"], "all structure definitions with conditions on earlier fields, on the context, or on lookahead, all values and contexts",
     "Tests have a couple of conditional fields with one flag; combinations with nesting, sizes, defaults, context and partial operations are not sampled.",
     [B, S], [("presence check", B + ": from_stream, compute_value_for_dump"), ("skipping absent fields", S + ": to_stream, to_dict, validate_contents")],
     ["bytes written/consumed per field, loaded values"])

prop("C13", "The value written for each field is resolved as documented",
     "For each field the dump uses the value explicitly given if there is one, otherwise the declared default or factory result or constant, otherwise the computed value, and fails only when none exists, computed fields being consistent with what is written for the fields they depend on; reading the field on the instance and converting to a dictionary report the same value. "
     "Computed and constant fields cannot be reassigned after construction, values passed while loading override what was read, and a computed value that was neither given nor loaded always reflects the current values of the fields it depends on.",
     ["histories", "inputs", "programs"], "all mixes of explicit, default, factory, constant and computed fields, and all sequences of construction, assignment, deletion, reading and dumping",
     "Tests check single steps; stale or mis-prioritised values need a particular combination and sequence.",
     [B, S], [("value resolution", B + ": compute_value_for_dump, __get__, __set__"), ("dictionary conversion", S + ": to_dict, _to_dict_whatever_possible"), ("override on load", S + ": from_stream")],
     ["attribute reads, to_dict, dumped bytes after each step"],
     [("__values__", "explicitly assigned values of an instance", S + ": Struct.__init__")])

prop("C14", "A structure behaves as a mapping of its assigned fields",
     "Under any sequence of attribute and item reads and writes and item deletions, a structure behaves like a record of named values: item and attribute access agree, iteration yields exactly the assigned fields, deletion restores the unassigned state, item access and construction with unknown names are refused, and no operation affects another instance or the class. "
     "Two structures (or a structure and a plain mapping) compare equal exactly when the same fields are assigned and have equal values, nested structures being compared by their dictionary form; the dictionary form contains every field that is not discarded. "
     "The mapping proxies of a structure have the length, items, membership, lookups, equality and mutations of a dictionary of its assigned fields.",
     ["histories", "inputs"], "all sequences of operations over several instances of all structure definitions",
     "Tests perform one or two operations per test on one structure; state leaking between operations, instances or representations needs longer histories.",
     [S, B], [("mapping proxies", S + ": StructMappingProxy, MutableStructMappingProxy"), ("mapping methods", S + ": __getitem__, __setitem__, __delitem__, __iter__, __eq__"), ("descriptor", B + ": __get__, __set__"), ("dictionary conversion", S + ": to_dict, recursive_to_dicts")],
     ["results of every operation compared with a model record"])

prop("C15", "Variable-length integers are exact, minimal and self-delimiting",
     "For each variable-length scheme every supported integer encodes to the canonical byte sequence of that scheme, decoding it gives the integer back, and decoding consumes exactly that sequence whatever follows. "
     "Integers outside the scheme's domain or above the declared byte limit are refused, and an unterminated sequence is an end-of-data error.",
     ["inputs"], "all integers (exhaustive for small magnitudes, boundaries of every 7-bit group up to hundreds of bits, random beyond) and all continuation-byte sequences in every scheme",
     "Tests check a table of about a dozen values per scheme; sign, group-boundary and length mistakes appear at specific magnitudes.",
     [V, N], [("encoders and decoders", V + ": encode_integer_*, decode_integer_*"), ("field wrapper and byte limit", N + ": VariableLengthInteger")],
     ["bytes, values and stream position"])

prop("C16", "All declaration styles define the same structure",
     "The same fields declared by assignment, by type annotation, by annotated types, or split over a parent and a subclass define structures with identical layout, sizes, offsets, validation and behaviour; structure-wide defaults for byte order and text encoding act exactly as if written on every field of the structure that does not set the argument itself. "
     "Declaring a subclass never changes how its parent or its siblings behave, and contradictory declarations are refused when the class is defined.",
     ["programs"], "all structure definitions expressible in more than one style, all splits over inheritance chains, all argument defaults, all kinds of contradictory declaration",
     "Tests declare a few structures in one style each and never compare styles; a divergence needs a specific combination.",
     [P5, S, B, N, T], [("annotation processing", P5 + ": dataclass, AnnotationInfo"), ("assignment processing", S + ": StructMetadata.from_class, collect_assigned_fields"), ("argument defaults", B + ": bind_to_container"), ("validator inheritance", S + ": from_class, bind_validators_to_struct")],
     ["bytes, loaded values, sizes, offsets and errors of equivalent declarations"])

prop("C17", "Operations are isolated: concurrent and nested use never interfere",
     "Structure classes carry no per-operation state: dumping or loading any number of instances of the same or related classes concurrently in threads, nested inside each other's callbacks, or interleaved step by step gives each operation the result it gives alone. "
     "A failed operation leaves no trace on later ones.",
     ["schedules", "histories"], "all thread schedules and all interleavings and re-entrant nestings of operations on shared classes and fields",
     "The tests are single-threaded and run one operation at a time; shared mutable state on a field or class is invisible to them.",
     [S, B, C, T, N], [("state kept in locals and arguments only", "fields/*: _do_load, _do_dump; " + S + ": to_stream, from_stream")],
     ["per-operation results under forced interleavings compared with solo results"])

prop("C18", "Timestamps denote the same instant at the declared resolution",
     "A dumped timestamp is the whole number of declared units between the Unix epoch and the given instant, and loading that number gives the same instant to the precision of the language's date type, for every resolution, width, sign and time zone, before and after the epoch. "
     "Zone-aware fields return UTC-aware values, zone-less fields use the machine's local time including around daylight-saving changes, and instants that do not fit are refused.",
     ["inputs", "configurations"], "all instants over the representable range, all resolutions and widths, all source time zones, all machine time zones",
     "Tests use a few instants in one machine time zone; rounding and zone errors appear only for particular sub-second values, magnitudes and zones.",
     [N], [("conversion", N + ": Timestamp._do_load, Timestamp._do_dump")],
     ["bytes and datetimes against integer arithmetic, in child processes per TZ"])

prop("C19", "Arrays hold exactly the declared elements",
     "An array loads exactly as many elements as its fixed count, its count field or its stop condition dictates, in order, each decoded by its element type, and leaves the stream right after the last one; dumping writes exactly the given elements and refuses a wrong number. "
     "This holds for empty arrays, arrays running to the end of the data, iterators and other one-shot inputs, arrays of arrays, structures, nullable and variable-size elements.",
     ["inputs", "programs"], "all element types, count declarations, stop conditions, input container kinds and lengths, including zero",
     "Tests use short arrays of small integers; combinations with nested or nullable elements, references and stop conditions are not sampled.",
     [C], [("stop check", C + ": Array.should_halt, get_final_element_count"), ("element loops", C + ": Array._do_load, _do_dump, _dump_unsized")],
     ["element lists, recorded stop-check calls, stream position"])

prop("C20", "A union uses exactly the alternative its decider chose",
     "Loading and dumping a union consult the corresponding decision function exactly once with the documented arguments and then behave exactly as the chosen alternative would in its place, whether that is a structure or a field, with its own constants, validation and size, and its own null handling on load; dumping null is governed by the union's own null declaration. "
     "A decision that is not one of the supported kinds is an error and writes nothing.",
     ["inputs", "programs"], "all sets of alternatives (fields, structures, mixtures), all decisions, all values, alone, in arrays and beside other fields",
     "Tests check a few alternatives with valid data; the alternatives' own options inside the union are not exercised.",
     [C], [("dispatch", C + ": Union._do_load, Union._do_dump")],
     ["recorded decider calls, bytes and values against the alternative used directly"])

prop("C21", "User callbacks see the documented arguments",
     "Every user-supplied function (presence condition, stop check, union decider, compute function, validator) receives the caller's context object itself, the field it belongs to, and for loads exactly the values of the fields already read with the values they finally get, for dumps the values about to be written. "
     "Fields are processed in declaration order, lookahead offered to callbacks is at the position of the field concerned, and callbacks run at nested levels with the same context.",
     ["inputs", "programs", "histories"], "all structure definitions with instrumented callbacks at every position and nesting level, all values and context objects",
     "Tests check arguments of a few callbacks at top level; dropping the context or passing a wrong mapping at depth is not observed.",
     [S, B, C], [("context and field mapping forwarding", S + ": to_stream, from_stream; " + B + ": from_stream, to_stream, compute_value_for_dump; " + C + ": _do_load, _do_dump")],
     ["recorded callback trace checked against the specification of the call sequence"])

prop("C22", "Observing, dumping and loading have no side effects",
     "Reading fields, taking the length, size, dictionary form, representation or comparison, and dumping, in any order and any number of times, change neither the structure nor the values it was given nor later results: repeated dumps are identical. "
     "Loading never changes its input, the override values or the context, and loaded structures share no mutable state with each other or with the class.",
     ["histories", "inputs"], "all orders and repetitions of observing operations on all structures, including those with lists, nested structures, defaults and computed fields",
     "Tests call each observer once on a fresh object; a hidden mutation shows only when operations are combined.",
     [S, B, C], [("copy of override values", S + ": from_stream"), ("dictionary conversion by copy", S + ": to_dict, recursive_to_dicts"), ("buffered dump", B + ": to_stream")],
     ["deep snapshots before and after each operation"])

prop("C23", "Text is carried exactly in its encoding and size",
     "Fixed-size text always occupies exactly its declared bytes, padded only with the declared pad byte, and null-terminated text ends at the first complete terminator character of its encoding and at its declared maximum; text of any script in any single-byte, multi-byte, byte-order-marked or stateful encoding comes back unchanged. "
     "Text that does not fit, is not encodable, or bytes that are not valid text are refused.",
     ["inputs"], "all text over all code points, all supported encodings, sizes, pad bytes, terminator positions and size references, with any bytes after the field",
     "Tests use ASCII and a couple of accented strings; terminators inside multi-byte units, byte-order marks and exact-fit sizes are rare inputs.",
     [T, H], [("encode and resize", T + ": String._encode_and_resize"), ("incremental decode to terminator", T + ": StringZ._do_load; " + H + ": iter_bytes")],
     ["bytes, text and stream position against a whole-string codec oracle"])

prop("C24", "Stream failures surface and leave nothing behind",
     "When the underlying stream fails at any read, write, seek or position call, the failure reaches the caller, no partial structure is returned, and the values being dumped are unchanged so that retrying on a good stream gives the full correct result. "
     "A failed single-field read still returns the stream to its original position, and a stream that returns less data than asked at its end is treated as truncated.",
     ["fault_sequences", "crash_points", "inputs"], "an injected failure at every individual stream call of load, dump, partial load, partial dump and single-field reads over all structure definitions",
     "The tests only use in-memory streams that never fail.",
     [S, B, H, C], [("position restore", S + ": get_field; " + H + ": peek_bytes; " + C + ": should_halt"), ("stateless operations", S + ": from_stream, to_stream")],
     ["exception identity, stream position, retry result per injected call index"])

prop("C25", "Failures are reported with the right kind of error about the right field",
     "A load, dump, assignment or definition that is rejected for one of the documented reasons (end of data, leftover data, wrong size, wrong count, unrepresentable value, missing value, unexpected value, immutable field, failed validation, unusable definition) raises the documented kind of error, and when one field of a structure is to blame the error names that field and not a neighbour. "
     "An end-of-data error reports the offset and size of the read that failed.",
     ["inputs", "programs"], "all single-cause failures over all structure definitions, at every position and nesting level",
     "Tests check the kind of a few errors and the blamed field of even fewer.",
     ["errors.py", B, S, C, N, T, H], [("error hierarchy", "errors.py"), ("field attribution", B + ": from_stream; " + H + ": read_int"), ("argument checks", S + ": __init__, partial_load, get_field")],
     ["exception class and attributes per injected single cause"])

prop("C26", "What fields and structures report about themselves is true",
     "The name, position, owning class, size, constant, default, stand-in, null value, element and alternative types, counts and type-specific settings (byte order, sign, encoding, padding, resolution, storage format, limits) that a field reports equal its declaration, including what it takes from the structure, and a declaration made of these reports predicts every dump and load. "
     "A field that reports itself as required, computed, constant, nullable or discarded is treated as exactly that by dumps, loads and assignments, and no use of the structure, failed or not, and no further subclass changes what is reported.",
     ["programs", "inputs", "histories"], "all structure definitions in all declaration styles, all values, all histories of use",
     "Tests read a few attributes of a few fields right after declaration; whether the attributes agree with the behaviour, and still do after use, is not sampled.",
     [B, S, N, T, C], [("reported attributes", B + ": size, has_fixed_size, allow_null, default, required, is_computed_field, get_expected_size"), ("binding", B + ": bind_to_container; " + S + ": collect_assigned_fields; pep526.py: dataclass"), ("structure test", S + ": is_struct")],
     ["attributes of class and fields before and after use, bytes and values predicted from them"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    n = p["statement"].count(". ") + 1
    assert n <= 3, (p["id"], n)
print(len(P), "properties")
