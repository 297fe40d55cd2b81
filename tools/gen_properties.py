#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the records stay well formed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                    "observe_at": observe, "hook_needed": hook}})

ALL = ["src/externally.rs", "src/internally.rs", "src/adjacently.rs", "src/ser.rs", "src/de.rs", "src/content.rs", "impl/src/tagged_trait.rs", "impl/src/tagged_impl.rs"]

p("C01", "Trait objects round-trip through JSON, CBOR and TOML",
  "Serializing a value as a trait object and deserializing the result as a boxed object of the same trait yields the same concrete type holding an equal value, under the externally, internally and adjacently tagged representation, for every shape of implementing type (structs, enums, primitives, strings, bytes, options, newtypes, tuples, sequences, maps, units). "
  "This holds in every self-describing format that round-trips the concrete value on its own: JSON read from text, bytes, a reader or an in-memory value tree (which may reorder map entries), CBOR, TOML. "
  "Excluded are types whose own top-level keys collide with the tag key, and, where the format reorders entries, 128-bit integers and maps with non-string keys (which Serde cannot buffer).",
  ["inputs", "programs", "configurations"],
  "all concrete type shapes in the Serde data model x all their values x three representations x several tag/content key spellings x JSON (4 entry points), CBOR, TOML, top level or nested",
  "tests/test.rs round-trips two structs with one u8 field (value 11), one unit struct, one empty struct and one unit variant; no tuples, maps, options, strings, nested values or value trees.",
  ALL, [("tagging serializers", "src/ser.rs, src/externally.rs, src/internally.rs, src/adjacently.rs"), ("tag lookup and delegation", "src/de.rs"), ("buffering of entries seen before the tag", "src/content.rs")],
  ["serde_json::to_string/from_str/from_slice/from_reader/to_value/from_value, ciborium, toml over &dyn Trait and Box<dyn Trait>"])
p("C02", "Trait objects round-trip through compact binary formats, exactly in place",
  "In formats that are not self-describing (bincode in its integer and byte-order configurations, postcard) a value serialized as a trait object deserializes to the same concrete type and an equal value under all three representations, for every shape of implementing type. "
  "Decoding consumes exactly the bytes encoding produced: several objects and plain values written one after another into one stream are all read back intact. "
  "Excluded are types whose own top-level keys collide with the tag key.",
  ["inputs", "programs", "histories"],
  "all concrete type shapes and values x three representations x bincode (fixint, varint, big endian) and postcard x sequences of objects and plain values in one stream",
  "The tests round-trip single-field structs and one unit variant through postcard only, externally tagged for the enum, and never place a second value behind an object.",
  ALL, [("README claim: all three representations round-trip through compact formats including Bincode", "src/lib.rs"), ("string keys forced with deserialize_str", "src/internally.rs"), ("buffered sequences re-emitted with their data model calls", "src/ser.rs")],
  ["bincode::serialize/deserialize_from, postcard::to_stdvec/take_from_bytes over &dyn Trait / Box<dyn Trait>"])
p("C03", "Externally tagged objects serialize as a single tag-to-value entry",
  "With no tag argument on the trait, a trait object serializes in every format as a map with exactly one entry: the key is the implementation's tag and the value is exactly what the concrete value serializes to on its own.",
  ["inputs", "programs"],
  "all shapes and values of implementing types x all tags x JSON, CBOR, bincode, postcard",
  "The tests compare the JSON of a few fixed values; contents other than one-field structs and unit types are never looked at.",
  ["src/externally.rs", "src/ser.rs", "impl/src/tagged_trait.rs"], [("serialize_map with one entry", "src/externally.rs")], ["bytes produced by each format"])
p("C04", "Internally tagged objects serialize with the tag as first map entry",
  "With a tag argument, a trait object serializes in every format as a map whose first entry is the tag key with the implementation's tag, followed by the concrete value's own fields or entries in their own order. "
  "Units, unit structs and None add no entry; an enum adds one entry from the variant name to the variant's payload (null for a unit variant); newtype structs are transparent; every other value (numbers, strings, bytes, Some, tuples, tuple structs, sequences) is placed unchanged under the key \"value\".",
  ["inputs", "programs"],
  "all shapes and values of implementing types x tag keys and tags x JSON, CBOR, bincode, postcard",
  "The tests compare JSON for one-field structs only; primitives, tuples, options, maps and data-carrying enums are not serialized internally tagged anywhere.",
  ["src/internally.rs", "src/ser.rs"], [("InternallyTaggedSerializer", "src/ser.rs"), ("Content buffer for sequence elements", "src/ser.rs")], ["bytes produced by each format"])
p("C05", "Adjacently tagged objects serialize as tag then content",
  "With tag and content arguments, a trait object serializes in every format as a two-field record: first the tag key with the implementation's tag, then the content key with exactly what the concrete value serializes to on its own (including null for units and None).",
  ["inputs", "programs"],
  "all shapes and values of implementing types x tag/content keys x JSON, CBOR, bincode, postcard",
  "The tests compare JSON for one-field structs only.",
  ["src/adjacently.rs", "src/ser.rs"], [("serialize_struct with two fields", "src/adjacently.rs")], ["bytes produced by each format"])
p("C06", "Formats receive faithful, well-formed Serde calls",
  "The calls a format receives while a trait object is serialized describe the concrete value exactly as serializing it directly would: same kinds, integer widths, struct, variant and field names, variant indices, order, string and byte contents, at any depth inside the tagged envelope. "
  "Every length announced in advance for a sequence, tuple, map, struct or variant equals the number of elements actually written, keys and values alternate, and every opened container is closed.",
  ["inputs", "programs"],
  "all sequences of Serializer calls a Serialize impl can make (29 data model kinds, nested) x three representations, observed by a recording format",
  "No test observes the calls below the JSON text, where widths, names, indices and announced lengths are invisible.",
  ["src/ser.rs", "src/externally.rs", "src/adjacently.rs", "src/is_serialize_str.rs"], [("ContentSerializer / Content replay", "src/ser.rs"), ("length arithmetic len + 1", "src/ser.rs")], ["a recording serde::Serializer"])
p("C07", "Decoding an object agrees with decoding the concrete type directly",
  "When a document's tag names an implementing type, decoding it as a boxed trait object succeeds exactly when that type's own Deserialize accepts the content part of the document, and then holds the same value; this is true for well-formed, slightly damaged and arbitrary content. "
  "The content part is the entry's value (externally tagged), the content field, or null when it is absent (adjacently tagged), or the other entries of the map, or the \"value\" entry for types that are not maps, structs, enums or units (internally tagged).",
  ["inputs", "programs"],
  "all documents (valid, mutated, arbitrary) x all Deserialize impls expressible by data model hints x representations x JSON and an in-memory self-describing format",
  "The tests decode a handful of valid documents and one with an unknown key; rejected content is never compared with what the concrete type would do.",
  ["src/de.rs", "src/externally.rs", "src/internally.rs", "src/adjacently.rs", "src/content.rs"], [("FnApply delegation", "src/de.rs"), ("MapWithStringKeys hint forwarding", "src/internally.rs"), ("ContentDeserializer", "src/content.rs")], ["Result of from_str::<Box<dyn Trait>> against from_str::<Concrete>"])
p("C08", "Decoding does not depend on where the tag stands",
  "In self-describing formats, moving the tag entry of an internally tagged object to any position among the map's entries, or writing the content before the tag in an adjacently tagged one, never makes a document that decodes fail or yield another value, and a document that is rejected stays rejected, unless the only difference is that Serde's own buffering is more lenient about the content than the format is (an empty map for a unit struct, say). "
  "Contents Serde cannot buffer (128-bit integers, non-string map keys, human-readability-sensitive types in binary formats) are excluded, as are documents that repeat a key.",
  ["inputs", "programs"],
  "all documents x all permutations of envelope entries x all concrete types (structs, maps, enums, primitives, sequences, options, units) x JSON text, JSON value tree, in-memory format with varied scalar and string kinds",
  "The tests always put the tag first.",
  ["src/internally.rs", "src/adjacently.rs", "src/content.rs"], [("entries buffered until the tag is found", "src/internally.rs"), ("Content / ContentDeserializer", "src/content.rs")], ["decoded value for each entry order"])
p("C09", "A tag selects exactly the implementation registered under it",
  "Decoding yields the implementation whose tag equals the tag in the input exactly (case, whitespace, length and Unicode included), whatever representation, format or string form carries it. "
  "A tag no implementation of that trait uses is rejected with an error that quotes it and lists the known tags, and a tag used by more than one implementation is rejected as non-unique instead of picking one, while all other tags keep working.",
  ["inputs", "programs", "configurations"],
  "all strings in tag position (known, near misses of known ones, ambiguous, arbitrary, non-strings) x representations x formats",
  "The tests only use tags of existing types; unknown, near-miss and ambiguous tags never occur.",
  ["src/de.rs", "impl/src/tagged_trait.rs"], [("MapLookupVisitor", "src/de.rs"), ("registry construction with None for duplicates", "impl/src/tagged_trait.rs")], ["Box<dyn Trait> decoding result and error text"],
  [("registry", "map from tag to deserialize function, None when ambiguous; sorted list of names", "impl/src/tagged_trait.rs")])
p("C10", "The default variant applies exactly when the tag is absent",
  "If the trait declares default_variant, an object without the tag key decodes exactly as the same object with the default's tag would, for every shape of the default type (for adjacently tagged traits, when the content key is present), and an object that has a tag decodes as if there were no default. "
  "Without a default, an object without tag is rejected with a missing-field error naming the tag key; serialization always writes the tag; a default naming no implementation is reported as an unknown variant.",
  ["inputs", "configurations"],
  "all documents with or without tag x traits with no, valid and dangling default x internal and adjacent x default types of every shape",
  "The tests try one tagless object with a one-field struct per representation.",
  ["src/internally.rs", "src/adjacently.rs", "impl/src/parse.rs"], [("default_variant fallback", "src/internally.rs, src/adjacently.rs")], ["decoding result with and without tag"])
p("C11", "Unknown keys beside tag and content are ignored or denied as declared",
  "An adjacently tagged trait ignores any number of other keys with any values at any position without changing the result, and with deny_unknown_fields it rejects every document that has such a key, naming it; a document without other keys decodes identically in both modes. "
  "Keys inside the content are governed by the concrete type alone.",
  ["inputs", "configurations"],
  "all documents x extra keys (including near misses of tag and content) x positions x values x both modes x with and without default",
  "One test document has one extra key, at the end.",
  ["src/adjacently.rs", "impl/src/parse.rs"], [("TagContentOtherFieldVisitor", "src/adjacently.rs")], ["decoding result"])
p("C12", "Malformed envelopes are rejected, never partly accepted",
  "Decoding is rejected when the tag is missing (and there is no default) or is not a string, when the input is not the kind of container the representation uses, when an adjacently tagged document repeats its tag or its content or lacks the content of a type that does not accept null, when an adjacent sequence form is not exactly tag and content, and when an externally tagged map is empty or has a second entry. "
  "These rejections are ordinary errors; no value is returned and nothing panics.",
  ["inputs"],
  "all structurally invalid envelopes derivable from valid ones (drop, duplicate, retype, add) plus arbitrary documents x representations x JSON text, JSON value tree, CBOR, in-memory format",
  "No test feeds a malformed envelope other than one unknown key.",
  ["src/externally.rs", "src/internally.rs", "src/adjacently.rs"], [("missing_field / duplicate_field / invalid_length errors", "src/adjacently.rs, src/internally.rs, src/externally.rs")], ["decoding result"])
p("C13", "A field named like the tag must agree with the tag",
  "If a concrete struct itself has a field whose name is the internal tag key, serialization succeeds exactly when that field serializes to the string equal to the implementation's tag, and then the tag key is written once, first, with all other fields unchanged. "
  "Otherwise serialization fails with an error naming the tag key, the expected tag and the offending value; it never emits conflicting tags, in any format.",
  ["inputs", "programs"],
  "all structs with a tag-named field at any position x values of every kind (equal string, other strings, single chars, numbers, nested, options, newtypes) x formats",
  "Three values on a one-field struct in JSON; other positions, kinds and length-prefixed formats are not covered.",
  ["src/ser.rs", "src/is_serialize_str.rs"], [("SerializeStructAsMap and expect_str", "src/ser.rs, src/is_serialize_str.rs")], ["serialized bytes or error"])
p("C14", "Failures of formats and of concrete types always surface as errors",
  "If the underlying format or writer fails at any point while a trait object is written, or the concrete type's Serialize or Deserialize impl reports an error, or the input ends early at any byte, the operation returns an error: never a success, a panic or a silently shortened value. "
  "The message of an error raised by the concrete type or by the format is contained in the error returned.",
  ["fault_sequences", "inputs"],
  "every call index of every serialization and deserialization at which an injected fault can occur x every truncation point of encoded bytes x types x representations",
  "Only mismatch and unknown-field errors are provoked; no fault or truncation is.",
  ALL[:6], [("error mapping in FnApply and buffers", "src/de.rs, src/ser.rs")], ["Result of serialization into a failing format; of decoding truncated input"])
p("C15", "Arbitrary input is decoded or rejected cleanly and stably",
  "Decoding any byte string as a trait object in JSON, CBOR, bincode or postcard returns a value or an error and never panics, overflows the stack or runs away. "
  "Whatever is accepted serializes again, and decoding that output gives the same concrete type and value; the outcome for given bytes is the same on every attempt.",
  ["inputs"],
  "all byte strings (arbitrary, and mutations of valid encodings) x representations x formats",
  "Tests only use well-formed inputs.",
  ["src/content.rs", "src/internally.rs", "src/adjacently.rs", "src/externally.rs", "src/de.rs"], [("total decoding paths", "src/*.rs")], ["absence of panics; decode(encode(decode(x)))"])
p("C16", "The way input is delivered does not change the result",
  "The same document gives the same decoding result whether it is read from a string, a byte slice, a reader, or an in-memory tree, and whether the format hands out strings and byte strings as borrowed, transient or owned, for tags, keys and contents alike. "
  "Encoding into a string, a byte vector, a writer or a value tree likewise produces the same document.",
  ["inputs", "configurations"],
  "all documents (valid or not) x delivery modes x entry orders x representations",
  "All JSON tests use from_str on compact text.",
  ["src/de.rs", "src/content.rs", "src/internally.rs", "src/adjacently.rs"], [("visit_str / visit_borrowed_str / visit_string and byte counterparts", "src/de.rs, src/content.rs")], ["decoding results across entry points"])
p("C17", "Every impl in the program is registered, and only for its own trait",
  "In any program, every attributed impl of a trait, in whatever module, crate, macro expansion or function body it is written and however many there are, can be decoded by its tag, as every form of the trait object type that is supported. "
  "Each trait has a registry of its own: equal tags, trait names or implementing types in different traits never interfere, and a tag that only another trait has is unknown.",
  ["programs", "configurations"],
  "generated programs: several traits (also with equal names in different modules and crates), many impls spread over modules, dependent crates, macros and functions, with shared types and tags",
  "One crate, a few traits, at most three impls per trait; cross-crate registration is not tested at all.",
  ["impl/src/tagged_trait.rs", "impl/src/tagged_impl.rs", "src/private.rs"], [("inventory collect/submit and per-trait static registry", "impl/src/tagged_trait.rs, impl/src/tagged_impl.rs")], ["output of generated programs"])
p("C18", "Concurrent first use is safe and consistent",
  "When many threads decode or encode objects of a trait at the same time, including the very first decoding in the process, every thread gets the result it would get alone: no thread sees an incomplete set of implementations, a wrong type, a panic or a deadlock.",
  ["schedules"],
  "interleavings of first and later decodings of one or several traits by many threads, repeated over many fresh registries",
  "All tests decode each trait on one thread per test; the race on first use is not provoked.",
  ["impl/src/tagged_trait.rs"], [("once_cell::race::OnceBox registry initialization", "impl/src/tagged_trait.rs")], ["decoding results per thread"],
  [("registry cell", "lazily built on the first deserialization", "impl/src/tagged_trait.rs")])
p("C19", "All forms of the trait object type behave alike",
  "dyn Trait serializes to the same output whether it is reached as a reference, a Box, or with added Send, Sync or Send + Sync markers and any lifetime, and equals the output for the plain object. "
  "When the trait names Send and/or Sync directly among its supertraits, boxed objects with each implied marker combination deserialize from the same inputs to the same values, and reject the same inputs, as the plain boxed object.",
  ["inputs", "programs"],
  "all values and documents x {plain, Send, Sync, Send + Sync} x traits with each supertrait combination x representations",
  "The tests only assert that the Serialize/Deserialize impls exist; they never run them.",
  ["impl/src/tagged_trait.rs"], [("marker trait impls", "impl/src/tagged_trait.rs")], ["outputs and decoding results across object types"])
p("C20", "An impl's tag is its explicit name, else its type's plain name",
  "An impl is written and read under exactly the tag given by name = ..., whether a literal or any constant expression, with all its characters; without one, under the last path segment of the implementing type without module path or generic arguments, also when the impl comes from a macro. "
  "Tag, content and default_variant keys given on the trait are used verbatim, whatever characters they contain.",
  ["programs", "configurations"],
  "generated traits and impls: names as literals, constants, concat!/const fn expressions, paths, macro-provided types, generic types; keys with arbitrary characters; attribute argument orders and trailing commas",
  "All tests use default names and plain ASCII keys; name = ... is only shown in documentation.",
  ["impl/src/tagged_impl.rs", "impl/src/parse.rs", "impl/src/tagged_trait.rs"], [("type_name, ImplArgs, TraitArgs", "impl/src/tagged_impl.rs, impl/src/parse.rs")], ["tags in encoded output; accepted tags"])
p("C21", "Unsupported or inconsistent uses are rejected at compile time",
  "The macros accept every documented form of the attribute and reject, as a compile error at that item, everything else: unknown, repeated, misplaced or ill-typed arguments, items that are neither trait nor trait impl, associated consts, associated types without where Self: Sized, generics with deserialization, unnamed types without name. "
  "An impl that lacks the attribute, or whose serialize/deserialize mode does not fit its trait, does not compile, so every implementing type is known to be (de)serializable.",
  ["programs"],
  "generated attribute argument lists, items and trait/impl mode combinations, each classified by an independent model of the documented grammar",
  "Six fixed negative cases; argument grammar, modes and missing attributes are not covered.",
  ["impl/src/parse.rs", "impl/src/tagged_impl.rs", "impl/src/tagged_trait.rs", "impl/src/lib.rs"], [("Parse impls, augment_trait marker methods", "impl/src/parse.rs, impl/src/tagged_trait.rs")], ["compiler diagnostics per item"])
p("C22", "Types that adapt to human-readable or binary formats still round-trip",
  "A type whose encoding depends on whether the format is human readable (such as IP addresses) round-trips as, or anywhere inside, a trait object in JSON, CBOR, bincode and postcard under all three representations. "
  "Below the top level of an internally tagged value, and everywhere in the other representations, such a type is asked for the encoding that fits the format in use, exactly as when serialized without typetag.",
  ["inputs", "programs", "configurations"],
  "all placements of format-sensitive leaves (root, newtype, option, sequence, tuple, map key and value, struct field, enum payload, nested objects) x representations x formats",
  "No format-sensitive type occurs in the tests.",
  ["src/ser.rs", "src/internally.rs", "src/content.rs"], [("is_human_readable forwarding", "src/ser.rs, src/internally.rs")], ["round trips; the flag seen by a probing type"])
p("C23", "Serialize-only and deserialize-only traits match the full mode",
  "A trait declared serialize-only produces the same output, and one declared deserialize-only accepts and rejects the same inputs with the same values, as the same trait declared with both directions, for every representation and option. "
  "Output of a serialize-only trait can be read by a deserialize-only trait with the same tags; serialize-only also works for generic traits and generic impls.",
  ["inputs", "programs", "configurations"],
  "all values and documents x representations and options x three modes",
  "Serialize-only is used for one generic trait and one mismatch test; deserialize-only is never used.",
  ["impl/src/lib.rs", "impl/src/tagged_trait.rs", "impl/src/tagged_impl.rs"], [("Mode {ser, de}", "impl/src/lib.rs")], ["outputs and decoding results across modes"])
p("C24", "Objects behave like the hand-written Serde enum",
  "Compared with the enum a user would write with one newtype variant per implementation and the matching Serde representation attributes, a trait object serializes to the same JSON and the same CBOR whenever that enum serializes (types that adapt to binary formats aside, which Serde's own internally tagged enums write in their human-readable form). "
  "Every document without repeated keys that the enum accepts is accepted by the trait with the same variant and value, with and without deny_unknown_fields, if the enum can also write such a value, the tag is given as a string, an internally tagged object is given as a map, and the content is one the implementing type itself reads from the format.",
  ["inputs", "programs"],
  "all values and all documents (valid, permuted, mutated) x three representations, against serde_derive as reference",
  "No test compares with a Serde enum although the documentation promises the same behavior.",
  ALL, [("documentation: the behavior is the same as if you had written the enum yourself", "src/lib.rs")], ["JSON/CBOR output and decoding results of both"])
p("C25", "Trait objects nest to any depth and in any mixture",
  "Implementing types may contain boxed objects of the same or other traits, with any mixture of representations, in fields, options, sequences, tuples, map values and enum payloads; every such tree round-trips with each node's concrete type and value, in self-describing and compact formats, and with tags moved away from the front at any level. "
  "The encoded form of a nested object is the same as when it is encoded on its own.",
  ["inputs", "programs"],
  "all finite trees of objects over several traits x positions in containers x entry orders x formats",
  "No test nests one trait object in another.",
  ALL, [("re-entrancy of tagging serializers and buffers", "src/ser.rs, src/internally.rs, src/content.rs")], ["round trips of trees"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(P), "properties")
