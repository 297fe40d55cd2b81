#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
T = {
 "C01": ("property-based testing: round trips of generated typed values", "generated types (schema-driven Serialize/Deserialize impls covering all 29 data model kinds) and values; three representations; JSON (4 entry points and value tree), CBOR, TOML; equality of the value decoded"),
 "C02": ("property-based testing: round trips in streams with plain neighbours", "bincode (3 configurations) and postcard; streams of objects and plain values; exact consumption"),
 "C03": ("property-based testing: differential against a reference encoding", "bytes compared with a reference map built by Serde itself around the concrete value"),
 "C04": ("property-based testing: differential against a reference encoding", "bytes compared with an independent model of the internally tagged form"),
 "C05": ("property-based testing: differential against a reference encoding", "bytes compared with a derived-style two-field struct around the concrete value"),
 "C06": ("property-based testing: recording format against a reference call trace", "complete call traces of a recording serializer, including announced lengths and balance"),
 "C07": ("property-based testing: differential against decoding the concrete type", "valid, damaged and arbitrary documents; JSON and an in-memory self-describing format"),
 "C08": ("property-based testing: metamorphic relation over entry orders", "each document decoded with the tag at every/random position; one outcome required; Serde's buffering itself measured per case to excuse differences not due to typetag"),
 "C09": ("property-based testing: model of the tag lookup over mutated tags", "registered, near-miss, ambiguous and arbitrary tags against a model of the registry"),
 "C10": ("property-based testing: metamorphic relation between documents with and without tag", "each document with and without tag, traits with, without and with dangling default"),
 "C11": ("property-based testing: metamorphic relation over extra keys", "documents with and without extra keys, lenient and strict traits"),
 "C12": ("property-based testing: structural damage with expected rejection", "envelopes damaged in known ways must be rejected in every format they can be written in"),
 "C13": ("property-based testing: reference model of the tag-field rule", "structs with tag-named fields of every kind at every position; output or error against a model"),
 "C16": ("property-based testing: differential across delivery modes", "same document through string, slice, reader, tree and borrowed/transient/owned strings"),
 "C22": ("property-based testing: probes of the readability flag, round trips", "format-sensitive leaves at all positions; flag seen compared with the format's"),
 "C24": ("property-based testing: differential against serde_derive enums", "hand-written enums as reference for output and accepted documents"),
 "C25": ("property-based testing: round trips of generated object trees", "trees over several traits and representations in all formats, tags moved at any level"),
}
LEVEL = {"C14": "fault_enumeration"}
extra = f"{root}/tools/manifest_extra.json"
if os.path.exists(extra):
    for k, v in json.load(open(extra)).items():
        T[k] = tuple(v)
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        t, n = T[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "technique": t, "level": LEVEL.get(i, "exploration"),
                       "level_note": n + ". Searches generated cases, seeded by VERIF_SEED; proves nothing about cases not generated. Trusts the oracle, Serde and the format crates."})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: everything is observed through public interfaces of typetag, Serde and the format crates. Each check rebuilds harness/ (C17, C20, C21: prog/, which compiles generated programs) against /repo's working tree."}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
open(f"{root}/MANIFEST.json", "a").write("\n")
