#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("property-based testing: random values of a generated type table, encode/decode inverse", "every scalar, list, map, bitfield, tuple and derived type of the table, values up to 16 MiB; types and values are sampled, small types exhaustively"),
 "C02": ("property-based testing: fault-injected and exhaustive short byte strings, decode/re-encode fixed point", "all strings up to 2 bytes per type (3 in the thorough tier), longer ones sampled around valid encodings"),
 "C03": ("property-based testing: differential against an independent reference serializer", "values sampled per type; small types exhaustively"),
 "C04": ("property-based testing: differential against an independent strict reference deserializer, fault-injecting generator", "all strings up to 2 bytes per type (3 in the thorough tier), longer ones sampled around valid encodings"),
 "C05": ("fuzzing with structured generators: no unwind and no abort, decided in a child process", "types, helpers and builder sequences sampled; short strings exhaustive; one known finding (recursive types)"),
 "C06": ("property-based testing with a counting allocator against a per-type linear bound", "inputs that claim more than they hold, sampled per type; the constant of the bound is derived from the type's structure"),
 "C07": ("property-based testing: predicted sizes against produced bytes, metadata against the schema, wrong-length inputs", "values sampled per type; metadata of every type of the table"),
 "C08": ("property-based testing over generated programs: machine-written derive definitions against the reference codec, rustc verdict on definitions without meaning", "a fixed sweep of shapes plus definitions drawn from the seed"),
 "C09": ("property-based testing: random registration sequences and layouts against a reference partition; exhaustive offset words", "sequences up to 40 items; every 32-bit offset word"),
 "C10": ("property-based testing: metamorphic (prefix, entry point, manual encoder) equality", "values and prefixes sampled per type"),
 "C11": ("stateful model-based testing against Vec<bool> with the full observation after each step", "histories up to 60 steps, every capacity up to 40 and selected ones up to 131072"),
 "C12": ("property-based testing: element-wise model on operand pairs; exhaustive small pairs", "all pairs of short operands, sampled longer ones"),
 "C13": ("property-based testing: every construction path around its bound, all resize pairs of a capacity grid", "capacities 0..40 and selected ones up to 2^40"),
 "C14": ("property-based testing: differential between byte-level API, SSZ codec and the stated validity predicate; exhaustive short strings", "all strings up to 2 bytes per capacity, sampled longer ones"),
 "C15": ("property-based testing: generated unions of every size 1..128, all 256 selectors", "every variant count 1..128 x every selector byte; bodies sampled"),
 "C16": ("property-based testing: limits x layouts x collections with call-counting items and the counting allocator", "item counts sampled around the limit"),
 "C17": ("property-based testing: legacy codec against the reference, standalone and as a field codec", "inner types of the table's legacy modules; short strings exhaustively"),
 "C18": ("property-based testing: serde_json strings around valid hex against hex of the reference encoding", "strings and values sampled per capacity; short hex strings exhaustively"),
 "C19": ("property-based testing: entry lists with duplicates, disorder and faults against a reference collection", "map and set types of the table; entry lists sampled"),
 "C20": ("property-based testing: enumerated and random unstructured inputs, validity of every result, search for a success per capacity", "capacities 1..40 and selected ones up to 2^40"),
}
done = sys.argv[1:] or sorted(T)
m = {"version": 1, "setup_cmd": "cargo --version && test -f engine/src/lib.rs",
     "checks": [{"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                 "technique": T[i][0] + "; then coverage-guided search over the same cases", "level": "exploration", "level_note": T[i][1]} for i in done],
     "not_applicable": []}
rest = [i for i in sorted(T) if i not in done]
if rest:
    m["not_applicable"] = [{"property": i, "reason": "check under construction"} for i in rest]
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
