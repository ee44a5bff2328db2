#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the notes below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
PBT = "property-based testing (proptest generation plus exhaustive sweeps) against "
TECH = {
    "C01": PBT + "a positional reference model and decoder",
    "C02": PBT + "a bijective-numeration reference model and decoder",
    "C03": "metamorphic property-based testing (plain at n against one_based at n+1), anchored to a flat model",
    "C04": "model-based property testing of generated combinator trees against a flat symbol list",
    "C05": "model-based property testing of generated fixed collections, wrappers and fallbacks",
    "C06": PBT + "a greedy reference model and a sum check",
    "C07": PBT + "a reference model and an independent Roman decoder",
    "C08": PBT + "table models and an independent sum decoder",
    "C09": PBT + "a reference model and an independent decoder",
    "C10": PBT + "the CSS algorithm as a model and an independent decoder",
    "C11": PBT + "a reference model and an independent Chinese decoder (round trip)",
    "C12": PBT + "a reference model and an independent Chinese decoder (round trip)",
    "C13": "metamorphic property-based testing over builder histories (character replacement)",
    "C14": PBT + "direct indexing of the symbol list",
    "C15": "property-based testing of the error contract (differential: fallible, infallible, decimal)",
    "C16": "differential property-based testing across the integer types",
    "C17": "differential property-based testing (through pointers against direct)",
    "C18": "property-based injectivity search (collected maps and generated near pairs)",
    "C19": "property-based robustness search with memory, CPU, crash and UTF-8 guards",
    "C20": "stateful model-based testing of operation histories against String",
    "C21": "stateful differential testing of storages under identical histories",
    "C22": "property-based testing of comparison and formatting laws against str",
    "C23": "generated operation histories executed under Miri",
    "C24": "property-based testing of the no-alloc build against the bounded reference model",
    "C25": "stateful testing of call histories, concurrent replays and seeded thread schedules under Miri, against per-call model results",
    "C27": "generated cases of the other properties executed under Miri for foreign targets, against the same models",
    "C28": "property-based testing of the laws of equality, copying, hashing and Default over generated pairs of values",
    "C29": "property-based testing of formatting, operation histories and conversions under a counting global allocator",
    "C26": "property-based testing of formatting and push histories under a counting global allocator",
}
NOTE = {
    "default": "Generated-input search, no proof: dense low ranges, structured boundary values and random values in all integer types. Trusts the reference model in harness/src/model.rs (the decoders are independent of the encoders).",
    "C19": "Generated-input search. A case fails on panic, crash, invalid UTF-8, more than 256 MiB or 40 s of CPU time. Astronomically long additive numerals are a known finding (known_findings.txt) and only probed.",
    "C23": "Generated histories and formatting calls under Miri with and without alloc: uninitialised and out-of-bounds access, invalid values, and (a part of the cases) Tree Borrows aliasing. Bounded by Miri's speed.",
    "C25": "Generated call sequences and shared user-made objects. Thread schedules are sampled, not enumerated: the operating system's, and Miri's seeded ones (which also report data races).",
    "C27": "Generated cases under Miri for powerpc (32-bit, big-endian), with and without alloc; thorough adds i686 and s390x. Bounded by Miri's speed: some thousand cases.",
    "C28": "Generated-input search over pairs of values; formatting is compared at 13 nominals per pair, not against a model.",
    "C29": "Generated-input search: each case is evaluated repeatedly and its net heap use counted. Single-threaded; leaks of other resources are outside it (the crate holds none).",
    "C26": "Generated-input search with every request to the global allocator counted per call. The text itself is checked too, against the reference model.",
}
manifest = {
    "version": 1,
    "setup_cmd": "./check.sh setup",
    "checks": [
        {
            "property": i,
            "quick_cmd": f"./check.sh {i}",
            "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": TECH[i] + ("" if i in ("C23", "C27") else "; then coverage-guided fuzzing (libFuzzer) with the same oracle"),
            "level": "exploration",
            "level_note": NOTE.get(i, NOTE["default"]),
        }
        for i in ids
    ],
    "not_applicable": [],
    "notes": "No hooks in /repo: everything goes through the public API. Replay a saved case with ./check.sh replay FILE.",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1, ensure_ascii=False)
    f.write("\n")
