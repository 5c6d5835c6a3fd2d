#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl. Run by hand when a check changes."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ONLINE = "runtime monitoring: "
T = {
 "C01": "differential oracle (denotational reference and independent automaton) over generated patterns and inputs",
 "C02": "differential oracle over generated operator trees",
 "C03": "offline checker: product walk of the compiled tables against an independent subset construction",
 "C04": "trace-protocol monitor on the builder calls plus table invariants and product walk",
 "C05": "model-based monitor queried along building histories",
 "C06": "exact-partition checker on generated range sets",
 "C07": "filter oracle on insertion histories",
 "C08": "reachable-set checker before and after, per elementary class of symbols",
 "C09": "differential oracle on clashing token sets",
 "C10": "reference maximal munch, progress and poll monitors on token streams",
 "C11": "step-by-step model of the tokenizer over random call interleavings",
 "C12": "cursor-model monitor over histories of reads, rewinds and cuts",
 "C13": "instrumented source (poll log) and live-symbol counting over tape histories",
 "C14": "sequence monitor over interleavings of a tree of split readers",
 "C15": "instrumented source and live-symbol counting over split-reader interleavings",
 "C16": "whole-tree model comparison after every tagging operation",
 "C17": "call-recording mappings and reference maximal munch over tagging levels",
 "C18": "round-trip checker (tables, behaviour, re-serialized bytes) over several formats",
 "C19": "interference monitor over pools of matches in progress, threads, and Miri's race detector",
 "C20": "neighbour oracle over enumerated and sampled values",
 "C21": "set-algebra oracle over pairs and triples of ranges",
 "C22": "delivery monitor with instrumented and faulty byte sources",
 "C23": "equivalence checker over repeated and reordered compilations, digests between processes",
 "C24": "AddressSanitizer, overflow checks and Miri over all workloads; CPU watchdog; work counters",
 "C25": "symbol-by-symbol monitor against observed tables, an independent automaton and whole-stream runs",
 "C26": "refusal and state-preservation monitor over invalid requests",
 "C27": "agreement checker over every route from pattern to result",
 "C28": "instrumented source (request log), live-symbol and byte accounting after every tokenizer call",
 "C29": "composed reference transducers over random stacks of stages on an instrumented source",
 "C31": "model comparison of every member of pools of copies after every step; equality matrix against the models",
 "C30": "recording implementation of the building interface; active-state oracle and product walk after each compilation",
}
NOTE = ("Sampled executions: no violation in the cases run (counts in the evidence file), seeded by VERIF_SEED. Trusts the reference models "
        "in harness/src, rustc, and that generated cases reach the relevant behaviour; sizes are bounded (patterns up to a few thousand "
        "automaton states, streams up to some thousand symbols).")
EXTRA = {
 "C19": " Data races are looked for by Miri on a small share of the cases.",
 "C20": " Complete for all values of u8, i8, u16, i16, u32, i32 and char; sampled for the 64-bit types.",
 "C24": " Memory errors as far as AddressSanitizer and Miri see them in the executions made; 'hangs' means exceeding a CPU bound far above what any case needs, or the comparison-count bound.",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "checks": [{
   "property": p["id"],
   "quick_cmd": "./check.sh " + p["id"],
   "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"],
   "evidence_file": "evidence/%s.json" % p["id"],
   "technique": ONLINE + T[p["id"]],
   "level": "exploration",
   "level_note": NOTE + EXTRA.get(p["id"], ""),
 } for p in props],
 "not_applicable": [],
 "notes": "No hooks in /repo: every monitor watches through the public interface. known-findings.txt lists the defects found and repaired. One case is run again with ./replay.sh (the replay file says how).",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
