#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOOK_COMMITS = ["bcce4d3d3af23743dce23e2f18dfdcb98bee1573"]
C = {
 "C01": ("property-based round-trip testing over generated value trees with an independent reference codec",
         "Random and boundary-exhaustive exploration; trusts the reference codec in harness/vp/src/wire.rs."),
 "C07": ("differential fuzzing of the three walkers against an independent reference decoder, with a counting allocator",
         "Exploration of generated, mutated and exhaustively enumerated short inputs; trusts the reference decoder."),
 "C08": ("differential property-based testing against a table-driven model of all 63 frame layouts, with mutation fuzzing",
         "All alternatives of all kinds with boundary integers are enumerated; the rest is sampled. Trusts the layout table."),
 "C13": ("property-based and metamorphic testing of conversion against an independent reference decoder",
         "Exploration; all version pairs enumerated on sampled values."),
 "C14": ("property-based testing over chunkings and scripted I/O behaviour",
         "Exploration of chunkings, short reads/writes, pending and faults; all three-way splits of short streams."),
 "C02": ("stateful model-based testing of the real broker over generated client histories and schedules",
         "Exploration of histories of up to 14 raw connections in all protocol versions under generated interleavings; trusts the reference model in harness/bus/src/model.rs."),
 "C03": ("stateful model-based testing of the real broker over generated client histories and schedules",
         "As C02, with a profile around objects, services and queries."),
 "C04": ("stateful model-based testing of the real broker over generated client histories and schedules",
         "As C02, with a profile around subscriptions and events."),
 "C05": ("stateful model-based testing of the real broker over generated client histories and schedules",
         "As C02, with a profile around channels and a credit ledger; over-sending and overflowing grants included."),
 "C09": ("fault enumeration (crash points) and stateful model-based testing with comparison of statistics and broker internals",
         "Four ways to end each of three connections at each of fourteen points of generated scenarios, plus histories; trusts the reference model and the read-only hook."),
 "C10": ("stateful model-based testing of the real broker over generated client histories and schedules",
         "As C02, with a profile around bus listeners."),
 "C11": ("stateful fuzzing with hostile raw clients against the reference model, and model-less storms with a final probe",
         "Exploration; what an attacker itself is sent is not checked, what the others are sent is checked exactly."),
 "C06": ("generated multi-client programs over the public client API under generated task schedules, with quiescence-based hang detection",
         "Exploration; a deterministic executor owns the schedule of broker, connections, clients and application tasks; hangs are decided at quiescence, not by clocks."),
 "C15": ("fault enumeration: every transport operation of a victim client x five faults and three clean causes over generated scenarios",
         "For each generated scenario all fault points are enumerated; the scenarios are sampled."),
 "C19": ("stateful property-based testing of discoverers, lifetimes, find and wait against the bus history a raw listener is told",
         "Exploration of histories and schedules; trusts the raw observer's history as the order of bus events."),
 "C17": ("grammar-directed, mutational and token-soup fuzzing of the parser, renderer, formatter and code generator with a metamorphic repeat",
         "Exploration of texts; shapes of growing size for termination; panics, aborts and hangs are violations."),
 "C18": ("grammar-directed generation with a round-trip and metamorphic oracle: printed model, AST read back, diagnostics and token bag before and after formatting",
         "Exploration; the model a text was printed from is compared with what is read before and after formatting."),
 "C12": ("exhaustive handshake and gate enumeration, per-pair payload routing tests and model-based histories over all version pairs",
         "Handshake table and gate matrix enumerated, payloads sampled; trusts the reference codec."),
 "C16": ("grammar-directed generation of schemas whose generated code is compiled and fuzzed with conforming and mutated values against a schema-level reference model",
         "Exploration; the types of generated programs are given values in all encodings and compared with a model of the wire contract; a sweep over places and names for compilation."),
 "C20": ("property-based and metamorphic testing of type ids over generated, permuted and edited schema sets, by hand and from generated code, against a canonical description",
         "Exploration; ids must be equal exactly where the canonical descriptions are; records are compared and round-tripped."),
}
checks = []
for k, (t, n) in sorted(C.items()):
    checks.append({
        "property": k,
        "quick_cmd": f"./run.sh check {k}",
        "thorough_cmd": f"VERIF_TIER=thorough ./run.sh check {k}",
        "evidence_file": f"evidence/{k}.json",
        "technique": t,
        "level": "fault_enumeration" if k in ("C09", "C15") else "exploration",
        "level_note": n,
    })
m = {
    "version": 1,
    "setup_cmd": "./run.sh build " + " ".join(c for c in ["codec", "bus", "schema", "gen"] if os.path.exists(f"{here}/harness/{c}/Cargo.toml")),
    "hooks": {
        "guard": "cargo feature `verif-hooks` of aldrin-broker (off by default)",
        "enable": "the harness crates depend on /repo's crates by path with that feature switched on",
        "source_commits": HOOK_COMMITS,
    },
    "checks": checks,
    "not_applicable": [
        {"property": f"C{i:02}", "reason": "check under construction"} for i in range(1, 21) if f"C{i:02}" not in C
    ],
}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
