#!/usr/bin/env python3
"""Writes MANIFEST.json. python3 tools/mkmanifest.py"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "differential runtime monitor: random types and values, value-model oracle over encode/decode executions",
 "C02": "runtime monitor of Size against the bytes actually produced, strict walk of every length prefix",
 "C03": "runtime monitor: official protobuf implementation and a strict record reader judge every encoding",
 "C04": "runtime monitor: variant encoder, two reference decoders as oracle for every decode",
 "C05": "runtime monitor: unknown-field injection and schema evolution workloads, reference decoder as oracle",
 "C06": "hostile-input workload under allocation bound, CPU watchdog and process monitor",
 "C07": "runtime monitor: every cut and classified damage, strict reference decoder judges verdict and error",
 "C08": "trace monitor: operation sequences on one message checked step by step against a reference merge",
 "C09": "address-range overlap and bit-image monitors around encode and decode",
 "C10": "race detector plus serial-equivalence monitor over concurrent first uses",
 "C11": "history monitor: history-free oracle on every call and comparison of probes across two histories",
 "C12": "AddressSanitizer, checkptr, race detector, permanent GC with clobbered free memory, canaries in undeclared fields",
 "C13": "runtime monitor of records on the wire and set-ness after decoding",
 "C14": "runtime monitor: random schemas through the generator, compiled, data exchanged with the official implementation",
 "C15": "runtime monitor over generator executions: repeated, permuted and partial requests; declaration shape compared with the schema",
 "C16": "runtime monitor: unusable-argument workload with verdict and memory-image oracle",
 "C18": "runtime monitor: sequences of assigning, copying, decoding and asking optional wrappers, value-model oracle",
 "C19": "runtime cost monitor: thread CPU time and allocation of each call against the work counted in the value",
 "C20": "runtime monitor over generator executions under random parameters and damaged requests; responses compared and parsed",
 "C21": "runtime monitor of generated source: comments matched with the schema's, code compared with that of the comment-free schema",
 "C17": "differential runtime monitor across Go toolchains 1.23-1.27 and amd64/386",
}
NOTE = ("Assurance over the executions observed only (random and boundary-heavy types, values, inputs and histories; counts in the evidence file). "
        "Trusts the reference codec and value model in harness/vf (cross-checked with the official implementation) and the Go toolchain.")
EXTRA = {
 "C06": " Nesting of 3,000,000 levels is a known finding (known-findings.txt).",
 "C10": " Schedules are those the Go scheduler produced, spread by many processes, barriers and yields; races are seen only on executed accesses.",
 "C12": " Sanitizers see what executed code does; accesses inside one object are seen through canaries and value comparison.",
 "C19": " The allowance is generous (1 us per step plus 30 ms); factors below it are not seen.",
 "C17": " 32-bit is represented by linux/386 run natively.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
have = [p["id"] for p in props if p["id"] not in ("C14", "C15") or os.path.exists(os.path.join(V, "driver", "gencheck.py"))]
m = {"version": 1, "setup_cmd": "python3 run.py setup",
     "checks": [{"property": p, "quick_cmd": "python3 run.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p,
                 "technique": T[p], "level": "exploration", "level_note": NOTE + EXTRA.get(p, "")} for p in have],
     "not_applicable": [{"property": p["id"], "reason": "check under construction"} for p in props if p["id"] not in have],
     "notes": "No hooks in /repo: the machinery observes the public API, the memory the caller can reach and the process itself."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
