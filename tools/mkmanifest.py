#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
UNBUILT = {}
NA = {p["id"] for p in P if p["id"] >= "C50"} | set(UNBUILT)
NUM = "A pure function of its numeric input: there is no schedule, clock, message, storage or fault for a simulator to control; a seeded scheduler or fault plan adds nothing to evaluating it on inputs. It needs numerical testing or analysis, which is outside deterministic simulation."
NOTE = {
 "C01": "Seeded search over allocation-refusal plans (single, several, all from a point on, by size, budget, zero-sized) at every distinct allocation context of every transform and building block; every memory access of the library is checked against shadow memory.",
 "C02": "Every faulted call is compared bit for bit with the same call with plentiful memory.",
 "C03": "Exact block accounting in the simulated heap on success, refusal, degenerate problems and refused memory.",
 "C04": "Histories of failing calls followed by healthy ones, compared bit for bit with a fresh process.",
 "C05": "Inputs are read-only in the simulated memory during the call (a value-changing store is reported even if undone later) and compared afterwards.",
 "C06": "Every store is checked against the documented extents; shortened results are compared with the full result.",
 "C07": "2-6 simulated threads, seeded preemption at accesses to static and shared data, allocations, messages and arbitrary steps; each call is compared with the same call alone. Sequentially consistent interleavings only.",
 "C08": "Default records read at arbitrary points of concurrent, failing histories are compared with the ones read at start.",
 "C09": "Seeded interleavings of threads that set, read and use message handlers, against a per-thread reference model.",
 "C10": "The same calls under hostile handlers and broken standard error, compared with a plain handler.",
 "C11": "The same call in different worlds (fresh and recycled memory contents, stale stacks, placement, entropy, clocks, histories) compared bit for bit.",
 "C12": "Messages of every call, faulted or not, are checked against its return code; shortened results against the full result.",
 "C13": "All environment functions are answered and recorded by the simulator; floating-point environment compared before and after.",
 "C14": "Calls with arguments outside the documented domain interleaved with healthy ones.",
 "C15": "Work counted in simulated steps, a deterministic measure; growth factors between problem sizes, and faulted versus unfaulted work.",
 "C16": "The gateways run against a simulated MATLAB host whose memory manager, error unwinding and array ownership are modelled.",
 "C18": "Calls that select different outputs of the same transform, in seeded histories with refusals, misuse and other threads; common outputs compared.",
 "C19": "Peak heap and deepest stack address counted by the simulator for pairs of problem sizes and for calls with refused memory.",
 "C20": "The arrays of the results are filled with a not-a-number pattern before each call; unwritten values and values that are not finite are reported, also in faulted histories.",
 "C17": "Seeded corruption of samples, intervals, guesses; every access checked; healthy calls afterwards compared bit for bit.",
}
checks = []
for p in P:
    i = p["id"]
    if i in NA: continue
    checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                   "technique": "deterministic simulation with fault injection (seeded search)", "level": "exploration",
                   "level_note": NOTE[i] + " Sampling, not proof; trusts gcc's access instrumentation and the simulated environment."})
m = {"version": 1, "setup_cmd": "python3 tools/build.py", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": NUM if p["id"] >= "C50" else UNBUILT[p["id"]]} for p in P if p["id"] in NA],
     "notes": "No hooks in /repo: the simulator interposes at the object-file level (symbol redirection of every environment function and compiler access instrumentation). Genuine defects found are repaired by 'fix:' commits, listed in known-findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); print(len(checks), "checks")
