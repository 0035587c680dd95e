#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
trust = ("Sampled, not exhaustive: the evidence file says how many executions were explored. Trusts the simulator runtime (rt/), "
         "the instrumenter (preemption points are statement boundaries; std packages run uninstrumented) and the oracle named here: ")
T = {
 "C01": "batch reference lexer written from nginx's grammar, independent of the code's structure.",
 "C02": "reference lexer/parser told which source fails where; cut points classified by the reference parser.",
 "C03": "termination, deadlock, panic and leftover-goroutine detection by the scheduler; step bound per input size.",
 "C04": "handle table of the simulated file system.",
 "C05": "reference models and the same call alone in a pristine process state; data races by the Go race detector in a second build, with happens-before edges of the modelled primitives only.",
 "C06": "reference models and the same call in a pristine process state; earlier results dumped again.",
 "C07": "reference parser (include walk, contexts, indexes, lines).",
 "C08": "reference parser told which open attempts fail.",
 "C09": "reference parser plus accounting rules over the recorded callback history.",
 "C10": "the tolerant run of the same world, and its history of opens, globs and callbacks.",
 "C11": "sequential reference expansion.",
 "C12": "reference models of Lua and of the harness's external lexers; overlap monitor on the shared input.",
 "C13": "expected text per file and full snapshot of the simulated disk.",
 "C14": "snapshot of the simulated disk after the crash against old/new content, then after the rerun.",
 "C15": "fault-free text of the same call; history of the sinks.",
 "C16": "the definitions the source tree was generated from, read back from the output with go/parser.",
 "C17": "reference lexer's token end offsets; quiescence known to the scheduler.",
 "C18": "recorded operations against the reference parser's set of reachable paths.",
 "C19": "the payload that was built, compared without line numbers and with file names made absolute.",
 "C20": "the payload that was stored; errors are compared by position, callback value and parse-error message.",
 "C22": "byte comparison of the simulated disk between rounds of the same code.",
 "C21": "the drawn settings and the definitions the source tree was generated from, read back from stdout with go/parser.",
}
tech = "deterministic simulation with fault injection: seeded search over schedules, deliveries and faults of the instrumented library"
extra = {"C05": " + race detector on simulated schedules", "C12": " + race detector on simulated schedules", "C16": " + race detector on simulated schedules"}
na = {
 "C31": "Agreement with nginx's grammar is a pure function of the input bytes; what depends on delivery and schedule is C01.",
 "C32": "Directive validation is a pure function of one statement and static tables.",
 "C33": "Which arguments get quotes is a pure function of one string; that quoting loses nothing is part of C19.",
 "C35": "Equality is a pure function of two values.",
 "C36": "Static data against the source trees of other projects, which are not available here; nothing runs.",
}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
ids = [p["id"] for p in props]
m = {"version": 1, "setup_cmd": "./check.sh setup", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the instrumentation is generated from the working tree into a go build overlay outside /repo (instrument/), so the shipped sources stay as they are. './check.sh replay FILE' re-executes a replay file."}
for i in ids:
    if i in na:
        m["not_applicable"].append({"property": i, "reason": na[i]})
    else:
        m["checks"].append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": tech + extra.get(i, ""), "level": "exploration", "level_note": trust + T[i]})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
