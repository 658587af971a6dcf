#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the table below.
import json
T = "deterministic simulation with fault injection: "
LV = {}
def c(pid, level, tech, note):
    return {"property": pid, "quick_cmd": f"bash /verif/run.sh check {pid} quick", "thorough_cmd": f"bash /verif/run.sh check {pid} thorough",
            "evidence_file": f"/verif/evidence/{pid}.json", "technique": T + tech, "level": level, "level_note": note}
checks = [
 c("P01","exploration","seeded goroutine schedules, map orders, hash seeds, heap and link addresses against a calm reference run","whole program, one P; inputs from a seeded grammar"),
 c("P02","exploration","seeded clocks (start, pace, jumps, zone) with stamp-masked comparison","whole program"),
 c("P03","exploration","seeded schedules of helper producers, collector and writers; output type-checked and cross-checked with its C side","inputs limited to the tidy part of the grammar (DESIGN.md)"),
 c("P04","fault_enumeration","every mutating operation on the output of sampled runs times its error kinds, short and lost writes, full disks","fault points enumerated per sampled run, inputs and pairs sampled"),
 c("P05","fault_enumeration","every input read/open/stat and host-tool call of sampled runs times its error kinds","as P04; one known finding in a dependency"),
 c("P06","fault_enumeration","crashes, torn writes and loss of unsynced data at sampled output operations, then a run to completion","crash points sampled per run"),
 c("P07","fault_enumeration","all mutating system calls of sampled runs under faults and crashes checked for containment, beside foreign files","as P04"),
 c("P08","exploration","seeded schedules, terminal, disk and host-tool faults, damaged manifests; bounded work and simulated time","one known finding in a dependency"),
 c("P09","exploration","joint runs of several manifests under seeded schedules against each alone","whole program"),
]
na = []
def n(pid, why): na.append({"property": pid, "reason": why})
import os
done = {x["property"] for x in checks}
extra = os.path.join(os.path.dirname(__file__), "manifest_extra.py")
if os.path.exists(extra): exec(open(extra).read())
n("P16","a pure function of manifest and header: no schedule, clock, I/O or fault can change the answer, so simulation adds nothing over feeding inputs (P01 and P10 decide its independence of schedule)")
n("P17","a pure function of the header: the value of a constant depends on no schedule, clock, I/O or fault; deciding it needs an independent C evaluator over inputs, which is not this technique")
done = {x["property"] for x in checks} | {x["property"] for x in na}
for l in open("/verif/properties.jsonl"):
    p = json.loads(l)["id"]
    if p not in done: n(p, "no check yet: its simulator is being built")
m = {"version":1, "setup_cmd":"bash /verif/run.sh setup", "checks":checks, "not_applicable":na,
     "notes":"No hooks in /repo: the Go runtime, syscall, os/exec, maps and sync seams are compiled in through go build -overlay from /verif/sim/overlay. Replay a violation with: bash /verif/run.sh replay FILE. See DESIGN.md."}
json.dump(m, open("/verif/MANIFEST.json","w"), indent=1)
