#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+/TLC: "
PX = T + "Proxy.tla checked exhaustively on a small instance; scripts generated from it run on the real server in a deterministic simulation (seeded schedules); every recorded execution validated against the specification"
NOTE = "design exhaustive for one small instance; the code is bound by validating thousands of recorded executions (sampled scripts and schedules)"
CHECKS = {}
for p in "C01 C02 C03 C04 C05 C06 C10 C16 C17".split():
    CHECKS[p] = (PX, NOTE)
ST = T + "ConfigStore.tla checked exhaustively on a small instance; scripts generated from it run on the real store in a deterministic simulation (seeded schedules); every recorded history validated against the specification"
for p in "C13 C14 C15".split():
    CHECKS[p] = (ST, NOTE)
LF = T + "Server.tla and OneTimeEvent.tla checked exhaustively on small instances; scripts generated from them run on the real code in a deterministic simulation (seeded schedules, in-memory network); every recorded execution validated against the specification"
for p in "C11 C12".split():
    CHECKS[p] = (LF, NOTE)
WR = T + "%s checked exhaustively for short inputs; inputs generated from it (and at random over the same fields) given to the real code; every recorded outcome validated against the specification"
CHECKS["C19"] = (WR % "Dsn.tla", "design exhaustive for a few values of every part of a URL; the code is bound by validating thousands of sampled URLs")
CHECKS["C20"] = (T + "Inspector.tla checked exhaustively on a small instance (a client that follows it always returns what it allows); databases, calls and failures generated from it, run on the real inspector and driver against a database of the harness; every recorded execution validated against the specification", NOTE)
for p, m in (("C07", "Framing.tla"), ("C08", "Codec.tla"), ("C22", "Buffer.tla")):
    CHECKS[p] = (WR % m, "design exhaustive for short inputs; the code is bound by validating tens of thousands of sampled inputs")
CHECKS["C09"] = (T + "Proxy.tla with arbitrary garbage in the simulation (recorded executions validated), Codec.tla and Framing.tla with measured allocations, floods", NOTE + "; memory is measured against a generous allowance")
CHECKS["C18"] = (T + "Reload.tla checked exhaustively on a small instance, Watcher.tla (how the program watches the file) checked to refine it; histories of the file generated from it performed against the built program; every recorded execution validated against the specification", NOTE)
CHECKS["C21"] = (T + "Cli.tla checked exhaustively for short argument lists; command lines and configuration files generated from it given to the built program and, with a stand-in server, to the command line code; every recorded execution validated against the specification", "design exhaustive for argument lists of up to three; the code is bound by validating thousands of sampled command lines")
CHECKS["C23"] = (T + "Residue.tla checked exhaustively on a small instance (and shown to be out of bounds when any one kind of thing is kept); scripts generated from it run on the real server and store in a deterministic simulation; what is reachable and running is counted at rest and every recorded history of counts validated against the specification", NOTE + "; what is kept is what the garbage collector finds reachable")
PENDING = "check not built yet"
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {p["id"]: PENDING for p in props if p["id"] not in CHECKS}
m = {"version": 1, "setup_cmd": "bash bin/setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": "python3 bin/check.py " + p["id"],
                 "thorough_cmd": "python3 bin/check.py " + p["id"] + " --thorough", "technique": CHECKS[p["id"]][0],
                 "level": "model_checking", "level_note": CHECKS[p["id"]][1]} for p in props if p["id"] in CHECKS],
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
