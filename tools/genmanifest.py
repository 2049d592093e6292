#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property simctl knows is claimed, the rest need a reason below."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, "..")
src = open(os.path.join(root, "sim/cmd/simctl/props.go")).read()
claimed = set(re.findall(r'^\t"(C\d+)":', src, re.M))
NOT = {
 "C90": "a pure function of its input: no schedule, clock, fault or interleaving for a simulator to decide. Segmentation is only exercised as part of C01-C14, whose model segments the same texts with the same segmenter.",
 "C91": "pure functions of their input: no schedule, clock, fault or interleaving for a simulator to decide.",
}
NOTE = {}
DEFAULT = ("Seeded exploration, not proof: real code of the components named in the evidence file runs under a scheduler that decides every interleaving, timer and fault; "
 "trusts the simulator, the source instrumentation and the reference model. ")
NOTE["engine"] = DEFAULT + "The store backend is a simulated disk."
checks, na = [], []
for l in open(os.path.join(root, "properties.jsonl")):
    i = json.loads(l)["id"]
    if i in claimed:
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation with fault injection: seeded search over schedules, faults and histories against a reference model",
            "level": "exploration", "level_note": NOTE.get(i, DEFAULT)})
    else:
        na.append({"property": i, "reason": NOT.get(i, "no check yet: its harness is being built")})
m = {"version": 1, "setup_cmd": "./setup.sh", "hooks": {"guard": "none: sources are instrumented into an overlay at build time", "enable": "go build -overlay (sim/cmd/instrument writes the overlay from /repo's working tree)", "source_commits": []},
     "checks": checks, "not_applicable": na, "notes": "See DESIGN.md. Replays: ./replay.sh FILE [-trace]."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
