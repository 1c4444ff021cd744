#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
C = json.load(open(f"{V}/checks.json"))["checks"]
NA = {"C16": "pure function of one container's own operation sequence: no schedule, clock, I/O, randomness, fault or second party for a simulator to control",
      "C17": "pure text conversion: no schedule, clock, I/O, randomness or fault for a simulator to control"}
props = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
TODO = "not claimed yet: its simulated workload is still being built"
man = {"version": 1, "setup_cmd": "make -s -j8 -f Makefile",
       "hooks": {"guard": "DRAMPOWER_SIM_CSV_CHUNK",
                 "enable": "compile the command-line tool with -DDRAMPOWER_SIM_CSV_CHUNK=4096 (Makefile target cli, used by C13 only): the trace reader then works in 4096-byte chunks instead of 10 MB ones, so that small traces cross chunk boundaries; undefined, the shipped 10 MB constant stands. All other seams (command time stamps, streams, files, threads, allocation) need no hook",
                 "source_commits": ["932d5d0736a9ad8586a9d9b5bc5a03a5a0ab53f1"]},
       "checks": [], "not_applicable": []}
for p in props:
    if p in C:
        man["checks"].append({"property": p, "quick_cmd": f"./check {p} --tier quick", "thorough_cmd": f"./check {p} --tier thorough",
                              "technique": "deterministic simulation with fault injection: " + C[p].get("technique", "seeded schedules judged against a reference model and differential runs"),
                              "level": C[p]["level"], "level_note": C[p].get("note", C[p]["rule"])})
    else: man["not_applicable"].append({"property": p, "reason": NA.get(p, TODO)})
json.dump(man, open(f"{V}/MANIFEST.json", "w"), indent=1); open(f"{V}/MANIFEST.json", "a").write("\n")
