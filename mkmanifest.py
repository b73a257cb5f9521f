#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of claimed checks below."""
import json, sys
TECH = "deterministic simulation with fault injection: "
claims = {
 "C01": ("seeded schedules over cold processes under the race detector, solo answers as reference", "exploration"),
 "C02": ("seeded schedules over cold processes under the race detector and table sweeps, longest-prefix model as reference", "exploration"),
 "C03": ("seeded call histories with simulated clock, random source and map order, solo answers as reference", "exploration"),
 "C04": ("seeded histories and schedules with every returned value overwritten, solo answers as reference", "exploration"),
 "C05": ("seeded histories with every argument compared and overwritten, and shared arguments under seeded schedules and the race detector", "exploration"),
 "C06": ("seeded parse histories into reused numbers against a fresh number", "exploration"),
 "C07": ("seeded typing sessions against a typed-text model at every keystroke", "exploration"),
 "C08": ("seeded interleavings of typing sessions on cleared, reused formatters, solo sessions as reference", "exploration"),
 "C09": ("seeded typing sessions against a position model at every keystroke", "exploration"),
 "C10": ("seeded schedules of shared, abandoned, nested and panicking search loops under the race detector, one undisturbed loop as reference", "exploration"),
 "C11": ("seeded searches under many budgets, prefix ordering and a simulated-step bound as invariants", "exploration"),
 "C12": ("seeded schedules mixing failing calls, panicking and exiting callbacks with ordinary calls, solo outcomes as reference", "exploration"),
 "C13": ("damage injected into every shipped data file, intact-data answers as reference", "fault_enumeration"),
 "C14": ("short reads and transient read and decompression errors injected under seeded schedules, fault-free answers as reference", "fault_enumeration"),
 "C15": ("the build command run in a simulated file system and git over synthetic releases with seeded map and directory orders, upstream model through the library's lookups as reference", "exploration"),
 "C16": ("an error, torn write or crash injected at every file-system and git operation of the build command, then a clean rerun", "fault_enumeration"),
 "C17": ("seeded histories of activating, nesting and restoring metadata, fresh processes with that metadata as reference", "exploration"),
 "C18": ("long seeded histories of fresh inputs with the retained heap and goroutines measured per epoch", "exploration"),
}
note = {
 "C01": "Every explored schedule had solo answers, no race report, deadlock or stall. Trusts the Go race detector, the source rewriter (statement-level preemption points) and the plain build of the same tree as the solo reference; preemption inside one statement or the standard library is not explored, though races there are still seen by the detector.",
}
default_note = "Held on every simulated run explored from the seed; a sample of schedules, histories and faults, not all of them. Trusts the rewriter and simulator runtime in /verif/overlay and the stated reference."
skip = set(sys.argv[1:])
na = {
 "N01": "Round-tripping is a function of one number and the metadata: no schedule, clock, I/O, fault or history takes part, so a simulator has nothing to decide.",
 "N02": "A relation between pure answers for one number; nothing nondeterministic is involved.",
 "N03": "Absence of panics over all strings is input-space coverage of pure functions, not a matter of schedules or faults; panics met during simulation are reported under the properties above.",
 "N04": "Symmetry of a pure comparison; nothing nondeterministic is involved.",
 "N05": "A relation between pure answers for one number; nothing nondeterministic is involved.",
 "N06": "Needs the upstream Java library as oracle, which is not available here, and is a pure function comparison.",
}
props = [json.loads(l) for l in open("properties.jsonl")]
checks, rest = [], []
for p in props:
    i = p["id"]
    if i in claims and i not in skip:
        t, lv = claims[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": TECH + t, "level": lv, "level_note": note.get(i, default_note)})
    else:
        rest.append({"property": i, "reason": na.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./check.sh setup",
     "checks": checks, "not_applicable": rest,
     "notes": "No hooks are committed in /repo: every seam is added at build time by rewriting the sources of the current working tree into a scratch directory and building them through go build -overlay (see DESIGN.md). The commits in /repo are fix: commits, listed in known_findings.txt."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
