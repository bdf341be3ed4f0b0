#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
notes = {
 "C01": "Seeded search: recordings of simulated matches, real demos and forged bytes after relay and disk faults, given to all public functions; panics, aborts, signals, stack overflow, step budget and memory cap are caught per process.",
 "C02": "Seeded search over crash points: what is read from the cut recording against what is read from its whole frames (independent framing), growth between crash points, and validity of prefixes.",
 "C03": "Seeded search over interleavings at edge granularity of 1 to 4 reader tasks, buffer reuse, hash seeds, clock and time zone, against each call alone in a fresh process. Atomics are explored as sequentially consistent.",
 "C04": "Seeded search with an accounting allocator; bound 256 KiB plus 160 bytes per byte (2500 for the readers of the statistics dump), measured maxima in the evidence.",
 "C05": "Seeded search: simulated matches, relay faults, read back and compared message by message with the history kept by the simulator.",
 "C06": "Seeded search: obituaries of every wording in simulated matches, compared with the score the simulator kept.",
 "C07": "Seeded search: marks in every order and packing, frame times in every length, compared to the millisecond with the simulated clock.",
 "C08": "Seeded search: full and partial ping rounds, compared with the simulator's own averages.",
 "C09": "Seeded search: sign-ons with gaps, odd names, spectators and bots, compared with the simulated roster.",
 "C10": "Seeded search: players and teams against a model joined from the simulated history, with and without statistics dump, and on player values.",
 "C11": "Seeded search: dumps in any splitting whose blocks are lost, repeated, swapped, interrupted or torn, byte for byte against what was written.",
 "C12": "Seeded search: every ending, crash anywhere, recordings around the minimum size; verdicts against what the simulator knows happened.",
 "C13": "Seeded search: server clocks over the whole epoch range and zones in every notation, compared with the simulated wall clock.",
 "C14": "Seeded search: capture-the-flag matches with whole and split announcements packed in every way, compared with the simulated counts.",
 "C16": "Seeded search: a recording and one six times as long made of the same things, relayed with faults; steps are counted exactly (edges, not time), so a run is repeatable. Allowed: 1.7 times in proportion plus 60000 steps, and one step per byte.",
 "C17": "Seeded search: everything asked about a recording after relay and disk faults, or forged; the answers are compared with each other and with an independent framing.",
 "C15": "Seeded search: overwriting one frame body or losing a range of frames, differential and against the model of the undamaged rest.",
}
reasons = {
 "D01": "A constant table looked up by one key: no schedule, clock, fault or history for it to depend on; simulation would be input generation by another name. (C13 meets the zones it uses.)",
 "D02": "A pure function of single bytes inside a dependency: nothing to simulate. (Where decoding matters to a history, C05, C06, C09 and C14 meet it.)",
 "D03": "A field by field copy of one value into another: nothing to simulate. (C11 compares the fields of every dump it delivers.)",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in notes:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "deterministic simulation with fault injection",
            "level": "exploration",
            "level_note": notes[i] + " A clean batch is evidence, not proof; trusts the simulator's recorder and model (DESIGN.md).",
        })
    else:
        na.append({"property": i, "reason": reasons[i]})
json.dump({
    "version": 1,
    "setup_cmd": "./build.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: randomness, clocks, memory and scheduling are interposed at the process boundary and by compiling the crate with edge instrumentation (sim/rustc-seam.sh). Known and fixed findings: known-findings.txt.",
}, open(f"{root}/MANIFEST.json", "w"), indent=1)
open(f"{root}/MANIFEST.json", "a").write("\n")
