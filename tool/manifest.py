#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks and tool/na.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
T = "deterministic simulation with fault injection: "
checks = {
 "C01": ("seeded failing, short and transient writers under every serialization API", "Sampled: failure kind, byte or call position, error value, document, serialization API, earlier dumps. The oracle is exact: a fault that fired must be reported, with its cause."),
 "C02": ("seeded faulty writers and readers of what they hold at every call", "Sampled. The oracle is byte equality with the fault-free serialization after every single Write."),
 "C03": ("seeded dumps, faults and interleavings over one tree, deep snapshots before and after", "Sampled histories and schedules; the snapshot compares every link, name and content of the tree."),
 "C04": ("seeded callback failures (errors and panics) against the recorded event history", "Sampled: callback position, error value, handler kind, document. The oracle is the event list of a model of the generated document."),
 "C05": ("seeded handlers that appear, disappear and fail, against a model's event history", "Sampled subsets of handlers and points at which they change; events of the remaining handlers must match the model."),
 "C06": ("seeded scribbling over everything a callback is handed, memory recycling, schedules", "Sampled; recycled pool memory is poisoned so that a retained slice is seen to change."),
 "C07": ("seeded storage and transit faults on inputs, step budget as bounded liveness", "Sampled damage of generated documents; runaway recursion and step budgets decide termination, panics are caught."),
 "C08": ("seeded crash points: every document is cut at sampled and at structural bytes", "Sampled cut positions (dense on short documents); the events before the error are compared with the model's."),
 "C09": ("seeded scheduler over concurrent parses, dumps and walks; race detector build of the same runs", "Sampled interleavings at statement granularity. Outcomes are compared with solo outcomes. The race build sees only the code's own synchronisation."),
 "C10": ("seeded histories of failed, aborted and panicked parses, compared with a fresh parser", "Sampled histories on shared and separate parsers under every pool policy."),
 "C11": ("seeded overwriting of inputs and buffers, other documents' mutation, memory recycling", "Sampled; deep snapshots before and after."),
 "C12": ("seeded map orders, pool states and collections; repeated executions compared", "Sampled; each run repeats the same parse and dump under different environments and compares everything observable."),
 "C13": ("simulated process (files, streams, descriptors, exit) with a seeded scheduler and I/O faults", "Sampled fault sequences and interleavings of the real main function; status and diagnostic are decided by what fired."),
 "C14": ("simulated process with a seeded scheduler and I/O faults, output compared with a model", "Sampled; the oracle is the library's own serialization of each input, in order."),
 "C15": ("seeded nested parses and dumps from callbacks and writers, with failures", "Sampled nesting positions and depths; inner and outer outcomes are compared with solo outcomes."),
 "C16": ("seeded failures, panics and nested operations inside of walks, interleaved walks, against the links of the tree", "Sampled trees, start nodes, calls that fail, nesting and schedules. The oracle is a plain enumeration of the links."),
 "C17": ("seeded early ends (errors, panics, damage) and schedules; what still runs is run on and watched", "Sampled operations, faults and schedules. The simulator knows every goroutine, so one that waits for ever is seen; a number that does not grow with repetition is tolerated."),
}
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "checks": [{
   "property": p, "quick_cmd": "VERIF_TIER=quick ./check.sh " + p, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p,
   "evidence_file": "evidence/%s.json" % p, "technique": T + t, "level": "exploration",
   "level_note": n + " Trusted: the simulator (rt/zzsim), the instrumenter, and the document generator (sim/doc.go). A clean batch is evidence, not proof.",
 } for p, (t, n) in sorted(checks.items())],
 "not_applicable": json.load(open(os.path.join(here, "na.json"))),
 "notes": "No hooks in /repo: every check instruments a scratch copy of /repo's working tree (tool/instr), links it against the simulator runtime (rt/zzsim) and runs seeded simulations (sim). Replay: ./replay.sh FILE. Findings: known-findings.txt.",
}
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
