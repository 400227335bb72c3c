#!/usr/bin/env python3
"""Writes MANIFEST.json. Run from anywhere."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
LIB = "real rx509 code in one process under a seeded scheduler; simulated store, allocator limits, "
TOOL = "real decoder binary, its system calls and allocations answered by an interposed simulated OS; "
TRUST = " Seeded search, not exhaustive. Trusts the simulator's reference model and its libc/allocator interposition."
checks = {
 "C01": (T + "seeded storage faults on stored certificates, every operation run on a bounded stack", LIB + "storage faults incl. nest bombs; panics, signals, stack and step limits are the verdict."),
 "C02": (T + "seeded truncation, cut and lying-length faults at every structure of a stored certificate", "Truncation is injected at known structures of generated certificates; decode success of the containing structure is the violation."),
 "C03": (T + "seeded residue, duplicated-block and trailing-data faults at every structure", "Extra bytes are injected at known structures of generated certificates; decode success of the structure that carries them is the violation."),
 "C04": (T + "seeded storage faults, accepted files re-assembled from what was handed out", "What an accepted decode hands out is re-encoded and compared with the stored file. One recorded finding (known-findings.txt) is reported and not raised."),
 "C05": (T + "write, damage one field, read back against the written record", "Oracle is the record the certificate was generated from, not a second decoder."),
 "C06": (T + "seeded histories and interleavings of decodes, walks and reports across tasks, nested and abandoned calls", "Oracle is the outcome of the same operation in a fresh process. Interleavings switch at allocator, callback, clock and futex points and at every basic block, load and store of rx509."),
 "C07": (T + "receiver abandoning walks at any notification, storage faults between notifications", "Oracle is an independent reference walk."),
 "C08": (T + "sinks abandoning reports at any call, concurrent and nested reports, damaged names and extensions", "Oracle is an independent reference report."),
 "C09": (T + "seeded lying headers and nest bombs under a metered allocator", "The peak of requested memory and the notification count are measured per operation against a linear bound."),
 "C10": (T + "short reads, EINTR, wrong or changing sizes, short writes in the simulated OS", TOOL + "oracle is the fault-free execution on the same bytes and the reference report."),
 "C11": (T + "open, stat and read failures at every call of the simulated OS", TOOL + "any decoded output or success status after a failed read is the violation."),
 "C12": (T + "failing, full and short writes at every call of the simulated OS", TOOL + "delivered bytes must be a prefix of the fault-free report, the status must show the loss."),
 "C13": (T + "mixed storage, read, write and memory faults on the whole tool", TOOL + "success status with silent stderr must mean accepted file and full report; without faults the report must equal an independently written one."),
 "C14": (T + "memory refused at the k-th request of the tool", TOOL + "success must come with the full report, failure with an exact prefix."),
 "C15": (T + "simulated wall clock with jumps, steps back and extreme dates", LIB + "simulated clock_gettime."),
 "C16": (T + "simulated wall clock stepped around the validity bounds of generated certificates", LIB + "simulated clock_gettime; oracle is a separate civil-calendar computation."),
 "C17": (T + "seeded encoding faults (length, tag and content octets) at every element of stored certificates and documents", "Judge is an independent reference decoder and walk, on what is refused, what is accepted and the value read. The injected faults are storage faults; there is no schedule to vary."),
 "C19": (T + "seeded misplacement, repetition, loss and replacement of elements in stored certificates", "Judge is an independent reference decoder, on what is refused, what is accepted and every field read. The injected faults are storage faults; there is no schedule to vary."),
 "C23": (T + "seeded growing inputs, nest bombs, lying and cut ends under a metered processor and allocator", "Steps are basic blocks, loads and stores of rx509, bulk moves and memory requested; each is held against a linear bound and against the same family at a quarter of the size. Work inside precompiled parts of the standard library other than bulk moves is not counted."),
 "C24": (T + "content, read, write, seek and memory faults in the simulated OS, every call with an outside effect recorded and not carried out", TOOL + "any recorded call is the violation."),
 "C25": (T + "the named file replaced or removed between any two calls of the tool", TOOL + "oracle is the fault-free execution on either version alone."),
 "C26": (T + "seeded histories of decodes, walks and reports, failed and abandoned ones included, under a metered allocator", "The oracle is the balance of memory obtained and returned in the library."),
}
na = {
 "C18": "Pure arithmetic on one to four bytes: no scheduling, time, I/O or fault can change the outcome.",
 "C20": "Constant lookup table: no nondeterminism to simulate; a table comparison would decide it, which is not this technique.",
 "C21": "Pure iteration over an immutable byte slice: no nondeterminism to simulate.",
 "C22": "Fixed text per error value: no nondeterminism to simulate.",
}
m = {"version": 1, "setup_cmd": "./check.sh --build", "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in na.items()],
 "notes": "No hooks in /repo: every seam is at the libc and allocator boundary (see DESIGN.md). ./check.sh --replay FILE re-executes a recorded violation; ./check.sh --sim determinism re-executes runs of every property and compares their hashes."}
for k, (t, n) in checks.items():
    m["checks"].append({"property": k, "quick_cmd": f"./check.sh {k} quick", "thorough_cmd": f"./check.sh {k} thorough",
        "evidence_file": f"evidence/{k}.json", "technique": t, "level": "exploration", "level_note": n + TRUST})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
