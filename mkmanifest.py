#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
T = "deterministic simulation: seeded scheduler over every basic block, load and store of the real library, with fault injection"
TRUST = ("Sampled, not exhaustive. Trusts the compiler's instrumentation passes, the reference model (checked against the "
         "FIPS-197 vectors at every start) and qemu for non-x86 targets; memory is sequentially consistent in the simulation.")
N = {
 "C01": "Seeded search over thread interleavings at instruction-level scheduling points on every backend; every result compared with a FIPS-197 model.",
 "C03": "Seeded kills and unbounded stalls at arbitrary points inside calls; survivors' progress is bounded in their own steps and their results checked.",
 "C04": "Seeded interrupts at arbitrary points inside calls, nested, whose handlers use the same objects; all results checked, handlers must return.",
 "C05": "Seeded misuse amid other callers; destination bytes, caught refusal and later calls checked against the model.",
 "C06": "Seeded fragmentation of streams into short reads; value, error and every byte read are checked against what had been received.",
 "C07": "Seeded sink failures at arbitrary writes in every rendering; protocol and accepted prefix checked.",
 "C08": "Seeded lossy network between encrypting and decrypting parties with crashes and partitions; delivery judged once faults stop, damage judged per block.",
 "C09": "Seeded long histories with object reuse, drops, rebuilds, moves and poisoned memory; each call repeated against the model; image statics watched.",
 "C10": "Every load and store of the library checked against the extents of its arguments while neighbours run at arbitrary interleavings; guard pages at buffer ends.",
 "C11": "Self-composition: the same schedule with other secrets must produce the same sequence of executed positions and touched addresses.",
 "C12": "The same logs applied by replicas on all builds, also after crash and failover from raw bytes; answers compared between replicas, builds and with the model.",
 "C13": "The allocator refuses every request while calls run at arbitrary interleavings; any request inside a call is a violation.",
 "C14": "Everything outside refuses while calls run at arbitrary interleavings: system calls are trapped, clock, cycle counter, processor identification and environment too; any request inside a call is a violation.",
 "C15": "Calls run on a limited stack at arbitrary interleavings with slices and key lists of any length; the stack position is checked at every event.",
 "C16": "Every call of every caller runs under its own random rounding, denormal, exception-mask and sticky-flag state at arbitrary interleavings; results are checked and the state compared afterwards.",
 "C17": "Every call's own steps are counted at arbitrary interleavings, with stalled and killed callers and long histories; more than a small multiple of what such a call takes alone on the same build is a violation.",
}
checks = []
for i in range(1, 18):
    p = "C%02d" % i
    c = {"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
         "level": "exploration"}
    if p == "C02":
        c["technique"] = (T + ", with vector-clock race detection and seeded stale atomic reads; and the real library "
                          "in an interpreter (Miri) under a seeded scheduler with weak-memory choices and callers killed by panics")
        c["level_note"] = ("Seeded search, not exhaustive. Compiled code of every backend: races on statics, stale publication, "
                           "accesses outside the arguments. Interpreter, x86 and portable backends only (NEON and RISC-V cannot be "
                           "interpreted): every other kind of undefined behaviour. Trusts Miri, the compiler's instrumentation "
                           "passes and qemu for non-x86 targets.")
    else:
        c["technique"] = T
        c["level_note"] = N[p] + " " + TRUST
    checks.append(c)
PURE = " It has no schedule, time, fault or party in it: a pure function of its input, which simulation cannot decide better than input generation."
na = {
 "N01": "One call on its own, all inputs." + PURE + " Its consequences under interleavings, faults and histories are C01, C09, C12.",
 "N02": "Round trip of one call pair, all inputs." + PURE,
 "N03": "Algebra of one conversion, all keys." + PURE,
 "N04": "Algebra of round primitives, all blocks." + PURE,
 "N05": "Lane-by-lane equality of single calls, all inputs." + PURE,
 "N06": "Round trips of single conversions, all inputs." + PURE,
 "N07": "Text of one rendering, all values and flags." + PURE + " Rendering under failing sinks is C07.",
 "N08": "A statement about the compiler's acceptance of configurations; nothing executes, so there is nothing to simulate.",
}
json.dump({
 "version": 1,
 "setup_cmd": "python3 check.py setup",
 "checks": checks,
 "not_applicable": [{"property": k, "reason": v} for k, v in na.items()],
 "notes": "No hooks in /repo: the seams are compiler instrumentation of the library, its trait-object-free arguments "
          "(slices, formatters), the allocator and the libc symbols its images import. python3 check.py replay FILE "
          "re-executes a replay file.",
}, open("MANIFEST.json", "w"), indent=1)
