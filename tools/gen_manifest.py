#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
NOTE = ("Seeded search: a clean run is evidence, not proof. Real library code (release build, whole crate) under a "
        "simulated allocator, scheduler, sinks and callers; sequentially consistent interleavings at basic blocks and "
        "at accesses to lasting memory. Trusts the reference model in sim/src/model.rs, which 'nomsim selftest' compares "
        "with the library, and rustc's sanitizer-coverage instrumentation. ")
T = {
 "C01": ("deterministic simulation: seeded memory refusals at every growth point, against a reference model of every system",
         "Both builds; fault patterns: refuse all, byte budget, arbitrary masks over requests, ceilings."),
 "C02": ("deterministic simulation: seeded memory refusals, infallible calls against a reference model",
         "Both builds, direct and through Box/Rc/Arc and dyn."),
 "C03": ("deterministic simulation: seeded operation histories with memory refusals, refinement against String",
         "Both builds."),
 "C04": ("deterministic simulation: histories under an allocator that refuses everything, counting requests",
         "Heap build only (the other has no heap)."),
 "C05": ("deterministic simulation: seeded refusals and unwinding under an allocator ledger with redzones",
         "Heap build only. Addresses are never reused, released blocks are poisoned and re-checked."),
 "C06": ("deterministic simulation: seeded scheduler interleaves callers inside calls; results against the call alone",
         "Both builds; real threads released one at a time."),
 "C07": ("deterministic simulation: long seeded histories of calls and faults; results against the call alone",
         "Both builds."),
 "C08": ("deterministic simulation: seeded sink failures and panics; output against the same text as a str",
         "Both builds."),
 "C09": ("deterministic simulation: the same seeded history in two builds in lockstep",
         "Runs both builds and compares every result."),
 "C10": ("deterministic simulation: simulated step clock with bounds per call under seeded memory refusals",
         "Both builds; the present code stays below 30 % of the bound. Steps are executed basic blocks, so work inside memmove is not counted."),
 "C11": ("deterministic simulation: callers killed at seeded instants inside calls; bounded progress of the rest",
         "Both builds."),
 "C12": ("deterministic simulation: panics injected at seeded call-outs into caller-supplied code",
         "Both builds, all adapters and wrappers."),
 "C13": ("deterministic simulation: caller-supplied collections that grow at seeded instants and check every request",
         "Both builds."),
}
N = {
 "P01": "The numeral of a positional system", "P02": "The word of an alphabetic system", "P03": "The value of an additive numeral",
 "P04": "The reading of a Chinese numeral", "P05": "The Ethiopic numeral", "P06": "The range of a finite set",
 "P07": "Independence of the integer width",
}
m = {
 "version": 1,
 "setup_cmd": "python3 check.py --build",
 "checks": [{
   "property": p,
   "quick_cmd": f"python3 check.py {p}",
   "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
   "evidence_file": f"evidence/{p}.json",
   "technique": t,
   "level": "exploration",
   "level_note": n + " " + NOTE.strip(),
 } for p, (t, n) in T.items()],
 "not_applicable": [{
   "property": p,
   "reason": w + " is a pure function of the input: it involves no schedule, clock, fault, history or other party, so there is nothing for a simulator to decide. (The reference model of sim/src/model.rs covers it as a by-product, as the oracle of C01 and C02.)",
 } for p, w in N.items()],
 "notes": "No hooks in /repo: the seams are the allocator, the compiler's coverage callbacks, and the traits callers implement. Replay a violation with 'python3 check.py --replay FILE'. NOMSIM_SECS overrides the search time. known_findings.txt lists repaired defects; it suppresses nothing.",
}
with open(os.path.join(here, "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
