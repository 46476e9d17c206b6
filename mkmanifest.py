#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
T = "deterministic simulation with fault injection: "
tech = {
 "C01": "seeded short writes, interrupts, refusals, write and flush errors at a simulated writer; delivered bytes against the fault-free run",
 "C02": "seeded error injection at any writer call; error identity, silence afterwards, prefix of the fault-free stream",
 "C03": "seeded acceptance patterns and writer layers; byte identity",
 "C04": "simulated disk under the libc calls (ENOSPC, EIO, EDQUOT, EFBIG, EINTR, short writes); file content against the in-memory stream",
 "C05": "simulated sender and independent decoding receiver; header model and per-coefficient error bound",
 "C06": "seeded damage of the stored stream, resynchronising receiver; untouched restart intervals against the undamaged decode",
 "C07": "seeded scheduler over real threads with basic-block preemption and nested callbacks; each result against its solo run",
 "C08": "seeded histories with failures, panics, abandonment and rejected calls; final encode against a pristine process",
 "C09": "seeded hosts (CPU features, build flavour, address width, byte order, heap content, placement, guard pages); byte identity",
 "C10": "faulty row source (panic, short, long rows) under the real encoder; request log and containment checks",
 "C11": "seeded crash at any basic block or seam call; what survives on sink, buffer layer or file against the true stream",
 "C12": "seeded cuts of the stream after any scan; progressive receiver against a sequential encode of the same image",
 "C13": "seeded reordering, interleaving, duplication and loss of segments in transit; profile reassembly",
 "C14": "simulated heap with budgets, allocation failure and accounting",
 "C20": "repeated seeded sequences of succeeding, failing, panicking, rejected and abandoned encodes; heap, descriptors and drops accounted",
 "C21": "seeded coding settings, hosts, faulty attempts and deliveries of one picture; decoded coefficients against each other",
 "C19": "progress within a bounded number of simulated steps, with writer and source faults",
}
level_note = ("Seeded search, no proof: exit 0 means no violation in the runs listed in the evidence file. The whole crate runs real code in five builds "
 "(std with debug checks, std+simd, no_std, no_std with 32-bit addresses, and for C09 no_std on a big-endian host); writer, file system calls, row source, heap, CPU detection, scheduler and receiver are simulated. Trusted: the harness "
 "in sim/ (its decoder and models are independent of /repo), rustc, the CPU.")
extra = {
 "C04": " The kernel is a stand-in: an in-memory disk behind interposed libc calls.",
 "C05": " The coefficient bound compares with an exact DCT of the source samples computed from the documented colour conversion and downsampling.",
 "C07": " Preemption is possible at every edge of the control flow graph of the crate, one thread running at a time: data races that need true parallelism on weak memory are out of reach (the crate has no shared mutable state to race on).",
 "C09": " AVX2 absence is simulated by masking run-time detection, 32-bit addresses by the x32 ABI, the big-endian host (small requests only) by Miri interpreting for s390x.",
}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
na = {
 "C15": "A pure function of three or four bytes: no schedule, clock, I/O, fault or history reaches it, so there is nothing for a simulator to decide. (What encode makes of the colours is judged under C05.)",
 "C16": "A pure table lookup of 9 tables by 100 qualities: nothing nondeterministic to simulate, enumeration would settle it. (The tables in delivered streams are judged under C05.)",
 "C17": "A pure function of a frequency vector: no nondeterminism or fault to simulate. (The tables in delivered streams are judged for legality and completeness under C05.)",
 "C18": "A pure name-to-number mapping: no nondeterminism or fault to simulate. (The factors in delivered streams are judged under C05.)",
}
m = {
 "version": 1,
 "setup_cmd": "./build.sh",
 "hooks": {
  "guard": "jpeg_encoder_sim",
  "enable": "RUSTFLAGS=\"--cfg jpeg_encoder_sim\" (build.sh); the hook lets the simulator hide AVX2 from run-time detection",
  "source_commits": ["6ac4bdf2213e59e20164e6c8bc7c4489b311383a"],
 },
 "checks": [], "not_applicable": [],
 "notes": "check.sh builds sim/ against /repo's working tree and runs `jpsim check ID`; replay.sh FILE re-executes a replay file. VERIF_SEED is the base seed, VERIF_TIER=thorough searches longer (JPSIM_SECONDS overrides the search time).",
}
for p in props:
    i = p["id"]
    if i in na:
        m["not_applicable"].append({"property": i, "reason": na[i]})
        continue
    m["checks"].append({
     "property": i,
     "quick_cmd": f"./check.sh {i}",
     "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
     "evidence_file": f"evidence/{i}.json",
     "technique": T + tech[i],
     "level": "exploration",
     "level_note": level_note + extra.get(i, ""),
    })
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
