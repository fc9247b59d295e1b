#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
T = {
 "C01": ("seeded search over thread schedules of concurrent encode/decode/size calls in one simulated process, judged call by call against a sequential reference model; race-detector build for data races", "real codec code, simulated scheduler and sync primitives; preemption at statements under sequential consistency, data races by the race-detector runs"),
 "C02": ("seeded search over histories and interleavings of first uses of generated type graphs with and without unsupported definitions, judged against the definition-only acceptance rule", "real descriptor building with simulated scheduling; type population is a catalog of generated Go types"),
 "C03": ("seeded search over encode/size histories and schedules on shared messages and reused buffers with poisoned spare capacity, judged by snapshots and the reference codec", "real encoder, simulated scheduler, allocator contents and pools"),
 "C04": ("seeded search over decode histories with buffer recycling, field smashing and appends between live messages, every live message re-read at arbitrary later points", "real decoder, simulated scheduler, allocator contents and pools"),
 "C05": ("differential simulation: the same seeded history under injected collections, pool misses/drops and poisoned or zeroed allocations; results and reachable values must agree and stay readable", "real codec and real Go collector forced at chosen statements; a concurrent collector's write barriers are not simulated"),
 "C06": ("seeded fault injection on inputs (truncation, corruption, crafted nesting, lengths) inside histories with other calls; step, allocation and time bounds, strict wire-format oracle", "real decoder; reference wire parser decides well-formedness"),
 "C07": ("simulated exchanges with a conforming peer (reference codec choosing every legal encoding variation) over histories with duplicated, reordered and retransmitted messages and reused objects", "peer is a reference model, not the official protobuf library (none available offline)"),
 "C08": ("simulated cluster of services with different schema versions: network loss, duplication, reordering, delay, partitions, crashes with torn journals, upgrades and downgrades; end-to-end no-field-lost check per hop and at the reader, progress after faults stop", "real codec at every node; network, clocks, crashes simulated"),
 "C09": ("seeded search over runs of the real generator (command and library) on a simulated file system that fails at drawn system calls (errors, short transfers, interrupts, full or dying disks) and on damaged inputs; a reported success is compared with a fault-free reference run, which is compared with the schema model", "real prutalgen and standard library above package syscall; file system simulated"),
 "C10": ("seeded search over histories of runs with kills and power losses at drawn system calls (unsynced operations lost, torn writes), failing disks, schema changes, clock jumps and leftovers; a last run must equal a run in a clean tree, and nothing but outputs may change", "real prutalgen and standard library above package syscall; file system and crashes simulated"),
 "C11": ("seeded search over schedules of concurrent loaders and generators and over histories (reused loaders, failed loads, warm parser state), each result compared with the same operation alone in a cold process, and over process environments (map seeds, clock, pid, directories); race-detector build for data races", "real prutalgen and parser, simulated scheduler, synchronisation and file system"),
 "C12": ("seeded projects of proto files run through the real generator under varied invocations; the generated code is compiled into the simulated process and drives the simulated cluster of mixed schema versions with network faults, judged by the reference codec and a binding check against the schema model", "real prutalgen, real compiler, real codec; the schema model (psrc) is the oracle, no official protoc available offline"),
}
NA = {
 "C13": "a pure function of the input text: no schedule, fault, clock, I/O or history can change the outcome, so simulation with fault injection has nothing to inject; it needs input-space techniques (grammar fuzzing, differential parsing)",
 "C14": "a pure function of the literal: no nondeterminism or environment takes part; it needs exhaustive or symbolic enumeration of literals, not simulation",
}
PENDING = {}
for p in T: PENDING.pop(p, None)
m = {"version": 1,
 "setup_cmd": "/verif/run.sh setup",
 "checks": [{"property": p, "quick_cmd": f"/verif/run.sh check -property {p} -tier quick", "thorough_cmd": f"/verif/run.sh check -property {p} -tier thorough",
   "technique": "deterministic simulation with fault injection: " + t, "level": "exploration", "level_note": n} for p, (t, n) in sorted(T.items())],
 "not_applicable": [{"property": p, "reason": r} for p, r in sorted({**NA, **PENDING}.items())]}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
