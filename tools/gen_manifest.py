#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
SIM = "deterministic simulation: seeded search over "
TRUST = " Trusts the simulator (volume generator, device model, reference model), validated by the planted bugs; a search, not a proof."
C = {
 "C01": ("volumes, buffer partitions and short/interrupted device reads, bytes compared with a reference model", "Whole streams and partial reads of generated volumes against the generator's own mapping."),
 "C02": ("seek/read/clone histories on value readers, refinement against an array cursor", "Histories with seeks over the full 64-bit range and short/interrupted reads."),
 "C03": ("interleavings of tasks and device-cursor disturbances, each task's log compared with its isolated run", "Interleavings at operation granularity on one shared device and at device-call granularity of tasks with own device handles on one Ntfs. Data races inside the library are excluded by the types (no interior mutability), so device-call preemption points are enough."),
 "C04": ("placements of hard device faults (errors, timeouts, bad regions, premature end), outcome checked against the fault-free result", "Every faulted operation must give its fault-free result or the injected error."),
 "C05": ("placements of transient device faults with retry on the same handle, result checked against the fault-free history", "Bounded liveness: success within one retry once the faults stopped."),
 "C06": ("torn sector writes and concurrent writers at every device call, outcome checked against old and new version", "512-byte sector writes; any subset of a record's sectors; old and new record of the same structure."),
 "C07": ("structure-aware media corruption before and during sessions; panics, device calls, memory and item counts checked", "Built with overflow checks and debug assertions; memory limit 24 MiB per operation, device-call limits."),
 "C08": ("B-tree shapes, up-case tables, names and search histories, compared with a reference lookup", "Present, case-varied and absent names on every tree shape generated."),
 "C09": ("index shapes and iteration histories, compared with the generator's ordered entry list", "Directories and indexes with data, index records, root entries."),
 "C10": ("distributions of attributes over file records and Attribute Lists, compared with the generator's model", "Base and extension records, resident and non-resident lists, coinciding instance numbers."),
 "C11": ("stored field values and media changes after loading, getters compared with the generator's model", "All getters; values of loaded files stay as loaded."),
 "C12": ("geometries, MFT layouts, record numbers and illegal boot sector fields, compared with the generator's model", "All legal geometries the library documents; MFT with up to 7 fragments."),
 "C13": ("layouts and cursor histories, every reported position compared with the generator's mapping", "Positions of things stored in one piece and of every cursor position."),
 "C14": ("histories on well-formed volumes, bytes transferred in the device trace of each operation bounded by the model", "Upper bounds on device bytes per operation."),
 "C15": ("volumes, histories and faults, executed by both builds in lockstep, results and device traces compared", "std and no_std build in two processes, same scenarios."),
 "C16": ("replacements of metadata blocks (zeros, noise, misdirected or foreign blocks, bad sizes) at any moment", "Operations needing the replaced block must fail, all others must be unaffected."),
 "C17": ("read/seek histories and device faults on the sector reader, refinement against the plain device plus alignment check of the inner trace", "The example's reader itself and the whole library on top of it."),
 "C18": ("single undecodable elements (lengths, offsets, run headers, subnode references) at any moment and histories around them, compared with the model of the intact volume", "Operations that need the element may only fail; all others must be unaffected."),
}
LEVEL = {}
checks = []
for p, (t, n) in C.items():
    checks.append(dict(property=p, quick_cmd=f"./check.sh {p} quick", thorough_cmd=f"./check.sh {p} thorough",
        evidence_file=f"evidence/{p}.json", technique=SIM + t, level=LEVEL.get(p, "exploration"), level_note=n + TRUST))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks,
  not_applicable=[
    dict(property="N01", reason="Pure arithmetic on one integer: no I/O, time source, schedule or history a simulation could vary (the clock is only ever an argument). Deterministic simulation with fault injection has nothing to decide here; plain property-based testing or a proof would be the right tool."),
    dict(property="N02", reason="Settled by the types, not by behaviour under schedules or faults: the device only has to implement Read + Seek, so there is no way to write, and the crate forbids unsafe code. A simulation could only restate what the compiler enforces."),
  ],
  notes="No hooks in /repo: the library's only contact with the outside world is the Read + Seek parameter of its functions, which is the simulator's seam.")
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
