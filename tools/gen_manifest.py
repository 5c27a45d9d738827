#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed checks."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
T = "deterministic simulation with fault injection: seeded search over "
CLAIMED = {
 "C01": ("tick, reconfiguration and clock-fault histories of PID controllers against a double-precision law", ""),
 "C02": ("sample, reset, reconfiguration and memory-fault histories of filters against the recurrence", ""),
 "C03": ("mesh builder call histories with misuse and memory faults against a reference polylist", ""),
 "C04": ("scene builder histories with memory faults, exports read back independently", ""),
 "C05": ("failing output sinks (disk full, I/O error, short writes, throwing sinks) under every writer", ""),
 "C06": ("generated and damaged URDF documents, read faults and memory faults against an independent validity model", ""),
 "C07": ("edit histories with memory faults, tree answers compared with a reference model and a fresh load", ""),
 "C08": ("re-rooting and frame transport histories against double-precision forward kinematics", ""),
 "C09": ("squashing and fixing histories against double-precision mass properties", ""),
 "C10": ("documents, options and failing builder calls against an independent expected call sequence", ""),
 "C11": ("call histories over builder chains with failing inner layers and memory faults", ""),
 "C12": ("animation edit histories with memory faults against a reference model", ""),
 "C13": ("save/crash/reload histories on a simulated disk with torn and lost writes", ""),
 "C14": ("schedules of concurrent callers switched at memory accesses under a controlled scheduler, with memory and callback faults", "Real library code compiled from /repo's working tree with every memory access a possible switch point runs as two to four callers under a seeded scheduler with a happens-before race detector; no violation on the runs explored. Switches happen in library and header code, not inside libstdc++.so or libc. Trusts the scheduler, the reference digests and the compiler; counts and fault kinds are in the evidence file."),
 "C15": ("value printing histories on shared and failing streams against reference formatting", ""),
 "C16": ("velocity profiles on jittered, dropped and duplicated clock ticks against double-precision odometry", ""),
 "C17": ("histories of aliased and in-place value operations against a double-precision register file", ""),
 "C18": ("visitor decision patterns and throwing callbacks against a reference traversal", ""),
 "C20": ("goal, replanning, localisation-jump, late-plan and memory-fault histories of a driving robot against the four tangent paths in double precision", ""),
 "C21": ("walks under late, lost, repeated and reordered step commands and memory faults against exact convex geometry", ""),
 "C22": ("map, heading and observation histories with lost and repeated samples, throwing visitors and memory faults against double-precision definitions", ""),
 "C23": ("robots exchanging poses with lost, repeated, held and reordered messages, clock jumps over the whole range and restarts from a recording, against double-precision algebra and exact time arithmetic; libqi and roscpp types are stand-ins", ""),
 "C19": ("documents, rewriting rounds and throwing callbacks against a reference rewrite", ""),
}
NA = {
 "C24": "SWIG and the Python development files are not available here and the bindings are off in the pinned build: their code is generated by SWIG, so there is nothing to compile or run in the simulator",
}
checks = []
for i in ids:
    if i in CLAIMED and os.path.exists(os.path.join(HERE, "scenarios", i + ".cpp")):
        t, note = CLAIMED[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": T + t, "level": "exploration",
                       "level_note": note or "Real library code compiled from /repo's working tree with ASan/UBSan runs under seeded simulation; no violation on the runs explored. Trusts the reference model, compiler and sanitizers; counts and fault kinds are in the evidence file."})
na = [{"property": i, "reason": NA.get(i, "check under construction")} for i in ids
      if i not in [c["property"] for c in checks]]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "none", "enable": "no hook was needed in /repo: every seam is an interface, a stream, a callback, the global allocator or compiler instrumentation", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Each check compiles the library sources of /repo with the simulator (sim/) and one scenario (scenarios/<id>.cpp). Replay a failure with: python3 check.py <id> replay <file>."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print([c["property"] for c in checks], [x["property"] for x in na])
