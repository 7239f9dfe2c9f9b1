#!/usr/bin/env python3
# writes MANIFEST.json; DONE lists the properties that have a check
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HIST = "explicit-state model checking: exhaustive enumeration of operation histories on the real service in lockstep with a reference model (state deduplication)"
ENUM = "bounded exhaustive enumeration (explicit exploration) of requests against an independent reference model, on the real service"
CRASH = "exhaustive crash-point and torn-write enumeration of operation histories on the real storage"
IO = "exhaustive fault-point enumeration (every system call, every error, short transfers) on the real storage"
SCHED = "stateless model checking: preemption-bounded exhaustive schedule exploration of concurrent requests on the real code, linearizability check against the reference model"
ABORT = "exhaustive enumeration of interruption points (every transport failure point, every cancellation point) of uploads on the real service"
C = {
 "S01": (HIST, "model_checking", "All histories up to the depth printed in the evidence over the stated alphabet of operations, keys and contents; the real code is executed on every transition. Assumes that the file system behaves as POSIX says, and trusts the reference model of about 300 lines."),
 "S02": (HIST, "model_checking", "All histories over bucket and object operations on two buckets up to the stated depth, on the real code, compared with the reference model after every transition."),
 "S03": (HIST, "model_checking", "All reachable sets of the key alphabet, each with every prefix and encoding of the alphabet, on the real code. Pagination, delimiters and max-keys are not part of the property."),
 "S04": (HIST, "model_checking", "All histories of multipart operations over two uploads and small part numbers up to the stated depth, on the real code, compared with the reference model."),
 "S05": (ENUM, "exploration", "Every object size and range of the stated bounds, and the boundary values of the buffer sizes and of 64 bit; the expected bytes come from an independent reading of the range grammar."),
 "S06": (ENUM, "exploration", "Every placement of every traversal and alias component of the alphabet, up to the stated length, in every part of every operation that names a path; every file system call is intercepted, so an access outside the root is seen whether or not it would succeed."),
 "S07": (ABORT, "fault_enumeration", "Every upload operation of the table is interrupted at every body chunk, every poll and by every kind of rejected body; the whole observable state is compared before and after."),
 "S08": (SCHED, "model_checking", "All schedules of the listed pairs, triples and pairs of sequences of concurrent requests with at most the stated number of preemptions, where a scheduling point is every system call on a shared file, every body chunk and every lock operation. Assumes that user code between system calls is atomic (the storage shares no memory except one async mutex)."),
 "S09": (CRASH, "fault_enumeration", "Every prefix of the mutating system calls of every operation of the table, with every write also torn, then a restart and a comparison of the whole observable state with the states before and after the operation. Process crash only: what a completed system call wrote is assumed to survive."),
 "S10": (IO, "fault_enumeration", "Every system call of every operation of the table fails once with every listed error or transfers fewer bytes; single faults only."),
 "S11": (HIST, "model_checking", "All histories of copies, writes and deletions over the stated keys up to the depth, on the real code, compared with the reference model."),
 "A01": (ENUM, "exploration", "Every single alteration of the catalogue (every character position of every signed component of every base request) with a real signature computed by an independent SigV4 implementation; the recording storage shows whether the request had an effect."),
 "A02": (ENUM, "exploration", "Every combination of the alphabets of paths, queries, headers and payload modes up to the stated size, signed by an independent SigV4 implementation."),
 "A03": (ENUM, "exploration", "Every validity period of the table at every clock offset around the boundaries, with the clock of the process controlled."),
 "A04": (ENUM, "exploration", "Every chunk structure of the bounds with every split of the body in two or three pieces, and every alteration of the catalogue."),
 "A05": (ENUM, "exploration", "Every form of the table with every split of the body in two or three pieces and every truncation."),
 "A06": (ENUM, "exploration", "Every condition kind of the table, fulfilled and violated, on correctly signed forms."),
 "R01": (ENUM, "exploration", "The complete product of methods, resources, sub-resource parameter sets and selecting headers of the alphabet, compared with an independently written operation table."),
 "R02": (ENUM, "exploration", "Every parameter of every operation with every value of the value alphabet, alone and in pairs, delivered to a recording storage."),
 "R03": (ENUM, "exploration", "Every request of the malformed-request grammar up to the stated size and every storage outcome (every error code)."),
 "R04": (ENUM, "exploration", "Every bucket name over the representative alphabet up to the stated length and the length boundaries, compared with an independent reading of the rules."),
 "R06": (ENUM, "exploration", "The complete product of the option forms of the table, each started as a process and probed; all sequences of requests of the table up to the stated length on one connection, compared with separate connections; all splits of each request into two segments and all truncations."),
 "R05": (ENUM, "exploration", "Every output field of every operation with every value of the value alphabet, alone and in pairs, parsed from the response by an independent reader."),
}
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
src = open(f"{V}/mc/src/main.rs").read()
done = set(open(f"{V}/tools/done.txt").read().split())
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in done:
        t, l, n = C[i]
        m["checks"].append({"property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": t, "level": l, "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": "its check is not built yet"})
m["notes"] = "The harness interposes libc from its own crate, patches the crate `blocking` with a vendored copy that can run its tasks on the calling thread, and otherwise drives the unmodified public API of /repo; there are no hooks in /repo. known_findings.txt lists findings and fixes."
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1); open(f"{V}/MANIFEST.json", "a").write("\n")
