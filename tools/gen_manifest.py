#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of properties that have checks."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INTERP = ("bounded exhaustive enumeration of inputs; the real crate is run on every enumerated case and compared with an "
          "independent reference interpreter (explicit-state exploration with conformance replay of every trace)")
DISK = ("bounded exhaustive enumeration of file sets and load histories, run on the real crate in a scratch directory and "
        "compared with a reference interpreter over a model file system")
VALS = ("bounded exhaustive enumeration of values and types; the real crate's operations on every one are compared with an "
        "independent model")
NOTE = ("Complete within the bounds listed per family in the evidence; nothing is claimed beyond them. Trusts the reference model "
        "(/verif/mc/src/model.rs, interp.rs) and num-bigint's basic integer arithmetic.")
T = {
    "C02": (VALS, NOTE), "C03": (VALS, NOTE), "C04": (INTERP, NOTE), "C05": (INTERP, NOTE), "C06": (INTERP, NOTE),
    "C07": (INTERP, NOTE), "C08": (INTERP, NOTE), "C10": (VALS, NOTE), "C11": (VALS, NOTE), "C17": (INTERP, NOTE),
    "C19": (VALS, NOTE), "C20": (VALS, NOTE), "C21": (INTERP, NOTE), "C22": (INTERP, NOTE), "C23": (INTERP, NOTE), "C24": (VALS, NOTE),
    "C01": (INTERP + "; crashes, hangs and panics of the worker process are confirmed in a fresh process", NOTE + " Known findings are listed in known-findings.txt."),
    "C09": (VALS, NOTE), "C12": (DISK, NOTE), "C13": (DISK, NOTE), "C14": (DISK, NOTE), "C16": (INTERP, NOTE),
    "C15": ("exhaustive enumeration of system-call faults: every position (and every pair of positions) of the sequence of "
            "file system calls of a load or write, with each fault kind, injected under the real crate",
            "Complete for the listed scenarios, fault kinds and up to two (three) faults per run; the file system calls are those std makes on Linux."),
    "C18": ("stateless model checking: the instrumented real crate (standard library included) under a controlled scheduler, dynamic "
            "partial-order reduction over all interleavings; plus exhaustive sequential histories compared with a model",
            "Complete for the listed thread programs where the evidence says all schedules, otherwise up to the stated number of preemptions; sequentially consistent memory."),
    "C25": ("stateless model checking: the instrumented real crate (standard library included) under a controlled scheduler, dynamic "
            "partial-order reduction over all interleavings, with a happens-before race check on every memory access",
            "Complete for the listed thread programs where the evidence says all schedules, otherwise up to the stated number of preemptions; sequentially consistent memory, data races reported as such."),
    "C27": ("exhaustive enumeration of texts, operation sequences and system-call fault plans, each executed repeatedly on the real crate with "
            "allocations, descriptors and the directory tree monitored",
            "Complete within the bounds listed per family in the evidence. Memory is counted per thread by the allocator; a buffer kept for reuse may grow to a bound."),
    "C28": ("explicit-state exploration of all operation sequences up to a depth, the real crate compared after every operation with its outcome in a "
            "process that does nothing else", "Complete within the bounds listed per family in the evidence; the operations are the 40 listed, plus arbitrary bounded texts as history."),
    "C29": (INTERP + "; the words of each kind of error are learnt from one example of it", NOTE + " The wording itself is free."),
    "C30": (DISK + "; the two ways of loading and of writing are compared with each other", "Complete within the bounds listed per family in the evidence. The comparison is between two paths through the crate; what both should give is the matter of the other properties."),
    "C31": (INTERP, NOTE), "C32": (INTERP, NOTE), "C33": (VALS + "; values built in code are compared with loaded ones", NOTE),
    "C34": ("bounded exhaustive enumeration of values, names for them and texts; the real crate's outcomes with the name and with the literal are compared on every one", "Complete within the bounds listed per family in the evidence; the model only prunes."),
    "C35": ("bounded exhaustive enumeration of texts and of what precedes and follows them; the real crate's outcomes for the parts and for the whole are compared on every one", "Complete within the bounds listed per family in the evidence; the model only tells where a fault lies before the end."),
    "C26": ("explicit-state exploration of all API operation sequences up to a depth, the real crate compared with a model of "
            "instances and handles after every step", NOTE),
}
allp = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
have = set(subprocess.check_output([os.path.join(here, "target/release/mc"), "list"], text=True).split())
checks, na = [], []
for p in allp:
    i = p["id"]
    if i in have:
        t, n = T[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": t,
                       "level": "fault_enumeration" if i == "C15" else "model_checking", "level_note": n})
    else:
        na.append({"property": i, "reason": "The check is not built yet."})
m = {"version": 1, "setup_cmd": "bash build.sh mc && bash build.sh sched && bash build.sh uses", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: the checks use the public interface, compiler instrumentation and symbol interposition."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
