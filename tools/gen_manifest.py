#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below and properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
SEQ = "explicit enumeration (depth-first, exhaustive within the bound) of programs/histories executed on the real code against a reference model"
SCHED = "stateless exploration of all thread schedules of the compiled code up to a preemption bound, pruned by happens-before equal states"
CHECKS = {
 # id: (script, technique, note)
 "C01": ("mc.sh", SEQ, "All programs up to the stated depth over the full operation alphabet and operand grids, run on the real code; oracle: closed-form partial derivatives with running error analysis. Values outside the grids and deeper programs are not covered."),
 "C02": ("mc.sh", SEQ, "Every operation, predicate, comparison and conversion over all combinations of special values, in f64 and f32, plain, seeded, recorded and after the context is gone; oracle: the plain float operation."),
 "C03": ("mc.sh", SEQ, "All programs up to the stated depth, four ways of recording, all replay points twice in both directions; plus long recordings with exact arithmetic. Oracle: direct evaluation."),
 "C04": ("mc.sh", SEQ, "As C03 with forward sweeps; oracle: reference derivatives and tapeless evaluation."),
 "C05": ("mc.sh", SEQ, "As C03 with reverse sweeps for unit and mixed weights over outputs that are shared, inputs or constants; oracle: reference gradients; abs must be refused."),
 "C06": ("mc.sh", SEQ, "Both drivers for all programs up to the stated depth and for parametric functions of every shape up to the bound; oracle: reference partial derivatives."),
 "C07": ("mc.sh", SEQ, "All programs up to the stated depth at grid points (many on kinks) and parametric piecewise linear functions of every shape up to the bound; oracle: reference derivatives by inputs and absolute values, exact increments of the function. Entries are compared only if all switching variables are explicit abs."),
 "C08": ("mc.sh", SEQ, "As C07, every operator with operands of several sizes, views, static sizes, rows, columns and incompatible operands; oracle: dense reference matrices."),
 "C09": ("mc.sh", SEQ, "As C07, every sign of up to five ties, sign byte lists of several lengths for more, following Jacobians; oracle: reference limiting Jacobian. Near-ties of inexact programs are outside."),
 "C11": ("mc.sh", SEQ, "All chains up to the stated length from a set of members, nestings, points, directions and budgets, and long chains; oracle: product of reference member Jacobians, exact arithmetic, plus the chain as one function."),
 "C10": ("mc.sh", SEQ, "All nestings and construction sequences up to the stated number of members with several dimension patterns; oracle: explicit composition, exact arithmetic."),
 "C12": ("mc.sh", SEQ, "Every (steps, checkpoints) pair up to the bound, with recorded callbacks; oracle: the plain reversal. Larger step counts are covered for selected budgets only."),
 "C13": ("mc.sh", SEQ, "Every (steps, checkpoints) pair up to the bound, counting live states and forward steps; oracle: dynamic-programming optimum, cross-checked with the closed form used beyond it."),
 "C16": ("mc.sh", SEQ, "All histories up to the stated length over contexts and variables (create, use, combine, clone, drop, take tapes), with an explicit model of every recording; deeper with fewer actions. Combinations refused by a panic must leave all recordings unchanged."),
 "C21": ("mc.sh", SEQ, "All programs up to the stated depth in single precision and with nested numbers, recorded and not, all conversion sequences up to the bound; oracle: double precision reference values, first and second derivatives with running error analysis. With recorded inner numbers, bases of powers are positive."),
 "C22": ("mc.sh", SEQ, "All programs up to the stated depth in several recording styles plus all declaration orders of inputs and outputs; oracle: a structural validator of the tape and the reference evaluation."),
 "C23": ("mc.sh", SEQ, "All histories up to the stated length of recording, taking tapes, cloning, replaying, sweeping, decomposing; oracle: an explicit model of each tape, checked completely after each step."),
 "C24": ("mc.sh", SEQ, "All programs of elementary operations up to the stated depth, their values kept in several arrangements of slots, with no-operations and constants; every constructor with ids from a grid; oracle: direct evaluation, reference derivatives and the reference abs-normal form. Slots used twice are outside."),
 "C25": ("mc.sh", "fault injection at every step of user code in every call of a set, all sequences of such faults up to a length, on the real code", "Every kind of call with user code failing at each of its steps (or the library refusing), all pairs (thorough: triples) of them, on a pool of one worker and on the default one; oracle: the same calls without failures, a fingerprint of all existing objects, contexts and elements still alive."),
    "C14": ("conc.sh", SCHED, "Pairs and triples of scripts over their own contexts and all pairs of lookup scripts; oracle: what each script sees when it runs alone, unique identities. Sequentially consistent memory; threads switch at atomics, system calls and accesses to statics outside of locks."),
    "C15": ("conc.sh", SCHED, "Pairs and triples of scripts that record, mark and take tapes on one context; oracle: well-formed tapes at any moment, values and gradients of each thread as when alone, prefix order of tapes. Bounds and memory model as for C14."),
    "C17": ("conc.sh", SCHED, "All parallel drivers on a pool whose task placement and stealing is part of the exploration (a stand-in for rayon-core), several users at once, functions that record and drive inside; oracle: the sequential result, bit for bit. Bounds and memory model as for C14."),
    "C18": ("cxx.sh", SEQ, "All programs of C++ operations up to the stated depth, each mirrored by the Rust operations in a context of its own, recordings compared as functions; all overloads at special values. Recorded inputs of the C++ interface are always 0, other points by replay."),
    "C19": ("cxx.sh", SEQ, "All lifetime histories up to the stated length over 2 or 3 variables and up to 3 contexts, under the address sanitizer on both sides and with counted allocations; values and recording positions compared with a mirror."),
    "C20": ("macros.sh", SEQ, "The product of the options of a definition (argument style, attributes, visibility, extra arguments, dimensions, bodies, call path, place), every form compiled and executed at all points of a grid, with wrong dimensions and as an object; oracle: the function the body spells out."),
}
exec(open(os.path.join(root, "tools", "more_checks.py")).read()) if os.path.exists(os.path.join(root, "tools", "more_checks.py")) else None
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        s, t, n = CHECKS[i]
        checks.append({"property": i, "quick_cmd": f"bash bin/{s} check {i} quick", "thorough_cmd": f"bash bin/{s} check {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: all machinery works on the public interface, on the compiled objects (scheduler) and on link-time wrapping (C++)."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
