#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current working tree."""
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import borrow  # noqa: E402
import core  # noqa: E402
import decls  # noqa: E402
import features  # noqa: E402
import handles  # noqa: E402
import history  # noqa: E402
import loans  # noqa: E402

LEVEL = {p: "model_checking" for p in ["C%02d" % i for i in range(1, 20)]}


class Result:
    def __init__(self):
        self.violations = []   # (text, payload)
        self.coverage = {}
        self.assumptions = []
        self.findings = []


def history_check(pid):
    r = Result()
    scale = 1.0 if core.TIER != "thorough" else float(os.environ.get("VERIF_SCALE", "12"))
    jobs, info = history.run(pid, scale)
    broken = [b for j in jobs for b in j.broken]
    for b in history.matching(pid, broken):
        plan = next((p for p in b.job.plans if p[0].split()[1] == b.name), [])
        r.violations.append((str(b), {"property": pid, "kind": "history", "config": b.job.cfg.name, "shape": b.job.shape,
                                      "behaviour": b.name, "plan": plan, "event": b.op, "line": b.line,
                                      "clauses": sorted(b.cats), "after": sorted(b.flags), "note": b.note}))
    ops = {}
    for j in jobs:
        for k, v in j.ops.items():
            ops[k] = ops.get(k, 0) + v
    events = sum(j.judged for j in jobs)
    n = sum(len(j.plans) for j in jobs)
    r.coverage = {
        "states": events, "transitions": events - len(jobs), "traces_validated_against_impl": n,
        "operations_by_kind": ops,
        "configurations": sorted({j.cfg.name + ("" if j.cfg.hook else " (without hook)") for j in jobs}),
        "other_clauses_broken": sorted({c for b in broken for c in b.cats}),
        "rule": "states: events of recorded traces that TLC accepted or rejected as steps of GecsAbs; every event carries "
                "the full observation of every world",
        "samples": [" ; ".join(j.plans[0]) for j in jobs[:3]],
    }
    r.coverage.update(info)
    if pid == "C19":
        done, wrong, more = features.run(2.0 if core.TIER == "thorough" else 1.0)
        probe_violations(r, pid, done)
        case_violations(r, pid, wrong)
        r.coverage["features"] = more
    r.assumptions = ["the harness reports faithfully what the public API returned"]
    return r


def plan_of(b):
    return next((p for p in b.job.plans if p[0].split()[1] == b.name), [])


def probe_violations(r, pid, jobs):
    for j in jobs:
        for b in j.broken:
            r.violations.append((str(b), {"property": pid, "kind": j.shape, "config": b.job.cfg.name, "behaviour": b.name,
                                          "plan": plan_of(b), "event": b.op, "line": b.line, "clauses": sorted(b.cats), "note": b.note}))


def case_violations(r, pid, broken):
    for c, op, clauses, line, msgs in broken:
        r.violations.append(("case %d: %s: %s: %s %s" % (c["n"], op, sorted(clauses), line, msgs or ""),
                             {"property": pid, "kind": "program", "case": c, "event": op, "line": line, "clauses": sorted(clauses),
                              "messages": msgs}))


def model_check(pid, mod, rule, assumptions):
    r = Result()
    jobs, info = mod.run(2.0 if core.TIER == "thorough" else 1.0)
    probe_violations(r, pid, jobs)
    ops = {}
    for j in jobs:
        for k, v in j.ops.items():
            ops[k] = ops.get(k, 0) + v
    r.coverage = dict(info, states=sum(j.judged for j in jobs), transitions=sum(j.judged for j in jobs) - len(jobs),
                      traces_validated_against_impl=sum(len(j.plans) for j in jobs), operations_by_kind=ops,
                      configurations=sorted({j.cfg.name for j in jobs}), rule=rule,
                      samples=[" ; ".join(j.plans[0][:12]) for j in jobs[:3]])
    r.assumptions = list(assumptions)
    if pid in decls.GEN:
        broken, info, cases = decls.run(pid, 4.0 if core.TIER == "thorough" else 1.0)
        case_violations(r, pid, broken)
        r.coverage["worlds"] = dict(info, cases=len(cases))
        r.assumptions.append("the generated programs print faithfully what they observe")
    return r


MODEL = {
    "C11": (borrow, "every distinct set of live borrows reachable within 2 operations (nested queries, guards, releases, unwinds) and a "
                    "seeded sample (thorough: all) of those within 3, each probed with all 28 guards, all 40 finds, all 10 iterations "
                    "and clone", ["the harness reports faithfully what the public API granted"]),
    "C14": (handles, "every sequence of at most 4 (thorough: 5) conversions from 10 kinds of handles; all conversions from boundary and "
                     "random raw values; all 256 archetype ids; equality and hash matrices of populations of handles",
            ["the harness reports faithfully what the public API returned"]),
}


def decl_check(pid):
    r = Result()
    broken, info, cases = decls.run(pid, float(os.environ.get("VERIF_SCALE", "4")) if core.TIER == "thorough" else 1.0)
    case_violations(r, pid, broken)
    r.coverage = dict(info, states=info["events"], transitions=info["events"], traces_validated_against_impl=len(cases),
                      rule="a case is a generated program: one world declaration and queries, which Decl.tla classifies as accepted or "
                           "rejected; rustc's verdict and everything an accepted program shows when run are judged by TLC",
                      samples=[json.dumps(c)[:1500] for c in cases[:3]])
    r.assumptions = ["rustc's verdict on a module is its verdict on the program it stands for",
                     "the generated programs print faithfully what they observe"]
    return r


def loans_check(pid):
    r = Result()
    broken, info = loans.run(2.0 if core.TIER == "thorough" else 1.0)
    for e, clauses, source in broken:
        r.violations.append(("%s: %s: %s" % (sorted(clauses), e, source), {"property": pid, "kind": "program", "event": e, "clauses": sorted(clauses), "source": source}))
    r.coverage = dict(info, states=info["events"], transitions=info["events"], traces_validated_against_impl=info["programs"],
                      rule="client programs enumerated by TLC from Loans.tla (a reference kept, a call, a later use; and sound twins), rustc's verdict on each, "
                           "auto traits and threads over worlds of all combinations of Send/Sync components, and a scan of macro expansions, all judged by TLC",
                      samples=[loans.text("across", "view_comp", "destroy_w"), loans.text("twin", "view_comp", "destroy_w"), loans.text("inside", "q_iter_mut", "create_w")])
    r.assumptions = ["rustc's verdict on a module is its verdict on the program it stands for"]
    return r


def main():
    pid = sys.argv[1]
    t0 = time.time()
    os.makedirs(core.WORK, exist_ok=True)
    try:
        if pid in history.FILTER:
            r = history_check(pid)
        elif pid in MODEL:
            r = model_check(pid, *MODEL[pid])
        elif pid in decls.GEN:
            r = decl_check(pid)
        elif pid == "C18":
            r = loans_check(pid)
        else:
            raise core.CheckError("no check for " + pid)
    except core.CheckError as e:
        print("ERROR property=%s %s" % (pid, e))
        return 2
    for f in r.findings:
        print("KNOWN-FINDING: property=%s %s" % (pid, f))
    for i, (text, payload) in enumerate(r.violations[:10]):
        p = core.save_replay(pid, i, dict(payload, seed=core.SEED))
        print("VIOLATION property=%s replay=%s %s" % (pid, p, text[:700].replace("\n", " ")))
    if len(r.violations) > 10:
        print("... and %d more" % (len(r.violations) - 10))
    core.evidence(pid, LEVEL[pid], r.coverage, time.time() - t0, len(r.violations), r.assumptions)
    print("%s %s: %s in %.1f s" % (pid, core.TIER, "%d violations" % len(r.violations) if r.violations else "held", time.time() - t0))
    return 1 if r.violations else 0


sys.exit(main())
