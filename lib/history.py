"""The properties decided by histories: plans run on the real crate, traces judged against GecsAbs."""
import concurrent.futures as cf
import random

import core
import model
import plans
from core import Config

DE = Config("dev", ("events",))
DW = Config("dev", ("events", "wide"), shapes=("main", "wide", "odd"))
RE = Config("release", ())
RW = Config("release", ("wide",), shapes=("main", "wide", "odd"))
AS = Config("dev", ("events",), asan=True)
AR = Config("release", ("events",), asan=True)  # debug assertions would hide what happens without them

ALL = None  # every clause
#          clauses that belong to the property, and what must have happened before in the behaviour
FILTER = {
    "C01": ({"lookup", "reissue", "find", "destroy", "world", "crash", "judge"}, None),
    "C02": ({"value", "crash", "judge"}, None),
    "C03": ({"forged", "lookup", "value", "rows", "drop", "crash", "judge"}, None),
    "C04": ({"drop", "clone", "crash", "judge"}, None),
    "C06": ({"rows", "iter", "query", "value", "len", "crash", "judge"}, None),
    "C07": ({"idestroy", "lookup", "value", "drop", "direct", "rows", "query", "len", "panic", "crash", "judge"}, "idestroy"),
    "C08": ({"reissue", "crash", "judge"}, None),
    "C09": ({"direct", "crash", "judge"}, None),
    "C10": (ALL, "panic"),
    "C12": ({"len", "cap", "limit", "panic", "crash", "judge"}, None),
    "C13": (ALL, "clone"),
    "C17": ({"events", "hint", "crash", "judge"}, None),
    "C19": (ALL, None),
}

# (config, shape, profile, behaviours in the quick tier, light, operations)
B = "burst"
SETS = {
    "C01": [(DE, "main", "churn", 500), (RE, "main", "churn", 300), (DE, "main", "overflow", 60), (DE, "main", "clones", 60),
            (RE, "main", "churn", 4, True, 160), (DE, "main", "idestroy", 100), (RE, "main", "churn", 28, B), (DE, "main", "clones", 6, B),
            (DE, "main", "aged", 90), (RE, "main", "aged", 60)],
    "C02": [(DW, "main", "values", 300), (RW, "main", "values", 200), (DW, "wide", "values", 100), (RW, "wide", "values", 60),
            (DW, "odd", "values", 250), (RW, "odd", "values", 150), (RW, "main", "values", 3, True, 140), (DW, "main", "clones", 60),
            (DW, "odd", "clones", 60), (RW, "odd", "values", 20, B), (RW, "main", "values", 8, B)],
    "C03": [(DE, "main", "forge", 250), (RE, "main", "forge", 250), (AR, "main", "forge", 200), (DE, "main", "clones", 60),
            (RE, "main", "aged", 60)],
    "C04": [(DW, "main", "drops", 350), (RW, "main", "drops", 200), (AS, "main", "drops", 150), (DW, "main", "panics", 100),
            (DW, "wide", "drops", 60), (DW, "odd", "drops", 120), (RW, "odd", "drops", 14, B), (RW, "main", "drops", 10, B)],
    "C06": [(DW, "main", "iter", 500), (RW, "main", "iter", 250), (DW, "wide", "iter", 100), (RW, "main", "iter", 3, True, 120),
            (DW, "odd", "iter", 100), (RW, "main", "iter", 16, B), (RW, "odd", "iter", 8, B)],
    "C07": [(DE, "main", "idestroy", 600), (RE, "main", "idestroy", 350), (RE, "main", "idestroy", 3, True, 120),
            (DE, "main", "panics", 80), (DE, "main", "overflow", 60), (RE, "main", "idestroy", 24, B)],
    "C08": [(DE, "main", "churn", 300), (RE, "main", "churn", 200), (DE, "main", "overflow", 250), (RE, "main", "overflow", 200),
            (DE, "main", "idestroy", 100), (RE, "main", "churn", 4, True, 160), (RE, "main", "churn", 20, B),
            (DE, "main", "aged", 120), (RE, "main", "aged", 90)],
    "C09": [(DE, "main", "direct", 500), (RE, "main", "direct", 300), (DE, "main", "overflow", 80), (DE, "main", "idestroy", 120),
            (RE, "main", "direct", 16, B), (DE, "main", "aged", 90), (RE, "main", "aged", 60)],
    "C10": [(DW, "main", "panics", 400), (RW, "main", "panics", 250), (AS, "main", "panics", 150), (DW, "main", "overflow", 120),
            (RW, "main", "overflow", 60), (DW, "wide", "panics", 80), (DW, "odd", "panics", 80)],
    "C12": [(DE, "main", "caps", 450), (RE, "main", "caps", 250), (DE, "main", "churn", 150), (RE, "main", "caps", 3, True, 160),
            (RE, "main", "caps", 30, B)],
    "C13": [(DW, "main", "clones", 400), (RW, "main", "clones", 250), (DW, "wide", "clones", 80), (DW, "main", "overflow", 60),
            (RW, "main", "clones", 3, True, 120), (DW, "odd", "clones", 80), (RW, "main", "clones", 16, B), (DW, "odd", "clones", 6, B)],
    "C17": [(DE, "main", "events", 600), (DE, "main", "idestroy", 120), (DE, "main", "panics", 80), (DE, "main", "overflow", 60),
            (Config("release", ("events",)), "main", "events", 250), (Config("release", ("events",)), "main", "events", 24, B)],
}


def c19_sets():
    out = []
    for prof in ("dev", "release"):
        for f in range(8):
            feats = [n for i, n in enumerate(("events", "wrap", "c32")) if f >> i & 1]
            c = Config(prof, tuple(feats + ["wide"]), shapes=("main", "wide", "odd"))
            out += [(c, "main", "churn", 25), (c, "main", "panics", 25), (c, "main", "overflow", 30), (c, "main", "clones", 15),
                    (c, "main", "aged", 15), (c, "wide", "panics", 12), (c, "main", "idestroy", 20), (c, "odd", "drops", 10), (c, "main", "churn", 2, B)]
    return out


# storages of up to 2^24 entities, judged by Scale.tla: (config, kind, behaviours in the quick tier)
SCALE = {
    "C01": [(RE, "mid", 12), (DE, "mid", 2)], "C02": [(RW, "mid", 10)], "C04": [(RW, "mid", 8)], "C06": [(RW, "mid", 10)],
    "C07": [(RE, "mid", 10)], "C08": [(RE, "mid", 10)], "C09": [(RE, "mid", 10)], "C10": [(RW, "limit", 2)],
    "C12": [(RE, "limit", 8), (RE, "mid", 8), (DE, "mid", 2)], "C13": [(RW, "mid", 12)],
    "C17": [(Config("release", ("events",)), "mid", 8)],
}

# transition tours of GecsWorld: (config, profile, commands in the quick tier; the thorough tier runs all of them)
REV = Config("release", ("events",))
DWR = Config("dev", ("events", "wrap", "wide"), shapes=("main", "wide", "odd"))
TOURS = {
    "C01": [(DE, "store", 1500), (RE, "store", 1000), (DE, "pair", 600), (DE, "clone", 600), (RE, "clone", 600), (RE, "over", 300)],
    "C02": [(DW, "look", 800), (RW, "look", 800), (DW, "pair", 600), (RW, "clone", 400)],
    "C03": [(DE, "clone", 800), (RE, "clone", 800), (AR, "store", 400), (AR, "sweep", 300)],
    "C04": [(DW, "panics", 700), (RW, "cloneboom", 700), (AS, "cloneboom", 300), (AS, "panics", 300)],
    "C06": [(DW, "look", 1500), (RW, "look", 800), (DW, "sweep", 400), (RW, "sweep3", 400)],
    "C07": [(DE, "sweep", 2500), (RE, "sweep", 1500), (DE, "sweep3", 500), (RE, "sweep3", 500), (DE, "over", 400), (DE, "panics", 400)],
    "C08": [(DE, "store", 1200), (RE, "store", 800), (DE, "over", 700), (RE, "over", 700)],
    "C09": [(DE, "store", 1000), (RE, "store", 1000), (DE, "sweep", 700), (DE, "over", 400), (RE, "look", 400)],
    "C10": [(DW, "panics", 900), (RW, "panics", 600), (DW, "cloneboom", 800), (DW, "over", 900), (RW, "over", 600), (AS, "panics", 300)],
    "C12": [(DE, "store", 2000), (RE, "store", 1500), (DE, "pair", 800)],
    "C13": [(DW, "clone", 2000), (RW, "clone", 1200), (DW, "cloneboom", 600), (RW, "cloneboom", 600)],
    "C17": [(DE, "events", 1500), (REV, "events", 900), (DE, "over", 400), (DE, "cloneboom", 300)],
}


def tours_of(pid):
    if pid != "C19":
        return TOURS[pid]
    out = []
    for i, (c, _, _, _) in enumerate(c19_sets()[::9]):
        over = "overwrap" if "wrap" in c.features else "over"
        out += [(c, over, 250), (c, ("store", "sweep", "clone", "panics")[i % 4], 150)]
    return out


def sets(pid):
    return c19_sets() if pid == "C19" else SETS[pid]


def feasible(plan, cfg):
    """Without the hook, generations only advance by real creations and removals."""
    ff = [x.split()[3] for x in plan if x.startswith("ff ")]
    return all(x[0] == "p" and int(x[1:].split(".")[0]) <= (20 if cfg.profile == "release" else 16) for x in ff)


def run(pid, scale=1.0):
    todo = sets(pid)
    if not any(True for _ in todo):
        raise core.CheckError("no plans for " + pid)
    pool = cf.ThreadPoolExecutor(1)
    proof = pool.submit(model.proofs, pid, core.TIER == "thorough")
    core.build_all([s[0] for s in todo] + [s[0] for s in SCALE.get(pid, ())] + [t[0] for t in tours_of(pid)])
    jobs = []
    info = {}
    per = {}
    for n, s in enumerate(todo):
        cfg, shape, prof, count = s[:4]
        light, nops = (tuple(s[4:]) + (False, None)[len(s) - 4:])[:2]
        ps = plans.plans("%s/%d" % (core.SEED, n), shape, prof, max(1, int(count * scale)), light, nops, "p%d-" % n)
        per.setdefault((cfg.name, shape), (cfg, shape, []))[2].extend(ps if cfg.hook else [p for p in ps if feasible(p, cfg)])
    for n, (cfg, prof, budget) in enumerate(tours_of(pid)):
        ps, d = model.plans(prof, budget * scale if scale < 4 else None, "t%d-" % n)
        if not cfg.hook:
            ps = [p for p in ps if not any(x.startswith("ff") for x in p)]
        per.setdefault((cfg.name, "main"), (cfg, "main", []))[2].extend(ps)
        info.setdefault("model_tours", {})[prof + "@" + cfg.name] = {
            "tours_run": len(ps), "tours": len(d["tours"]), "model_states": d["states"], "model_transitions": d["transitions"]}
    total = sum(len(p[2]) for p in per.values())
    for cfg, shape, ps in per.values():
        n = max(1, round(core.CORES * (1 if scale <= 1 else scale) * len(ps) / total)) if len(per) <= core.CORES else 1
        jobs += core.shard(cfg, shape, ps, n)
    for n, (cfg, kind, count) in enumerate(SCALE.get(pid, ())):
        ps = plans.scale("%s/%d" % (core.SEED, n), kind, max(1, int(count * min(scale, 8))), "s%d-" % n)
        jobs += core.shard(cfg, "scale", ps, 4 if kind == "limit" else 2, "Scale")
    jobs.sort(key=lambda j: -sum(map(len, j.plans)))
    done = core.run_jobs(jobs, pid)
    info["model_proof"] = proof.result()
    return done, info


def matching(pid, broken):
    cats, after = FILTER[pid]
    return [b for b in broken if (after is None or after in b.flags) and (cats is None or b.cats & cats)]
