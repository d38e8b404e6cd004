"""C11: scripts of nested runtime borrows, enumerated by TLC from Borrow.tla, run on the real crate and judged against it."""
import random

import core
from core import Config

DE = Config("dev", ("events",), crate="probes")
RE = Config("release", (), crate="probes")


# the archetypes without entities, for each of the harness' worlds
EMPTY = ["{}", "{1,4}", "{2,3}", "{1,2,3,4}"]


def scripts(depth, world=0, inside=True):
    """A shortest script for every reachable borrow state, from TLC."""
    out = core.generate("BorrowGen", ("Borrow",), {"Depth": depth, "Empty": EMPTY[world], "Inside": "TRUE" if inside else "FALSE"})
    return [[o.strip() for x in s for o in x.replace(";x", " ; x").split(" ; ") if o.strip()] for s in out]


def behaviour(name, ops, world=0):
    depth, out = 0, []
    for o in ops:
        out.append(o)
        if o[0] in "fiK":
            depth += 1
        elif o in ("x", "xb", "p"):
            depth -= 1
    # look at the state reached, leave the calls one by one, look again, give every guard back, look again
    out.append("z")
    out += ["x"] * depth
    if depth:
        out.append("z")
    return ["B %s %d" % (name, world)] + out + ["r 1", "r 2", "r 3", "z"]


def run(scale):
    core.build_all([DE, RE])
    rnd = random.Random("%s/borrow" % core.SEED)
    two, three = [scripts(2, w) for w in range(4)], [scripts(3, w) for w in range(4)]
    # the first world has entities everywhere; the others are for what happens to archetypes that have none
    many = lambda w: len(three[w]) if scale > 1 else min(len(three[w]), 3000 if w == 0 else 700)
    names = lambda p, ss, w: [behaviour("%s%d-%d" % (p, w, i), s, w) for i, s in enumerate(ss)]
    plans = lambda p: [b for w in range(4) for b in names(p, two[w], w) + names(p + "d", rnd.sample(three[w], many(w)), w)]
    jobs = core.shard(DE, "borrow", plans("a"), 4 if scale <= 1 else 16, "BorrowTrace")
    jobs += core.shard(RE, "borrow", plans("b"), 4 if scale <= 1 else 16, "BorrowTrace")
    if scale > 1:
        for i in range(8):
            more = []
            for k in range(2000):
                # histories of several scripts in a row, nested where a frame stays open
                ops = []
                w = rnd.choice([0, 0, 1, 2])
                for s in rnd.sample(three[w], 3):
                    ops += s + ["r %d" % rnd.randint(1, 3)]
                more.append(behaviour("e%d-%d" % (i, k), ops, w))
            jobs.append(core.Job(DE if i % 2 else RE, "borrow", more, "BorrowTrace"))
    return core.run_jobs(jobs, "C11"), {"states_depth_2": [len(x) for x in two], "states_depth_3": [len(x) for x in three],
                                        "depth_3_replayed": [many(w) for w in range(4)],
                                        "worlds": "entities everywhere; archetypes 1, 4 empty; 2, 3 empty; all empty"}
