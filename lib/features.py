"""C19 beyond histories: declarations, runtime borrows and handle conversions in every feature set and profile."""
import random

import borrow
import core
import decls
import handles
from core import Config


def run(scale):
    cfgs = [Config(profile, tuple(n for i, n in enumerate(("events", "wrap", "c32")) if f >> i & 1), crate="probes")
            for profile in ("dev", "release") for f in range(8)]
    core.build_all(cfgs)
    rnd = random.Random("%s/features" % core.SEED)
    scripts = [(w, s) for w in range(4) for s in borrow.scripts(2, w)]
    words = handles.words(4)
    jobs = []
    for k, c in enumerate(cfgs):
        mine = rnd.sample(scripts, int(80 * scale))
        jobs.append(core.Job(c, "borrow", [borrow.behaviour("f%d-%d" % (k, i), s, w) for i, (w, s) in enumerate(mine)], "BorrowTrace"))
        plans = handles.pack("w%d-" % k, ["w " + " ".join(w) for w in rnd.sample(words, int(500 * scale))], 40)
        plans += handles.pack("r%d-" % k, ["raw %d %d" % r for r in rnd.sample(handles.raws(rnd, 100), int(150 * scale))], 60)
        plans += handles.pack("i%d-" % k, ["id %d" % i for i in range(256)], 256)
        plans += handles.pack("p%d-" % k, ["pairs %d 12" % rnd.getrandbits(30) for _ in range(2)], 4)
        jobs.append(core.Job(c, "handles", plans, "HandlesTrace"))
    done = core.run_jobs(jobs, "C19-features")
    broken, info, cases = decls.run("C19", 1.0 if scale <= 1 else 4.0)
    return done, broken, {"borrow_and_handle_events": sum(j.judged for j in done), "programs": info}
