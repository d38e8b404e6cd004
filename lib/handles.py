"""C14: every sequence of handle conversions up to a length, enumerated by TLC from Handles.tla, run on the real crate and
judged against it; every conversion from boundary and random raw values; Eq and Hash on populations of handles."""
import random

import core
from core import Config

DE = Config("dev", ("events",), crate="probes")
RE = Config("release", (), crate="probes")


def words(depth):
    return core.generate("HandlesGen", ("Handles",), {"Depth": depth})


def raws(rnd, n):
    half = [0, 1, 2, 3, 4, 0x7f, 0x80, 0xfe, 0xff, 0x100, 0x101, 0x3ff, 0x4ff, 0x7fff, 0x8000, 0xfffe, 0xffff]
    some = [(a << 16 | b) for a in half for b in half]
    out = [(k, v) for k in some for v in (0, 1)] + [(k, v) for k in (0, 3, 4, 255, 0x1ff, 0xffffffff) for v in some]
    out += [(k, 5) for k in range(256)] + [(rnd.choice(some), rnd.choice(some)) for _ in range(n)]
    out += [(rnd.getrandbits(32), rnd.getrandbits(32)) for _ in range(n)]
    return out


def pack(name, lines, per):
    return [["B %s%d" % (name, i)] + lines[i * per:(i + 1) * per] for i in range((len(lines) + per - 1) // per)]


def run(scale):
    core.build_all([DE, RE])
    jobs = []
    ws = words(5 if scale > 1 else 4)
    for cfg, c in ((DE, "d"), (RE, "r")):
        rnd = random.Random("%s/handles/%s" % (core.SEED, c))
        mine = ws if scale > 1 or cfg is DE else rnd.sample(ws, len(ws) // 2)
        plans = pack(c + "w", ["w " + " ".join(w) for w in mine], 40)
        plans += pack(c + "r", ["raw %d %d" % r for r in raws(rnd, int(1500 * scale))], 60)
        plans += pack(c + "i", ["id %d" % i for i in range(256)], 256)
        plans += pack(c + "p", ["pairs %d %d" % (rnd.getrandbits(30), rnd.choice([6, 12, 24, 40])) for _ in range(int(40 * scale))], 4)
        near = [(k, v) for k in (0, 3, 5, 4, 255, 256 + 7, 0xffffff00 + 3, 0x80000004, 0x00010005) for v in (1, 2, 3, 0xff, 1 << 25, 1 << 31, 0xffffffff, 0x01020304)]
        near += [(rnd.getrandbits(32), rnd.getrandbits(32) or 1) for _ in range(int(30 * scale))]
        near += [(rnd.getrandbits(24) << 8 | rnd.choice((3, 4, 255, 0, 1)), rnd.getrandbits(32) or 1) for _ in range(int(30 * scale))]
        plans += pack(c + "n", ["near %d %d" % r for r in near], 20)
        plans += [["B %sdeep" % c, "deep %d" % (70000 if scale <= 1 else 140000)]]
        jobs += core.shard(cfg, "handles", plans, 4 if scale <= 1 else 12, "HandlesTrace")
    return core.run_jobs(jobs, "C14"), {"conversion_sequences": len(ws)}
