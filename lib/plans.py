"""Seeded random plans (operation sequences) for the harness. Nothing is judged here."""
import random

NARCH = {"main": 5, "wide": 2, "odd": 7}
QN = {"main": ["all", "x", "y", "xy", "one", "z"], "wide": ["all", "x", "one"], "odd": ["all", "x", "y", "xy", "one", "z"]}
DEST = ["we", "ae", "wa", "aa", "wd", "ad", "wda", "ada"]
WRITE = ["view", "aview", "dview", "borrow", "aborrow", "find", "findt", "findb", "slice", "slices",
         "bslice", "itermut", "iter", "iterb"]

BASE = dict(cr=30, de=22, wr=10, it=4, fi=3, id=5, cl=2, dw=1, ce=0, fg=0, bc=0, ff=0,
            within=0.25, boom=0.0, dboom=0.0, pk=0.0, stop=0.3, clboom=0.0, dwboom=0.0,
            arches=(1, 2), ops=(8, 24), caps="small", worlds=3, stale=0.15)
PROFILES = {
    "churn": dict(cr=40, de=36, wr=3, it=1, fi=1, id=4, stale=0.1),
    "values": dict(wr=30, it=8, fi=8, cr=25, de=15, id=4),
    "iter": dict(it=20, cr=30, de=15, id=8, arches=(2, 5), stop=0.5),
    "idestroy": dict(id=22, cr=34, de=6, wr=4, cl=1),
    "direct": dict(cr=30, de=25, id=8, it=8, fi=6, cl=2),
    "drops": dict(cr=30, de=22, wr=14, cl=6, dw=5, id=8, within=0.4),
    "panics": dict(cr=30, de=20, wr=6, it=6, fi=6, id=12, cl=6, dw=3, bc=4, boom=0.25, dboom=0.3,
                   pk=0.5, clboom=0.5, dwboom=0.5, within=0.4),
    "clones": dict(cl=12, dw=4, cr=32, de=20, wr=10, worlds=5, id=6),
    "caps": dict(within=0.6, cr=45, de=25, caps="all", wr=2, it=2, id=4),
    "forge": dict(fg=14, cr=30, de=20, cl=4, it=1, wr=1, id=3),
    "events": dict(ce=8, cr=34, de=24, id=10, cl=4, arches=(1, 4)),
    "aged": dict(cr=34, de=26, id=6, wr=4, cl=3, within=0.2, pre_ff="aged", worlds=2, arches=(1, 1), ops=(4, 10)),
    "overflow": dict(ff=0, cr=34, de=30, id=8, cl=3, within=0.2, pre_ff=True, worlds=2, ops=(8, 18)),
}


def behaviour(rng, shape, prof, name, light=False, nops=None):
    p = dict(BASE)
    p.update(PROFILES[prof])
    out = ["B %s%s" % (name, " light" if light else "")]
    n = NARCH[shape]
    k = rng.randint(*p["arches"]) if shape != "wide" else rng.randint(1, 2)
    arches = rng.sample(range(1, n + 1), min(k, n))
    queries = QN[shape]

    def caps():
        if p["caps"] == "small":
            c = rng.choice([0, 0, 1, 2, 3, 5])
        else:
            c = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17])
        return c
    out.append("new 0 " + ",".join(str(caps() if a in arches else 0) for a in range(1, n + 1)))
    worlds = [0]
    h = 0          # handles issued so far
    alive = []     # (world, handle, arch) probably alive
    gone = []
    if p.get("pre_ff"):
        a = arches[0]
        # spend generations on the position the first entity had
        first = rng.randint(1, 2)
        for _ in range(first):
            out.append("cr 0 %d world 0 0" % a)
            h += 1
        for i in range(first):
            out.append("de 0 %d we -" % (h - 1 - i))
            gone.append((0, h - 1 - i, a))
        # by about a power of two, so that generations differ in their high bits only; then up to the end
        if p["pre_ff"] == "aged":
            out.append("ff 0 %d p%d.%d" % (a, rng.choice([4, 7, 8, 12, 15, 16, 20, 23, 24, 27, 28, 30, 31]), rng.choice([0, 1, 1, 1, 2])))
        else:
            out.append("ff 0 %d %d" % (a, rng.randint(0, 4)))
        arches = [a] + [x for x in arches[1:]]
    kinds = [x for x in ("cr", "de", "wr", "it", "fi", "id", "cl", "dw", "ce", "fg", "bc", "ff") if p[x]]
    wts = [p[x] for x in kinds]
    total = nops or rng.randint(*p["ops"])
    target = rng.choice([2, 3, 4, 6, 9]) if not light else rng.choice([20, 60, 150])
    for _ in range(total):
        if not worlds:
            worlds.append(0)
            out.append("new 0 " + ",".join("0" for _ in range(n)))
        w = rng.choice(worlds)
        op = rng.choices(kinds, wts)[0]
        mine = [x for x in alive if x[0] == w]
        if op == "de" and len(mine) < target and rng.random() < 0.35:
            op = "cr"
        if op == "cr" and len(mine) >= target and rng.random() < 0.6:
            op = "de"

        def pick():
            if (not mine or rng.random() < p["stale"]) and h:
                return rng.randrange(h), None
            if not mine:
                return None, None
            x = rng.choice(mine)
            return x[1], x
        if op == "cr":
            a = rng.choice(arches)
            within = rng.random() < p["within"]
            boom = rng.random() < p["boom"]
            out.append("cr %d %d %s %d %d" % (w, a, rng.choice(["world", "arch", "mut"]), within, boom))
            if not boom:
                alive.append((w, h, a))
            h += 1
        elif op == "de":
            i, x = pick()
            if i is None:
                continue
            db = rng.randint(0, 2) if rng.random() < p["dboom"] else "-"
            via = rng.choice(DEST)
            out.append("de %d %d %s %s" % (w, i, rng.choice(["wa", "wda"]) if db != "-" else via, db))
            if x:
                alive.remove(x)
                gone.append(x)
        elif op == "wr":
            i, x = pick()
            if i is None:
                continue
            out.append("wr %d %d %d %s" % (w, i, rng.randrange(40), rng.choice(WRITE)))
        elif op == "it":
            stop = rng.randint(1, 4) if rng.random() < p["stop"] else 0
            pk = rng.randint(1, 3) if rng.random() < p["pk"] else 0
            out.append("it %d %s %s %d %d" % (w, rng.choice(queries), rng.choice(["iter", "iterb"]), stop, pk))
        elif op == "fi":
            i, x = pick()
            if i is None:
                continue
            out.append("fi %d %d %s %s %d" % (w, i, rng.choice(queries), rng.choice(["find", "findb"]), rng.random() < p["pk"]))
        elif op == "id":
            q = rng.choice(queries)
            default = rng.choice("CCCD")
            tame = rng.random() < .25
            if tame:
                default = rng.choice("CCCB")
            pk = rng.randint(1, 4) if rng.random() < p["pk"] * 0.5 else 0
            db = rng.randint(0, 5) if rng.random() < p["dboom"] else "-"
            decs = {}
            for x in mine:
                d = rng.choices(["", "C", "D", "B", "E"], [4, 3, 0, 1, 0] if tame else [4, 3, 5, 1, 1])[0]
                if d:
                    decs[x[1]] = d
            out.append("id %d %s %s %d %s %s" % (w, q, default, pk, db, " ".join("%d:%s" % z for z in decs.items())))
            for x in mine:
                if decs.get(x[1], default) in "DE" and rng.random() < 0.7 and x in alive:
                    alive.remove(x)
                    gone.append(x)
        elif op == "cl":
            free = [x for x in range(p["worlds"]) if x not in worlds]
            if not free or (len(worlds) > 1 and rng.random() < .2):
                # in place of a world
                others = [x for x in worlds if x != w]
                if others and rng.random() < .7:
                    to = rng.choice(others)
                    out.append("cl %d %d -" % (w, to))
                    alive = [x for x in alive if x[0] != to] + [(to, y[1], y[2]) for y in mine]
                continue
            to = free[0]
            cb = rng.randint(0, 8) if rng.random() < p["clboom"] else "-"
            out.append("cl %d %d %s" % (w, to, cb))
            if cb == "-":
                worlds.append(to)
                alive += [(to, y[1], y[2]) for y in mine]
        elif op == "dw":
            if len(worlds) < 2 and rng.random() < 0.7:
                continue
            out.append("dw %d %s" % (w, rng.randint(0, 6) if rng.random() < p["dwboom"] else "-"))
            worlds.remove(w)
            alive = [x for x in alive if x[0] != w]
        elif op == "ce":
            out.append("ce %d %d" % (w, rng.choice([0, 0] + arches)))
        elif op == "fg":
            out.append("fg %d %d %d" % (w, rng.randrange(1 << 30), rng.choice([20, 60])))
        elif op == "bc":
            out.append("bc %d %s" % (w, rng.choice(queries)))
    return out


def burst(rng, shape, prof, name, scale=1):
    """Fills and drains large storages; between the operations of a burst only lengths and capacities are observed."""
    p = dict(BASE)
    p.update(PROFILES[prof])
    out = ["B %s light" % name]
    n = NARCH[shape]
    arches = rng.sample(range(1, n + 1), rng.choice([1, 1, 2]))
    caps = {a: rng.choice([0, 0, 1, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200]) for a in arches}
    out.append("new 0 " + ",".join(str(caps.get(a, 0)) for a in range(1, n + 1)))
    h = 0
    live = {0: []}

    def look(w):
        """Something observed in full."""
        x = rng.random()
        if live[w] and x < .4:
            out.append("fi %d %d %s %s 0" % (w, rng.choice(live[w])[0], "all", rng.choice(["find", "findb"])))
        elif live[w] and x < .7:
            out.append("wr %d %d %d %s" % (w, rng.choice(live[w])[0], rng.randrange(8), rng.choice(WRITE)))
        else:
            out.append("it %d %s %s 0 0" % (w, rng.choice(QN[shape]), rng.choice(["iter", "iterb"])))

    def fill(w, a, k, within):
        nonlocal h
        for _ in range(k):
            out.append("~cr %d %d %s %d 0" % (w, a, rng.choice(["world", "arch", "mut"]), within))
            live[w].append((h, a))
            h += 1

    def drain(w, a, share, order):
        mine = [x for x in live[w] if x[1] == a]
        if order == "lifo":
            mine.reverse()
        elif order == "random":
            rng.shuffle(mine)
        elif order == "alternate":
            mine = mine[::2] + mine[1::2]
        elif order == "ends":
            mine = [x for pair in zip(mine, reversed(mine)) for x in pair][:len(mine)] if mine else []
            mine = list(dict.fromkeys(mine)) + [x for x in live[w] if x[1] == a and x not in mine]
        for x in mine[:int(len(mine) * share + .5)]:
            out.append("~de %d %d %s -" % (w, x[0], rng.choice(DEST)))
            live[w].remove(x)
    for _ in range(rng.randint(5, 8)):
        w = rng.choice(list(live))
        a = rng.choice(arches)
        mine = [x for x in live[w] if x[1] == a]
        kind = rng.choices(["fill", "drain", "sweep", "clone", "clear"], [4 if len(mine) < 60 else 1, 4 if mine else 0, p["id"] / 4, p["cl"] / 2, p["ce"] / 4])[0]
        if kind == "fill":
            fill(w, a, rng.choice([5, 17, 33, 65, 90, 130]), rng.random() < p["within"] * .5)
        elif kind == "drain":
            drain(w, a, rng.choice([1, 1, 1, .9, .5]), rng.choice(["fifo", "lifo", "random", "alternate", "ends"]))
        elif kind == "sweep":
            q = rng.choice(["all", "all"] + QN[shape])
            decs = {}
            kill = rng.choice([1, .9, .5, .1])
            for x in live[w]:
                if rng.random() >= kill:
                    decs[x[0]] = "C"
            out.append("id %d %s D 0 - %s" % (w, q, " ".join("%d:%s" % z for z in decs.items())))
            if q == "all":
                live[w] = [x for x in live[w] if x[0] in decs]
        elif kind == "clone" and len(live) < 3:
            to = next(x for x in range(4) if x not in live)
            out.append("cl %d %d -" % (w, to))
            live[to] = list(live[w])
        elif kind == "clear":
            out.append("ce %d %d" % (w, rng.choice([0, a])))
        look(w)
    more = random.Random("%s/%s" % (name, len(out)))
    if p["cl"] > BASE["cl"] or more.random() < .2:
        # a storage emptied after it has been large, cloned, and both used again
        w = more.choice(list(live))
        a = more.choice(arches)
        if not any(x[1] == a for x in live[w]) or more.random() < .5:
            fill(w, a, more.choice([1, 3, 66]), False)
        if more.random() < .5:
            drain(w, a, 1, more.choice(["fifo", "lifo", "ends"]))
        else:
            out.append("id %d all D 0 -" % w)
            live[w] = []
        to = more.choice([x for x in range(4) if x != w])
        out.append("cl %d %d -" % (w, to))
        live[to] = list(live[w])
        for x in more.sample([w, to, to], 3):
            fill(x, a, more.choice([1, 2, 5, 34]), more.random() < .4)
            look(x)
    for w in list(live):
        look(w)
    return out


def plans(seed, shape, prof, count, light=False, nops=None, tag=""):
    rng = random.Random("%s/%s/%s/%s" % (seed, shape, prof, light))
    out = []
    for i in range(count):
        name = "%s%s-%s-%d" % (tag, prof, shape, i)
        out.append(burst(rng, shape, prof, name) if light == "burst" else behaviour(rng, shape, prof, name, light, nops))
    return out


LIMIT = 1 << 24


def scale_limit(rng, name):
    """Runs into the limit of entities of an archetype."""
    a = rng.randint(0, 1)
    caps = ["0", "0"]
    caps[a] = str(rng.choice([LIMIT, LIMIT, LIMIT - 1, LIMIT - rng.randint(2, 1000), LIMIT // 2, LIMIT // 2 - 1, LIMIT // 2 - 2, rng.randint(0, 10 ** 6), 0]))
    out = ["B " + name]
    for n in (LIMIT + 1, LIMIT + 2, 1 << 25, 1 << 32, (1 << 32) + 5, (1 << 63) - 1, (1 << 64) - 1):
        if rng.random() < .6:
            c = ["0", "3"]
            c[a] = str(n)
            out.append("new 1 " + " ".join(c))
    out.append("new 0 " + " ".join(caps))
    n = rng.choice([LIMIT, LIMIT - 1, LIMIT - 2, LIMIT - 5])
    out += ["fill 0 %d %d 0" % (a, n), "fill 0 %d %d 0" % (a, LIMIT - n + 1), "fill 0 %d 1 1" % a, "fill 0 %d 1 0" % a]
    if rng.random() < .5:
        out.append("check 0")
    k = rng.randint(1, 5)
    out += ["drain 0 %d %d %s" % (a, k, rng.choice(["fifo", "lifo", "random"])), "fill 0 %d %d 1" % (a, rng.randint(0, k)), "fill 0 %d %d 0" % (a, k + 1), "check 0"]
    if rng.random() < .3:
        out += ["fill 0 %d 1000 0" % (1 - a), "sweep 0 %d %d" % (a, rng.choice([2, 1000])), "fill 0 %d 5000 1" % a, "check 0"]
    return out + ["drop 0"]


def scale_mid(rng, name):
    """Storages whose positions need more than 16 bits."""
    out = ["B " + name, "new 0 %d %d" % tuple(rng.choice([0, 0, 1, 65535, 65536, 65537, 100000, rng.randint(0, 200000)]) for _ in "ab")]
    worlds = [0]
    for _ in range(rng.randint(6, 10)):
        w, a = rng.choice(worlds), rng.randint(0, 1)
        op = rng.choices(["fill", "drain", "sweep", "clone", "drop"], [6, 4, 2, 1, .5 if len(worlds) > 1 else 0])[0]
        if op == "fill":
            out.append("fill %d %d %d %d" % (w, a, rng.choice([65534, 65535, 65536, 65537, 70000, 255, 256, 257, 1, rng.randint(1, 140000)]), rng.random() < .3))
        elif op == "drain":
            out.append("drain %d %d %d %s" % (w, a, rng.choice([1, 2, 255, 65536, 10 ** 6, rng.randint(1, 100000)]), rng.choice(["fifo", "lifo", "random"])))
        elif op == "sweep":
            out.append("sweep %d %d %d" % (w, a, rng.choice([0, 2, 3, 10])))
        elif op == "clone" and len(worlds) < 3:
            to = max(worlds) + 1 if max(worlds) < 3 else next(x for x in range(4) if x not in worlds)
            out.append("clone %d %d" % (w, to))
            worlds.append(to)
        elif op == "drop":
            out.append("drop %d" % w)
            worlds.remove(w)
        if rng.random() < .6:
            out.append("check %d" % rng.choice(worlds))
    return out + ["check %d" % w for w in worlds] + ["drop %d" % w for w in worlds]


def scale(seed, kind, count, tag=""):
    rng = random.Random("%s/scale/%s" % (seed, kind))
    return [(scale_limit if kind == "limit" else scale_mid)(rng, "%sscale-%s-%d" % (tag, kind, i)) for i in range(count)]
