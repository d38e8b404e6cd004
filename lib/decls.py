"""C05, C15, C16: declarations and queries as generated programs, accepted or rejected and observed as Decl.tla says."""
import concurrent.futures as cf
import itertools
import random

import core
import model
import prog

NAMES = ["Xa", "Yb", "Zc", "Wd", "Ve", "Uf", "Tg", "Sh"]
BODY = "comp!(%s);\n" % " ".join(NAMES + ["Kind", "KinD", "V2d", "HTTPConn", "HttpConn"] + ["X%d" % i for i in range(40)])
CLAUSES = {
    "C05": {"accepted", "rejected", "matched", "bound", "none", "written", "crash", "judge"},
    "C15": {"accepted", "rejected", "items", "archetype_id", "component_id", "component_id_macro", "handle_id", "select", "crash", "judge"},
    "C16": {"accepted", "rejected", "matched", "bound", "none", "written", "items", "archetype_id", "component_id", "component_id_macro",
            "handle_id", "select", "crash", "judge"},
    "C14": {"accepted", "rejected", "archetype_id", "handle_id", "select", "crash", "judge"},
}


def comp(name, i=-1, cfg=()):
    return {"name": name, "id": i, "cfg": list(cfg)}


def arch(name, comps, i=-1, cfg=()):
    return {"name": name, "id": i, "cfg": list(cfg), "comps": [c if isinstance(c, dict) else comp(c) for c in comps]}


def par(k, names=(), mut=False, cfg=()):
    return {"k": k, "names": list(names), "mut": mut, "cfg": list(cfg)}


def case(decl, queries=(), pop=None, ids=True):
    return {"decl": decl, "queries": list(queries), "pop": pop or [1 + (k * 2) % 3 for k in range(16)], "ids": ids}


# ------------------------------------------------------------------------------------------------------- C15
def c15(scale):
    rnd = random.Random("%s/c15" % core.SEED)
    out = []
    vals = [-1, 0, 1, 2, 255]
    seqs = [s for n in range(1, 4) for s in itertools.product(vals, repeat=n)]
    longer = list(itertools.product(vals, repeat=4))
    seqs += rnd.sample(longer, 120) if scale <= 1 else longer
    seqs += [(253, -1, -1), (253, -1, -1, -1), (254, -1, 0, -1), (254, -1, -1), (256,), (0, 256), (-1, 300), (255, 0, -1), (127, -1, 128), (100, -1, -1, 102), (7, -1, 3, -1, -1, -1, -1),
             (5, 4, -1), (2, 1, 0), (9, -1, 9), (255, -1), (0, 0), (1, 0, -1), (16, -1, 0x10), (200, -1, -1, -1, -1, 10, -1, -1)]
    # runs that count up to, into or past an explicit id, early or late
    for n in range(5, 13):
        for _ in range(max(2, int(12 * scale))):
            start, at = rnd.choice([0, 0, 0, rnd.randint(1, 255 - n)]), rnd.randint(0, n - 2)
            s = [-1] * n
            if start or rnd.random() < .5:
                s[0] = start
            s[at] = start + rnd.choice([n, n + 1, n + 5]) if at else rnd.choice([start + n, start + 3])
            # what follows counts from a lower id: into the explicit one, to just before it, or over it with another explicit one
            if at + 1 < n:
                s[at + 1] = max(0, s[at] - rnd.choice([1, 2, 3, n - at - 2, n - at - 1, n]))
            if rnd.random() < .3:
                s[rnd.randrange(n)] = rnd.randint(0, 2 * n)
            seqs.append(tuple(x if x < 256 else 255 for x in s))
    for s in seqs:
        out.append(case([arch("A%d" % k, ["Xa"], i) for k, i in enumerate(s)], pop=[1] * 12))
    for s in seqs:
        # the same for the components of one archetype; with a second archetype whose ids start afresh
        a = arch("Ar", [comp((NAMES + ["X%d" % j for j in range(8)])[k], i) for k, i in enumerate(s)])
        out.append(case([a] if rnd.random() < .5 else [arch("Before", [comp("Yb", 9), comp("Xa")]), a], pop=[1] * 12))
    for n in range(int(60 * scale)):
        # mixtures, some of them near the limit or with reuse across scopes
        k = rnd.randint(2, 7)
        ids = lambda m, p: [rnd.choice([-1, -1, -1, rnd.randint(0, 255), rnd.choice([0, 250, 251, 252, 253, 254, 255])]) if rnd.random() < p else -1 for _ in range(m)]
        decl = []
        for j, i in enumerate(ids(k, .5)):
            cs = rnd.sample(NAMES, rnd.randint(1, 6))
            decl.append(arch("A%d" % j, [comp(c, ci) for c, ci in zip(cs, ids(len(cs), .4))], i))
        out.append(case(decl, pop=[1] * 12))
    # counting up to and past 255 without any explicit id near it
    return out


# ------------------------------------------------------------------------------------------------------- C05
DECLS = [
    [("Px", ["Xa"]), ("Pxy", ["Xa", "Yb"]), ("Pyx", ["Yb", "Xa"]), ("Pz", ["Zc"]), ("Pxyz", ["Zc", "Yb", "Xa"])],
    [("Aa", ["Xa", "Yb", "Zc", "Wd"]), ("Ab", ["Wd", "Zc"]), ("Ac", ["Yb"]), ("Ad", ["Wd", "Xa"])],
    [("Lone", ["Ve", "Xa"])],
    [("Qab", ["Yb", "Zc"]), ("Qx", ["Xa"]), ("Qd", ["Zc", "Wd"]), ("Qbd", ["Wd", "Yb"]), ("Qxd", ["Wd", "Xa"])],
    # names that contain each other
    [("Foo", ["X1"]), ("FooBar", ["X1", "X2"]), ("Bar", ["X2", "X3"]), ("BarFoo", ["X3"]), ("FooFoo", ["X1", "X2", "X3"])],
    # or differ only by case or by digits
    [("Abc", ["Kind"]), ("AbC", ["KinD", "V2d"]), ("A1b2", ["V2d", "Kind"]), ("ABC2D", ["X1", "X11", "HTTPConn"]), ("A11", ["HttpConn", "X11", "KinD"])],
]


def mkdecl(d):
    return [arch(n, cs) for n, cs in d]


def kinds(d):
    comps = sorted({c for _, cs in d for c in cs})
    archs = [n for n, _ in d]
    ks = [par("comp", [c], m) for c in comps for m in (False, True)]
    ks += [par("one", list(p), m) for p in itertools.combinations(comps, 2) for m in (False, True)]
    ks += [par("one", list(p)[::-1], rnd_mut) for p, rnd_mut in zip(itertools.combinations(comps, 2), itertools.cycle((True, False)))]
    ks += [par("one", [c]) for c in comps] + ([par("one", comps[:3], True)] if len(comps) > 2 else [])
    ks += [par("ent", [a]) for a in archs] + [par("dir", [a]) for a in archs]
    ks += [par("entw"), par("any"), par("dirw"), par("dany")]
    # things the world does not have
    ks += [par("comp", ["Sh"]), par("ent", ["Nowhere"]), par("dir", ["Nowhere"]), par("one", ["Sh", "Tg"]), par("one", ["Sh", comps[0]])]
    ks = [k for k in ks if len(set(k["names"])) == len(k["names"])]  # a name twice in one OneOf: nobody says what that means
    return ks


def overlap(q, archs):
    """Two parameters that could be bound to one column, one of them mutably (rejected by the language, or a conflict at run time)."""
    ps = [p for p in q if p["k"] in ("comp", "one")]
    return any((a["mut"] or b["mut"]) and set(a["names"]) & set(b["names"]) & set(cs) for a, b in itertools.combinations(ps, 2) for cs in archs)


def c05(scale):
    rnd = random.Random("%s/c05" % core.SEED)
    out = []
    cand = []
    for di, d in enumerate(DECLS):
        ks = kinds(d)
        have = [cs for _, cs in d]
        ones = [k for k in ks if k["k"] == "one"]
        qs = [[k] for k in ks] + [list(p) for p in itertools.product(ks, repeat=2)]
        three = []
        for _ in range(int(250 * scale)):
            three.append([dict(rnd.choice(ks)) for _ in range(rnd.choice([3, 3, 4, 5]))])
        # several parameters of a kind that is bound differently from archetype to archetype, with names in common
        shared = [[dict(rnd.choice(ones)) for _ in range(rnd.choice([2, 2, 3]))] + [dict(rnd.choice(ks))] * rnd.randint(0, 1) for _ in range(int(200 * scale))]
        shared = [q for q in shared if set(q[0]["names"]) & set(q[1]["names"]) and q[0]["names"] != q[1]["names"] and not overlap(q, have)]
        qs = [q for q in qs if not overlap(q, have)]
        if scale <= 1:
            qs = qs[:len(ks)] + rnd.sample(qs[len(ks):], 130)
        cand += [(di, q) for q in qs + [q for q in three if not overlap(q, have)][:int(60 * scale)] + shared[:int(40 * scale)]]
    # random worlds
    for n in range(int(40 * scale)):
        comps = rnd.sample(NAMES, rnd.randint(3, 6))
        d = [("R%d" % k, rnd.sample(comps, rnd.randint(1, len(comps)))) for k in range(rnd.randint(2, 7))]
        ks = kinds(d)
        have = [cs for _, cs in d]
        ones = [k for k in ks if k["k"] == "one"]
        cand += [(d, q) for q in ([rnd.choice(ks) for _ in range(rnd.randint(1, 5))] for _ in range(14)) if not overlap(q, have)][:6]
        cand += [(d, q) for q in (rnd.sample(ones, 2) for _ in range(10)) if not overlap(q, have)][:4]
    # which of them the specification accepts decides how they are packed
    probe = [dict(case(mkdecl(DECLS[d] if isinstance(d, int) else d), [q]), n=i) for i, (d, q) in enumerate(cand)]
    _, cls = prog.classify(probe, "C05-probe")
    good = {}
    bad = []
    for c in probe:
        if cls[c["n"]]["queries"][0]:
            good.setdefault(str(c["decl"]), []).append(c)
        else:
            bad.append(c)
    for group in good.values():
        # the population varies with the group: empty archetypes, single entities
        for i in range(0, len(group), 6):
            part = group[i:i + 6]
            out.append(case(part[0]["decl"], [c["queries"][0] for c in part], pop=[rnd.choice([0, 1, 2, 3]) for _ in range(16)], ids=False))
    rnd.shuffle(bad)
    for i, c in enumerate(bad if scale > 1 else bad[:220]):
        c = case(c["decl"], c["queries"], ids=False)
        c["macros"] = list(prog.MACROS) if i % 5 == 0 or scale > 1 else [list(prog.MACROS)[i % 5]]
        out.append(c)
    return out


# ------------------------------------------------------------------------------------------------------- C16
T, T2, FEAT = ["atom", "vt"], ["atom", "vt2"], ["atom", 'feature = "on"']
F, F2, OFF = ["atom", "vf"], ["atom", "vf2"], ["atom", 'feature = "off"']
PREDS = [T, F, T2, F2, FEAT, OFF, ["not", T], ["not", F], ["all", [T, F]], ["any", [F, T]], ["all", [T, ["not", F]]], ["any", [F, F2]],
         ["not", ["any", [F, ["all", [T2, OFF]]]]], ["all", []], ["any", []], ["atom", "unix"], ["atom", "test"], ["not", ["atom", "test"]],
         ["atom", "debug_assertions"], ["not", ["not", ["all", [FEAT, T]]]]]


def cfgset(rnd, p):
    """No, one or several predicates, from few enough to repeat often."""
    if rnd.random() > p:
        return []
    return [rnd.choice(PREDS) for _ in range(rnd.choice([1, 1, 1, 2, 3]))]


def c16(scale):
    rnd = random.Random("%s/c16" % core.SEED)
    out = []
    # every combination of on/off over three archetypes, over three components, and over three parameters
    for bits in itertools.product([0, 1, 2], repeat=3):
        sets = [[[], [T], [F]][b] for b in bits]
        if any(b != 2 for b in bits):
            out.append(case([arch("A%d" % k, ["Xa", "Yb"][:1 + k % 2], cfg=s) for k, s in enumerate(sets)] + [arch("Last", ["Xa"])],
                            [[par("comp", ["Xa"], True), par("entw")]]))
        out.append(case([arch("Ar", [comp(n, cfg=s) for n, s in zip(["Xa", "Yb", "Zc"], sets)] + [comp("Wd")]), arch("Tail", ["Zc"])],
                        [[par("comp", ["Wd"], True), par("any")]]))
        q = [par("comp", ["Xa"], True, sets[0]), par("one", ["Yb", "Zc"], False, sets[1]), par("ent", ["Pq"], False, sets[2]), par("any")]
        for r in (q, q[::-1], [q[3], q[1], q[0], q[2]]):
            out.append(case([arch("Pq", ["Xa", "Yb"]), arch("Pr", ["Zc", "Xa"]), arch("Ps", ["Yb"])], [r], ids=False))
    for i in range(int(80 * scale)):
        comps = rnd.sample([n for n in NAMES if n != "Tg"], rnd.randint(3, 6))
        ids = lambda p: rnd.choice([rnd.randint(0, 255), rnd.randint(0, 4)]) if rnd.random() < p else -1
        decl = []
        for k in range(rnd.randint(2, 6)):
            cs = [comp(c, ids(.15), cfgset(rnd, .5)) for c in rnd.sample(comps, rnd.randint(1, len(comps)))]
            # something that does not exist anywhere, disabled
            if rnd.random() < .3:
                cs.insert(rnd.randint(0, len(cs)), comp("Ghost", ids(.3), [rnd.choice([F, ["not", T], ["all", [T, F]]])]))
            cs.append(comp("Tg"))
            decl.append(arch("A%d" % k, cs, ids(.25), cfgset(rnd, .45)))
        decl.append(arch("Keep", [comp(comps[0]), comp("Tg")]))
        qs = []
        ks = kinds([(a["name"], [c["name"] for c in a["comps"] if c["name"] != "Ghost"]) for a in decl])
        for _ in range(12):
            q = [dict(rnd.choice(ks), cfg=cfgset(rnd, .5)) for _ in range(rnd.randint(1, 5))]
            if rnd.random() < .3:
                q.insert(rnd.randint(0, len(q)), par(rnd.choice(["comp", "ent", "dir"]), ["Ghost"], cfg=[rnd.choice([F, ["any", [F, F2]]])]))
            if not overlap([p for p in q if prog.on(p, prog.TRUTH)], [[c["name"] for c in a["comps"]] for a in decl]):
                qs.append(q)
        out.append(case(decl, qs[:8], pop=[rnd.choice([1, 1, 2, 3]) for _ in range(16)]))
    # queries of one world that the specification rejects become cases of their own
    for i, c in enumerate(out):
        c["n"] = i
    _, cls = prog.classify(out, "C16-probe")
    more = []
    for i, c in enumerate(out):
        if cls[i]["ok"] and not all(cls[i]["queries"]):
            bad = [q for q, ok in zip(c["queries"], cls[i]["queries"]) if not ok]
            c["queries"] = [q for q, ok in zip(c["queries"], cls[i]["queries"]) if ok]
            for j, q in enumerate(bad[:2] if scale <= 1 else bad):
                b = case(c["decl"], [q], ids=False)
                b["macros"] = [list(prog.MACROS)[(i + j) % 5]]
                more.append(b)
        elif not cls[i]["ok"]:
            c["queries"] = []
    return out + more


# ------------------------------------------------------------------------------------------------------- C14
def c14(scale):
    """Worlds of different sizes and ids: the conversions to the Select enums are generated for each of them."""
    rnd = random.Random("%s/c14" % core.SEED)
    edge = [0, 1, 2, 63, 64, 127, 128, 129, 191, 192, 254, 255]
    sets = [[i] for i in edge] + [list(p) for p in itertools.permutations([0, 127, 128, 255], 2)]
    for n in (2, 3, 4, 7, 8, 9, 15, 16, 17):
        sets += [rnd.sample(edge + list(range(3, 60, 7)), n) for _ in range(max(2, int(3 * scale)))]
        sets += [[rnd.randint(0, 256 - n)] + [-1] * (n - 1), [-1] * n]
    return [case([arch("A%d" % k, rnd.sample(NAMES, rnd.choice([1, 2])), i) for k, i in enumerate(ids)], pop=[1] * 20) for ids in sets]


# ------------------------------------------------------------------------------------------------------- C19
def c19(scale):
    """A sample of the others in every feature set and profile; the limit of components per archetype."""
    rnd = random.Random("%s/c19" % core.SEED)
    flat = str  # conditions on debug assertions depend on the profile
    pools = [[c for c in g(.3) if "debug_assertions" not in flat(c)] for g in (c05, c16)] + [rnd.sample(c15(.2), 120)]
    out = []
    for profile in ("dev", "release"):
        for f in range(8):
            feats = tuple(n for i, n in enumerate(("events", "wrap", "c32")) if f >> i & 1)
            mine = [dict(c) for pool in pools for c in rnd.sample(pool, min(len(pool), int(5 * scale)))]
            for n in (1, 16, 17, 32, 33) if scale <= 1 else (1, 2, 15, 16, 17, 31, 32, 33):
                cs = rnd.sample(["X%d" % i for i in range(40)], n)
                q = [[par("comp", [cs[-1]], True), par("entw"), par("comp", [cs[0]])]] if n > 1 else [[par("comp", [cs[0]], True), par("any")]]
                q.append([par("one", [cs[n // 2], "Xa"]), par("dirw")])
                d = [arch("Small", ["Yb"]), arch("Big", cs, rnd.choice([-1, 7]))]
                mine.append(case(d[::rnd.choice([1, -1])], q))
            # a disabled component does not count
            cs = [comp("X%d" % i) for i in range(17 if "c32" not in feats else 33)]
            cs[rnd.randrange(len(cs))]["cfg"] = [F]
            mine.append(case([arch("Big", cs)], [[par("entw")]]))
            for c in mine:
                out.append(dict(c, feats=feats, profile=profile))
    return out


GEN = {"C14": c14, "C05": c05, "C15": c15, "C16": c16, "C19": c19}


def run(pid, scale):
    cases = GEN[pid](scale)
    for i, c in enumerate(cases):
        c["n"] = i + 1
    with cf.ThreadPoolExecutor(1) as pool:
        proof = pool.submit(model.macro_proofs, pid, core.TIER == "thorough") if pid in model.MACRO else None
        broken, info = prog.run(cases, pid, BODY)
        if proof:
            info["model_proof"] = proof.result()
    return [b for b in broken if pid == "C19" or set(b[2]) & CLAUSES[pid]], info, cases
