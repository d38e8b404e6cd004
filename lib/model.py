"""The faithful model GecsWorld: exhaustive exploration with TLC, and transition tours of it as plans for the real crate."""
import concurrent.futures as cf
import gzip
import hashlib
import json
import os
import random
import re

import core
import plans as planlib

BASE = dict(Limit="4", MaxGen="9", Wrapping="FALSE", Debug="TRUE", Flaw='""', Worlds="{0}", Arches="{1}", Caps="{0}", MaxEnt="3", MaxRem="3",
            Ops='{"cr", "de"}', Queries='{"all"}', Events="FALSE", Edges="FALSE")


def S(text):
    return "{%s}" % ", ".join('"%s"' % x for x in text.split())


# name: (bounds of the proof, bounds of the tour where they differ)
PROFILES = {
    "store": (dict(Caps="{0, 1, 2, 3}", MaxRem="4"), dict(MaxRem="3")),
    "pair": (dict(Arches="{1, 2}", MaxEnt="2", MaxRem="2", Caps="{0, 2}"), dict(Caps="{0}")),
    "sweep": (dict(Ops=S("cr de id"), Arches="{1, 2}", MaxEnt="2", MaxRem="2", Queries=S("all y xy")), dict()),
    "sweep3": (dict(Ops=S("cr id"), MaxEnt="4", MaxRem="2", Queries=S("x")), dict(MaxEnt="3")),
    "panics": (dict(Ops=S("cr de id boom"), Arches="{2}", MaxEnt="2", MaxRem="3", Queries=S("all")), dict(MaxRem="2")),
    "clone": (dict(Ops=S("cr de cl dw"), Worlds="{0, 1}", MaxEnt="2", MaxRem="2"), dict()),
    "cloneboom": (dict(Ops=S("cr cl dw boom"), Worlds="{0, 1}", Arches="{1, 2}", MaxEnt="2", MaxRem="1", Caps="{2}"), dict()),
    "over": (dict(Ops=S("cr de id ff"), MaxEnt="2", MaxRem="1", Caps="{1, 2}"), dict()),
    "overclone": (dict(Ops=S("cr de ff cl"), MaxEnt="1", MaxRem="1", Worlds="{0, 1}", Caps="{1}"), dict()),
    "overwrap": (dict(Ops=S("cr de id ff"), MaxEnt="1", MaxRem="1", Caps="{1}", Wrapping="TRUE", Debug="FALSE"), dict(MaxEnt="2", Caps="{1, 2}")),
    "look": (dict(Ops=S("cr de it fi wr boom"), Arches="{1, 2}", MaxEnt="2", MaxRem="1", Queries=S("all x y xy")), dict()),
    "events": (dict(Ops=S("cr de ce id"), MaxEnt="2", MaxRem="2", Events="TRUE"), dict()),
}
# every flaw and the profile (with changed bounds) in which it must show
FLAWS = {
    "late_overflow": ("over", {}), "direct_unchecked": ("store", {}), "sweep_stale": ("sweep", {}), "clone_leak": ("cloneboom", {}),
    "drop_leak": ("cloneboom", {}), "no_slot_bump": ("store", {}), "no_arch_bump": ("store", {}), "release_first": ("store", {}),
    "no_fix_last": ("store", {}), "column_skew": ("pair", {"MaxEnt": "3", "Arches": "{2}"}), "grow_all": ("store", {}),
    "clone_generations": ("clone", {}), "clone_head": ("clone", {"MaxEnt": "3", "Caps": "{3}"}), "clone_fresh_ids": ("clone", {}),
    "sweep_forward": ("sweep3", {}), "sweep_skip": ("sweep3", {}), "sweep_break_late": ("sweep", {}), "sweep_last_only": ("sweep", {}),
    "no_bound": ("clone", {"Debug": "FALSE", "Limit": "6", "MaxEnt": "3"}), "free_resolves": ("clone", {}), "direct_bound": ("clone", {"Debug": "FALSE"}),
    "within_grows": ("store", {}), "full_drops": ("store", {}), "destroy_any_keeps": ("store", {}), "event_before_overflow": ("over", {"Events": "TRUE"}),
    "clear_created_only": ("events", {}), "query_any_column": ("sweep", {}), "find_ignores_query": ("look", {}), "forced_destroy": ("pair", {}),
    "ignore_version": ("store", {}),
}
# differences that the properties allow: they must not show
VARIANTS = {"bump_on_create": ("store", {}), "grow_by_one": ("store", {}), "free_fifo": ("store", {}), "sweep_forward_ok": ("sweep", {})}

# the profiles proved by each check; DEEP: further bounds in the thorough tier
PROVES = {
    "C01": ("store", "over"), "C02": ("pair", "look"), "C03": ("clone", "store"), "C04": ("panics", "cloneboom"), "C06": ("look", "sweep3"),
    "C07": ("sweep", "sweep3"), "C08": ("over", "overclone"), "C09": ("store", "look"), "C10": ("panics", "cloneboom"), "C12": ("store", "pair"),
    "C13": ("clone", "overclone"), "C17": ("events",), "C19": ("overwrap", "over"),
}
DEEP = {
    "store": ({"MaxEnt": "4", "MaxRem": "4", "Caps": "{0, 1, 4}", "Limit": "5"}, {"MaxRem": "5", "Caps": "{0, 1}"}, {"MaxEnt": "2", "MaxRem": "6"}),
    "pair": ({"MaxRem": "3"}, {"MaxEnt": "3"}), "sweep": ({"MaxRem": "3"},), "panics": ({"MaxEnt": "3"}, {"MaxRem": "4"}),
    "clone": ({"MaxEnt": "3", "MaxRem": "1"},), "cloneboom": ({"MaxRem": "2", "Arches": "{2}", "Ops": S("cr de cl dw boom")},),
    "over": ({"MaxRem": "2"}, {"MaxEnt": "3"}), "overclone": ({"MaxEnt": "2"},),
}


def spec_hash(consts):
    h = hashlib.md5(json.dumps(sorted(consts.items())).encode())
    for m in ("GecsStore", "GecsAbs", "GecsWorld"):
        with open("%s/%s.tla" % (core.SPEC, m)) as f:
            h.update(f.read().encode())
    return h.hexdigest()[:16]


def tlc(consts, view="FullView", workers=8, timeout=800, heap="8g"):
    d = core.WORK + "/model"
    os.makedirs(d, exist_ok=True)
    cfg = "%s/%s-%d.cfg" % (d, spec_hash(consts), os.getpid())
    with open(cfg, "w") as f:
        f.write("SPECIFICATION Spec\nINVARIANT Refines\nVIEW %s\nCHECK_DEADLOCK FALSE\nCONSTANTS\n" % view)
        f.writelines("  %s = %s\n" % (k, v) for k, v in consts.items() if k in BASE)
    rc, out = core.tlc("GecsWorld", cfg=cfg, workers=workers, timeout=timeout, heap=heap)
    os.remove(cfg)
    return rc, out


def prove(name, workers=8, timeout=800, heap="8g", **more):
    """Explores a profile; (ok, states, transitions, clauses of the counterexample, output)."""
    consts = dict(BASE, **PROFILES[name][0])
    consts.update(more)
    rc, out = tlc(consts, workers=workers, timeout=timeout, heap=heap)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out)
    bad = re.findall(r"/\\ bad = (\{[^}]*\})", out)
    if "Invariant Refines is violated" in out:
        return False, 0, 0, re.findall(r'"(\w+)"', bad[-1]), out
    if consts["Flaw"] != '""' and "The error occurred when TLC was evaluating" in out:
        return False, 0, 0, ["out of bounds"], out
    if rc != 0 or not m:
        raise core.CheckError("TLC on GecsWorld (%s): %s" % (name, out[-1500:]))
    return True, int(m.group(2)), int(m.group(1)), [], out


def proofs(pid, thorough):
    """What the checks of a property prove on the model itself, as evidence. The result does not depend on the implementation."""
    todo = [(n, {}) for n in PROVES.get(pid, ())]
    if thorough:
        todo += [(n, d) for n in PROVES.get(pid, ()) for d in DEEP.get(n, ())]
    out = []
    for n, more in todo:
        row = {"profile": n, "bounds": dict(PROFILES[n][0], **more)}
        try:
            ok, states, trans, bad, _ = prove(n, workers=8 if thorough else 2, timeout=1500 if thorough else 240,
                                            heap="6g" if thorough else "2g", **more)
        except core.CheckError as e:
            row["unfinished"] = str(e)[:300]
        else:
            if not ok:
                raise core.CheckError("GecsWorld (%s, %s) does not refine GecsAbs: %s" % (n, more, bad))
            row.update(states=states, transitions=trans)
        out.append(row)
    flaws = {}
    if thorough:
        for fl, (n, more) in list(FLAWS.items()) + list(VARIANTS.items()):
            if n in PROVES.get(pid, ()):
                ok, _, _, bad, _ = prove(n, Flaw='"%s"' % fl, timeout=1500, **more)
                flaws[fl] = "allowed" if ok else bad
                if ok != (fl in VARIANTS):
                    raise core.CheckError("GecsWorld with %s: %s" % (fl, flaws[fl]))
    return {"refinement": out, **({"flawed_models": flaws} if flaws else {})}


# the model of the macro pipeline: profiles proved by each check, and the flaws that must show (None: must not)
MACRO = {"C05": ("query", "cfg"), "C15": ("ids", "nest"), "C16": ("cfg", "nest")}
MACRO_FLAWS = {"ids": "next_from_max next_from_count wrap start_at_one dup_ok number_first", "cfg": "collect_arch_only last_cfg any_cfg",
               "nest": "shared_comp_ids number_first", "query": "one_first disabled_unmatched match_any"}


def macro(profile, flaw="", workers=2, timeout=300):
    d = core.WORK + "/model"
    os.makedirs(d, exist_ok=True)
    cfg = "%s/macro-%s-%s-%d.cfg" % (d, profile, flaw or "none", os.getpid())
    with open(core.SPEC + "/Macro.cfg") as f:
        text = f.read()
    with open(cfg, "w") as f:
        f.write(re.sub(r'Flaw = ".*"', 'Flaw = "%s"' % flaw, re.sub(r'Profile = ".*"', 'Profile = "%s"' % profile, text)))
    rc, out = core.tlc("Macro", cfg=cfg, workers=workers, timeout=timeout, heap="2g")
    os.remove(cfg)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out)
    v = re.search(r"Invariant (\w+) is violated", out)
    if v:
        return v.group(1)
    if rc != 0 or not m:
        raise core.CheckError("TLC on Macro (%s): %s" % (profile, out[-1500:]))
    return int(m.group(2))


def macro_proofs(pid, thorough):
    res = {}
    for p in MACRO[pid]:
        try:
            n = macro(p, workers=8 if thorough else 2, timeout=1200 if thorough else 240)
        except core.CheckError as e:
            res[p] = {"unfinished": str(e)[:300]}
            continue
        if not isinstance(n, int):
            raise core.CheckError("Macro (%s): %s is violated" % (p, n))
        res[p] = {"states": n, "invariants": ["Refines", "Laws", "Ends"]}
        if thorough:
            res[p]["flawed_models"] = {f: macro(p, f) for f in MACRO_FLAWS[p].split()}
            if any(isinstance(v, int) for v in res[p]["flawed_models"].values()):
                raise core.CheckError("a flaw of Macro does not show: %s" % res[p])
    return res


def edges(name):
    """All transitions between structurally different states: (source, target, label)."""
    consts = dict(BASE, **PROFILES[name][0])
    consts.update(PROFILES[name][1])
    consts["Edges"] = "TRUE"
    rc, out = tlc(consts, view="LeanView")
    if rc != 0 or "No error has been found" not in out:
        raise core.CheckError("TLC on GecsWorld (edges of %s): %s" % (name, out[-1500:]))
    out = sorted(set(re.findall(r'^"EDGE (.*) => (.*) : (.*)"$', out.replace('\\"', "'"), re.M)))
    ids = {}
    return [(ids.setdefault(a, len(ids)), ids.setdefault(b, len(ids)), lab) for a, b, lab in out], ids


def tours(name, seed=0, longest=60):
    """Label sequences that together take every transition."""
    es, ids = edges(name)
    rng = random.Random("%s/%s" % (name, seed))
    out = {}
    for i, (a, b, lab) in enumerate(es):
        if lab != "-":
            out.setdefault(a, []).append((i, b, lab))
    root = (set(a for a, _, _ in es) - set(b for a, b, _ in es if a != b)).pop()
    for v in out.values():
        rng.shuffle(v)
    todo = {i for v in out.values() for i, _, _ in v}
    fresh = {a: [e for e in v] for a, v in out.items()}
    # distance from the root
    parent = {root: None}
    queue = [root]
    for a in queue:
        for e in out.get(a, ()):
            if e[1] not in parent:
                parent[e[1]] = (a, e)
                queue.append(e[1])
    order = {a: i for i, a in enumerate(queue)}
    res = []
    pending = list(queue)
    while todo:
        while pending and not any(e[0] in todo for e in fresh.get(pending[0], ())):
            pending.pop(0)
        if not pending:
            break
        # the shortest way to a state that still has something to offer
        at = pending[0]
        path = []
        a = at
        while parent[a]:
            a, e = parent[a]
            path.append(e)
        path.reverse()
        for e in path:
            todo.discard(e[0])
        while len(path) < longest:
            here = [e for e in fresh.get(at, ()) if e[0] in todo]
            fresh[at] = here
            if here:
                loops = [e for e in here if e[1] == at]
                e = (loops or here)[0]
                path.append(e)
                todo.discard(e[0])
                at = e[1]
                continue
            # look a few steps ahead
            seen = {at: []}
            q = [at]
            found = None
            for b in q:
                if len(seen[b]) > 4 or found:
                    break
                for e in out.get(b, ()):
                    if e[1] not in seen:
                        seen[e[1]] = seen[b] + [e]
                        q.append(e[1])
                        if any(x[0] in todo for x in fresh.get(e[1], ())):
                            found = e[1]
                            break
            if found is None:
                break
            path += seen[found]
            at = found
        res.append([e[2] for e in path])
    return res, len(es), len(ids)


def cached(name):
    """The tours of a profile; committed with the specification, and made again when that has changed."""
    consts = dict(BASE, **PROFILES[name][0])
    consts.update(PROFILES[name][1])
    key = spec_hash(consts)
    path = "%s/tours/%s.json.gz" % (core.SPEC, name)
    alt = "%s/gen/tours-%s-%s.json" % (core.WORK, name, key)
    for p, op in ((path, gzip.open), (alt, open)):
        try:
            with op(p, "rt") as f:
                d = json.load(f)
            if d["key"] == key:
                return d
        except (OSError, ValueError):
            pass
    ts, n, states = tours(name)
    d = {"key": key, "tours": ts, "transitions": n, "states": states}
    os.makedirs(os.path.dirname(alt), exist_ok=True)
    with open(alt, "w") as f:
        json.dump(d, f)
    return d


def write_tours():
    os.makedirs(core.SPEC + "/tours", exist_ok=True)
    for name in PROFILES:
        d = cached(name)
        with open("%s/tours/%s.json.gz" % (core.SPEC, name), "wb") as raw:
            with gzip.GzipFile(fileobj=raw, mode="wb", mtime=0, filename="") as f:
                f.write(json.dumps(d).encode())
        print(name, d["states"], d["transitions"], len(d["tours"]), sum(map(len, d["tours"])))


def to_plan(labels, name, rng):
    """A plan of harness commands for one tour; what the model leaves open is chosen at random."""
    out = ["B " + name]
    at = {}     # handle -> index of its creation
    n = 0
    for lab in labels:
        cmd, _, made = lab.partition(" = ")
        p = cmd.split()
        if made == "" and p[0] == "cr":
            raise core.CheckError("creation without a result: " + lab)
        for i, x in enumerate(p):
            if x.startswith("#"):
                h, _, d = x.partition(":")
                p[i] = str(at[h]) + (":" + d if d else "")
            elif x == "*":
                p[i] = rng.choice({"cr": ["world", "arch", "mut"], "it": ["iter", "iterb"], "fi": ["find", "findb"], "wr": planlib.WRITE}[p[0]])
            elif x == "G":
                p[i] = rng.choice(["we", "ae", "aa"])
            elif x == "H":
                p[i] = rng.choice(["wd", "ad", "ada"])
        if p[0] == "cr":
            if made != "-":
                at[made] = n
            n += 1
        out.append(" ".join(p))
    return out


def plans(name, budget, tag):
    """Seeded choice of tours with about `budget` commands (None: all of them)."""
    d = cached(name)
    rng = random.Random("%s/%s/%s" % (core.SEED, name, tag))
    ts = list(d["tours"])
    rng.shuffle(ts)
    out = []
    for i, t in enumerate(ts):
        if budget is not None and budget <= 0:
            break
        out.append(to_plan(t, "%s%s-%d" % (tag, name, i), rng))
        if budget is not None:
            budget -= len(t)
    return out, d


if __name__ == "__main__":
    import sys
    import time
    if sys.argv[1] == "prove":
        for nm in sys.argv[2:] or PROFILES:
            t = time.time()
            r = prove(nm, timeout=3000)
            print(nm, r[:4], "%.0f s" % (time.time() - t), flush=True)
    elif sys.argv[1] == "flaws":
        for fl in sys.argv[2:] or list(FLAWS) + list(VARIANTS):
            nm, more = {**FLAWS, **VARIANTS}[fl]
            t = time.time()
            r = prove(nm, Flaw='"%s"' % fl, **more)
            print(fl, nm, "CAUGHT" if not r[0] else "missed", r[3], "%.0f s" % (time.time() - t), flush=True)
    elif sys.argv[1] == "tours":
        write_tours()
