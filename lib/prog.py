"""Generated programs: writes cases (declarations and queries) as Rust modules, compiles them against /repo's crate,
runs the accepted ones, and logs what happened for DeclTrace to judge."""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess

import core

SUPPORT = r'''
#![allow(dead_code, unused_variables, unused_mut, unused_macros, unused_imports, unexpected_cfgs, unreachable_code)]
use gecs::prelude::*;
pub type Rows = Vec<String>;

pub struct Reg { pub ents: Vec<(EntityAny, u32)>, pub dirs: Vec<(EntityDirectAny, u32)> }
impl Reg {
    pub fn of(&self, e: EntityAny) -> u32 { self.ents.iter().find(|x| x.0 == e).map_or(0, |x| x.1) }
    pub fn dir(&self, e: EntityDirectAny) -> u32 { self.dirs.iter().find(|x| x.0 == e).map_or(0, |x| x.1) }
}
pub trait Comp { const TAG: &'static str; fn make(v: u32) -> Self; fn v(&self) -> u32; fn touch(&mut self); fn touched(&self) -> u32; }
pub trait Code { fn code(&self, r: &Reg) -> String; }
#[macro_export] macro_rules! comp { ($($C:ident)*) => { $(
    #[derive(Clone)] pub struct $C(pub u32, pub u32);
    impl Comp for $C {
        const TAG: &'static str = stringify!($C);
        fn make(v: u32) -> Self { $C(v, 0) }
        fn v(&self) -> u32 { self.0 }
        fn touch(&mut self) { self.1 += 1; }
        fn touched(&self) -> u32 { self.1 }
    }
    impl Code for $C { fn code(&self, _: &Reg) -> String { format!("[\"{}\",0,{}]", stringify!($C), self.0) } }
)* } }
impl<A: Archetype> Code for Entity<A> { fn code(&self, r: &Reg) -> String { format!("[\"T\",{},{}]", A::ARCHETYPE_ID, r.of(self.into_any())) } }
impl Code for EntityAny { fn code(&self, r: &Reg) -> String { format!("[\"Any\",{},{}]", self.archetype_id(), r.of(*self)) } }
impl<A: Archetype> Code for EntityDirect<A> { fn code(&self, r: &Reg) -> String { format!("[\"DT\",{},{}]", A::ARCHETYPE_ID, r.dir(self.into_any())) } }
impl Code for EntityDirectAny { fn code(&self, r: &Reg) -> String { format!("[\"DAny\",{},{}]", self.archetype_id(), r.dir(*self)) } }
pub fn touched<C: Comp>(out: &mut Rows, s: &[C]) { for x in s { for _ in 0..x.touched() { out.push(format!("[\"{}\",{}]", C::TAG, x.v())); } } }
'''


def lib(feats=("events",), profile="dev"):
    c = core.Config(profile, tuple(feats), crate="probes").build()
    deps = "%s/%s/deps" % (c.dir(), "release" if profile == "release" else "debug")
    found = sorted(glob.glob(deps + "/libgecs-*.rlib"), key=os.path.getmtime)
    if not found:
        raise core.CheckError("no library in " + deps)
    return found[-1], deps


CFGS = ["--cfg", "vt", "--cfg", "vt2", "--cfg", 'feature="on"']


def rustc(d, main, out, feats=("events",), profile="dev", check=False, extra=(), timeout=600):
    rlib, deps = lib(feats, profile)
    cmd = ["rustc", "--edition", "2021", "--crate-name", "prog", "--error-format=json", "-C", "debuginfo=0",
           "-C", "opt-level=0", "-C", "codegen-units=4", "--extern", "gecs=" + rlib, "-L", "dependency=" + deps] + CFGS + list(extra)
    if profile == "release":
        cmd += ["-C", "debug-assertions=off", "-C", "overflow-checks=off"]
    cmd += ["--crate-type", "lib", "--emit=metadata"] if check else ["--crate-type", "bin"]
    cmd += [main, "-o", out]
    r = subprocess.run(cmd, cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
    return r.returncode, r.stderr


def files_of(span, acc):
    while span:
        acc.add(os.path.basename(span.get("file_name", "")))
        e = span.get("expansion")
        span = e.get("span") if e else None


def errors(stderr):
    """[(message, code, files it points into)]"""
    out = []
    for ln in stderr.splitlines():
        try:
            m = json.loads(ln)
        except ValueError:
            continue
        if m.get("level") != "error" and not str(m.get("level", "")).startswith("error"):
            continue
        fs = set()
        for s in m.get("spans", []):
            files_of(s, fs)
        for c in m.get("children", []):
            for s in c.get("spans", []):
                files_of(s, fs)
        if m.get("spans") or "aborting" not in m.get("message", ""):
            out.append((m.get("message", ""), (m.get("code") or {}).get("code"), fs))
    return out


class Unit:
    """One module of a generated crate."""

    def __init__(self, key, text, run=None):
        self.key, self.text, self.run = key, text, run


def write_crate(d, units, forbid=True, support=SUPPORT, body=""):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for u in units:
        with open("%s/%s.rs" % (d, u.key), "w") as f:
            f.write(u.text)
    with open(d + "/main.rs", "w") as f:
        f.write(("#![forbid(unsafe_code)]\n" if forbid else "") + support + body)
        f.write("".join("mod %s;\n" % u.key for u in units))
        f.write("fn main() {\n std::panic::set_hook(Box::new(|_| {}));\n")
        for u in units:
            if u.run:
                f.write(' if std::panic::catch_unwind(|| %s::run()).is_err() { println!("{}", r#"{"op":"crash","c":%s}"#); }\n' % (u.key, u.run))
        f.write("}\n")


def diagnose(d, units, **kw):
    """Compiles the units together (no code); returns ({key: messages} of those with errors, exit status)."""
    write_crate(d, units, body=kw.pop("body", ""), forbid=kw.pop("forbid", True), support=kw.pop("support", SUPPORT))
    rc, err = rustc(d, "main.rs", d + "/out.rmeta", check=True, **kw)
    bad = {}
    keys = {u.key + ".rs": u.key for u in units}
    for msg, code, fs in errors(err):
        for f in fs:
            if f in keys:
                bad.setdefault(keys[f], []).append((code or "-", msg[:200]))
    return bad, rc, err


def verdicts(d, units, **kw):
    """{key: None if it compiles, else messages}. An error can hide those of later phases of the compiler in other modules."""
    res = {}
    rest = list(units)
    while rest:
        bad, rc, err = diagnose(d, rest, **kw)
        if rc == 0:
            for u in rest:
                res[u.key] = None
            break
        if not bad:
            if len(rest) == 1:
                res[rest[0].key] = [("?", err[-300:])]
                break
            h = len(rest) // 2
            res.update(verdicts(d, rest[:h], **kw))
            res.update(verdicts(d, rest[h:], **kw))
            break
        res.update(bad)
        rest = [u for u in rest if u.key not in bad]
    shutil.rmtree(d, ignore_errors=True)
    return res


def par(f, items):
    with cf.ThreadPoolExecutor(core.CORES) as ex:
        return list(ex.map(f, items))


def split(xs, n):
    n = max(1, min(n, len(xs)))
    return [xs[i::n] for i in range(n)]


# ---------------------------------------------------------------------------------------- declarations as programs
def pred(p, style=0):
    """A predicate as a token sequence that does not depend on the style: white space and line breaks differ."""
    if p[0] == "atom":
        return p[1] if style != 2 else p[1].replace(" = ", "=")
    args = [p[1]] if p[0] == "not" else p[1]
    form = ("%s(%s)", "%s( %s )", "%s(%s)", "%s (%s\n)")[style]
    return form % (p[0], (", ", " ,", ",", ",\n ")[style].join(pred(x, style) for x in args))


def cfgs(item):
    """Every predicate in one of several spellings, so that one predicate appears in different spellings in one program."""
    seed = len(str(item.get("name", item.get("names"))))
    return "".join("#[cfg(%s)] " % pred(p, (seed + j + item.get("style", 0)) % 4) for j, p in enumerate(item["cfg"]))


def world(case, tag=""):
    # two declarations in one crate must not be the same
    name = "W%d%s" % (case["n"], tag)
    out = ["pub type W = %s;" % name, "ecs_world! {"]
    named = "    ecs_name!(%s);" % name
    if case["n"] % 3:
        out.append(named)
    for a in case["decl"]:
        cs = []
        for c in a["comps"]:
            pid = "#[component_id(%d)] " % c["id"] if c["id"] >= 0 else ""
            # the order of the attributes does not matter, so both are used
            cs.append((cfgs(c) + pid if case["n"] % 2 else pid + cfgs(c)) + c["name"])
        aid = "#[archetype_id(%d)] " % a["id"] if a["id"] >= 0 else ""
        out.append("    %secs_archetype!(%s, %s);" % (cfgs(a) + aid if case["n"] % 2 else aid + cfgs(a), a["name"], ", ".join(cs)))
    if case["n"] % 3 == 0:
        out.append(named)
    return "\n".join(out + ["}"])


def ptype(p):
    m = "&mut " if p["mut"] else "&"
    return m + {"comp": lambda: p["names"][0], "one": lambda: "OneOf<%s>" % ", ".join(p["names"]), "ent": lambda: "Entity<%s>" % p["names"][0],
                "entw": lambda: "Entity<_>", "any": lambda: "EntityAny", "dir": lambda: "EntityDirect<%s>" % p["names"][0],
                "dirw": lambda: "EntityDirect<_>", "dany": lambda: "EntityDirectAny"}[p["k"]]()


def on(item, truth):
    return all(ev(p, truth) for p in item["cfg"])


def ev(p, truth):
    if p[0] == "atom":
        return p[1] in truth
    if p[0] == "not":
        return not ev(p[1], truth)
    return (all if p[0] == "all" else any)(ev(x, truth) for x in p[1])


# what a closure calls its parameters is its own business, so some programs use the names that the macros use
PNAMES = [["p%d" % i for i in range(12)], ["archetype", "version", "slices", "idx", "len", "found", "entity", "closure", "world", "self_", "bound", "query"],
          ["entity", "idx", "entities", "found", "x", "index", "data", "version", "e", "storage", "row", "i"]]


def params(q, style=0):
    return ", ".join("%s%s: %s" % (cfgs(p), PNAMES[style][i], ptype(p)) for i, p in enumerate(q))


def closure_body(q, live, directs=True, style=0):
    N = PNAMES[style]
    ps = [(i, p) for i, p in enumerate(q) if live[i]]
    t = "".join("%s.touch(); " % N[i] for i, p in ps if p["mut"])
    seen = [(i, p) for i, p in ps if directs or not p["k"].startswith("d")]
    return t + "calls.push(format!(\"[%s]\"%s));" % (",".join(["{}"] * len(seen)), "".join(", %s.code(&reg)" % N[i] for i, _ in seen))


TRUTH = {"vt", "vt2", 'feature = "on"', "unix", "debug_assertions", "true"}


def module(case, reduced, pop):
    """A program that shows the ids of the world and what each of its queries does."""
    o = ["use super::*;", "pub mod inner {", "use super::*;", world(case)]
    o.append("pub fn make() -> (W, Reg) {\n let mut w = W::new(); let mut ents: Vec<(EntityAny, u32)> = vec![];")
    n = 0
    for k, a in enumerate(reduced):
        for _ in range(pop[k]):
            n += 1
            o.append(" ents.push((w.create::<%s>((%s,)).into(), %d));" % (a["name"], ", ".join("%s::make(%d)" % (c["name"], n) for c in a["comps"]), n))
    o.append(" let dirs = ents.iter().map(|e| (w.to_direct(e.0).unwrap(), e.1)).collect(); (w, Reg { ents, dirs }) }")
    o.append("pub fn left(w: &W, reg: &Reg) -> String { format!(\"{:?}\", reg.ents.iter().filter(|e| w.contains(e.0)).map(|e| e.1).collect::<Vec<u32>>()) }")
    o.append("pub fn touches(w: &mut W) -> String { let mut t: Rows = vec![];")
    for a in reduced:
        for c in a["comps"]:
            o.append(" touched::<%s>(&mut t, w.archetype_mut::<%s>().get_slice::<%s>());" % (c["name"], a["name"], c["name"]))
    o.append(" format!(\"[{}]\", t.join(\",\")) }")
    if case.get("ids", True):
        o.append("pub fn show() {\n let (mut w, reg) = make(); let mut arch: Rows = vec![];")
        for k, a in enumerate(reduced):
            A = a["name"]
            o.append(" { let mut comps: Rows = vec![]; let e: Entity<%s> = w.create::<%s>((%s,)); let any: EntityAny = e.into(); let d: EntityDirect<%s> = w.to_direct(e).unwrap(); let dany: EntityDirectAny = d.into();"
                     % (A, A, ", ".join("%s::make(0)" % c["name"] for c in a["comps"]), A))
            for c in a["comps"]:
                o.append("  { let mut q: Vec<u8> = vec![]; ecs_iter!(w, |_e: &Entity<%s>, _x: &%s| { q.push(ecs_component_id!(%s)); });" % (A, c["name"], c["name"]))
                o.append("    ecs_iter_borrow!(w, |_x: &%s, _e: &Entity<%s>| { q.push(ecs_component_id!(%s)); }); ecs_find!(w, e, |_x: &%s| { q.push(ecs_component_id!(%s)); }); ecs_find_borrow!(w, any, |_x: &%s| { q.push(ecs_component_id!(%s)); });"
                         % (c["name"], A, c["name"], c["name"], c["name"], c["name"], c["name"]))
                o.append("    comps.push(format!(\"{{\\\"name\\\":\\\"%s\\\",\\\"id\\\":{},\\\"mid\\\":{},\\\"qid\\\":{:?}}}\", <%s as ArchetypeHas<%s>>::COMPONENT_ID, ecs_component_id!(%s, %s), q)); }"
                         % (c["name"], A, c["name"], c["name"], A))
            o.append("  let s1 = SelectArchetype::try_from(<%s as Archetype>::ARCHETYPE_ID).map_or(0, which); let s2 = SelectArchetype::try_from(any).map_or(0, which);" % A)
            o.append("  let s3 = match SelectEntity::try_from(any) { %s _ => 0 }; let s4 = match SelectEntityDirect::try_from(dany) { %s _ => 0 };" % (
                " ".join("Ok(SelectEntity::%s(_)) => %d," % (b["name"], j + 1) for j, b in enumerate(reduced)),
                " ".join("Ok(SelectEntityDirect::%s(_)) => %d," % (b["name"], j + 1) for j, b in enumerate(reduced))))
            o.append("  arch.push(format!(\"{{\\\"name\\\":\\\"%s\\\",\\\"id\\\":{},\\\"hid\\\":[{},{},{},{}],\\\"sel\\\":[{},{},{},{}],\\\"comps\\\":[{}]}}\", %s::ARCHETYPE_ID, e.archetype_id(), any.archetype_id(), d.archetype_id(), dany.archetype_id(), s1, s2, s3, s4, comps.join(\",\"))); w.destroy(e); }"
                     % (A, A))
        o.append(" let lookup: Vec<usize> = (0..=255u8).map(|i| SelectArchetype::try_from(i).map_or(0, which)).collect();")
        o.append(" println!(\"{{\\\"op\\\":\\\"world\\\",\\\"c\\\":%d,\\\"arch\\\":[{}],\\\"lookup\\\":{:?}}}\", arch.join(\",\"), lookup); }" % case["n"])
        o.append("fn which(s: SelectArchetype) -> usize { match s { %s } }" % " ".join("SelectArchetype::%s => %d," % (a["name"], k + 1) for k, a in enumerate(reduced)))
    for k, q in enumerate(case["queries"]):
        live = [on(p, TRUTH) for p in q]
        st = (case["n"] + k) % len(PNAMES)
        P, B = params(q, st), closure_body(q, live, style=st)
        o.append("pub fn q%d() {" % (k + 1))

        def emit(m, key, some, extra="\"calls\":[{}],\"left\":{},\"touched\":{}"):
            return ("println!(\"{{\\\"op\\\":\\\"query\\\",\\\"c\\\":%d,\\\"q\\\":%d,\\\"m\\\":\\\"%s\\\",\\\"key\\\":{},\\\"some\\\":{},%s}}\", %s, %s, calls.join(\",\"), left(&w, &reg), touches(&mut w));"
                    % (case["n"], k + 1, m, extra.replace('"', '\\"'), key, some))

        start = "let (mut w, reg) = make(); let mut calls: Rows = vec![]; "
        o.append(" { %s ecs_iter!(w, |%s| { %s }); %s }" % (start, P, B, emit("iter", "0", "true")))
        o.append(" { %s ecs_iter_borrow!(w, |%s| { %s }); %s }" % (start, P, B, emit("iter_borrow", "0", "true")))
        o.append(" { %s ecs_iter_destroy!(w, |%s| { %s EcsStepDestroy::Continue }); %s }" % (start, P, B, emit("iter_destroy", "0", "true")))
        o.append(" { %s ecs_iter_destroy!(w, |%s| { %s EcsStepDestroy::ContinueDestroy }); let ncalls = calls.len(); println!(\"{{\\\"op\\\":\\\"query\\\",\\\"c\\\":%d,\\\"q\\\":%d,\\\"m\\\":\\\"iter_destroy_all\\\",\\\"key\\\":0,\\\"some\\\":true,\\\"ncalls\\\":{},\\\"left\\\":{},\\\"touched\\\":[]}}\", ncalls, left(&w, &reg)); }"
                 % (start, P, closure_body(q, [x and not q[i]["mut"] for i, x in enumerate(live)], False, style=st), case["n"], k + 1))
        ta = reduced[(case["n"] + k) % len(reduced)]["name"]
        for m, kk in (("find", "e.0"), ("find_borrow", "e.0"), ("find" if k % 2 else "find_borrow", "d")):
            kn = ("key", "entity", "archetype", "version", "found")[(case["n"] + 2 * k) % 5]
            o.append(" for x in 0..%d { %s let e = reg.ents[x]; let d = reg.dirs[x].0; let %s = %s; let some = ecs_%s!(w, %s, |%s| { %s }).is_some(); %s }"
                     % (n, start, kn, kk, m, kn, P, B, emit(m, "e.1", "some")))
        o.append(" for x in 0..%d { %s let e = reg.ents[x]; if let Ok(t) = Entity::<%s>::try_from(e.0) { let some = ecs_%s!(w, t, |%s| { %s }).is_some(); %s } }"
                 % (n, start, ta, "find_borrow" if k % 2 else "find", P, B, emit("find", "e.1", "some")))
        o.append(" for x in 0..%d { %s let e = reg.ents[x]; if let Ok(t) = EntityDirect::<%s>::try_from(reg.dirs[x].0) { let some = ecs_%s!(w, t, |%s| { %s }).is_some(); %s } }"
                 % (n, start, ta, "find" if k % 2 else "find_borrow", P, B, emit("find_borrow", "e.1", "some")))
        # inside the closure of another query, which goes on afterwards
        j = (k + 1) % len(case["queries"])
        q2 = case["queries"][j]
        if not any(p["mut"] for p in q + q2):
            live2 = [on(p, TRUTH) for p in q2]
            inner = "ecs_iter_borrow!(w, |%s| { %s })" if k % 2 else "for e in reg.ents.iter() { ecs_find_borrow!(w, e.0, |%s| { %s }); }"
            inner = inner % (params(q2, st), closure_body(q2, live2, style=st))
            o.append(" { %s let mut first = true; let mut inner: Rows = vec![]; ecs_iter_borrow!(w, |%s| { if first { first = false; let mut calls: Rows = vec![]; %s; inner = calls; } %s }); let ran = !first; %s if ran { let mut calls = inner; %s } }"
                     % (start, P, inner, B, emit("iter_borrow", "0", "true"), emit("iter_borrow", "0", "true").replace('\\"q\\":%d' % (k + 1), '\\"q\\":%d' % (j + 1))))
        o.append("}")
    o.append("}\npub fn run() { %s%s }" % ("inner::show(); " if case.get("ids", True) else "", "".join("inner::q%d(); " % (k + 1) for k in range(len(case["queries"])))))
    return "\n".join(o)


MACROS = {"iter": "ecs_iter!(w, |%s| {{ }})", "iter_borrow": "ecs_iter_borrow!(w, |%s| {{ }})",
          "iter_destroy": "ecs_iter_destroy!(w, |%s| {{ EcsStepDestroy::Continue }})",
          "find": "ecs_find!(w, e, |%s| {{ }})", "find_borrow": "ecs_find_borrow!(w, e, |%s| {{ }})"}


def reject_module(case, q, macro):
    if q is None:
        return "use super::*;\n%s\n" % world(case)
    return "use super::*;\n%s\npub fn go(mut w: W, e: EntityAny) { let _ = %s; }\n" % (world(case, macro.title().replace("_", "")), MACROS[macro].replace("{{", "{").replace("}}", "}") % params(q))


CONTROL = {"n": 0, "decl": [{"name": "Ctl", "id": -1, "cfg": [], "comps": [{"name": "Xa", "id": -1, "cfg": []}]}],
           "queries": [[{"k": "comp", "names": ["Xa"], "mut": True, "cfg": []}]], "pop": [1] * 16}


# ---------------------------------------------------------------------------------------- cases to verdicts
def built(case):
    """The features and the profile a case is compiled with."""
    return case.get("feats", ("events",)), case.get("profile", "dev")


def classify(cases, tag):
    d = "%s/%s" % (core.WORK, tag)
    os.makedirs(d, exist_ok=True)
    path = d + "/cases.ndjson"

    def tla(case):
        return {"n": case["n"], "decl": case["decl"], "queries": case["queries"], "pop": case["pop"],
                "max": 32 if "c32" in built(case)[0] else 16}
    with open(path, "w") as f:
        for c in cases:
            f.write(json.dumps(tla(c)) + "\n")

    def part(i):
        p = "%s/cases-%d.ndjson" % (d, i)
        with open(p, "w") as f:
            for c in cases[i::core.CORES]:
                f.write(json.dumps(tla(c)) + "\n")
        rc, out = core.tlc("DeclClassify", env={"CASES": p}, heap="3g")
        os.remove(p)
        if "No error has been found" not in out:
            raise core.CheckError("TLC on DeclClassify: " + out[-2000:])
        res = {}
        for m in re.finditer(r'<<\s*"CASE",\s*("(?:[^"\\]|\\.)*")\s*>>', out):
            v = json.loads(json.loads(m.group(1)))
            res[v["n"]] = v
        return res
    res = {}
    for r in par(part, range(min(core.CORES, len(cases)))):
        res.update(r)
    if len(res) != len(cases):
        raise core.CheckError("classification lost cases: %d of %d" % (len(res), len(cases)))
    return path, res


def run(cases, tag, body, chunk=12):
    """Judges the cases. Returns ({case number: set of clauses}, statistics, messages)."""
    d = "%s/%s" % (core.WORK, tag)
    shutil.rmtree(d, ignore_errors=True)
    path, cls = classify(cases, tag)
    core.build_all([core.Config(pr, fs, crate="probes") for fs, pr in sorted({built(c) for c in cases})])
    events, pos, neg, msgs = [], {}, {}, {}
    by_n = {c["n"]: c for c in cases}
    for c in cases:
        v = cls[c["n"]]
        if v["ok"] and all(v["queries"]):
            pos.setdefault(built(c), []).append(Unit("c%d" % c["n"], module(c, v["reduced"], c["pop"]), c["n"]))
        elif not v["ok"]:
            neg.setdefault(built(c), []).append(Unit("n%d" % c["n"], reject_module(c, None, None)))
        else:
            # one module for each macro; the query list of a rejected case has one entry
            for m in c.get("macros", MACROS):
                neg.setdefault(built(c), []).append(Unit("n%d_%s" % (c["n"], m), reject_module(c, c["queries"][0], m)))

    def do_pos(x):
        i, units, (feats, profile) = x
        dd = "%s/p%s" % (d, i)
        out, mine, bad_all = [], list(units), {}
        write_crate(dd, mine, body=body)
        rc, err = rustc(dd, "main.rs", dd + "/prog", feats=feats, profile=profile)
        if rc != 0:
            v = verdicts(dd, mine, body=body, feats=feats, profile=profile)
            bad_all = {k: e for k, e in v.items() if e is not None}
            mine = [u for u in mine if u.key not in bad_all]
            write_crate(dd, mine, body=body)
            rc, err = rustc(dd, "main.rs", dd + "/prog", feats=feats, profile=profile)
            if rc != 0:
                # errors that only code generation shows
                for u in mine:
                    bad_all[u.key] = [("?", err[-300:])]
                mine = []
        if mine:
            r = subprocess.run([dd + "/prog"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300)
            out = [ln for ln in r.stdout.splitlines() if ln.startswith("{")]
            shown = {}
            for ln in out:
                e = json.loads(ln)
                shown.setdefault(e["c"], set()).add(e["op"] + str(e.get("q", "")) + e.get("m", ""))
            for u in mine:
                c = by_n[u.run]
                want = {"world"} if c.get("ids", True) else set()
                want |= {"query%d%s" % (k + 1, m) for k in range(len(c["queries"])) for m in ("iter", "iter_borrow", "iter_destroy", "iter_destroy_all")}
                if not want <= shown.get(u.run, set()):
                    out.append(json.dumps({"op": "crash", "c": u.run}))
            if r.returncode != 0:
                last = json.loads(out[-1])["c"] if out else mine[0].run
                out.append(json.dumps({"op": "crash", "c": last}))
        shutil.rmtree(dd, ignore_errors=True)
        return [json.dumps({"op": "accept", "c": u.run, "ok": u.key not in bad_all}) for u in units] + out, bad_all

    def do_neg(x):
        i, units, (feats, profile) = x
        # a program of the same making that has to be accepted guards against rejections for the wrong reason
        v = verdicts("%s/n%s" % (d, i), units + [Unit("control", reject_module(CONTROL, CONTROL["queries"][0], "iter"))], body=body, feats=feats, profile=profile)
        controls.append(v["control"])
        return [json.dumps({"op": "accept", "c": int(re.match(r"n(\d+)", u.key).group(1)), "ok": v[u.key] is None}) for u in units], {
            k: e for k, e in v.items() if e and k != "control"}

    work = [(do_pos, ("%d_%d" % (j, i), us, b)) for j, (b, ps) in enumerate(pos.items()) for i, us in enumerate(split(ps, max(1, (len(ps) + chunk - 1) // chunk)))]
    work += [(do_neg, ("%d_%d" % (j, i), us, b)) for j, (b, ns) in enumerate(neg.items()) for i, us in enumerate(split(ns, max(1, core.CORES // len(neg))))]
    npos, nneg = sum(map(len, pos.values())), sum(map(len, neg.values()))
    rejected_by, controls = {}, []
    for ev_, bad in par(lambda w: w[0](w[1]), work):
        events += ev_
        for k, e in bad.items():
            (msgs if k.startswith("c") else rejected_by)[k] = e
    if not msgs and any(controls):
        raise core.CheckError("the control program is rejected: %s" % [c for c in controls if c][0])
    # index of a case in the file
    idx = {c["n"]: i + 1 for i, c in enumerate(cases)}
    lines = []
    for ln in events:
        e = json.loads(ln)
        e["c"] = idx[e["c"]]
        lines.append(json.dumps(e))
    lines.sort(key=len)

    def judge(i):
        p = "%s/trace-%d.ndjson" % (d, i)
        part = lines[i::core.CORES]
        if not part:
            return [], 0
        with open(p, "w") as f:
            f.write("\n".join(part) + "\n")
        rc, out = core.tlc("DeclTrace", env={"TRACE": p, "CASES": path}, heap="3g")
        flat = re.sub(r"\s+", " ", out)
        m = re.search(r'<<"JUDGED", (\d+), (\d+)>>', flat)
        res = [(int(b.group(1)), b.group(3), re.findall(r'"([^"]*)"', b.group(4)), part[int(b.group(2)) - 1])
               for b in re.finditer(r'<< ?"BROKEN", "(\d+)", (\d+), "([^"]*)", \{(.*?)\}, \{(.*?)\} ?>>', flat)]
        if not m:
            at = re.findall(r"i = (\d+)", out)
            if "Error" in out and at and "evaluat" in out:
                e = json.loads(part[int(at[-1]) - 1])
                res.append((e["c"], e["op"], ["judge"], part[int(at[-1]) - 1]))
                return res, int(at[-1])
            raise core.CheckError("TLC gave no verdict on %s:\n%s" % (p, out[-2000:]))
        if not res and int(m.group(2)):
            raise core.CheckError("lost reports of TLC on " + p)
        return res, int(m.group(1))
    broken, judged = [], 0
    for res, n in par(judge, range(core.CORES)):
        broken += res
        judged += n
    broken = [(cases[i - 1], op, cl, ln, msgs.get("c%d" % cases[i - 1]["n"]) or msgs.get("n%d" % cases[i - 1]["n"])) for i, op, cl, ln in broken]
    kinds = {}
    for ln in lines:
        e = json.loads(ln)
        k = e["op"] + (":" + e["m"] if "m" in e else "")
        kinds[k] = kinds.get(k, 0) + 1
    return broken, {"cases": len(cases), "programs_to_accept": npos, "programs_to_reject": nneg, "events": judged,
                    "events_by_kind": kinds,
                    "rejections_by_message": dict(sorted(count([m[0][1].split("`")[0][:60] for m in rejected_by.values()]).items(), key=lambda x: -x[1])[:12])}


def count(xs):
    out = {}
    for x in xs:
        out[x] = out.get(x, 0) + 1
    return out
