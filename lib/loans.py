"""C18: client programs listed by Loans.tla (references kept across calls, aliased parameters, threads), rustc's verdicts on them,
auto traits, and a scan of what the macros expand to; judged by LoansTrace."""
import json
import os
import random
import re
import shutil
import subprocess

import core
import decls
import prog

SUPPORT = r'''
#![allow(dead_code, unused_variables, unused_mut, unused_imports, unused_assignments, unreachable_code, unused_must_use, dropping_references)]
use gecs::prelude::*;
#[derive(Clone)] pub struct Ca(pub u32);
#[derive(Clone)] pub struct Cb(pub u64);
#[derive(Clone)] pub struct Cc(pub String);
pub fn touch<T: ?Sized>(_: &T) {}
pub fn stat<T: 'static>(_: &T) {}
pub fn copy<T: Clone>(t: &T) -> T { t.clone() }
pub fn consume<T>(_: T) {}
pub mod world { use super::*; ecs_world! { ecs_name!(W); ecs_archetype!(Aa, Ca, Cb); ecs_archetype!(Bb, Ca, Cc); } }
pub use world::*;
'''
ARGS = "mut w: W, mut o: W, mut s: W, e: Entity<Aa>, f: Entity<Bb>, any: EntityAny, d: EntityDirect<Aa>, dany: EntityDirectAny"
NEW = "(Ca(1), Cb(1))"

ACQ = {
    "archref_f": "let l@ = &{w}.aa;", "archref_w": "let l@ = {w}.archetype::<Aa>();",
    "archmut_f": "let l@ = &mut {w}.aa;", "archmut_w": "let l@ = {w}.archetype_mut::<Aa>();",
    "entities_f": "let l@ = {w}.aa.entities();", "entities_w": "let l@ = {w}.archetype::<Aa>().entities();",
    "borrow_entity": "let b@ = {w}.aa.borrow(e).unwrap(); let l@ = b@.entity();",
    "slices_entity": "let l@ = &{w}.aa.get_all_slices_mut().entity[0];",
    "view_entity": "let l@ = {w}.aa.view(e).unwrap().entity;",
    "iter_entity": "let l@ = {w}.aa.iter().next().unwrap().0;",
    "slice_f": "let l@ = {w}.aa.get_slice::<Ca>();", "slice_w": "let l@ = {w}.archetype_mut::<Aa>().get_slice::<Ca>();",
    "slice_elem": "let l@ = &{w}.aa.get_slice::<Ca>()[0];",
    "slice_mut_f": "let l@ = {w}.aa.get_slice_mut::<Ca>();", "slice_mut_w": "let l@ = {w}.archetype_mut::<Aa>().get_slice_mut::<Ca>();",
    "slice_mut_elem": "let l@ = {w}.aa.get_slice_mut::<Ca>().first_mut().unwrap();",
    "slices_f": "let l@ = {w}.aa.get_all_slices_mut();", "slices_w": "let l@ = {w}.archetype_mut::<Aa>().get_all_slices_mut();",
    "slices_field": "let l@ = {w}.aa.get_all_slices_mut().ca;",
    "iter_f": "let l@ = {w}.aa.iter();", "iter_w": "let l@ = {w}.archetype_mut::<Aa>().iter();",
    "iter_item": "let l@ = {w}.aa.iter().next().unwrap().1;",
    "iter_item_late": "let mut it@ = {w}.aa.iter(); let l@ = it@.next().unwrap().1; it@.next();",
    "iter_mut_f": "let l@ = {w}.aa.iter_mut();", "iter_mut_w": "let l@ = {w}.archetype_mut::<Aa>().iter_mut();",
    "iter_mut_item": "let l@ = {w}.aa.iter_mut().next().unwrap().1;",
    "iter_mut_item_late": "let mut it@ = {w}.aa.iter_mut(); let l@ = it@.next().unwrap().1; it@.next();",
    "view_f": "let l@ = {w}.aa.view(e).unwrap();", "view_w": "let l@ = {w}.view(e).unwrap();", "view_direct": "let l@ = {w}.aa.view(d).unwrap();",
    "view_any": "let l@ = {w}.aa.view(any).unwrap();", "view_dany": "let l@ = {w}.aa.view(dany).unwrap();", "view_w_direct": "let l@ = {w}.view(d).unwrap();",
    "view_comp": "let v@ = {w}.aa.view(e).unwrap(); let l@ = v@.component::<Ca>();",
    "view_comp_mut": "let mut v@ = {w}.view(e).unwrap(); let l@ = v@.component_mut::<Ca>();",
    "view_field": "let l@ = {w}.aa.view(e).unwrap().ca;", "view_into": "let l@: &Ca = {w}.view(e).unwrap().ca;",
    "bslice_f": "let l@ = {w}.aa.borrow_slice::<Ca>();", "bslice_w": "let l@ = {w}.archetype::<Aa>().borrow_slice::<Ca>();",
    "bslice_elem": "let l@ = std::cell::Ref::map({w}.aa.borrow_slice::<Ca>(), |s| &s[0]);",
    "bslice_mut_f": "let l@ = {w}.aa.borrow_slice_mut::<Ca>();", "bslice_mut_w": "let l@ = {w}.archetype::<Aa>().borrow_slice_mut::<Ca>();",
    "borrow_comp": "let b@ = {w}.aa.borrow(e).unwrap(); let l@ = b@.component::<Ca>();",
    "borrow_w_comp": "let b@ = {w}.borrow(e).unwrap(); let l@ = b@.component::<Ca>();",
    "borrow_comp_mut": "let b@ = {w}.aa.borrow(e).unwrap(); let l@ = b@.component_mut::<Ca>();",
    "borrow_w_comp_mut": "let b@ = {w}.borrow(e).unwrap(); let l@ = b@.component_mut::<Ca>();",
    "borrow_f": "let l@ = {w}.aa.borrow(e).unwrap();", "borrow_w": "let l@ = {w}.borrow(e).unwrap();",
    "borrow_copy": "let b@ = {w}.aa.borrow(e).unwrap(); let l@ = b@;", "borrow_direct": "let l@ = {w}.aa.borrow(d).unwrap();",
    "borrow_any": "let l@ = {w}.aa.borrow(any).unwrap();", "borrow_dany": "let l@ = {w}.aa.borrow(dany).unwrap();",
    "borrow_w_direct": "let l@ = {w}.borrow(d).unwrap();",
    "created_f": "let l@ = {w}.aa.iter_created();", "destroyed_f": "let l@ = {w}.aa.iter_destroyed();",
    "created_item": "let l@ = {w}.aa.iter_created().next().unwrap();",
    "created_w": "let l@ = {w}.iter_created();", "destroyed_w": "let l@ = {w}.iter_destroyed();",
    "created_w_item": "let l@ = {w}.iter_created().next().unwrap();",
}
OP = {
    "create_w": "{w}.create::<Aa>(%s);" % NEW, "create_f": "{w}.aa.create(%s);" % NEW,
    "cwc_w": "let _ = {w}.create_within_capacity::<Aa>(%s);" % NEW, "cwc_f": "let _ = {w}.aa.create_within_capacity(%s);" % NEW,
    "destroy_w": "{w}.destroy(e);", "destroy_w_direct": "{w}.destroy(d);", "destroy_w_any": "{w}.destroy(any);", "destroy_w_dany": "{w}.destroy(dany);",
    "destroy_f": "{w}.aa.destroy(e);", "destroy_f_direct": "{w}.aa.destroy(d);", "destroy_f_any": "{w}.aa.destroy(any);", "destroy_f_dany": "{w}.aa.destroy(dany);",
    "iter_destroy_one": "ecs_iter_destroy!({w}, |_x: &Entity<Aa>| {{ EcsStepDestroy::ContinueDestroy }});",
    "iter_destroy": "ecs_iter_destroy!({w}, |_x: &Ca| {{ EcsStepDestroy::ContinueDestroy }});",
    "assign_f": "{w}.aa = Aa::new();", "swap_f": "std::mem::swap(&mut {w}.aa, &mut s.aa);", "take_f": "touch(&std::mem::take(&mut {w}.aa));",
    "replace": "{w} = W::new();", "drop": "drop({w});", "take": "touch(&std::mem::take(&mut {w}));", "move": "consume({w});",
    "clear_f": "{w}.aa.clear_events();", "clear_w": "{w}.clear_events();",
    "find_mut": "ecs_find!({w}, e, |_c: &mut Ca| {{ }});", "find_any_mut": "ecs_find!({w}, any, |_c: &mut Ca| {{ }});",
    "iter_mut": "ecs_iter!({w}, |_x: &Entity<Aa>, _c: &mut Ca| {{ }});",
    "iter_destroy_mut": "ecs_iter_destroy!({w}, |_x: &Entity<Aa>, _c: &mut Ca| {{ EcsStepDestroy::Continue }});",
    "find_ref": "ecs_find!({w}, e, |_c: &Ca| {{ }});", "iter_ref": "ecs_iter!({w}, |_x: &Entity<Aa>, _c: &Ca| {{ }});",
    "find_borrow_mut": "ecs_find_borrow!({w}, e, |_c: &mut Ca| {{ }});", "iter_borrow_mut": "ecs_iter_borrow!({w}, |_x: &Entity<Aa>, _c: &mut Ca| {{ }});",
    "find_borrow_ref": "ecs_find_borrow!({w}, e, |_c: &Ca| {{ }});", "iter_borrow_ref": "ecs_iter_borrow!({w}, |_x: &Entity<Aa>, _c: &Ca| {{ }});",
    "clone": "touch(&{w}.clone());", "create_b": "{w}.bb.create((Ca(1), Cc(String::new())));", "destroy_b": "{w}.bb.destroy(f);",
    "iter_mut_b": "ecs_iter!({w}, |_x: &Entity<Bb>, _c: &mut Ca| {{ }});", "len": "let _n = {w}.aa.len();",
}
ONE = "_x: &Entity<Aa>, "
QUERY = {
    "q_find": "ecs_find!(w, e, |l1: &Ca| {{ B }});", "q_find_mut": "ecs_find!(w, e, |l1: &mut Ca| {{ B }});",
    "q_find_any": "ecs_find!(w, any, |l1: &Ca| {{ B }});", "q_find_any_mut": "ecs_find!(w, any, |l1: &mut Ca| {{ B }});",
    "q_find_direct": "ecs_find!(w, d, |l1: &Ca| {{ B }});", "q_find_direct_mut": "ecs_find!(w, d, |l1: &mut Ca| {{ B }});",
    "q_iter": "ecs_iter!(w, |%sl1: &Ca| {{ B }});" % ONE, "q_iter_mut": "ecs_iter!(w, |%sl1: &mut Ca| {{ B }});" % ONE,
    "q_iter_one": "ecs_iter!(w, |%sl1: &OneOf<Ca, Cc>| {{ B }});" % ONE, "q_iter_one_mut": "ecs_iter!(w, |%sl1: &mut OneOf<Ca, Cc>| {{ B }});" % ONE,
    "q_iter_destroy": "ecs_iter_destroy!(w, |%sl1: &Ca| {{ B EcsStepDestroy::Continue }});" % ONE,
    "q_iter_destroy_mut": "ecs_iter_destroy!(w, |%sl1: &mut Ca| {{ B EcsStepDestroy::Continue }});" % ONE,
    "q_find_borrow": "ecs_find_borrow!(w, e, |l1: &Ca| {{ B }});", "q_find_borrow_mut": "ecs_find_borrow!(w, e, |l1: &mut Ca| {{ B }});",
    "q_iter_borrow": "ecs_iter_borrow!(w, |%sl1: &Ca| {{ B }});" % ONE, "q_iter_borrow_mut": "ecs_iter_borrow!(w, |%sl1: &mut Ca| {{ B }});" % ONE,
    "q_find_entity": "ecs_find!(w, e, |l1: &Entity<Aa>| {{ B }});", "q_iter_entity": "ecs_iter!(w, |l1: &Entity<_>, _c: &Cb| {{ B }});",
    "q_borrow_entity": "ecs_iter_borrow!(w, |l1: &Entity<Aa>| {{ B }});",
}
# OneOf<Ca, Cc> would be ambiguous in Bb(Ca, Cc)
for _k in ("q_iter_one", "q_iter_one_mut"):
    QUERY[_k] = QUERY[_k].replace("OneOf<Ca, Cc>", "OneOf<Ca, Cd>")
SUPPORT = SUPPORT.replace("pub fn touch", "#[derive(Clone)] pub struct Cd(pub u8);\npub fn touch", 1)


def acq(l, n, w="w"):
    return ACQ[l].replace("@", str(n)).format(w=w)


def op(x, w="w"):
    return OP[x].format(w=w)


def query(l, body):
    return QUERY[l].replace("{{", "{").replace("}}", "}").replace(" B ", " %s " % body)


U1, U2 = "touch(&l1);", "touch(&l2);"


def text(f, l, x):
    if f == "across":
        b = "%s %s %s" % (acq(l, 1), op(x), U1)
    elif f == "twin":
        b = "{ %s %s } %s" % (acq(l, 1), U1, op(x))
    elif f == "other":
        b = "%s %s %s" % (acq(l, 1), op(x, "o"), U1)
    elif f == "two":
        b = "%s %s %s %s" % (acq(l, 1), acq(x, 2), U2, U1)
    elif f == "mix":
        b = "%s %s %s %s" % (acq(l, 1), acq(x, 2), U1, U2)
    elif f == "twotwin":
        b = "{ %s %s } %s %s" % (acq(l, 1), U1, acq(x, 2), U2)
    elif f == "twoother":
        b = "%s %s %s %s" % (acq(l, 1), acq(x, 2, "o"), U1, U2)
    elif f == "inside":
        b = query(l, "%s %s" % (op(x), U1))
    elif f == "insideother":
        b = query(l, "%s %s" % (op(x, "o"), U1))
    elif f == "insidetwo":
        b = query(l, "%s %s %s" % (acq(x, 2), U1, U2))
    elif f == "insidetwoother":
        b = query(l, "%s %s %s" % (acq(x, 2, "o"), U1, U2))
    elif f == "escape":
        b = "let mut keep = None; %s %s touch(&keep);" % (query(l, "keep = Some(l1);"), op(x))
    elif f == "escapetwin":
        b = "let mut keep = None; %s %s touch(&keep);" % (query(l, "keep = Some(copy(l1));"), op(x))
    elif f in ("static", "statictwin"):
        u = "stat(&l1);" if f == "static" else U1
        b = query(l, u) if l in QUERY else acq(l, 1) + " " + u
    elif f in ("write", "writetwin"):
        i = "l1[0]" if l.startswith("entities") else "*l1"
        u = "let x = %s; " % i + ("%s = x;" % i if f == "write" else "touch(&x);")
        b = query(l, u) if l in QUERY else acq(l, 1) + " " + u
    return "use super::*;\npub fn go(%s) { %s }\n" % (ARGS, b)


def programs():
    """(form, l, x, verdict) as LoansGen lists them"""
    d = "%s/gen" % core.WORK
    os.makedirs(d, exist_ok=True)
    rc, out = core.tlc("LoansGen", heap="2g")
    if "No error has been found" not in out:
        raise core.CheckError("LoansGen: " + out[-2000:])
    res = re.findall(r'<<"PROG", <<"(\w+)", "(\w+)", "(\w*)", "(\w+)">>>>', out)
    return sorted(res)


def sample(progs, scale):
    if scale > 1:
        return progs
    rnd = random.Random("%s/c18" % core.SEED)
    keep = {"across": 1, "twin": .25, "other": .25, "two": .3, "mix": .15, "twotwin": .1, "twoother": .1, "inside": 1, "insideother": .4, "escape": .3,
            "escapetwin": .2, "insidetwo": .5, "insidetwoother": .2, "static": 1, "statictwin": 1, "write": 1, "writetwin": 1}
    out, have = [], set()
    rnd.shuffle(progs)
    for p in progs:
        # every reference and every call in every form, and then a part of the combinations
        new = {(p[0], p[1]), (p[0], "", p[2])} - have
        if rnd.random() < keep[p[0]] or new:
            have |= {(p[0], p[1]), (p[0], "", p[2])}
            out.append(p)
    return out


# -------------------------------------------------------------------------------------------- query parameters
PARAMS = [("Ca", False, False, "Ca"), ("Ca", True, False, "Ca"), ("Cb", False, False, "Cb"), ("Cb", True, False, "Cb"),
          ("OneOf<Cb, Cc>", False, False, "Cb"), ("OneOf<Cb, Cc>", True, False, "Cb"), ("OneOf<Cd, Cb>", True, False, "Cb")]
ENTS = [(t, m, True, "") for t in ("Entity<Aa>", "Entity<_>", "EntityAny", "EntityDirect<Aa>", "EntityDirect<_>", "EntityDirectAny") for m in (False, True)]
MACRO = dict(prog.MACROS)


def queries():
    out = []
    lists = [[p] for p in PARAMS + ENTS] + [[p, q] for p in PARAMS for q in PARAMS] + [[p, q] for p in PARAMS[1:2] for q in ENTS] + [[q, p] for p in PARAMS[:1] for q in ENTS]
    lists += [[PARAMS[1], PARAMS[3], PARAMS[1]], [PARAMS[3], PARAMS[0], ENTS[0], PARAMS[3]], [PARAMS[1], ENTS[4], PARAMS[0]], [PARAMS[1], ENTS[0], PARAMS[3], ENTS[4]]]
    for ps in lists:
        for m in MACRO:
            out.append((m, ps))
    return out


def qtext(m, ps):
    params = ", ".join("p%d: &%s%s" % (i, "mut " if p[1] else "", p[0]) for i, p in enumerate(ps))
    call = (MACRO[m] % params).replace("{{", "{").replace("}}", "}")
    body = "%s;" % call.replace("{ ", "{ %s " % " ".join("touch(p%d);" % i for i in range(len(ps))), 1)
    return "use super::*;\npub fn go(mut w: W, e: Entity<Aa>) { %s }\npub fn run() { let mut w = W::new(); let e = w.create::<Aa>(%s); go(w, e); }\n" % (body, NEW)


# -------------------------------------------------------------------------------------------- auto traits
KINDS = {"both": "Kb", "send": "Ks", "sync": "Ky", "neither": "Kn"}
AUTO = r'''
#![allow(dead_code, unused_variables, unused_mut, unused_imports)]
use gecs::prelude::*;
use std::marker::PhantomData;
pub struct Kb(pub u32);
pub struct Ks(pub std::cell::Cell<u32>);
pub struct Ky(pub PhantomData<std::sync::MutexGuard<'static, u32>>);
pub struct Kn(pub std::rc::Rc<u32>);
pub struct Kb2(pub u32);
pub struct P<T>(PhantomData<T>);
impl<T: Send> P<T> { pub fn send(&self) -> bool { true } }
impl<T: Sync> P<T> { pub fn sync(&self) -> bool { true } }
impl<T: Copy> P<T> { pub fn copy(&self) -> bool { true } }
pub trait No { fn send(&self) -> bool { false } fn sync(&self) -> bool { false } fn copy(&self) -> bool { false } }
impl<T> No for P<T> {}
pub fn val<T>(_: &T) -> P<T> { P(PhantomData) }
pub const fn ty<T>() -> P<T> { P(PhantomData) }
macro_rules! show { ($p:expr, $ty:expr, $comps:expr) => { { let p = $p; println!("{{\"op\":\"auto\",\"ty\":\"{}\",\"comps\":{},\"send\":{},\"sync\":{},\"copy\":{}}}", $ty, $comps, p.send(), p.sync(), p.copy()) } } }
fn make<T>() -> T { panic!() }
'''


ARN = ["Qa", "Qb", "Qc"]


def auto_worlds():
    out = []
    names = list(KINDS)
    sets = [[k for i, k in enumerate(names) if b >> i & 1] for b in range(1, 16)]
    for s in sets:
        out.append([s])
        if len(s) > 1:
            out.append([s[:1], s[1:]])
            out.append([["both"], s])
    out += [[["both"], ["neither"], ["both"]], [["both", "send", "both2"]], [["neither"], ["both"]]]
    return out


def auto_module(k, archs):
    o = ["use super::*;", "pub mod m { use super::*; ecs_world! { ecs_name!(V%d); %s } }" % (k, " ".join(
        "ecs_archetype!(%s, %s);" % (ARN[i], ", ".join(KINDS.get(c, "Kb2") for c in a)) for i, a in enumerate(archs))), "use m::*;", "pub fn run() {"]
    comps = lambda xs: 'r#"%s"#' % json.dumps(["both" if c == "both2" else c for c in xs])
    every = comps([c for a in archs for c in a])
    o.append(' show!(ty::<V%d>(), "world", %s); show!(ty::<EntityAny>(), "any", %s); show!(ty::<EntityDirectAny>(), "dany", %s);' % (k, every, every, every))
    o.append(" let mut w = V%d::new();" % k)
    for i, a in enumerate(archs):
        A, cs = ARN[i], comps(a)
        one = comps(a[:1])
        C = KINDS.get(a[0], "Kb2")
        for t, n in ((A, "archetype"), ("Entity<%s>" % A, "entity"), ("EntityDirect<%s>" % A, "direct"), ("<%s as Archetype>::View<'static>" % A, "view"),
                     ("<%s as Archetype>::Slices<'static>" % A, "slices"), ("<%s as Archetype>::Borrow<'static>" % A, "borrow")):
            o.append(' show!(ty::<%s>(), "%s", %s);' % (t, n, cs))
        o.append(' { let x = w.q%s.iter(); show!(val(&x), "iter", %s); } { let x = w.q%s.iter_mut(); show!(val(&x), "iter_mut", %s); }' % (ARN[i][1], cs, ARN[i][1], cs))
        o.append(' { let x = w.q%s.borrow_slice::<%s>(); show!(val(&x), "guard", %s); } { let x = w.q%s.borrow_slice_mut::<%s>(); show!(val(&x), "guard_mut", %s); }' % (ARN[i][1], C, one, ARN[i][1], C, one))
        o.append(' { let x = w.q%s.get_slice_mut::<%s>(); show!(val(&x), "slice_mut", %s); }' % (ARN[i][1], C, one))
    return "\n".join(o + ["}"])


THREAD = {"share": "std::thread::scope(|s| { s.spawn(|| { touch(&w.qa.len()); }); touch(&w.qa.len()); });",
          "share_arch": "let a = &w.qa; std::thread::scope(|s| { s.spawn(move || { touch(&a.len()); }); });",
          "move": "std::thread::spawn(move || { let mut w = w; w.qa.len(); drop(w); });",
          "mut": "let r = &mut w; std::thread::scope(|s| { s.spawn(move || { touch(&r.qa.len()); }); });",
          "join": "let n = w.qa.len(); std::thread::spawn(move || { touch(&n); }); touch(&w.qa.len());"}


# -------------------------------------------------------------------------------------------- expansions
def scan(src):
    """Counts unsafe code in expanded source: the keyword and the attributes that the lint also knows. Returns (count, samples)."""
    # comments, strings and characters out
    out, i, n = [], 0, len(src)
    while i < n:
        c = src[i]
        if src.startswith("//", i):
            i = src.find("\n", i)
            i = n if i < 0 else i
        elif src.startswith("/*", i):
            depth, i = 1, i + 2
            while i < n and depth:
                if src.startswith("/*", i):
                    depth, i = depth + 1, i + 2
                elif src.startswith("*/", i):
                    depth, i = depth - 1, i + 2
                else:
                    i += 1
        elif (m := re.compile(r'b?r(#*)"').match(src, i)) and not (i and (src[i - 1].isalnum() or src[i - 1] == "_")):
            e = src.find('"' + m.group(1), m.end())
            i = n if e < 0 else e + 1 + len(m.group(1))
            out.append('""')
        elif c == '"':
            i += 1
            while i < n and src[i] != '"':
                i += 2 if src[i] == "\\" else 1
            i += 1
            out.append('""')
        elif c == "'" and (m := re.compile(r"'(\\.[^']*|[^\\'])'").match(src, i)):
            i = m.end()
            out.append("' '")
        else:
            out.append(c)
            i += 1
    flat = "".join(out)
    # what rustc's own derive(Clone, Copy) adds
    flat = re.sub(r"#\[automatically_derived\]\s*#\[doc\(hidden\)\]\s*unsafe impl\s*(<[^{}]*?>)?\s*::core::clone::TrivialClone\s+for\b", "impl derived for", flat)
    hits = [m.start() for m in re.finditer(r"(?<![A-Za-z0-9_#])(unsafe|no_mangle|export_name|link_section)(?![A-Za-z0-9_])", flat)]
    return len(hits), [re.sub(r"\s+", " ", flat[max(0, h - 60):h + 80]) for h in hits[:3]]


def expand(d, name, src, feats):
    rlib, deps = prog.lib(feats)
    os.makedirs(d, exist_ok=True)
    p = "%s/%s.rs" % (d, name)
    with open(p, "w") as f:
        f.write("#![forbid(unsafe_code)]\n" + src)
    base = ["rustc", "--edition", "2021", "--crate-name", "prog", "--crate-type", "lib", "--cap-lints", "forbid", "--extern", "gecs=" + rlib, "-L", "dependency=" + deps] + prog.CFGS
    r = subprocess.run(base + ["-Zunpretty=expanded", p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                       env=dict(os.environ, RUSTC_BOOTSTRAP="1"), timeout=300)
    if r.returncode != 0 or "gecs" not in r.stdout:
        # what does not expand is not judged here: other checks report it
        return json.dumps({"op": "crate", "ok": False, "what": r.stderr[-600:]}), 0
    n, where = scan(r.stdout)
    return json.dumps({"op": "expand", "unsafe": n, "what": where}), len(r.stdout)


def wide(n, name="Wd"):
    cs = ["K%d" % i for i in range(n)]
    return ("".join("#[derive(Clone, Default)] pub struct %s(pub u32);\n" % c for c in cs) + "ecs_world! { ecs_name!(%s); %s ecs_archetype!(Foo, %s); ecs_archetype!(Bar, K0); }\n"
            % (name, "", ", ".join(cs)) + "pub fn q(w: &mut %s, e: Entity<Foo>) { ecs_iter!(w, |_a: &mut K0, _e: &Entity<_>| {}); ecs_find!(w, e, |%s| {}); }\n"
            % (name, ", ".join("_%s: &mut %s" % (c.lower(), c) for c in cs)))


def expansions(d, scale):
    """Sources that use everything the macros can emit."""
    out = []
    loans = SUPPORT + "".join("pub mod l%d { %s }\n" % (i, text(f, l, x).replace("use super::*;", "use super::*;")) for i, (f, l, x) in enumerate(
        [("insideother", q, x) for q in QUERY for x in sorted(OP) if x not in ("drop", "move")][::7] + [("twin", l, "len") for l in ACQ] + [("twin", "archref_f", x) for x in OP]))
    out.append(("loans", loans, ("events",)))
    ents = ", ".join(["&Entity<Aa>", "&Entity<_>", "&EntityAny", "&EntityDirect<Aa>", "&EntityDirect<_>", "&EntityDirectAny", "&mut Ca", "&OneOf<Cb, Cc>"])
    ps = ", ".join("_p%d: %s" % (i, t) for i, t in enumerate(ents.split(", ")[:7])) + ", _q: &OneOf<Cb, Cc>"
    calls = "".join("pub fn k_%s_%d(mut w: W, e: %s) { %s; }\n" % (m, j, k, (t % ps).replace("{{", "{").replace("}}", "}")) for m, t in MACRO.items()
                    for j, k in enumerate(["Entity<Aa>", "EntityAny", "EntityDirect<Aa>", "EntityDirectAny"]) if j == 0 or "find" in m)
    calls += "pub const ID: u8 = ecs_component_id!(Ca, Aa);\npub fn ids(mut w: W) { ecs_iter!(w, |_c: &Ca| { touch(&ecs_component_id!(Ca)); }); }\n"
    plain = SUPPORT + calls
    for feats in (("events",), (), ("c32",), ("wrap",)):
        out.append(("calls-%s" % "".join(feats), plain, feats))
        for n in (1, 16) + ((17, 32) if feats == ("c32",) else ()):
            out.append(("wide%d-%s" % (n, "".join(feats)), "use gecs::prelude::*;\n" + wide(n), feats))
    rnd = random.Random("%s/c18x" % core.SEED)
    for pid in ("C15", "C16"):
        cs = decls.GEN[pid](1.0)
        for i, c in enumerate(cs):
            c["n"] = i + 1
        path, cls = prog.classify(cs, "C18-" + pid)
        good = [c for c in cs if cls[c["n"]]["ok"] and all(cls[c["n"]]["queries"])]
        pick = rnd.sample(good, min(len(good), 16 if scale <= 1 else 120))
        for j in range(0, len(pick), 4):
            src = prog.SUPPORT + decls.BODY + "".join("pub mod c%d { %s }\n" % (c["n"], prog.module(c, cls[c["n"]]["reduced"], c["pop"])) for c in pick[j:j + 4])
            out.append(("%s-%d" % (pid, j), src, ("events",)))
    return out


# -------------------------------------------------------------------------------------------- all of it
def run(scale):
    d = core.WORK + "/C18"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for fs in {("events",), (), ("c32",), ("wrap",)}:
        prog.lib(fs)
    progs = sample(programs(), scale)
    info = {"programs": len(progs)}
    events, what = [], []

    def add(e, source):
        events.append(e if isinstance(e, str) else json.dumps(e))
        what.append(source)
    # the programs of the specification
    units, meta = [], {}
    for i, (f, l, x, v) in enumerate(progs):
        k = "p%d" % i
        units.append(prog.Unit(k, text(f, l, x)))
        meta[k] = ({"op": "prog", "form": f, "l": l, "x": x}, units[-1].text, v)
    qs = queries()
    for i, (m, ps) in enumerate(qs):
        k = "q%d" % i
        units.append(prog.Unit(k, qtext(m, ps)))
        meta[k] = ({"op": "query", "params": [{"col": p[3], "mut": p[1], "entity": p[2]} for p in ps], "checked": "borrow" in m, "panics": False, "macro": m}, units[-1].text,
                   "no" if any(p[1] and p[2] for p in ps) else "?")
    # programs expected to compile apart from the others: errors of one phase hide those of the next
    good = [u for u in units if meta[u.key][2] == "yes"]
    rest = [u for u in units if meta[u.key][2] != "yes"]
    parts = [("g%d" % i, p) for i, p in enumerate(prog.split(good, core.CORES))] + [("b%d" % i, p) for i, p in enumerate(prog.split(rest, core.CORES))]
    ok, msgs = {}, {}
    for v in prog.par(lambda p: prog.verdicts("%s/%s" % (d, p[0]), p[1], support=SUPPORT), parts):
        for k, e in v.items():
            ok[k] = e is None
            msgs[k] = e
    # aliasing parameters that compile have to panic
    aliased = [u for u in units if meta[u.key][0]["op"] == "query" and ok[u.key] and meta[u.key][0]["checked"]]
    if aliased:
        for u in aliased:
            u.run = '"%s"' % u.key
        dd = d + "/alias"
        prog.write_crate(dd, aliased, support=SUPPORT)
        rc, err = prog.rustc(dd, "main.rs", dd + "/prog")
        if rc == 0:
            r = subprocess.run([dd + "/prog"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=120)
            for ln in r.stdout.splitlines():
                if ln.startswith("{"):
                    meta[json.loads(ln)["c"]][0]["panics"] = True
    for u in units:
        e, src, _ = meta[u.key]
        add(dict(e, ok=ok[u.key]), "%s\n%s" % (src, msgs[u.key] or ""))
    # auto traits, and threads
    worlds = auto_worlds()
    au = [prog.Unit("w%d" % k, auto_module(k, a), '"w%d"' % k) for k, a in enumerate(worlds)]
    tu, tm = [], {}
    for k, a in enumerate(worlds):
        cs = ["both" if c == "both2" else c for x in a for c in x]
        for h, t in THREAD.items():
            key = "t%d_%s" % (k, h)
            first = ["both" if c == "both2" else c for c in a[0]]
            decl = "ecs_world! { ecs_name!(T%d%s); %s }" % (k, h.title().replace("_", ""), " ".join("ecs_archetype!(%s, %s);" % (ARN[i], ", ".join(KINDS.get(c, "Kb2") for c in x)) for i, x in enumerate(a)))
            tu.append(prog.Unit(key, "use super::*;\npub mod m { use super::*; %s }\nuse m::*;\npub fn touch<T>(_: &T) {}\npub fn go(mut w: T%d%s) { %s }\n" % (decl, k, h.title().replace("_", ""), t)))
            tm[key] = {"op": "thread", "how": {"share_arch": "share", "mut": "move"}.get(h, h), "comps": cs}
    dd = d + "/auto"
    v = prog.verdicts(dd, au, support=AUTO)
    prog.write_crate(dd, [u for u in au if v[u.key] is None], support=AUTO)
    rc, err = prog.rustc(dd, "main.rs", dd + "/prog")
    if rc != 0:
        raise core.CheckError("auto trait program: " + err[-500:])
    r = subprocess.run([dd + "/prog"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=120)
    seen = 0
    for ln in r.stdout.splitlines():
        if ln.startswith("{"):
            add(ln, ln)
            seen += 1
    for u in au:
        if v[u.key] is not None:
            add({"op": "crate", "ok": False, "what": str(v[u.key])}, u.text)
    info["auto_traits"] = seen
    parts = [("t%d" % i, p) for i, p in enumerate(prog.split(tu, core.CORES))]
    for v in prog.par(lambda p: prog.verdicts("%s/%s" % (d, p[0]), p[1], support=AUTO), parts):
        for k, e in v.items():
            add(dict(tm[k], ok=e is None), "%s: %s" % (k, e))
    # expansions
    xs = expansions(d, scale)
    size = 0
    for x, (e, n) in zip(xs, prog.par(lambda x: expand(d + "/x", x[0], x[1], x[2]), xs)):
        add(e, "%s: %s" % (x[0], e))
        size += n
    info["expansions"] = len(xs)
    info["expanded_bytes"] = size
    info["rejections_by_code"] = prog.count([m[0][0] for k, m in msgs.items() if m])
    by = {}
    for e in map(json.loads, events):
        k = e["op"] + (":" + e["form"] if "form" in e else "") + (":accepted" if e.get("ok") else ":rejected" if "ok" in e else "")
        by[k] = by.get(k, 0) + 1
    info["events_by_kind"] = by
    broken, judged = [], 0

    def judge(i):
        p = "%s/trace-%d.ndjson" % (d, i)
        with open(p, "w") as f:
            f.write("".join(e + "\n" for e in events[i::core.CORES]))
        rc, out = core.tlc("LoansTrace", env={"TRACE": p}, heap="2g")
        m = re.search(r'<<"JUDGED", (\d+), (\d+)>>', out)
        if not m:
            raise core.CheckError("TLC gave no verdict on %s:\n%s" % (p, out[-2000:]))
        res = [(i + core.CORES * (int(b.group(1)) - 1), re.findall(r'"([^"]*)"', b.group(2))) for b in re.finditer(r'<< ?"BROKEN", (\d+), \{(.*?)\} ?>>', re.sub(r'\s+', ' ', out))]
        if not res and int(m.group(2)):
            raise core.CheckError("lost reports of TLC on " + p)
        return res, int(m.group(1))
    for res, n in prog.par(judge, range(core.CORES)):
        broken += [(events[k], cl, what[k]) for k, cl in res]
        judged += n
    if judged != len(events):
        raise core.CheckError("judged %d of %d events" % (judged, len(events)))
    info["events"] = judged
    return broken, info
