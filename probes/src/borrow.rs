//! Runs scripts of runtime-borrowed accesses on the real crate and logs what was granted and refused.
use gecs::prelude::*;
use std::cell::{Cell, RefCell};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

// The value tells the archetype: the clone of a component is a place from which a script may go on
pub struct CompX(i64);
pub struct CompY(i64);
pub struct CompZ;
pub struct CompW(Box<i64>);

thread_local! { static NOW: Cell<Option<&'static Run<'static>>> = const { Cell::new(None) }; }
fn cloned(a: usize, c: &str) {
    if let Some(r) = NOW.with(|n| n.get()) { r.in_clone(a, c); }
}
impl Clone for CompX { fn clone(&self) -> Self { cloned(match self.0 { 5 => 2, 8 => 3, _ => 1 }, "X"); CompX(self.0) } }
impl Clone for CompY { fn clone(&self) -> Self { cloned(if self.0 == 7 { 3 } else { 1 }, "Y"); CompY(self.0) } }
impl Clone for CompZ { fn clone(&self) -> Self { cloned(3, "Z"); CompZ } }
impl Clone for CompW { fn clone(&self) -> Self { cloned(4, "W"); CompW(self.0.clone()) } }

ecs_world! {
    ecs_name!(Wb);
    ecs_archetype!(ArchXy, CompX, CompY);
    ecs_archetype!(ArchX, CompX);
    ecs_archetype!(ArchYzx, CompY, CompZ, CompX);
    ecs_archetype!(ArchW, CompW);
}

trait Held {}
impl<T> Held for T {}

struct Run<'w> {
    w: &'w Wb,
    ents: Vec<(usize, EntityAny)>,
    ops: Vec<Vec<String>>,
    pos: Cell<usize>,
    guards: RefCell<Vec<Option<Box<dyn Held + 'w>>>>,
    log: RefCell<String>,
    inside: RefCell<Option<(usize, String)>>,
}

struct Unwind;

impl<'w> Run<'w> {
    fn put(&self, s: &str) {
        let mut l = self.log.borrow_mut();
        l.push_str(s);
        l.push('\n');
    }
    fn arch(&self, e: EntityAny) -> usize {
        self.ents.iter().find(|x| x.1 == e).map_or(0, |x| x.0)
    }
    fn entity(&self, a: usize, k: usize) -> EntityAny {
        let v: Vec<EntityAny> = self.ents.iter().filter(|x| x.0 == a).map(|x| x.1).collect();
        v[k % v.len()]
    }

    fn count(&self, a: usize) -> usize {
        self.ents.iter().filter(|x| x.0 == a).count()
    }

    /// The clone of component c of an entity of archetype a has been called.
    fn in_clone(&self, a: usize, c: &str) {
        let here = matches!(&*self.inside.borrow(), Some((x, y)) if *x == a && y == c);
        if here {
            *self.inside.borrow_mut() = None;
            self.put(&format!("{{\"op\":\"inclone\",\"a\":{},\"c\":\"{}\"}}", a, c));
            if self.frame() == "p" {
                self.put("{\"op\":\"ret\",\"how\":\"unwind\"}");
                resume_unwind(Box::new(Unwind));
            }
            self.put("{\"op\":\"ret\",\"how\":\"ok\"}");
        }
    }

    fn acquire(&self, slice: bool, a: usize, c: &str, m: bool, k: usize) -> Option<Box<dyn Held + 'w>> {
        let w = self.w;
        let any = || self.entity(a, k);
        macro_rules! sl { ($f:ident, $C:ty) => { if m { Box::new(w.$f.borrow_slice_mut::<$C>()) as Box<dyn Held + 'w> } else { Box::new(w.$f.borrow_slice::<$C>()) as Box<dyn Held + 'w> } } }
        // The borrow handle has to live as long as the guards it gives out
        macro_rules! co { ($A:ident, $f:ident, $C:ty) => {{
            let e = any();
            let t = Entity::<$A>::try_from(e).unwrap();
            let b: &'w _ = if k % 2 == 0 { &*Box::leak(Box::new(w.borrow(t).unwrap())) } else { &*Box::leak(Box::new(w.$f.borrow(e).unwrap())) };
            if m { Box::new(b.component_mut::<$C>()) as Box<dyn Held + 'w> } else { Box::new(b.component::<$C>()) as Box<dyn Held + 'w> }
        }} }
        Some(match (slice, a, c) {
            (true, 1, "X") => sl!(arch_xy, CompX),
            (true, 1, "Y") => sl!(arch_xy, CompY),
            (true, 2, "X") => sl!(arch_x, CompX),
            (true, 3, "X") => sl!(arch_yzx, CompX),
            (true, 3, "Y") => sl!(arch_yzx, CompY),
            (true, 3, "Z") => sl!(arch_yzx, CompZ),
            (true, 4, "W") => sl!(arch_w, CompW),
            (false, 1, "X") => co!(ArchXy, arch_xy, CompX),
            (false, 1, "Y") => co!(ArchXy, arch_xy, CompY),
            (false, 2, "X") => co!(ArchX, arch_x, CompX),
            (false, 3, "X") => co!(ArchYzx, arch_yzx, CompX),
            (false, 3, "Y") => co!(ArchYzx, arch_yzx, CompY),
            (false, 3, "Z") => co!(ArchYzx, arch_yzx, CompZ),
            (false, 4, "W") => co!(ArchW, arch_w, CompW),
            _ => return None,
        })
    }

    /// Skips to the end of the frame that was just opened.
    fn skip(&self) {
        let mut depth = 1;
        while depth > 0 {
            let p = self.pos.get();
            if p >= self.ops.len() { return; }
            match self.ops[p][0].as_str() {
                "f" | "i" | "K" => depth += 1,
                "x" | "xb" | "p" => depth -= 1,
                _ => {}
            }
            self.pos.set(p + 1);
        }
    }

    /// Runs until the end of the current frame; tells how the frame ends.
    fn frame(&self) -> &'static str {
        loop {
            let p = self.pos.get();
            if p >= self.ops.len() { return "x"; }
            self.pos.set(p + 1);
            let op = &self.ops[p];
            match op[0].as_str() {
                "x" => return "x",
                "xb" => return "xb",
                "p" => return "p",
                "s" | "c" => {
                    // s A C mode slot : a guard on a column
                    let (a, g): (usize, usize) = (op[1].parse().unwrap(), op[4].parse().unwrap());
                    let m = op[3] == "m";
                    let r = catch_unwind(AssertUnwindSafe(|| self.acquire(op[0] == "s", a, &op[2], m, p)));
                    let res = match r {
                        Ok(Some(x)) => { self.guards.borrow_mut()[g] = Some(x); "ok" }
                        Ok(None) => "none",
                        Err(_) => "panic",
                    };
                    self.put(&format!("{{\"op\":\"acq\",\"g\":{},\"a\":{},\"c\":\"{}\",\"m\":{},\"via\":\"{}\",\"res\":\"{}\"}}", g, a, op[2], m, op[0], res));
                }
                "r" => {
                    let g: usize = op[1].parse().unwrap();
                    let old = self.guards.borrow_mut()[g].take();
                    drop(old);
                    self.put(&format!("{{\"op\":\"rel\",\"g\":{}}}", g));
                }
                "k" => {
                    let r = catch_unwind(AssertUnwindSafe(|| { let c = self.w.clone(); c.arch_xy.len() }));
                    self.put(&format!("{{\"op\":\"clone\",\"res\":\"{}\"}}", if r.is_ok() { "ok" } else { "panic" }));
                }
                "K" => {
                    // K A C : a clone of the world; the script goes on in the clone of component C of archetype A
                    let a: usize = op[1].parse().unwrap();
                    self.put("{\"op\":\"enter\",\"kind\":\"clone\",\"q\":0,\"a\":0}");
                    *self.inside.borrow_mut() = Some((a, op[2].clone()));
                    let r = catch_unwind(AssertUnwindSafe(|| { let c = self.w.clone(); c.arch_xy.len() }));
                    if self.inside.borrow_mut().take().is_some() { self.skip(); }
                    self.put(&format!("{{\"op\":\"leave\",\"res\":\"{}\"}}", match r { Ok(_) => "ok", Err(p) => if p.is::<Unwind>() { "unwound" } else { "panic" } }));
                }
                "f" => {
                    let (a, q): (usize, usize) = (op[1].parse().unwrap(), op[2].parse().unwrap());
                    self.query(false, q, a, Some(self.entity(a, p)), p + a);
                }
                "i" => {
                    let (a, q): (usize, usize) = (op[1].parse().unwrap(), op[2].parse().unwrap());
                    self.query(true, q, a, None, 0);
                }
                "z" => self.probe(p),
                x => panic!("unknown op {}", x),
            }
        }
    }

    /// Tries every access there is and gives it up at once.
    fn probe(&self, k: usize) {
        let cells = [(1, "X"), (1, "Y"), (2, "X"), (3, "Y"), (3, "Z"), (3, "X"), (4, "W")];
        let (mut acq, mut find, mut iter) = (vec![], vec![], vec![]);
        for (a, c) in cells {
            for m in [false, true] {
                for via in ["s", "c"] {
                    if via == "c" && self.count(a) == 0 { continue; }
                    let r = catch_unwind(AssertUnwindSafe(|| drop(self.acquire(via == "s", a, c, m, k + acq.len()))));
                    acq.push(format!("[{},\"{}\",{},\"{}\",\"{}\"]", a, c, m, via, if r.is_ok() { "ok" } else { "panic" }));
                }
            }
        }
        for q in 0..10 {
            for a in (1..=4).filter(|a| self.count(*a) > 0) {
                let seen = RefCell::new(vec![]);
                let r = catch_unwind(AssertUnwindSafe(|| self.with(q, Some(self.entity(a, k + find.len())), k / 3 + find.len() / 4, &|e| { seen.borrow_mut().push(self.arch(*e)); false })));
                find.push(format!("[{},{},\"{}\",{:?}]", a, q + 1, match r { Ok(true) => "ok", Ok(false) => "none", Err(_) => "panic" }, seen.borrow()));
            }
            let seen = RefCell::new(vec![]);
            let r = catch_unwind(AssertUnwindSafe(|| self.with(q, None, 0, &|e| { seen.borrow_mut().push(self.arch(*e)); false })));
            iter.push(format!("[{},\"{}\",{:?}]", q + 1, if r.is_ok() { "ok" } else { "panic" }, seen.borrow()));
        }
        let r = catch_unwind(AssertUnwindSafe(|| { let c = self.w.clone(); c.arch_xy.len() }));
        self.put(&format!("{{\"op\":\"probe\",\"acq\":[{}],\"find\":[{}],\"iter\":[{}],\"clone\":\"{}\"}}", acq.join(","), find.join(","), iter.join(","), if r.is_ok() { "ok" } else { "panic" }));
    }

    /// A closure call on entity e; returns whether the iteration is to be stopped.
    fn call(&self, e: EntityAny, want: usize, done: &Cell<bool>, iter: bool) -> bool {
        let a = self.arch(e);
        self.put(&format!("{{\"op\":\"call\",\"a\":{}}}", a));
        let mut stop = false;
        if a == want && !done.get() {
            done.set(true);
            let how = self.frame();
            if how == "p" {
                self.put("{\"op\":\"ret\",\"how\":\"unwind\"}");
                resume_unwind(Box::new(Unwind));
            }
            stop = how == "xb" && iter;
        }
        self.put(&format!("{{\"op\":\"ret\",\"how\":\"{}\"}}", if stop { "break" } else { "ok" }));
        stop
    }

    fn direct(&self, e: EntityAny) -> EntityDirectAny {
        let w = self.w;
        match self.arch(e) {
            1 => w.arch_xy.to_direct(Entity::<ArchXy>::try_from(e).unwrap()).unwrap().into(),
            2 => w.arch_x.to_direct(Entity::<ArchX>::try_from(e).unwrap()).unwrap().into(),
            3 => w.arch_yzx.to_direct(Entity::<ArchYzx>::try_from(e).unwrap()).unwrap().into(),
            _ => w.arch_w.to_direct(Entity::<ArchW>::try_from(e).unwrap()).unwrap().into(),
        }
    }

    /// ecs_iter_borrow! (no entity) or ecs_find_borrow! on the entity
    fn with(&self, q: usize, e: Option<EntityAny>, key: usize, go: &dyn Fn(&EntityAny) -> bool) -> bool {
        let w = self.w;
        macro_rules! both { ($($p:ident : $t:ty),*) => {
            if let Some(e) = e {
                let d = self.direct(e);
                match (key % 4, self.arch(e)) {
                    (1, _) => ecs_find_borrow!(w, d, |e2: &EntityAny, $($p: $t),*| { go(e2) }).is_some(),
                    (2, 1) => { let t = Entity::<ArchXy>::try_from(e).unwrap(); ecs_find_borrow!(w, t, |e2: &EntityAny, $($p: $t),*| { go(e2) }).is_some() }
                    (2, 2) => { let t = Entity::<ArchX>::try_from(e).unwrap(); ecs_find_borrow!(w, t, |e2: &EntityAny, $($p: $t),*| { go(e2) }).is_some() }
                    (2, 3) => { let t = Entity::<ArchYzx>::try_from(e).unwrap(); ecs_find_borrow!(w, t, |e2: &EntityAny, $($p: $t),*| { go(e2) }).is_some() }
                    (2, 4) => { let t = Entity::<ArchW>::try_from(e).unwrap(); ecs_find_borrow!(w, t, |e2: &EntityAny, $($p: $t),*| { go(e2) }).is_some() }
                    (3, 1) => { let t = EntityDirect::<ArchXy>::try_from(d).unwrap(); ecs_find_borrow!(w, t, |e2: &EntityAny, $($p: $t),*| { go(e2) }).is_some() }
                    (3, 2) => { let t = EntityDirect::<ArchX>::try_from(d).unwrap(); ecs_find_borrow!(w, t, |e2: &EntityAny, $($p: $t),*| { go(e2) }).is_some() }
                    (3, 3) => { let t = EntityDirect::<ArchYzx>::try_from(d).unwrap(); ecs_find_borrow!(w, t, |e2: &EntityAny, $($p: $t),*| { go(e2) }).is_some() }
                    (3, 4) => { let t = EntityDirect::<ArchW>::try_from(d).unwrap(); ecs_find_borrow!(w, t, |e2: &EntityAny, $($p: $t),*| { go(e2) }).is_some() }
                    _ => ecs_find_borrow!(w, e, |e2: &EntityAny, $($p: $t),*| { go(e2) }).is_some(),
                }
            } else {
                ecs_iter_borrow!(w, |e2: &EntityAny, $($p: $t),*| { if go(e2) { EcsStep::Break } else { EcsStep::Continue } });
                true
            }
        } }
        match q {
            0 => both!(),
            1 => both!(x: &CompX),
            2 => both!(x: &mut CompX),
            3 => both!(y: &CompY),
            4 => both!(y: &mut CompY),
            5 => both!(x: &CompX, y: &mut CompY),
            6 => both!(y: &CompY, x: &mut CompX),
            7 => both!(x: &mut CompX, y: &mut CompY),
            8 => both!(o: &mut OneOf<CompZ, CompW>),
            9 => both!(o: &OneOf<CompZ, CompW>),
            _ => unreachable!(),
        }
    }

    fn query(&self, iter: bool, q: usize, a: usize, e: Option<EntityAny>, key: usize) {
        self.put(&format!("{{\"op\":\"enter\",\"kind\":\"{}\",\"q\":{},\"a\":{}}}", if iter { "iter" } else { "find" }, q + 1, a));
        let done = Cell::new(false);
        let r = catch_unwind(AssertUnwindSafe(|| self.with(q, e, key, &|e| self.call(*e, a, &done, iter))));
        let res = match r {
            Ok(true) => "ok",
            Ok(false) => "none",
            Err(p) => if p.is::<Unwind>() { "unwound" } else { "panic" },
        };
        if !done.get() { self.skip(); }
        self.put(&format!("{{\"op\":\"leave\",\"res\":\"{}\"}}", res));
    }
}

const SHAPE: &str = r#"{"op":"shape","arch":[["X","Y"],["X"],["Y","Z","X"],["W"]],"q":[[[],[]],[[["X",false]],[]],[[["X",true]],[]],[[["Y",false]],[]],[[["Y",true]],[]],[[["X",false],["Y",true]],[]],[[["Y",false],["X",true]],[]],[[["X",true],["Y",true]],[]],[[],[["Z",true],["W",true]]],[[],[["Z",false],["W",false]]]]}"#;

/// World k: how many entities each archetype has. Some of the empty archetypes have had entities, others only have room for them.
fn world(k: usize) -> (&'static Wb, Vec<(usize, EntityAny)>) {
    let n = [[2, 1, 2, 1], [0, 1, 2, 0], [2, 0, 0, 1], [0, 0, 0, 0]][k];
    let mut w = if k == 2 { Wb::with_capacity(WbCapacity { arch_xy: 3, arch_x: 5, arch_yzx: 2, arch_w: 0 }) } else { Wb::new() };
    let mut ents: Vec<(usize, EntityAny)> = vec![];
    for i in 0..2 { ents.push((1, w.create::<ArchXy>((CompX(i), CompY(i))).into())); }
    if k != 2 { ents.push((2, w.create::<ArchX>((CompX(5),)).into())); }
    if k < 2 { for _ in 0..2 { ents.push((3, w.create::<ArchYzx>((CompY(7), CompZ, CompX(8))).into())); } }
    ents.push((4, w.create::<ArchW>((CompW(Box::new(9)),)).into()));
    for a in 1..=4 {
        while ents.iter().filter(|x| x.0 == a).count() > n[a - 1] {
            let x = ents.remove(ents.iter().position(|x| x.0 == a).unwrap());
            assert!(w.destroy(x.1).is_some());
        }
    }
    (Box::leak(Box::new(w)), ents)
}

pub fn run(plan: &str, out: &str) {
    let mut o = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    writeln!(o, "{}", SHAPE).unwrap();
    let worlds: Vec<_> = (0..4).map(world).collect();
    let f = std::io::BufReader::new(std::fs::File::open(plan).unwrap());
    let mut cur: Option<(String, usize, Vec<Vec<String>>)> = None;
    let mut all = vec![];
    for line in f.lines() {
        let p: Vec<String> = line.unwrap().split_whitespace().map(|x| x.to_string()).collect();
        if p.is_empty() { continue; }
        if p[0] == "B" {
            if let Some(c) = cur.take() { all.push(c); }
            cur = Some((p[1].clone(), p[2].parse().unwrap(), vec![]));
        } else {
            cur.as_mut().unwrap().2.push(p);
        }
    }
    if let Some(c) = cur.take() { all.push(c); }
    for (name, k, ops) in all {
        // One world for all behaviours of a kind: whatever a behaviour leaves borrowed shows up in the next ones, too
        let (w, ents) = (worlds[k].0, worlds[k].1.clone());
        let r: &'static Run<'static> = Box::leak(Box::new(Run { w, ents, ops, pos: Cell::new(0), guards: RefCell::new((0..16).map(|_| None).collect()), log: RefCell::new(String::new()), inside: RefCell::new(None) }));
        let n: Vec<usize> = (1..=4).map(|a| r.count(a)).collect();
        writeln!(o, "{{\"op\":\"reset\",\"b\":\"{}\",\"n\":{:?}}}", name, n).unwrap();
        NOW.with(|x| x.set(Some(r)));
        while r.pos.get() < r.ops.len() { r.frame(); }
        NOW.with(|x| x.set(None));
        o.write_all(r.log.borrow().as_bytes()).unwrap();
        r.log.borrow_mut().clear();
        let guards = r.guards.take();
        drop(guards);
    }
    writeln!(o, "{{\"op\":\"reset\",\"b\":\"end\",\"n\":[0,0,0,0]}}").unwrap();
}
