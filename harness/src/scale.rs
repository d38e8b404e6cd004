//! Storages of up to 2^24 entities. Batches of operations are reported as counts, for Scale.tla to judge.
use gecs::prelude::*;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::{BufRead, Write as _};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

static DROPS: AtomicU64 = AtomicU64::new(0);
static CLONES: AtomicU64 = AtomicU64::new(0);

pub struct Num(u32);
impl Drop for Num {
    fn drop(&mut self) {
        DROPS.fetch_add(1, Relaxed);
    }
}
impl Clone for Num {
    fn clone(&self) -> Self {
        CLONES.fetch_add(1, Relaxed);
        Num(self.0)
    }
}
#[derive(Clone, Copy)]
pub struct Tail([u8; 3]);
fn tail(v: u32) -> Tail {
    Tail([v as u8, (v >> 8) as u8, (v >> 16) as u8 ^ 0x5a])
}

ecs_world! {
    ecs_name!(Ws);
    #[archetype_id(9)]
    ecs_archetype!(Big, Num);
    ecs_archetype!(Pair, Tail, Num);
}

#[derive(Clone)]
struct Side {
    live: Vec<(EntityAny, u32)>,
    dead: Vec<(EntityAny, u32)>,
    dirs: Vec<(EntityDirectAny, EntityAny, bool)>, // direct handle, its entity, no removal since
    fresh: usize,                                  // of dirs: number taken after the last structural change (the newest)
}

struct Sc {
    ws: Vec<Option<(Box<Ws>, [Side; 2])>>,
    out: std::io::BufWriter<std::fs::File>,
    next: u32,
    rng: crate::util::Rng,
}

fn mix(e: EntityAny, v: u32) -> u64 {
    let (a, b) = e.raw();
    ((a as u64) << 32 | b as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (v as u64).wrapping_mul(0xC2B2_AE3D_27D4_EB4F)
}

/// Value reached by a handle through the i-th path: None if rejected, Err on a wrong entity or torn row.
fn reach(w: &mut Ws, a: usize, e: EntityAny, i: usize) -> Option<Result<u32, ()>> {
    let pair = |t: &Tail, n: &Num| if t.0 == tail(n.0).0 { Ok(n.0) } else { Err(()) };
    let good = |x: EntityAny, v: Result<u32, ()>| if x.raw() == e.raw() { v } else { Err(()) };
    if a == 0 {
        let t = Entity::<Big>::try_from(e).unwrap();
        match i % 8 {
            0 => w.view(t).map(|v| good((*v.entity).into(), Ok(v.num.0))),
            1 => w.big.resolve(t).map(|i| good(w.big.entities()[i].into(), Ok(w.big.get_slice::<Num>()[i].0))),
            2 => w.borrow(t).map(|b| good((*b.entity()).into(), Ok(b.component::<Num>().0))),
            3 => ecs_find!(w, e, |x: &EntityAny, n: &Num| good(*x, Ok(n.0))),
            4 => ecs_find_borrow!(w, t, |x: &EntityAny, n: &Num| good(*x, Ok(n.0))),
            5 => { let d = w.to_direct(t)?; Some(ecs_find!(w, d, |x: &EntityAny, n: &mut Num| good(*x, Ok(n.0))).unwrap_or(Err(()))) }
            6 => { let d = w.big.to_direct(e)?; Some(w.big.view(d).map_or(Err(()), |v| good((*v.entity).into(), Ok(v.num.0)))) }
            _ => if w.contains(e) { Some(w.big.resolve(e).map_or(Err(()), |i| Ok(w.big.get_slice::<Num>()[i].0))) } else { None },
        }
    } else {
        let t = Entity::<Pair>::try_from(e).unwrap();
        match i % 8 {
            0 => w.view(t).map(|v| good((*v.entity).into(), pair(v.tail, v.num))),
            1 => w.pair.resolve(t).map(|i| { let (e, n) = (w.pair.entities()[i], w.pair.get_slice::<Num>()[i].0); good(e.into(), pair(&w.pair.get_slice::<Tail>()[i], &std::mem::ManuallyDrop::new(Num(n)))) }),
            2 => w.borrow(t).map(|b| good((*b.entity()).into(), pair(&b.component::<Tail>(), &b.component::<Num>()))),
            3 => ecs_find!(w, e, |x: &EntityAny, n: &Num, t: &mut Tail| good(*x, pair(t, n))),
            4 => ecs_find_borrow!(w, t, |x: &EntityAny, n: &Num, t: &Tail| good(*x, pair(t, n))),
            5 => { let d = w.to_direct(t)?; Some(ecs_find!(w, d, |x: &EntityAny, n: &Num, t: &Tail| good(*x, pair(t, n))).unwrap_or(Err(()))) }
            6 => { let d = w.pair.to_direct(e)?; Some(w.pair.view(d).map_or(Err(()), |v| good((*v.entity).into(), pair(v.tail, v.num)))) }
            _ => if w.contains(e) { Some(w.pair.resolve(e).map_or(Err(()), |i| Ok(w.pair.get_slice::<Num>()[i].0))) } else { None },
        }
    }
}

impl Sc {
    fn put(&mut self, s: String) {
        writeln!(self.out, "{}", s).unwrap();
        self.out.flush().unwrap();
    }

    fn meta(w: &Ws) -> String {
        format!("\"len\":[{},{}],\"cap\":[{},{}],\"empty\":[{},{}]", w.big.len(), w.pair.len(), w.big.capacity().min(1 << 30), w.pair.capacity().min(1 << 30),
            w.big.is_empty(), w.pair.is_empty())
    }

    fn step(&mut self, p: &[&str]) {
        let n = |i: usize| -> u64 { p[i].parse().unwrap() };
        let wi = n(1) as usize;
        let d0 = DROPS.load(Relaxed);
        let mut s = String::new();
        match p[0] {
            // new W capBig capPair
            "new" => {
                let (a, b) = (n(2) as usize, n(3) as usize);
                let r = catch_unwind(|| if a + b == 0 { Ws::new() } else { Ws::with_capacity(WsCapacity { big: a, pair: b }) });
                let big = |x: usize| x.min(1 << 30);
                write!(s, "\"op\":\"new\",\"w\":{},\"want\":[{},{}],\"res\":\"{}\"", wi, big(a), big(b), if r.is_ok() { "ok" } else { "panic" }).unwrap();
                if let Ok(w) = r {
                    let side = Side { live: vec![], dead: vec![], dirs: vec![], fresh: 0 };
                    self.ws[wi] = Some((Box::new(w), [side.clone(), side]));
                }
            }
            // fill W arch count within : creates until count are made or one is refused
            "fill" => {
                let (mut w, mut sides) = self.ws[wi].take().unwrap();
                let (a, count, within) = (n(2) as usize, n(3), p[4] == "1");
                let (mut made, mut res, mut back) = (0u64, "ok", true);
                let side = &mut sides[a];
                while made < count {
                    self.next = self.next.wrapping_add(1);
                    let v = self.next;
                    let r = catch_unwind(AssertUnwindSafe(|| -> Result<EntityAny, u32> {
                        Ok(match (a, within) {
                            (0, false) => if v % 2 == 0 { w.create::<Big>((Num(v),)).into() } else { w.big.create((Num(v),)).into() },
                            (_, false) => if v % 2 == 0 { w.create::<Pair>((tail(v), Num(v))).into() } else { w.pair.create((tail(v), Num(v))).into() },
                            (0, true) => match w.create_within_capacity::<Big>((Num(v),)) { Ok(e) => e.into(), Err(c) => { let x = c.num.0; return Err(x) } },
                            (_, true) => match w.create_within_capacity::<Pair>((tail(v), Num(v))) { Ok(e) => e.into(), Err(c) => { let x = c.num.0; return Err(x) } },
                        })
                    }));
                    match r {
                        Ok(Ok(e)) => { side.live.push((e, v)); made += 1; side.fresh = 0; }
                        Ok(Err(x)) => { res = "full"; back = x == v; break }
                        Err(_) => { res = "panic"; break }
                    }
                }
                write!(s, "\"op\":\"fill\",\"w\":{},\"a\":{},\"want\":{},\"within\":{},\"made\":{},\"res\":\"{}\",\"back\":{}", wi, a + 1, count, within, made, res, back).unwrap();
                self.ws[wi] = Some((w, sides));
            }
            // drain W arch count order
            "drain" => {
                let (mut w, mut sides) = self.ws[wi].take().unwrap();
                let (a, count) = (n(2) as usize, n(3));
                let side = &mut sides[a];
                let (mut done, mut right) = (0u64, 0u64);
                if p[4] == "fifo" { side.live.reverse(); }
                for k in 0..count.min(side.live.len() as u64) {
                    let i = match p[4] { "random" => self.rng.below(side.live.len() as u64) as usize, _ => side.live.len() - 1 };
                    let (e, v) = side.live.swap_remove(i);
                    let got = catch_unwind(AssertUnwindSafe(|| -> Option<u32> {
                        if a == 0 {
                            let t = Entity::<Big>::try_from(e).unwrap();
                            match k % 4 { 0 => w.destroy(t).map(|c| c.num.0), 1 => w.big.destroy(e).map(|c| c.num.0), 2 => w.destroy(e).map(|_| v), _ => { let d = w.to_direct(t)?; w.destroy(d).map(|c| c.num.0) } }
                        } else {
                            let t = Entity::<Pair>::try_from(e).unwrap();
                            match k % 4 { 0 => w.destroy(t).map(|c| c.num.0), 1 => w.pair.destroy(e).map(|c| c.num.0), 2 => w.destroy(e).map(|_| v), _ => { let d = w.to_direct(t)?; w.destroy(d).map(|c| c.num.0) } }
                        }
                    })).unwrap_or(None);
                    if let Some(x) = got { done += 1; right += (x == v) as u64; }
                    side.dead.push((e, v));
                }
                if p[4] == "fifo" { side.live.reverse(); }
                if done > 0 { for d in side.dirs.iter_mut() { d.2 = false; } side.fresh = 0; }
                write!(s, "\"op\":\"drain\",\"w\":{},\"a\":{},\"want\":{},\"done\":{},\"right\":{}", wi, a + 1, count, done, right).unwrap();
                self.ws[wi] = Some((w, sides));
            }
            // sweep W arch keep : ecs_iter_destroy, keeping every keep-th entity (0 = none)
            "sweep" => {
                let (mut w, mut sides) = self.ws[wi].take().unwrap();
                let (a, keep) = (n(2) as usize, n(3) as u32);
                let (mut visits, mut killed) = (0u64, 0u64);
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let mut f = |v: u32| { visits += 1; if keep != 0 && v % keep == 0 { EcsStepDestroy::Continue } else { killed += 1; EcsStepDestroy::ContinueDestroy } };
                    if a == 0 { ecs_iter_destroy!(w, |_: &Entity<Big>, n: &Num| { f(n.0) }); } else { ecs_iter_destroy!(w, |n: &mut Num, _: &EntityDirect<Pair>| { f(n.0) }); }
                }));
                let side = &mut sides[a];
                let (mut l, mut d) = (vec![], vec![]);
                for x in side.live.drain(..) { if keep != 0 && x.1 % keep == 0 { l.push(x) } else { d.push(x) } }
                write!(s, "\"op\":\"sweep\",\"w\":{},\"a\":{},\"visits\":{},\"killed\":{},\"should\":{},\"res\":\"{}\"", wi, a + 1, visits, killed, d.len(), if r.is_ok() { "ok" } else { "panic" }).unwrap();
                if !d.is_empty() { for x in side.dirs.iter_mut() { x.2 = false; } side.fresh = 0; }
                side.live = l;
                side.dead.extend(d);
                self.ws[wi] = Some((w, sides));
            }
            // clone W to
            "clone" => {
                let to = n(2) as usize;
                let c0 = CLONES.load(Relaxed);
                let (w, sides) = self.ws[wi].as_ref().unwrap();
                let r = catch_unwind(AssertUnwindSafe(|| w.clone()));
                write!(s, "\"op\":\"clone\",\"w\":{},\"to\":{},\"res\":\"{}\",\"clones\":{}", wi, to, if r.is_ok() { "ok" } else { "panic" }, CLONES.load(Relaxed) - c0).unwrap();
                if let Ok(c) = r { let sides = sides.clone(); self.ws[to] = Some((c, sides)); }
            }
            // drop W
            "drop" => {
                self.ws[wi] = None;
                write!(s, "\"op\":\"drop\",\"w\":{}", wi).unwrap();
            }
            // check W : everything about every entity
            "check" => {
                let (mut w, mut sides) = self.ws[wi].take().unwrap();
                let mut v: Vec<String> = vec![];
                for a in 0..2 {
                    let side = &mut sides[a];
                    let (mut found, mut right, mut stale, mut dup) = (0u64, 0u64, 0u64, 0u64);
                    for (i, (e, val)) in side.live.iter().enumerate() {
                        match catch_unwind(AssertUnwindSafe(|| reach(&mut w, a, *e, i))) { Ok(Some(r)) => { found += 1; right += (r == Ok(*val)) as u64 } _ => {} }
                    }
                    for (i, (e, _)) in side.dead.iter().enumerate() {
                        match catch_unwind(AssertUnwindSafe(|| reach(&mut w, a, *e, i))) { Ok(None) => {} _ => stale += 1 }
                    }
                    // no two handles ever issued are equal
                    let mut raws: Vec<u64> = side.live.iter().chain(side.dead.iter()).map(|x| { let r = x.0.raw(); (r.0 as u64) << 32 | r.1 as u64 }).collect();
                    raws.sort_unstable();
                    for x in raws.windows(2) { dup += (x[0] == x[1]) as u64; }
                    drop(raws);
                    // iteration
                    let want = side.live.iter().fold(0u64, |s, x| s.wrapping_add(mix(x.0, x.1)));
                    let mut its: Vec<(u64, u64)> = vec![];
                    macro_rules! tally { ($k:ident, $s:ident, $e:block) => {{ let ($k, $s) = (std::cell::Cell::new(0u64), std::cell::Cell::new(0u64)); $e; its.push(($k.get(), $s.get())); }} }
                    macro_rules! one { ($k:ident $s:ident $x:expr, $v:expr) => {{ $k.set($k.get() + 1); $s.set($s.get().wrapping_add(mix($x, $v))); }} }
                    if a == 0 {
                        tally!(k, s, { ecs_iter!(w, |x: &Entity<Big>, n: &Num| { one!(k s x.into_any(), n.0) }) });
                        tally!(k, s, { ecs_iter_borrow!(w, |n: &mut Num, x: &Entity<Big>| { one!(k s x.into_any(), n.0) }) });
                        tally!(k, s, { ecs_iter_destroy!(w, |x: &Entity<Big>, n: &Num| { one!(k s x.into_any(), n.0); EcsStepDestroy::Continue }) });
                        tally!(k, s, { for (x, n) in w.big.iter() { one!(k s x.into_any(), n.0) } });
                        tally!(k, s, { for (x, n) in w.big.iter_mut() { one!(k s x.into_any(), n.0) } });
                        tally!(k, s, { let es = w.big.entities().to_vec(); let ns = w.big.get_slice::<Num>(); for (x, n) in es.iter().zip(ns.iter()) { one!(k s x.into_any(), n.0) } if es.len() != ns.len() { k.set(0) } });
                    } else {
                        tally!(k, s, { ecs_iter!(w, |x: &Entity<Pair>, n: &Num| { one!(k s x.into_any(), n.0) }) });
                        tally!(k, s, { ecs_iter_borrow!(w, |n: &mut Num, x: &Entity<Pair>| { one!(k s x.into_any(), n.0) }) });
                        tally!(k, s, { ecs_iter_destroy!(w, |x: &Entity<Pair>, n: &Num| { one!(k s x.into_any(), n.0); EcsStepDestroy::Continue }) });
                        tally!(k, s, { for (x, t, n) in w.pair.iter() { if t.0 == tail(n.0).0 { one!(k s x.into_any(), n.0) } } });
                        tally!(k, s, { for (x, t, n) in w.pair.iter_mut() { if t.0 == tail(n.0).0 { one!(k s x.into_any(), n.0) } } });
                        tally!(k, s, { let es = w.pair.entities().to_vec(); let ns = w.pair.borrow_slice::<Num>(); for (x, n) in es.iter().zip(ns.iter()) { one!(k s x.into_any(), n.0) } if es.len() != ns.len() { k.set(0) } });
                    }
                    // direct handles: the older ones, then new ones
                    let nd = side.dirs.len();
                    let (mut dstale, mut dmust, mut dwrong) = (0u64, 0u64, 0u64);
                    for (i, (d, e, ok)) in side.dirs.iter().enumerate() {
                        let got = catch_unwind(AssertUnwindSafe(|| ecs_find!(w, *d, |x: &EntityAny| *x))).unwrap_or(None);
                        match got {
                            Some(x) => { if !*ok { dstale += 1 } if x.raw() != e.raw() { dwrong += 1 } }
                            None => if i >= nd - side.fresh { dmust += 1 },
                        }
                    }
                    if side.dirs.len() > 4000 { side.dirs.drain(..2000); side.fresh = side.fresh.min(side.dirs.len()); }
                    if !side.live.is_empty() {
                        for _ in 0..500 {
                            let (e, _) = side.live[self.rng.below(side.live.len() as u64) as usize];
                            match w.to_direct(e) { Some(d) => { side.dirs.push((d, e, true)); side.fresh += 1; } None => dmust += 1 }
                        }
                        let nd = side.dirs.len();
                        for (d, e, _) in &side.dirs[nd - 500.min(nd)..] {
                            match ecs_find_borrow!(w, *d, |x: &EntityAny| *x) { Some(x) => dwrong += (x.raw() != e.raw()) as u64, None => dmust += 1 }
                        }
                    }
                    #[cfg(feature = "events")]
                    let ev = {
                        let (c, d): (Vec<EntityAny>, Vec<EntityAny>) = if a == 0 { (w.big.iter_created().map(|e| (*e).into()).collect(), w.big.iter_destroyed().map(|e| (*e).into()).collect()) }
                            else { (w.pair.iter_created().map(|e| (*e).into()).collect(), w.pair.iter_destroyed().map(|e| (*e).into()).collect()) };
                        let f = |v: &[EntityAny]| v.iter().fold(0u64, |s, x| s.wrapping_add(mix(*x, 1)));
                        let wc = side.live.iter().chain(side.dead.iter()).fold(0u64, |s, x| s.wrapping_add(mix(x.0, 1)));
                        let wd = side.dead.iter().fold(0u64, |s, x| s.wrapping_add(mix(x.0, 1)));
                        (c.len(), d.len(), f(&c) == wc, f(&d) == wd)
                    };
                    #[cfg(not(feature = "events"))]
                    let ev = (0usize, 0usize, true, true);
                    v.push(format!("{{\"live\":{},\"dead\":{},\"found\":{},\"right\":{},\"stale\":{},\"dup\":{},\"iter\":[{}],\"same\":[{}],\"dstale\":{},\"dmust\":{},\"dwrong\":{},\"ec\":{},\"ed\":{},\"evok\":{}}}",
                        side.live.len(), side.dead.len(), found, right, stale, dup,
                        its.iter().map(|x| x.0.to_string()).collect::<Vec<_>>().join(","), its.iter().map(|x| (x.1 == want).to_string()).collect::<Vec<_>>().join(","),
                        dstale, dmust, dwrong, ev.0, ev.1, ev.2 && ev.3));
                }
                write!(s, "\"op\":\"check\",\"w\":{},\"A\":[{}]", wi, v.join(",")).unwrap();
                self.ws[wi] = Some((w, sides));
            }
            x => panic!("unknown scale command {}", x),
        }
        let drops = DROPS.load(Relaxed) - d0;
        let metas: Vec<String> = self.ws.iter().enumerate().filter_map(|(i, w)| w.as_ref().map(|(w, _)| format!("{{\"w\":{},{}}}", i, Self::meta(w)))).collect();
        self.put(format!("{{{},\"drops\":{},\"O\":[{}]}}", s, drops, metas.join(",")));
    }
}

pub fn run(plan: &str, out: &str) {
    let mut sc = Sc { ws: vec![None, None, None, None], out: std::io::BufWriter::new(std::fs::File::create(out).unwrap()), next: 0, rng: crate::util::Rng(0x1234_5678_9abc_def1) };
    sc.put(format!("{{\"op\":\"shape\",\"events\":{}}}", cfg!(feature = "events")));
    for line in std::io::BufReader::new(std::fs::File::open(plan).unwrap()).lines() {
        let line = line.unwrap();
        let p: Vec<&str> = line.split_whitespace().collect();
        match p.first() {
            None => {}
            Some(&"B") => {
                for i in 0..sc.ws.len() { sc.ws[i] = None; }
                sc.put(format!("{{\"op\":\"reset\",\"b\":\"{}\"}}", p[1]));
            }
            Some(c) => {
                let i: usize = p[1].parse().unwrap();
                if *c != "new" && sc.ws[i].is_none() { continue; }
                sc.step(&p)
            }
        }
    }
    sc.put("{\"op\":\"reset\",\"b\":\"end\"}".into());
}
