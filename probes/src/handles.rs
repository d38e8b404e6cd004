//! Runs every handle conversion there is on created, stale, foreign and forged handles and logs what came out.
use gecs::error::EcsError;
use gecs::prelude::*;
use std::collections::{HashMap, HashSet};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)] pub struct CompV(u32);
#[derive(Clone)] pub struct CompU(u64);

pub mod other {
    use super::*;
    ecs_world! {
        ecs_name!(Wo);
        #[archetype_id(2)]
        ecs_archetype!(OtherTwo, CompV);
        ecs_archetype!(OtherThree, CompV);
        #[archetype_id(254)]
        ecs_archetype!(OtherHigh, CompV);
    }
}
use other::{OtherHigh, OtherThree, OtherTwo, Wo};

ecs_world! {
    ecs_name!(Wh);
    #[archetype_id(3)]
    ecs_archetype!(ArchA, CompV);
    ecs_archetype!(ArchB, CompV, CompU);
    #[archetype_id(255)]
    ecs_archetype!(ArchC, CompV);
    #[archetype_id(0)]
    ecs_archetype!(ArchD, CompV);
    ecs_archetype!(ArchE, CompV);
}
const IDS: [u8; 5] = [3, 4, 255, 0, 1];

#[derive(Clone, Copy)]
enum H {
    Id(u8), Raw((u32, u32)), Any(EntityAny), DAny(EntityDirectAny),
    A(Entity<ArchA>), B(Entity<ArchB>), C(Entity<ArchC>), D(Entity<ArchD>), E(Entity<ArchE>),
    DA(EntityDirect<ArchA>), DB(EntityDirect<ArchB>), DC(EntityDirect<ArchC>), DD(EntityDirect<ArchD>), DE(EntityDirect<ArchE>),
    SelA(SelectArchetype), SelE(SelectEntity), SelD(SelectEntityDirect),
}

fn raws(r: (u32, u32)) -> String { format!("[{},{},{},{}]", r.0 >> 16, r.0 & 0xffff, r.1 >> 16, r.1 & 0xffff) }

/// Everything a value feeds to its hasher, not only what comes out of one.
#[derive(Default)]
struct Feed(Vec<u8>, DefaultHasher);
impl Hasher for Feed {
    fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b); self.0.push(0xff); self.1.write(b); }
    fn finish(&self) -> u64 { self.1.finish() }
}
fn feed<T: Hash>(t: &T) -> String {
    let mut f = Feed::default();
    t.hash(&mut f);
    let mut d = DefaultHasher::new();
    t.hash(&mut d);
    format!("{:x}-{:x}", d.finish(), f.0.iter().fold(0u64, |a, b| a.wrapping_mul(0x100000001b3) ^ (*b as u64)))
}

struct Ctx { w: Wh, o: Wo, out: std::io::BufWriter<std::fs::File> }

macro_rules! arches { ($m:ident $(, $x:expr)*) => {
    match ($($x,)*) { _ => { $m!(0 A DA ArchA arch_a); $m!(1 B DB ArchB arch_b); $m!(2 C DC ArchC arch_c); $m!(3 D DD ArchD arch_d); $m!(4 E DE ArchE arch_e); } }
} }

fn sel_a_index(s: SelectArchetype) -> usize {
    match s { SelectArchetype::ArchA => 0, SelectArchetype::ArchB => 1, SelectArchetype::ArchC => 2, SelectArchetype::ArchD => 3, SelectArchetype::ArchE => 4 }
}
fn open_e(s: SelectEntity) -> (usize, H) {
    match s {
        SelectEntity::ArchA(e) => (0, H::A(e)), SelectEntity::ArchB(e) => (1, H::B(e)), SelectEntity::ArchC(e) => (2, H::C(e)),
        SelectEntity::ArchD(e) => (3, H::D(e)), SelectEntity::ArchE(e) => (4, H::E(e)),
    }
}
fn open_d(s: SelectEntityDirect) -> (usize, H) {
    match s {
        SelectEntityDirect::ArchA(e) => (0, H::DA(e)), SelectEntityDirect::ArchB(e) => (1, H::DB(e)), SelectEntityDirect::ArchC(e) => (2, H::DC(e)),
        SelectEntityDirect::ArchD(e) => (3, H::DD(e)), SelectEntityDirect::ArchE(e) => (4, H::DE(e)),
    }
}

/// One conversion.
fn step(w: &Wh, h: H, op: &str, arg: usize) -> Result<H, EcsError> {
    macro_rules! typed { ($i:literal $T:ident $DT:ident $A:ident $f:ident) => {
        if let H::$T(e) = h {
            return Ok(match op {
                "copy" => H::$T(#[allow(clippy::clone_on_copy)] e.clone()),
                "into_any" => H::Any(e.into_any()),
                "from" => H::Any(EntityAny::from(e)),
                "ref" => H::Any(*<&EntityAny>::from(&e)),
                "mut" => { let mut c = e; H::Any(*<&mut EntityAny>::from(&mut c)) }
                "sel_e" => H::SelE(SelectEntity::from(e)),
                "sel_e_ref" => H::SelE(SelectEntity::from(&e)),
                "sel_a" => H::SelA(SelectArchetype::from(e)),
                "id" => H::Id(e.archetype_id()),
                "direct" => H::$DT(if arg == 0 { w.to_direct(e) } else { w.$f.to_direct(e) }.expect("direct")),
                x => unreachable!("{} on a typed handle", x),
            });
        }
        if let H::$DT(e) = h {
            return Ok(match op {
                "copy" => H::$DT(#[allow(clippy::clone_on_copy)] e.clone()),
                "into_any" => H::DAny(e.into_any()),
                "from" => H::DAny(EntityDirectAny::from(e)),
                "ref" => H::DAny(*<&EntityDirectAny>::from(&e)),
                "mut" => { let mut c = e; H::DAny(*<&mut EntityDirectAny>::from(&mut c)) }
                "sel_e" => H::SelD(SelectEntityDirect::from(e)),
                "sel_e_ref" => H::SelD(SelectEntityDirect::from(&e)),
                "sel_a" => H::SelA(SelectArchetype::from(e)),
                "id" => H::Id(e.archetype_id()),
                "direct" => H::$DT(w.to_direct(e).expect("direct")),
                x => unreachable!("{} on a direct handle", x),
            });
        }
        if let (H::Any(e), $i) = (h, arg) {
            match op {
                "try" => return Entity::<$A>::try_from(e).map(H::$T),
                "fany" => return Ok(H::$T(Entity::<$A>::from_any(e))),
                "unch" => return Ok(H::$T(Entity::<$A>::from_any_unchecked(e))),
                _ => {}
            }
        }
        if let (H::DAny(e), $i) = (h, arg) {
            match op {
                "try" => return EntityDirect::<$A>::try_from(e).map(H::$DT),
                "fany" => return Ok(H::$DT(EntityDirect::<$A>::from_any(e))),
                "unch" => return Ok(H::$DT(EntityDirect::<$A>::from_any_unchecked(e))),
                _ => {}
            }
        }
    } }
    arches!(typed);
    Ok(match (h, op) {
        (H::Id(i), "sel_a") => H::SelA(SelectArchetype::try_from(i)?),
        (H::Raw(r), "from_raw") => H::Any(EntityAny::from_raw(r)?),
        (H::Any(e), "raw") => H::Raw(e.raw()),
        (H::Any(e), "into_any") => H::Any(e.into_any()),
        (H::Any(e), "copy") => H::Any(#[allow(clippy::clone_on_copy)] e.clone()),
        (H::Any(e), "sel_e") => H::SelE(SelectEntity::try_from(e)?),
        (H::Any(e), "sel_a") => H::SelA(SelectArchetype::try_from(e)?),
        (H::Any(e), "id") => H::Id(e.archetype_id()),
        (H::Any(e), "direct") => H::DAny(w.to_direct(e).expect("direct")),
        (H::DAny(e), "into_any") => H::DAny(e.into_any()),
        (H::DAny(e), "copy") => H::DAny(#[allow(clippy::clone_on_copy)] e.clone()),
        (H::DAny(e), "sel_e") => H::SelD(SelectEntityDirect::try_from(e)?),
        (H::DAny(e), "id") => H::Id(e.archetype_id()),
        (H::DAny(e), "direct") => H::DAny(w.to_direct(e).expect("direct")),
        (H::SelA(s), "id") => H::Id(s.archetype_id()),
        (H::SelA(s), "copy") => H::SelA(#[allow(clippy::clone_on_copy)] s.clone()),
        (H::SelE(s), "copy") => H::SelE(#[allow(clippy::clone_on_copy)] s.clone()),
        (H::SelE(s), "open") => open_e(s).1,
        (H::SelD(s), "copy") => H::SelD(#[allow(clippy::clone_on_copy)] s.clone()),
        (H::SelD(s), "open") => open_d(s).1,
        _ => unreachable!("{} does not apply", op),
    })
}

/// What can be seen of a handle: form, archetype (1..5, 0 none), id, raw bits, and which entity it leads to.
fn see(w: &Wh, h: H, live: bool) -> String {
    let any = |form: &str, t: usize, id: u8, e: EntityAny| {
        let reach = if live {
            match ecs_find_borrow!(w, e, |x: &EntityAny| x.raw()) { Some(r) => raws(r), None => "[]".into() }
        } else { "[]".into() };
        format!("\"form\":\"{}\",\"t\":{},\"id\":{},\"raw\":{},\"reach\":{}", form, t, id, raws(e.raw()), reach)
    };
    let dir = |form: &str, t: usize, id: u8, e: EntityDirectAny| {
        let reach = if live {
            match ecs_find_borrow!(w, e, |x: &EntityAny| x.raw()) { Some(r) => raws(r), None => "[]".into() }
        } else { "[]".into() };
        format!("\"form\":\"{}\",\"t\":{},\"id\":{},\"raw\":[],\"reach\":{}", form, t, id, reach)
    };
    macro_rules! typed { ($i:literal $T:ident $DT:ident $A:ident $f:ident) => {
        if let H::$T(e) = h {
            let r = if live && w.contains(e) { ecs_find_borrow!(w, e, |x: &EntityAny| x.raw()).map_or("[]".into(), raws) } else { "[]".into() };
            return format!("\"form\":\"T\",\"t\":{},\"id\":{},\"raw\":{},\"reach\":{}", $i + 1, e.archetype_id(), raws(e.into_any().raw()), r);
        }
        if let H::$DT(e) = h {
            let r = if live && w.contains(e) { ecs_find_borrow!(w, e, |x: &EntityAny| x.raw()).map_or("[]".into(), raws) } else { "[]".into() };
            return format!("\"form\":\"DT\",\"t\":{},\"id\":{},\"raw\":[],\"reach\":{}", $i + 1, e.archetype_id(), r);
        }
    } }
    arches!(typed);
    match h {
        H::Id(i) => format!("\"form\":\"Id\",\"t\":0,\"id\":{},\"raw\":[],\"reach\":[]", i),
        H::Raw(r) => format!("\"form\":\"Raw\",\"t\":0,\"id\":-1,\"raw\":{},\"reach\":[]", raws(r)),
        H::Any(e) => any("Any", 0, e.archetype_id(), e),
        H::DAny(e) => dir("DAny", 0, e.archetype_id(), e),
        H::SelA(s) => format!("\"form\":\"SelA\",\"t\":{},\"id\":{},\"raw\":[],\"reach\":[]", sel_a_index(s) + 1, s.archetype_id()),
        H::SelE(s) => { let (i, x) = open_e(s); see(w, x, live).replace("\"form\":\"T\"", "\"form\":\"SelE\"") }
        H::SelD(s) => { let (i, x) = open_d(s); see(w, x, live).replace("\"form\":\"DT\"", "\"form\":\"SelD\"") }
        _ => unreachable!(),
    }
}


impl Ctx {
    fn put(&mut self, s: String) { writeln!(self.out, "{}", s).unwrap(); }

    fn start(&mut self, s: &str) -> (H, bool) {
        let w = &mut self.w;
        match s {
            "A" => (H::A(w.create::<ArchA>((CompV(1),))), true),
            "B" => (H::B(w.create::<ArchB>((CompV(1), CompU(2)))), true),
            "C" => (H::C(w.create::<ArchC>((CompV(1),))), true),
            "D" => (H::D(w.create::<ArchD>((CompV(1),))), true),
            "E" => (H::E(w.create::<ArchE>((CompV(1),))), true),
            // an entity that is no more
            "dB" => { let e = w.create::<ArchB>((CompV(1), CompU(2))); w.destroy(e); (H::B(e), false) }
            "dC" => { let e = w.create::<ArchC>((CompV(1),)); w.destroy(e); (H::C(e), false) }
            // entities of another world: unknown ids, and one that this world also uses
            "f2" => (H::Any(self.o.create::<OtherTwo>((CompV(1),)).into()), false),
            "f3" => (H::Any(self.o.create::<OtherThree>((CompV(1),)).into()), false),
            "f254" => (H::Any(self.o.create::<OtherHigh>((CompV(1),)).into()), false),
            x => panic!("start {}", x),
        }
    }

    fn word(&mut self, p: &[&str]) {
        let (mut h, live) = self.start(p[0]);
        let s = see(&self.w, h, live);
        let want = match p[0] {
            "A" => ArchA::ARCHETYPE_ID, "B" | "dB" => ArchB::ARCHETYPE_ID, "C" | "dC" => ArchC::ARCHETYPE_ID, "D" => ArchD::ARCHETYPE_ID, "E" => ArchE::ARCHETYPE_ID,
            "f2" => OtherTwo::ARCHETYPE_ID, "f3" => OtherThree::ARCHETYPE_ID, _ => OtherHigh::ARCHETYPE_ID,
        };
        self.put(format!("{{\"op\":\"start\",\"live\":{},\"want\":{},{}}}", live, want, s));
        for o in &p[1..] {
            let (op, arg) = match o.split_once(':') { Some((a, b)) => (a, b.parse::<usize>().unwrap() - 1), None => (*o, 0) };
            let w = &self.w;
            let r = catch_unwind(AssertUnwindSafe(|| step(w, h, op, arg)));
            match r {
                Ok(Ok(n)) => {
                    h = n;
                    let s = see(&self.w, h, live);
                    self.put(format!("{{\"op\":\"step\",\"via\":\"{}\",\"arg\":{},\"res\":\"ok\",{}}}", op, arg + 1, s));
                }
                bad => {
                    let why = match bad { Ok(Err(e)) => format!("{:?}", e), _ => "panic".into() };
                    self.put(format!("{{\"op\":\"step\",\"via\":\"{}\",\"arg\":{},\"res\":\"{}\",\"form\":\"-\",\"t\":0,\"id\":-1,\"raw\":[],\"reach\":[]}}", op, arg + 1, why));
                    break;
                }
            }
        }
    }

    /// Every conversion from one raw value.
    fn raw(&mut self, r: (u32, u32)) {
        let h = match EntityAny::from_raw(r) {
            Err(e) => { self.put(format!("{{\"op\":\"raw\",\"in\":{},\"res\":\"{:?}\"}}", raws(r), e)); return; }
            Ok(h) => h,
        };
        let (mut tr, mut fa, mut un) = (vec![], vec![], vec![]);
        macro_rules! typed { ($i:literal $T:ident $DT:ident $A:ident $f:ident) => {
            tr.push(match Entity::<$A>::try_from(h) { Ok(e) => format!("[\"ok\",{}]", raws(EntityAny::from(e).raw())), Err(x) => format!("[\"{:?}\",[]]", x) });
            fa.push(match catch_unwind(|| Entity::<$A>::from_any(h)) { Ok(e) => format!("[\"ok\",{}]", raws(e.into_any().raw())), Err(_) => "[\"panic\",[]]".into() });
            un.push(match catch_unwind(|| Entity::<$A>::from_any_unchecked(h)) { Ok(e) => format!("[\"ok\",{}]", raws(e.into_any().raw())), Err(_) => "[\"panic\",[]]".into() });
        } }
        arches!(typed);
        let se = match SelectEntity::try_from(h) {
            Ok(s) => { let (i, x) = open_e(s); let mut any = h; macro_rules! t { ($i:literal $T:ident $DT:ident $A:ident $f:ident) => { if let H::$T(e) = x { any = e.into_any(); } } } arches!(t); format!("[\"ok\",{},{}]", i + 1, raws(any.raw())) }
            Err(x) => format!("[\"{:?}\",0,[]]", x),
        };
        let sa = match SelectArchetype::try_from(h) { Ok(s) => format!("[\"ok\",{}]", sel_a_index(s) + 1), Err(x) => format!("[\"{:?}\",0]", x) };
        let again = EntityAny::from_raw(h.raw());
        let (eq, hash) = match again { Ok(g) => (g == h && h == g, feed(&g) == feed(&h)), Err(_) => (false, false) };
        self.put(format!("{{\"op\":\"raw\",\"in\":{},\"res\":\"ok\",\"out\":{},\"id\":{},\"try\":[{}],\"fany\":[{}],\"unch\":[{}],\"sele\":{},\"sela\":{},\"eq\":{},\"hash\":{}}}",
            raws(r), raws(h.raw()), h.archetype_id(), tr.join(","), fa.join(","), un.join(","), se, sa, eq, hash));
    }

    fn matrix<T: Eq + Hash + Copy>(&mut self, form: &str, items: &[(T, String)]) {
        let eq: Vec<String> = items.iter().map(|a| format!("[{}]", items.iter().map(|b| ((a.0 == b.0) as u8).to_string()).collect::<Vec<_>>().join(","))).collect();
        let ne: Vec<String> = items.iter().map(|a| format!("[{}]", items.iter().map(|b| ((a.0 != b.0) as u8).to_string()).collect::<Vec<_>>().join(","))).collect();
        let hash: Vec<String> = items.iter().map(|a| format!("\"{}\"", feed(&a.0))).collect();
        let set: HashSet<T> = items.iter().map(|a| a.0).collect();
        let map: HashMap<T, usize> = items.iter().enumerate().map(|(i, a)| (a.0, i)).collect();
        let last: Vec<String> = items.iter().map(|a| map.get(&a.0).map_or(0, |x| x + 1).to_string()).collect();
        let keys: Vec<String> = items.iter().map(|a| a.1.clone()).collect();
        self.put(format!("{{\"op\":\"pairs\",\"form\":\"{}\",\"key\":[{}],\"eq\":[{}],\"ne\":[{}],\"hash\":[{}],\"set\":{},\"last\":[{}]}}",
            form, keys.join(","), eq.join(","), ne.join(","), hash.join(","), set.len(), last.join(",")));
    }

    /// A population of handles of every kind, compared pairwise. The key of a handle says which entity it stands for.
    fn pairs(&mut self, seed: u64, n: usize) {
        let mut s = seed.wrapping_mul(0x9e3779b97f4a7c15) | 1;
        let mut rnd = move |m: usize| { s ^= s << 13; s ^= s >> 7; s ^= s << 17; (s % m as u64) as usize };
        let mut w = Wh::new();
        #[cfg(gecs_verif)]
        if seed % 3 == 1 {
            w.arch_a.create((CompV(0),)); w.arch_b.create((CompV(0), CompU(0)));
            for k in [1u32 << 8, 1 << 16, 1 << 24, 0x7fff_ff00, 0x7dfe_fe00][..(seed as usize % 5) + 1].iter() { w.arch_a.data.__verif_fast_forward(*k); w.arch_b.data.__verif_fast_forward(*k); }
        }
        let mut live: Vec<(EntityAny, usize)> = vec![];
        let mut all: Vec<(EntityAny, usize)> = vec![];
        let mut count = 0;
        // direct handles from different times, of entities that may have been destroyed meanwhile
        let mut past: Vec<(EntityDirectAny, usize)> = vec![];
        for _ in 0..3 * n {
            if !live.is_empty() && past.len() < 2 * n {
                let (e, k) = live[rnd(live.len())];
                past.push((w.to_direct(e).unwrap(), k));
            }
            if rnd(3) < 2 || live.is_empty() {
                count += 1;
                let e: EntityAny = match rnd(5) {
                    0 => w.create::<ArchA>((CompV(0),)).into(), 1 => w.create::<ArchB>((CompV(0), CompU(1))).into(), 2 => w.create::<ArchC>((CompV(0),)).into(),
                    3 => w.create::<ArchD>((CompV(0),)).into(), _ => w.create::<ArchE>((CompV(0),)).into(),
                };
                live.push((e, count));
                all.push((e, count));
            } else {
                let i = rnd(live.len());
                w.destroy(live.swap_remove(i).0);
            }
        }
        while all.len() > n { let i = rnd(all.len()); all.swap_remove(i); }
        // copies that took a detour
        for i in 0..4.min(all.len()) { let (e, k) = all[i * 3 % all.len()]; all.push((EntityAny::from_raw(e.raw()).unwrap(), k)); }
        // the key of a dead handle is its own; it equals nothing else
        let items: Vec<(EntityAny, String)> = all.iter().map(|(e, k)| (*e, format!("[{},0,0,0]", k))).collect();
        self.matrix("Any", &items);
        let bits: Vec<(EntityAny, String)> = all.iter().map(|(e, _)| (*e, raws(e.raw()))).collect();
        self.matrix("Bits", &bits);
        macro_rules! typed { ($i:literal $T:ident $DT:ident $A:ident $f:ident) => {
            let ts: Vec<(Entity<$A>, String)> = all.iter().filter_map(|(e, k)| Entity::<$A>::try_from(*e).ok().map(|t| (t, format!("[{},0,0,0]", k)))).collect();
            self.matrix("T", &ts);
            let mut ds: Vec<(EntityDirect<$A>, String)> = vec![];
            let mut slice = vec![];
            ecs_iter!(w, |d: &EntityDirect<$A>, e: &EntityAny| { slice.push((*d, *e)); });
            for (d, e) in slice { if let Some((_, k)) = live.iter().find(|x| x.0 == e) { ds.push((d, format!("[{},0,0,0]", k))); } }
            for (e, k) in &live { if let Ok(t) = Entity::<$A>::try_from(*e) { if let Some(d) = w.to_direct(t) { ds.push((d, format!("[{},0,0,0]", k))); } } }
            self.matrix("DT", &ds);
            let mut ts: Vec<(EntityDirect<$A>, String)> = past.iter().filter_map(|(d, k)| EntityDirect::<$A>::try_from(*d).ok().map(|t| (t, format!("[{},0,0,0]", k)))).collect();
            ts.extend(ds);
            self.matrix("DTover", &ts);
        } }
        arches!(typed);
        let mut ds: Vec<(EntityDirectAny, String)> = vec![];
        let mut slice = vec![];
        ecs_iter!(w, |d: &EntityDirectAny, e: &EntityAny| { slice.push((*d, *e)); });
        for (d, e) in slice { if let Some((_, k)) = live.iter().find(|x| x.0 == e) { ds.push((d, format!("[{},0,0,0]", k))); } }
        for (e, k) in &live { if let Some(d) = w.to_direct(*e) { ds.push((d, format!("[{},0,0,0]", k))); } }
        self.matrix("DAny", &ds);
        ds.extend(past.iter().map(|(d, k)| (*d, format!("[{},0,0,0]", k))));
        self.matrix("DAnyover", &ds);
    }

    /// Handles whose bits are near those of one handle, or that a careless combination of the two halves would confuse with it.
    fn near(&mut self, key: u32, gen: u32) {
        let mut raws: Vec<(u32, u32)> = vec![(key, gen), (gen, key), (key, key), (gen, gen), (!key, !gen), (key, !gen), (key ^ gen, 0), (0, gen ^ key), (key.wrapping_add(gen), 1)];
        for i in 0..32 {
            for j in 0..32 {
                raws.push((key ^ 1 << i, gen ^ 1 << j));
                raws.push((key.wrapping_add(1 << i), gen.wrapping_sub(1 << j)));
                raws.push((key.wrapping_sub(1 << i), gen.wrapping_add(1 << j)));
            }
            raws.push((key ^ 1 << i, gen));
            raws.push((key, gen ^ 1 << i));
            raws.push((key.rotate_left(i), gen.rotate_right(i)));
            raws.push((key.rotate_left(i), gen.rotate_left(i)));
            raws.push((gen.rotate_left(i), key.rotate_left(i)));
        }
        for m in 1..300u32 {
            raws.push((key.wrapping_add(1), gen.wrapping_sub(m)));
            raws.push((key.wrapping_add(256), gen.wrapping_sub(m)));
            raws.push((key.wrapping_sub(1), gen.wrapping_add(m)));
            raws.push((key.wrapping_add(m), gen.wrapping_sub(1)));
            raws.push((key.wrapping_sub(m << 8), gen.wrapping_add(1)));
        }
        let mut seen = std::collections::HashSet::new();
        raws.retain(|r| r.1 != 0 && seen.insert(*r));
        let base = EntityAny::from_raw((key, gen)).unwrap();
        let mut set = std::collections::HashSet::new();
        let (mut like, mut unlike, mut typed, mut n) = (vec![], vec![], vec![], 0);
        for r in &raws {
            let e = EntityAny::from_raw(*r).unwrap();
            set.insert(e);
            n += 1;
            if base == e || e == base { like.push(crate::handles::raws(*r)); }
            if !(base != e) || !(e != base) { unlike.push(crate::handles::raws(*r)); }
            macro_rules! typed { ($i:literal $T:ident $DT:ident $A:ident $f:ident) => {
                if let (Ok(a), Ok(b)) = (Entity::<$A>::try_from(base), Entity::<$A>::try_from(e)) {
                    if a == b || b == a || !(a != b) { typed.push(crate::handles::raws(b.into_any().raw())); }
                }
            } }
            arches!(typed);
        }
        self.put(format!("{{\"op\":\"near\",\"raw\":{},\"n\":{},\"eq\":[{}],\"notne\":[{}],\"typed\":[{}],\"set\":{}}}",
            crate::handles::raws((key, gen)), n, like.join(","), unlike.join(","), typed.join(","), set.len()));
    }

    /// Slot and dense positions that need all three bytes of their field.
    fn deep(&mut self, n: usize) {
        let mut w = Wh::new();
        let mut es = vec![];
        for i in 0..n { es.push((w.arch_a.create((CompV(i as u32),)), w.arch_b.create((CompV(i as u32), CompU(i as u64))))); }
        let mut pick: Vec<usize> = vec![0, 1, 2, 127, 128, 254, 255, 256, 257, 511, 512, 32767, 32768, 65534, 65535, 65536, 65537, 131071, 131072, n - 2, n - 1];
        pick.retain(|i| *i < n);
        pick.dedup();
        let mut items = vec![];
        let mut ds = vec![];
        for i in pick {
            let (a, b) = es[i];
            let (ra, rb): (EntityAny, EntityAny) = (a.into(), b.into());
            for (any, val) in [(ra, i), (rb, i)] {
                let k = items.len() + 1;
                items.push((any, format!("[{},0,0,0]", k)));
                ds.push((w.to_direct(any).unwrap(), format!("[{},0,0,0]", k)));
                let found = ecs_find_borrow!(w, any, |v: &CompV| v.0 as usize) == Some(val);
                let d = ds[ds.len() - 1].0;
                let dfound = ecs_find_borrow!(w, d, |v: &CompV| v.0 as usize) == Some(val);
                self.put(format!("{{\"op\":\"deep\",\"id\":{},\"want\":{},\"found\":{},\"dfound\":{},\"same\":{}}}", any.archetype_id(), if any == ra { 3 } else { 4 },
                    found, dfound, EntityAny::from_raw(any.raw()) == Ok(any)));
            }
        }
        self.matrix("Any", &items);
        self.matrix("DAny", &ds);
    }
}

pub fn run(plan: &str, out: &str) {
    let mut c = Ctx { w: Wh::new(), o: Wo::new(), out: std::io::BufWriter::new(std::fs::File::create(out).unwrap()) };
    c.put(format!("{{\"op\":\"shape\",\"ids\":{:?},\"debug\":{}}}", IDS, cfg!(debug_assertions)));
    // ids are constants, too
    let consts = [ArchA::ARCHETYPE_ID, ArchB::ARCHETYPE_ID, ArchC::ARCHETYPE_ID, ArchD::ARCHETYPE_ID, ArchE::ARCHETYPE_ID];
    c.put(format!("{{\"op\":\"reset\",\"b\":\"ids\"}}\n{{\"op\":\"ids\",\"ids\":{:?}}}", consts));
    let f = std::io::BufReader::new(std::fs::File::open(plan).unwrap());
    for line in f.lines() {
        let line = line.unwrap();
        let p: Vec<&str> = line.split_whitespace().collect();
        match p.first() {
            None => {}
            Some(&"B") => c.put(format!("{{\"op\":\"reset\",\"b\":\"{}\"}}", p[1])),
            Some(&"w") => c.word(&p[1..]),
            Some(&"raw") => c.raw((p[1].parse().unwrap(), p[2].parse().unwrap())),
            Some(&"id") => {
                let n: u8 = p[1].parse().unwrap();
                let (res, t) = match SelectArchetype::try_from(n) { Ok(s) => ("ok".to_string(), sel_a_index(s) + 1), Err(e) => (format!("{:?}", e), 0) };
                c.put(format!("{{\"op\":\"id\",\"id\":{},\"res\":\"{}\",\"t\":{}}}", n, res, t));
            }
            Some(&"pairs") => c.pairs(p[1].parse().unwrap(), p[2].parse().unwrap()),
            Some(&"near") => c.near(p[1].parse().unwrap(), p[2].parse().unwrap()),
            Some(&"deep") => c.deep(p[1].parse().unwrap()),
            Some(x) => panic!("unknown op {}", x),
        }
    }
    c.put("{\"op\":\"reset\",\"b\":\"end\"}".into());
}
