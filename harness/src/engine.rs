// Included by each shape module: runs plans on the real crate and writes observation traces.
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::{BufRead, Write as _};
use std::panic::{catch_unwind, AssertUnwindSafe};

use crate::util::*;

fn col<C: Comp>(c: &C) -> (&'static str, i64) {
    (C::COL, c.id())
}
// A handle that shows up differently in two parameters of one closure call is reported as a forged one.
fn same(a: EntityAny, b: EntityAny) -> EntityAny {
    if a.raw() == b.raw() { a } else { EntityAny::from_raw((u32::MAX, u32::MAX)).unwrap() }
}
fn samed(a: EntityDirectAny, b: EntityDirectAny) -> EntityDirectAny {
    if a == b { a } else { reg(|r| r.drops.push(-77)); a }
}

type Res = Option<(Option<EntityAny>, Option<Vec<i64>>)>;
enum Pr {
    No,
    Boom,
    Yes(Option<EntityAny>, Option<Vec<i64>>),
}
type Probes = Vec<(&'static str, Pr)>;
type Rows = Vec<(EntityAny, Vec<i64>)>;

fn probe(out: &mut Probes, name: &'static str, f: impl FnOnce() -> Res) {
    out.push((
        name,
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(None) => Pr::No,
            Ok(Some((t, r))) => Pr::Yes(t, r),
            Err(_) => Pr::Boom,
        },
    ));
}
fn nobody() -> EntityAny {
    EntityAny::from_raw((u32::MAX, u32::MAX)).unwrap()
}
fn bogus() -> Rows {
    vec![(nobody(), vec![])]
}
/// Whether nth, fold, count, last and size_hint of an iterator agree with what next gives (exact: of size_hint too).
fn lawful<T: PartialEq, I: Iterator<Item = T>>(f: impl Fn() -> I, exact: bool) -> bool {
    let (mut all, mut it, n) = (vec![], f(), f().count());
    let mut ok = true;
    loop {
        let (lo, hi) = it.size_hint();
        let left = n - all.len().min(n);
        ok &= if exact { lo == left && hi == Some(left) } else { lo <= left && hi.map_or(true, |h| h >= left) };
        match it.next() { Some(x) => all.push(x), None => break }
    }
    let mut folded = vec![];
    f().for_each(|x| folded.push(x));
    ok &= it.next().is_none() && f().last() == all.pop() && folded.pop() == f().nth(n.max(1) - 1) && folded == all;
    let skipped: Vec<T> = f().step_by(2).collect();
    ok && f().nth(n).is_none() && skipped.iter().take(all.len() / 2).enumerate().all(|(i, x)| *x == all[2 * i])
}
fn yes(b: bool) -> Res {
    if b { Some((None, None)) } else { None }
}

/// What the harness needs of an archetype; implemented by a macro with the concrete types.
trait Ar: Archetype {
    fn cols() -> Vec<&'static str>;
    fn mk(ids: &[i64]) -> Self::Components;
    fn shown(ids: &[i64]) -> Vec<i64>;
    fn ids(c: &Self::Components) -> Vec<i64>;
    fn unpack(c: Self::Components) -> Vec<i64>;
    fn create(w: &mut W, ids: &[i64], via: &str, within: bool, boom: bool) -> Result<EntityAny, Vec<i64>>;
    fn destroy(w: &mut W, e: EntityAny, via: &str) -> Result<Option<Vec<i64>>, ()>;
    fn write(w: &mut W, e: EntityAny, c: usize, via: &str, id: i64) -> bool;
    fn probes(w: &mut W, e: EntityAny, directs: &mut Vec<(EntityAny, EntityDirectAny)>) -> Probes;
    fn wrong_probes(w: &mut W, e: EntityAny) -> Probes;
    fn kill_probes(w: &mut W, e: EntityAny) -> Probes;
    fn dprobes(w: &mut W, d: EntityDirectAny, directs: &mut Vec<(EntityAny, EntityDirectAny)>) -> Probes;
    fn dwrong_probes(w: &mut W, d: EntityDirectAny) -> Probes;
    fn dkill_probes(w: &mut W, d: EntityDirectAny) -> Probes;
    fn rows(w: &mut W) -> Vec<(&'static str, Option<Rows>)>;
    fn meta(w: &W) -> (i64, i64, bool);
    #[cfg(feature = "events")]
    fn events(w: &W) -> (Vec<EntityAny>, Vec<EntityAny>);
    #[cfg(feature = "events")]
    fn clear(w: &mut W);
    fn room(w: &mut W, left: Result<u32, u32>) -> bool;
}

macro_rules! arch_impl {
    ($i:expr, $A:ident, $f:ident, [$($n:literal $C:ident $c:ident),*]) => {
        impl Ar for $A {
            fn cols() -> Vec<&'static str> {
                vec![$($C::COL),*]
            }
            fn mk(ids: &[i64]) -> Self::Components {
                ($($C::mk(ids[$n]),)*).into()
            }
            fn shown(ids: &[i64]) -> Vec<i64> {
                vec![$($C::shown(ids[$n])),*]
            }
            fn ids(c: &Self::Components) -> Vec<i64> {
                vec![$(c.$c.id()),*]
            }
            /// The values of components that were handed back, which all ways to take them apart must agree on.
            fn unpack(mut c: Self::Components) -> Vec<i64> {
                let ids = Self::ids(&c);
                let mut ok = true;
                $(ok &= c.get::<$C>().id() == ids[$n] && c.get_mut::<$C>().id() == ids[$n];)*
                let t: <<$A as Archetype>::Components as Components>::Tuple = if ids.len() > 0 && ids[0] % 2 == 0 { c.into_tuple() } else { c.into() };
                let ($($c,)*) = &t;
                ok &= vec![$($c.id()),*] == ids;
                quiet(move || drop(t));
                if ok { ids } else { vec![-78; ids.len()] }
            }
            fn create(w: &mut W, ids: &[i64], via: &str, within: bool, boom: bool) -> Result<EntityAny, Vec<i64>> {
                struct Boom(<$A as Archetype>::Components);
                impl From<Boom> for <$A as Archetype>::Components {
                    fn from(b: Boom) -> Self {
                        let _held = b.0;
                        panic!("injected: into")
                    }
                }
                let comps = Self::mk(ids);
                let back = <$A as Ar>::unpack;
                match (via, within, boom) {
                    ("world", false, true) => Ok(w.create::<$A>(Boom(comps)).into()),
                    (_, false, true) => Ok(w.$f.create(Boom(comps)).into()),
                    ("world", true, true) => w.create_within_capacity::<$A>(Boom(comps)).map(|e| e.into()).map_err(back),
                    (_, true, true) => w.$f.create_within_capacity(Boom(comps)).map(|e| e.into()).map_err(back),
                    ("world", false, _) => Ok(w.create::<$A>(comps).into()),
                    ("arch", false, _) => Ok(w.$f.create(comps).into()),
                    ("mut", false, _) => Ok(w.archetype_mut::<$A>().create(comps.into_tuple()).into()),
                    ("world", true, _) => w.create_within_capacity::<$A>(comps).map(|e| e.into()).map_err(back),
                    ("arch", true, _) => w.$f.create_within_capacity(comps).map(|e| e.into()).map_err(back),
                    (_, _, _) => w.archetype_mut::<$A>().create_within_capacity(comps.into_tuple()).map(|e| e.into()).map_err(back),
                }
            }
            fn destroy(w: &mut W, e: EntityAny, via: &str) -> Result<Option<Vec<i64>>, ()> {
                // Ok(Some) = components handed back, Ok(None) = rejected, Err(()) = destroyed, components dropped
                let back = |c: Option<<$A as Archetype>::Components>| Ok(c.map(<$A as Ar>::unpack));
                let unit = |u: Option<()>| match u { Some(()) => Err(()), None => Ok(None) };
                let t = Entity::<$A>::try_from(e).unwrap();
                match via {
                    "we" => back(w.destroy(t)),
                    "ae" => back(w.$f.destroy(t)),
                    "wa" => unit(w.destroy(e)),
                    "aa" => back(w.$f.destroy(e)),
                    "wd" => match w.to_direct(t) { Some(d) => back(w.destroy(d)), None => Ok(None) },
                    "ad" => match w.$f.to_direct(t) { Some(d) => back(w.$f.destroy(d)), None => Ok(None) },
                    "wda" => match w.to_direct(e) { Some(d) => unit(w.destroy(d)), None => Ok(None) },
                    "ada" => match w.$f.to_direct(e) { Some(d) => back(w.$f.destroy(d)), None => Ok(None) },
                    _ => unreachable!(),
                }
            }
            #[allow(unused_variables, unused_mut)]
            fn write(w: &mut W, e: EntityAny, c: usize, via: &str, id: i64) -> bool {
                let t = Entity::<$A>::try_from(e).unwrap();
                macro_rules! put { ($v:expr) => { match c { $($n => { $v.$c = <$C as Comp>::mk(id) })* _ => unreachable!() } } }
                match via {
                    "view" => w.view(t).map(|mut v| match c { $($n => *v.$c = $C::mk(id),)* _ => unreachable!() }).is_some(),
                    "aview" => w.$f.view(e).map(|mut v| match c { $($n => *v.component_mut::<$C>() = $C::mk(id),)* _ => unreachable!() }).is_some(),
                    "dview" => match w.to_direct(t) {
                        Some(d) => w.view(d).map(|mut v| match c { $($n => *v.component_mut::<$C>() = $C::mk(id),)* _ => unreachable!() }).is_some(),
                        None => false,
                    },
                    "borrow" => w.borrow(t).map(|b| match c { $($n => *b.component_mut::<$C>() = $C::mk(id),)* _ => unreachable!() }).is_some(),
                    "aborrow" => w.$f.borrow(e).map(|b| match c { $($n => *b.component_mut::<$C>() = $C::mk(id),)* _ => unreachable!() }).is_some(),
                    "find" => ecs_find!(w, e, |$($c: &mut $C),*| { match c { $($n => *$c = $C::mk(id),)* _ => unreachable!() } }).is_some(),
                    "findt" => ecs_find!(w, t, |$($c: &mut $C),*| { match c { $($n => *$c = $C::mk(id),)* _ => unreachable!() } }).is_some(),
                    "findb" => ecs_find_borrow!(w, e, |$($c: &mut $C),*| { match c { $($n => *$c = $C::mk(id),)* _ => unreachable!() } }).is_some(),
                    "slice" => match w.$f.resolve(t) {
                        Some(i) => { match c { $($n => w.$f.get_slice_mut::<$C>()[i] = $C::mk(id),)* _ => unreachable!() }; true }
                        None => false,
                    },
                    "slices" => match w.$f.resolve(e) {
                        Some(i) => { let s = w.$f.get_all_slices_mut(); match c { $($n => s.$c[i] = $C::mk(id),)* _ => unreachable!() }; true }
                        None => false,
                    },
                    "bslice" => match w.$f.resolve(e) {
                        Some(i) => { match c { $($n => w.$f.borrow_slice_mut::<$C>()[i] = $C::mk(id),)* _ => unreachable!() }; true }
                        None => false,
                    },
                    "itermut" => {
                        let mut hit = false;
                        for (e2, $($c),*) in w.$f.iter_mut() {
                            if *e2 == t { match c { $($n => *$c = $C::mk(id),)* _ => unreachable!() }; hit = true; break; }
                        }
                        hit
                    }
                    "iter" => {
                        let mut hit = false;
                        ecs_iter!(w, |e2: &Entity<$A>, $($c: &mut $C),*| {
                            if *e2 == t { match c { $($n => *$c = $C::mk(id),)* _ => unreachable!() }; hit = true; EcsStep::Break } else { EcsStep::Continue }
                        });
                        hit
                    }
                    "iterb" => {
                        let mut hit = false;
                        ecs_iter_borrow!(w, |e2: &EntityAny, $($c: &mut $C),*| {
                            if *e2 == e { match c { $($n => *$c = $C::mk(id),)* _ => unreachable!() }; hit = true; EcsStep::Break } else { EcsStep::Continue }
                        });
                        hit
                    }
                    _ => unreachable!("{}", via),
                }
            }
            fn probes(w: &mut W, e: EntityAny, directs: &mut Vec<(EntityAny, EntityDirectAny)>) -> Probes {
                let mut o = Probes::new();
                let Ok(t) = Entity::<$A>::try_from(e) else { return o };
                let mut ds = vec![];
                let at = |w: &mut W, i: usize| -> Res {
                    let en = *w.$f.entities().get(i)?;
                    Some((Some(en.into()), Some(vec![$(w.$f.get_slice::<$C>()[i].id()),*])))
                };
                probe(&mut o, "w.contains", || yes(w.contains(t)));
                probe(&mut o, "w.contains.any", || yes(w.contains(e)));
                probe(&mut o, "a.contains", || yes(w.$f.contains(t)));
                probe(&mut o, "a.contains.any", || yes(w.$f.contains(e)));
                probe(&mut o, "w.to_direct", || { let d = w.to_direct(t)?; ds.push(d.into_any()); yes(true) });
                probe(&mut o, "w.to_direct.any", || { let d = w.to_direct(e)?; ds.push(d.into_any()); yes(true) });
                probe(&mut o, "a.to_direct", || { let d = w.$f.to_direct(t)?; ds.push(d.into_any()); yes(true) });
                probe(&mut o, "a.to_direct.any", || { let d = w.$f.to_direct(e)?; ds.push(d.into_any()); yes(true) });
                probe(&mut o, "a.resolve", || { let i = w.$f.resolve(t)?; at(w, i) });
                probe(&mut o, "a.resolve.any", || { let i = w.$f.resolve(e)?; at(w, i) });
                probe(&mut o, "w.view", || { let v = w.view(t)?; Some((Some((*v.entity).into()), Some(vec![$(v.$c.id()),*]))) });
                probe(&mut o, "a.view", || { let v = w.$f.view(t)?; Some((Some((*v.entity).into()), Some(vec![$(v.component::<$C>().id()),*]))) });
                probe(&mut o, "a.view.any", || { let v = w.$f.view(e)?; Some((Some((*v.entity).into()), Some(vec![$(v.$c.id()),*]))) });
                probe(&mut o, "a.view.index", || { let i = { w.$f.view(e)?.index() }; at(w, i) });
                probe(&mut o, "w.borrow", || { let b = w.borrow(t)?; let r = (Some((*b.entity()).into()), Some(vec![$(b.component::<$C>().id()),*])); Some(r) });
                probe(&mut o, "a.borrow", || { let b = w.$f.borrow(t)?; let r = (Some((*b.entity()).into()), Some(vec![$(b.component_mut::<$C>().id()),*])); Some(r) });
                probe(&mut o, "a.borrow.any", || { let b = w.$f.borrow(e)?; let r = (Some((*b.entity()).into()), Some(vec![$(b.component::<$C>().id()),*])); Some(r) });
                probe(&mut o, "a.borrow.index", || { let i = w.$f.borrow(e)?.index(); at(w, i) });
                probe(&mut o, "find", || ecs_find!(w, t, |e2: &Entity<$A>, d: &EntityDirect<$A>, $($c: &mut $C),*| { ds.push(d.into_any()); (Some(e2.into_any()), Some(vec![$($c.id()),*])) }));
                probe(&mut o, "find.any", || ecs_find!(w, e, |e2: &EntityAny, d: &EntityDirectAny, $($c: &$C),*| { ds.push(*d); (Some(*e2), Some(vec![$($c.id()),*])) }));
                probe(&mut o, "find_borrow", || ecs_find_borrow!(w, t, |e2: &Entity<_>, d: &EntityDirect<_>, $($c: &$C),*| { ds.push(d.into_any()); (Some(e2.into_any()), Some(vec![$($c.id()),*])) }));
                probe(&mut o, "find_borrow.any", || ecs_find_borrow!(w, e, |e2: &EntityAny, d: &EntityDirectAny, $($c: &mut $C),*| { ds.push(*d); (Some(*e2), Some(vec![$($c.id()),*])) }));
                let mut e2 = e;
                probe(&mut o, "find.ref.any", || ecs_find!(w, &e, |e2: &Entity<$A>, d: &EntityDirect<$A>, $($c: &mut $C),*| { ds.push(d.into_any()); (Some(e2.into_any()), Some(vec![$($c.id()),*])) }));
                probe(&mut o, "find_borrow.mut.any", || ecs_find_borrow!(w, &mut e2, |e2: &Entity<_>, d: &EntityDirectAny, $($c: &$C),*| { ds.push(*d); (Some(e2.into_any()), Some(vec![$($c.id()),*])) }));
                for d in ds { directs.push((e, d)); }
                o
            }
            /// Lookups of a handle through an archetype it does not belong to.
            fn wrong_probes(w: &mut W, e: EntityAny) -> Probes {
                let mut o = Probes::new();
                if e.archetype_id() == <$A as Archetype>::ARCHETYPE_ID { return o; }
                probe(&mut o, "wrong.contains.any", || yes(w.$f.contains(e)));
                probe(&mut o, "wrong.resolve.any", || yes(w.$f.resolve(e).is_some()));
                probe(&mut o, "wrong.to_direct.any", || yes(w.$f.to_direct(e).is_some()));
                probe(&mut o, "wrong.view.any", || { let v = w.$f.view(e)?; Some((Some((*v.entity).into()), Some(vec![$(v.$c.id()),*]))) });
                probe(&mut o, "wrong.borrow.any", || { let b = w.$f.borrow(e)?; let r = (Some((*b.entity()).into()), Some(vec![$(b.component::<$C>().id()),*])); Some(r) });
                probe(&mut o, "wrong.destroy.any", || { let c = w.$f.destroy(e)?; Some((None, Some(Self::ids(&c)))) });
                probe(&mut o, "wrong.try", || yes(Entity::<$A>::try_from(e).is_ok()));
                // Typed handles with another archetype's bits
                let mut ts = vec![];
                if let Ok(t) = catch_unwind(|| Entity::<$A>::from_any_unchecked(e)) { ts.push(t); }
                if let Some(first) = w.$f.entities().first() {
                    let mut t = *first;
                    let any: &mut EntityAny = (&mut t).into();
                    *any = e;
                    ts.push(t);
                }
                for t in ts {
                    probe(&mut o, "forced.w.contains", || yes(w.contains(t)));
                    probe(&mut o, "forced.a.contains", || yes(w.$f.contains(t)));
                    probe(&mut o, "forced.resolve", || yes(w.$f.resolve(t).is_some()));
                    probe(&mut o, "forced.to_direct", || yes(w.to_direct(t).is_some()));
                    probe(&mut o, "forced.view", || { let v = w.view(t)?; Some((Some((*v.entity).into()), Some(vec![$(v.$c.id()),*]))) });
                    probe(&mut o, "forced.borrow", || { let b = w.borrow(t)?; let r = (Some((*b.entity()).into()), Some(vec![$(b.component::<$C>().id()),*])); Some(r) });
                    probe(&mut o, "forced.find", || ecs_find!(w, t, |e2: &Entity<$A>, $($c: &$C),*| (Some(e2.into_any()), Some(vec![$($c.id()),*]))));
                    probe(&mut o, "forced.find_borrow", || ecs_find_borrow!(w, t, |e2: &Entity<$A>, $($c: &$C),*| (Some(e2.into_any()), Some(vec![$($c.id()),*]))));
                    probe(&mut o, "forced.destroy", || { let c = w.destroy(t)?; Some((None, Some(Self::ids(&c)))) });
                    probe(&mut o, "forced.a.destroy", || { let c = w.$f.destroy(t)?; Some((None, Some(Self::ids(&c)))) });
                }
                o
            }
            fn kill_probes(w: &mut W, e: EntityAny) -> Probes {
                let mut o = Probes::new();
                let Ok(t) = Entity::<$A>::try_from(e) else { return o };
                probe(&mut o, "destroy.w", || { let c = w.destroy(t)?; Some((None, Some(Self::ids(&c)))) });
                probe(&mut o, "destroy.a", || { let c = w.$f.destroy(t)?; Some((None, Some(Self::ids(&c)))) });
                probe(&mut o, "destroy.w.any", || { w.destroy(e)?; yes(true) });
                probe(&mut o, "destroy.a.any", || { let c = w.$f.destroy(e)?; Some((None, Some(Self::ids(&c)))) });
                o
            }
            fn dprobes(w: &mut W, d: EntityDirectAny, directs: &mut Vec<(EntityAny, EntityDirectAny)>) -> Probes {
                let mut o = Probes::new();
                let Ok(t) = EntityDirect::<$A>::try_from(d) else { return o };
                let mut ds: Vec<(EntityAny, EntityDirectAny)> = vec![];
                let at = |w: &mut W, i: usize| -> Res {
                    let en = *w.$f.entities().get(i)?;
                    Some((Some(en.into()), Some(vec![$(w.$f.get_slice::<$C>()[i].id()),*])))
                };
                probe(&mut o, "w.contains", || yes(w.contains(t)));
                probe(&mut o, "w.contains.any", || yes(w.contains(d)));
                probe(&mut o, "a.contains", || yes(w.$f.contains(t)));
                probe(&mut o, "a.contains.any", || yes(w.$f.contains(d)));
                // A direct handle converted to a direct handle is a new one, issued now for the same entity
                probe(&mut o, "w.to_direct.get", || { let d2 = w.to_direct(t)?; let i = w.$f.resolve(d2)?; let r = at(w, i); if let Some((Some(en), _)) = r { ds.push((en, d2.into_any())) }; r });
                probe(&mut o, "w.to_direct.any.get", || { let d2 = w.to_direct(d)?; let i = w.$f.resolve(d2)?; let r = at(w, i); if let Some((Some(en), _)) = r { ds.push((en, d2)) }; r });
                probe(&mut o, "w.to_direct.is", || yes(w.to_direct(t).is_some()));
                probe(&mut o, "w.to_direct.any.is", || yes(w.to_direct(d).is_some()));
                probe(&mut o, "a.to_direct.is", || yes(w.$f.to_direct(t).is_some()));
                probe(&mut o, "a.to_direct.any.is", || yes(w.$f.to_direct(d).is_some()));
                probe(&mut o, "a.resolve", || { let i = w.$f.resolve(t)?; at(w, i) });
                probe(&mut o, "a.resolve.any", || { let i = w.$f.resolve(d)?; at(w, i) });
                probe(&mut o, "w.view", || { let v = w.view(t)?; Some((Some((*v.entity).into()), Some(vec![$(v.$c.id()),*]))) });
                probe(&mut o, "a.view.any", || { let v = w.$f.view(d)?; Some((Some((*v.entity).into()), Some(vec![$(v.$c.id()),*]))) });
                probe(&mut o, "w.borrow", || { let b = w.borrow(t)?; let r = (Some((*b.entity()).into()), Some(vec![$(b.component::<$C>().id()),*])); Some(r) });
                probe(&mut o, "a.borrow.any", || { let b = w.$f.borrow(d)?; let r = (Some((*b.entity()).into()), Some(vec![$(b.component_mut::<$C>().id()),*])); Some(r) });
                probe(&mut o, "find", || ecs_find!(w, t, |e2: &Entity<$A>, d2: &EntityDirect<$A>, $($c: &mut $C),*| { ds.push((e2.into_any(), d2.into_any())); (Some(e2.into_any()), Some(vec![$($c.id()),*])) }));
                probe(&mut o, "find.any", || ecs_find!(w, d, |e2: &EntityAny, d2: &EntityDirectAny, $($c: &$C),*| { ds.push((*e2, *d2)); (Some(*e2), Some(vec![$($c.id()),*])) }));
                probe(&mut o, "find_borrow", || ecs_find_borrow!(w, t, |e2: &Entity<_>, d2: &EntityDirect<_>, $($c: &$C),*| { ds.push((e2.into_any(), d2.into_any())); (Some(e2.into_any()), Some(vec![$($c.id()),*])) }));
                probe(&mut o, "find_borrow.any", || ecs_find_borrow!(w, d, |e2: &EntityAny, d2: &EntityDirectAny, $($c: &mut $C),*| { ds.push((*e2, *d2)); (Some(*e2), Some(vec![$($c.id()),*])) }));
                let mut d3 = d;
                probe(&mut o, "find_borrow.ref.any", || ecs_find_borrow!(w, &d, |e2: &Entity<$A>, d2: &EntityDirect<$A>, $($c: &mut $C),*| { ds.push((e2.into_any(), d2.into_any())); (Some(e2.into_any()), Some(vec![$($c.id()),*])) }));
                probe(&mut o, "find.mut.any", || ecs_find!(w, &mut d3, |e2: &Entity<_>, d2: &EntityDirectAny, $($c: &$C),*| { ds.push((e2.into_any(), *d2)); (Some(e2.into_any()), Some(vec![$($c.id()),*])) }));
                directs.extend(ds);
                o
            }
            fn dwrong_probes(w: &mut W, d: EntityDirectAny) -> Probes {
                let mut o = Probes::new();
                if d.archetype_id() == <$A as Archetype>::ARCHETYPE_ID { return o; }
                probe(&mut o, "wrong.contains.any", || yes(w.$f.contains(d)));
                probe(&mut o, "wrong.resolve.any", || yes(w.$f.resolve(d).is_some()));
                probe(&mut o, "wrong.to_direct.any", || yes(w.$f.to_direct(d).is_some()));
                probe(&mut o, "wrong.view.any", || { let v = w.$f.view(d)?; Some((Some((*v.entity).into()), Some(vec![$(v.$c.id()),*]))) });
                probe(&mut o, "wrong.borrow.any", || { let b = w.$f.borrow(d)?; let r = (Some((*b.entity()).into()), Some(vec![$(b.component::<$C>().id()),*])); Some(r) });
                probe(&mut o, "wrong.destroy.any", || { let c = w.$f.destroy(d)?; Some((None, Some(Self::ids(&c)))) });
                let mut ts = vec![];
                if let Ok(t) = catch_unwind(|| EntityDirect::<$A>::from_any_unchecked(d)) { ts.push(t); }
                let first = w.$f.entities().first().copied();
                if let Some(mut t) = first.and_then(|e| w.$f.to_direct(e)) {
                    let any: &mut EntityDirectAny = (&mut t).into();
                    *any = d;
                    ts.push(t);
                }
                for t in ts {
                    probe(&mut o, "forced.w.contains", || yes(w.contains(t)));
                    probe(&mut o, "forced.a.contains", || yes(w.$f.contains(t)));
                    probe(&mut o, "forced.resolve", || yes(w.$f.resolve(t).is_some()));
                    probe(&mut o, "forced.to_direct", || yes(w.to_direct(t).is_some()));
                    probe(&mut o, "forced.view", || { let v = w.view(t)?; Some((Some((*v.entity).into()), Some(vec![$(v.$c.id()),*]))) });
                    probe(&mut o, "forced.borrow", || { let b = w.borrow(t)?; let r = (Some((*b.entity()).into()), Some(vec![$(b.component::<$C>().id()),*])); Some(r) });
                    probe(&mut o, "forced.find", || ecs_find!(w, t, |e2: &Entity<$A>, $($c: &$C),*| (Some(e2.into_any()), Some(vec![$($c.id()),*]))));
                    probe(&mut o, "forced.find_borrow", || ecs_find_borrow!(w, t, |e2: &Entity<$A>, $($c: &$C),*| (Some(e2.into_any()), Some(vec![$($c.id()),*]))));
                    probe(&mut o, "forced.destroy", || { let c = w.destroy(t)?; Some((None, Some(Self::ids(&c)))) });
                }
                o
            }
            fn dkill_probes(w: &mut W, d: EntityDirectAny) -> Probes {
                let mut o = Probes::new();
                let Ok(t) = EntityDirect::<$A>::try_from(d) else { return o };
                probe(&mut o, "destroy.w", || { let c = w.destroy(t)?; Some((None, Some(Self::ids(&c)))) });
                probe(&mut o, "destroy.a", || { let c = w.$f.destroy(t)?; Some((None, Some(Self::ids(&c)))) });
                probe(&mut o, "destroy.w.any", || { w.destroy(d)?; yes(true) });
                probe(&mut o, "destroy.a.any", || { let c = w.$f.destroy(d)?; Some((None, Some(Self::ids(&c)))) });
                o
            }
            fn rows(w: &mut W) -> Vec<(&'static str, Option<Rows>)> {
                let mut o: Vec<(&'static str, Option<Rows>)> = vec![];
                macro_rules! path { ($name:expr, $e:expr) => { o.push(($name, catch_unwind(AssertUnwindSafe(|| -> Rows { $e })).ok())) } }
                path!("iter", w.$f.iter().map(|(e, $($c),*)| (e.into_any(), vec![$($c.id()),*])).collect());
                path!("iter_mut", w.$f.iter_mut().map(|(e, $($c),*)| (e.into_any(), vec![$($c.id()),*])).collect());
                // An iterator is consistent: nth, fold, count, last and size_hint agree with next
                path!("iter.skip", {
                    let mut r: Rows = w.$f.iter().step_by(2).map(|(e, $($c),*)| (e.into_any(), vec![$($c.id()),*])).collect();
                    r.extend(w.$f.iter().skip(1).step_by(2).map(|(e, $($c),*)| (e.into_any(), vec![$($c.id()),*])));
                    r
                });
                path!("iter_mut.skip", {
                    let mut r: Rows = w.$f.iter_mut().skip(1).step_by(2).map(|(e, $($c),*)| (e.into_any(), vec![$($c.id()),*])).collect();
                    r.extend(w.$f.iter_mut().step_by(2).map(|(e, $($c),*)| (e.into_any(), vec![$($c.id()),*])));
                    r
                });
                path!("iter.walk", {
                    let n = w.$f.len();
                    let last = w.$f.iter().last().map(|(e, $($c),*)| (e.into_any(), vec![$($c.id()),*]));
                    let mut ok = w.$f.iter().count() == n && w.$f.iter().nth(n).is_none();
                    let mut r: Rows = vec![];
                    let mut it = w.$f.iter();
                    loop {
                        let (lo, hi) = it.size_hint();
                        ok &= lo <= n - r.len().min(n) && hi.map_or(true, |h| h >= n - r.len().min(n));
                        match it.next() { Some((e, $($c),*)) => r.push((e.into_any(), vec![$($c.id()),*])), None => break }
                    }
                    ok &= it.next().is_none() && r.last() == last.as_ref();
                    drop(it);
                    let mut r2: Rows = vec![];
                    w.$f.iter().for_each(|(e, $($c),*)| r2.push((e.into_any(), vec![$($c.id()),*])));
                    if ok && r == r2 { r } else { bogus() }
                });
                path!("iter_mut.walk", {
                    let n = w.$f.len();
                    let last = w.$f.iter_mut().last().map(|(e, $($c),*)| (e.into_any(), vec![$($c.id()),*]));
                    let mut ok = w.$f.iter_mut().count() == n && w.$f.iter_mut().nth(n).is_none();
                    let mut r: Rows = vec![];
                    let mut it = w.$f.iter_mut();
                    loop {
                        let (lo, hi) = it.size_hint();
                        ok &= lo <= n - r.len().min(n) && hi.map_or(true, |h| h >= n - r.len().min(n));
                        match it.next() { Some((e, $($c),*)) => r.push((e.into_any(), vec![$($c.id()),*])), None => break }
                    }
                    ok &= it.next().is_none() && r.last() == last.as_ref();
                    drop(it);
                    let mut r2: Rows = vec![];
                    w.$f.iter_mut().for_each(|(e, $($c),*)| r2.push((e.into_any(), vec![$($c.id()),*])));
                    if ok && r == r2 { r } else { bogus() }
                });
                path!("entities+get_slice", {
                    let es: Vec<_> = w.$f.entities().to_vec();
                    let lens = [es.len() $(, w.$f.get_slice::<$C>().len())*];
                    if lens.iter().any(|l| *l != es.len()) { return vec![]; }
                    (0..es.len()).map(|i| (es[i].into_any(), vec![$(w.$f.get_slice::<$C>()[i].id()),*])).collect()
                });
                path!("get_slice_mut", {
                    let es: Vec<_> = w.$f.entities().to_vec();
                    let lens = [es.len() $(, w.$f.get_slice_mut::<$C>().len())*];
                    if lens.iter().any(|l| *l != es.len()) { return vec![]; }
                    (0..es.len()).map(|i| (es[i].into_any(), vec![$(w.$f.get_slice_mut::<$C>()[i].id()),*])).collect()
                });
                path!("borrow_slice", {
                    let es = w.$f.entities();
                    $(let $c = w.$f.borrow_slice::<$C>();)*
                    let lens = [es.len() $(, $c.len())*];
                    if lens.iter().any(|l| *l != es.len()) { return vec![]; }
                    (0..es.len()).map(|i| (es[i].into_any(), vec![$($c[i].id()),*])).collect()
                });
                path!("borrow_slice_mut", {
                    let es = w.$f.entities();
                    $(let $c = w.$f.borrow_slice_mut::<$C>();)*
                    let lens = [es.len() $(, $c.len())*];
                    if lens.iter().any(|l| *l != es.len()) { return vec![]; }
                    (0..es.len()).map(|i| (es[i].into_any(), vec![$($c[i].id()),*])).collect()
                });
                path!("get_all_slices_mut", {
                    let s = w.$f.get_all_slices_mut();
                    let lens = [s.entity.len() $(, s.$c.len())*];
                    if lens.iter().any(|l| *l != s.entity.len()) { return vec![]; }
                    (0..s.entity.len()).map(|i| (s.entity[i].into_any(), vec![$(s.$c[i].id()),*])).collect()
                });
                path!("ecs_iter", { let mut r = vec![]; ecs_iter!(w, |e: &Entity<$A>, $($c: &mut $C),*| { r.push((e.into_any(), vec![$($c.id()),*])); }); r });
                path!("ecs_iter_borrow", { let mut r = vec![]; ecs_iter_borrow!(w, |$($c: &$C,)* e: &Entity<$A>| { r.push((e.into_any(), vec![$($c.id()),*])); }); r });
                path!("ecs_iter_destroy", { let mut r = vec![]; ecs_iter_destroy!(w, |e: &Entity<$A>, $($c: &$C),*| { r.push((e.into_any(), vec![$($c.id()),*])); }); r });
                o
            }
            fn meta(w: &W) -> (i64, i64, bool) {
                let a = w.archetype::<$A>();
                (a.len() as i64, a.capacity() as i64, a.is_empty())
            }
            #[cfg(feature = "events")]
            fn events(w: &W) -> (Vec<EntityAny>, Vec<EntityAny>) {
                let mut r: (Vec<_>, Vec<_>) = (w.$f.iter_created().map(|e| e.into_any()).collect(), w.$f.iter_destroyed().map(|e| e.into_any()).collect());
                if !lawful(|| w.$f.iter_created(), false) { r.0.push(nobody()); }
                if !lawful(|| w.$f.iter_destroyed(), false) { r.1.push(nobody()); }
                r
            }
            #[cfg(feature = "events")]
            fn clear(w: &mut W) { w.$f.clear_events() }
            /// Advances the generations of an empty archetype so that `Ok` more removals fit, or by `Err` cycles.
            fn room(w: &mut W, left: Result<u32, u32>) -> bool {
                if w.$f.capacity() == 0 || w.$f.len() == w.$f.capacity() { return false; }
                let done: u32 = version(w.$f.version());
                let n = u32::MAX - done;
                let cycles = match left {
                    Ok(left) => if n <= left { return false } else { n - left },
                    Err(cycles) => if n <= 1000 || n - 1000 <= cycles { return false } else { cycles },
                };
                #[cfg(gecs_verif)]
                { w.$f.data.__verif_fast_forward(cycles); }
                #[cfg(not(gecs_verif))]
                quiet(|| for _ in 0..cycles {
                    let e = w.$f.create(<$A as Ar>::mk(&[$({ let _ = $n; 0 }),*]));
                    let _ = w.$f.destroy(e);
                });
                true
            }
        }
    };
}
per_arch!(arch_impl);

fn version(v: impl std::fmt::Debug) -> u32 {
    // Debug is the only public view of an ArchetypeVersion
    let s: String = format!("{:?}", v).chars().filter(|c| c.is_ascii_digit()).collect();
    s.parse().unwrap_or(1)
}

/// Lookups that only say yes or no.
const IS: [&str; 8] = ["w.contains", "w.contains.any", "a.contains", "a.contains.any",
    "w.to_direct", "w.to_direct.any", "a.to_direct", "a.to_direct.any"];

pub struct Eng {
    ws: Vec<Option<Box<W>>>,
    hs: Vec<EntityAny>,
    toks: HashMap<(u32, u32), i64>,
    known: Vec<EntityAny>,
    dtoks: HashMap<u64, i64>,
    knownd: Vec<EntityDirectAny>,
    out: std::io::BufWriter<std::fs::File>,
    forge: i64,
    dead: Vec<usize>, // per handle: number of worlds in which a destroy of it succeeded
    light: bool,
    terse: bool, // this event is observed by lengths and capacities only
    events_done: u64,
    last_q: String,
}

fn bits_of(d: EntityDirectAny) -> u64 {
    assert_eq!(std::mem::size_of::<EntityDirectAny>(), 8);
    unsafe { std::mem::transmute_copy(&d) }
}

impl Eng {
    pub fn new(path: &str) -> Eng {
        let mut e = Eng {
            ws: (0..8).map(|_| None).collect(),
            hs: vec![],
            toks: HashMap::new(),
            known: vec![],
            dtoks: HashMap::new(),
            knownd: vec![],
            out: std::io::BufWriter::new(std::fs::File::create(path).unwrap()),
            forge: 900_000,
            dead: vec![],
            light: false,
            terse: false,
            events_done: 0,
            last_q: String::new(),
        };
        e.shape();
        e
    }

    fn shape(&mut self) {
        let mut s = String::from("{\"op\":\"shape\",\"arch\":[");
        for a in 1..=NARCH {
            if a > 1 { s.push(',') }
            let cols: Vec<String> = disp!(a, cols()).iter().map(|c| format!("\"{}\"", c)).collect();
            write!(s, "[{}]", cols.join(",")).unwrap();
        }
        s.push_str("],\"q\":{");
        for (i, (n, need, one, only, mt)) in QUERIES.iter().enumerate() {
            if i > 0 { s.push(',') }
            let f = |x: &[&str]| x.iter().map(|c| format!("\"{}\"", c)).collect::<Vec<_>>().join(",");
            write!(s, "\"{}\":{{\"need\":[{}],\"one\":[{}],\"only\":{},\"mut\":{}}}", n, f(need), f(one), only, mt).unwrap();
        }
        write!(s, "}},\"wrap\":{},\"events\":{},\"debug\":{}}}", cfg!(feature = "wrap"), cfg!(feature = "events"), cfg!(debug_assertions)).unwrap();
        writeln!(self.out, "{}", s).unwrap();
    }

    fn tok(&mut self, e: EntityAny) -> i64 {
        let n = self.toks.len() as i64 + 1;
        let mut new = false;
        let t = *self.toks.entry(e.raw()).or_insert_with(|| { new = true; n });
        if new { self.known.push(e); }
        t
    }
    /// Token of a handle seen in a result; one never seen before gets a forged token, without becoming known.
    fn peek(&mut self, e: EntityAny) -> i64 {
        match self.toks.get(&e.raw()) {
            Some(t) => *t,
            None => { self.forge += 1; self.forge }
        }
    }
    fn dtok(&mut self, d: EntityDirectAny) -> i64 {
        let n = self.dtoks.len() as i64 + 1;
        let mut new = false;
        let t = *self.dtoks.entry(bits_of(d)).or_insert_with(|| { new = true; n });
        if new { self.knownd.push(d); }
        t
    }

    pub fn run(&mut self, plan: &str) {
        let f = std::io::BufReader::new(std::fs::File::open(plan).unwrap());
        let mut skipping = false;
        for line in f.lines() {
            let line = line.unwrap();
            let p: Vec<&str> = line.split_whitespace().collect();
            if p.is_empty() || p[0].starts_with('#') { continue; }
            if p[0] == "B" {
                let light = p.get(2) == Some(&"light");
                self.reset(p[1], light);
                self.light = light;
                skipping = false;
                continue;
            }
            if skipping { continue; }
            if !self.step(&p) { skipping = true; }
        }
        self.reset("end", false);
        self.out.flush().unwrap();
    }

    fn reset(&mut self, b: &str, light: bool) {
        for i in 0..self.ws.len() {
            if self.ws[i].is_some() { self.step(&["dw", &i.to_string(), "-"]); }
        }
        for w in self.ws.iter_mut() { std::mem::forget(w.take()); }
        self.hs.clear(); self.toks.clear(); self.known.clear(); self.dtoks.clear(); self.knownd.clear(); self.dead.clear();
        self.forge = 900_000;
        reg(|r| *r = Reg::default());
        // Flushed per behaviour, so that a crash can be attributed
        writeln!(self.out, "{{\"op\":\"reset\",\"b\":\"{}\",\"light\":{}}}", b, light).unwrap();
        self.out.flush().unwrap();
    }

    fn ent(&self, p: &str) -> Option<EntityAny> {
        self.hs.get(p.parse::<usize>().unwrap()).copied()
    }

    fn step(&mut self, p: &[&str]) -> bool {
        reg(|r| { r.drops.clear(); r.clones.clear(); r.clone_panic = None; r.drop_panic = None; });
        let mut s = String::new();
        let n = |i: usize| -> usize { p[i].parse().unwrap() };
        let wi = n(1);
        self.terse = p[0].starts_with('~');
        match p[0].trim_start_matches('~') {
            // new W default|caps
            "new" => {
                let caps: Vec<usize> = p[2].split(',').map(|x| x.parse().unwrap()).collect();
                let r = catch_unwind(|| if caps.iter().all(|c| *c == 0) { if self.events_done % 2 == 0 { W::new() } else { W::default() } } else { with_caps(&caps) });
                write!(s, "\"op\":\"new\",\"w\":{},\"caps\":{:?},\"res\":\"{}\"", wi, caps, if r.is_ok() { "ok" } else { "panic" }).unwrap();
                if let Ok(w) = r { self.ws[wi] = Some(Box::new(w)); }
            }
            // cr W A via within boom
            "cr" => {
                let Some(mut w) = self.ws[wi].take() else { return true };
                let a = n(2);
                let within = p[4] == "1";
                let ids: Vec<i64> = disp!(a, cols()).iter().map(|_| fresh()).collect();
                let r = catch_unwind(AssertUnwindSafe(|| disp!(a, create(&mut w, &ids, p[3], within, p[5] == "1"))));
                self.ws[wi] = Some(w);
                let (res, tok, ret) = match r {
                    Ok(Ok(e)) => {
                        let t = self.tok(e);
                        self.hs.push(e);
                        self.dead.push(0);
                        ("ok", t, vec![])
                    }
                    Ok(Err(ids)) => ("full", 0, ids),
                    Err(_) => ("panic", 0, vec![]),
                };
                if res != "ok" {
                    // Keep plan indices aligned: a creation that fails still takes an index
                    let e = EntityAny::from_raw((0x00FF_FF00 | 1, u32::MAX)).unwrap();
                    self.hs.push(e);
                    self.dead.push(99);
                }
                let aid = if res == "ok" { sel(self.hs[self.hs.len() - 1]).map(|x| x as i64).unwrap_or(-1) } else { 0 };
                write!(s, "\"op\":\"create\",\"w\":{},\"a\":{},\"via\":\"{}\",\"within\":{},\"inj\":{},\"row\":{:?},\"res\":\"{}\",\"tok\":{},\"aid\":{},\"ret\":{:?}",
                    wi, a, p[3], within, p[5] == "1", disp!(a, shown(&ids)), res, tok, aid, ret).unwrap();
            }
            // de W H via dropboom
            "de" => {
                let Some(mut w) = self.ws[wi].take() else { return true };
                let Some(e) = self.ent(p[2]) else { self.ws[wi] = Some(w); return true };
                if p.len() > 4 && p[4] != "-" { reg(|r| r.drop_panic = Some(p[4].parse().unwrap())); }
                let tok = self.tok_or_forged(e);
                let Some(a) = sel(e) else { self.ws[wi] = Some(w); return true };
                if self.dead[n(2)] == 99 { self.ws[wi] = Some(w); return true; }
                let r = catch_unwind(AssertUnwindSafe(|| disp!(a, destroy(&mut w, e, p[3]))));
                self.ws[wi] = Some(w);
                let inj = reg(|r| { let armed = r.drop_panic.is_some(); r.drop_panic = None; !armed }) && p.len() > 4 && p[4] != "-";
                let (res, ret) = match r {
                    Ok(Ok(Some(ids))) => ("some", ids),
                    Ok(Ok(None)) => ("none", vec![]),
                    Ok(Err(())) => ("unit", vec![]),
                    Err(_) => ("panic", vec![]),
                };
                if res == "some" || res == "unit" { self.dead[n(2)] += 1; }
                write!(s, "\"op\":\"destroy\",\"w\":{},\"a\":{},\"via\":\"{}\",\"tok\":{},\"inj\":{},\"res\":\"{}\",\"ret\":{:?}", wi, a, p[3], tok, inj, res, ret).unwrap();
            }
            // wr W H col via
            "wr" => {
                let Some(mut w) = self.ws[wi].take() else { return true };
                let Some(e) = self.ent(p[2]) else { self.ws[wi] = Some(w); return true };
                let Some(a) = sel(e) else { self.ws[wi] = Some(w); return true };
                if self.dead[n(2)] == 99 { self.ws[wi] = Some(w); return true; }
                let tok = self.tok_or_forged(e);
                let ncol = disp!(a, cols()).len();
                let c = n(3) % ncol;
                let id = fresh();
                let r = catch_unwind(AssertUnwindSafe(|| disp!(a, write(&mut w, e, c, p[4], id))));
                self.ws[wi] = Some(w);
                let res = match r { Ok(true) => "ok", Ok(false) => "none", Err(_) => "panic" };
                let ids: Vec<i64> = vec![id; ncol];
                write!(s, "\"op\":\"write\",\"w\":{},\"a\":{},\"via\":\"{}\",\"tok\":{},\"col\":{},\"new\":{},\"res\":\"{}\"", wi, a, p[4], tok, c + 1, disp!(a, shown(&ids))[c], res).unwrap();
            }
            // it W query mode stop panic      (0 = never)
            "it" => {
                let Some(mut w) = self.ws[wi].take() else { return true };
                let (stop, pk) = (n(4), n(5));
                let mut vis: Vec<(EntityAny, EntityDirectAny, Vec<(&'static str, i64)>)> = vec![];
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let mut k = 0;
                    let mut f = |e: EntityAny, d: EntityDirectAny, c: Vec<(&'static str, i64)>| {
                        k += 1;
                        vis.push((e, d, c));
                        if k == pk { panic!("injected: closure"); }
                        if k == stop { EcsStep::Break } else { EcsStep::Continue }
                    };
                    let w = &mut *w;
                    // a closure may also return nothing
                    let mut g = |e: EntityAny, d: EntityDirectAny, c: Vec<(&'static str, i64)>| { f(e, d, c); };
                    match (p[3], stop == 0 && self.events_done % 2 == 0) {
                        ("iter", true) => query!(ecs_iter, (w), p[2], g, ()),
                        ("iterb", true) => query!(ecs_iter_borrow, (w), p[2], g, ()),
                        ("iter", _) => query!(ecs_iter, (w), p[2], f, ()),
                        ("iterb", _) => query!(ecs_iter_borrow, (w), p[2], f, ()),
                        _ => unreachable!(),
                    }
                }));
                self.ws[wi] = Some(w);
                let v = self.visits(&vis, &[]);
                write!(s, "\"op\":\"iter\",\"w\":{},\"q\":\"{}\",\"mode\":\"{}\",\"stop\":{},\"pk\":{},\"res\":\"{}\",\"vis\":{}", wi, p[2], p[3], stop, pk, if r.is_ok() { "ok" } else { "panic" }, v).unwrap();
            }
            // fi W H query mode panic : find with a closure that may panic
            "fi" => {
                let Some(mut w) = self.ws[wi].take() else { return true };
                let Some(e) = self.ent(p[2]) else { self.ws[wi] = Some(w); return true };
                if self.dead[n(2)] == 99 { self.ws[wi] = Some(w); return true; }
                let tok = self.tok_or_forged(e);
                let boom = p[5] == "1";
                let mut vis: Vec<(EntityAny, EntityDirectAny, Vec<(&'static str, i64)>)> = vec![];
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let mut f = |e: EntityAny, d: EntityDirectAny, c: Vec<(&'static str, i64)>| {
                        vis.push((e, d, c));
                        if boom { panic!("injected: closure"); }
                        7
                    };
                    let w = &mut *w;
                    match p[4] {
                        "find" => query!(ecs_find, (w, e), p[3], f, None),
                        "findb" => query!(ecs_find_borrow, (w, e), p[3], f, None),
                        _ => unreachable!(),
                    }
                }));
                self.ws[wi] = Some(w);
                let v = self.visits(&vis, &[]);
                let res = match r { Ok(Some(7)) => "ok", Ok(None) => "none", Ok(_) => "bad", Err(_) => "panic" };
                write!(s, "\"op\":\"find\",\"w\":{},\"q\":\"{}\",\"mode\":\"{}\",\"tok\":{},\"inj\":{},\"res\":\"{}\",\"vis\":{}", wi, p[3], p[4], tok, boom, res, v).unwrap();
            }
            // id W query default panic dropboom [h:dec]...   decisions C B D E(=break destroy)
            "id" => {
                let Some(mut w) = self.ws[wi].take() else { return true };
                let mut dec: HashMap<(u32, u32), char> = HashMap::new();
                for x in &p[6..] {
                    let (h, d) = x.split_once(':').unwrap();
                    if let Some(e) = self.ent(h) { dec.insert(e.raw(), d.chars().next().unwrap()); }
                }
                let def = p[3].chars().next().unwrap();
                let pk = n(4);
                let all: Vec<char> = dec.values().copied().chain([def]).collect();
                let kind = if self.events_done % 4 == 0 { 2 } else if all.iter().all(|c| *c == 'C') { 0 } else if all.iter().all(|c| *c == 'C' || *c == 'B') { 1 } else { 2 };
                if p[5] != "-" { reg(|r| r.drop_panic = Some(p[5].parse().unwrap())); }
                let mut vis: Vec<(EntityAny, EntityDirectAny, Vec<(&'static str, i64)>)> = vec![];
                let mut ds: Vec<char> = vec![];
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let mut k = 0;
                    let mut f = |e: EntityAny, d: EntityDirectAny, c: Vec<(&'static str, i64)>| {
                        k += 1;
                        vis.push((e, d, c));
                        if k == pk { ds.push('P'); panic!("injected: closure"); }
                        let x = *dec.get(&e.raw()).unwrap_or(&def);
                        ds.push(x);
                        match x {
                            'C' => EcsStepDestroy::Continue,
                            'B' => EcsStepDestroy::Break,
                            'D' => EcsStepDestroy::ContinueDestroy,
                            'E' => EcsStepDestroy::BreakDestroy,
                            _ => unreachable!(),
                        }
                    };
                    let w = &mut *w;
                    // closures that destroy nothing may return an EcsStep or nothing
                    match kind {
                        0 => { let mut g = |e, d, c| { f(e, d, c); }; query!(ecs_iter_destroy, (w), p[2], g, ()) }
                        1 => {
                            let mut g = |e, d, c| match f(e, d, c) { EcsStepDestroy::Continue => EcsStep::Continue, EcsStepDestroy::Break => EcsStep::Break, _ => unreachable!() };
                            query!(ecs_iter_destroy, (w), p[2], g, ())
                        }
                        _ => query!(ecs_iter_destroy, (w), p[2], f, ()),
                    }
                }));
                let inj = reg(|r| { let armed = r.drop_panic.is_some(); r.drop_panic = None; !armed }) && p[5] != "-";
                self.ws[wi] = Some(w);
                for (i, h) in self.hs.iter().enumerate() {
                    if vis.iter().zip(&ds).any(|(v, d)| v.0.raw() == h.raw() && (*d == 'D' || *d == 'E')) { self.dead[i] += 1; }
                }
                let v = self.visits(&vis, &ds);
                write!(s, "\"op\":\"idestroy\",\"w\":{},\"q\":\"{}\",\"pk\":{},\"inj\":{},\"res\":\"{}\",\"vis\":{}", wi, p[2], pk, inj, if r.is_ok() { "ok" } else { "panic" }, v).unwrap();
            }
            // cl W to clonepanic
            "cl" => {
                let to = n(2);
                if self.ws[wi].is_none() || wi == to { return true; }
                // into an existing world: the same, and what it held is dropped
                let over = self.ws[to].is_some();
                if over && p[3] != "-" { return true; }
                if p[3] != "-" { reg(|r| r.clone_panic = Some(p[3].parse().unwrap())); }
                let r = if over {
                    let mut old = self.ws[to].take().unwrap();
                    let r = catch_unwind(AssertUnwindSafe(|| W::clone_from(&mut old, self.ws[wi].as_ref().unwrap())));
                    self.ws[to] = Some(old);
                    r.map(|_| None)
                } else { catch_unwind(AssertUnwindSafe(|| Some(self.ws[wi].as_ref().unwrap().clone()))) };
                let inj = reg(|r| { let armed = r.clone_panic.is_some(); r.clone_panic = None; !armed }) && p[3] != "-";
                let res = if r.is_ok() { "ok" } else { "panic" };
                if let Ok(Some(w)) = r { self.ws[to] = Some(w); }
                let cl: Vec<String> = reg(|r| r.clones.iter().map(|(a, b)| format!("[{},{}]", a, b)).collect());
                write!(s, "\"op\":\"clone\",\"w\":{},\"to\":{},\"inj\":{},\"res\":\"{}\",\"clones\":[{}]", wi, to, inj, res, cl.join(",")).unwrap();
            }
            // dw W droppanic
            "dw" => {
                let Some(w) = self.ws[wi].take() else { return true };
                if p[2] != "-" { reg(|r| r.drop_panic = Some(p[2].parse().unwrap())); }
                let r = catch_unwind(AssertUnwindSafe(move || drop(w)));
                let inj = reg(|r| { let armed = r.drop_panic.is_some(); r.drop_panic = None; !armed }) && p[2] != "-";
                write!(s, "\"op\":\"dropw\",\"w\":{},\"inj\":{},\"res\":\"{}\"", wi, inj, if r.is_ok() { "ok" } else { "panic" }).unwrap();
            }
            // ce W A   (0 = whole world)
            "ce" => {
                #[cfg(feature = "events")]
                {
                    let Some(mut w) = self.ws[wi].take() else { return true };
                    let a = n(2);
                    let r = catch_unwind(AssertUnwindSafe(|| if a == 0 { w.clear_events() } else { disp!(a, clear(&mut w)) }));
                    self.ws[wi] = Some(w);
                    write!(s, "\"op\":\"clear\",\"w\":{},\"a\":{},\"res\":\"{}\"", wi, a, if r.is_ok() { "ok" } else { "panic" }).unwrap();
                }
                #[cfg(not(feature = "events"))]
                return true;
            }
            // ff W A left: until `left` removals fit;  ff W A pK.J: by 2^K - J cycles of creation and removal
            "ff" => {
                let Some(mut w) = self.ws[wi].take() else { return true };
                let a = n(2);
                let (len, _, _) = disp!(a, meta(&w));
                let left: Result<u32, u32> = match p[3].strip_prefix('p').and_then(|x| x.split_once('.')) {
                    Some((k, j)) => Err((1u32 << k.parse::<u32>().unwrap()) - j.parse::<u32>().unwrap()),
                    None => Ok(p[3].parse().unwrap()),
                };
                let ok = len == 0 && disp!(a, room(&mut w, left));
                #[cfg(all(feature = "events", not(gecs_verif)))]
                disp!(a, clear(&mut w));
                self.ws[wi] = Some(w);
                if !ok { return true; }
                write!(s, "\"op\":\"ff\",\"w\":{},\"a\":{},\"left\":{}", wi, a, left.unwrap_or(2_000_000_000)).unwrap();
                #[cfg(all(feature = "events", not(gecs_verif)))]
                s.push_str(",\"cleared\":true");
                #[cfg(not(all(feature = "events", not(gecs_verif))))]
                s.push_str(",\"cleared\":false");
            }
            // fg W seed count : forged handles
            "fg" => {
                let Some(mut w) = self.ws[wi].take() else { return true };
                let mut rng = Rng(p[2].parse::<u64>().unwrap().wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1);
                let mut raws: Vec<(u32, u32)> = vec![];
                let base: Vec<(u32, u32)> = self.known.iter().map(|e| e.raw()).collect();
                for _ in 0..n(3) {
                    let mut r = if base.is_empty() || rng.below(8) == 0 { (rng.next() as u32, rng.next() as u32) } else { base[rng.below(base.len() as u64) as usize] };
                    match rng.below(11) {
                        // just past the slots of its archetype, up to twice as many
                        9 | 10 => {
                            let some = EntityAny::from_raw((r.0, r.1.max(1))).ok().and_then(|e| sel(e)).map_or(0, |a| disp!(a, meta(&w)).1) as u64;
                            let i = some + if rng.below(2) == 0 { rng.below(3) } else { rng.below(some + 4) };
                            r = ((r.0 & 0xFF) | ((i as u32) << 8), if rng.below(2) == 0 { r.1 } else { [1, 2, 3, 0xbebebebe][rng.below(4) as usize] });
                        }
                        0 => r.0 ^= 1 << rng.below(32),
                        1 => r.1 ^= 1 << rng.below(32),
                        2 => r.0 = (r.0 & 0xFF) | (((r.0 >> 8).wrapping_add(1)) << 8),
                        3 => r.1 = r.1.wrapping_add(1),
                        4 => r.1 = r.1.wrapping_sub(1),
                        5 => r.0 = (r.0 & !0xFF) | (base.get(rng.below(base.len().max(1) as u64) as usize).map_or(0, |b| b.0) & 0xFF),
                        6 => r.1 = [0, 1, u32::MAX, u32::MAX - 1, 1 << 31][rng.below(5) as usize],
                        7 => r.0 = (r.0 & 0xFF) | ([0, 1, 0xFF_FFFF, 0x80_0000, 0x7F_FFFF][rng.below(5) as usize] << 8),
                        _ => {}
                    }
                    raws.push(r);
                }
                let mut acc: Vec<String> = vec![];
                let mut strict: Vec<String> = vec![];
                let (mut nz, mut tried, mut booms) = (0, 0, 0);
                for raw in raws {
                    let e = match EntityAny::from_raw(raw) { Ok(e) => e, Err(_) => { nz += (raw.1 == 0) as i64; continue; } };
                    if e.raw() != raw { strict.push("[-1,-1,[],\"raw\"]".into()); }
                    tried += 1;
                    let mut dirs = vec![];
                    let mut pr = Probes::new();
                    if let Some(a) = sel(e) { pr.extend(disp!(a, probes(&mut w, e, &mut dirs))); }
                    else {
                        probe(&mut pr, "w.contains.any", || yes(w.contains(e)));
                        probe(&mut pr, "w.to_direct.any", || yes(w.to_direct(e).is_some()));
                        probe(&mut pr, "w.destroy.any", || yes(w.destroy(e).is_some()));
                        probe(&mut pr, "find.any", || ecs_find!(w, e, |e2: &EntityAny| (Some(*e2), None)));
                        probe(&mut pr, "find_borrow.any", || ecs_find_borrow!(w, e, |e2: &EntityAny| (Some(*e2), None)));
                    }
                    for a in 1..=NARCH { pr.extend(disp!(a, wrong_probes(&mut w, e))); }
                    if pr.iter().all(|x| !matches!(x.1, Pr::Yes(..))) {
                        if let Some(a) = sel(e) { pr.extend(disp!(a, kill_probes(&mut w, e))); }
                    }
                    for (name, x) in pr {
                        match x {
                            Pr::No => {}
                            Pr::Boom => booms += 1,
                            Pr::Yes(t, r) => {
                                let (me, to) = (self.peek(e), match t { Some(t) => self.peek(t), None => 0 });
                                let x = format!("[{},{},{:?},\"{}\"]", me, to, r.unwrap_or_default(), name);
                                if ["destroy", "wrong", "forced"].contains(&name.split('.').next().unwrap()) {
                                    if strict.len() < 100 { strict.push(x); }
                                } else if acc.len() < 200 { acc.push(x); }
                            }
                        }
                    }
                }
                self.ws[wi] = Some(w);
                write!(s, "\"op\":\"forge\",\"w\":{},\"tried\":{},\"zero\":{},\"booms\":{},\"acc\":[{}],\"strict\":[{}]", wi, tried, nz, booms, acc.join(","), strict.join(",")).unwrap();
            }
            // bc W q : a runtime borrow conflict inside nested queries
            "bc" => {
                let Some(mut w) = self.ws[wi].take() else { return true };
                let mut k = 0;
                let w2 = &mut *w;
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let w = &*w2;
                    let mut inner = |_: EntityAny, _: EntityDirectAny, _: Vec<(&'static str, i64)>| { k += 1; EcsStep::Continue };
                    let mut outer = |_: EntityAny, _: EntityDirectAny, _: Vec<(&'static str, i64)>| {
                        query!(ecs_iter_borrow, (w), p[2], inner, ());
                        EcsStep::Continue
                    };
                    query!(ecs_iter_borrow, (w), p[2], outer, ());
                }));
                self.ws[wi] = Some(w);
                write!(s, "\"op\":\"nest\",\"w\":{},\"q\":\"{}\",\"res\":\"{}\"", wi, p[2], if r.is_ok() { "ok" } else { "panic" }).unwrap();
            }
            x => panic!("unknown plan command {}", x),
        }
        let mut drops = reg(|r| std::mem::take(&mut r.drops));
        drops.sort();
        write!(s, ",\"drop\":{:?}", drops).unwrap();
        reg(|r| { r.clones.clear(); r.drop_panic = None; r.clone_panic = None; });
        let obs = self.observe();
        let mut od = reg(|r| std::mem::take(&mut r.drops));
        od.extend(reg(|r| r.clones.drain(..).map(|_| -5i64).collect::<Vec<_>>()));
        writeln!(self.out, "{{{},\"od\":{:?},\"O\":[{}]}}", s, od, obs).unwrap();
        self.events_done += 1;
        true
    }

    fn tok_or_forged(&mut self, e: EntityAny) -> i64 {
        self.peek(e)
    }

    fn visits(&mut self, vis: &[(EntityAny, EntityDirectAny, Vec<(&'static str, i64)>)], dec: &[char]) -> String {
        let mut s = String::from("[");
        for (i, (e, d, c)) in vis.iter().enumerate() {
            if i > 0 { s.push(',') }
            let (t, dt) = (self.peek(*e), self.dtok(*d));
            let cs: Vec<String> = c.iter().map(|(n, v)| format!("[\"{}\",{}]", n, v)).collect();
            write!(s, "[{},{},\"{}\",[{}]]", t, dt, dec.get(i).copied().unwrap_or('C'), cs.join(",")).unwrap();
        }
        s.push(']');
        s
    }

    /// (path, kind, accepted entries, panicked tokens); paths of a kind with equal outcomes are merged.
    /// A group that covers every path of its kind is not named; nothing is written for paths that must
    /// reject everything and did.
    fn groups(&mut self, paths: Vec<(&'static str, &'static str, Vec<String>, Vec<i64>)>) -> String {
        let mut gs: Vec<(&'static str, Vec<&'static str>, String, bool)> = vec![];
        for (p, k, a, x) in paths {
            let body = format!("\"a\":[{}],\"x\":{:?}", a.join(","), x);
            let empty = a.is_empty() && x.is_empty();
            match gs.iter_mut().find(|g| g.0 == k && g.2 == body) {
                Some(g) => if !g.1.contains(&p) { g.1.push(p) },
                None => gs.push((k, vec![p], body, empty)),
            }
        }
        let mut v: Vec<String> = vec![];
        for (k, p, body, empty) in gs.iter() {
            if *empty && matches!(*k, "kill" | "wrong" | "forced") { continue; }
            let only = gs.iter().filter(|g| g.0 == *k).count() == 1;
            let name = if only && matches!(*k, "is" | "get" | "row") { String::new() } else { p.join(" ") };
            v.push(format!("{{\"k\":\"{}\",\"p\":\"{}\",{}}}", k, name, body));
        }
        format!("[{}]", v.join(","))
    }

    fn collect(&mut self, all: Vec<(i64, Probes)>) -> String {
        let mut paths: Vec<(&'static str, &'static str, Vec<String>, Vec<i64>)> = vec![];
        let mut at: HashMap<&'static str, usize> = HashMap::new();
        for (tok, probes) in all {
            for (name, pr) in probes {
                let kind = match name.split('.').next().unwrap() {
                    "destroy" => "kill",
                    "wrong" => "wrong",
                    "forced" => "forced",
                    _ => if IS.contains(&name) || name.ends_with(".is") { "is" } else { "get" },
                };
                let i = *at.entry(name).or_insert_with(|| { paths.push((name, kind, vec![], vec![])); paths.len() - 1 });
                match pr {
                    Pr::No => {}
                    Pr::Boom => paths[i].3.push(tok),
                    Pr::Yes(t, r) => {
                        let to = match t { Some(t) => self.peek(t), None => 0 };
                        paths[i].2.push(format!("[{},{},{:?}]", tok, to, r.unwrap_or_default()));
                    }
                }
            }
        }
        self.groups(paths)
    }

    fn observe(&mut self) -> String {
        let mut outs = vec![];
        for wi in 0..self.ws.len() {
            let Some(mut w) = self.ws[wi].take() else { continue };
            let o = self.observe_world(wi, &mut w);
            self.ws[wi] = Some(w);
            outs.push(o);
        }
        outs.join(",")
    }

    fn observe_world(&mut self, wi: usize, w: &mut W) -> String {
        let mut s = String::new();
        if self.terse {
            let v: Vec<String> = (1..=NARCH).map(|a| { let (l, c, e) = disp!(a, meta(w)); format!("{{\"l\":{},\"c\":{},\"e\":{},\"R\":[]}}", l, c, e) }).collect();
            write!(s, "{{\"w\":{},\"terse\":true,\"A\":[{}]}}", wi, v.join(",")).unwrap();
            return s;
        }
        write!(s, "{{\"w\":{},\"terse\":false,\"A\":[", wi).unwrap();
        // Rows of every archetype by every iteration path
        for a in 1..=NARCH {
            if a > 1 { s.push(',') }
            let (l, c, e) = disp!(a, meta(w));
            let mut paths = vec![];
            for (name, rows) in disp!(a, rows(w)) {
                match rows {
                    None => paths.push((name, "row", vec![], vec![1])),
                    Some(rows) => {
                        let mut v: Vec<(i64, Vec<i64>)> = rows.into_iter().map(|(e, r)| (self.peek(e), r)).collect();
                        v.sort();
                        paths.push((name, "row", v.into_iter().map(|(t, r)| format!("[{},{:?}]", t, r)).collect(), vec![]));
                    }
                }
            }
            let g = self.groups(paths);
            write!(s, "{{\"l\":{},\"c\":{},\"e\":{},\"R\":{}}}", l, c, e, g).unwrap();
        }
        s.push_str("],");
        // Queries over all archetypes
        let mut dirs: Vec<(EntityAny, EntityDirectAny)> = vec![];
        s.push_str("\"Q\":[");
        let mut first = true;
        for (q, _, _, _, _) in QUERIES {
            for mode in ["iter", "iterb", "iterd"] {
                let mut vis: Vec<(EntityAny, EntityDirectAny, Vec<(&'static str, i64)>)> = vec![];
                let r = catch_unwind(AssertUnwindSafe(|| match mode {
                    "iter" => { let mut f = |e, d, c| { vis.push((e, d, c)); }; query!(ecs_iter, (w), *q, f, ()) }
                    "iterb" => { let mut f = |e, d, c| { vis.push((e, d, c)); }; query!(ecs_iter_borrow, (w), *q, f, ()) }
                    _ => { let mut f = |e, d, c| { vis.push((e, d, c)); }; query!(ecs_iter_destroy, (w), *q, f, ()) }
                }));
                for v in &vis { dirs.push((v.0, v.1)); }
                let mut rows: Vec<String> = vec![];
                let mut keyed: Vec<(i64, String)> = vis.iter().map(|(e, _, c)| {
                    let cs: Vec<String> = c.iter().map(|(n, v)| format!("[\"{}\",{}]", n, v)).collect();
                    let t = self.peek(*e);
                    (t, format!("[{},[{}]]", t, cs.join(",")))
                }).collect();
                keyed.sort();
                for k in keyed { rows.push(k.1); }
                let body = format!("\"r\":[{}],\"x\":{}", rows.join(","), if r.is_ok() { 0 } else { 1 });
                // The three modes normally agree: report a mode only when it differs from the first
                if mode == "iter" {
                    if !first { s.push(',') }
                    first = false;
                    write!(s, "{{\"n\":\"{}\",\"m\":\"{}\",{}}}", q, mode, body).unwrap();
                    self.last_q = body;
                } else if body != self.last_q {
                    write!(s, ",{{\"n\":\"{}\",\"m\":\"{}\",{}}}", q, mode, body).unwrap();
                }
            }
        }
        s.push_str("],");
        // Every known handle through every lookup path
        let known: Vec<EntityAny> = if self.light && self.known.len() > 48 {
            let n = self.known.len();
            let mut v: Vec<EntityAny> = self.known[n - 32..].to_vec();
            for i in 0..16 { v.push(self.known[(i * 7919 + self.events_done as usize * 131) % (n - 32)]); }
            let mut live = vec![];
            for a in 1..=NARCH { if let Some((_, Some(r))) = disp!(a, rows(w)).into_iter().next() { live.extend(r.into_iter().map(|x| x.0)); } }
            for e in live { if !v.iter().any(|x| x.raw() == e.raw()) { v.push(e); } }
            v
        } else { self.known.clone() };
        let mut all: Vec<(i64, Probes)> = vec![];
        for e in known.iter() {
            let tok = self.peek(*e);
            let mut pr = Probes::new();
            if let Some(a) = sel(*e) { pr.extend(disp!(a, probes(w, *e, &mut dirs))); }
            let rejected = pr.iter().all(|x| !matches!(x.1, Pr::Yes(..)));
            if rejected { if let Some(a) = sel(*e) { pr.extend(disp!(a, kill_probes(w, *e))); } }
            for a in 1..=NARCH { if !self.light || a == 1 + (self.events_done as usize % NARCH) { pr.extend(disp!(a, wrong_probes(w, *e))); } }
            all.push((tok, pr));
        }
        let l = self.collect(all);
        write!(s, "\"L\":{},", l).unwrap();
        // Every known direct handle
        for (_, d) in dirs.clone() { self.dtok(d); }
        let kd: Vec<EntityDirectAny> = if self.knownd.len() > 64 {
            // all that were obtained just now, the newest ones and a sample of the others
            let n = self.knownd.len();
            let mut v: Vec<EntityDirectAny> = self.knownd[n - 32..].to_vec();
            for i in 0..24 { v.push(self.knownd[(i * 7919 + self.events_done as usize * 131) % (n - 32)]); }
            v.extend(dirs.iter().map(|x| x.1));
            let mut seen = std::collections::HashSet::new();
            v.retain(|d| seen.insert(bits_of(*d)));
            v
        } else { self.knownd.clone() };
        let mut all: Vec<(i64, Probes)> = vec![];
        for d in kd {
            let tok = self.dtok(d);
            let mut pr = Probes::new();
            if let Some(a) = sel_direct(d) { pr.extend(disp!(a, dprobes(w, d, &mut dirs))); }
            let rejected = pr.iter().all(|x| !matches!(x.1, Pr::Yes(..)));
            if rejected { if let Some(a) = sel_direct(d) { pr.extend(disp!(a, dkill_probes(w, d))); } }
            for a in 1..=NARCH { if !self.light || a == 1 + (self.events_done as usize % NARCH) { pr.extend(disp!(a, dwrong_probes(w, d))); } }
            all.push((tok, pr));
        }
        let l = self.collect(all);
        write!(s, "\"D\":{},", l).unwrap();
        let mut now: Vec<(i64, i64)> = dirs.into_iter().map(|(e, d)| (self.peek(e), self.dtok(d))).collect();
        now.sort();
        now.dedup();
        let v: Vec<String> = now.iter().map(|(a, b)| format!("[{},{}]", a, b)).collect();
        write!(s, "\"N\":[{}]", v.join(",")).unwrap();
        #[cfg(feature = "events")]
        {
            s.push_str(",\"V\":{\"C\":[");
            let (mut c, mut d) = (vec![], vec![]);
            for a in 1..=NARCH {
                let (x, y) = disp!(a, events(w));
                c.push(format!("{:?}", x.into_iter().map(|e| self.peek(e)).collect::<Vec<_>>()));
                d.push(format!("{:?}", y.into_iter().map(|e| self.peek(e)).collect::<Vec<_>>()));
            }
            write!(s, "{}],\"D\":[{}],", c.join(","), d.join(",")).unwrap();
            let (mut wc, mut wd, mut hc, mut hd) = (vec![], vec![], vec![], vec![]);
            {
                let mut it = w.iter_created();
                loop {
                    let (lo, hi) = it.size_hint();
                    hc.push(lo as i64);
                    hc.push(hi.map_or(-1, |x| x as i64));
                    match it.next() { Some(e) => wc.push(*e), None => break }
                }
                hc.push((it.next().is_none() && lawful(|| w.iter_created(), true)) as i64);
            }
            {
                let mut it = w.iter_destroyed();
                loop {
                    let (lo, hi) = it.size_hint();
                    hd.push(lo as i64);
                    hd.push(hi.map_or(-1, |x| x as i64));
                    match it.next() { Some(e) => wd.push(*e), None => break }
                }
                hd.push((it.next().is_none() && lawful(|| w.iter_destroyed(), true)) as i64);
            }
            let wc: Vec<i64> = wc.into_iter().map(|e| self.peek(e)).collect();
            let wd: Vec<i64> = wd.into_iter().map(|e| self.peek(e)).collect();
            write!(s, "\"wc\":{:?},\"wd\":{:?},\"hc\":{:?},\"hd\":{:?}}}", wc, wd, hc, hd).unwrap();
        }
        s.push('}');
        s
    }
}
