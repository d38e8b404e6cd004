use crate::comps::*;
use gecs::prelude::*;

ecs_world! {
    ecs_name!(Wo);
    #[archetype_id(250)]
    ecs_archetype!(OddA, P3, P12, T12, P7);
    ecs_archetype!(OddB, P16, T128, P5, P96);
    #[archetype_id(0)]
    ecs_archetype!(OddC, T4096, N64, P12);
    ecs_archetype!(OddD, N1);
    ecs_archetype!(OddE, P24, P2, P20, P40, Bag, N1, P8);
    ecs_archetype!(OddF, P12);
    ecs_archetype!(OddG, T20, P6, T12, P4100);
}
pub type W = Wo;
pub type WCap = WoCapacity;

pub fn with_caps(c: &[usize]) -> W {
    W::with_capacity(WCap { odd_a: c[0], odd_b: c[1], odd_c: c[2], odd_d: c[3], odd_e: c[4], odd_f: c[5], odd_g: c[6] })
}

pub const NARCH: usize = 7;
macro_rules! per_arch {
    ($m:ident) => {
        $m!(1, OddA, odd_a, [0 P3 p_3, 1 P12 p_12, 2 T12 t_12, 3 P7 p_7]);
        $m!(2, OddB, odd_b, [0 P16 p_16, 1 T128 t_128, 2 P5 p_5, 3 P96 p_96]);
        $m!(3, OddC, odd_c, [0 T4096 t_4096, 1 N64 n_64, 2 P12 p_12]);
        $m!(4, OddD, odd_d, [0 N1 n_1]);
        $m!(5, OddE, odd_e, [0 P24 p_24, 1 P2 p_2, 2 P20 p_20, 3 P40 p_40, 4 Bag bag, 5 N1 n_1, 6 P8 p_8]);
        $m!(6, OddF, odd_f, [0 P12 p_12]);
        $m!(7, OddG, odd_g, [0 T20 t_20, 1 P6 p_6, 2 T12 t_12, 3 P4100 p_4100]);
    };
}
macro_rules! disp {
    ($a:expr, $f:ident ( $($x:expr),* )) => {
        match $a {
            1 => <OddA as Ar>::$f($($x),*),
            2 => <OddB as Ar>::$f($($x),*),
            3 => <OddC as Ar>::$f($($x),*),
            4 => <OddD as Ar>::$f($($x),*),
            5 => <OddE as Ar>::$f($($x),*),
            6 => <OddF as Ar>::$f($($x),*),
            7 => <OddG as Ar>::$f($($x),*),
            _ => unreachable!(),
        }
    };
}
pub fn sel(e: EntityAny) -> Option<usize> {
    match SelectEntity::try_from(e) {
        Ok(SelectEntity::OddA(_)) => Some(1),
        Ok(SelectEntity::OddB(_)) => Some(2),
        Ok(SelectEntity::OddC(_)) => Some(3),
        Ok(SelectEntity::OddD(_)) => Some(4),
        Ok(SelectEntity::OddE(_)) => Some(5),
        Ok(SelectEntity::OddF(_)) => Some(6),
        Ok(SelectEntity::OddG(_)) => Some(7),
        Err(_) => None,
    }
}
pub fn sel_direct(e: EntityDirectAny) -> Option<usize> {
    match SelectEntityDirect::try_from(e) {
        Ok(SelectEntityDirect::OddA(_)) => Some(1),
        Ok(SelectEntityDirect::OddB(_)) => Some(2),
        Ok(SelectEntityDirect::OddC(_)) => Some(3),
        Ok(SelectEntityDirect::OddD(_)) => Some(4),
        Ok(SelectEntityDirect::OddE(_)) => Some(5),
        Ok(SelectEntityDirect::OddF(_)) => Some(6),
        Ok(SelectEntityDirect::OddG(_)) => Some(7),
        Err(_) => None,
    }
}

pub const QUERIES: &[(&str, &[&str], &[&str], usize, bool)] = &[
    ("all", &[], &[], 0, false),
    ("x", &["P12"], &[], 0, true),
    ("y", &["T12"], &[], 0, false),
    ("xy", &["N1", "Bag"], &[], 5, true),
    ("one", &[], &["T128", "T20", "T4096"], 0, true),
    ("z", &["N1"], &[], 0, true),
];
macro_rules! query {
    ($mac:ident, ($($pre:expr),*), $q:expr, $vis:expr, $none:expr) => {
        match $q {
            "all" => $mac!($($pre),*, |da: &EntityDirectAny, d: &EntityDirect<_>, a: &EntityAny, e: &Entity<_>| {
                ($vis)(same(e.into_any(), *a), samed(d.into_any(), *da), vec![])
            }),
            "x" => $mac!($($pre),*, |a: &EntityAny, x: &mut P12, da: &EntityDirectAny| {
                ($vis)(*a, *da, vec![col(x)])
            }),
            "y" => $mac!($($pre),*, |y: &T12, d: &EntityDirect<_>, e: &Entity<_>| {
                ($vis)(e.into_any(), d.into_any(), vec![col(y)])
            }),
            "xy" => $mac!($($pre),*, |x: &N1, d: &EntityDirect<OddE>, y: &mut Bag, e: &EntityAny| {
                ($vis)(*e, d.into_any(), vec![col(x), col(y)])
            }),
            "one" => $mac!($($pre),*, |o: &mut OneOf<T128, T20, T4096>, a: &EntityAny, da: &EntityDirectAny| {
                ($vis)(*a, *da, vec![col(o)])
            }),
            "z" => $mac!($($pre),*, |z: &mut N1, e: &Entity<_>, da: &EntityDirectAny| {
                ($vis)(e.into_any(), *da, vec![col(z)])
            }),
            _ => $none,
        }
    };
}

include!("engine.rs");
