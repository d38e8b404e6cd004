use crate::comps::*;
use gecs::prelude::*;

ecs_world! {
    ecs_name!(Wm);
    ecs_archetype!(ArchX, CompX);
    #[archetype_id(7)]
    ecs_archetype!(ArchXy, CompX, CompY);
    ecs_archetype!(ArchYzw, CompY, CompZ, CompW);
    #[archetype_id(254)]
    ecs_archetype!(ArchZ, CompZ);
    ecs_archetype!(ArchUx, CompU, CompX);
}
pub type W = Wm;
pub type WCap = WmCapacity;

pub fn with_caps(c: &[usize]) -> W {
    W::with_capacity(WCap { arch_x: c[0], arch_xy: c[1], arch_yzw: c[2], arch_z: c[3], arch_ux: c[4] })
}

pub const NARCH: usize = 5;
macro_rules! per_arch {
    ($m:ident) => {
        $m!(1, ArchX, arch_x, [0 CompX comp_x]);
        $m!(2, ArchXy, arch_xy, [0 CompX comp_x, 1 CompY comp_y]);
        $m!(3, ArchYzw, arch_yzw, [0 CompY comp_y, 1 CompZ comp_z, 2 CompW comp_w]);
        $m!(4, ArchZ, arch_z, [0 CompZ comp_z]);
        $m!(5, ArchUx, arch_ux, [0 CompU comp_u, 1 CompX comp_x]);
    };
}
macro_rules! disp {
    ($a:expr, $f:ident ( $($x:expr),* )) => {
        match $a {
            1 => <ArchX as Ar>::$f($($x),*),
            2 => <ArchXy as Ar>::$f($($x),*),
            3 => <ArchYzw as Ar>::$f($($x),*),
            4 => <ArchZ as Ar>::$f($($x),*),
            5 => <ArchUx as Ar>::$f($($x),*),
            _ => unreachable!(),
        }
    };
}
pub fn sel(e: EntityAny) -> Option<usize> {
    match SelectEntity::try_from(e) {
        Ok(SelectEntity::ArchX(_)) => Some(1),
        Ok(SelectEntity::ArchXy(_)) => Some(2),
        Ok(SelectEntity::ArchYzw(_)) => Some(3),
        Ok(SelectEntity::ArchZ(_)) => Some(4),
        Ok(SelectEntity::ArchUx(_)) => Some(5),
        Err(_) => None,
    }
}
pub fn sel_direct(e: EntityDirectAny) -> Option<usize> {
    match SelectEntityDirect::try_from(e) {
        Ok(SelectEntityDirect::ArchX(_)) => Some(1),
        Ok(SelectEntityDirect::ArchXy(_)) => Some(2),
        Ok(SelectEntityDirect::ArchYzw(_)) => Some(3),
        Ok(SelectEntityDirect::ArchZ(_)) => Some(4),
        Ok(SelectEntityDirect::ArchUx(_)) => Some(5),
        Err(_) => None,
    }
}

// (name, required columns, OneOf columns, only archetype (0 = any), has a mutable column)
pub const QUERIES: &[(&str, &[&str], &[&str], usize, bool)] = &[
    ("all", &[], &[], 0, false),
    ("x", &["X"], &[], 0, true),
    ("y", &["Y"], &[], 0, false),
    ("xy", &["X", "Y"], &[], 2, true),
    ("one", &[], &["X", "W"], 0, false),
    ("z", &["Z"], &[], 0, true),
];
macro_rules! query {
    // $mac: the gecs macro, ($pre): leading arguments, $q: query name, $vis: visitor, $none: value if no such query
    ($mac:ident, ($($pre:expr),*), $q:expr, $vis:expr, $none:expr) => {
        match $q {
            "all" => $mac!($($pre),*, |e: &Entity<_>, a: &EntityAny, d: &EntityDirect<_>, da: &EntityDirectAny| {
                ($vis)(same(e.into_any(), *a), samed(d.into_any(), *da), vec![])
            }),
            "x" => $mac!($($pre),*, |a: &EntityAny, x: &mut CompX, da: &EntityDirectAny| {
                ($vis)(*a, *da, vec![col(x)])
            }),
            "y" => $mac!($($pre),*, |y: &CompY, d: &EntityDirect<_>, e: &Entity<_>| {
                ($vis)(e.into_any(), d.into_any(), vec![col(y)])
            }),
            "xy" => $mac!($($pre),*, |x: &CompX, e: &Entity<ArchXy>, y: &mut CompY, d: &EntityDirect<ArchXy>| {
                ($vis)(e.into_any(), d.into_any(), vec![col(x), col(y)])
            }),
            "one" => $mac!($($pre),*, |a: &EntityAny, o: &OneOf<CompX, CompW>, da: &EntityDirectAny| {
                ($vis)(*a, *da, vec![col(o)])
            }),
            "z" => $mac!($($pre),*, |z: &mut CompZ, e: &Entity<_>, da: &EntityDirectAny| {
                ($vis)(e.into_any(), *da, vec![col(z)])
            }),
            _ => $none,
        }
    };
}

include!("engine.rs");
