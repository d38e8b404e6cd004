use crate::comps::*;
use gecs::prelude::*;

type KAa = Wide<0>; type KAb = Wide<1>; type KAc = Wide<2>; type KAd = Wide<3>;
type KAe = Wide<4>; type KAf = Wide<5>; type KAg = Wide<6>; type KAh = Wide<7>;
type KAi = Wide<8>; type KAj = Wide<9>; type KAk = Wide<10>; type KAl = Wide<11>;
type KAm = Wide<12>; type KAn = Wide<13>; type KAo = Wide<14>; type KAp = Wide<15>;
type KBa = Wide<16>; type KBb = Wide<17>; type KBc = Wide<18>; type KBd = Wide<19>;
type KBe = Wide<20>; type KBf = Wide<21>; type KBg = Wide<22>; type KBh = Wide<23>;
type KBi = Wide<24>; type KBj = Wide<25>; type KBk = Wide<26>; type KBl = Wide<27>;
type KBm = Wide<28>; type KBn = Wide<29>; type KBo = Wide<30>; type KBp = Wide<31>;

#[cfg(not(feature = "c32"))]
ecs_world! {
    ecs_name!(Ww);
    #[archetype_id(3)]
    ecs_archetype!(ArchL, KAa, KAb, KAc, KAd, KAe, KAf, KAg, KAh, KAi, KAj, KAk, KAl, KAm, KAn, KAo, KAp);
    ecs_archetype!(ArchM, KBa, KBb, KBc, KBd, KBe, KBf, KBg, KBh, KBi, KBj, KBk);
}
#[cfg(feature = "c32")]
ecs_world! {
    ecs_name!(Ww);
    #[archetype_id(3)]
    ecs_archetype!(ArchL, KAa, KAb, KAc, KAd, KAe, KAf, KAg, KAh, KAi, KAj, KAk, KAl, KAm, KAn, KAo, KAp,
        KBa, KBb, KBc, KBd, KBe, KBf, KBg, KBh, KBi, KBj, KBk, KBl, KBm, KBn, KBo, KBp);
    ecs_archetype!(ArchM, KAa, KAb, KAc, KAd, KAe, KAf, KAg, KAh, KAi, KAj, KAk, KAl, KAm, KAn, KAo, KAp, KBa);
}
pub type W = Ww;
pub type WCap = WwCapacity;

pub fn with_caps(c: &[usize]) -> W {
    W::with_capacity(WCap { arch_l: c[0], arch_m: c[1] })
}

pub const NARCH: usize = 2;
#[cfg(not(feature = "c32"))]
macro_rules! per_arch {
    ($m:ident) => {
        $m!(1, ArchL, arch_l, [0 KAa k_aa, 1 KAb k_ab, 2 KAc k_ac, 3 KAd k_ad, 4 KAe k_ae, 5 KAf k_af, 6 KAg k_ag, 7 KAh k_ah,
            8 KAi k_ai, 9 KAj k_aj, 10 KAk k_ak, 11 KAl k_al, 12 KAm k_am, 13 KAn k_an, 14 KAo k_ao, 15 KAp k_ap]);
        $m!(2, ArchM, arch_m, [0 KBa k_ba, 1 KBb k_bb, 2 KBc k_bc, 3 KBd k_bd, 4 KBe k_be, 5 KBf k_bf, 6 KBg k_bg, 7 KBh k_bh,
            8 KBi k_bi, 9 KBj k_bj, 10 KBk k_bk]);
    };
}
#[cfg(feature = "c32")]
macro_rules! per_arch {
    ($m:ident) => {
        $m!(1, ArchL, arch_l, [0 KAa k_aa, 1 KAb k_ab, 2 KAc k_ac, 3 KAd k_ad, 4 KAe k_ae, 5 KAf k_af, 6 KAg k_ag, 7 KAh k_ah,
            8 KAi k_ai, 9 KAj k_aj, 10 KAk k_ak, 11 KAl k_al, 12 KAm k_am, 13 KAn k_an, 14 KAo k_ao, 15 KAp k_ap,
            16 KBa k_ba, 17 KBb k_bb, 18 KBc k_bc, 19 KBd k_bd, 20 KBe k_be, 21 KBf k_bf, 22 KBg k_bg, 23 KBh k_bh,
            24 KBi k_bi, 25 KBj k_bj, 26 KBk k_bk, 27 KBl k_bl, 28 KBm k_bm, 29 KBn k_bn, 30 KBo k_bo, 31 KBp k_bp]);
        $m!(2, ArchM, arch_m, [0 KAa k_aa, 1 KAb k_ab, 2 KAc k_ac, 3 KAd k_ad, 4 KAe k_ae, 5 KAf k_af, 6 KAg k_ag, 7 KAh k_ah,
            8 KAi k_ai, 9 KAj k_aj, 10 KAk k_ak, 11 KAl k_al, 12 KAm k_am, 13 KAn k_an, 14 KAo k_ao, 15 KAp k_ap, 16 KBa k_ba]);
    };
}
macro_rules! disp {
    ($a:expr, $f:ident ( $($x:expr),* )) => {
        match $a {
            1 => <ArchL as Ar>::$f($($x),*),
            2 => <ArchM as Ar>::$f($($x),*),
            _ => unreachable!(),
        }
    };
}
pub fn sel(e: EntityAny) -> Option<usize> {
    match SelectEntity::try_from(e) {
        Ok(SelectEntity::ArchL(_)) => Some(1),
        Ok(SelectEntity::ArchM(_)) => Some(2),
        Err(_) => None,
    }
}
pub fn sel_direct(e: EntityDirectAny) -> Option<usize> {
    match SelectEntityDirect::try_from(e) {
        Ok(SelectEntityDirect::ArchL(_)) => Some(1),
        Ok(SelectEntityDirect::ArchM(_)) => Some(2),
        Err(_) => None,
    }
}

#[cfg(not(feature = "c32"))]
const ONE: (&str, &[&str], &[&str], usize, bool) = ("one", &[], &["Ao", "Bk"], 0, true);
#[cfg(feature = "c32")]
const ONE: (&str, &[&str], &[&str], usize, bool) = ("one", &["Ao"], &[], 0, false);
pub const QUERIES: &[(&str, &[&str], &[&str], usize, bool)] = &[
    ("all", &[], &[], 0, false),
    ("x", &["Aa", "Ap"], &[], 0, true),
    ONE,
];
#[cfg(feature = "c32")]
macro_rules! onetwo { ($mac:ident, ($($pre:expr),*), $vis:expr) => {
    $mac!($($pre),*, |a: &EntityAny, o: &KAo, da: &EntityDirectAny| { ($vis)(*a, *da, vec![col(o)]) })
} }
#[cfg(not(feature = "c32"))]
macro_rules! onetwo { ($mac:ident, ($($pre:expr),*), $vis:expr) => {
    $mac!($($pre),*, |a: &EntityAny, o: &mut OneOf<KAo, KBk>, da: &EntityDirectAny| { ($vis)(*a, *da, vec![col(o)]) })
} }
macro_rules! query {
    ($mac:ident, ($($pre:expr),*), $q:expr, $vis:expr, $none:expr) => {
        match $q {
            "all" => $mac!($($pre),*, |e: &Entity<_>, a: &EntityAny, d: &EntityDirect<_>, da: &EntityDirectAny| {
                ($vis)(same(e.into_any(), *a), samed(d.into_any(), *da), vec![])
            }),
            "x" => $mac!($($pre),*, |a: &EntityAny, p: &KAp, x: &mut KAa, da: &EntityDirectAny| {
                ($vis)(*a, *da, vec![col(x), col(p)])
            }),
            "one" => onetwo!($mac, ($($pre),*), $vis),
            _ => $none,
        }
    };
}

include!("engine.rs");
