//! Instrumented components. Every component *instance* has a unique id, so that a value can be
//! recognised wherever it shows up, and every clone and drop of an instance is logged.
use std::cell::RefCell;

#[derive(Default)]
pub struct Reg {
    pub next: i64,
    pub drops: Vec<i64>,
    pub clones: Vec<(i64, i64)>,
    pub quiet: bool,          // the harness itself is dropping values it was given back
    pub clone_panic: Option<u32>, // panic in the n-th clone from now
    pub drop_panic: Option<u32>,  // panic in the n-th drop from now
    pub zclones: i64,
}

thread_local! { pub static REG: RefCell<Reg> = RefCell::new(Reg::default()); }

pub fn reg<T>(f: impl FnOnce(&mut Reg) -> T) -> T {
    REG.with(|r| f(&mut r.borrow_mut()))
}

pub fn fresh() -> i64 {
    reg(|r| {
        r.next += 1;
        r.next
    })
}

const LIVE: u32 = 0x600D_F00D;
const DEAD: u32 = 0xDEAD_DEAD;

/// Id that a tracked cell reports when its memory does not hold a live instance.
pub const BAD: i64 = -900_001;
pub const FREED: i64 = -900_002;

pub struct Inst {
    id: u32,
    magic: u32,
}

impl Inst {
    pub fn new(id: i64) -> Self {
        Inst { id: id as u32, magic: LIVE ^ (id as u32).wrapping_mul(0x9E37_79B9) }
    }
    #[inline(never)]
    pub fn id(&self) -> i64 {
        // Volatile: we want to see what is in memory even if the code under test is broken.
        let id = unsafe { std::ptr::read_volatile(&self.id) };
        let magic = unsafe { std::ptr::read_volatile(&self.magic) };
        if magic == DEAD {
            FREED
        } else if magic != LIVE ^ id.wrapping_mul(0x9E37_79B9) {
            BAD
        } else {
            id as i64
        }
    }
}

fn log_drop(id: i64) {
    let boom = reg(|r| {
        if r.quiet {
            return false;
        }
        r.drops.push(id);
        match r.drop_panic {
            Some(0) => {
                r.drop_panic = None;
                true
            }
            Some(n) => {
                r.drop_panic = Some(n - 1);
                false
            }
            None => false,
        }
    });
    if boom && !std::thread::panicking() {
        panic!("injected: drop");
    }
}

fn log_clone(id: i64) -> i64 {
    let (new, boom) = reg(|r| {
        let boom = match r.clone_panic {
            Some(0) => {
                r.clone_panic = None;
                true
            }
            Some(n) => {
                r.clone_panic = Some(n - 1);
                false
            }
            None => false,
        };
        if boom {
            return (0, true);
        }
        if id == 0 {
            r.zclones += 1;
            r.clones.push((0, 0));
            return (0, false);
        }
        r.next += 1;
        let new = r.next;
        r.clones.push((id, new));
        (new, false)
    });
    if boom {
        panic!("injected: clone");
    }
    new
}

impl Drop for Inst {
    fn drop(&mut self) {
        let id = self.id();
        unsafe { std::ptr::write_volatile(&mut self.magic, DEAD) };
        log_drop(id);
    }
}

impl Clone for Inst {
    fn clone(&self) -> Self {
        Inst::new(log_clone(self.id()))
    }
}

pub trait Comp: Clone {
    const COL: &'static str;
    fn mk(id: i64) -> Self;
    fn id(&self) -> i64;
    /// The id under which a cell built with `mk(id)` shows up.
    fn shown(id: i64) -> i64 {
        id
    }
}

/// Owns heap memory.
#[derive(Clone)]
pub struct CompX(Box<Inst>);
impl Comp for CompX {
    const COL: &'static str = "X";
    fn mk(id: i64) -> Self {
        CompX(Box::new(Inst::new(id)))
    }
    fn id(&self) -> i64 {
        self.0.id()
    }
}

/// Plain inline value.
#[derive(Clone)]
pub struct CompY(Inst);
impl Comp for CompY {
    const COL: &'static str = "Y";
    fn mk(id: i64) -> Self {
        CompY(Inst::new(id))
    }
    fn id(&self) -> i64 {
        self.0.id()
    }
}

/// Zero-sized, with drop and clone.
pub struct CompZ;
impl Drop for CompZ {
    fn drop(&mut self) {
        log_drop(0);
    }
}
impl Clone for CompZ {
    fn clone(&self) -> Self {
        log_clone(0);
        CompZ
    }
}
impl Comp for CompZ {
    const COL: &'static str = "Z";
    fn mk(_: i64) -> Self {
        CompZ
    }
    fn id(&self) -> i64 {
        0
    }
    fn shown(_: i64) -> i64 {
        0
    }
}

/// Over-aligned and large.
#[repr(align(64))]
pub struct CompW {
    pad: [u64; 9],
    inst: Inst,
}
impl Clone for CompW {
    fn clone(&self) -> Self {
        let inst = self.inst.clone();
        CompW { pad: [inst.id() as u64 ^ 0x5555; 9], inst }
    }
}
impl Comp for CompW {
    const COL: &'static str = "W";
    fn mk(id: i64) -> Self {
        CompW { pad: [id as u64 ^ 0x5555; 9], inst: Inst::new(id) }
    }
    fn id(&self) -> i64 {
        let id = self.inst.id();
        if (self as *const _ as usize) % 64 != 0 {
            return BAD - 10;
        }
        if id > 0 && self.pad != [id as u64 ^ 0x5555; 9] {
            return BAD - 11;
        }
        id
    }
}

/// One byte, no drop: shows up as a small negative number.
#[derive(Clone, Copy)]
pub struct CompU(u8);
impl Comp for CompU {
    const COL: &'static str = "U";
    fn mk(id: i64) -> Self {
        CompU((id % 251) as u8)
    }
    fn id(&self) -> i64 {
        -1 - self.0 as i64
    }
    fn shown(id: i64) -> i64 {
        -1 - (id % 251)
    }
}

/// A family of distinct small component types for wide archetypes.
#[derive(Clone)]
pub struct Wide<const N: usize>(Inst);
const WIDE: [&str; 32] = [
    "Aa", "Ab", "Ac", "Ad", "Ae", "Af", "Ag", "Ah", "Ai", "Aj", "Ak", "Al", "Am", "An", "Ao", "Ap",
    "Ba", "Bb", "Bc", "Bd", "Be", "Bf", "Bg", "Bh", "Bi", "Bj", "Bk", "Bl", "Bm", "Bn", "Bo", "Bp",
];
impl<const N: usize> Comp for Wide<N> {
    const COL: &'static str = WIDE[N];
    fn mk(id: i64) -> Self {
        Wide(Inst::new(id))
    }
    fn id(&self) -> i64 {
        self.0.id()
    }
}

/// Copies without identity, of any size and alignment. The id is spread over every byte, so that a
/// partial or misplaced copy shows up as BAD.
macro_rules! plain {
    ($($C:ident $col:literal $n:literal $al:literal;)*) => { $(
        #[derive(Clone, Copy)]
        #[repr(C, align($al))]
        pub struct $C([u8; $n]);
        impl Comp for $C {
            const COL: &'static str = $col;
            fn mk(id: i64) -> Self {
                $C(plain_bytes::<$n>(id))
            }
            fn id(&self) -> i64 {
                if (self as *const _ as usize) % $al != 0 {
                    return BAD - 10;
                }
                let mut x = 0i64;
                for i in (0..$n.min(3)).rev() {
                    x = x << 8 | self.0[i] as i64;
                }
                if self.0 != plain_bytes::<$n>(x) { BAD - 12 } else { -1000 - x }
            }
            fn shown(id: i64) -> i64 {
                -1000 - id % plain_mod($n)
            }
        }
    )* }
}
fn plain_mod(n: usize) -> i64 {
    [1, 256, 65536, 800_000][n.min(3)]
}
fn plain_bytes<const N: usize>(id: i64) -> [u8; N] {
    let x = id % plain_mod(N);
    std::array::from_fn(|i| (x >> (8 * (i % 3))) as u8 ^ ((i / 3) as u8).wrapping_mul(0x35))
}
plain! {
    P2 "P2" 2 2;
    P3 "P3" 3 1;
    P5 "P5" 5 1;
    P6 "P6" 6 2;
    P7 "P7" 7 1;
    P8 "P8" 8 8;
    P12 "P12" 12 4;
    P16 "P16" 16 16;
    P20 "P20" 20 4;
    P24 "P24" 24 8;
    P40 "P40" 40 8;
    P96 "P96" 96 32;
    P4100 "P4100" 4100 4;
}

/// Zero-sized without drop: shows up as a constant.
macro_rules! nothing {
    ($($C:ident $col:literal $al:literal;)*) => { $(
        #[derive(Clone, Copy)]
        #[repr(align($al))]
        pub struct $C;
        impl Comp for $C {
            const COL: &'static str = $col;
            fn mk(_: i64) -> Self { $C }
            fn id(&self) -> i64 {
                if (self as *const _ as usize) % $al != 0 { BAD - 10 } else { -253 }
            }
            fn shown(_: i64) -> i64 { -253 }
        }
    )* }
}
nothing! {
    N1 "N1" 1;
    N64 "N64" 64;
}

/// Tracked values with a tail, of odd sizes.
macro_rules! tailed {
    ($($C:ident $col:literal $n:literal $al:literal;)*) => { $(
        #[repr(C, align($al))]
        pub struct $C {
            inst: Inst,
            tail: [u8; $n],
        }
        impl Clone for $C {
            fn clone(&self) -> Self {
                let inst = self.inst.clone();
                $C { tail: plain_bytes::<$n>(inst.id()), inst }
            }
        }
        impl Comp for $C {
            const COL: &'static str = $col;
            fn mk(id: i64) -> Self {
                $C { inst: Inst::new(id), tail: plain_bytes::<$n>(id) }
            }
            fn id(&self) -> i64 {
                let id = self.inst.id();
                if (self as *const _ as usize) % $al != 0 {
                    return BAD - 10;
                }
                if id > 0 && self.tail != plain_bytes::<$n>(id) {
                    return BAD - 11;
                }
                id
            }
        }
    )* }
}
tailed! {
    T12 "T12" 4 4;
    T20 "T20" 12 4;
    T128 "T128" 100 128;
    T4096 "T4096" 4096 8;
}

/// A collection with a niche.
#[derive(Clone)]
pub struct Bag(Vec<Inst>);
impl Comp for Bag {
    const COL: &'static str = "Bag";
    fn mk(id: i64) -> Self {
        Bag(vec![Inst::new(id)])
    }
    fn id(&self) -> i64 {
        if self.0.len() != 1 { BAD - 13 } else { self.0[0].id() }
    }
}
