use crate::comps::reg;

pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    let was = reg(|r| std::mem::replace(&mut r.quiet, true));
    let x = f();
    reg(|r| r.quiet = was);
    x
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545_F491_4F6C_DD1D)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        (self.next() >> 11) % n
    }
}
