//! BuildHashers of every quality, chosen at run time.
use crate::rng::mix;
use std::hash::{BuildHasher, Hasher};

pub const MODES: [&str; 14] = [
    "good",
    "const",
    "mod-k",
    "same-tag",
    "tag-only",
    "identity",
    "left-const",
    "right-const",
    "extremes",
    "low-bits",
    "sides-equal",
    "siphash",
    "mod-k-mixed",
    "ahash",
];

#[derive(Clone, Debug)]
pub struct TB {
    pub mode: u8,
    pub seed: u64,
    ahash: hashbrown::hash_map::DefaultHashBuilder,
}
impl TB {
    pub fn new(mode: u8, seed: u64) -> Self {
        TB {
            mode,
            seed,
            ahash: Default::default(),
        }
    }
}
thread_local! {
    static DEFAULT: std::cell::Cell<(u8, u64)> = const { std::cell::Cell::new((0, 7)) };
}
/// What hasher `Default` gives on this thread
pub fn set_default(mode: u8, seed: u64) {
    DEFAULT.with(|d| d.set((mode, seed)))
}
impl Default for TB {
    fn default() -> Self {
        let (mode, seed) = DEFAULT.with(|d| d.get());
        TB::new(mode, seed)
    }
}
pub struct TH {
    mode: u8,
    seed: u64,
    acc: u64,
    other: Option<Other>,
}
enum Other {
    Sip(std::collections::hash_map::DefaultHasher),
    A(<hashbrown::hash_map::DefaultHashBuilder as BuildHasher>::Hasher),
}
impl BuildHasher for TB {
    type Hasher = TH;
    fn build_hasher(&self) -> TH {
        TH {
            mode: self.mode,
            seed: self.seed,
            acc: 0,
            other: match self.mode {
                11 => Some(Other::Sip({
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    h.write_u64(self.seed);
                    h
                })),
                13 => Some(Other::A(self.ahash.build_hasher())),
                _ => None,
            },
        }
    }
}
impl Hasher for TH {
    fn write(&mut self, bytes: &[u8]) {
        for &b in bytes {
            self.write_u64(b as u64)
        }
    }
    fn write_u64(&mut self, x: u64) {
        match &mut self.other {
            Some(Other::Sip(h)) => h.write_u64(x),
            Some(Other::A(h)) => h.write_u64(x),
            None => self.acc = if self.acc == 0 { x } else { mix(self.acc) ^ x },
        }
    }
    fn finish(&self) -> u64 {
        let right = self.acc >> 32 & 1 == 1;
        let v = self.acc & 0xffff_ffff;
        let good = mix(self.acc ^ self.seed);
        let consts = [0, u64::MAX, 1 << 63, 0x7f << 57, 1, self.seed];
        let konst = consts[(self.seed % 6) as usize];
        match self.mode {
            0 => good,
            1 => konst,
            2 => v % (2 + self.seed % 4),
            3 => good & !(0x7f << 57) | ((self.seed & 0x7f) << 57),
            4 => good & (0x7f << 57),
            5 => v,
            6 => {
                if right {
                    good
                } else {
                    konst
                }
            }
            7 => {
                if right {
                    konst
                } else {
                    good
                }
            }
            8 => [0, u64::MAX, u64::MAX - 1, 1 << 63, 1, 0x0101_0101_0101_0101, 1 << 57][(v % 7) as usize],
            9 => good & 7,
            10 => mix(v ^ self.seed),
            12 => mix(v % (2 + self.seed % 5)),
            _ => match &self.other {
                Some(Other::Sip(h)) => h.finish(),
                Some(Other::A(h)) => h.finish(),
                None => good,
            },
        }
    }
}
