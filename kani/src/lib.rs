//! C16: the built-in random generator, decided by Kani for every seed and stream.
//! Each statement is a plain function, so that what Kani finds is replayed natively by `pcg_replay`.
use multicalc::random::{Pcg32, RandomSource};

/// The published generator (pcg-random.org, pcg32_srandom_r and pcg32_random_r).
#[derive(Clone, Copy)]
struct Reference {
    state: u64,
    inc: u64,
}
impl Reference {
    fn new(seed: u64, stream: u64) -> Self {
        let mut r = Reference { state: 0, inc: (stream << 1) | 1 };
        r.next();
        r.state = r.state.wrapping_add(seed);
        r.next();
        r
    }
    fn next(&mut self) -> u32 {
        let old = self.state;
        self.state = old.wrapping_mul(6364136223846793005).wrapping_add(self.inc);
        let x = (((old >> 18) ^ old) >> 27) as u32;
        let rot = (old >> 59) as u32;
        (x >> rot) | (x << (rot.wrapping_neg() & 31))
    }
}
/// A source that hands out given words.
struct Words {
    w: [u32; 2],
    n: usize,
}
impl<T: multicalc::random::RandomScalar> RandomSource<T> for Words {
    fn next_u32(&mut self) -> u32 {
        self.n += 1;
        self.w[(self.n - 1) % 2]
    }
    fn get_cache(&mut self) -> Option<T> {
        None
    }
    fn set_cache(&mut self, _: T) {}
}

pub fn sequence(seed: u64, stream: u64, count: usize) -> bool {
    let mut g = Pcg32::<f64>::with_stream(seed, stream);
    let mut r = Reference::new(seed, stream);
    let mut ok = true;
    for _ in 0..count {
        ok &= g.next_u32() == r.next();
    }
    ok
}
pub fn default_stream(seed: u64) -> bool {
    let mut g = Pcg32::<f64>::new(seed);
    let mut r = Reference::new(seed, 0xda3e_39cb_94b9_5bdb);
    g.next_u32() == r.next() && g.next_u32() == r.next()
}
/// Two streams of one seed share a state only when they name the same stream.
pub fn streams_apart(seed: u64, a: u64, b: u64) -> bool {
    let (x, y) = (Pcg32::<f64>::with_stream(seed, a), Pcg32::<f64>::with_stream(seed, b));
    (x == y) == (a << 1 == b << 1)
}
pub fn wide(high: u32, low: u32) -> bool {
    let mut s = Words { w: [high, low], n: 0 };
    RandomSource::<f64>::next_u64(&mut s) == ((high as u64) << 32) + low as u64 && s.n == 2
}
pub fn unit_f64(high: u32, low: u32) -> bool {
    let mut s = Words { w: [high, low], n: 0 };
    let x: f64 = RandomSource::<f64>::next_unit(&mut s);
    let top = (((high as u64) << 32) | low as u64) >> 11;
    // the 53 top bits, exactly: scaling back by a power of two loses nothing
    0.0 <= x && x < 1.0 && x * 9007199254740992.0 == top as f64 && s.n == 2
}
pub fn unit_f32(word: u32) -> bool {
    let mut s = Words { w: [word, word], n: 0 };
    let x: f32 = RandomSource::<f32>::next_unit(&mut s);
    0.0 <= x && x < 1.0 && x * 16777216.0 == (word >> 8) as f32 && s.n == 1
}
/// The generator's own draws use its own words.
pub fn unit_pcg(seed: u64, stream: u64) -> bool {
    let mut g = Pcg32::<f64>::with_stream(seed, stream);
    let mut r = Reference::new(seed, stream);
    let (a, b) = (r.next(), r.next());
    let x: f64 = g.next_unit();
    let y: f64 = RandomSource::<f64>::next_unit(&mut Words { w: [a, b], n: 0 });
    let mut g = Pcg32::<f32>::with_stream(seed, stream);
    let u: f32 = g.next_unit();
    let v: f32 = RandomSource::<f32>::next_unit(&mut Words { w: [a, a], n: 0 });
    x.to_bits() == y.to_bits() && u.to_bits() == v.to_bits()
}
/// What is kept for the next normal draw is handed out once, unchanged.
pub fn kept(seed: u64, bits: u64) -> bool {
    let mut g = Pcg32::<f64>::new(seed);
    let before = g.clone();
    if g.get_cache().is_some() {
        return false;
    }
    let v = f64::from_bits(bits);
    g.set_cache(v);
    let first = g.standard_normal();
    let again = g.get_cache();
    first.to_bits() == v.to_bits() && again.is_none() && g == before
}

/// Names, arguments and the statement, for the replay.
pub fn replay(name: &str, v: &[u64]) -> Option<bool> {
    let at = |i: usize| v.get(i).copied().unwrap_or(0);
    Some(match name {
        "sequence" => sequence(at(0), at(1), 12),
        "default_stream" => default_stream(at(0)),
        "streams_apart" => streams_apart(at(0), at(1), at(2)),
        "wide" => wide(at(0) as u32, at(1) as u32),
        "unit_f64" => unit_f64(at(0) as u32, at(1) as u32),
        "unit_f32" => unit_f32(at(0) as u32),
        "unit_pcg" => unit_pcg(at(0), at(1)),
        "kept" => kept(at(0), at(1)),
        _ => return None,
    })
}

#[cfg(kani)]
mod proofs {
    use super::*;
    use kani::any;
    #[kani::proof]
    #[kani::unwind(5)]
    fn quick_sequence() {
        assert!(sequence(any(), any(), 3));
    }
    #[kani::proof]
    #[kani::unwind(14)]
    fn deep_sequence() {
        assert!(sequence(any(), any(), 12));
    }
    #[kani::proof]
    fn quick_default_stream() {
        assert!(default_stream(any()));
    }
    #[kani::proof]
    fn quick_streams_apart() {
        assert!(streams_apart(any(), any(), any()));
    }
    #[kani::proof]
    fn quick_wide() {
        assert!(wide(any(), any()));
    }
    #[kani::proof]
    fn quick_unit_f64() {
        assert!(unit_f64(any(), any()));
    }
    #[kani::proof]
    fn quick_unit_f32() {
        assert!(unit_f32(any()));
    }
    #[kani::proof]
    fn quick_unit_pcg() {
        assert!(unit_pcg(any(), any()));
    }
    #[kani::proof]
    fn quick_kept() {
        assert!(kept(any(), any()));
    }
}
