pub mod hist;
pub mod interpose;
pub mod runner;
pub use hist::{log, probe, Ev};
pub use tokio::sim;

static SCALE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);
pub(crate) fn set_scale(n: u32) {
    SCALE.store(n.max(1) as u64, std::sync::atomic::Ordering::SeqCst);
}
pub(crate) fn scale() -> u64 {
    SCALE.load(std::sync::atomic::Ordering::SeqCst)
}
/// The unit of time of scenario and history: a millisecond, or in some runs many, so that also
/// waiting for minutes is explored.
pub fn ms(n: u64) -> std::time::Duration {
    std::time::Duration::from_millis(n.saturating_mul(scale()))
}

/// Generator PRNG (workloads and per-run configuration), separate from the schedule streams.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    /// lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn pct(&mut self, p: u64) -> bool {
        self.below(100) < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// index by weights
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let tot: u64 = w.iter().sum();
        let mut x = self.below(tot);
        for (i, v) in w.iter().enumerate() {
            if x < *v {
                return i;
            }
            x -= v;
        }
        w.len() - 1
    }
}
pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a ^ b.wrapping_mul(0xD1342543DE82EF95));
    r.next()
}
