//! A stand-in for `rand` 0.9: only `random::<f64>()`.
use std::sync::atomic::{AtomicU64, Ordering};

pub trait Sample {
    fn sample(bits: u64) -> Self;
}

impl Sample for f64 {
    fn sample(bits: u64) -> Self {
        (bits >> 11) as f64 / (1u64 << 53) as f64
    }
}

static STATE: AtomicU64 = AtomicU64::new(0x9E37_79B9_7F4A_7C15);

pub fn random<T: Sample>() -> T {
    let mut x = STATE.fetch_add(0x9E37_79B9_7F4A_7C15, Ordering::Relaxed);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    // every fourth number is tiny, so that what happens rarely is seen too
    if x % 4 == 0 {
        x >>= 40;
    }
    T::sample(x)
}
