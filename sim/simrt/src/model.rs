//! Definitions the simulated components and the reference models share.
use crate::{hash2, hash64, Rng};

/// Sub-pixel offsets that stay clear of every place where single precision
/// could round a sample into another filter-table cell or in or out of the
/// filter's support.
///
/// On a very large film they are fewer, so that single precision holds every position exactly.
/// A filter radius: quarters, or from 1000 on hundredths.
pub fn radius_of(v: i64) -> f32 { if v >= 1000 { (v - 1000) as f32 / 100. } else { v as f32 / 4. } }

pub fn safe_offsets(radius: f32, size: i64) -> Vec<f32> {
    let r = radius as f64;
    let mut v = Vec::new();
    let n = if size > 20_000 { 32 } else { 128 };
    for k in 0..n {
        let u = (2 * k + 1) as f64 / (2 * n) as f64;
        // distance from a pixel centre to the sample is |i - (u - 0.5)| for integer i
        let ok = (-(radius as i64) - 3..=radius as i64 + 3).all(|i| {
            let d = (i as f64 - (u - 0.5)).abs();
            let t = d / r * 16.;
            let near_cell = (t - t.round()).abs() < 2e-3;
            let near_edge = (d - r).abs() < 1e-3;
            !near_edge && (d > r || !near_cell)
        });
        if ok { v.push(u as f32); }
    }
    assert!(v.len() >= 4, "no safe offsets for radius {}", radius);
    v
}

/// The largest value below one as well, which may be rounded up to the next pixel.
pub fn with_edge(mut offs: Vec<f32>, edge: bool) -> Vec<f32> {
    if edge { for _ in 0..offs.len() / 4 + 1 { offs.push(1. - f32::EPSILON / 2.); } }
    offs
}

pub fn jitter(seed: u64, x: i32, y: i32, s: u32, offs: &[f32]) -> (f32, f32) {
    let h = hash2(seed ^ 0x11, hash2((x as i64 as u64) << 32 ^ (y as u32 as u64), s as u64));
    (offs[(h % offs.len() as u64) as usize], offs[((h >> 32) % offs.len() as u64) as usize])
}

/// Colour of the emissive wall at a point (bit patterns of x and y).
/// `style` picks the palette, `inv`/1024 of the points emit an invalid value
/// of a kind in `kinds` (bit 0 NaN, 1 +inf, 2 -inf, 3 negative).
pub fn wall_color(seed: u64, style: i64, inv: i64, kinds: i64, xb: u32, yb: u32) -> [f32; 3] {
    let h = hash2(seed ^ 0x77, (xb as u64) << 32 | yb as u64);
    let mut r = Rng(h);
    let mut c = [0f32; 3];
    for v in c.iter_mut() {
        *v = match style {
            0 => (r.next() & 0xffff) as f32 / 65536.,
            1 => r.pick(&[0f32, 0.0005, 0.002, 0.01, 0.05, 0.2, 0.5, 0.9, 1., 1.5]),
            2 => { let b = (r.next() & 0xffff) as f32 / 65536.; b * b * b }
            3 => 0.25 + (r.next() & 0xff) as f32 / 512.,
            // very dark to very bright
            5 => r.pick(&[1e-6f32, 1e-4, 0.01, 0.1, 0.5, 0.9, 1., 2., 30., 1e4, 1e8, 3e38]),
            // one colour all over
            _ => (hash64(seed) >> 8 & 0xff) as f32 / 255.,
        };
    }
    if inv > 0 && kinds & 15 != 0 && (r.below(1024) as i64) < inv {
        let mut k = r.below(4);
        while kinds >> k & 1 == 0 { k = (k + 1) % 4; }
        let bad = match k { 0 => f32::NAN, 1 => f32::INFINITY, 2 => f32::NEG_INFINITY, _ => r.pick(&[-0.25f32, -0.25, -1e-6, -1e-40, -1e30]) };
        let m = r.below(7) + 1;
        for i in 0..3 { if m >> i & 1 == 1 { c[i] = bad; } }
    }
    c
}
pub fn color_valid(c: &[f32; 3]) -> bool { c.iter().all(|v| v.is_finite() && *v >= 0.) }

pub fn unit(h: u64) -> f32 { (hash64(h) >> 40) as f32 / (1u64 << 24) as f32 }
