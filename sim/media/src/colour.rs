//! Independent statement of the palettes.

pub const NAMES: [&str; 7] = ["fire", "legacy", "gray", "viridis", "plasma", "inferno", "rainbow"];

fn stops(t: f64, s: &[(f64, [f64; 3])]) -> [f64; 3] {
    for w in s.windows(2) {
        if t <= w[1].0 {
            let k = (t - w[0].0) / (w[1].0 - w[0].0);
            return [0, 1, 2].map(|i| w[0].1[i] + (w[1].1[i] - w[0].1[i]) * k);
        }
    }
    s[s.len() - 1].1
}

/// Colour of `t` in 0..=1.
pub fn at(t: f64, name: &str) -> [f64; 3] {
    let t = t.clamp(0.0, 1.0);
    let c = |c: colorous::Color| [c.r as f64, c.g as f64, c.b as f64];
    match name {
        "fire" => stops(t, &[(0.0, [0., 0., 0.]), (0.25, [128., 0., 128.]), (0.5, [255., 165., 0.]), (0.75, [255., 255., 0.]), (1.0, [255., 255., 255.])]),
        "legacy" => [64.0 + 191.0 * t, 255.0 * t, 64.0 + 160.0 * t],
        "gray" => [255.0 * t; 3],
        "viridis" => c(colorous::VIRIDIS.eval_continuous(t)),
        "plasma" => c(colorous::PLASMA.eval_continuous(t)),
        "inferno" => c(colorous::INFERNO.eval_continuous(t)),
        "rainbow" => stops(t, &[(0.0, [0., 0., 0.]), (0.25, [0., 0., 255.]), (0.5, [0., 255., 255.]), (0.75, [255., 255., 0.]), (0.9, [255., 0., 0.]), (1.0, [255., 255., 255.])]),
        _ => unreachable!(),
    }
}

/// The colours (low, high per channel) a value between `lo` and `hi` may have.
pub fn band(lo: f64, hi: f64, name: &str) -> [(f64, f64); 3] {
    let mut r = [(f64::MAX, f64::MIN); 3];
    let kinks = [0.25, 0.5, 0.75, 0.9].into_iter().filter(|t| lo < *t && *t < hi);
    let n = 8 + ((hi - lo) * 256.0) as usize;
    for t in (0..=n).map(|k| lo + (hi - lo) * k as f64 / n as f64).chain(kinks) {
        let c = at(t, name);
        for i in 0..3 {
            r[i].0 = r[i].0.min(c[i]);
            r[i].1 = r[i].1.max(c[i]);
        }
    }
    r
}

/// Colours a magnitude within `mag` ± `err` may have relative to a maximum within `max` ± `merr`.
pub fn of_magnitude(mag: f64, err: f64, max: f64, merr: f64, floor: f64, name: &str) -> [(f64, f64); 3] {
    let t = |m: f64, x: f64| {
        if x <= 0.0 || m <= 0.0 {
            return 0.0;
        }
        let db = (20.0 * (m / x).log10()).max(floor);
        (db - floor) / -floor
    };
    let lo = t(mag - err, max + merr) - 2e-3;
    let hi = t(mag + err, max - merr) + 2e-3;
    let hi = if max - merr <= 0.0 { 1.0 } else { hi };
    band(lo, hi, name)
}
pub fn fits(c: &[f64], b: &[(f64, f64); 3]) -> bool {
    (0..3).all(|i| c[i] >= b[i].0 - 2.0 && c[i] <= b[i].1 + 2.0)
}
