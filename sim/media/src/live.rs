//! C18: the live spectrogram fed in arbitrary chunks, with resets and palette changes.
use crate::colour;
use simrt::ctx::{self, S};
use simrt::oracle::{self, C};
use simrt::prng::Rng;
use simrt::{ev, violation};
use web_spectrogram::{compute_frame, reset_state, set_colormap, stft_magnitudes, Colormap};

const WIN: usize = 1024;
const HOP: usize = 512;

fn fft64(x: &[C]) -> Vec<C> {
    let n = x.len();
    if n == 1 {
        return x.to_vec();
    }
    let e = fft64(&x.iter().step_by(2).copied().collect::<Vec<_>>());
    let o = fft64(&x[1..].iter().step_by(2).copied().collect::<Vec<_>>());
    let mut y = vec![(0.0, 0.0); n];
    for k in 0..n / 2 {
        let (s, c) = (-2.0 * std::f64::consts::PI * k as f64 / n as f64).sin_cos();
        let t = (o[k].0 * c - o[k].1 * s, o[k].0 * s + o[k].1 * c);
        y[k] = (e[k].0 + t.0, e[k].1 + t.1);
        y[k + n / 2] = (e[k].0 - t.0, e[k].1 - t.1);
    }
    y
}

fn windowed(x: &[f32]) -> (Vec<f64>, f64) {
    let v: Vec<C> = (0..WIN).map(|i| (x[i] as f64 * (0.5 - 0.5 * (2.0 * std::f64::consts::PI * i as f64 / WIN as f64).cos()), 0.0)).collect();
    let norm = v.iter().map(|c| c.0 * c.0).sum::<f64>().sqrt();
    let y = fft64(&v);
    if ctx::seed() % 64 == 5 {
        let z = oracle::dft(&v);
        if oracle::rel(&y, &z) > 1e-10 {
            ctx::harness_error("reference transform is wrong");
        }
    }
    // error of a single-precision transform, relative to the whole window
    (y[..WIN / 2].iter().map(|c| (c.0 * c.0 + c.1 * c.1).sqrt()).collect(), norm * 6e-4)
}

struct Source {
    r: Rng,
    style: usize,
    amp: f64,
    f: f64,
    t: usize,
}
impl Source {
    fn draw() -> Source {
        Source { r: Rng::new(ctx::draw(S::Work, 1 << 16)), style: ctx::w(6), amp: *ctx::pick(&[1.0, 0.1, 0.003, 20.0]), f: 0.001 + ctx::w(400) as f64 / 810.0, t: 0 }
    }
    fn next(&mut self) -> f32 {
        self.t += 1;
        let t = self.t as f64;
        let noise = self.r.below(1 << 20) as f64 / (1 << 19) as f64 - 1.0;
        (self.amp
            * match self.style {
                0 => noise,
                1 => (2.0 * std::f64::consts::PI * self.f * t).sin() + 0.01 * noise,
                2 => (self.f * t * t * 1e-3).sin(),
                3 => {
                    // loud and quiet passages
                    let loud = (self.t / 700) % 3 == 1;
                    noise * if loud { 1.0 } else { 0.004 }
                }
                4 => ((self.t % 613 == 0) as u8 as f64) + 1e-3 * noise,
                _ => {
                    if (self.t / 1500) % 2 == 0 {
                        0.0
                    } else {
                        noise
                    }
                }
            }) as f32
    }
}

/// What a stream should be doing.
struct Model {
    x: Vec<f32>,
    rows: usize,
    max: f64,
    merr: f64,
    map: &'static str,
    /// rows returned, with the number of the row
    seen: Vec<Vec<u8>>,
    maps: Vec<&'static str>,
}

impl Model {
    fn new() -> Model {
        Model { x: vec![], rows: 0, max: 1e-12, merr: 0.0, map: "rainbow", seen: vec![], maps: vec![] }
    }
    fn feed(&mut self, who: &str, chunk: &[f32], check: bool) -> bool {
        self.x.extend_from_slice(chunk);
        let row = compute_frame(chunk);
        let due = self.x.len() >= self.rows * HOP + WIN;
        ctx::event_num(row.len() as u64, row.iter().fold(7u64, |a, b| a.wrapping_mul(31).wrapping_add(*b as u64)));
        let what = format!("{who}: row {} after {} samples (last chunk {})", self.rows, self.x.len(), chunk.len());
        if !due {
            if !row.is_empty() {
                violation!("early-row", "{what}: {} bytes before the window is complete", row.len());
            }
            return false;
        }
        if row.len() != WIN / 2 * 4 {
            violation!(if row.is_empty() { "missing-row" } else { "wrong-length" }, "{what}: {} bytes", row.len());
        }
        if check {
            let x = &self.x[self.rows * HOP..][..WIN];
            // a sample that is no number has no magnitude; it must only not outlast the rows that hold it
            let spoilt = x.iter().any(|v| v.is_nan());
            let (m, err) = if spoilt { (vec![], 0.0) } else { windowed(x) };
            for (i, px) in row.chunks(4).enumerate() {
                if px[3] != 255 {
                    violation!("wrong-row", "{what}: bin {i} has opacity {}", px[3]);
                }
                if spoilt {
                    continue;
                }
                if m[i] > self.max {
                    self.max = m[i];
                }
                self.merr = self.merr.max(err);
                let b = colour::of_magnitude(m[i], err, self.max, self.merr, -80.0, self.map);
                if !colour::fits(&[px[0] as f64, px[1] as f64, px[2] as f64], &b) {
                    violation!(
                        "wrong-row",
                        "{what}: bin {i} (magnitude {:.6}, loudest so far {:.6}, palette {}) is {:?}, expected within {b:?}",
                        m[i],
                        self.max,
                        self.map,
                        &px[..3]
                    );
                }
            }
            ctx::count("rows checked against the definition");
        }
        self.rows += 1;
        self.seen.push(row);
        self.maps.push(self.map);
        true
    }
    fn palette(&mut self, k: usize) {
        const OTHER: [(&str, &str); 5] = [("Viridis", "viridis"), ("GRAY", "gray"), ("", "fire"), ("no such palette", "fire"), ("rAiNbOw", "rainbow")];
        let (name, map) = if k < 7 { (colour::NAMES[k], colour::NAMES[k]) } else { OTHER[k - 7] };
        set_colormap(name);
        self.map = map;
    }
}

fn chunk() -> usize {
    match ctx::w(10) {
        0 => 0,
        1 => 1,
        2 => ctx::range(1, 40),
        3 => HOP,
        4 => HOP - 1 + ctx::w(3),
        5 => WIN - 1 + ctx::w(3),
        6 => ctx::range(1, 700),
        7 => ctx::range(WIN, 4 * WIN),
        // a whole second at once, or several
        8 if ctx::w(12) == 11 => *ctx::pick(&[22_050usize, 44_100, 65_536, 48_000 * 3]),
        _ => 128,
    }
}

/// A call of one of the other functions exported to the page. None of them has anything to do with the stream.
fn calculator(who: &str) {
    let mut r = Rng::new(ctx::draw(S::Work, 1 << 16));
    let mut val = |a: f64| (a * (r.below(1 << 20) as f64 / (1 << 19) as f64 - 1.0)) as f32;
    let n: usize = if ctx::w(10) == 9 { *ctx::pick(&[128, 256, 300, 512, 1000, 1024, 2048]) } else { *ctx::pick(&[1, 2, 3, 4, 5, 8, 16, 24, 31, 64, 100]) };
    let what = ctx::w(8);
    let fail = |name: &str, i: usize, got: f64, want: f64, tol: f64| {
        if !((got - want).abs() <= tol) {
            violation!("wrong-answer", "{who}: {name} of {n} values: value {i} is {got}, {want} expected");
        }
    };
    let length = |name: &str, got: usize, want: usize| {
        if got != want {
            violation!("wrong-length", "{who}: {name} of {n} values returns {got} instead of {want}");
        }
    };
    match what {
        0 => {
            let re: Vec<f32> = (0..n).map(|_| val(1.0)).collect();
            let im: Vec<f32> = (0..n).map(|_| val(1.0)).collect();
            let Ok(y) = web_spectrogram::fft_split(&re, &im) else { violation!("unexpected-error", "{who}: split transform of {n} values refused") };
            let z = oracle::dft(&re.iter().zip(&im).map(|(a, b)| (*a as f64, *b as f64)).collect::<Vec<_>>());
            let (yr, yi) = (y.re(), y.im());
            length("split transform", yr.len(), n);
            length("split transform", yi.len(), n);
            for i in 0..n {
                fail("split transform (re)", i, yr[i] as f64, z[i].0, 2e-5 * (n as f64 + 1.0));
                fail("split transform (im)", i, yi[i] as f64, z[i].1, 2e-5 * (n as f64 + 1.0));
            }
        }
        1 => {
            let x: Vec<f32> = (0..n).map(|_| val(1.0)).collect();
            let y = web_spectrogram::dct2(&x);
            let z = oracle::dct2(&x.iter().map(|v| *v as f64).collect::<Vec<_>>());
            length("cosine transform", y.len(), n);
            for i in 0..n {
                fail("cosine transform", i, y[i] as f64, z[i], 1e-4 * (n as f64 + 1.0));
            }
        }
        2 | 3 => {
            let n = n & !1;
            let x: Vec<f32> = (0..n).map(|_| val(1.0)).collect();
            let h = web_spectrogram::haar_forward(&x);
            let (a, d) = (h.avg(), h.diff());
            length("Haar step", a.len(), n / 2);
            length("Haar step", d.len(), n / 2);
            for i in 0..n / 2 {
                let (p, q) = (x[2 * i] as f64, x[2 * i + 1] as f64);
                fail("Haar step (average)", i, a[i] as f64, (p + q) / 2.0, 1e-6);
                fail("Haar step (difference)", i, d[i] as f64, (p - q) / 2.0, 1e-6);
            }
            let back = web_spectrogram::haar_inverse(&a, &d);
            length("inverse Haar step", back.len(), n);
            for i in 0..n {
                fail("inverse Haar step", i, back[i] as f64, x[i] as f64, 1e-6);
            }
        }
        4 => {
            let max = val(4.0).abs() + 0.01;
            let mag = if ctx::w(6) == 0 { 0.0 } else { max * 10f32.powf(val(5.0)) };
            let floor = *ctx::pick(&[-20.0f32, -60.0, -80.0, -120.0]);
            let db = if mag <= 0.0 { floor as f64 } else { (20.0 * (mag as f64 / max as f64).log10()).max(floor as f64) };
            fail("decibels", 0, web_spectrogram::magnitude_to_db(mag, max, floor) as f64, db, 1e-3);
            let t = (((20.0 * (mag as f64 / max as f64).max(1e-10).log10()) - floor as f64) / -floor as f64).clamp(0.0, 1.0);
            fail("decibel scale", 0, web_spectrogram::db_scale(mag, max, -floor) as f64, t, 1e-4);
        }
        5 | 6 => {
            const MAPS: [Colormap; 7] = [Colormap::Fire, Colormap::Legacy, Colormap::Gray, Colormap::Viridis, Colormap::Plasma, Colormap::Inferno, Colormap::Rainbow];
            let k = ctx::w(7);
            let (c, b) = if what == 5 {
                let t = *ctx::pick(&[-0.5f32, 0.0, 0.1, 0.25, 0.3, 0.5, 0.6, 0.75, 0.8, 0.9, 0.97, 1.0, 3.0]);
                (web_spectrogram::map_color_u8(t, MAPS[k]), colour::band(t as f64 - 1e-4, t as f64 + 1e-4, colour::NAMES[k]))
            } else {
                let max = val(4.0).abs() + 0.01;
                let mag = if ctx::w(6) == 0 { 0.0 } else { max * 10f32.powf(val(3.0)) };
                let floor = *ctx::pick(&[-20.0f32, -60.0, -80.0]);
                let (m, x) = (mag as f64, max as f64);
                (web_spectrogram::color_from_magnitude_u8(mag, max, floor, MAPS[k]), colour::of_magnitude(m, m * 1e-6, x, x * 1e-6, floor as f64, colour::NAMES[k]))
            };
            length("colour", c.len(), 3);
            if !colour::fits(&[c[0] as f64, c[1] as f64, c[2] as f64], &b) {
                violation!("wrong-answer", "{who}: colour {c:?} in palette {}, expected within {b:?}", colour::NAMES[k]);
            }
        }
        _ => {
            let x: Vec<f32> = (0..ctx::w(5 * n as u64)).map(|_| val(1.0)).collect();
            let hop = ctx::range(1, n + 2);
            let Ok(r) = stft_magnitudes(&x, n, hop) else { violation!("unexpected-error", "{who}: magnitudes of {} samples, window {n}, hop {hop} refused", x.len()) };
            let w = x.len().div_ceil(hop);
            let (mags, h) = (r.mags(), n / 2);
            length("magnitudes", r.width(), w);
            length("magnitudes", r.height(), h);
            length("magnitudes", mags.len(), w * h);
            let mut max = 0f32;
            for k in 0..w {
                let z: Vec<C> = (0..n)
                    .map(|i| {
                        let v = x.get(k * hop + i).copied().unwrap_or(0.0) as f64;
                        let win = if n == 1 { 1.0 } else { 0.5 - 0.5 * (2.0 * std::f64::consts::PI * i as f64 / n as f64).cos() };
                        (v * win, 0.0)
                    })
                    .collect();
                let z = oracle::dft(&z);
                for i in 0..h {
                    max = max.max(mags[k * h + i]);
                    fail("magnitudes", k * h + i, mags[k * h + i] as f64, (z[i].0 * z[i].0 + z[i].1 * z[i].1).sqrt(), 2e-5 * (n as f64 + 1.0));
                }
            }
            fail("largest magnitude", 0, r.max_mag() as f64, max as f64, 0.0);
        }
    }
    ctx::event_num(what as u64, n as u64);
    ctx::state(10 + what as u64);
    ctx::count("other exported calls checked");
}

fn drain(m: &mut Model, who: &str, check: bool) {
    while m.feed(who, &[], check) {}
}

/// One stream's life on the current thread.
fn life(who: &str, steps: usize, check_all: bool) {
    let mut m = Model::new();
    let mut src = Source::draw();
    let mut fed: Vec<f32> = vec![];
    let mut changed = false;
    let spoil = ctx::w(5) == 4;
    ctx::repeat(3, steps, steps / 2 + 1, |_| match ctx::w(15) {
        14 => calculator(who),
        0 => {
            reset_state();
            ev!("{who}: reset after {} rows, {} samples", m.rows, m.x.len());
            m = Model::new();
            fed.clear();
            changed = false;
            ctx::count("resets");
            ctx::nontrivial();
            ctx::state(1);
        }
        1 | 2 => {
            let k = ctx::w(12);
            ev!("{who}: palette {k} before row {}", m.rows);
            m.palette(k);
            changed = true;
            ctx::count("palette changes");
            ctx::state(2 + k as u64);
        }
        3 => {
            ev!("{who}: drain");
            drain(&mut m, who, check_all);
        }
        4 if ctx::w(3) == 2 => {
            src = Source::draw();
        }
        _ => {
            let n = chunk();
            let mut c: Vec<f32> = (0..n).map(|_| src.next()).collect();
            if spoil && n > 0 && ctx::chance(S::Fault, 1, 6) {
                c[ctx::w(n as u64)] = f32::NAN;
                ctx::fault("sample that is no number");
            }
            fed.extend(&c);
            ev!("{who}: feed {n}");
            m.feed(who, &c, check_all);
            ctx::state(20 + n as u64);
            if n != HOP {
                ctx::nontrivial();
            }
        }
    });
    drain(&mut m, who, true);
    if changed || fed.len() < WIN {
        return;
    }
    // the same stream in other chunks gives the same rows
    if ctx::w(2) == 0 {
        reset_state();
        let mut again = Model::new();
        let mut at = 0;
        let step = *ctx::pick(&[HOP, 1024, 100, 4096, 333]);
        while at < fed.len() {
            let n = step.min(fed.len() - at);
            again.feed(who, &fed[at..at + n], false);
            at += n;
        }
        drain(&mut again, who, false);
        if again.seen != m.seen {
            let k = again.seen.iter().zip(&m.seen).position(|(a, b)| a != b);
            violation!("chunking", "{who}: {} samples fed in chunks of {step} give different rows (first difference in row {k:?})", fed.len());
        }
        ctx::count("streams repeated in other chunks");
    }
    if ctx::w(6) == 5 && !fed.iter().any(|v| v.is_nan()) {
        let Ok(r) = stft_magnitudes(&fed, WIN, HOP) else { violation!("unexpected-error", "{who}: whole-file magnitudes of {} samples refused", fed.len()) };
        let w = fed.len().div_ceil(HOP);
        if (r.width(), r.height(), r.mags().len()) != (w, HOP, w * HOP) {
            violation!("wrong-length", "{who}: whole-file magnitudes are {}x{}, {w}x{HOP} expected", r.width(), r.height());
        }
        let mags = r.mags();
        let mut max = 0f32;
        for k in 0..w {
            let mut x = fed[k * HOP..(k * HOP + WIN).min(fed.len())].to_vec();
            x.resize(WIN, 0.0);
            let (m, err) = windowed(&x);
            for i in 0..HOP {
                let a = mags[k * HOP + i];
                max = max.max(a);
                if !((a as f64 - m[i]).abs() <= err) {
                    violation!("wrong-row", "{who}: whole-file magnitude of frame {k}, bin {i} is {a}, definition gives {}", m[i]);
                }
            }
        }
        if max != r.max_mag() {
            violation!("wrong-row", "{who}: reported maximum {} instead of {max}", r.max_mag());
        }
        ctx::count("whole-file magnitudes checked");
    }
}

pub fn stream() {
    let steps = if ctx::thorough() { 60 } else { 24 };
    if ctx::w(3) == 2 {
        // leftovers of an earlier stream
        let mut src = Source::draw();
        let c: Vec<f32> = (0..ctx::range(1, 3000)).map(|_| src.next()).collect();
        compute_frame(&c);
        set_colormap(ctx::pick(&colour::NAMES));
        reset_state();
        ctx::count("earlier streams");
    }
    life("stream", steps, true);
}

pub fn streams() {
    let n = ctx::range(2, 3);
    let hs: Vec<_> = (0..n)
        .map(|i| {
            std::thread::spawn(move || {
                life(&format!("stream {i}"), 8, true);
            })
        })
        .collect();
    if ctx::w(2) == 1 {
        life("main stream", 6, true);
    }
    for h in hs {
        h.join().unwrap();
    }
    ctx::nontrivial();
}
