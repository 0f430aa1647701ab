//! C11: concurrent callers of the public functions, each with its own objects.
//!
//! Every caller works through requests whose inputs are fixed beforehand. A request's answer is compared with its
//! definition, and bit for bit with the answer the same request gets later from a single thread.
use crate::forms::{any_scalar, free_form, plan_form};
use crate::util::*;
use kofft::dct::{self, DctPlanner};
use kofft::dst::{self, DstPlanner};
use kofft::fft::*;
use kofft::rfft::RfftPlanner;
#[cfg(not(feature = "bare"))]
use kofft::visual::spectrogram as vis;
use kofft::{cepstrum, czt, goertzel, hartley, hilbert, ndfft, stft, wavelet, window, window_more};
use simrt::ctx::{self, S};
use simrt::oracle::{self, C};
use simrt::{ev, sched, violation};
use std::f64::consts::PI;
use std::sync::mpsc;
use std::sync::{Arc, Barrier};

#[derive(Clone, Debug)]
struct Job {
    kind: usize,
    n: usize,
    p: [usize; 3],
    x: Vec<f64>,
    who: String,
}
const KINDS: usize = 20;

type Out = Vec<u64>;
fn put(o: &mut Out, x: &[f32]) {
    o.push(x.len() as u64);
    o.extend(x.iter().map(|v| v.to_bits() as u64));
}
fn put_c<T: Num>(o: &mut Out, x: &[Complex<T>]) {
    o.push(x.len() as u64);
    for v in x {
        o.push(v.re.bits());
        o.push(v.im.bits());
    }
}
fn near(what: &str, got: &[f32], want: &[f64], tol: f64) {
    check_re(what, &to_r(got), want, tol, "f32");
}
/// Absolute comparison for values of order one.
fn close(what: &str, got: &[f32], want: &[f64], tol: f64) {
    if got.len() != want.len() {
        violation!("wrong-length", "{what}: {} values instead of {}", got.len(), want.len());
    }
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if !((*g as f64 - w).abs() <= tol) {
            violation!("wrong-result", "{what}: value {i} is {g} instead of {w}");
        }
    }
}
/// Low-pass analysis filters: Haar as averages, db2, db4, sym4, coif1.
const LOW: [&[f64]; 5] = [
    &[0.5, 0.5],
    &[0.4829629131445341, 0.8365163037378079, 0.2241438680420134, -0.1294095225512604],
    &[
        -0.010597401785069032,
        0.0328830116668852,
        0.030841381835560764,
        -0.18703481171909309,
        -0.027983769416859854,
        0.6308807679298589,
        0.7148465705529157,
        0.2303778133088965,
    ],
    &[
        -0.07576571478927333,
        -0.02963552764599851,
        0.49761866763201545,
        0.8037387518059161,
        0.29785779560527736,
        -0.09921954357684722,
        -0.012603967262037833,
        0.0322231006040427,
    ],
    &[-0.015655728135791993, -0.07273261951252645, 0.3848648468648578, 0.8525720202116004, 0.3378976624574818, -0.07273261951252645],
];

fn complex_job<T: Num>(j: &Job, o: &mut Out) {
    let n = j.n;
    let z: Vec<C> = (0..n).map(|i| (j.x[i], j.x[(i * 7 + 3) % n])).collect();
    let e = if j.p[0] % 2 == 0 { ScalarFftImpl::<T>::default() } else { ScalarFftImpl::with_planner(FftPlanner::new()) };
    for r in 0..1 + j.p[1] % 2 {
        let inv = (j.p[2] + r) % 2 == 1;
        let mut b: Vec<Complex<T>> = of_c(&z);
        ok(&j.who, if inv { e.ifft(&mut b) } else { e.fft(&mut b) });
        check(&j.who, &b, &if inv { oracle::idft(&z) } else { oracle::dft(&z) }, n);
        put_c(o, &b);
    }
}

fn run(j: &Job) -> Out {
    let mut out = Vec::new();
    let o = &mut out;
    let n = j.n;
    let x: Vec<f32> = j.x.iter().map(|v| *v as f32).collect();
    let xd = &j.x[..];
    let who = j.who.as_str();
    let tol = f32::tol(n);
    // angles are computed in single precision by the direct formulas
    let rough = 2e-4 + 6e-6 * n as f64;
    match j.kind {
        0 => complex_job::<f32>(j, o),
        1 => complex_job::<f64>(j, o),
        2 => {
            let mut p = FftPlanner::<f32>::new();
            for _ in 0..2 {
                let t = p.get_twiddles(n);
                for (k, v) in t.iter().enumerate() {
                    let a = -2.0 * PI * k as f64 / n as f64;
                    if (v.re as f64 - a.cos()).abs() > 1e-5 || (v.im as f64 - a.sin()).abs() > 1e-5 {
                        violation!("wrong-result", "{who}: factor {k} of the table for {n} is {v:?}");
                    }
                }
                put_c(o, &t);
            }
            o.push(format!("{:?}", p.plan_strategy(n)).len() as u64);
        }
        3 => {
            let n = n & !1;
            if n == 0 {
                return out;
            }
            let mut p = RfftPlanner::<f32>::new();
            let e = ScalarFftImpl::<f32>::default();
            let mut a = x[..n].to_vec();
            let mut h = vec![Complex32::zero(); n / 2 + 1];
            ok(who, p.rfft(&e, &mut a, &mut h));
            check(who, &h, &oracle::rdft(&xd[..n]), n);
            put_c(o, &h);
            ok(who, p.irfft(&e, &mut h, &mut a));
            near(who, &a, &xd[..n], 4.0 * tol);
            put(o, &a);
        }
        4 => {
            let (r, w) = match j.p[0] % 4 {
                0 => (dct::dct1(&x), oracle::dct1(xd)),
                1 => (dct::dct2(&x), oracle::dct2(xd)),
                2 => (dct::dct3(&x), oracle::dct3(xd)),
                _ => (dct::dct4(&x), oracle::dct4(xd)),
            };
            // the n = 1 value of DCT-I is a convention
            if n > 1 {
                near(who, &r, &w, rough);
            }
            put(o, &r);
            let mut b = vec![x.clone(), x[..n / 2 + 1].to_vec()];
            match j.p[0] % 4 {
                0 => dct::batch_i(&mut b),
                1 => dct::multi_channel_ii(&mut b),
                2 => dct::batch_iii(&mut b),
                _ => dct::multi_channel_iv(&mut b),
            }
            for v in &b {
                put(o, v);
            }
        }
        5 => {
            let mut p = DctPlanner::new();
            let mut plan = p.plan_dct2(n);
            let mut a = x.clone();
            let mut y = vec![0.0f32; n];
            for _ in 0..2 {
                ok(who, plan(&mut a, &mut y));
                near(who, &y, &oracle::dct2(xd), f32::tol(2 * n));
                put(o, &y);
            }
        }
        6 => {
            let r = match j.p[0] % 4 {
                0 => dst::dst1(&x),
                1 => dst::dst2(&x),
                2 => dst::dst3(&x),
                _ => dst::dst4(&x),
            };
            let w: Option<Vec<f64>> = match j.p[0] % 4 {
                0 => Some(oracle::dst1(xd)),
                1 => Some((0..n).map(|k| (0..n).map(|i| xd[i] * (PI * (i as f64 + 0.5) * (k as f64 + 1.0) / n as f64).sin()).sum()).collect()),
                2 => Some(
                    (0..n)
                        .map(|k| {
                            let last = xd[n - 1] * if k % 2 == 0 { 0.5 } else { -0.5 };
                            last + (0..n - 1).map(|i| xd[i] * (PI * (i as f64 + 1.0) * (k as f64 + 0.5) / n as f64).sin()).sum::<f64>()
                        })
                        .collect(),
                ),
                _ => Some((0..n).map(|k| (0..n).map(|i| xd[i] * (PI * (i as f64 + 0.5) * (k as f64 + 0.5) / n as f64).sin()).sum()).collect()),
            };
            if let Some(w) = w {
                near(who, &r, &w, rough.max(2e-6 * (n * n) as f64 / (1.0 + oracle_peak(&w))));
            }
            put(o, &r);
            let mut b = vec![x.clone(), x[..n / 2 + 1].to_vec()];
            match j.p[0] % 4 {
                0 => dst::multi_channel_i(&mut b),
                1 => dst::batch_ii(&mut b),
                2 => dst::multi_channel_iii(&mut b),
                _ => dst::batch_iv(&mut b),
            }
            for v in &b {
                put(o, v);
            }
        }
        7 => {
            let mut p = DstPlanner::<f32>::new();
            let off = if j.p[0] % 3 == 1 { 0.0 } else { 0.5 };
            let want: Vec<f64> = (0..n).map(|i| (PI * (i as f64 + off) / n as f64).sin()).collect();
            for _ in 0..2 {
                let t = match j.p[0] % 3 {
                    0 => p.plan_dst2(n),
                    1 => p.plan_dst3(n),
                    _ => p.plan_dst4(n),
                };
                close(who, t, &want, 2e-6);
                put(o, t);
            }
            let s = p.scratch(n);
            s.fill(1.0);
            o.push(s.len() as u64);
        }
        8 => {
            let r = hartley::dht(&x);
            near(who, &r, &oracle::dht(xd), rough);
            put(o, &r);
            let mut b = vec![x.clone(), x[..n / 2 + 1].to_vec()];
            hartley::batch(&mut b);
            put(o, &b[0]);
            put(o, &b[1]);
        }
        9 => {
            // the lengths windows have in practice, too
            let n = match j.p[2] % 5 {
                4 => [1024, 512, 1024, 256, 2048, 1000][j.p[2] / 5 % 6],
                _ => n,
            };
            let q = 2.0 * PI / n as f64;
            let cosine = |a: f64, i: usize| (a * i as f64).cos();
            let (r, w): (Vec<f32>, Option<Vec<f64>>) = match j.p[0] % 8 {
                0 => (window::hann(n), Some((0..n).map(|i| 0.5 - 0.5 * cosine(q, i)).collect())),
                1 => (window::hamming(n), Some((0..n).map(|i| 0.54 - 0.46 * cosine(q, i)).collect())),
                2 => (window::blackman(n), Some((0..n).map(|i| 0.42 - 0.5 * cosine(q, i) + 0.08 * cosine(2.0 * q, i)).collect())),
                3 => {
                    let beta = match j.p[1] % 13 {
                        b @ 0..=9 => 0.5 + b as f64,
                        10 => 0.0,
                        11 => 25.0,
                        _ => 60.0,
                    };
                    // the library first: the callers have just met
                    let y = window::kaiser(n, beta as f32);
                    let h = (n as f64 - 1.0) / 2.0;
                    let w = (0..n)
                        .map(|i| {
                            let r = (i as f64 - h) / h;
                            if n == 1 { 1.0 } else { oracle::i0(beta * (1.0 - r * r).max(0.0).sqrt()) / oracle::i0(beta) }
                        })
                        .collect();
                    (y, Some(w))
                }
                4 => {
                    let alpha = (j.p[1] % 11) as f64 / 10.0;
                    let y = window_more::tukey(n, alpha as f32);
                    let taper = alpha * (n as f64 - 1.0) / 2.0;
                    let w = (0..n)
                        .map(|i| {
                            let i = i.min(n - 1 - i) as f64;
                            if n == 1 || i >= taper { 1.0 } else { 0.5 * (1.0 - (PI * i / taper).cos()) }
                        })
                        .collect();
                    (y, Some(w))
                }
                5 => {
                    let h = (n as f64 - 1.0) / 2.0;
                    (window_more::bartlett(n), Some((0..n).map(|i| if n == 1 { 1.0 } else { 1.0 - ((i as f64 - h) / h).abs() }).collect()))
                }
                6 => {
                    let y = window_more::bohman(n);
                    let h = (n as f64 - 1.0) / 2.0;
                    let w = (0..n)
                        .map(|i| {
                            let x = ((i as f64 - h) / h).abs();
                            if n == 1 { 1.0 } else { (1.0 - x) * (PI * x).cos() + (PI * x).sin() / PI }
                        })
                        .collect();
                    (y, Some(w))
                }
                _ => {
                    let y = window_more::nuttall(n);
                    let q = 2.0 * PI / (n as f64 - 1.0);
                    let w = (0..n).map(|i| if n == 1 { 1.0 } else { 0.355768 - 0.487396 * cosine(q, i) + 0.144232 * cosine(2.0 * q, i) - 0.012604 * cosine(3.0 * q, i) }).collect();
                    (y, Some(w))
                }
            };
            if let Some(w) = w {
                close(who, &r, &w, 1e-5 + 1e-6 * n as f64);
            }
            put(o, &r);
        }
        10 => {
            let n = (n & !1).max(2);
            let x: Vec<f32> = (0..n).map(|i| x[i % x.len()]).collect();
            let levels = 1 + j.p[1] % 4;
            let (a, d) = match j.p[0] % 5 {
                0 => wavelet::haar_forward_multi(&x, levels),
                1 => wavelet::db2_forward_multi(&x, levels),
                2 => wavelet::db4_forward_multi(&x, levels),
                3 => wavelet::sym4_forward_multi(&x, levels),
                _ => wavelet::coif1_forward_multi(&x, levels),
            };
            put(o, &a);
            for v in &d {
                put(o, v);
            }
            let y = match j.p[0] % 5 {
                0 => wavelet::haar_inverse_multi(&a, &d),
                1 => wavelet::db2_inverse_multi(&a, &d),
                2 => wavelet::db4_inverse_multi(&a, &d),
                3 => wavelet::sym4_inverse_multi(&a, &d),
                _ => wavelet::coif1_inverse_multi(&a, &d),
            };
            if j.p[0] % 5 == 0 {
                near(who, &y[..n.min(y.len())], &to_r(&x), 1e-4);
            }
            put(o, &y);
            // Away from the ends a single level has its textbook coefficients
            // and is undone exactly.
            let low = LOW[j.p[0] % 5];
            let taps = low.len();
            let (a, d, y) = match j.p[0] % 5 {
                0 => {
                    let (a, d) = wavelet::haar_forward(&x);
                    let y = wavelet::haar_inverse(&a, &d);
                    (a, d, y)
                }
                1 => {
                    let (a, d) = wavelet::db2_forward(&x);
                    let y = wavelet::db2_inverse(&a, &d);
                    (a, d, y)
                }
                2 => {
                    let (a, d) = wavelet::db4_forward(&x);
                    let y = wavelet::db4_inverse(&a, &d);
                    (a, d, y)
                }
                3 => {
                    let (a, d) = wavelet::sym4_forward(&x);
                    let y = wavelet::sym4_inverse(&a, &d);
                    (a, d, y)
                }
                _ => {
                    let (a, d) = wavelet::coif1_forward(&x);
                    let y = wavelet::coif1_inverse(&a, &d);
                    (a, d, y)
                }
            };
            if a.len() != n / 2 || d.len() != n / 2 || y.len() != n {
                violation!("wrong-result", "{who}: wavelet {} of {n} samples has {} and {} coefficients and {} samples back", j.p[0] % 5, a.len(), d.len(), y.len());
            }
            let xd = to_r(&x);
            let scale = 1e-5 * (1.0 + xd.iter().fold(0.0, |m: f64, v| m.max(v.abs())));
            for i in (0..n / 2).filter(|i| 2 * i + taps <= n) {
                let lo: f64 = (0..taps).map(|k| low[k] * xd[2 * i + k]).sum();
                let hi: f64 = (0..taps).map(|k| low[taps - 1 - k] * if k % 2 == 0 { 1.0 } else { -1.0 } * xd[2 * i + k]).sum();
                // the sign of the detail filter is a convention
                if (a[i] as f64 - lo).abs() > scale || (d[i].abs() as f64 - hi.abs()).abs() > scale {
                    violation!("wrong-result", "{who}: coefficients {i} of wavelet {} are {} and {} instead of {lo} and {hi}", j.p[0] % 5, a[i], d[i]);
                }
            }
            for t in (taps - 2..n).filter(|t| t + taps <= n + if taps == 2 { 1 } else { 0 }) {
                if (y[t] as f64 - xd[t]).abs() > scale {
                    violation!("wrong-result", "{who}: wavelet {} of {n} samples gives back {} for sample {t}, which is {}", j.p[0] % 5, y[t], xd[t]);
                }
            }
            put(o, &y);
        }
        11 => {
            // a frequency that belongs to a bin, of a block of any length at any of the usual rates
            let m = if j.p[1] % 3 == 0 { n.next_power_of_two() } else { n };
            let x: Vec<f32> = (0..m).map(|i| x[i % x.len()]).collect();
            let k = j.p[0] % (m / 2 + 1);
            let rate = [m as f32, 44100.0, 8000.0, 48000.0, 1.0, 22050.0, 11025.0, 96000.0, 2.0 * std::f32::consts::PI][j.p[1] % 9];
            match goertzel::goertzel_f32(&x, rate, (k as f64 * rate as f64 / m as f64) as f32) {
                Ok(v) => {
                    let want = oracle::rdft(&to_r(&x))[k];
                    let want = (want.0 * want.0 + want.1 * want.1).sqrt();
                    let size: f64 = x.iter().map(|v| v.abs() as f64).sum();
                    if !((v as f64 - want).abs() <= 1e-2 * size + 1e-3) {
                        // cancellation may push the power below zero
                        if !(v.is_nan() && want < 1e-2 * size + 1e-3) {
                            violation!("wrong-result", "{who}: bin {k} of {m} is {v} instead of {want}");
                        }
                    }
                    o.push(v.to_bits() as u64);
                }
                Err(e) => violation!("unexpected-error", "{who}: bin {k} of {m} failed with {e:?}"),
            }
        }
        12 => {
            let m = (1 + j.p[0] % 40).min(n + 3);
            let n = n.min(64);
            let a = 2.0 * PI / (m.max(n)) as f64;
            // starting point on the unit circle
            let b = (j.p[1] % 17) as f64 * 0.37;
            let r = czt::czt_f32(&x[..n], m, (a.cos() as f32, -a.sin() as f32), (b.cos() as f32, b.sin() as f32));
            let size: f64 = xd[..n].iter().map(|v| v.abs()).sum();
            for (k, v) in r.iter().enumerate() {
                let w = (0..n).fold((0.0, 0.0), |s, i| {
                    let p = a * (k * i) as f64 + b * i as f64;
                    (s.0 + xd[i] * p.cos(), s.1 - xd[i] * p.sin())
                });
                if !((v.0 as f64 - w.0).abs() + (v.1 as f64 - w.1).abs() <= 5e-3 * size + 1e-6) {
                    violation!("wrong-result", "{who}: bin {k} of {m} over {n} samples is {v:?} instead of {w:?}");
                }
                o.push(v.0.to_bits() as u64);
                o.push(v.1.to_bits() as u64);
            }
        }
        13 => {
            let m = n.next_power_of_two();
            let x: Vec<f32> = (0..m).map(|i| x[i % x.len()]).collect();
            let mut h = oracle::dft(&x.iter().map(|v| (*v as f64, 0.0)).collect::<Vec<_>>());
            for (k, v) in h.iter_mut().enumerate() {
                let f = if k == 0 || 2 * k == m { 1.0 } else if 2 * k < m { 2.0 } else { 0.0 };
                *v = (v.0 * f, v.1 * f);
            }
            match hilbert::hilbert_analytic(&x) {
                Ok(r) => {
                    check_tol(who, &to_c(&r), &oracle::idft(&h), 4.0 * f32::tol(m), "f32");
                    put_c(o, &r);
                }
                Err(e) => violation!("unexpected-error", "{who}: analytic signal of {m} failed with {e:?}"),
            }
        }
        14 => {
            let m = n.next_power_of_two();
            let x: Vec<f32> = (0..m).map(|i| x[i % x.len()]).collect();
            match cepstrum::real_cepstrum(&x) {
                Ok(r) => {
                    let xf: Vec<f64> = to_r(&x);
                    let h = oracle::dft(&xf.iter().map(|v| (*v, 0.0)).collect::<Vec<_>>());
                    let mag: Vec<f64> = h.iter().map(|v| v.0.hypot(v.1)).collect();
                    let size: f64 = xf.iter().map(|v| v.abs()).sum();
                    // where a bin nearly vanishes its logarithm is rounding noise
                    if mag.iter().all(|v| *v > 1e-2 * size) {
                        let lg: Vec<C> = mag.iter().map(|v| ((v + 1e-12).ln(), 0.0)).collect();
                        let w: Vec<f64> = oracle::idft(&lg).iter().map(|v| v.0).collect();
                        close(who, &r, &w, 2e-2);
                    }
                    put(o, &r);
                }
                Err(e) => violation!("unexpected-error", "{who}: cepstrum of {m} failed with {e:?}"),
            }
            let mags: Vec<f32> = x.iter().map(|v| v.abs()).collect();
            let f = 1 + j.p[0] % 20;
            let e = cepstrum::mel_filterbank(&mags, 16000.0, f);
            put(o, &e);
            let k = 1 + j.p[1] % f;
            match cepstrum::mfcc_batch(&[mags.clone(), mags[..m / 2 + 1].to_vec()], 16000.0, f, k) {
                Ok(r) => {
                    let lg: Vec<f64> = e.iter().map(|v| ((v + 1e-12) as f64).ln()).collect();
                    let w = oracle::dct2(&lg);
                    near(who, &r[0], &w[..k], 1e-3);
                    put(o, &r[0]);
                    put(o, &r[1]);
                }
                Err(e) => violation!("unexpected-error", "{who}: mfcc failed with {e:?}"),
            }
        }
        15 => {
            let win = fit((1 + j.p[0] % 40).min(n.max(2)).max(2));
            let hop = 1 + j.p[1] % win;
            let w = window::hann(win);
            let e = ScalarFftImpl::<f32>::default();
            let k = n.div_ceil(hop);
            let mut f = vec![vec![]; k];
            let par = j.p[2] % 2 == 1;
            let r = stft_of(par, &x, &w, hop, &mut f, &e);
            ok(who, r);
            for (i, fr) in f.iter().enumerate() {
                let seg: Vec<C> = (0..win).map(|t| (x.get(i * hop + t).map_or(0.0, |v| (*v * w[t]) as f64), 0.0)).collect();
                check_tol(&format!("{who}: frame {i} of {k}"), &to_c(fr), &oracle::dft(&seg), f32::tol(win) * 2.0, "f32");
                put_c(o, fr);
            }
            let mut y = vec![0.0f32; (k - 1) * hop + win];
            let mut s = y.clone();
            ok(who, stft::istft(&mut f, &w, hop, &mut y, &mut s, &e));
            put(o, &y);
        }
        #[cfg(not(feature = "bare"))]
        16 => {
            let win = *[4usize, 8, 16, 32, 5, 12].get(j.p[0] % 6).unwrap();
            let hop = 1 + j.p[1] % win;
            match vis::stft_magnitudes(&x, win, hop) {
                Ok((m, top)) => {
                    let w = window::hann(win);
                    let mut peak = 0.0f64;
                    for (i, row) in m.iter().enumerate() {
                        let seg: Vec<f64> = (0..win).map(|t| x.get(i * hop + t).map_or(0.0, |v| (*v * w[t]) as f64)).collect();
                        let h = oracle::dft(&seg.iter().map(|v| (*v, 0.0)).collect::<Vec<_>>());
                        let want: Vec<f64> = (0..win / 2).map(|k| h[k].0.hypot(h[k].1)).collect();
                        let size: f64 = seg.iter().map(|v| v.abs()).sum();
                        close(&format!("{who}: column {i}"), row, &want, 1e-4 * size + 1e-6);
                        peak = peak.max(row.iter().fold(0.0, |a: f64, b| a.max(*b as f64)));
                        put(o, row);
                    }
                    if m.len() != n.div_ceil(hop) || peak != top as f64 {
                        violation!("wrong-result", "{who}: {} columns with peak {top}; expected {} and {peak}", m.len(), n.div_ceil(hop));
                    }
                    o.push(top.to_bits() as u64);
                }
                Err(e) => violation!("unexpected-error", "{who}: magnitudes failed with {e:?}"),
            }
        }
        #[cfg(not(feature = "bare"))]
        17 => {
            use vis::Colormap::*;
            let all = [Fire, Legacy, Gray, Viridis, Plasma, Inferno, Rainbow];
            let cm = all[j.p[0] % 7];
            let name = ["fire", "LEGACY", "gray", "viridis", "Plasma", "inferno", "rainbow"][j.p[0] % 7];
            if vis::Colormap::parse(name) != cm {
                violation!("wrong-result", "{who}: {name} parsed as another palette");
            }
            let top = 0.25 + (j.p[1] % 8) as f32;
            let floor = -20.0 * (1 + j.p[2] % 6) as f32;
            for v in &x {
                let m = v.abs();
                let db = vis::magnitude_to_db(m, top, floor);
                let want = if m == 0.0 { floor as f64 } else { (20.0 * (m as f64 / top as f64).log10()).max(floor as f64) };
                close(who, &[db], &[want], 1e-3);
                let a = vis::color_from_magnitude_u8(m, top, floor, cm);
                let t = ((db - floor) / -floor).clamp(0.0, 1.0);
                if a != vis::map_color_u8(t, cm) {
                    violation!("wrong-result", "{who}: magnitude {m} of {top} over {floor} dB is {a:?}");
                }
                if cm == Gray && (a[0] != a[1] || a[1] != a[2] || (a[0] as f64 - t as f64 * 255.0).abs() > 0.51) {
                    violation!("wrong-result", "{who}: grey level {a:?} for {t}");
                }
                let b = vis::color_from_magnitude_u16(m, top, floor, cm);
                if b != a.map(|c| c as u16 * 257) || b != vis::map_color_u16(t, cm) {
                    violation!("wrong-result", "{who}: sixteen-bit colour {b:?} for {a:?}");
                }
                o.push(a[0] as u64 | (a[1] as u64) << 8 | (a[2] as u64) << 16);
                let s = vis::db_scale(m, top, -floor);
                let want = ((20.0 * (m as f64 / top as f64).max(1e-10).log10() - floor as f64) / -floor as f64).clamp(0.0, 1.0);
                close(who, &[s], &[want], 1e-4);
                o.push(s.to_bits() as u64);
            }
            let l = vis::log_scale_bins(&x, n - 1);
            // every value is averaged into exactly one pixel
            let mut sum = vec![0.0f64; n];
            let mut num = vec![0usize; n];
            for (i, v) in x.iter().enumerate() {
                let p = vis::map_bin_to_pixel(i, n - 1);
                let e = if n > 1 { (n - 1) as f64 * ((i + 1) as f64).ln() / (n as f64).ln() } else { 0.0 };
                if !((p as f64) <= e + 1e-3 * n as f64 && p as f64 + 1.0 >= e - 1e-3 * n as f64) {
                    violation!("wrong-result", "{who}: bin {i} of {n} is put at pixel {p} instead of {e}");
                }
                sum[p] += *v as f64;
                num[p] += 1;
            }
            let want: Vec<f64> = sum.iter().zip(&num).map(|(s, c)| if *c > 0 { s / *c as f64 } else { 0.0 }).collect();
            close(who, &l, &want, 1e-4 * (1.0 + oracle_peak(xd)));
            put(o, &l);
        }
        18 => {
            let (r, c) = (fit(1 + j.p[0] % 8), fit(1 + j.p[1] % 8));
            let z: Vec<C> = (0..r * c).map(|i| (xd[i % n], xd[(i * 3 + 1) % n])).collect();
            let mut b: Vec<Complex32> = of_c(&z);
            let e = ScalarFftImpl::<f32>::default();
            let mut s = vec![Complex32::zero(); r];
            ok(who, ndfft::fft2d_inplace(&mut b, r, c, &e, &mut s));
            check(who, &b, &oracle::dft_nd(&z, &[r, c]), r + c);
            put_c(o, &b);
        }
        _ => {
            // variants without allocation
            const N: usize = 16;
            let a: [f32; N] = std::array::from_fn(|i| x[i % n]);
            let ad: Vec<f64> = a.iter().map(|v| *v as f64).collect();
            let mut y = [0.0f32; N];
            match j.p[0] % 7 {
                6 => {
                    // the kernels for the short lengths, and the conversions
                    let z: Vec<C> = (0..N).map(|i| (ad[i], ad[(i * 5 + 1) % N])).collect();
                    let mut b: Vec<Complex32> = of_c(&z);
                    let mut d: Vec<Complex64> = of_c(&z);
                    fft16(&mut b);
                    fft16(&mut d);
                    check(who, &b, &oracle::dft(&z), N);
                    check(who, &d, &oracle::dft(&z), N);
                    let z = oracle::dft(&to_c(&b[4..12]));
                    fft8(&mut b[4..12]);
                    check(who, &b[4..12], &z, N);
                    put_c(o, &b);
                    let (mut re, mut im) = ([0.0f32; N], [0.0f32; N]);
                    let s = complex32_to_split(&b, &mut re, &mut im);
                    let mut back = vec![Complex32::zero(); N];
                    split_to_complex32(&s, &mut back);
                    if back != b || re.iter().zip(&b).any(|(r, z)| *r != z.re) || im.iter().zip(&b).any(|(i, z)| *i != z.im) {
                        violation!("wrong-result", "{who}: separated into parts and back, {b:?} is {back:?}");
                    }
                    let e = Complex32::expi(a[0]);
                    close(who, &[e.re, e.im], &[ad[0].cos(), ad[0].sin()], 1e-5 + 1e-6 * ad[0].abs());
                }
                0 => {
                    ok(who, dct::dct2_inplace_stack(&a, &mut y));
                    near(who, &y, &oracle::dct2(&ad), 3e-4);
                    put(o, &y);
                }
                1 => {
                    let mut h = [Complex32::zero(); N / 2 + 1];
                    ok(who, kofft::rfft::rfft_stack(&a, &mut h));
                    check(who, &h, &oracle::rdft(&ad), N);
                    ok(who, kofft::rfft::irfft_stack(&h, &mut y));
                    near(who, &y, &ad, 4.0 * f32::tol(N));
                    put(o, &y);
                }
                2 => {
                    let mut b: [Complex32; N] = std::array::from_fn(|i| Complex32::new(a[i], a[(i * 5 + 1) % N]));
                    let z = to_c(&b);
                    ok(who, fft_inplace_stack(&mut b));
                    check(who, &b, &oracle::dft(&z), N);
                    ok(who, ifft_inplace_stack(&mut b));
                    check(who, &b, &z, 2 * N);
                    put_c(o, &b);
                }
                3 => {
                    let q = PI / N as f64;
                    let sum = |f: &dyn Fn(usize) -> f64| (0..N).map(|i| ad[i] * f(i)).sum::<f64>();
                    let (r, w): (_, Vec<f64>) = match j.p[1] % 4 {
                        0 => (dct::dct1_inplace_stack(&a, &mut y), oracle::dct1(&ad)),
                        1 => (dst::dst2_inplace_stack(&a, &mut y), (0..N).map(|k| sum(&|i| (q * (i as f64 + 0.5) * (k + 1) as f64).sin())).collect()),
                        2 => (dst::dst2_inplace_stack_fft(&a, &mut y), (0..N).map(|k| sum(&|i| (q * (i as f64 + 0.5) * (k + 1) as f64).sin())).collect()),
                        _ => (dst::dst4_inplace_stack(&a, &mut y), (0..N).map(|k| sum(&|i| (q * (i as f64 + 0.5) * (k as f64 + 0.5)).sin())).collect()),
                    };
                    ok(who, r);
                    near(who, &y, &w, 1e-3);
                    put(o, &y);
                    ok(who, dst::dst3_inplace_stack_fft(&a, &mut y));
                    let r = dst::dst3(&a);
                    let size: f64 = ad.iter().map(|v| v.abs()).sum();
                    close(who, &y, &to_r(&r), 1e-4 * size + 1e-6);
                    put(o, &y);
                }
                4 => {
                    let q = 2.0 * PI / N as f64;
                    let w: Vec<f64> = if j.p[1] % 2 == 0 {
                        window::hamming_inplace_stack(&mut y);
                        (0..N).map(|i| 0.54 - 0.46 * (q * i as f64).cos()).collect()
                    } else {
                        window::blackman_inplace_stack(&mut y);
                        (0..N).map(|i| 0.42 - 0.5 * (q * i as f64).cos() + 0.08 * (2.0 * q * i as f64).cos()).collect()
                    };
                    close(who, &y, &w, 1e-5);
                    put(o, &y);
                }
                _ => {
                    window::hann_inplace_stack(&mut y);
                    close(who, &y, &(0..N).map(|i| 0.5 - 0.5 * (2.0 * PI * i as f64 / N as f64).cos()).collect::<Vec<_>>(), 1e-5);
                    let mut l = [0.0f32; N / 2];
                    let mut h = [0.0f32; N / 2];
                    wavelet::haar_forward_inplace_stack(&a, &mut l, &mut h);
                    let mut back = [0.0f32; N];
                    wavelet::haar_inverse_inplace_stack::<N>(&l, &h, &mut back);
                    near(who, &back, &ad, 1e-5);
                    put(o, &y);
                    put(o, &back);
                }
            }
        }
    }
    out
}

fn oracle_peak(w: &[f64]) -> f64 {
    w.iter().fold(0.0, |a: f64, b| a.max(b.abs()))
}

#[cfg(feature = "par")]
fn stft_of(par: bool, x: &[f32], w: &[f32], hop: usize, f: &mut [Vec<Complex32>], e: &ScalarFftImpl<f32>) -> Result<(), FftError> {
    if par {
        stft::parallel(x, w, hop, f, e)
    } else {
        stft::stft(x, w, hop, f, e)
    }
}
#[cfg(not(feature = "par"))]
fn stft_of(_: bool, x: &[f32], w: &[f32], hop: usize, f: &mut [Vec<Complex32>], e: &ScalarFftImpl<f32>) -> Result<(), FftError> {
    stft::stft(x, w, hop, f, e)
}

fn n_small() -> usize {
    fit(any_small())
}
fn any_small() -> usize {
    match ctx::w(6) {
        0 => ctx::range(1, 6),
        1 | 2 => 1 << ctx::range(1, 6),
        3 => ctx::range(2, 24),
        4 => ctx::range(2, 70),
        _ if ctx::w(12) == 11 => *ctx::pick(&[256usize, 512, 200]),
        _ => *ctx::pick(&[16usize, 64, 97, 128]),
    }
}

/// Several callers, few lengths and few kinds of request, so that they meet in shared code.
pub fn callers() {
    pool_use();
    let lens: Vec<usize> = (0..ctx::range(1, 3)).map(|_| n_small()).collect();
    let alike = ctx::w(2) == 1;
    let kinds: Vec<usize> = (0..if alike { 1 } else { ctx::range(1, 4) }).map(|_| ctx::w(KINDS as u64)).collect();
    let threads = ctx::range(2, 4);
    let mut plans: Vec<Vec<Job>> = Vec::new();
    // sometimes the parameters are few as well, and the requests short and many: callers that want the same,
    // or almost the same, at the same time
    let alike: Option<Vec<[usize; 3]>> = alike.then(|| {
        let a = [ctx::w(1000), ctx::w(1000), ctx::w(1000)];
        let mut all = vec![a];
        for _ in 0..ctx::range(1, 2) {
            let mut b = a;
            b[*ctx::pick(&[1usize, 1, 2, 0])] = ctx::w(1000);
            all.push(b);
        }
        all
    });
    // nobody waits; everybody waits for everybody first; or before every request
    let gate = ctx::w(4);
    let each = gate == 3 || gate > 0 && alike.is_some();
    let gate = (gate >= 1).then(|| Arc::new(Barrier::new(threads)));
    if each {
        // and they meet right at the start: short turns
        sched::short_turns();
    }
    let turns = if alike.is_some() { ctx::range(2, 14) } else { ctx::range(1, 5) };
    for t in 0..threads {
        let k = if each { turns } else { ctx::range(1, turns) };
        plans.push(
            (0..k)
                .map(|i| {
                    let n = *ctx::pick(&lens);
                    let kind = *ctx::pick(&kinds);
                    let p = match &alike {
                        Some(a) => *ctx::pick(a),
                        None => [ctx::w(1000), ctx::w(1000), ctx::w(1000)],
                    };
                    Job { kind, n, p, x: reals(n), who: format!("caller {t}, request {i}: kind {kind} of length {n} with {p:?}") }
                })
                .collect(),
        );
    }
    let hs: Vec<_> = plans
        .iter()
        .cloned()
        .map(|jobs| {
            let gate = gate.clone();
            std::thread::spawn(move || {
                if let Some(g) = &gate {
                    g.wait();
                }
                jobs.iter()
                    .enumerate()
                    .map(|(i, j)| {
                        if let (true, Some(g)) = (each && i > 0, &gate) {
                            g.wait();
                        }
                        ev!("{}", j.who);
                        let r = run(j);
                        ctx::event_num(r.len() as u64, r.iter().fold(0, |h: u64, v| h.rotate_left(7) ^ v));
                        r
                    })
                    .collect::<Vec<Out>>()
            })
        })
        .collect();
    let got: Vec<Vec<Out>> = hs.into_iter().map(|h| h.join().unwrap()).collect();
    for (jobs, outs) in plans.iter().zip(&got) {
        for (j, o) in jobs.iter().zip(outs) {
            let alone = run(j);
            if &alone != o {
                let at = alone.iter().zip(o).position(|(a, b)| a != b);
                violation!("not-isolated", "{}: the answer among other callers differs from the answer alone (first at word {at:?}; {} and {} words)", j.who, o.len(), alone.len());
            }
            ctx::count("answers compared with the answer alone");
        }
    }
    ctx::nontrivial();
}

/// Objects made and used on one thread, then used on another while their maker goes on with others.
pub fn moved() {
    pool_use();
    let pool: Vec<usize> = (0..ctx::range(1, 3)).map(|_| n_small()).collect();
    let hands = ctx::range(2, 3);
    type Item = (ScalarFftImpl<f32>, ScalarFftImpl<f64>, RfftPlanner<f32>, DctPlanner, DstPlanner<f64>, FftPlan<f32>);
    let mut txs = Vec::new();
    let mut rxs = Vec::new();
    for _ in 0..hands {
        let (a, b) = mpsc::channel::<Item>();
        txs.push(a);
        rxs.push(b);
    }
    let rounds = ctx::range(1, 3);
    let hs: Vec<_> = rxs
        .into_iter()
        .enumerate()
        .map(|(t, rx)| {
            let next = txs[(t + 1) % hands].clone();
            let pool = pool.clone();
            std::thread::spawn(move || {
                let n = *ctx::pick(&pool);
                let mut it: Item =
                    (Default::default(), Default::default(), RfftPlanner::new(), DctPlanner::new(), DstPlanner::new(), FftPlan::new(n, strategy()));
                for r in 0..=rounds {
                    let who = format!("hand {t}, round {r}");
                    for _ in 0..ctx::range(1, 3) {
                        match ctx::w(7) {
                            0 => any_scalar(&who, &it.0, &pool),
                            1 => any_scalar(&who, &it.1, &pool),
                            2 => {
                                let n = (*ctx::pick(&pool) & !1).max(2);
                                let x: Vec<f32> = of_r(&reals(n));
                                let mut y = x.clone();
                                let mut h = vec![Complex32::zero(); n / 2 + 1];
                                let what = format!("{who}: real transform of {n}");
                                ok(&what, it.2.rfft(&it.0, &mut y, &mut h));
                                check(&what, &h, &oracle::rdft(&to_r(&x)), n);
                            }
                            3 => {
                                let n = *ctx::pick(&pool);
                                let mut x: Vec<f32> = of_r(&reals(n));
                                let mut y = vec![0.0; n];
                                let what = format!("{who}: cosine transform of {n}");
                                ok(&what, it.3.plan_dct2(n)(&mut x, &mut y));
                                near(&what, &y, &oracle::dct2(&to_r(&x)), f32::tol(2 * n));
                            }
                            4 => {
                                let n = *ctx::pick(&pool);
                                let w: Vec<f64> = (0..n).map(|i| (PI * (i as f64 + 0.5) / n as f64).sin()).collect();
                                let g = it.4.plan_dst2(n).to_vec();
                                check_re(&format!("{who}: sine factors of {n}"), &g, &w, 1e-12, "f64");
                            }
                            5 => plan_form(&who, &it.5),
                            _ => free_form::<f32>(&who, *ctx::pick(&pool)),
                        }
                    }
                    if r < rounds {
                        let _ = next.send(it);
                        ctx::count("objects moved to another thread");
                        it = match rx.recv() {
                            Ok(v) => v,
                            Err(_) => return,
                        };
                    }
                }
            })
        })
        .collect();
    drop(txs);
    for h in hs {
        h.join().unwrap();
    }
    let _ = S::Work;
    ctx::nontrivial();
}
