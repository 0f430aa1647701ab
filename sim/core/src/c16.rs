//! C16: batches that fail at one item.
use crate::util::*;
use kofft::fft::*;
use kofft::{cepstrum, dct, dst, hartley, wavelet};
use simrt::ctx::{self, S};
use simrt::oracle::{self, C};
use simrt::{ev, violation};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn call<T: Num, F: FftImpl<T>>(kind: usize, e: &F, items: &mut [Vec<Complex<T>>]) -> Result<(), FftError> {
    match kind {
        0 => batch(e, items),
        1 => batch_inverse(e, items),
        2 => multi_channel(e, items),
        _ => multi_channel_inverse(e, items),
    }
}
const NAMES: [&str; 4] = ["batch", "inverse batch", "multi-channel transform", "inverse multi-channel transform"];

fn items<T: Num>(empty_ok: bool) -> Vec<Vec<Complex<T>>> {
    let same_len = ctx::w(3) == 0;
    let many = ctx::w(8) == 7;
    let cap = if many { 24 } else { 300 };
    let n0 = fit(size().min(cap));
    (0..if many { ctx::range(8, 70) } else { ctx::range(0, 7) })
        .map(|_| {
            let n = if empty_ok && ctx::chance(S::Fault, 1, 12) {
                0
            } else if same_len {
                n0
            } else {
                fit(size().min(cap))
            };
            of_c(&cplx(n))
        })
        .collect()
}
fn want(x: &[C], inv: bool) -> Vec<C> {
    if inv {
        oracle::idft(x)
    } else {
        oracle::dft(x)
    }
}

/// Item failures through the engine or through an empty item; the batch is resumed until it is done.
fn failing<T: Num>(e: &FaultFft<T>) {
    let kind = ctx::w(4);
    let inv = kind % 2 == 1;
    let orig = items::<T>(true);
    let wants: Vec<Vec<C>> = orig.iter().map(|x| if x.is_empty() { vec![] } else { want(&to_c(x), inv) }).collect();
    let mut b = orig.clone();
    let mut from = 0;
    let name = NAMES[kind];
    let mut rounds = 0;
    loop {
        rounds += 1;
        let left = b.len() - from;
        let arm = left > 0 && rounds < 6 && ctx::draw(S::Fault, 3) > 0;
        let (mut at, mut err, mut before) = (usize::MAX, FftError::EmptyInput, false);
        if arm {
            let k = ctx::draw(S::Fault, left as u64) as usize;
            let f = draw_fail();
            e.arm(k, f);
            at = from + k;
            (err, before) = match f {
                Fail::Before(x) => (x, true),
                Fail::Scribble(x) | Fail::After(x) => (x, false),
            };
        } else {
            e.disarm();
        }
        // an empty item fails by itself, unless the injected failure comes first
        if let Some(k) = (from..b.len()).find(|k| b[*k].is_empty()) {
            if k < at {
                (at, err, before) = (k, FftError::EmptyInput, true);
            }
        }
        let r = call(kind, e, &mut b[from..]);
        e.disarm();
        let what = format!("{name} of {} items resumed at {from}", orig.len());
        ev!("{what}: {r:?}");
        let done = at.min(b.len());
        for i in 0..done {
            if !orig[i].is_empty() {
                check(&format!("{what}: item {i} (failing item {at})"), &b[i], &wants[i], orig[i].len());
            }
        }
        if at == usize::MAX {
            ok(&what, r);
            break;
        }
        ctx::nontrivial();
        refused(&format!("{what}: item {at} fails"), r, err);
        for i in at + 1..b.len() {
            same(&format!("{what}: item {i} after the failing item {at}"), &bits_c(&b[i]), &bits_c(&orig[i]));
        }
        if before {
            same(&format!("{what}: the failing item {at} itself"), &bits_c(&b[at]), &bits_c(&orig[at]));
        }
        b[at] = orig[at].clone();
        from = at;
        if orig[at].is_empty() {
            from += 1;
        }
        ctx::count("batches resumed");
    }
    for x in &b {
        log_c(x);
    }
}

/// Working engines: each item as a transform of its own.
fn plain<T: Num>(e: &ScalarFftImpl<T>) {
    let kind = ctx::w(4);
    let orig = items::<T>(false);
    let mut b = orig.clone();
    let what = format!("{} of {} items", NAMES[kind], orig.len());
    ok(&what, call(kind, e, &mut b));
    for i in 0..b.len() {
        check(&format!("{what}: item {i}"), &b[i], &want(&to_c(&orig[i]), kind % 2 == 1), orig[i].len());
    }
}

/// A plan accepts one length only, so a batch fails at the first item of another length.
fn planned() {
    let n = fit(size().min(300));
    let p = PlanEngine(FftPlan::<f32>::new(n, strategy()));
    let kind = ctx::w(4);
    let odd = if ctx::draw(S::Fault, 2) == 1 { Some(ctx::range(0, 5)) } else { None };
    let orig: Vec<Vec<Complex<f32>>> = (0..ctx::range(1, 6))
        .map(|i| {
            let m = if Some(i) == odd { *ctx::pick(&[n + 1, n.saturating_sub(1).max(1), 2 * n]) } else { n };
            of_c(&cplx(m))
        })
        .collect();
    let bad = orig.iter().position(|x| x.len() != n);
    let mut b = orig.clone();
    let what = format!("planned {} of {} items of {n} (odd one {bad:?})", NAMES[kind], orig.len());
    let r = call(kind, &p, &mut b);
    match bad {
        None => ok(&what, r),
        Some(_) => {
            ctx::nontrivial();
            refused(&what, r, FftError::MismatchedLengths)
        }
    }
    for i in 0..b.len() {
        if bad.is_none_or(|k| i < k) {
            check(&format!("{what}: item {i}"), &b[i], &want(&to_c(&orig[i]), kind % 2 == 1), n);
        } else {
            same(&format!("{what}: item {i}"), &bits_c(&b[i]), &bits_c(&orig[i]));
        }
    }
}
struct PlanEngine(FftPlan<f32>);
impl FftImpl<f32> for PlanEngine {
    fn fft(&self, x: &mut [Complex<f32>]) -> Result<(), FftError> {
        self.0.fft(x)
    }
    fn ifft(&self, x: &mut [Complex<f32>]) -> Result<(), FftError> {
        self.0.ifft(x)
    }
    fn fft_strided(&self, _: &mut [Complex<f32>], _: usize, _: &mut [Complex<f32>]) -> Result<(), FftError> {
        Err(FftError::InvalidStride)
    }
    fn ifft_strided(&self, _: &mut [Complex<f32>], _: usize, _: &mut [Complex<f32>]) -> Result<(), FftError> {
        Err(FftError::InvalidStride)
    }
    fn fft_out_of_place_strided(&self, _: &[Complex<f32>], _: usize, _: &mut [Complex<f32>], _: usize) -> Result<(), FftError> {
        Err(FftError::InvalidStride)
    }
    fn ifft_out_of_place_strided(&self, _: &[Complex<f32>], _: usize, _: &mut [Complex<f32>], _: usize) -> Result<(), FftError> {
        Err(FftError::InvalidStride)
    }
    fn fft_with_strategy(&self, x: &mut [Complex<f32>], _: FftStrategy) -> Result<(), FftError> {
        self.0.fft(x)
    }
}

/// The arithmetic unwinds somewhere in the batch.
fn abandoned(e: &ScalarFftImpl<Trap>) {
    let kind = ctx::w(4);
    let inv = kind % 2 == 1;
    let orig = items::<Trap>(false);
    if orig.is_empty() {
        return;
    }
    let mut b = orig.clone();
    let total: usize = orig.iter().map(|x| x.len()).sum();
    set_fuse(1 + ctx::draw(S::Fault, 30 * total as u64 + 10));
    let r = catch_unwind(AssertUnwindSafe(|| call(kind, e, &mut b)));
    set_fuse(0);
    let what = format!("{} of {} items abandoned", NAMES[kind], orig.len());
    let wants: Vec<Vec<C>> = orig.iter().map(|x| want(&to_c(x), inv)).collect();
    match r {
        Err(p) if p.is::<Unwound>() => {
            ctx::fault("batch abandoned half way");
            // at most one item is neither finished nor untouched, and the order is kept
            let fin = |i: usize, b: &Vec<Vec<Complex<Trap>>>| oracle::rel(&to_c(&b[i]), &wants[i]) <= Trap::tol(orig[i].len());
            let k = (0..b.len()).find(|i| !fin(*i, &b)).unwrap_or(b.len());
            for i in k + 1..b.len() {
                same(&format!("{what}: item {i} after the abandoned item {k}"), &bits_c(&b[i]), &bits_c(&orig[i]));
            }
            if k < b.len() {
                b[k] = orig[k].clone();
                ok(&format!("{what}, resumed"), call(kind, e, &mut b[k..]));
            }
        }
        Err(p) => std::panic::resume_unwind(p),
        Ok(r) => ok(&what, r),
    }
    for i in 0..b.len() {
        check(&format!("{what}: item {i} in the end"), &b[i], &wants[i], orig[i].len());
    }
}

fn rows() -> Vec<Vec<f32>> {
    let many = ctx::w(8) == 7;
    (0..if many { ctx::range(7, 70) } else { ctx::range(0, 6) })
        .map(|_| {
            let n = match ctx::w(4) {
                _ if many => ctx::range(0, 12),
                0 => ctx::range(0, 4),
                1 => 1 << ctx::range(0, 6),
                _ => ctx::range(1, 50),
            };
            of_r(&reals(n))
        })
        .collect()
}
fn bits2(x: &[Vec<f32>]) -> Vec<Vec<u64>> {
    x.iter().map(|v| bits_r(v)).collect()
}

/// Real batches: each item exactly as on its own, in both directions.
fn real() {
    let orig = rows();
    let (mut b, mut m) = (orig.clone(), orig.clone());
    macro_rules! pair {
        ($name:expr, $one:path, $batch:path, $multi:path) => {{
            $batch(&mut b);
            $multi(&mut m);
            let want: Vec<Vec<f32>> = orig.iter().map(|x| $one(x)).collect();
            same(concat!($name, " batch against single items"), &bits2(&b), &bits2(&want));
            same(concat!($name, " multi-channel against single items"), &bits2(&m), &bits2(&want));
        }};
    }
    let k = ctx::w(15);
    ev!("real batch {k} of {:?}", orig.iter().map(|x| x.len()).collect::<Vec<_>>());
    match k {
        0 => pair!("DCT-I", dct::dct1, dct::batch_i, dct::multi_channel_i),
        1 => pair!("DCT-II", dct::dct2, dct::batch_ii, dct::multi_channel_ii),
        2 => pair!("DCT-III", dct::dct3, dct::batch_iii, dct::multi_channel_iii),
        3 => pair!("DCT-IV", dct::dct4, dct::batch_iv, dct::multi_channel_iv),
        4 => pair!("DST-I", dst::dst1, dst::batch_i, dst::multi_channel_i),
        5 => pair!("DST-II", dst::dst2, dst::batch_ii, dst::multi_channel_ii),
        6 => pair!("DST-III", dst::dst3, dst::batch_iii, dst::multi_channel_iii),
        7 => pair!("DST-IV", dst::dst4, dst::batch_iv, dst::multi_channel_iv),
        8 => pair!("DHT", hartley::dht, hartley::batch, hartley::multi_channel),
        9 | 10 => {
            let (fw, bk): (fn(&[f32]) -> (Vec<f32>, Vec<f32>), fn(&[f32], &[f32]) -> Vec<f32>) =
                if k == 9 { (wavelet::haar_forward, wavelet::haar_inverse) } else { (wavelet::db2_forward, wavelet::db2_inverse) };
            // the reflecting boundary needs at least two samples
            let orig: Vec<Vec<f32>> = orig.into_iter().filter(|x| k == 9 || x.len() > 3).collect();
            let (a, d) = if k == 9 { wavelet::batch_forward(&orig) } else { wavelet::db2_forward_batch(&orig) };
            let one: Vec<_> = orig.iter().map(|x| fw(x)).collect();
            same("wavelet batch averages", &bits2(&a), &one.iter().map(|o| bits_r(&o.0)).collect());
            same("wavelet batch details", &bits2(&d), &one.iter().map(|o| bits_r(&o.1)).collect());
            let back = if k == 9 { wavelet::batch_inverse(&a, &d) } else { wavelet::db2_inverse_batch(&a, &d) };
            same("inverse wavelet batch", &bits2(&back), &a.iter().zip(&d).map(|(a, d)| bits_r(&bk(a, d))).collect());
        }
        11 | 12 => {
            let levels = ctx::range(0, 4);
            let orig: Vec<Vec<f32>> = orig.into_iter().filter(|x| k == 11 || x.len() > 63).collect();
            let fw: fn(&[f32]) -> (Vec<f32>, Vec<f32>) = if k == 11 { wavelet::haar_forward } else { wavelet::db4_forward };
            let bk: fn(&[f32], &[f32]) -> Vec<f32> = if k == 11 { wavelet::haar_inverse } else { wavelet::db4_inverse };
            let (a, d) = wavelet::multi_level_forward_batch(&orig, levels, fw);
            for (i, x) in orig.iter().enumerate() {
                let (oa, od) = wavelet::multi_level_forward(x, levels, fw);
                same("multi-level batch averages", &bits_r(&a[i]), &bits_r(&oa));
                same("multi-level batch details", &bits2(&d[i]), &bits2(&od));
            }
            let back = wavelet::multi_level_inverse_batch(&a, &d, bk);
            if back.len() != orig.len() {
                violation!("wrong-length", "inverse multi-level batch returned {} of {} items", back.len(), orig.len());
            }
            for i in 0..back.len() {
                same("inverse multi-level batch", &bits_r(&back[i]), &bits_r(&wavelet::multi_level_inverse(&a[i], &d[i], bk)));
            }
        }
        _ => {
            let (mel, co) = (ctx::range(1, 12), ctx::range(0, 13));
            let r = cepstrum::mfcc_batch(&orig, 16000.0, mel, co);
            let one: Result<Vec<Vec<f32>>, FftError> = orig.iter().map(|x| cepstrum::mfcc(x, 16000.0, mel, co)).collect();
            match (r, one) {
                (Ok(a), Ok(b)) => same("MFCC batch", &bits2(&a), &bits2(&b)),
                (Err(a), Err(b)) if a == b => ctx::fault("request refused"),
                (a, b) => violation!("wrong-refusal", "MFCC batch {:?}, single items {:?}", a.err(), b.err()),
            }
        }
    }
    ctx::count("real batches checked");
}

pub fn batches() {
    match ctx::w(4) {
        0 => {
            let e = FaultFft::<f32>::default();
            let s = ScalarFftImpl::<f32>::default();
            ctx::repeat(1, 8, 3, |_| match ctx::w(4) {
                0 | 1 => failing(&e),
                2 => plain(&e.inner),
                _ => plain(&s),
            });
        }
        1 => {
            let e = FaultFft::<f64>::default();
            ctx::repeat(1, 8, 3, |_| if ctx::w(3) < 2 { failing(&e) } else { plain(&e.inner) });
        }
        2 => {
            let e = ScalarFftImpl::<Trap>::default();
            ctx::repeat(1, 4, 2, |_| abandoned(&e));
        }
        _ => ctx::repeat(1, 6, 3, |_| if ctx::w(3) == 0 { planned() } else { real() }),
    }
}
