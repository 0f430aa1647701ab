//! Real-input transforms on shared planners over a failing engine.
use crate::util::*;
use kofft::fft::*;
use kofft::rfft::{irfft_packed, rfft_packed, RealFftImpl, RealFftNum, RfftPlanner};
use simrt::ctx::{self, S};
use simrt::ev;
use simrt::oracle;

fn half_size() -> usize {
    fit(any_half())
}
fn any_half() -> usize {
    match ctx::w(6) {
        0 => ctx::range(1, 4),
        1 => ctx::range(1, 20),
        2 | 3 => 1 << ctx::range(0, 9),
        4 => ctx::range(3, 150),
        _ if ctx::w(8) == 7 => *ctx::pick(&[1024usize, 2048, 1000, 4096, ctx::range(600, 3000), 8192, 16500]),
        _ => *ctx::pick(&[48usize, 60, 125, 127, 255, 257, 300, 500, 511]),
    }
}

struct User<T: RealFftNum> {
    planner: RfftPlanner<T>,
    fft: FaultFft<T>,
}

fn step<T: Num + RealFftNum>(who: &str, u: &mut User<T>, pool: &[usize]) {
    let m = if ctx::chance(S::Work, 1, 4) { half_size() } else { *ctx::pick(pool) };
    let n = 2 * m;
    let form = ctx::w(4);
    let inv = ctx::w(2) == 1;
    let fail = ctx::chance(S::Fault, 1, 3);
    let bad = !fail && ctx::chance(S::Work, 1, 5);
    let extra = ctx::w(3);
    let what = format!("{who}: {} form {form} of {n} samples", if inv { "irfft" } else { "rfft" });
    ev!("{what}{}", if fail { " with a failing engine" } else if bad { " refused" } else { "" });
    if bad {
        // wrong sizes and odd lengths are refused with their reason, input untouched
        let kind = ctx::w(4);
        let (nn, hh, sc, want) = match kind {
            0 => (n + 1, m + 1, m + 1, FftError::InvalidValue),
            1 => (0, 1, 1, FftError::EmptyInput),
            2 => (n, if ctx::w(2) == 0 { m } else { m + 2 }, m, FftError::MismatchedLengths),
            _ => (n, m + 1, m - 1, FftError::MismatchedLengths),
        };
        let mut x: Vec<T> = of_r(&reals(nn));
        let mut h: Vec<Complex<T>> = of_c(&cplx(hh));
        let mut s: Vec<Complex<T>> = of_c(&cplx(sc));
        let (kx, kh) = (bits_r(&x), bits_c(&h));
        // a short scratch cannot be given to the forms that bring their own
        let f = if kind == 3 { [0, 2, 3][form.min(2)] } else { form };
        for _ in 0..2 {
            let r = if inv {
                match f {
                    0 => u.planner.irfft_with_scratch(&u.fft, &mut h, &mut x, &mut s),
                    1 => u.planner.irfft(&u.fft, &mut h, &mut x),
                    2 => irfft_packed(&mut u.planner, &u.fft, &mut h, &mut x, &mut s),
                    _ if kind == 3 => u.fft.irfft_with_scratch(&mut h, &mut x, &mut s),
                    _ => u.fft.irfft(&mut h, &mut x),
                }
            } else {
                match f {
                    0 => u.planner.rfft_with_scratch(&u.fft, &mut x, &mut h, &mut s),
                    1 => u.planner.rfft(&u.fft, &mut x, &mut h),
                    2 => rfft_packed(&mut u.planner, &u.fft, &mut x, &mut h, &mut s),
                    _ if kind == 3 => u.fft.rfft_with_scratch(&mut x, &mut h, &mut s),
                    _ => u.fft.rfft(&mut x, &mut h),
                }
            };
            refused(&format!("{what}, wrong sizes {nn}/{hh}/{sc}"), r, want);
            same(&what, &bits_r(&x), &kx);
            same(&what, &bits_c(&h), &kh);
        }
        ctx::fault("request refused");
        return;
    }
    let mut scratch: Vec<Complex<T>> = of_c(&cplx(m + extra));
    if inv {
        let t: Vec<T> = of_r(&reals(n));
        let spec = oracle::rdft(&to_r(&t));
        let mut h: Vec<Complex<T>> = of_c(&spec);
        if ctx::w(2) == 1 {
            // any half spectrum with real end points is fine
            h = of_c(&cplx(m + 1));
            h[0].im = T::zero();
            h[m].im = T::zero();
        }
        let kh = bits_c(&h);
        let want = oracle::irdft(&to_c(&h), n);
        let mut out: Vec<T> = of_r(&reals(n));
        for attempt in 0..2 {
            let failing = fail && attempt == 0;
            if failing {
                u.fft.arm(0, draw_fail());
            } else {
                u.fft.disarm();
            }
            let r = match form {
                0 => u.planner.irfft_with_scratch(&u.fft, &mut h, &mut out, &mut scratch),
                1 => u.planner.irfft(&u.fft, &mut h, &mut out),
                2 => irfft_packed(&mut u.planner, &u.fft, &mut h, &mut out, &mut scratch),
                _ => u.fft.irfft(&mut h, &mut out),
            };
            same(&format!("{what}: input spectrum"), &bits_c(&h), &kh);
            if let Some(e) = u.fft.failed.get() {
                refused(&format!("{what}, engine failing"), r, e);
                u.fft.disarm();
                if ctx::w(2) == 0 {
                    break;
                }
            } else {
                ok(&what, r);
                let scale = want.iter().fold(0.0f64, |a, b| a.max(b.abs()));
                let _ = scale;
                check_re(&what, &to_r(&out), &want, T::tol(n), T::NAME);
                break;
            }
        }
    } else {
        let mut x: Vec<T> = of_r(&reals(n));
        let kx = bits_r(&x);
        let want = oracle::rdft(&to_r(&x));
        let mut out: Vec<Complex<T>> = of_c(&cplx(m + 1));
        for attempt in 0..2 {
            let failing = fail && attempt == 0;
            if failing {
                u.fft.arm(0, draw_fail());
            } else {
                u.fft.disarm();
            }
            let r = match form {
                0 => u.planner.rfft_with_scratch(&u.fft, &mut x, &mut out, &mut scratch),
                1 => u.planner.rfft(&u.fft, &mut x, &mut out),
                2 => rfft_packed(&mut u.planner, &u.fft, &mut x, &mut out, &mut scratch),
                _ => u.fft.rfft(&mut x, &mut out),
            };
            same(&format!("{what}: input samples"), &bits_r(&x), &kx);
            if let Some(e) = u.fft.failed.get() {
                refused(&format!("{what}, engine failing"), r, e);
                u.fft.disarm();
                if ctx::w(2) == 0 {
                    break;
                }
            } else {
                ok(&what, r);
                check(&what, &out, &want, n);
                log_c(&out);
                break;
            }
        }
    }
    ctx::count("real transforms attempted");
}

pub fn history() {
    pool_use();
    spoil_some();
    let pool: Vec<usize> = (0..ctx::range(1, 3)).map(|_| half_size()).collect();
    let mut a = User::<f32> { planner: RfftPlanner::new(), fft: FaultFft::default() };
    let mut b = User::<f64> { planner: RfftPlanner::new(), fft: FaultFft::default() };
    let mut k = 0;
    ctx::repeat(1, 32, 9, |_| {
        k += 1;
        if k > 1 {
            ctx::nontrivial();
        }
        // the same engine is also used directly in between
        match ctx::w(8) {
            0..=3 => step("single", &mut a, &pool),
            4..=6 => step("double", &mut b, &pool),
            _ => {
                let n = *ctx::pick(&pool);
                if ctx::w(2) == 0 {
                    crate::forms::trait_form("single engine directly", &a.fft.inner, n)
                } else {
                    crate::forms::trait_form("double engine directly", &b.fft.inner, n)
                }
            }
        }
    });
}
