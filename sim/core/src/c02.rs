//! Refused and abandoned calls.
use crate::forms::*;
use crate::util::*;
use kofft::fft::*;
use simrt::ctx::{self, S};
use simrt::{ev, violation};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn buf<T: Num>(n: usize) -> Vec<Complex<T>> {
    of_c(&cplx(n))
}

/// Issues one call that must be refused; checks reason and untouched data; repeats it.
fn refuse<T: Num>(who: &str, e: &dyn FftImpl<T>, pool: &[usize]) {
    if cfg!(feature = "bare") && ctx::w(4) == 0 {
        return refuse_odd(who, e);
    }
    let kind = ctx::w(9);
    let inv = ctx::w(2) == 1;
    let n = from_pool(pool);
    let times = ctx::range(1, 2);
    let dir = if inv { "inverse " } else { "" };
    match kind {
        0 => {
            for _ in 0..times {
                let mut b: Vec<Complex<T>> = vec![];
                refused(&format!("{who}: {dir}transform of nothing"), if inv { e.ifft(&mut b) } else { e.fft(&mut b) }, FftError::EmptyInput);
                refused(&format!("{who}: strategy transform of nothing"), e.fft_with_strategy(&mut b, strategy()), FftError::EmptyInput);
            }
        }
        1 => {
            // output of another length
            let m = loop_other(n);
            let src = buf::<T>(n);
            let mut out = buf::<T>(m);
            let (a, b) = (src.clone(), out.clone());
            for _ in 0..times {
                let what = format!("{who}: {dir}out-of-place {n} into {m}");
                refused(&what, if inv { e.ifft_out_of_place(&src, &mut out) } else { e.fft_out_of_place(&src, &mut out) }, FftError::MismatchedLengths);
                same(&what, &bits_c(&src), &bits_c(&a));
                same(&what, &bits_c(&out), &bits_c(&b));
            }
        }
        2 => {
            let mut x = buf::<T>(n);
            let keep = x.clone();
            let mut s = buf::<T>(n);
            for _ in 0..times {
                let what = format!("{who}: {dir}strided with stride 0, length {n}");
                refused(&what, if inv { e.ifft_strided(&mut x, 0, &mut s) } else { e.fft_strided(&mut x, 0, &mut s) }, FftError::InvalidStride);
                refused(&what, if inv { e.ifft_strided_alloc(&mut x, 0) } else { e.fft_strided_alloc(&mut x, 0) }, FftError::InvalidStride);
                same(&what, &bits_c(&x), &bits_c(&keep));
            }
        }
        3 => {
            // scratch asks for more elements than the data holds
            let k = ctx::range(2, 40);
            let stride = match ctx::w(4) {
                0 => usize::MAX,
                1 => usize::MAX / k + 1 + ctx::w(3),
                2 => 1 << 63,
                _ => 1 + ctx::w(5),
            };
            let full = (k - 1).checked_mul(stride).and_then(|v| v.checked_add(1));
            let len = match full {
                Some(f) if f <= 100_000 => f - 1 - ctx::w((f - 1).min(3) as u64).min(f - 1),
                _ => n,
            };
            let mut x = buf::<T>(len);
            let keep = x.clone();
            let mut s = buf::<T>(k);
            for _ in 0..times {
                let what = format!("{who}: {dir}strided, {k} elements at stride {stride} of {len}");
                refused(&what, if inv { e.ifft_strided(&mut x, stride, &mut s) } else { e.fft_strided(&mut x, stride, &mut s) }, FftError::MismatchedLengths);
                same(&what, &bits_c(&x), &bits_c(&keep));
            }
        }
        4 => {
            // nothing requested: allowed, changes nothing
            let mut x = buf::<T>(n);
            let keep = x.clone();
            let what = format!("{who}: {dir}strided over no elements");
            ok(&what, if inv { e.ifft_strided(&mut x, 1 + ctx::w(5), &mut []) } else { e.fft_strided(&mut x, 1 + ctx::w(5), &mut []) });
            ok(&what, if inv { e.ifft_strided_alloc(&mut x, n + 1 + ctx::w(9)) } else { e.fft_strided_alloc(&mut x, n + 1 + ctx::w(9)) });
            same(&what, &bits_c(&x), &bits_c(&keep));
        }
        5 => {
            // strides of the out-of-place form
            let (a, b) = (1 + ctx::w(3), 1 + ctx::w(3));
            let bad = ctx::w(4);
            let (sa, so, la, lo) = match bad {
                0 => (0, b, n * a, n * b),
                1 => (a, 0, n * a, n * b),
                2 => (a + 1, b, n * (a + 1) + 1 + ctx::w(a as u64), n * b),
                _ => (a, b + 1, n * a, n * (b + 1) + 1 + ctx::w(b as u64)),
            };
            let src = buf::<T>(la);
            let mut out = buf::<T>(lo);
            let (k1, k2) = (src.clone(), out.clone());
            for _ in 0..times {
                let what = format!("{who}: {dir}out-of-place strided {la}/{sa} into {lo}/{so}");
                refused(
                    &what,
                    if inv { e.ifft_out_of_place_strided(&src, sa, &mut out, so) } else { e.fft_out_of_place_strided(&src, sa, &mut out, so) },
                    FftError::InvalidStride,
                );
                same(&what, &bits_c(&src), &bits_c(&k1));
                same(&what, &bits_c(&out), &bits_c(&k2));
            }
        }
        6 => {
            let (a, b) = (1 + ctx::w(3), 1 + ctx::w(3));
            let m = loop_other(n);
            let src = buf::<T>(n * a);
            let mut out = buf::<T>(m * b);
            let (k1, k2) = (src.clone(), out.clone());
            for _ in 0..times {
                let what = format!("{who}: {dir}out-of-place strided {n} elements into {m}");
                refused(
                    &what,
                    if inv { e.ifft_out_of_place_strided(&src, a, &mut out, b) } else { e.fft_out_of_place_strided(&src, a, &mut out, b) },
                    FftError::MismatchedLengths,
                );
                same(&what, &bits_c(&src), &bits_c(&k1));
                same(&what, &bits_c(&out), &bits_c(&k2));
            }
        }
        7 => {
            let what = format!("{who}: {dir}out-of-place strided over nothing");
            let mut out: Vec<Complex<T>> = vec![];
            for _ in 0..times {
                refused(
                    &what,
                    if inv { e.ifft_out_of_place_strided(&[], 1 + ctx::w(3), &mut out, 1 + ctx::w(3)) } else { e.fft_out_of_place_strided(&[], 1 + ctx::w(3), &mut out, 1 + ctx::w(3)) },
                    FftError::EmptyInput,
                );
                refused(&what, if inv { e.ifft_out_of_place(&[], &mut out) } else { e.fft_out_of_place(&[], &mut out) }, FftError::EmptyInput);
            }
        }
        _ => {
            let m = if ctx::w(4) == 0 { 0 } else { loop_other(n) };
            let (nn, want) = if ctx::w(4) == 0 { (0, FftError::EmptyInput) } else { (n, FftError::MismatchedLengths) };
            let m = if nn == 0 { 0 } else { m };
            let mut re: Vec<T> = of_r(&reals(nn));
            let mut im: Vec<T> = of_r(&reals(m));
            let (k1, k2) = (re.clone(), im.clone());
            for _ in 0..times {
                let what = format!("{who}: {dir}split with {nn} real and {m} imaginary parts");
                refused(&what, if inv { e.ifft_split(&mut re, &mut im) } else { e.fft_split(&mut re, &mut im) }, want);
                same(&what, &bits_r(&re), &bits_r(&k1));
                same(&what, &bits_r(&im), &bits_r(&k2));
            }
        }
    }
    ctx::fault("call refused");
}
/// Without std only powers of two can be transformed; any other length is refused in every form.
fn refuse_odd<T: Num>(who: &str, e: &dyn FftImpl<T>) {
    let mut n = any_size().max(3);
    if n.is_power_of_two() {
        n += 1;
    }
    let inv = ctx::w(2) == 1;
    let what = format!("{who}: {}transform of length {n} without std", if inv { "inverse " } else { "" });
    let x = buf::<T>(n);
    let mut b = x.clone();
    let (sa, so) = (1 + ctx::w(3), 1 + ctx::w(3));
    let src = buf::<T>(n * sa);
    let (mut strided, mut out) = (src.clone(), buf::<T>(n * so));
    let keep = out.clone();
    let mut s = buf::<T>(n);
    let (mut re, mut im): (Vec<T>, Vec<T>) = x.iter().map(|c| (c.re, c.im)).unzip();
    let (kre, kim) = (bits_r(&re), bits_r(&im));
    let form = ctx::w(7);
    let what = format!("{what}, form {form}");
    let r = match form {
        0 => if inv { e.ifft(&mut b) } else { e.fft(&mut b) },
        1 => if inv { e.ifft_split(&mut re, &mut im) } else { e.fft_split(&mut re, &mut im) },
        2 => if inv { e.ifft_strided(&mut strided, sa, &mut s) } else { e.fft_strided(&mut strided, sa, &mut s) },
        3 => if inv { e.ifft_strided_alloc(&mut strided, sa) } else { e.fft_strided_alloc(&mut strided, sa) },
        4 => if inv { e.ifft_out_of_place_strided(&src, sa, &mut out, so) } else { e.fft_out_of_place_strided(&src, sa, &mut out, so) },
        5 => if inv { e.ifft_out_of_place(&x, &mut out[..n]) } else { e.fft_out_of_place(&x, &mut out[..n]) },
        _ => e.fft_with_strategy(&mut b, *ctx::pick(&[FftStrategy::Auto, FftStrategy::Radix2, FftStrategy::Radix4])),
    };
    refused(&what, r, FftError::NonPowerOfTwoNoStd);
    same(&what, &bits_c(&b), &bits_c(&x));
    same(&what, &bits_c(&strided), &bits_c(&src));
    same(&what, &bits_c(&out), &bits_c(&keep));
    same(&what, &bits_r(&re), &kre);
    same(&what, &bits_r(&im), &kim);
    ctx::fault("call refused");
}
fn loop_other(n: usize) -> usize {
    let m = match ctx::w(4) {
        0 => n + 1,
        1 => n.saturating_sub(1),
        2 => n * 2,
        _ => from_pool(&[n + 3]),
    };
    if m == n {
        n + 1
    } else {
        m
    }
}

fn refuse_scalar<T: Num>(who: &str, e: &ScalarFftImpl<T>) {
    let mut b: Vec<Complex<T>> = vec![];
    let r = match ctx::w(4) {
        0 => e.stockham_fft(&mut b),
        1 => e.fft_radix4(&mut b),
        2 => e.fft_vec(&b).map(|_| ()),
        _ => e.ifft_vec(&b).map(|_| ()),
    };
    refused(&format!("{who}: transform of nothing"), r, FftError::EmptyInput);
    ctx::fault("call refused");
}
fn refuse_scalar32(who: &str, e: &ScalarFftImpl<f32>) {
    let mut b: Vec<Complex<f32>> = vec![];
    let tw = TwiddleFactorBuffer::new(ctx::range(2, 16));
    let r = match ctx::w(4) {
        0 => e.fft_mixed_radix(&mut b),
        1 => e.fft_radix2_with_twiddles(&mut b, &tw),
        2 => e.fft_radix4_with_twiddles(&mut b, &tw),
        _ => e.fft_mixed_radix_with_twiddles(&mut b, &tw),
    };
    refused(&format!("{who}: f32 transform of nothing"), r, FftError::EmptyInput);
    ctx::fault("call refused");
}

fn refuse_plan<T: Num>(who: &str, p: &FftPlan<T>) {
    let n = p.n;
    let m = match ctx::w(4) {
        0 => 0,
        _ => loop_other(n),
    };
    let inv = ctx::w(2) == 1;
    let what = format!("{who}: plan of {n}{}", if inv { " inverse" } else { "" });
    match ctx::w(3) {
        0 => {
            let mut b = buf::<T>(m);
            let k = b.clone();
            for _ in 0..2 {
                refused(&what, if inv { p.ifft(&mut b) } else { p.fft(&mut b) }, FftError::MismatchedLengths);
            }
            same(&what, &bits_c(&b), &bits_c(&k));
        }
        1 => {
            let (a, b) = *ctx::pick(&[(m, n), (n, m), (m, m)]);
            let src = buf::<T>(a);
            let mut out = buf::<T>(b);
            let (k1, k2) = (src.clone(), out.clone());
            refused(&what, if inv { p.ifft_out_of_place(&src, &mut out) } else { p.fft_out_of_place(&src, &mut out) }, FftError::MismatchedLengths);
            same(&what, &bits_c(&src), &bits_c(&k1));
            same(&what, &bits_c(&out), &bits_c(&k2));
        }
        _ => {
            let (a, b) = *ctx::pick(&[(m, n), (n, m), (m, m)]);
            let mut re: Vec<T> = of_r(&reals(a));
            let mut im: Vec<T> = of_r(&reals(b));
            let (k1, k2) = (re.clone(), im.clone());
            refused(&what, if inv { p.ifft_split(&mut re, &mut im) } else { p.fft_split(&mut re, &mut im) }, FftError::MismatchedLengths);
            same(&what, &bits_r(&re), &bits_r(&k1));
            same(&what, &bits_r(&im), &bits_r(&k2));
        }
    }
    ctx::fault("call refused");
}

/// Refused calls mixed with good ones on the same objects.
pub fn refusals() {
    pool_use();
    let pool: Vec<usize> = size_pool();
    let a = ScalarFftImpl::<f32>::default();
    let b = ScalarFftImpl::<f64>::default();
    let d = new_fft_impl();
    let t = ScalarFftImpl::<Trap>::default();
    let p = FftPlan::<f32>::new(from_pool(&pool), strategy());
    let q = FftPlan::<f64>::new(from_pool(&pool), strategy());
    ctx::repeat(1, 30, 9, |_| {
        let bad = ctx::w(2) == 1;
        match ctx::w(6) {
            0 if bad => match ctx::w(4) {
                0 => refuse_scalar("single", &a),
                1 => refuse_scalar32("single", &a),
                _ => refuse::<f32>("single", &a, &pool),
            },
            0 if ctx::chance(S::Work, 1, 4) => scalar32_form("single", &a, from_pool(&pool)),
            0 => any_scalar("single", &a, &pool),
            1 if bad && ctx::w(4) == 0 => refuse_scalar("double", &b),
            1 if bad => refuse::<f64>("double", &b, &pool),
            1 => any_scalar("double", &b, &pool),
            2 if bad => refuse::<f32>("boxed", d.as_ref(), &pool),
            2 => trait_form("boxed", d.as_ref(), from_pool(&pool)),
            3 if bad => refuse::<Trap>("user float", &t, &pool),
            3 => any_scalar("user float", &t, &pool),
            4 if bad => refuse_plan("plan32", &p),
            4 => plan_form("plan32", &p),
            _ if bad => refuse_plan("plan64", &q),
            _ => plan_form("plan64", &q),
        }
    });
}

/// Calls abandoned by an unwinding arithmetic type at any operation; later calls must be right.
pub fn abandoned() {
    pool_use();
    let pool: Vec<usize> = size_pool().into_iter().map(|n| fit(n.min(600))).collect();
    let e = ScalarFftImpl::<Trap>::default();
    let p = FftPlan::<Trap>::new(fit(from_pool(&pool).min(600)), strategy());
    let use_plan = ctx::w(3) == 2;
    ctx::repeat(1, 24, 7, |i| {
        let abandon = ctx::chance(S::Fault, 1, 2);
        if abandon {
            // where to stop: early, or anywhere up to a bit past the end
            let at = match ctx::draw(S::Fault, 4) {
                0 => 1 + ctx::draw(S::Fault, 4),
                1 => 1 + ctx::draw(S::Fault, 64),
                2 => 1 + ctx::draw(S::Fault, 2048),
                _ => 1 + ctx::draw(S::Fault, 60_000),
            };
            let n = if use_plan { p.n } else { fit(from_pool(&pool).min(600)) };
            let mut x = buf::<Trap>(n);
            let (kind, inv, st) = (ctx::w(7), ctx::w(2) == 1, strategy());
            let stride = 1 + ctx::w(3);
            ev!("call {i}: fuse {at}, kind {kind}, length {n}");
            set_fuse(at);
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut sp: (Vec<Trap>, Vec<Trap>) = x.iter().map(|c| (c.re, c.im)).unzip();
                if use_plan {
                    return match kind {
                        0 | 1 => p.fft(&mut x),
                        2 | 3 => p.ifft(&mut x),
                        4 => p.fft_split(&mut sp.0, &mut sp.1),
                        _ => p.ifft_split(&mut sp.0, &mut sp.1),
                    };
                }
                let mut big: Vec<Complex<Trap>> = vec![Complex::zero(); n * stride];
                for (k, v) in x.iter().enumerate() {
                    big[k * stride] = *v;
                }
                match (kind, inv) {
                    (0, false) => e.fft(&mut x),
                    (0, true) => e.ifft(&mut x),
                    (1, false) => e.fft_split(&mut sp.0, &mut sp.1),
                    (1, true) => e.ifft_split(&mut sp.0, &mut sp.1),
                    (2, false) => e.fft_strided_alloc(&mut big, stride),
                    (2, true) => e.ifft_strided_alloc(&mut big, stride),
                    (3, false) => e.fft_out_of_place_strided(&big, stride, &mut x, 1),
                    (3, true) => e.ifft_out_of_place_strided(&big, stride, &mut x, 1),
                    (4, _) => e.fft_with_strategy(&mut x, st),
                    (5, _) => e.fft_radix4(&mut x),
                    _ => e.stockham_fft(&mut x),
                }
            }));
            set_fuse(0);
            match r {
                Err(b) if b.is::<Unwound>() => ctx::fault("call abandoned by unwinding arithmetic"),
                Err(b) => {
                    let m = b.downcast_ref::<String>().cloned().or_else(|| b.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    violation!("panic", "call after an abandoned one panicked: {m}")
                }
                Ok(r) => ok("call with unwinding arithmetic that was not reached", r),
            }
        } else if use_plan {
            plan_form("plan after abandoned calls", &p);
        } else {
            any_scalar("engine after abandoned calls", &e, &pool.iter().map(|n| fit((*n).min(600))).collect::<Vec<_>>());
        }
    });
    // afterwards the object still works for every length it has seen
    for n in pool {
        let mut x = case::<Trap>(n);
        ok("final transform", e.fft(&mut x.buf));
        check("final transform after abandoned calls", &x.buf, &simrt::oracle::dft(&x.x), n);
    }
}
