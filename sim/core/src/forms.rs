//! Every calling form of the complex transform, run once against the reference and checked.
use crate::util::*;
use kofft::fft::*;
use kofft::num::Float;
use simrt::ctx::{self, S};
use simrt::ev;
use simrt::oracle::{self, C};

pub struct Case<T: Num> {
    pub x: Vec<C>,
    pub buf: Vec<Complex<T>>,
}

/// Data as the transform sees it (rounded to T) together with the reference result.
pub fn case<T: Num>(n: usize) -> Case<T> {
    let x = cplx(n);
    let buf: Vec<Complex<T>> = of_c(&x);
    Case { x: to_c(&buf), buf }
}
fn want(x: &[C], inv: bool) -> Vec<C> {
    if inv {
        oracle::idft(x)
    } else {
        oracle::dft(x)
    }
}
/// The value put between strided elements; must survive.
fn gap<T: Num>(i: usize) -> Complex<T> {
    Complex::new(T::of(1000.0 + i as f64), T::of(-(i as f64)))
}

/// Forms every engine has.
pub const TRAIT_FORMS: usize = 8;
pub fn trait_form<T: Num>(who: &str, e: &dyn FftImpl<T>, n: usize) {
    let form = ctx::w(TRAIT_FORMS as u64);
    let inv = ctx::w(2) == 1;
    let c = case::<T>(n);
    let w = want(&c.x, inv);
    let nm = |f: &str| format!("{who}: {}{f} of length {n}", if inv { "inverse " } else { "" });
    ev!("{who} form {form} inv {inv} n {n}");
    match form {
        0 => {
            let mut b = c.buf.clone();
            ok(&nm("fft"), if inv { e.ifft(&mut b) } else { e.fft(&mut b) });
            check(&nm("fft"), &b, &w, n);
            log_c(&b);
        }
        1 => {
            let src = c.buf.clone();
            let mut out: Vec<Complex<T>> = (0..n).map(gap).collect();
            ok(&nm("out-of-place fft"), if inv { e.ifft_out_of_place(&src, &mut out) } else { e.fft_out_of_place(&src, &mut out) });
            same(&nm("out-of-place fft input"), &bits_c(&src), &bits_c(&c.buf));
            check(&nm("out-of-place fft"), &out, &w, n);
            log_c(&out);
        }
        2 | 3 => {
            // strided in place, scratch supplied or allocated inside
            let stride = 1 + ctx::w(4);
            let alloc = form == 3;
            // the allocating form derives the count from the length
            let extra = if alloc { ctx::w(stride as u64) } else { ctx::w(3) };
            let len = if alloc { n * stride + extra } else { (n - 1) * stride + 1 + extra };
            let mut b: Vec<Complex<T>> = (0..len).map(gap).collect();
            for i in 0..n {
                b[i * stride] = c.buf[i];
            }
            let before = b.clone();
            let what = nm(&format!("{}strided fft (stride {stride}, {len} values)", if alloc { "allocating " } else { "" }));
            let r = if alloc {
                if inv {
                    e.ifft_strided_alloc(&mut b, stride)
                } else {
                    e.fft_strided_alloc(&mut b, stride)
                }
            } else {
                let mut s: Vec<Complex<T>> = (0..n).map(gap).collect();
                if inv {
                    e.ifft_strided(&mut b, stride, &mut s)
                } else {
                    e.fft_strided(&mut b, stride, &mut s)
                }
            };
            ok(&what, r);
            let got: Vec<Complex<T>> = (0..n).map(|i| b[i * stride]).collect();
            check(&what, &got, &w, n);
            for i in 0..len {
                if i % stride != 0 || i / stride >= n {
                    same(&format!("{what} element {i} between the strides"), &bits_c(&b[i..i + 1]), &bits_c(&before[i..i + 1]));
                }
            }
            log_c(&got);
        }
        4 => {
            let (a, o) = (1 + ctx::w(4), 1 + ctx::w(4));
            let mut src: Vec<Complex<T>> = (0..n * a).map(gap).collect();
            for i in 0..n {
                src[i * a] = c.buf[i];
            }
            let keep = src.clone();
            let mut out: Vec<Complex<T>> = (0..n * o).map(|i| gap(i + 7)).collect();
            let before = out.clone();
            let what = nm(&format!("out-of-place strided fft ({a} to {o})"));
            ok(&what, if inv { e.ifft_out_of_place_strided(&src, a, &mut out, o) } else { e.fft_out_of_place_strided(&src, a, &mut out, o) });
            same(&format!("{what} input"), &bits_c(&src), &bits_c(&keep));
            let got: Vec<Complex<T>> = (0..n).map(|i| out[i * o]).collect();
            check(&what, &got, &w, n);
            for i in 0..n * o {
                if i % o != 0 {
                    same(&format!("{what} output gap {i}"), &bits_c(&out[i..i + 1]), &bits_c(&before[i..i + 1]));
                }
            }
            log_c(&got);
        }
        5 => {
            let s = strategy();
            let w = oracle::dft(&c.x);
            let mut b = c.buf.clone();
            let what = format!("{who}: fft_with_strategy {s:?} of length {n}");
            ok(&what, e.fft_with_strategy(&mut b, s));
            check(&what, &b, &w, n);
            log_c(&b);
        }
        _ => {
            let mut re: Vec<T> = c.buf.iter().map(|v| v.re).collect();
            let mut im: Vec<T> = c.buf.iter().map(|v| v.im).collect();
            let what = nm("split fft");
            ok(&what, if inv { e.ifft_split(&mut re, &mut im) } else { e.fft_split(&mut re, &mut im) });
            let got: Vec<Complex<T>> = re.iter().zip(&im).map(|(a, b)| Complex::new(*a, *b)).collect();
            check(&what, &got, &w, n);
            log_c(&got);
        }
    }
}

/// Forms only the scalar engine has.
pub fn scalar_form<T: Num>(who: &str, e: &ScalarFftImpl<T>, n: usize) {
    let form = ctx::w(5);
    let c = case::<T>(n);
    ev!("{who} scalar form {form} n {n}");
    let mut b = c.buf.clone();
    let (name, r, inv) = match form {
        0 => ("stockham_fft", e.stockham_fft(&mut b), false),
        1 => ("fft_radix4", e.fft_radix4(&mut b), false),
        2 => {
            let r = e.fft_vec(&c.buf).map(|v| b = v);
            ("fft_vec", r, false)
        }
        3 => {
            let r = e.ifft_vec(&c.buf).map(|v| b = v);
            ("ifft_vec", r, true)
        }
        _ => ("fft", e.fft(&mut b), false),
    };
    let what = format!("{who}: {name} of length {n}");
    ok(&what, r);
    check(&what, &b, &want(&c.x, inv), n);
    log_c(&b);
}

/// Single-precision extras of the scalar engine.
pub fn scalar32_form(who: &str, e: &ScalarFftImpl<f32>, n: usize) {
    let form = ctx::w(4);
    let c = case::<f32>(n);
    // the table may belong to any length: it is only a cache
    let tn = if ctx::chance(S::Work, 1, 3) { size().max(2) } else { n };
    let tw = TwiddleFactorBuffer::new(tn);
    ev!("{who} f32 form {form} n {n} table {tn}");
    let mut b = c.buf.clone();
    let (name, r) = match form {
        0 => ("fft_mixed_radix", e.fft_mixed_radix(&mut b)),
        1 => ("fft_radix2_with_twiddles", e.fft_radix2_with_twiddles(&mut b, &TwiddleFactorBuffer::new(n))),
        2 => ("fft_radix4_with_twiddles", e.fft_radix4_with_twiddles(&mut b, &TwiddleFactorBuffer::new(n))),
        _ => ("fft_mixed_radix_with_twiddles", e.fft_mixed_radix_with_twiddles(&mut b, &TwiddleFactorBuffer::new(n))),
    };
    let _ = tw;
    let what = format!("{who}: {name} of length {n}");
    ok(&what, r);
    check(&what, &b, &oracle::dft(&c.x), n);
    log_c(&b);
}

pub fn plan_form<T: Num>(who: &str, p: &FftPlan<T>) {
    let n = p.n;
    let form = ctx::w(3);
    let inv = ctx::w(2) == 1;
    let c = case::<T>(n);
    let w = want(&c.x, inv);
    let what = format!("{who}: {:?} plan form {form}{} of length {n}", p.strategy, if inv { " inverse" } else { "" });
    ev!("{what}");
    let got = match form {
        0 => {
            let mut b = c.buf.clone();
            ok(&what, if inv { p.ifft(&mut b) } else { p.fft(&mut b) });
            b
        }
        1 => {
            let src = c.buf.clone();
            let mut out: Vec<Complex<T>> = (0..n).map(gap).collect();
            ok(&what, if inv { p.ifft_out_of_place(&src, &mut out) } else { p.fft_out_of_place(&src, &mut out) });
            same(&format!("{what} input"), &bits_c(&src), &bits_c(&c.buf));
            out
        }
        _ => {
            let mut re: Vec<T> = c.buf.iter().map(|v| v.re).collect();
            let mut im: Vec<T> = c.buf.iter().map(|v| v.im).collect();
            ok(&what, if inv { p.ifft_split(&mut re, &mut im) } else { p.fft_split(&mut re, &mut im) });
            re.iter().zip(&im).map(|(a, b)| Complex::new(*a, *b)).collect()
        }
    };
    check(&what, &got, &w, n);
    log_c(&got);
}

#[cfg(feature = "par")]
pub fn complex_vec_form(who: &str, p: Option<&FftPlan<f32>>, n: usize) {
    use kofft::num::ComplexVec;
    let inv = ctx::w(2) == 1;
    let c = case::<f32>(n);
    let mut v = match ctx::w(3) {
        0 => ComplexVec::from_complex_vec(&c.buf),
        1 => ComplexVec::from(c.buf.clone()),
        _ => ComplexVec::new(c.buf.iter().map(|z| z.re).collect(), c.buf.iter().map(|z| z.im).collect()),
    };
    same(&format!("{who}: conversion to a complex vector"), &bits_c(&v.to_complex_vec()), &bits_c(&c.buf));
    let what = format!("{who}: complex vector transform{} of length {n}", if inv { " inverse" } else { "" });
    ev!("{what}");
    let r = match (p, inv) {
        (Some(p), false) => p.fft_complex_vec(&mut v),
        (Some(p), true) => p.ifft_complex_vec(&mut v),
        (None, false) => fft_complex_vec(&mut v),
        (None, true) => ifft_complex_vec(&mut v),
    };
    ok(&what, r);
    let parts: Vec<Complex<f32>> = {
        let (re, im) = v.as_slices();
        re.iter().zip(im).map(|(a, b)| Complex::new(*a, *b)).collect()
    };
    let got = if ctx::w(2) == 0 { v.to_complex_vec() } else { Vec::from(v) };
    same(&format!("{what}: conversion back"), &bits_c(&parts), &bits_c(&got));
    check(&what, &got, &want(&c.x, inv), n);
    log_c(&got);
}

/// Free functions that create their own engine.
pub fn free_form<T: Num>(who: &str, n: usize) {
    let form = ctx::w(4);
    let inv = ctx::w(2) == 1;
    let c = case::<T>(n);
    let what = format!("{who}: free function {form}{} of length {n}", if inv { " inverse" } else { "" });
    ev!("{what}");
    let mut b = c.buf.clone();
    match form {
        0 => ok(&what, if inv { ifft_parallel(&mut b) } else { fft_parallel(&mut b) }),
        3 => {
            // the conversion helpers around the split form
            let mut re: Vec<T> = vec![T::of(7.0); n];
            let mut im: Vec<T> = vec![T::of(-7.0); n];
            let s = SplitComplex::copy_from_complex(&c.buf, &mut re, &mut im);
            let mut copy: Vec<Complex<T>> = (0..n).map(gap).collect();
            s.copy_to_complex(&mut copy);
            same(&format!("{what}: conversion and back"), &bits_c(&copy), &bits_c(&c.buf));
            ok(&what, if inv { ifft_split_complex(s) } else { fft_split_complex(s) });
            copy_to_complex(&re, &im, &mut b);
        }
        f => {
            let mut re: Vec<T> = c.buf.iter().map(|v| v.re).collect();
            let mut im: Vec<T> = c.buf.iter().map(|v| v.im).collect();
            let r = match (f, inv) {
                (1, false) => fft_split(&mut re, &mut im),
                (1, true) => ifft_split(&mut re, &mut im),
                (_, false) => fft_split_complex(SplitComplex::new(&mut re, &mut im)),
                (_, true) => ifft_split_complex(SplitComplex::new(&mut re, &mut im)),
            };
            ok(&what, r);
            for (i, v) in b.iter_mut().enumerate() {
                *v = Complex::new(re[i], im[i]);
            }
        }
    }
    check(&what, &b, &want(&c.x, inv), n);
    log_c(&b);
}

/// Batch over several lengths on one engine.
pub fn batch_form<T: Num>(who: &str, e: &ScalarFftImpl<T>, pool: &[usize]) {
    let k = ctx::range(1, 4);
    let inv = ctx::w(2) == 1;
    let multi = ctx::w(2) == 1;
    let cases: Vec<Case<T>> = (0..k).map(|_| case::<T>(from_pool(pool))).collect();
    let mut b: Vec<Vec<Complex<T>>> = cases.iter().map(|c| c.buf.clone()).collect();
    let what = format!("{who}: batch{} of {k}", if inv { " inverse" } else { "" });
    ev!("{what}");
    let r = match (multi, inv) {
        (false, false) => batch(e, &mut b),
        (false, true) => batch_inverse(e, &mut b),
        (true, false) => multi_channel(e, &mut b),
        (true, true) => multi_channel_inverse(e, &mut b),
    };
    ok(&what, r);
    for (i, c) in cases.iter().enumerate() {
        check(&format!("{what}, item {i}"), &b[i], &want(&c.x, inv), c.x.len());
    }
}

/// Any call on a scalar engine.
pub fn any_scalar<T: Num>(who: &str, e: &ScalarFftImpl<T>, pool: &[usize]) {
    match ctx::w(8) {
        0..=4 => trait_form(who, e, from_pool(pool)),
        5 | 6 => scalar_form(who, e, from_pool(pool)),
        _ => batch_form(who, e, pool),
    }
}

pub fn float_marker<T: Float>() -> usize {
    std::mem::size_of::<T>()
}
