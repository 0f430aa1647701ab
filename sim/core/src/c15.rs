//! C15: two- and three-dimensional transforms on a shared, much-used engine.
use crate::forms::any_scalar;
use crate::util::*;
use kofft::fft::*;
use kofft::ndfft::*;
use simrt::ctx::{self, S};
use simrt::oracle;
use simrt::{ev, violation};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn dim() -> usize {
    fit(any_dim())
}
fn any_dim() -> usize {
    match ctx::w(6) {
        0 => ctx::range(1, 3),
        1 | 2 => 1 << ctx::range(0, 4),
        3 | 4 => ctx::range(1, 12),
        _ => *ctx::pick(&[15usize, 16, 17, 20, 24, 31, 32, 33, 40]),
    }
}
fn shape(k: usize) -> Vec<usize> {
    let cap = if ctx::thorough() { 4096 } else { 1400 };
    let mut d: Vec<usize> = (0..k).map(|_| dim()).collect();
    if ctx::w(10) == 9 {
        // one long axis
        let i = ctx::w(k as u64);
        d.iter_mut().for_each(|v| *v = fit((*v).min(4)));
        d[i] = fit(*ctx::pick(&[64usize, 128, 256, 300, 512, 1024, 257, ctx::range(64, 300), ctx::range(64, 1030)]));
        return d;
    }
    while d.iter().product::<usize>() > cap {
        let i = (0..k).max_by_key(|i| d[*i]).unwrap();
        d[i] = (d[i] / 2).max(1);
    }
    d
}

fn run<T: Num>(e: &ScalarFftImpl<T>, buf: &mut [Complex<T>], d: &[usize], scratch: &mut [Vec<Complex<T>>]) -> Result<(), FftError> {
    if d.len() == 2 {
        fft2d_inplace(buf, d[0], d[1], e, &mut scratch[0])
    } else {
        let [a, b, c] = scratch else { unreachable!() };
        fft3d_inplace(buf, d[0], d[1], d[2], e, &mut Fft3dScratch { tube: a, row: b, col: c })
    }
}
fn scratches<T: Num>(d: &[usize]) -> Vec<Vec<Complex<T>>> {
    let lens: &[usize] = if d.len() == 2 { &d[..1] } else { d };
    lens.iter().map(|n| (0..*n).map(|i| Complex::new(T::of(5.0e3 + i as f64), T::of(-77.0))).collect()).collect()
}

fn good<T: Num>(who: &str, e: &ScalarFftImpl<T>, d: &[usize]) {
    let n: usize = d.iter().product();
    let what = format!("{who}: {}-dimensional transform of shape {d:?}", d.len());
    let mut b: Vec<Complex<T>> = of_c(&cplx(n));
    let want = oracle::dft_nd(&to_c(&b), d);
    let mut s = scratches::<T>(d);
    if ctx::w(4) == 3 && n > 0 {
        // through the nested-vector front end
        let (flat, dims) = if d.len() == 2 {
            let rows: Vec<Vec<Complex<T>>> = b.chunks(d[1]).map(|r| r.to_vec()).collect();
            match flatten_2d(rows) {
                Ok((f, r, c)) => (f, vec![r, c]),
                Err(e) => violation!("unexpected-error", "{what}: flattening failed with {e:?}"),
            }
        } else {
            let planes: Vec<Vec<Vec<Complex<T>>>> = b.chunks(d[1] * d[2]).map(|p| p.chunks(d[2]).map(|r| r.to_vec()).collect()).collect();
            match flatten_3d(planes) {
                Ok((f, z, r, c)) => (f, vec![z, r, c]),
                Err(e) => violation!("unexpected-error", "{what}: flattening failed with {e:?}"),
            }
        };
        if dims != d {
            violation!("wrong-length", "{what}: flattening reported {dims:?}");
        }
        same(&format!("{what}: flattened data"), &bits_c(&flat), &bits_c(&b));
        b = flat;
    }
    ok(&what, run(e, &mut b, d, &mut s));
    check(&what, &b, &want, d.iter().sum());
    log_c(&b);
    ctx::count("multi-dimensional transforms checked");
}

fn bad<T: Num>(who: &str, e: &ScalarFftImpl<T>, d: &[usize]) {
    let n: usize = d.iter().product();
    let mut b: Vec<Complex<T>> = of_c(&cplx(n));
    let mut s = scratches::<T>(d);
    let mut dd = d.to_vec();
    let what;
    match ctx::w(5) {
        0 => {
            // a scratch buffer of the wrong length
            let i = ctx::w(s.len() as u64);
            if ctx::w(2) == 0 {
                s[i].push(Complex::zero());
            } else {
                s[i].pop();
            }
            what = format!("{who}: shape {d:?} with scratch {i} of {}", s[i].len());
        }
        1 => {
            let i = ctx::w(d.len() as u64);
            dd[i] += 1 + ctx::w(3);
            what = format!("{who}: {n} values as shape {dd:?}");
        }
        2 => {
            let i = ctx::w(d.len() as u64);
            dd[i] -= 1;
            what = format!("{who}: {n} values as shape {dd:?}");
        }
        3 => {
            // sizes whose product wraps around
            let i = ctx::w(d.len() as u64);
            dd = vec![1; d.len()];
            let sh = ctx::range(1, 63) as u32;
            dd[i] = 1usize << sh;
            dd[(i + 1) % d.len()] = (1usize << (64 - sh)).wrapping_add(if ctx::w(2) == 1 { n >> sh.min(63) } else { 0 });
            what = format!("{who}: {n} values as shape {dd:?}");
        }
        _ => {
            // ragged nested data
            if d[0] < 2 {
                return;
            }
            let at = ctx::w(d[0] as u64);
            let r = if d.len() == 2 {
                let mut rows: Vec<Vec<Complex<T>>> = b.chunks(d[1]).map(|r| r.to_vec()).collect();
                if ctx::w(2) == 0 {
                    rows[at].push(Complex::zero());
                } else {
                    rows[at].pop();
                }
                flatten_2d(rows).map(|_| ())
            } else {
                let mut planes: Vec<Vec<Vec<Complex<T>>>> = b.chunks(d[1] * d[2]).map(|p| p.chunks(d[2]).map(|r| r.to_vec()).collect()).collect();
                let row = ctx::w(d[1] as u64);
                match ctx::w(3) {
                    0 => planes[at][row].push(Complex::zero()),
                    1 => {
                        planes[at].pop();
                    }
                    _ => {
                        let l = planes[at][row].len();
                        if l < 2 && planes[at].len() == 1 {
                            return;
                        }
                        planes[at][row].pop();
                    }
                }
                if planes.iter().all(|p| p.len() == planes[0].len() && p.iter().all(|r| r.len() == planes[0].first().map_or(0, |r| r.len()))) {
                    return;
                }
                flatten_3d(planes).map(|_| ())
            };
            refused(&format!("{who}: ragged data of shape {d:?} (item {at})"), r, FftError::MismatchedLengths);
            ctx::fault("request refused");
            return;
        }
    }
    let total = dd.iter().try_fold(1usize, |a, v| a.checked_mul(*v));
    if dd != d && total == Some(n) {
        return;
    }
    let keep = bits_c(&b);
    ev!("refused: {what}");
    refused(&what, run(e, &mut b, &dd, &mut s), FftError::MismatchedLengths);
    same(&what, &bits_c(&b), &keep);
    ctx::fault("request refused");
}

/// A shape with nothing in it: accepted as a whole, or nothing at all happens.
fn empty<T: Num>(who: &str, e: &ScalarFftImpl<T>, k: usize) {
    let mut d = shape(k);
    let i = ctx::w(k as u64);
    d[i] = 0;
    let mut b: Vec<Complex<T>> = vec![];
    let mut s = scratches::<T>(&d);
    ok(&format!("{who}: transform of the empty shape {d:?}"), run(e, &mut b, &d, &mut s));
}

fn user<T: Num>(who: &str, e: &ScalarFftImpl<T>, shapes: &[Vec<usize>], pool: &[usize]) {
    let d = if ctx::chance(S::Work, 1, 4) { shape(2 + ctx::w(2)) } else { ctx::pick(shapes).clone() };
    match ctx::w(8) {
        0..=3 => {
            ctx::nontrivial();
            good(who, e, &d)
        }
        4 | 5 => any_scalar(who, e, pool),
        6 => bad(who, e, &d),
        _ => empty(who, e, d.len()),
    }
}

pub fn shared_engine() {
    pool_use();
    spoil_some();
    let shapes: Vec<Vec<usize>> = (0..ctx::range(1, 3)).map(|_| shape(2 + ctx::w(2))).collect();
    // other users mostly ask for the same lengths as the axes, or longer ones
    let mut pool: Vec<usize> = shapes.iter().flatten().copied().collect();
    pool.extend(size_pool());
    match ctx::w(3) {
        0 => {
            let e = ScalarFftImpl::<f32>::default();
            ctx::repeat(1, 16, 6, |i| user(&format!("user {}", i % 3), &e, &shapes, &pool));
        }
        1 => {
            let e = ScalarFftImpl::<f64>::default();
            ctx::repeat(1, 16, 6, |i| user(&format!("user {}", i % 3), &e, &shapes, &pool));
        }
        _ => {
            // transforms abandoned half way
            let e = ScalarFftImpl::<Trap>::default();
            ctx::repeat(1, 12, 5, |i| {
                let who = format!("user {}", i % 3);
                if ctx::draw(S::Fault, 2) == 1 {
                    let d = ctx::pick(&shapes).clone();
                    let n: usize = d.iter().product();
                    let mut b: Vec<Complex<Trap>> = of_c(&cplx(n));
                    let mut s = scratches::<Trap>(&d);
                    let at = 1 + ctx::draw(S::Fault, 40 * n as u64 + 20);
                    set_fuse(at);
                    let r = catch_unwind(AssertUnwindSafe(|| run(&e, &mut b, &d, &mut s)));
                    let left = fuse_left();
                    set_fuse(0);
                    match r {
                        Err(p) if p.is::<Unwound>() => ctx::fault("transform abandoned half way"),
                        Err(p) => std::panic::resume_unwind(p),
                        Ok(r) => {
                            ok(&format!("{who}: shape {d:?}"), r);
                            let _ = left;
                        }
                    }
                } else {
                    let d = ctx::pick(&shapes).clone();
                    good(&who, &e, &d);
                }
            });
        }
    }
}

/// Engines made on one thread and used on others, several at a time.
pub fn handover() {
    pool_use();
    spoil_some();
    let shapes: Vec<Vec<usize>> = (0..ctx::range(1, 2)).map(|_| shape(2 + ctx::w(2)).into_iter().map(|v| fit(v.min(9))).collect()).collect();
    let pool: Vec<usize> = shapes.iter().flatten().copied().chain([1, 8, fit(12)]).collect();
    let shelf = std::sync::Arc::new(std::sync::Mutex::new(vec![ScalarFftImpl::<f32>::default(), ScalarFftImpl::<f32>::default()]));
    let hs: Vec<_> = (0..ctx::range(2, 3))
        .map(|t| {
            let (shelf, shapes, pool) = (shelf.clone(), shapes.clone(), pool.clone());
            let k = ctx::range(1, 3);
            std::thread::spawn(move || {
                for _ in 0..k {
                    // take an engine, use it without holding the lock, put it back
                    let e = shelf.lock().unwrap().pop().unwrap_or_default();
                    user(&format!("thread {t}"), &e, &shapes, &pool);
                    shelf.lock().unwrap().push(e);
                }
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
    ctx::nontrivial();
}
