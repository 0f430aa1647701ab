//! Cosine plans and sine tables from reused planners.
use crate::util::*;
use kofft::dct::DctPlanner;
use kofft::dst::DstPlanner;
use kofft::fft::FftError;
use simrt::ctx::{self, S};
use simrt::{ev, oracle, violation};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn len() -> usize {
    fit(any_len())
}
fn any_len() -> usize {
    match ctx::w(4) {
        0 => ctx::range(1, 4),
        1 => ctx::range(1, 33),
        2 => 1 << ctx::range(0, 8),
        _ if ctx::w(12) == 11 => *ctx::pick(&[512usize, 1024, 300, 441, 1000, ctx::range(200, 1100)]),
        _ => ctx::range(1, 200),
    }
}

pub fn dct() {
    pool_use();
    spoil_some();
    let pool: Vec<usize> = (0..ctx::range(1, 4)).map(|_| len()).collect();
    let planners = ctx::range(1, 2);
    let mut ps: Vec<DctPlanner> = (0..planners).map(|_| DctPlanner::new()).collect();
    let mut seen = 0;
    ctx::repeat(1, 24, 8, |_| {
        seen += 1;
        if seen > 1 {
            ctx::nontrivial();
        }
        let i = ctx::w(planners as u64);
        let n = if ctx::chance(S::Work, 1, 4) { len() } else { *ctx::pick(&pool) };
        let runs = ctx::range(1, 3);
        ev!("planner {i}: plan of {n}, {runs} runs");
        let mut plan = ps[i].plan_dct2(n);
        for _ in 0..runs {
            if ctx::chance(S::Work, 1, 4) {
                // a run with other lengths is refused and leaves everything alone
                let (a, b) = match ctx::w(4) {
                    0 => (n, n + 1),
                    1 => (n + 1, n),
                    2 => (len() + n, len()),
                    _ => (n.saturating_sub(1), n.saturating_sub(1)),
                };
                if (a, b) == (n, n) {
                    continue;
                }
                let mut x: Vec<f32> = of_r(&reals(a));
                let mut y: Vec<f32> = of_r(&reals(b));
                let (kx, ky) = (bits_r(&x), bits_r(&y));
                let what = format!("planner {i}: plan of {n} run on {a} values into {b}");
                refused(&what, plan(&mut x, &mut y), FftError::MismatchedLengths);
                same(&what, &bits_r(&x), &kx);
                same(&what, &bits_r(&y), &ky);
                ctx::fault("run refused");
                continue;
            }
            let mut x: Vec<f32> = of_r(&reals(n));
            let kx = bits_r(&x);
            let mut y: Vec<f32> = of_r(&reals(n));
            let what = format!("planner {i}: planned DCT-II of {n}");
            ok(&what, plan(&mut x, &mut y));
            same(&format!("{what} input"), &bits_r(&x), &kx);
            check_re(&what, &to_r(&y), &oracle::dct2(&to_r(&x)), f32::tol(2 * n), "f32");
            ctx::count("planned transforms checked");
        }
    });
}

fn table<T: Num>(p: &mut DstPlanner<T>, kind: usize, n: usize, what: &str) {
    let t: Vec<f64> = to_r(match kind {
        0 => p.plan_dst2(n),
        1 => p.plan_dst3(n),
        _ => p.plan_dst4(n),
    });
    let off = if kind == 1 { 0.0 } else { 0.5 };
    if t.len() != n {
        violation!("wrong-length", "{what}: table of {} values instead of {n}", t.len());
    }
    for (i, v) in t.iter().enumerate() {
        let w = (std::f64::consts::PI * (i as f64 + off) / n as f64).sin();
        let tol = if T::NAME == "f32" { 2e-6 } else { 1e-12 };
        if !((v - w).abs() <= tol) {
            violation!("wrong-result", "{what} ({}): entry {i} is {v}, not {w}", T::NAME);
        }
    }
    ctx::count("sine tables checked");
}

pub fn dst() {
    pool_use();
    let pool: Vec<usize> = (0..ctx::range(1, 4)).map(|_| len()).collect();
    let mut a = DstPlanner::<f32>::new();
    let mut b = DstPlanner::<f64>::new();
    let mut t = DstPlanner::<Trap>::new();
    let mut seen = 0;
    ctx::repeat(1, 40, 12, |_| {
        seen += 1;
        if seen > 1 {
            ctx::nontrivial();
        }
        let n = if ctx::chance(S::Work, 1, 4) { len() } else { *ctx::pick(&pool) };
        let kind = ctx::w(3);
        let what = format!("sine table {} of length {n}", kind + 2);
        ev!("{what}");
        match ctx::w(5) {
            0 => table(&mut a, kind, n, &what),
            1 => table(&mut b, kind, n, &what),
            2 => {
                // scratch of the asked length, writable, keeps nothing back
                let s = a.scratch(n);
                if s.len() != n {
                    violation!("wrong-length", "scratch of {} values instead of {n}", s.len());
                }
                s.fill(123.0);
            }
            3 => {
                // building a table is abandoned half way
                set_fuse(1 + ctx::draw(S::Fault, 1 + 4 * n as u64));
                let r = catch_unwind(AssertUnwindSafe(|| {
                    match kind {
                        0 => t.plan_dst2(n),
                        1 => t.plan_dst3(n),
                        _ => t.plan_dst4(n),
                    };
                }));
                set_fuse(0);
                match r {
                    Err(b) if b.is::<Unwound>() => ctx::fault("table construction abandoned"),
                    Err(_) => violation!("panic", "{what}: panicked after an abandoned construction"),
                    Ok(()) => {}
                }
            }
            _ => table(&mut t, kind, n, &what),
        }
    });
}
