//! C09 and C10: tuning settings, environment, processors and clock around the parallel transforms.
use crate::forms::{any_scalar, plan_form, trait_form};
use crate::util::*;
use kofft::fft::*;
use kofft::rfft::{RealFftImpl, RfftPlanner};
use simrt::ctx::{self, S};
use simrt::oracle::{self, C};
use simrt::sched::{self, ClockFaults};
use simrt::{ev, interpose, violation};
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::sync::{Arc, Mutex};

const VARS: [&str; 5] = [
    "KOFFT_PAR_FFT_THRESHOLD",
    "KOFFT_PAR_FFT_CACHE_BYTES",
    "KOFFT_PAR_FFT_PER_CORE_WORK",
    "KOFFT_PAR_FFT_BLOCK_SIZE",
    "KOFFT_PAR_FFT_THREADS",
];
const NAMES: [&str; 5] = ["threshold", "cache", "work", "block", "threads"];

fn set(i: usize, v: usize) {
    match i {
        0 => set_parallel_fft_threshold(v),
        1 => set_parallel_fft_l1_cache(v),
        2 => set_parallel_fft_per_core_work(v),
        3 => set_parallel_fft_block_size(v),
        _ => set_parallel_fft_threads(v),
    }
}

/// Values that are not numbers, or not numbers of this machine.
fn garbage() -> OsString {
    match ctx::draw(S::Fault, 12) {
        0 => "".into(),
        1 => "abc".into(),
        2 => "-1".into(),
        3 => "18446744073709551616".into(),
        4 => " 8".into(),
        5 => "8 ".into(),
        6 => "0x10".into(),
        7 => "1e3".into(),
        8 => "4096.0".into(),
        9 => OsString::from_vec(vec![0xff, 0xfe, b'7']),
        10 => "99999999999999999999999999999999".into(),
        _ => "8k".into(),
    }
}
fn wild() -> usize {
    match ctx::draw(S::Fault, 10) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => ctx::draw(S::Fault, 64) as usize,
        4 => ctx::draw(S::Fault, 5000) as usize,
        5 => usize::MAX,
        6 => usize::MAX / 2 + 1,
        7 => 1usize << ctx::draw(S::Fault, 64),
        8 => 7,
        _ => 3,
    }
}

fn environment() {
    for v in VARS {
        match ctx::draw(S::Fault, 4) {
            0 | 1 => {}
            2 => {
                std::env::set_var(v, garbage());
                ctx::fault("malformed environment value");
            }
            _ => {
                let x = wild();
                std::env::set_var(v, x.to_string());
                ctx::fault("extreme environment value");
            }
        }
    }
    let cpus = match ctx::w(4) {
        0 => 1,
        1 => 2,
        2 => ctx::range(1, 8),
        _ => ctx::range(8, 20),
    };
    interpose::set_cpus(cpus);
    ev!("cpus {cpus}");
    if ctx::w(3) == 2 {
        std::env::set_var("RAYON_NUM_THREADS", ctx::range(1, 5).to_string());
    }
}

fn lens() -> Vec<usize> {
    (0..ctx::range(1, 4))
        .map(|_| match ctx::w(8) {
            0 => ctx::range(1, 4),
            1 | 2 => 1 << ctx::range(1, 9),
            3 | 4 => ctx::range(2, 64),
            5 => ctx::range(2, 300),
            6 => 4096,
            _ => *ctx::pick(&[96usize, 1000, 1023, 2048]),
        })
        .collect()
}

fn real_pair<T: kofft::rfft::RealFftNum + Num>(who: &str, e: &ScalarFftImpl<T>, p: &mut RfftPlanner<T>, n: usize) {
    let n = (n & !1).max(2);
    let x: Vec<T> = of_r(&reals(n));
    let want = oracle::rdft(&to_r(&x));
    let mut y = x.clone();
    let mut h = vec![Complex::new(T::of(0.0), T::of(0.0)); n / 2 + 1];
    let what = format!("{who}: real transform of {n}");
    ok(&what, if ctx::w(2) == 0 { p.rfft(e, &mut y, &mut h) } else { RealFftImpl::rfft(e, &mut y, &mut h) });
    check(&what, &h, &want, n);
    let mut back = vec![T::of(0.0); n];
    ok(&what, if ctx::w(2) == 0 { p.irfft(e, &mut h, &mut back) } else { RealFftImpl::irfft(e, &mut h, &mut back) });
    check_re(&format!("{what} and back"), &to_r(&back), &to_r(&x), 4.0 * T::tol(n), T::NAME);
}

fn transforms(who: &str, pool: &[usize], k: usize) {
    let a = ScalarFftImpl::<f32>::default();
    let b = ScalarFftImpl::<f64>::default();
    let mut ra = RfftPlanner::<f32>::new();
    let mut rb = RfftPlanner::<f64>::new();
    for i in 0..k {
        let n = *ctx::pick(pool);
        match ctx::w(10) {
            0..=2 => {
                // the inverse is the one that may go parallel
                let mut x: Vec<Complex32> = of_c(&cplx(n));
                let want = oracle::idft(&to_c(&x));
                let what = format!("{who}: inverse transform {i} of {n}");
                ok(&what, if ctx::w(2) == 0 { a.ifft(&mut x) } else { ifft_parallel(&mut x) });
                check(&what, &x, &want, n);
                log_c(&x);
            }
            3 => {
                let mut x: Vec<Complex32> = of_c(&cplx(n));
                let want = oracle::dft(&to_c(&x));
                let what = format!("{who}: forward transform {i} of {n}");
                ok(&what, if ctx::w(2) == 0 { a.fft(&mut x) } else { fft_parallel(&mut x) });
                check(&what, &x, &want, n);
            }
            4 => trait_form(who, &a, n),
            5 => trait_form(who, &b, n),
            6 => any_scalar(who, &a, pool),
            7 => plan_form(who, &FftPlan::<f32>::new(n, strategy())),
            8 => real_pair(who, &a, &mut ra, n),
            _ => real_pair(who, &b, &mut rb, n),
        }
        ctx::count("transforms checked");
    }
}

fn clock() {
    let mut c = ClockFaults::default();
    match ctx::draw(S::Fault, 6) {
        0 | 1 => {}
        2 => c.freeze = true,
        3 => c.jump = true,
        4 => {
            c.freeze = true;
            c.jump = true;
        }
        _ => c.leap = *[1u64, 1000, 1_000_000_000, 100_000_000_000, 1 << 61].get(ctx::draw(S::Fault, 5) as usize).unwrap(),
    }
    ev!("clock {c:?}");
    sched::set_clock(c);
}

/// C09: whoever changes whatever, results stay right and nothing panics, fails or hangs.
pub fn turmoil() {
    environment();
    clock();
    let pool = lens();
    let workers = ctx::range(1, 2);
    let setters = ctx::range(0, 2);
    let mut hs = Vec::new();
    for s in 0..setters {
        let plan: Vec<(usize, usize)> = (0..ctx::range(1, 8))
            .map(|_| {
                let i = ctx::draw(S::Fault, 5) as usize;
                // thresholds near the lengths in use decide differently from call to call
                let v = if i == 0 && ctx::draw(S::Fault, 2) == 1 { *ctx::pick(&pool) + ctx::w(2) } else { wild() };
                (i, v)
            })
            .collect();
        hs.push(std::thread::spawn(move || {
            for (i, v) in plan {
                ev!("setter {s}: {} = {v}", NAMES[i]);
                ctx::fault("setting changed while transforms run");
                set(i, v);
                if v % 3 == 1 {
                    std::thread::yield_now();
                }
            }
        }));
    }
    for w in 0..workers {
        let pool = pool.clone();
        let k = ctx::range(1, 6);
        hs.push(std::thread::spawn(move || transforms(&format!("worker {w}"), &pool, k)));
    }
    for h in hs {
        h.join().unwrap();
    }
    ctx::nontrivial();
}

// ---- C10 ---------------------------------------------------------------------------------------------

#[derive(Clone, Copy)]
struct Write {
    value: usize,
    begin: u64,
    end: u64,
}
struct Model {
    /// values from the environment or the built-in defaults; threshold 0 = none
    base: [usize; 5],
    /// every write of each override; the first one is the initial zero
    log: [Vec<Write>; 5],
    clock: u64,
}
impl Model {
    fn tick(&mut self) -> u64 {
        self.clock += 1;
        self.clock
    }
    /// Values of setting `i` that were in force at some moment of [a, b].
    fn values(&self, i: usize, a: u64, b: u64) -> Vec<usize> {
        let l = &self.log[i];
        let mut v: Vec<usize> = l
            .iter()
            .filter(|w| w.begin < b && !l.iter().any(|o| w.end < o.begin && o.end < a))
            .map(|w| if w.value == 0 { self.base[i] } else { w.value })
            .collect();
        v.sort();
        v.dedup();
        v
    }
    /// Smallest and largest threshold that agrees with the settings in force during [a, b].
    fn thresholds(&self, a: u64, b: u64) -> (usize, usize) {
        let t = self.values(0, a, b);
        let mut c: Vec<usize> = t.iter().copied().filter(|v| *v != 0).collect();
        if t.contains(&0) {
            for cache in self.values(1, a, b) {
                for work in self.values(2, a, b) {
                    for block in self.values(3, a, b) {
                        for threads in self.values(4, a, b) {
                            // the measured work per core is 4096 with the clock used here
                            c.push((cache / 8).max(work.max(4096)).max(block).saturating_mul(threads));
                        }
                    }
                }
            }
        }
        (*c.iter().min().unwrap(), *c.iter().max().unwrap())
    }
}

/// Settings that make lengths of interest sit at a threshold.
/// Transforms this long are worth spreading in more than one share.
const GRAIN: usize = 256;

fn near(i: usize) -> usize {
    match i {
        0 => match ctx::w(6) {
            0 | 1 => 0,
            2 => *ctx::pick(&[ctx::range(1, 40), ctx::range(GRAIN, 560), ctx::range(GRAIN, 560)]),
            3 => 1 << ctx::range(3, 10),
            4 => (1 << ctx::range(3, 10)) + 1,
            _ => *ctx::pick(&[4096usize, 5000, usize::MAX, 1]),
        },
        1 => *ctx::pick(&[0usize, 1, 8 * 4096, 8 * 5000, 8 * 8192 + 7, 8, usize::MAX]),
        2 => *ctx::pick(&[0usize, 1, 100, 4097, 6000, 8192, usize::MAX]),
        3 => *ctx::pick(&[0usize, 1, 4096, 4500, 8192, usize::MAX]),
        _ => *ctx::pick(&[0usize, 1, 2, 3, 1, 1, usize::MAX]),
    }
}

fn base_settings() -> [usize; 5] {
    let cpus = *ctx::pick(&[1usize, 2, 1, 3, 4]);
    interpose::set_cpus(cpus);
    if ctx::w(3) == 2 {
        std::env::set_var("RAYON_NUM_THREADS", ctx::range(1, 4).to_string());
    }
    let mut base = [0, 32 * 1024, 4096, 1024, cpus];
    for i in 0..5 {
        match ctx::w(5) {
            0..=2 => {}
            3 => {
                std::env::set_var(VARS[i], garbage());
                ctx::fault("malformed environment value");
            }
            _ => {
                let v = if i == 4 { ctx::range(1, 3) } else { near(i) };
                std::env::set_var(VARS[i], v.to_string());
                ctx::count("settings from the environment");
                base[i] = v;
            }
        }
    }
    ev!("cpus {cpus} base {base:?}");
    base
}

/// One inverse transform from outside the pool; says whether pool threads ran code of the library.
fn observe(what: &str, e: &ScalarFftImpl<f32>, n: usize, mine: &[usize]) -> bool {
    let mut x: Vec<Complex32> = of_c(&cplx(n));
    let want: Vec<C> = oracle::idft(&to_c(&x));
    let count = || -> u64 { (0..sched::nthreads()).filter(|t| !mine.contains(t)).map(sched::blocks_of).sum() };
    // pool threads may still be on their way to sleep after an earlier call
    let mut rounds = 0;
    while (0..sched::nthreads()).any(|t| !mine.contains(&t) && sched::runnable(t)) {
        std::thread::yield_now();
        rounds += 1;
        if rounds > 100_000 {
            ctx::harness_error("the pool never came to rest");
        }
    }
    let before = count();
    let form = ctx::w(3);
    match form {
        0 | 1 => ok(what, e.ifft(&mut x)),
        _ => ok(what, ifft_parallel(&mut x)),
    }
    let used = count() > before;
    check(what, &x, &want, n);
    ctx::event_num(n as u64, used as u64);
    used
}

fn length(lo: usize, hi: usize) -> usize {
    let cap = 12_500;
    let pow2 = |v: usize| v.next_power_of_two();
    let n = match ctx::w(8) {
        0 | 1 => lo,
        2 => lo.saturating_sub(1),
        3 => hi.saturating_sub(1),
        4 => hi,
        5 => pow2(lo.min(cap)),
        6 => ctx::range(2, 300),
        _ => *ctx::pick(&[2usize, 3, 64, 512, 4095, 4096, 4097, 8192]),
    };
    // long transforms cost much more than short ones
    if n > 600 && ctx::w(3) != 2 {
        return ctx::range(2, 600);
    }
    n.clamp(2, cap)
}

fn verdict(what: &str, n: usize, used: bool, lo: usize, hi: usize) {
    if used && n < lo {
        violation!("wrong-decision", "{what}: length {n} ran on the pool although the threshold in force was {lo}");
    }
    // a short transform may fit into one share, which its caller may as well work on itself
    if !used && n >= hi && n < GRAIN {
        ctx::count("decisions: too short to tell");
        return;
    }
    if !used && n >= hi {
        violation!("wrong-decision", "{what}: length {n} did not run on the pool although the threshold in force was {hi}");
    }
    ctx::count(if used { "decisions: parallel" } else { "decisions: sequential" });
}

/// C10: one caller, a history of settings, every decision exact.
pub fn decisions() {
    let base = base_settings();
    sched::set_clock(ClockFaults { freeze: false, jump: false, leap: 200_000_000_000 });
    let mut over = [0usize; 5];
    let e = ScalarFftImpl::<f32>::default();
    let mine = [sched::me()];
    let mut changes = 0;
    ctx::repeat(2, 24, 8, |i| {
        if ctx::w(2) == 0 {
            let k = ctx::w(5);
            over[k] = near(k);
            ev!("set {} = {}", NAMES[k], over[k]);
            set(k, over[k]);
            changes += 1;
        } else {
            let v = |k: usize| if over[k] == 0 { base[k] } else { over[k] };
            let thr = if v(0) != 0 { v(0) } else { (v(1) / 8).max(v(2).max(4096)).max(v(3)).saturating_mul(v(4)) };
            let n = length(thr, thr);
            let what = format!("call {i} with {over:?} over {base:?}");
            let used = observe(&what, &e, n, &mine);
            verdict(&what, n, used, thr, thr);
            if changes > 0 {
                ctx::nontrivial();
            }
        }
    });
}

/// C10: settings change while a decision is made.
pub fn racing() {
    let base = base_settings();
    sched::set_clock(ClockFaults { freeze: false, jump: false, leap: 200_000_000_000 });
    let m = Arc::new(Mutex::new(Model {
        base,
        log: std::array::from_fn(|_| vec![Write { value: 0, begin: 0, end: 0 }]),
        clock: 1,
    }));
    let change = |m: &Arc<Mutex<Model>>, k: usize, v: usize| {
        let at = {
            let mut g = m.lock().unwrap();
            let t = g.tick();
            g.log[k].push(Write { value: v, begin: t, end: u64::MAX });
            g.log[k].len() - 1
        };
        set(k, v);
        let mut g = m.lock().unwrap();
        let t = g.tick();
        g.log[k][at].end = t;
        ev!("set {} = {v}", NAMES[k]);
        ctx::fault("setting changed while transforms run");
    };
    // most races are about the threshold itself or about the factors once it is reverted
    // or about one setting that comes and goes while short calls are made
    let focus = ctx::w(4).min(2);
    let flicker = ctx::w(5);
    if focus == 2 {
        sched::short_turns();
    }
    let mut mine = vec![sched::me()];
    let (tx, rx) = std::sync::mpsc::channel::<()>();
    let rx = Arc::new(Mutex::new(rx));
    let mut hs = Vec::new();
    let n_setters = ctx::range(1, 2);
    for _ in 0..n_setters {
        let plan: Vec<(usize, usize)> = (0..ctx::range(1, if focus == 2 { 120 } else { 6 }))
            .map(|i| {
                if focus == 2 {
                    return (flicker, if i % 2 == 0 { near(flicker) } else { 0 });
                }
                let k = if focus == 0 { 0 } else { ctx::w(5) };
                (k, near(k))
            })
            .collect();
        let m = m.clone();
        let rx = rx.clone();
        let id = Arc::new(Mutex::new(0usize));
        let id2 = id.clone();
        hs.push((
            std::thread::spawn(move || {
                *id2.lock().unwrap() = sched::me();
                let _ = rx.lock().unwrap().recv();
                for (k, v) in plan {
                    change(&m, k, v);
                    if focus == 2 {
                        std::thread::yield_now();
                    }
                }
            }),
            id,
        ));
    }
    // thread numbers of the setters must be known before the first observation
    for (_, id) in &hs {
        while *id.lock().unwrap() == 0 {
            std::thread::yield_now();
        }
        mine.push(*id.lock().unwrap());
    }
    for _ in 0..n_setters {
        tx.send(()).unwrap();
    }
    let e = ScalarFftImpl::<f32>::default();
    for i in 0..ctx::range(1, if focus == 2 { 40 } else { 5 }) {
        let (a, guess) = {
            let mut g = m.lock().unwrap();
            let a = g.tick();
            (a, g.thresholds(a, a))
        };
        let n = if focus == 2 { ctx::range(2, 4) } else { length(guess.0, guess.1) };
        let what = format!("racing call {i}");
        let used = observe(&what, &e, n, &mine);
        let (lo, hi) = {
            let mut g = m.lock().unwrap();
            let b = g.tick();
            g.thresholds(a, b)
        };
        if lo != hi {
            ctx::count("decisions during a change");
            ctx::nontrivial();
        }
        ev!("{what}: length {n} used {used} thresholds {lo}..{hi}");
        verdict(&what, n, used, lo, hi);
    }
    for (h, _) in hs {
        h.join().unwrap();
    }
    // quiet again: the last values count exactly
    let (lo, hi) = {
        let mut g = m.lock().unwrap();
        let a = g.tick();
        let b = g.tick();
        g.thresholds(a, b)
    };
    let n = length(lo, hi);
    let used = observe("call after the changes", &e, n, &mine);
    verdict("call after the changes", n, used, lo, hi);
}
