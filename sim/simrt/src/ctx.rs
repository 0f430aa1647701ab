//! Per-run context: choice streams, event log, counters, violations.
use crate::prng::{hash_bytes, mix, Rng};
use crate::raw;
use crate::shm::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum S {
    Work = 0,
    Fault = 1,
    Sched = 2,
}

pub struct Ctx {
    pub shm: *mut Shared,
    rng: [Option<Rng>; 3],
    replay: [Vec<u64>; 3],
    pos: [usize; 3],
    pub seed: u64,
    pub thorough: bool,
}

static mut CTX: *mut Ctx = core::ptr::null_mut();

pub fn installed() -> bool {
    unsafe { !CTX.is_null() }
}

fn c() -> &'static mut Ctx {
    unsafe { &mut *CTX }
}

pub fn shm() -> &'static mut Shared {
    unsafe { &mut *c().shm }
}

pub fn seed() -> u64 {
    c().seed
}

pub fn thorough() -> bool {
    c().thorough
}

/// Installs the context for this (forked) run. `replay` = None: draw from the seed.
pub fn install(shm: *mut Shared, seed: u64, replay: Option<&[Vec<u64>; 3]>, thorough: bool) {
    let b = Box::new(Ctx {
        shm,
        rng: match replay {
            None => [0u64, 1, 2].map(|k| Some(Rng::new(mix(seed ^ (k << 60))))),
            Some(_) => [None, None, None],
        },
        replay: match replay {
            None => [Vec::new(), Vec::new(), Vec::new()],
            Some(r) => r.clone(),
        },
        pos: [0; 3],
        seed,
        thorough,
    });
    unsafe { CTX = Box::into_raw(b) }
}

/// A choice in `0..n`; 0 is always the simplest alternative.
pub fn draw(s: S, n: u64) -> u64 {
    if n <= 1 {
        return 0;
    }
    let i = s as usize;
    let c = c();
    let sh = unsafe { &mut *c.shm };
    let at = sh.len[i] as usize;
    if at >= CAPS[i] {
        return 0;
    }
    let v = match &mut c.rng[i] {
        Some(r) => r.below(n),
        None => {
            let v = c.replay[i].get(c.pos[i]).copied().unwrap_or(0) % n;
            c.pos[i] += 1;
            v
        }
    };
    match s {
        S::Work => sh.work[at] = v,
        S::Fault => sh.fault[at] = v,
        S::Sched => sh.sched[at] = v,
    }
    sh.len[i] = at as u64 + 1;
    v
}

pub fn w(n: u64) -> usize {
    draw(S::Work, n) as usize
}

/// Inclusive range.
pub fn range(lo: usize, hi: usize) -> usize {
    lo + w((hi - lo + 1) as u64) as usize
}

/// True with probability num/den; `false` is the simple alternative.
pub fn chance(s: S, num: u64, den: u64) -> bool {
    let v = draw(s, den);
    v >= den - num
}

pub fn pick<'a, T>(xs: &'a [T]) -> &'a T {
    &xs[w(xs.len() as u64)]
}

/// Marks the choices made inside `f` as one removable unit for the minimiser.
pub fn span<R>(f: impl FnOnce() -> R) -> R {
    let start = shm().len[0] as u32;
    let r = f();
    let sh = shm();
    let k = sh.nspans as usize;
    if k < SPAN_CAP {
        sh.spans[k] = (start, sh.len[0] as u32);
        sh.nspans += 1;
    }
    r
}

/// Draws a count by repeated "one more?" so that deleting a span removes one element.
/// `f` is called for each element inside its own span.
pub fn repeat(min: usize, max: usize, avg: usize, mut f: impl FnMut(usize)) {
    let mut i = 0;
    loop {
        if i >= max {
            return;
        }
        let go = span(|| {
            let more = if i < min {
                true
            } else {
                // stop with probability 1/avg; 0 = stop
                w(avg.max(2) as u64) != 0
            };
            if more {
                f(i);
            }
            more
        });
        if !go {
            return;
        }
        i += 1;
    }
}

fn put(dst: &mut [u8], len: &mut u64, s: &str) {
    let n = s.len().min(dst.len());
    dst[..n].copy_from_slice(&s.as_bytes()[..n]);
    *len = n as u64;
}

pub fn set_panic(s: &str) {
    let sh = shm();
    put(&mut sh.panic, &mut sh.panic_len, s);
}

/// Adds a line to the event log. The log decides the history hash of the run.
pub fn event(s: &str) {
    let sh = shm();
    sh.hash = hash_bytes(sh.hash, s.as_bytes());
    if sh.trace_on != 0 {
        let at = sh.trace_len as usize;
        let tid = crate::sched::me();
        let line = format!("[t{} {}] {}\n", tid, crate::sched::stamp(), s);
        let n = line.len();
        if at + n < TRACE_CAP {
            sh.trace[at..at + n].copy_from_slice(line.as_bytes());
            sh.trace_len += n as u64;
        }
    }
}

pub fn event_num(a: u64, b: u64) {
    let sh = shm();
    sh.hash = mix(sh.hash ^ a.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ b.rotate_left(32));
}

/// Feeds the state measure (distinct abstract states reached).
pub fn state(x: u64) {
    let sh = shm();
    sh.state_hash = mix(sh.state_hash ^ x);
}

#[macro_export]
macro_rules! ev {
    ($($t:tt)*) => { $crate::ctx::event(&format!($($t)*)) };
}

pub fn count(name: &'static str) {
    count_n(name, 1)
}

pub fn count_n(name: &'static str, k: u64) {
    let sh = shm();
    let n = sh.ncounters as usize;
    for i in 0..n {
        let (p, l) = sh.counter_names[i];
        if l == name.len() {
            let s = unsafe { core::slice::from_raw_parts(p as *const u8, l) };
            if s == name.as_bytes() {
                sh.counters[i] += k;
                return;
            }
        }
    }
    if n < NCOUNTERS {
        sh.counter_names[n] = (name.as_ptr() as usize, name.len());
        sh.counters[n] = k;
        sh.ncounters += 1;
    }
}

/// A fault that really happened.
pub fn fault(name: &'static str) {
    count(name);
    let sh = shm();
    for i in 0..sh.ncounters as usize {
        let (p, l) = sh.counter_names[i];
        if l == name.len() && unsafe { core::slice::from_raw_parts(p as *const u8, l) } == name.as_bytes() {
            sh.counter_is_fault[i] = true;
        }
    }
    sh.nontrivial += 1;
    event(name);
}

/// The run exercised what the property is about (see `rule` in the evidence).
pub fn nontrivial() {
    shm().nontrivial += 1;
}

/// Reports a violation and ends the run. `class` identifies the kind of violation.
pub fn fail(class: &str, msg: &str) -> ! {
    let sh = shm();
    event(&format!("VIOLATION {class}: {msg}"));
    let Shared { class: cb, class_len, msg: mb, msg_len, .. } = sh;
    put(cb, class_len, class);
    put(mb, msg_len, msg);
    sh.status = 2;
    crate::sched::snapshot();
    raw::exit_group(0);
}

/// A harness error (never a verdict about the code under test).
pub fn harness_error(msg: &str) -> ! {
    let sh = shm();
    let Shared { msg: mb, msg_len, .. } = sh;
    put(mb, msg_len, msg);
    sh.status = 3;
    raw::exit_group(0);
}

pub fn finish_ok() -> ! {
    crate::sched::snapshot();
    shm().status = 1;
    raw::exit_group(0);
}

#[macro_export]
macro_rules! violation {
    ($class:expr, $($t:tt)*) => { $crate::ctx::fail(&$class.to_string(), &format!($($t)*)) };
}
