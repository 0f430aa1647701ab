//! Baton scheduler: real OS threads, exactly one of which runs at a time; which one is decided
//! by the seeded schedule stream.
use crate::ctx::{self, draw, S};
use crate::prng::mix;
use crate::raw;
use crate::shm::{CAP_SCHED, COV_CAP};
use core::cell::Cell;
use core::sync::atomic::{AtomicU32, Ordering};

pub const MAX_THREADS: usize = 256;
pub const MAIN: usize = 0;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Unused,
    Runnable,
    Futex { addr: usize, bitset: u32, deadline: u64 },
    Sleep { deadline: u64 },
    Join { target: usize },
    Finished,
}

struct Th {
    st: St,
    baton: AtomicU32,
    timed_out: bool,
    blocks: u64,
    prio: u64,
    dtors: Vec<(unsafe extern "C" fn(*mut u8), *mut u8)>,
    pthread: usize,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Strategy {
    /// never preempt; switch only when blocked or yielding
    Cooperative,
    /// uniformly random thread after a random quantum of the given mean
    Random(u64),
    /// random priorities, changed at a few random points (PCT-like)
    Priority(u64),
}

pub struct Sched {
    th: Vec<Th>,
    cur: usize,
    now: u64,
    strategy: Strategy,
    change_points: u64,
    step_limit: u64,
    /// per mille probability of a spurious futex wake-up per wait
    spurious: u64,
    pub clock: ClockFaults,
    last_steps: u64,
}

#[derive(Clone, Copy, Default, Debug)]
pub struct ClockFaults {
    pub freeze: bool,
    pub jump: bool,
    /// every reading lies at least this far after the previous one
    pub leap: u64,
}

static mut SCHED: *mut Sched = core::ptr::null_mut();
static mut ACTIVE: bool = false;
static mut BUDGET: i64 = 0;
static mut STEPS: u64 = 0;
static mut QUANTUM_START: i64 = 0;
static mut COV: *mut u8 = core::ptr::null_mut();
static mut NGUARDS: u32 = 0;

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
}

fn s() -> &'static mut Sched {
    unsafe { &mut *SCHED }
}

pub fn active() -> bool {
    unsafe { ACTIVE }
}

pub fn me() -> usize {
    ME.with(|m| m.get())
}

/// The calling thread belongs to a running simulation.
pub fn simulated() -> bool {
    unsafe { ACTIVE && me() != usize::MAX }
}

pub fn steps() -> u64 {
    unsafe { STEPS }
}

pub fn guards() -> u32 {
    unsafe { NGUARDS }
}

pub struct Config {
    pub strategy: Strategy,
    pub change_points: u64,
    pub step_limit: u64,
    pub spurious: u64,
    pub clock: ClockFaults,
}

impl Config {
    /// Everything drawn from the seed (first draws of the schedule stream).
    pub fn drawn() -> Config {
        let k = draw(S::Sched, 12);
        let strategy = match k {
            0 => Strategy::Cooperative,
            1 => Strategy::Random(3),
            2 => Strategy::Random(15),
            3 | 4 => Strategy::Random(60),
            5 | 6 => Strategy::Random(250),
            7 | 8 => Strategy::Random(1200),
            9 => Strategy::Random(8000),
            10 => Strategy::Priority(300),
            _ => Strategy::Priority(3000),
        };
        let change_points = draw(S::Sched, 8);
        let spurious = if draw(S::Sched, 3) == 2 { 40 } else { 0 };
        Config { strategy, change_points, step_limit: 400_000_000, spurious, clock: ClockFaults::default() }
    }
    pub fn cooperative() -> Config {
        Config {
            strategy: Strategy::Cooperative,
            change_points: 0,
            step_limit: 400_000_000,
            spurious: 0,
            clock: ClockFaults::default(),
        }
    }
}

/// Turns the calling thread into thread 0 of a simulation.
pub fn start(cfg: Config) {
    let b = Box::new(Sched {
        th: Vec::with_capacity(MAX_THREADS),
        cur: 0,
        now: 1_000_000_000_000,
        strategy: cfg.strategy,
        change_points: cfg.change_points,
        step_limit: cfg.step_limit,
        spurious: cfg.spurious,
        clock: cfg.clock,
        last_steps: 0,
    });
    unsafe {
        SCHED = Box::into_raw(b);
        COV = ctx::shm().cov.as_mut_ptr();
        STEPS = 0;
    }
    ME.with(|m| m.set(0));
    new_thread();
    unsafe { ACTIVE = true };
    new_quantum();
}

pub fn set_clock(f: ClockFaults) {
    s().clock = f;
}

pub fn set_step_limit(l: u64) {
    s().step_limit = unsafe { STEPS } + l;
}

/// Often switches to a schedule of short turns, for workloads whose threads meet in short calls.
pub fn short_turns() {
    let mean = [0, 3, 8, 25][draw(S::Sched, 4) as usize];
    if mean > 0 {
        account();
        s().strategy = Strategy::Random(mean);
        new_quantum();
    }
}

fn new_thread() -> usize {
    let sc = s();
    let id = sc.th.len();
    if id >= MAX_THREADS {
        ctx::fail("thread-explosion", "more than 256 threads were started in one run");
    }
    let prio = if matches!(sc.strategy, Strategy::Priority(_)) { 1000 + draw(S::Sched, 1000) } else { 0 };
    sc.th.push(Th {
        st: St::Runnable,
        baton: AtomicU32::new(0),
        timed_out: false,
        blocks: 0,
        prio,
        dtors: Vec::new(),
        pthread: 0,
    });
    ctx::shm().threads = sc.th.len() as u64;
    id
}

/// Blocks of instrumented code executed so far by thread `t`.
pub fn blocks_of(t: usize) -> u64 {
    account();
    s().th.get(t).map_or(0, |x| x.blocks)
}

pub fn nthreads() -> usize {
    s().th.len()
}

/// Whether thread `t` could run now.
pub fn runnable(t: usize) -> bool {
    s().th.get(t).map_or(false, |x| matches!(x.st, St::Runnable))
}

pub fn snapshot() {
    if unsafe { SCHED.is_null() } {
        return;
    }
    unsafe {
        STEPS += (QUANTUM_START - BUDGET).max(0) as u64;
        QUANTUM_START = BUDGET;
    }
    let sh = ctx::shm();
    sh.steps = unsafe { STEPS };
    sh.sim_ns = s().now - 1_000_000_000_000 + unsafe { STEPS };
}

fn new_quantum() {
    let sc = s();
    let q = if ctx::shm().len[2] as usize + 8 >= CAP_SCHED {
        i64::MAX / 2
    } else {
        match sc.strategy {
            Strategy::Cooperative => i64::MAX / 2,
            Strategy::Random(mean) => {
                let v = draw(S::Sched, 2 * mean + 1);
                // 0 (the simple alternative) = run on for long
                if v == 0 {
                    i64::MAX / 2
                } else if mean > 2 && v == 2 * mean {
                    (mean * 20) as i64
                } else {
                    v as i64
                }
            }
            Strategy::Priority(mean) => {
                if sc.change_points == 0 {
                    i64::MAX / 2
                } else {
                    sc.change_points -= 1;
                    let v = draw(S::Sched, 2 * mean + 1);
                    if v == 0 {
                        i64::MAX / 2
                    } else {
                        v as i64
                    }
                }
            }
        }
    };
    // stay responsive to the step limit
    let q = q.min(1 << 22);
    unsafe {
        BUDGET = q;
        QUANTUM_START = q;
    }
}

#[inline(always)]
fn account() {
    // blocks executed since the last accounting belong to the current thread
    unsafe {
        let used = (QUANTUM_START - BUDGET).max(0) as u64;
        STEPS += used;
        s().th[s().cur].blocks += used;
        QUANTUM_START = BUDGET;
        if STEPS > s().step_limit {
            ctx::fail(
                "hang",
                &format!("no completion within {} steps of instrumented code", s().step_limit),
            );
        }
    }
}

/// Called for every basic block of instrumented code.
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    unsafe {
        if !ACTIVE {
            return;
        }
        let g = *guard as usize;
        *COV.add(g & (COV_CAP - 1)) = 1;
        BUDGET -= 1;
        if BUDGET <= 0 {
            expired(g);
        }
    }
}

/// Called before every load and store in the builds instrumented that finely, so that a thread can be
/// preempted between two accesses of one basic block.
#[inline(always)]
fn access() {
    unsafe {
        if !ACTIVE {
            return;
        }
        BUDGET -= 1;
        if BUDGET <= 0 {
            expired(0xff_ffff_ff00);
        }
    }
}

macro_rules! accesses {
    ($($name:ident)*) => { $(
        #[no_mangle]
        pub extern "C" fn $name(_: *const u8) {
            access();
        }
    )* };
}
accesses!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    unsafe {
        if start == stop || *start != 0 {
            return;
        }
        let mut p = start;
        while p < stop {
            NGUARDS += 1;
            *p = NGUARDS;
            p = p.add(1);
        }
    }
}

#[inline(never)]
fn expired(guard: usize) {
    if me() == usize::MAX {
        return;
    }
    account();
    let sc = s();
    let cur = sc.cur;
    if let Strategy::Priority(_) = sc.strategy {
        // a change point: the running thread drops below all others
        sc.th[cur].prio = sc.change_points;
    }
    if matches!(sc.strategy, Strategy::Cooperative) {
        new_quantum();
        return;
    }
    let next = pick(true, false);
    if next == cur {
        new_quantum();
    } else {
        ctx::shm().preemptions += 1;
        note(1, guard as u64, next);
        switch(next);
    }
}

fn note(kind: u64, what: u64, next: usize) {
    let sh = ctx::shm();
    let cur = s().cur as u64;
    sh.sched_hash = mix(
        sh.sched_hash ^ (kind << 56) ^ (cur << 48) ^ ((next as u64) << 40) ^ (what & 0xff_ffff_ffff),
    );
}

/// Chooses the next thread. `keep` = the current thread may continue.
fn pick(keep: bool, yielding: bool) -> usize {
    let sc = s();
    let cur = sc.cur;
    let now_est = sc.now + (unsafe { STEPS } - sc.last_steps);
    for t in sc.th.iter_mut() {
        match t.st {
            St::Futex { deadline, .. } | St::Sleep { deadline } if deadline <= now_est => {
                t.timed_out = true;
                t.st = St::Runnable;
            }
            _ => {}
        }
    }
    loop {
        let mut cand = [0usize; MAX_THREADS];
        let mut n = 0;
        // a waiting thread whose time is already up goes on like any other
        if keep || (!yielding && sc.th[cur].st == St::Runnable) {
            cand[0] = cur;
            n = 1;
        }
        // round-robin order starting after the current thread: index 0 is the simple choice
        let len = sc.th.len();
        for d in 1..=len {
            let t = (cur + d) % len;
            if t == cur {
                continue;
            }
            if sc.th[t].st == St::Runnable {
                cand[n] = t;
                n += 1;
            }
        }
        if n == 0 && yielding {
            return cur;
        }
        if n == 0 {
            // nothing can run: let simulated time pass to the next deadline
            let mut best = u64::MAX;
            for t in &sc.th {
                match t.st {
                    St::Futex { deadline, .. } | St::Sleep { deadline } => best = best.min(deadline),
                    _ => {}
                }
            }
            if best == u64::MAX {
                let dump: Vec<String> =
                    sc.th.iter().enumerate().map(|(i, t)| format!("t{i}:{:?}", kind(&t.st))).collect();
                ctx::fail("deadlock", &format!("no thread can run: {}", dump.join(" ")));
            }
            sc.now = sc.now.max(best);
            for t in sc.th.iter_mut() {
                match t.st {
                    St::Futex { deadline, .. } | St::Sleep { deadline } if deadline <= sc.now => {
                        t.timed_out = true;
                        t.st = St::Runnable;
                    }
                    _ => {}
                }
            }
            if sc.th[cur].st == St::Runnable && !keep {
                return cur;
            }
            continue;
        }
        if n == 1 {
            return cand[0];
        }
        return match sc.strategy {
            Strategy::Priority(_) => {
                let mut b = cand[0];
                for &t in &cand[1..n] {
                    if sc.th[t].prio > sc.th[b].prio {
                        b = t;
                    }
                }
                b
            }
            _ => cand[draw(S::Sched, n as u64) as usize],
        };
    }
}

fn kind(st: &St) -> &'static str {
    match st {
        St::Unused => "unused",
        St::Runnable => "runnable",
        St::Futex { .. } => "waiting",
        St::Sleep { .. } => "sleeping",
        St::Join { .. } => "joining",
        St::Finished => "finished",
    }
}

fn hand_over(next: usize) {
    let sc = s();
    sc.cur = next;
    let sh = ctx::shm();
    sh.switches += 1;
    let b = &sc.th[next].baton;
    b.store(1, Ordering::Release);
    raw::futex_wake(b.as_ptr(), 1);
}

fn wait_baton(id: usize) {
    let b: *const AtomicU32 = &s().th[id].baton;
    let b = unsafe { &*b };
    while b.swap(0, Ordering::Acquire) == 0 {
        raw::futex_wait(b.as_ptr(), 0);
    }
}

fn switch(next: usize) {
    let cur = s().cur;
    if next == cur {
        return;
    }
    new_quantum();
    hand_over(next);
    wait_baton(cur);
}

/// The current thread cannot continue until its state becomes Runnable again.
fn block(st: St, what: u64) {
    account();
    let sc = s();
    let cur = sc.cur;
    sc.th[cur].timed_out = false;
    sc.th[cur].st = st;
    loop {
        let next = pick(false, false);
        note(2, what, next);
        if next == cur {
            break;
        }
        switch(next);
        if s().th[cur].st == St::Runnable {
            break;
        }
    }
}

pub fn yield_now() {
    account();
    let sc = s();
    // a yielding thread loses its priority, otherwise it could spin forever
    if let Strategy::Priority(_) = sc.strategy {
        sc.th[sc.cur].prio /= 2;
    }
    ctx::count("sched:yield");
    unsafe { STEPS += 20 };
    sc.now += 1000;
    let next = pick(false, true);
    if next != sc.cur {
        note(3, 0, next);
        switch(next);
    }
}

/// For traces: blocks executed so far and simulated time, without touching either.
pub fn stamp() -> String {
    if unsafe { SCHED.is_null() } {
        return "#0".into();
    }
    let used = unsafe { (QUANTUM_START - BUDGET).max(0) as u64 + STEPS };
    let sc = s();
    let ns = (sc.now + used - sc.last_steps).saturating_sub(1_000_000_000_000);
    format!("#{used} {}.{:06}ms", ns / 1_000_000, ns % 1_000_000)
}

/// For messages: what every thread is doing.
pub fn describe() -> String {
    let sc = s();
    let v: Vec<String> = sc
        .th
        .iter()
        .enumerate()
        .map(|(i, t)| match t.st {
            St::Futex { addr, deadline, .. } => format!("t{i}:waiting({:x},{})", addr as u64, if deadline == u64::MAX { -1 } else { deadline as i64 - sc.now as i64 }),
            St::Sleep { deadline } => format!("t{i}:sleeping({})", deadline as i64 - sc.now as i64),
            s => format!("t{i}:{}", kind(&s)),
        })
        .collect();
    v.join(" ")
}

/// Waits until `wake_key` with the same key, or until the deadline (false).
pub fn wait_key(key: usize, deadline: u64) -> bool {
    block(St::Futex { addr: key, bitset: u32::MAX, deadline }, 9);
    !s().th[s().cur].timed_out
}
pub fn wake_key(key: usize) {
    for t in s().th.iter_mut() {
        if let St::Futex { addr, .. } = t.st {
            if addr == key {
                t.st = St::Runnable;
            }
        }
    }
}
/// Work done outside instrumented code.
pub fn tick(n: u64) {
    account();
    unsafe { STEPS += n };
}

pub fn sleep_until(deadline: u64) {
    ctx::count("sched:sleep");
    block(St::Sleep { deadline }, 7);
}

pub fn now() -> u64 {
    account();
    let sc = s();
    let st = unsafe { STEPS };
    if !sc.clock.freeze {
        sc.now += st - sc.last_steps + 37;
    }
    sc.last_steps = st;
    if sc.clock.leap > 0 {
        ctx::fault("fault:clock_leap");
        sc.now = sc.now.saturating_add(sc.clock.leap);
    }
    if sc.clock.jump {
        match draw(S::Fault, 6) {
            0..=2 => {}
            3 => {
                ctx::fault("fault:clock_jump_1s");
                sc.now += 1_000_000_000;
            }
            4 => {
                ctx::fault("fault:clock_jump_years");
                sc.now += 100_000_000_000_000_000;
            }
            _ => {
                ctx::fault("fault:clock_stall");
                sc.now -= if sc.clock.freeze { 0 } else { 37 };
            }
        }
    }
    sc.now
}

// ---- futex ------------------------------------------------------------------------------------

pub unsafe fn futex(addr: *mut u32, op: i32, val: u32, timeout: *const libc::timespec, val3: u32) -> i64 {
    let cmd = op & 0x7f;
    let sc = s();
    match cmd {
        0 | 9 => {
            account();
            if core::ptr::read_volatile(addr) != val {
                return -(libc::EAGAIN as i64);
            }
            let deadline = if timeout.is_null() {
                u64::MAX
            } else {
                let t = (*timeout).tv_sec as u64 * 1_000_000_000 + (*timeout).tv_nsec as u64;
                if cmd == 9 {
                    t
                } else {
                    sc.now.saturating_add(t)
                }
            };
            if sc.spurious > 0 && draw(S::Fault, 1000) >= 1000 - sc.spurious {
                ctx::fault("fault:spurious_wakeup");
                yield_now();
                return 0;
            }
            ctx::count("sched:futex_wait");
            let bitset = if cmd == 9 { val3 } else { u32::MAX };
            block(St::Futex { addr: addr as usize, bitset, deadline }, 5);
            if s().th[s().cur].timed_out {
                return -(libc::ETIMEDOUT as i64);
            }
            0
        }
        1 | 10 => {
            let mask = if cmd == 10 { val3 } else { u32::MAX };
            let mut woken = 0i64;
            while woken < val as i64 {
                let mut cand = [0usize; MAX_THREADS];
                let mut n = 0;
                for (i, t) in sc.th.iter().enumerate() {
                    if let St::Futex { addr: a, bitset, .. } = t.st {
                        if a == addr as usize && bitset & mask != 0 {
                            cand[n] = i;
                            n += 1;
                        }
                    }
                }
                if n == 0 {
                    break;
                }
                let t = cand[draw(S::Sched, n as u64) as usize];
                sc.th[t].st = St::Runnable;
                woken += 1;
            }
            if woken > 0 && !matches!(sc.strategy, Strategy::Cooperative) {
                maybe_switch();
            }
            woken
        }
        _ => ctx::harness_error(&format!("unsupported futex operation {cmd}")),
    }
}

/// A scheduling point at a synchronisation operation.
pub fn maybe_switch() {
    account();
    let next = pick(true, false);
    if next != s().cur {
        note(4, 0, next);
        switch(next);
    }
}

// ---- threads ----------------------------------------------------------------------------------

struct Start {
    f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    arg: *mut libc::c_void,
    id: usize,
}

extern "C" fn trampoline(p: *mut libc::c_void) -> *mut libc::c_void {
    let st = unsafe { Box::from_raw(p as *mut Start) };
    ME.with(|m| m.set(st.id));
    wait_baton(st.id);
    (st.f)(st.arg);
    run_dtors(st.id);
    account();
    let sc = s();
    sc.th[st.id].st = St::Finished;
    for t in sc.th.iter_mut() {
        if t.st == (St::Join { target: st.id }) {
            t.st = St::Runnable;
        }
    }
    let next = pick(false, false);
    note(6, 0, next);
    new_quantum();
    hand_over(next);
    // Never really exit: thread teardown in libc would run outside the baton.
    let forever = AtomicU32::new(0);
    loop {
        raw::futex_wait(forever.as_ptr(), 0);
    }
}

fn run_dtors(id: usize) {
    while let Some((f, o)) = s().th[id].dtors.pop() {
        unsafe { f(o) };
    }
}

pub fn add_dtor(f: unsafe extern "C" fn(*mut u8), obj: *mut u8) {
    let id = me();
    s().th[id].dtors.push((f, obj));
}

pub unsafe fn create(
    real: unsafe extern "C" fn(
        *mut libc::pthread_t,
        *const libc::pthread_attr_t,
        extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
        *mut libc::c_void,
    ) -> i32,
    out: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    arg: *mut libc::c_void,
) -> i32 {
    let id = new_thread();
    let b = Box::into_raw(Box::new(Start { f, arg, id }));
    let r = real(out, attr, trampoline, b as *mut libc::c_void);
    if r != 0 {
        ctx::harness_error("pthread_create failed");
    }
    s().th[id].pthread = *out as usize;
    ctx::count("sched:thread_started");
    if !matches!(s().strategy, Strategy::Cooperative) {
        maybe_switch();
    }
    0
}

pub fn join(pt: usize) -> i32 {
    let sc = s();
    let Some(target) = sc.th.iter().position(|t| t.pthread == pt && pt != 0) else {
        return 0;
    };
    if sc.th[target].st != St::Finished {
        block(St::Join { target }, 8);
    }
    0
}
