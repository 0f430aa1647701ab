//! Seeded search: forks one process per simulated run, aggregates, minimises, replays.
use crate::prng::{hash_bytes, mix};
use crate::shm::*;
use crate::{ctx, fs, interpose, raw, sched};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Mode {
    /// one simulated thread
    Single,
    /// the schedule is drawn
    Threads,
}

#[derive(Clone, Copy)]
pub struct Prop {
    pub id: &'static str,
    /// distinguishes several scenarios of one property
    pub name: &'static str,
    pub mode: Mode,
    pub scenario: fn(),
    /// share of the runs
    pub weight: u64,
    /// which builds of kofft this scenario is meaningful for
    pub variants: &'static [&'static str],
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub prop: String,
    pub scenario: String,
    pub index: u64,
    pub seed: u64,
    pub class: String,
    pub msg: String,
    pub streams: [Vec<u64>; 3],
}

#[derive(Clone, Debug)]
pub enum Outcome {
    Ok,
    Violation { class: String, msg: String },
    Harness(String),
}

pub struct Opts {
    pub id: String,
    pub variant: String,
    pub seed: u64,
    pub runs: u64,
    pub secs: f64,
    pub workers: usize,
    pub out: String,
    pub replay_dir: String,
    pub thorough: bool,
    pub only: Option<String>,
    pub known: Vec<String>,
    pub samples: u64,
    pub determinism: u64,
    pub minimise_secs: f64,
}

/// Address space layout randomisation off, single malloc arena: same addresses in every run.
pub fn pin_process() {
    unsafe {
        let cur = libc::personality(0xffff_ffff);
        if cur >= 0 && cur & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("SIMRT_REEXEC").is_none() {
            if libc::personality((cur | libc::ADDR_NO_RANDOMIZE) as libc::c_ulong) >= 0 {
                std::env::set_var("SIMRT_REEXEC", "1");
                let exe = std::ffi::CString::new("/proc/self/exe").unwrap();
                let args: Vec<std::ffi::CString> = std::env::args()
                    .map(|a| std::ffi::CString::new(a).unwrap())
                    .collect();
                let mut ptrs: Vec<*const libc::c_char> = args.iter().map(|a| a.as_ptr()).collect();
                ptrs.push(core::ptr::null());
                libc::execv(exe.as_ptr(), ptrs.as_ptr());
            }
        }
        libc::mallopt(-8, 1); // M_ARENA_MAX
        std::env::remove_var("SIMRT_REEXEC");
    }
    for (k, _) in std::env::vars_os() {
        let k2 = k.to_string_lossy().to_string();
        if k2.starts_with("KOFFT") || k2.starts_with("RAYON") || k2.starts_with("RUST_") {
            std::env::remove_var(k);
        }
    }
    interpose::resolve();
    interpose::force_link();
}

pub fn run_seed(seed: u64, prop: &str, scenario: &str, index: u64) -> u64 {
    mix(hash_bytes(mix(seed), format!("{prop}/{scenario}").as_bytes()) ^ mix(index.wrapping_add(0x51ed)))
}

fn child(p: &Prop, sh: *mut Shared, seed: u64, replay: Option<&[Vec<u64>; 3]>, thorough: bool) -> ! {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        let lim = libc::rlimit { rlim_cur: 40, rlim_max: 41 };
        libc::setrlimit(libc::RLIMIT_CPU, &lim);
        let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
        let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        libc::alarm(150);
        if std::env::var_os("SIMRT_DEBUG").is_none() {
            let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            if n >= 0 {
                libc::dup2(n, 2);
                libc::dup2(n, 1);
            }
        }
    }
    ctx::install(sh, seed, replay, thorough);
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(no message)".to_string()
        };
        let l = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        ctx::set_panic(&format!("{m} at {l}"));
    }));
    fs::start();
    let cfg = match p.mode {
        Mode::Single => sched::Config::cooperative(),
        Mode::Threads => sched::Config::drawn(),
    };
    sched::start(cfg);
    crate::mem::start_run(seed);
    let r = std::panic::catch_unwind(p.scenario);
    match r {
        Ok(()) => {
            crate::mem::end_run();
            ctx::finish_ok()
        }
        Err(_) => {
            let m = ctx::shm().panic();
            ctx::fail("panic", &format!("panicked: {m}"));
        }
    }
}

pub fn execute(p: &Prop, sh: *mut Shared, seed: u64, replay: Option<&[Vec<u64>; 3]>, trace: bool, thorough: bool) -> Outcome {
    let s = unsafe { &mut *sh };
    s.reset();
    s.trace_on = trace as u32;
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        child(p, sh, seed, replay, thorough);
    }
    if pid < 0 {
        return Outcome::Harness("fork failed".into());
    }
    let mut st = 0;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut st, 0) };
        if r == pid {
            break;
        }
        if r < 0 && unsafe { *libc::__errno_location() } != libc::EINTR {
            return Outcome::Harness("waitpid failed".into());
        }
    }
    match s.status {
        1 => Outcome::Ok,
        2 => Outcome::Violation { class: s.class(), msg: s.message() },
        3 => Outcome::Harness(s.message()),
        _ => {
            let last = s.panic();
            let extra = if last.is_empty() { String::new() } else { format!(" (last panic: {last})") };
            if libc::WIFSIGNALED(st) {
                let sig = libc::WTERMSIG(st);
                if sig == libc::SIGXCPU || sig == libc::SIGALRM {
                    Outcome::Violation { class: "hang".into(), msg: format!("no completion: run killed by signal {sig}{extra}") }
                } else if sig == libc::SIGKILL {
                    Outcome::Harness("run was killed (out of memory?)".into())
                } else {
                    Outcome::Violation { class: "crash".into(), msg: format!("process died from signal {sig}{extra}") }
                }
            } else {
                Outcome::Violation {
                    class: "crash".into(),
                    msg: format!("process exited with status {} in the middle of the run{extra}", libc::WEXITSTATUS(st)),
                }
            }
        }
    }
}

#[derive(Default)]
pub struct Agg {
    pub runs: u64,
    pub nontrivial_runs: u64,
    pub steps: u64,
    pub sim_ns: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub max_threads: u64,
    pub counters: BTreeMap<String, u64>,
    pub hashes: HashSet<u64>,
    pub nt_hashes: HashSet<u64>,
    pub sched_hashes: HashSet<u64>,
    pub states: HashSet<u64>,
    pub per_scenario: BTreeMap<String, u64>,
    pub cov: BTreeSet<u32>,
    pub violations: Vec<Violation>,
    pub known: BTreeMap<String, (u64, String)>,
    pub harness: Vec<String>,
    pub samples: Vec<String>,
    pub det_checked: u64,
    pub det_diverged: u64,
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

fn nums(v: &[u64]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
fn parse_nums(s: &str) -> Vec<u64> {
    s.split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().unwrap_or(0)).collect()
}

impl Agg {
    fn write(&self, w: &mut impl Write) {
        let mut o = String::new();
        let n = |o: &mut String, k: &str, v: u64| o.push_str(&format!("N\t{k}\t{v}\n"));
        n(&mut o, "runs", self.runs);
        n(&mut o, "nontrivial_runs", self.nontrivial_runs);
        n(&mut o, "steps", self.steps);
        n(&mut o, "sim_ns", self.sim_ns);
        n(&mut o, "switches", self.switches);
        n(&mut o, "preemptions", self.preemptions);
        n(&mut o, "max_threads", self.max_threads);
        n(&mut o, "det_checked", self.det_checked);
        n(&mut o, "det_diverged", self.det_diverged);
        for (k, v) in &self.counters {
            o.push_str(&format!("C\t{k}\t{v}\n"));
        }
        for (k, v) in &self.per_scenario {
            o.push_str(&format!("P\t{k}\t{v}\n"));
        }
        for h in &self.hashes {
            o.push_str(&format!("H\t{h}\n"));
        }
        for h in &self.nt_hashes {
            o.push_str(&format!("T\t{h}\n"));
        }
        for h in &self.sched_hashes {
            o.push_str(&format!("S\t{h}\n"));
        }
        for h in &self.states {
            o.push_str(&format!("A\t{h}\n"));
        }
        for g in &self.cov {
            o.push_str(&format!("G\t{g}\n"));
        }
        for s in &self.samples {
            o.push_str(&format!("X\t{}\n", esc(s)));
        }
        for s in &self.harness {
            o.push_str(&format!("E\t{}\n", esc(s)));
        }
        for (k, (c, m)) in &self.known {
            o.push_str(&format!("K\t{}\t{}\t{}\n", esc(k), c, esc(m)));
        }
        for v in &self.violations {
            o.push_str(&format!(
                "V\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\n",
                v.prop, v.scenario, v.index, v.seed, esc(&v.class), esc(&v.msg),
                nums(&v.streams[0]), nums(&v.streams[1]), nums(&v.streams[2])
            ));
        }
        let _ = w.write_all(o.as_bytes());
    }
    fn read(&mut self, text: &str) {
        for l in text.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "N" => {
                    let v: u64 = f[2].parse().unwrap_or(0);
                    match f[1] {
                        "runs" => self.runs += v,
                        "nontrivial_runs" => self.nontrivial_runs += v,
                        "steps" => self.steps += v,
                        "sim_ns" => self.sim_ns = self.sim_ns.saturating_add(v),
                        "switches" => self.switches += v,
                        "preemptions" => self.preemptions += v,
                        "max_threads" => self.max_threads = self.max_threads.max(v),
                        "det_checked" => self.det_checked += v,
                        "det_diverged" => self.det_diverged += v,
                        _ => {}
                    }
                }
                "C" => *self.counters.entry(f[1].into()).or_default() += f[2].parse::<u64>().unwrap_or(0),
                "P" => *self.per_scenario.entry(f[1].into()).or_default() += f[2].parse::<u64>().unwrap_or(0),
                "H" => {
                    self.hashes.insert(f[1].parse().unwrap_or(0));
                }
                "T" => {
                    self.nt_hashes.insert(f[1].parse().unwrap_or(0));
                }
                "S" => {
                    self.sched_hashes.insert(f[1].parse().unwrap_or(0));
                }
                "A" => {
                    self.states.insert(f[1].parse().unwrap_or(0));
                }
                "G" => {
                    self.cov.insert(f[1].parse().unwrap_or(0));
                }
                "X" => self.samples.push(unesc(f[1])),
                "E" => self.harness.push(unesc(f[1])),
                "K" => {
                    let e = self.known.entry(unesc(f[1])).or_insert((0, unesc(f[3])));
                    e.0 += f[2].parse::<u64>().unwrap_or(0);
                }
                "V" => self.violations.push(Violation {
                    prop: f[1].into(),
                    scenario: f[2].into(),
                    index: f[3].parse().unwrap_or(0),
                    seed: f[4].parse().unwrap_or(0),
                    class: unesc(f[5]),
                    msg: unesc(f[6]),
                    streams: [parse_nums(f[7]), parse_nums(f[8]), parse_nums(f[9])],
                }),
                _ => {}
            }
        }
    }
}

fn matches_known(known: &[String], class: &str, msg: &str) -> Option<String> {
    // signature: "class|substring of the message"
    for k in known {
        if let Some((c, m)) = k.split_once('|') {
            if c == class && msg.contains(m) {
                return Some(k.clone());
            }
        }
    }
    None
}

fn worker(me: usize, o: &Opts, props: &[Prop], plan: &[usize], stop_at: *mut u64, t0: f64) -> Agg {
    let sh = Shared::map();
    let s = unsafe { &mut *sh };
    let mut a = Agg::default();
    let mut i = me as u64;
    while i < o.runs {
        let stop = unsafe { core::ptr::read_volatile(stop_at) };
        if i > stop || raw::real_now() - t0 > o.secs {
            break;
        }
        let p = &props[plan[(i % plan.len() as u64) as usize]];
        let seed = run_seed(o.seed, p.id, p.name, i);
        let trace = i < o.samples;
        let r = execute(p, sh, seed, None, trace, o.thorough);
        a.runs += 1;
        *a.per_scenario.entry(p.name.to_string()).or_default() += 1;
        a.steps += s.steps;
        a.sim_ns = a.sim_ns.saturating_add(s.sim_ns);
        a.switches += s.switches;
        a.preemptions += s.preemptions;
        a.max_threads = a.max_threads.max(s.threads);
        for (n, (k, v)) in s.counter_list().into_iter().enumerate() {
            let k = if s.counter_is_fault[n] && !k.starts_with("fault:") { format!("fault:{k}") } else { k.to_string() };
            *a.counters.entry(k).or_default() += v;
        }
        let h = mix(s.hash ^ s.sched_hash.rotate_left(17) ^ plan[(i % plan.len() as u64) as usize] as u64);
        a.hashes.insert(h);
        if s.nontrivial > 0 || s.preemptions > 0 {
            a.nontrivial_runs += 1;
            a.nt_hashes.insert(h);
        }
        if s.switches > 0 {
            a.sched_hashes.insert(s.sched_hash);
        }
        a.states.insert(s.state_hash);
        if trace {
            let t = s.trace();
            let t: String = t.chars().take(6000).collect();
            a.samples.push(format!("run {i} scenario {} seed {seed:#018x}\n{t}", p.name));
        }
        if i < o.determinism {
            let before = (s.hash, s.sched_hash, s.steps, s.len);
            let _ = execute(p, sh, seed, None, !trace, o.thorough);
            a.det_checked += 1;
            if before != (s.hash, s.sched_hash, s.steps, s.len) {
                a.det_diverged += 1;
                a.samples.push(format!("DIVERGED run {i} scenario {} seed {seed:#x}: {before:?} vs {:?}", p.name, (s.hash, s.sched_hash, s.steps, s.len)));
            }
        }
        match r {
            Outcome::Ok => {}
            Outcome::Harness(m) => {
                a.harness.push(format!("run {i} scenario {} seed {seed:#x}: {m}", p.name));
                break;
            }
            Outcome::Violation { class, msg } => {
                if i < o.determinism {
                    // the shared memory holds the second execution: the same streams
                }
                if let Some(k) = matches_known(&o.known, &class, &msg) {
                    let e = a.known.entry(k).or_insert((0, format!("{} (run {i}, seed {seed:#x})", msg)));
                    e.0 += 1;
                } else {
                    a.violations.push(Violation {
                        prop: p.id.into(),
                        scenario: p.name.into(),
                        index: i,
                        seed,
                        class,
                        msg,
                        streams: [s.stream(0).to_vec(), s.stream(1).to_vec(), s.stream(2).to_vec()],
                    });
                    unsafe {
                        let cur = core::ptr::read_volatile(stop_at);
                        if i < cur {
                            core::ptr::write_volatile(stop_at, i);
                        }
                    }
                    break;
                }
            }
        }
        i += o.workers as u64;
    }
    for (g, &v) in s.cov.iter().enumerate() {
        if v != 0 {
            a.cov.insert(g as u32);
        }
    }
    a
}

pub fn drive(o: &Opts, all: &[Prop]) -> Agg {
    let props: Vec<Prop> = all
        .iter()
        .filter(|p| {
            p.id == o.id
                && p.variants.contains(&o.variant.as_str())
                && o.only.as_deref().is_none_or(|n| n == p.name)
        })
        .copied()
        .collect();
    let mut agg = Agg::default();
    if props.is_empty() {
        return agg;
    }
    // interleave scenarios according to their weights
    let mut plan = Vec::new();
    let maxw = props.iter().map(|p| p.weight).max().unwrap_or(1);
    for r in 0..maxw {
        for (k, p) in props.iter().enumerate() {
            if r < p.weight {
                plan.push(k);
            }
        }
    }
    let stop = unsafe {
        let p = libc::mmap(core::ptr::null_mut(), 4096, 3, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) as *mut u64;
        *p = u64::MAX;
        p
    };
    let t0 = raw::real_now();
    let mut pipes = Vec::new();
    for w in 0..o.workers {
        let mut fds = [0i32; 2];
        unsafe { libc::pipe(fds.as_mut_ptr()) };
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe {
                libc::close(fds[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            }
            let a = worker(w, o, &props, &plan, stop, t0);
            let mut f = unsafe { std::fs::File::from_raw_fd(fds[1]) };
            a.write(&mut f);
            drop(f);
            raw::exit_group(0);
        }
        unsafe { libc::close(fds[1]) };
        pipes.push((pid, fds[0]));
    }
    for (pid, fd) in pipes {
        let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
        let mut b = Vec::new();
        let _ = f.read_to_end(&mut b);
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        if !libc::WIFEXITED(st) {
            agg.harness.push("a worker process died".into());
        }
        agg.read(&String::from_utf8_lossy(&b));
    }
    agg.violations.sort_by_key(|v| v.index);
    agg
}

// ---- minimisation ---------------------------------------------------------------------------------

struct Min<'a> {
    p: &'a Prop,
    sh: *mut Shared,
    class: String,
    known: &'a [String],
    seed: u64,
    thorough: bool,
    best: [Vec<u64>; 3],
    spans: Vec<(u32, u32)>,
    execs: u64,
    deadline: f64,
    msg: String,
}

impl Min<'_> {
    fn size(s: &[Vec<u64>; 3]) -> (usize, usize, u64) {
        let trimmed = |v: &Vec<u64>| v.iter().rposition(|&x| x != 0).map_or(0, |p| p + 1);
        (
            trimmed(&s[0]) + trimmed(&s[1]) + trimmed(&s[2]),
            s.iter().map(|v| v.iter().filter(|&&x| x != 0).count()).sum(),
            s.iter().flat_map(|v| v.iter()).fold(0u64, |a, &x| a.saturating_add(x)),
        )
    }
    fn out_of_time(&self) -> bool {
        raw::real_now() > self.deadline
    }
    fn attempt(&mut self, cand: [Vec<u64>; 3]) -> bool {
        if self.out_of_time() {
            return false;
        }
        self.execs += 1;
        let r = execute(self.p, self.sh, self.seed, Some(&cand), false, self.thorough);
        if let Outcome::Violation { class, msg } = r {
            if class == self.class && matches_known(self.known, &class, &msg).is_none() {
                let s = unsafe { &*self.sh };
                let mut got = [s.stream(0).to_vec(), s.stream(1).to_vec(), s.stream(2).to_vec()];
                for v in got.iter_mut() {
                    let n = v.iter().rposition(|&x| x != 0).map_or(0, |p| p + 1);
                    v.truncate(n);
                }
                if Self::size(&got) < Self::size(&self.best) {
                    self.best = got;
                    self.spans = s.spans[..s.nspans as usize].to_vec();
                    self.msg = msg;
                    return true;
                }
            }
        }
        false
    }
    fn run(&mut self) {
        let mut improved = true;
        let mut round = 0;
        while improved && !self.out_of_time() && round < 8 {
            improved = false;
            round += 1;
            // 1. drop the schedule and the faults altogether, then by halves
            for s in [2usize, 1] {
                let mut keep = 0;
                loop {
                    let n = self.best[s].len();
                    if n == 0 || keep >= n {
                        break;
                    }
                    let mut c = self.best.clone();
                    c[s].truncate(keep);
                    if self.attempt(c) {
                        improved = true;
                        break;
                    }
                    keep = if keep == 0 { n / 8 } else { keep * 2 };
                    if keep == 0 {
                        break;
                    }
                }
            }
            // 2. delete spans of the workload, last first
            let mut k = self.spans.len();
            while k > 0 && !self.out_of_time() {
                k -= 1;
                if k >= self.spans.len() {
                    continue;
                }
                let (a, b) = self.spans[k];
                let (a, b) = (a as usize, (b as usize).min(self.best[0].len()));
                if a >= b {
                    continue;
                }
                let mut c = self.best.clone();
                c[0].drain(a..b);
                if self.attempt(c) {
                    improved = true;
                    k = k.min(self.spans.len());
                }
            }
            // 3. zero chunks
            for s in [2usize, 1, 0] {
                let mut len = (self.best[s].len() / 2).max(1);
                loop {
                    let mut at = 0;
                    while at < self.best[s].len() && !self.out_of_time() {
                        let end = (at + len).min(self.best[s].len());
                        if self.best[s][at..end].iter().any(|&x| x != 0) {
                            let mut c = self.best.clone();
                            c[s][at..end].iter_mut().for_each(|x| *x = 0);
                            if self.attempt(c) {
                                improved = true;
                            }
                        }
                        at += len;
                        if s == 2 && at > 4096 {
                            break;
                        }
                    }
                    if len == 1 || self.out_of_time() {
                        break;
                    }
                    len = (len / 4).max(1);
                    if s == 2 && self.best[s].len() / len > 256 {
                        break;
                    }
                }
            }
            // 4. lower single values
            for s in [0usize, 1] {
                let mut i = 0;
                while i < self.best[s].len().min(400) && !self.out_of_time() {
                    let mut v = self.best[s][i];
                    for _ in 0..8 {
                        if v == 0 {
                            break;
                        }
                        let mut c = self.best.clone();
                        c[s][i] = v / 2;
                        if self.attempt(c) {
                            improved = true;
                            if i >= self.best[s].len() {
                                break;
                            }
                            v = self.best[s][i];
                        } else {
                            break;
                        }
                    }
                    if i < self.best[s].len() && self.best[s][i] > 0 {
                        let mut c = self.best.clone();
                        c[s][i] -= 1;
                        if self.attempt(c) {
                            improved = true;
                        }
                    }
                    i += 1;
                }
            }
        }
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Minimises, re-executes from the file contents and writes the replay file.
/// Returns the path, or None if the violation could not be reproduced.
pub fn report(o: &Opts, all: &[Prop], v: &Violation) -> Option<(String, String)> {
    let p = *all.iter().find(|p| p.id == v.prop && p.name == v.scenario)?;
    let sh = Shared::map();
    let mut class = v.class.clone();
    let mut msg = v.msg.clone();
    let mut ok = false;
    for _ in 0..3 {
        match execute(&p, sh, v.seed, Some(&v.streams), false, o.thorough) {
            Outcome::Violation { class: c, msg: m } => {
                class = c;
                msg = m;
                ok = true;
                break;
            }
            _ => continue,
        }
    }
    if !ok {
        return None;
    }
    let s = unsafe { &mut *sh };
    let mut m = Min {
        p: &p,
        sh,
        class: class.clone(),
        known: &o.known,
        seed: v.seed,
        thorough: o.thorough,
        best: v.streams.clone(),
        spans: s.spans[..s.nspans as usize].to_vec(),
        execs: 0,
        deadline: raw::real_now() + o.minimise_secs,
        msg: msg.clone(),
    };
    m.run();
    let execs = m.execs;
    let mut best = m.best.clone();
    let mut fin = execute(&p, sh, v.seed, Some(&best), true, o.thorough);
    if !matches!(&fin, Outcome::Violation { class: c, .. } if *c == class) {
        best = v.streams.clone();
        fin = execute(&p, sh, v.seed, Some(&best), true, o.thorough);
    }
    if let Outcome::Violation { msg: m2, .. } = &fin {
        msg = m2.clone();
    }
    let _ = std::fs::create_dir_all(&o.replay_dir);
    let path = format!("{}/{}-{}-{}-{:016x}.json", o.replay_dir, v.prop, o.variant, v.scenario, v.seed);
    let trace: Vec<String> = s.trace().lines().map(|l| format!("    {}", json_str(l))).collect();
    let body = format!(
        "{{\n  \"property\": {},\n  \"scenario\": {},\n  \"variant\": {},\n  \"thorough\": {},\n  \"verif_seed\": {},\n  \"run_index\": {},\n  \"run_seed\": {},\n  \"class\": {},\n  \"message\": {},\n  \"minimiser_executions\": {},\n  \"choices_before\": [{}, {}, {}],\n  \"history_hash\": {},\n  \"work\": [{}],\n  \"fault\": [{}],\n  \"sched\": [{}],\n  \"trace\": [\n{}\n  ]\n}}\n",
        json_str(&v.prop), json_str(&v.scenario), json_str(&o.variant), o.thorough, o.seed, v.index, v.seed,
        json_str(&class), json_str(&msg), execs,
        v.streams[0].len(), v.streams[1].len(), v.streams[2].len(),
        s.hash, nums(&best[0]), nums(&best[1]), nums(&best[2]), trace.join(",\n")
    );
    if std::fs::write(&path, body).is_err() {
        return None;
    }
    Some((path, format!("{class}: {msg}")))
}

pub fn json_get_str(t: &str, key: &str) -> Option<String> {
    let k = format!("\"{key}\": \"");
    let i = t.find(&k)? + k.len();
    let mut o = String::new();
    let mut it = t[i..].chars();
    while let Some(c) = it.next() {
        match c {
            '"' => return Some(o),
            '\\' => match it.next()? {
                'n' => o.push('\n'),
                't' => o.push('\t'),
                'u' => {
                    let h: String = (0..4).filter_map(|_| it.next()).collect();
                    o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                }
                c => o.push(c),
            },
            c => o.push(c),
        }
    }
    None
}
fn json_get_raw(t: &str, key: &str) -> Option<String> {
    let k = format!("\"{key}\": ");
    let i = t.find(&k)? + k.len();
    Some(t[i..].chars().take_while(|c| !matches!(c, ',' | '\n')).collect())
}
fn json_get_nums(t: &str, key: &str) -> Option<Vec<u64>> {
    let k = format!("\n  \"{key}\": [");
    let i = t.find(&k)? + k.len();
    let e = t[i..].find(']')? + i;
    Some(parse_nums(&t[i..e]))
}

/// Re-executes a replay file. Returns the process exit code.
pub fn replay(file: &str, all: &[Prop], verbose: bool) -> i32 {
    let Ok(t) = std::fs::read_to_string(file) else {
        eprintln!("cannot read {file}");
        return 2;
    };
    let get = || -> Option<(String, String, String, u64, bool, [Vec<u64>; 3], u64)> {
        Some((
            json_get_str(&t, "property")?,
            json_get_str(&t, "scenario")?,
            json_get_str(&t, "class")?,
            json_get_raw(&t, "run_seed")?.trim().parse().ok()?,
            json_get_raw(&t, "thorough")?.trim() == "true",
            [json_get_nums(&t, "work")?, json_get_nums(&t, "fault")?, json_get_nums(&t, "sched")?],
            json_get_raw(&t, "history_hash")?.trim().parse().ok()?,
        ))
    };
    let Some((id, sc, class, seed, thorough, streams, hash)) = get() else {
        eprintln!("not a replay file: {file}");
        return 2;
    };
    let Some(p) = all.iter().find(|p| p.id == id && p.name == sc) else {
        eprintln!("unknown scenario {id}/{sc}");
        return 2;
    };
    let sh = Shared::map();
    let r = execute(p, sh, seed, Some(&streams), true, thorough);
    let s = unsafe { &*sh };
    if verbose {
        print!("{}", s.trace());
    }
    match r {
        Outcome::Violation { class: c, msg } => {
            println!("reproduced: {c}: {msg}");
            println!(
                "history {} ({})",
                if s.hash == hash { "identical to the recorded one" } else { "differs from the recorded one" },
                s.hash
            );
            println!("VIOLATION property={id} replay={file}");
            if c != class {
                println!("note: recorded class was {class}");
            }
            1
        }
        Outcome::Ok => {
            println!("not reproduced: the run passes on this tree");
            0
        }
        Outcome::Harness(m) => {
            eprintln!("harness error: {m}");
            2
        }
    }
}

// ---- command line -----------------------------------------------------------------------------------

/// `run --prop C01 --variant par --seed 1 --runs N --secs T --workers 8 --out stats.txt --replays DIR`
/// or `replay FILE`.
pub fn cli(all: &[Prop]) -> i32 {
    pin_process();
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    match args.get(1).map(|s| s.as_str()) {
        Some("replay") => replay(&args[2], all, args.iter().any(|a| a == "-v")),
        Some("run") => {
            let o = Opts {
                id: get("--prop").unwrap_or_default(),
                variant: get("--variant").unwrap_or_else(|| "par".into()),
                seed: get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
                runs: get("--runs").and_then(|s| s.parse().ok()).unwrap_or(1000),
                secs: get("--secs").and_then(|s| s.parse().ok()).unwrap_or(30.0),
                workers: get("--workers").and_then(|s| s.parse().ok()).unwrap_or(8),
                out: get("--out").unwrap_or_else(|| "/dev/stdout".into()),
                replay_dir: get("--replays").unwrap_or_else(|| "/tmp".into()),
                thorough: args.iter().any(|a| a == "--thorough"),
                only: get("--scenario"),
                known: get("--known")
                    .and_then(|f| std::fs::read_to_string(f).ok())
                    .map(|t| t.lines().map(|l| l.to_string()).filter(|l| !l.is_empty()).collect())
                    .unwrap_or_default(),
                samples: get("--samples").and_then(|s| s.parse().ok()).unwrap_or(2),
                determinism: get("--determinism").and_then(|s| s.parse().ok()).unwrap_or(0),
                minimise_secs: get("--minimise-secs").and_then(|s| s.parse().ok()).unwrap_or(40.0),
            };
            let t0 = raw::real_now();
            let a = drive(&o, all);
            let wall = raw::real_now() - t0;
            let mut text = Vec::new();
            a.write(&mut text);
            let mut code = 0;
            let mut extra = format!("N\twall_ms\t{}\nN\tguards\t{}\n", (wall * 1000.0) as u64, sched::guards());
            if !a.harness.is_empty() && a.violations.is_empty() {
                code = 2;
            }
            for v in a.violations.iter().take(1) {
                match report(&o, all, v) {
                    Some((path, msg)) => {
                        extra.push_str(&format!("R\t{}\t{}\n", path, esc(&msg)));
                        code = 1;
                    }
                    None => {
                        extra.push_str(&format!("E\tnot reproducible: {} {}\n", esc(&v.class), esc(&v.msg)));
                        code = 2;
                    }
                }
            }
            text.extend_from_slice(extra.as_bytes());
            let _ = std::fs::write(&o.out, &text);
            code
        }
        Some("list") => {
            for p in all {
                println!("{} {} {:?}", p.id, p.name, p.variants);
            }
            0
        }
        _ => {
            eprintln!("usage: run|replay|list");
            2
        }
    }
}
