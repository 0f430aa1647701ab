//! C17: the task runner among missing, failing, killed and babbling tools.
use crate::program;
use simrt::ctx::{self, S};
use simrt::procs::{self, Child, Spawn};
use simrt::{ev, interpose, violation};
use std::collections::BTreeSet;
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;

/// What a probing tool does when it is started.
#[derive(Clone, Debug, Default)]
struct Tool {
    missing: Option<i32>,
    status: i32,
    out: Vec<u8>,
    /// the output is what the tool normally prints
    tidy: bool,
}

/// How the run of one command ends.
#[derive(Clone, Debug)]
enum End {
    NotStarted(i32),
    Code(i32),
    Signal(i32),
}

#[derive(Default)]
struct World {
    uname: Tool,
    lscpu: Tool,
    sysctl: Tool,
    cpus: usize,
    arch: Option<Vec<u8>>,
    extra: Option<Vec<u8>>,
    rustflags: Option<Vec<u8>>,
    task: &'static str,
    args: Vec<String>,
    ran: Vec<(Cmd, End)>,
    opaque: bool,
}
#[derive(Clone, Debug)]
struct Cmd {
    argv: Vec<String>,
    rustflags: Option<Vec<u8>>,
}

static mut WORLD: *mut World = core::ptr::null_mut();
fn world() -> &'static mut World {
    unsafe { &mut *WORLD }
}

const LEVELS: [&str; 3] = ["avx512f", "avx2", "sse4_1"];

fn fail_errno() -> i32 {
    [libc::ENOENT, libc::EACCES, libc::EAGAIN, libc::ENOMEM, libc::ENOEXEC][ctx::draw(S::Fault, 5) as usize]
}

fn tool(normal: Vec<u8>) -> Tool {
    let mut t = Tool { missing: None, status: 0, out: normal, tidy: true };
    match ctx::draw(S::Fault, 12) {
        0..=4 => {}
        5 | 6 => {
            t.missing = Some(fail_errno());
            ctx::fault("fault:tool missing");
        }
        7 => {
            t.status = (1 + ctx::draw(S::Fault, 254) as i32) << 8;
            t.out.clear();
            ctx::fault("fault:tool failed");
        }
        8 => {
            t.status = if ctx::draw(S::Fault, 2) == 0 { 1 << 8 } else { [9, 11, 15, 13][ctx::draw(S::Fault, 4) as usize] };
            let keep = ctx::draw(S::Fault, t.out.len() as u64 + 1) as usize;
            t.out.truncate(keep);
            t.tidy = false;
            ctx::fault("fault:tool failed after printing");
        }
        9 => {
            let keep = ctx::draw(S::Fault, t.out.len() as u64 + 1) as usize;
            t.out.truncate(keep);
            t.tidy = false;
            ctx::fault("fault:tool output cut off");
        }
        10 => {
            t.out.clear();
            t.tidy = false;
            ctx::fault("fault:tool printed nothing");
        }
        _ => {
            let n = 1 + ctx::draw(S::Fault, 300);
            let mut r = simrt::prng::Rng::new(n * 31 + 7);
            t.out = (0..n).map(|_| r.below(256) as u8).collect();
            if ctx::draw(S::Fault, 2) == 1 {
                t.out.extend_from_slice(b"\nflags \xff\xfe\x80");
            }
            t.tidy = false;
            ctx::fault("fault:tool printed rubbish");
        }
    }
    t
}

fn machine() -> (&'static str, Vec<u8>) {
    let arch = *ctx::pick(&["x86_64", "x86_64", "x86_64", "aarch64", "arm64", "riscv64", "i686"]);
    let flags = *ctx::pick(&[
        "fpu vme sse sse2 sse4_1 sse4_2 avx avx2 fma",
        "fpu vme sse sse2 sse4_1 sse4_2 avx avx2 fma avx512f avx512dq",
        "fpu vme sse sse2 sse4_1",
        "fpu vme sse sse2",
        "fpu avx512f",
    ]);
    let mut out = format!("Architecture: {arch}\nCPU(s): 8\nVendor ID: Genuine\n");
    out.push_str(ctx::pick(&["Flags:   ", "flags\t\t: ", "CPU FLAGS: "]));
    out.push_str(flags);
    out.push_str("\nVirtualization: none\n");
    (arch, out.into_bytes())
}

fn draw_world() -> World {
    let (arch, lscpu) = machine();
    let plain_lscpu = if ctx::w(5) == 4 { b"Architecture: x86_64\nCPU(s): 8\n".to_vec() } else { lscpu };
    let w = World {
        uname: tool(format!("{arch}\n").into_bytes()),
        lscpu: tool(plain_lscpu),
        sysctl: tool(ctx::pick(&["FPU SSE SSE2 AVX1.0\n", "fpu sse4_1 avx2\n", "fpu sse4_1 avx2 avx512f\n", "sse4_1\n"]).as_bytes().to_vec()),
        cpus: *ctx::pick(&[4usize, 1, 2, 16, 0]),
        arch: match ctx::w(11) {
            0..=2 => None,
            3 => Some(b"".to_vec()),
            4 => Some(b" \t ".to_vec()),
            5 => Some(b"aarch64".to_vec()),
            6 => Some(b"x86_64".to_vec()),
            // machines there is no feature for
            7 => Some(b"riscv64".to_vec()),
            8 => Some(ctx::pick(&[&b"i686"[..], b"armv7l", b"unknown", b"0"]).to_vec()),
            9 => Some(b"arm64".to_vec()),
            _ => Some(b"x86\xff".to_vec()),
        },
        extra: match ctx::w(7) {
            0 | 1 => None,
            2 => Some(b"".to_vec()),
            3 => Some(b"  simd \t soa\n".to_vec()),
            4 => Some(b"parallel".to_vec()),
            5 => Some(b"wasm".to_vec()),
            _ => Some(b"simd \xfe".to_vec()),
        },
        rustflags: if ctx::w(4) == 3 { Some(b"-C debuginfo=1".to_vec()) } else { None },
        ..Default::default()
    };
    for (k, v) in [("ARCH", &w.arch), ("KOFFT_FEATURES", &w.extra), ("RUSTFLAGS", &w.rustflags)] {
        match v {
            Some(v) => std::env::set_var(k, OsStr::from_bytes(v)),
            None => std::env::remove_var(k),
        }
    }
    if w.cpus == 0 {
        ctx::fault("fault:processor count unknown");
    }
    interpose::set_cpus(w.cpus);
    w
}

fn text(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

fn on_spawn(s: &Spawn) -> Result<Child, i32> {
    let w = world();
    let prog = text(&s.prog);
    let name = prog.rsplit('/').next().unwrap_or("").to_string();
    let eintr = [0, 0, 2, 3][ctx::draw(S::Fault, 4) as usize];
    let argv: Vec<String> = s.argv.iter().map(|a| text(a)).collect();
    let t = match name.as_str() {
        "uname" => Some(&w.uname),
        "lscpu" => Some(&w.lscpu),
        "sysctl" => Some(&w.sysctl),
        _ => None,
    };
    ctx::count("processes started");
    if let Some(t) = t {
        ev!("{argv:?}: {:?}, status {}", t.missing, t.status);
        return match t.missing {
            Some(e) => Err(e),
            None => Ok(Child { status: t.status, out: t.out.clone(), err: b"noise".to_vec(), eintr }),
        };
    }
    let rustflags = s.env.iter().find_map(|e| e.strip_prefix(b"RUSTFLAGS=".as_slice())).map(|v| v.to_vec());
    if s.captured && name != "cargo" && name != "sh" {
        return Err(libc::ENOENT);
    }
    if name == "sh" || name == "bash" {
        if let Some(i) = argv.iter().position(|a| a.starts_with('-') && a.ends_with('c')) {
            if let Some(script) = argv.get(i + 1) {
                let whole = end();
                if let End::NotStarted(e) = whole {
                    w.ran.push((Cmd { argv, rustflags }, whole));
                    return Err(e);
                }
                let status = shell(script, argv[1..=i].iter().any(|a| a.contains('e')), &rustflags);
                return Ok(Child { status, out: vec![], err: vec![], eintr });
            }
        }
    }
    let e = end();
    ev!("{argv:?}: {e:?}");
    w.ran.push((Cmd { argv, rustflags }, e.clone()));
    match e {
        End::NotStarted(e) => Err(e),
        End::Code(c) => Ok(Child { status: c << 8, out: vec![], err: vec![], eintr }),
        End::Signal(s) => Ok(Child { status: s, out: vec![], err: vec![], eintr }),
    }
}

fn end() -> End {
    match ctx::draw(S::Fault, 8) {
        0..=3 => End::Code(0),
        4 | 5 => {
            ctx::fault("fault:command failed");
            End::Code([1, 2, 101, 255, 127][ctx::draw(S::Fault, 5) as usize])
        }
        6 => {
            ctx::fault("fault:command killed");
            End::Signal([9, 15, 11, 6, 2][ctx::draw(S::Fault, 5) as usize])
        }
        _ => {
            ctx::fault("fault:command could not start");
            End::NotStarted(fail_errno())
        }
    }
}

/// Runs the simple commands of a script. Gives the wait status of the shell.
fn shell(script: &str, mut errexit: bool, rustflags: &Option<Vec<u8>>) -> i32 {
    let w = world();
    // tokens: words and operators
    let mut list: Vec<(String, Vec<String>)> = vec![(";".into(), vec![])];
    let mut word: Option<String> = None;
    let mut it = script.chars().peekable();
    let mut opaque = false;
    macro_rules! finish {
        () => {
            if let Some(x) = word.take() {
                list.last_mut().unwrap().1.push(x);
            }
        };
    }
    while let Some(c) = it.next() {
        match c {
            '\'' | '"' => {
                let x = word.get_or_insert_with(String::new);
                loop {
                    match it.next() {
                        None => {
                            opaque = true;
                            break;
                        }
                        Some(d) if d == c => break,
                        Some('$' | '`') if c == '"' => opaque = true,
                        Some(d) => x.push(d),
                    }
                }
            }
            '\\' => {
                if it.peek() == Some(&'\n') {
                    it.next();
                } else if let Some(d) = it.next() {
                    word.get_or_insert_with(String::new).push(d);
                }
            }
            '#' if word.is_none() => while it.peek().is_some_and(|d| *d != '\n') {
                it.next();
            },
            ' ' | '\t' => finish!(),
            '&' if it.peek() == Some(&'&') => {
                it.next();
                finish!();
                list.push(("&&".into(), vec![]));
            }
            '|' if it.peek() == Some(&'|') => {
                it.next();
                finish!();
                list.push(("||".into(), vec![]));
            }
            ';' | '\n' => {
                finish!();
                // a line break after an operator continues the list
                if !(c == '\n' && list.last().unwrap().1.is_empty()) {
                    list.push((";".into(), vec![]));
                }
            }
            '&' | '|' | '(' | ')' | '{' | '}' | '<' | '>' | '$' | '`' | '!' => opaque = true,
            c => word.get_or_insert_with(String::new).push(c),
        }
    }
    finish!();
    const KEYWORDS: [&str; 12] = ["if", "then", "else", "fi", "for", "while", "do", "done", "case", "trap", "exec", "eval"];
    if opaque || list.iter().any(|(_, c)| c.first().is_some_and(|x| KEYWORDS.contains(&x.as_str()))) {
        w.opaque = true;
        ctx::count("scripts beyond the simulated shell");
        let code = match end() {
            End::Code(c) => c,
            _ => 1,
        };
        w.ran.push((Cmd { argv: vec!["(script)".into()], rustflags: rustflags.clone() }, End::Code(code)));
        return code << 8;
    }
    let mut status = 0;
    let n = list.len();
    for i in 0..n {
        let (op, cmd) = &list[i];
        match op.as_str() {
            "&&" if status != 0 => continue,
            "||" if status == 0 => continue,
            _ => {}
        }
        if cmd.is_empty() {
            continue;
        }
        if cmd[0] == "set" {
            errexit |= cmd[1..].iter().any(|a| a.starts_with('-') && a.contains('e'));
            status = 0;
            continue;
        }
        if cmd[0] == "true" || cmd[0] == "echo" || cmd[0] == ":" {
            status = 0;
            continue;
        }
        if cmd[0] == "exit" {
            return cmd.get(1).and_then(|c| c.parse().ok()).unwrap_or(status) << 8;
        }
        let e = end();
        ev!("sh: {cmd:?}: {e:?}");
        status = match e {
            End::Code(c) => c,
            End::Signal(s) => 128 + s,
            End::NotStarted(x) => {
                if x == libc::ENOENT {
                    127
                } else {
                    126
                }
            }
        };
        w.ran.push((Cmd { argv: cmd.clone(), rustflags: rustflags.clone() }, End::Code(status)));
        ctx::count("script steps run");
        let next_list = i + 1 == n || list[i + 1].0 == ";";
        if errexit && status != 0 && next_list {
            break;
        }
    }
    status << 8
}

/// What the tools could be taken to have said.
fn candidates(w: &World) -> Vec<(String, &'static str)> {
    let mut archs: Vec<String> = Vec::new();
    let uname = |archs: &mut Vec<String>| {
        let t = &w.uname;
        if t.missing.is_none() {
            archs.push(text(&t.out));
        }
        if t.missing.is_some() || t.status != 0 || !t.tidy {
            archs.push(String::new());
        }
    };
    match &w.arch {
        Some(a) if std::str::from_utf8(a).is_err() => {
            archs.push(text(a));
            uname(&mut archs);
        }
        Some(a) if !a.iter().all(|b| b.is_ascii_whitespace()) => archs.push(text(a)),
        _ => uname(&mut archs),
    }
    let levels_in = |b: &[u8]| -> Vec<&'static str> {
        let s = text(b);
        LEVELS.into_iter().filter(|l| s.contains(l)).collect()
    };
    let mut flags: BTreeSet<&'static str> = BTreeSet::new();
    let clean = |t: &Tool| t.missing.is_none() && t.status == 0 && t.tidy;
    let l = &w.lscpu;
    let has = |t: &Tool| text(&t.out).to_lowercase().contains("flags");
    let first = |b: &[u8]| levels_in(b).first().copied().unwrap_or("");
    let mut fall = true;
    if l.missing.is_none() && has(l) {
        if clean(l) {
            flags.insert(first(&l.out));
            fall = false;
        } else {
            flags.extend(levels_in(&l.out));
            flags.insert("");
        }
    }
    if fall {
        let s = &w.sysctl;
        if s.missing.is_none() && s.status == 0 && s.tidy {
            flags.insert(first(&s.out));
        } else {
            flags.insert("");
            if s.missing.is_none() {
                flags.extend(levels_in(&s.out));
            }
        }
    }
    archs.iter().flat_map(|a| flags.iter().map(|f| (a.clone(), *f)).collect::<Vec<_>>()).collect()
}

/// All configurations the world justifies: features, compiler flags.
fn justified(w: &World) -> Vec<(BTreeSet<String>, Option<&'static str>)> {
    let extras: Vec<String> = match &w.extra {
        None => vec![String::new()],
        Some(e) => match std::str::from_utf8(e) {
            Ok(s) => vec![s.to_string()],
            Err(_) => vec![String::new(), text(e)],
        },
    };
    let mut all = Vec::new();
    for (arch, level) in candidates(w) {
        for extra in &extras {
            let mut f: BTreeSet<String> = BTreeSet::new();
            let mut rf = None;
            if arch.contains("x86_64") {
                f.insert("x86_64".into());
                match level {
                    "avx512f" => {
                        f.insert("avx512".into());
                        rf = Some("-C target-feature=+avx512f,+fma");
                    }
                    "avx2" => {
                        f.insert("avx2".into());
                        rf = Some("-C target-feature=+avx2,+fma");
                    }
                    "sse4_1" => {
                        f.insert("sse".into());
                    }
                    _ => {}
                }
            } else if arch.contains("aarch64") || arch.contains("arm64") {
                f.insert("aarch64".into());
            }
            if w.cpus > 1 {
                f.insert("parallel".into());
            }
            f.extend(extra.split_whitespace().map(|s| s.to_string()));
            all.push((f, rf));
        }
    }
    all
}

fn told(w: &World) -> String {
    let t = |t: &Tool| match t.missing {
        Some(e) => format!("missing (error {e})"),
        None => format!("status {}, {} {:?}", t.status, if t.tidy { "printed" } else { "printed rubbish" }, text(&t.out).chars().take(160).collect::<String>()),
    };
    format!(
        "ARCH={:?} KOFFT_FEATURES={:?} processors={}; uname {}; lscpu {}; sysctl {}",
        w.arch.as_deref().map(text),
        w.extra.as_deref().map(text),
        w.cpus,
        t(&w.uname),
        t(&w.lscpu),
        t(&w.sysctl)
    )
}

pub fn detect() {
    program::quiet();
    unsafe { WORLD = Box::into_raw(Box::default()) };
    procs::on_spawn(on_spawn);
    ctx::repeat(1, 5, 3, |_| {
        *world() = draw_world();
        let w = world();
        let cfg = xtask::detect_config();
        let f: BTreeSet<String> = cfg.features.iter().cloned().collect();
        let ok = justified(w);
        ev!("{} -> {:?} {:?} {}", told(w), cfg.features, cfg.rustflags, cfg.example);
        if !w.ran.is_empty() {
            violation!("ran-command", "detection ran {:?}", w.ran[0].0.argv);
        }
        if f.len() != cfg.features.len() && !w.extra.as_ref().is_some_and(|e| e == b"parallel") {
            violation!("wrong-features", "{}: features {:?} contain duplicates", told(w), cfg.features);
        }
        if !ok.iter().any(|(g, rf)| *g == f && rf.map(|s| s.to_string()) == cfg.rustflags) {
            violation!("wrong-features", "{}: detected {:?} with compiler flags {:?}, justified would be {:?}", told(w), f, cfg.rustflags, ok);
        }
        let example = if f.contains("parallel") { "parallel_benchmark" } else { "benchmark" };
        if cfg.example != example {
            violation!("wrong-features", "{}: features {f:?} but example {}", told(w), cfg.example);
        }
        ctx::count("detections checked");
        ctx::nontrivial();
        ctx::state(simrt::prng::hash_bytes(7, format!("{f:?}").as_bytes()));
    });
}

const TASKS: [&str; 10] = ["build", "test", "clippy", "fmt", "analyze", "benchmark", "bench-libs", "update-bench-readme", "web-spectrogram", "sanity"];

pub fn tasks() {
    program::quiet();
    let mut w = draw_world();
    w.task = ctx::pick(&TASKS);
    w.args = vec!["xtask".into(), w.task.into()];
    if w.task == "sanity" {
        w.args.push(ctx::pick(&["in.flac", "dir with space/a.wav", "\u{e4}.mp3"]).to_string());
        w.args.push(ctx::pick(&["out.png", "o u t.png"]).to_string());
    }
    unsafe { WORLD = Box::into_raw(Box::new(w)) };
    let w = world();
    procs::on_spawn(on_spawn);
    procs::on_exit(|code| done(code & 0xff));
    program::set_args(&w.args.iter().map(|s| s.as_str()).collect::<Vec<_>>());
    ev!("{:?}", w.args);
    done(program::xtask_bin::run());
}

fn features(argv: &[String]) -> BTreeSet<String> {
    let mut all = BTreeSet::new();
    for (i, a) in argv.iter().enumerate() {
        if a == "--" {
            break;
        }
        let v = if a == "--features" || a == "-F" { argv.get(i + 1).cloned() } else { a.strip_prefix("--features=").map(|s| s.to_string()) };
        if let Some(v) = v {
            all.extend(v.split([' ', ',']).filter(|s| !s.is_empty()).map(|s| s.to_string()));
        }
    }
    all
}

fn done(code: i32) -> ! {
    let w = world();
    let what = format!("{:?} ended with {code} after {:?}", w.args, w.ran.iter().map(|(c, e)| (c.argv.join(" "), e.clone())).collect::<Vec<_>>());
    ev!("{what}");
    // no step after a failed one, and the failure is passed on
    let failed = w.ran.iter().position(|(_, e)| !matches!(e, End::Code(0)));
    if let Some(k) = failed {
        if k + 1 < w.ran.len() {
            violation!("ran-on", "{what}: {:?} was started after {:?} had failed", w.ran[k + 1].0.argv, w.ran[k].0.argv);
        }
        let want = match w.ran[k].1 {
            End::Code(c) => Some(c),
            _ => None,
        };
        if code == 0 {
            violation!("false-success", "{what}: reported success although {:?} did not succeed", w.ran[k].0.argv);
        }
        if want.is_some_and(|c| c != code) {
            violation!("wrong-status", "{what}: the failing command's status was not passed on");
        }
        ctx::count("runs with a failing command");
    } else if code != 0 {
        violation!("false-failure", "{what}: reported failure although every command succeeded; {}", told(w));
    }
    let all = failed.is_none();
    let starts = |c: &Cmd, want: &[&str]| {
        let mut it = c.argv.iter();
        want.iter().all(|x| it.any(|a| a == x))
    };
    let expected: Vec<Vec<&str>> = match w.task {
        "build" => vec![vec!["cargo", "build"]],
        "test" => vec![vec!["cargo", "test"]],
        "clippy" => vec![vec!["cargo", "clippy"]],
        "fmt" => vec![vec!["cargo", "fmt"]],
        "analyze" => vec![vec!["cargo", "fmt"], vec!["cargo", "clippy"]],
        "benchmark" => vec![vec!["cargo", "run", "--example"]],
        "bench-libs" => vec![vec!["cargo", "bench"]],
        "update-bench-readme" => vec![vec!["cargo", "run", "--example", "update_bench_readme"]],
        "sanity" => vec![vec!["cargo", "run", "sanity-check", "--", &w.args[2], &w.args[3]]],
        _ => vec![vec!["wasm-pack", "build"], vec!["cargo", "run", "web-spectrogram"]],
    };
    if w.task == "web-spectrogram" {
        if all && !w.opaque {
            let mut it = w.ran.iter();
            for e in &expected {
                if !it.any(|(c, _)| starts(c, e)) {
                    violation!("left-out", "{what}: reported success without {e:?}");
                }
            }
        }
    } else {
        if w.ran.is_empty() {
            violation!("left-out", "{what}: nothing was run");
        }
        for (i, (c, _)) in w.ran.iter().enumerate() {
            match expected.get(i) {
                Some(e) if starts(c, e) => {}
                e => violation!("wrong-command", "{what}: command {i} is {:?}, expected {e:?}", c.argv),
            }
        }
        if all && w.ran.len() < expected.len() {
            violation!("left-out", "{what}: reported success without {:?}", expected[w.ran.len()]);
        }
    }
    // features and compiler flags of the command
    if !matches!(w.task, "clippy" | "fmt" | "analyze" | "web-spectrogram" | "sanity") {
        let (c, _) = &w.ran[0];
        let f = features(&c.argv);
        let bench = matches!(w.task, "benchmark" | "bench-libs" | "update-bench-readme");
        let ok = justified(w);
        let fits = ok.iter().any(|(g, rf)| {
            *g == f
                && match (bench, rf) {
                    (true, Some(r)) => c.rustflags.as_deref() == Some(r.as_bytes()) || c.rustflags.as_deref().is_some_and(|x| w.rustflags.is_some() && text(x).contains(r)),
                    _ => c.rustflags == w.rustflags,
                }
        });
        if !fits {
            violation!("wrong-features", "{what} with compiler flags {:?}; {}; justified would be {ok:?}", c.rustflags.as_deref().map(text), told(w));
        }
        if w.task == "benchmark" {
            let want = if f.contains("parallel") { "parallel_benchmark" } else { "benchmark" };
            let at = c.argv.iter().position(|a| a == "--example").unwrap();
            if c.argv.get(at + 1).map(|s| s.as_str()) != Some(want) {
                violation!("wrong-features", "{what}: features {f:?} but example {:?}", c.argv.get(at + 1));
            }
        }
    } else if w.ran.iter().any(|(c, _)| c.rustflags != w.rustflags) {
        violation!("wrong-features", "{what}: compiler flags were changed");
    }
    ctx::count("runs of the task runner checked");
    ctx::nontrivial();
    ctx::state(simrt::prng::hash_bytes(w.ran.len() as u64 * 1000 + code as u64, w.task.as_bytes()));
    ctx::finish_ok()
}
