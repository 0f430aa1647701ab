//! Child processes: spawn and wait are answered by the scenario.
use crate::raw::{ret, syscall6};
use crate::{ctx, sched};
use core::ffi::{c_char, c_int, CStr};
use std::collections::BTreeMap;

/// A request to start a program.
pub struct Spawn {
    pub prog: Vec<u8>,
    pub argv: Vec<Vec<u8>>,
    pub env: Vec<Vec<u8>>,
    pub cwd: Option<Vec<u8>>,
    /// its standard output goes to a pipe
    pub captured: bool,
}
/// What becomes of it: a wait status and what it prints on the captured streams.
pub struct Child {
    pub status: i32,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    /// one in n waits is interrupted
    pub eintr: u64,
}
pub type OnSpawn = fn(&Spawn) -> Result<Child, i32>;

struct Procs {
    on: OnSpawn,
    next: i32,
    alive: BTreeMap<i32, (i32, u64)>,
    dups: BTreeMap<usize, Vec<(i32, i32)>>,
    cwd: BTreeMap<usize, Vec<u8>>,
}
static mut PROCS: *mut Procs = core::ptr::null_mut();
static mut ON_EXIT: Option<fn(i32) -> !> = None;

/// From now on the scenario answers for child processes.
pub fn on_spawn(f: OnSpawn) {
    let p = Procs { on: f, next: 70_001, alive: BTreeMap::new(), dups: BTreeMap::new(), cwd: BTreeMap::new() };
    unsafe { PROCS = Box::into_raw(Box::new(p)) }
}
/// ... and for the end of the process.
pub fn on_exit(f: fn(i32) -> !) {
    unsafe { ON_EXIT = Some(f) }
}
fn procs() -> Option<&'static mut Procs> {
    if !sched::simulated() {
        return None;
    }
    unsafe { PROCS.as_mut() }
}

unsafe fn next<T>(name: &CStr) -> T {
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr());
    core::mem::transmute_copy(&p)
}
unsafe fn list(mut p: *const *const c_char) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    while !p.is_null() && !(*p).is_null() {
        v.push(CStr::from_ptr(*p).to_bytes().to_vec());
        p = p.add(1);
    }
    v
}

#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_adddup2(fa: *mut libc::posix_spawn_file_actions_t, fd: c_int, to: c_int) -> c_int {
    if let Some(p) = procs() {
        p.dups.entry(fa as usize).or_default().push((fd, to));
    }
    let f: unsafe extern "C" fn(*mut libc::posix_spawn_file_actions_t, c_int, c_int) -> c_int = next(c"posix_spawn_file_actions_adddup2");
    f(fa, fd, to)
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_destroy(fa: *mut libc::posix_spawn_file_actions_t) -> c_int {
    if let Some(p) = procs() {
        p.dups.remove(&(fa as usize));
        p.cwd.remove(&(fa as usize));
    }
    let f: unsafe extern "C" fn(*mut libc::posix_spawn_file_actions_t) -> c_int = next(c"posix_spawn_file_actions_destroy");
    f(fa)
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_addchdir_np(fa: *mut libc::posix_spawn_file_actions_t, path: *const c_char) -> c_int {
    if let Some(p) = procs() {
        p.cwd.insert(fa as usize, CStr::from_ptr(path).to_bytes().to_vec());
        return 0;
    }
    let f: unsafe extern "C" fn(*mut libc::posix_spawn_file_actions_t, *const c_char) -> c_int = next(c"posix_spawn_file_actions_addchdir_np");
    f(fa, path)
}

unsafe fn put(fd: Option<i32>, mut b: &[u8]) {
    let Some(fd) = fd else { return };
    while !b.is_empty() {
        let n = syscall6(libc::SYS_write, fd as i64, b.as_ptr() as i64, b.len() as i64, 0, 0, 0);
        if n <= 0 {
            return;
        }
        b = &b[n as usize..];
    }
}

#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(
    pid: *mut libc::pid_t,
    file: *const c_char,
    fa: *const libc::posix_spawn_file_actions_t,
    at: *const libc::posix_spawnattr_t,
    argv: *const *const c_char,
    envp: *const *const c_char,
) -> c_int {
    let Some(p) = procs() else {
        type F = unsafe extern "C" fn(
            *mut libc::pid_t,
            *const c_char,
            *const libc::posix_spawn_file_actions_t,
            *const libc::posix_spawnattr_t,
            *const *const c_char,
            *const *const c_char,
        ) -> c_int;
        let f: F = next(c"posix_spawnp");
        return f(pid, file, fa, at, argv, envp);
    };
    let dups = p.dups.get(&(fa as usize)).cloned().unwrap_or_default();
    let to = |n: i32| dups.iter().rev().find(|d| d.1 == n).map(|d| d.0);
    let s = Spawn {
        prog: CStr::from_ptr(file).to_bytes().to_vec(),
        argv: list(argv),
        env: list(envp),
        cwd: p.cwd.get(&(fa as usize)).cloned(),
        captured: to(1).is_some(),
    };
    match (p.on)(&s) {
        Err(e) => e,
        Ok(c) => {
            put(to(1), &c.out[..c.out.len().min(60_000)]);
            put(to(2), &c.err[..c.err.len().min(60_000)]);
            let n = p.next;
            p.next += 1;
            p.alive.insert(n, (c.status, c.eintr));
            *pid = n;
            0
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn waitpid(pid: libc::pid_t, status: *mut c_int, opt: c_int) -> libc::pid_t {
    if let Some(p) = procs() {
        let Some((s, e)) = p.alive.get(&pid).copied() else { return ret(-(libc::ECHILD as i64)) as i32 };
        if e > 0 && ctx::draw(ctx::S::Fault, e) == e - 1 {
            ctx::fault("fault:wait_eintr");
            return ret(-(libc::EINTR as i64)) as i32;
        }
        p.alive.remove(&pid);
        if !status.is_null() {
            *status = s;
        }
        return pid;
    }
    ret(syscall6(libc::SYS_wait4, pid as i64, status as i64, opt as i64, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn fork() -> libc::pid_t {
    if procs().is_some() {
        ctx::harness_error("the program forked");
    }
    let f: unsafe extern "C" fn() -> libc::pid_t = next(c"fork");
    f()
}

/// The program replaced itself: it ends with whatever the new one ends with.
#[no_mangle]
pub unsafe extern "C" fn execvp(file: *const c_char, argv: *const *const c_char) -> c_int {
    if let Some(p) = procs() {
        extern "C" {
            static environ: *const *const c_char;
        }
        let s = Spawn { prog: CStr::from_ptr(file).to_bytes().to_vec(), argv: list(argv), env: list(environ), cwd: None, captured: false };
        match (p.on)(&s) {
            Err(e) => return ret(-(e as i64)) as c_int,
            Ok(c) => {
                let code = if c.status & 0x7f == 0 { c.status >> 8 & 0xff } else { 128 + (c.status & 0x7f) };
                ON_EXIT.expect("exit hook")(code)
            }
        }
    }
    let f: unsafe extern "C" fn(*const c_char, *const *const c_char) -> c_int = next(c"execvp");
    f(file, argv)
}

#[no_mangle]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    if sched::simulated() {
        if let Some(f) = ON_EXIT {
            f(code);
        }
    }
    let f: unsafe extern "C" fn(c_int) -> ! = next(c"exit");
    f(code)
}
