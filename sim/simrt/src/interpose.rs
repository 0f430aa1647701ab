//! libc symbols defined by this executable; std, rayon and the code under test bind to them.
use crate::raw::{self, ret, syscall6};
use crate::{ctx, fs, net, sched};
use core::ffi::{c_char, c_int, c_long, c_void, CStr};
use core::sync::atomic::{AtomicUsize, Ordering};

static mut NCPUS: usize = 4;

/// 0: the machine does not say.
pub fn set_cpus(n: usize) {
    unsafe { NCPUS = n.min(64) }
}

fn real(name: &CStr, slot: &AtomicUsize) -> usize {
    let p = slot.load(Ordering::Relaxed);
    if p != 0 {
        return p;
    }
    let p = unsafe { libc::dlsym(libc::RTLD_NEXT, name.as_ptr()) as usize };
    slot.store(p, Ordering::Relaxed);
    p
}

static R_CREATE: AtomicUsize = AtomicUsize::new(0);
static R_JOIN: AtomicUsize = AtomicUsize::new(0);
static R_DTOR: AtomicUsize = AtomicUsize::new(0);
static R_SYSCONF: AtomicUsize = AtomicUsize::new(0);

pub fn resolve() {
    real(c"pthread_create", &R_CREATE);
    real(c"pthread_join", &R_JOIN);
    real(c"__cxa_thread_atexit_impl", &R_DTOR);
    real(c"sysconf", &R_SYSCONF);
}

// ---- threads, time, randomness ------------------------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if sched::simulated() {
        if n == libc::SYS_futex {
            return ret(sched::futex(a as *mut u32, b as i32, c as u32, d as *const libc::timespec, f as u32));
        }
        if n == libc::SYS_getrandom {
            return getrandom(a as *mut c_void, b as usize, c as u32) as c_long;
        }
        if n == libc::SYS_sched_yield {
            sched::yield_now();
            return 0;
        }
    }
    ret(syscall6(n, a, b, c, d, e, f))
}

type StartFn = extern "C" fn(*mut c_void) -> *mut c_void;
type CreateFn = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, StartFn, *mut c_void) -> i32;

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    out: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: StartFn,
    arg: *mut c_void,
) -> c_int {
    let r: CreateFn = core::mem::transmute(real(c"pthread_create", &R_CREATE));
    if sched::simulated() {
        return sched::create(r, out, attr, f, arg);
    }
    r(out, attr, f, arg)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, v: *mut *mut c_void) -> c_int {
    if sched::simulated() {
        if !v.is_null() {
            *v = core::ptr::null_mut();
        }
        return sched::join(t as usize);
    }
    let r: unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int =
        core::mem::transmute(real(c"pthread_join", &R_JOIN));
    r(t, v)
}

#[no_mangle]
pub unsafe extern "C" fn __cxa_thread_atexit_impl(
    f: unsafe extern "C" fn(*mut u8),
    obj: *mut u8,
    dso: *mut c_void,
) -> c_int {
    if sched::simulated() {
        sched::add_dtor(f, obj);
        return 0;
    }
    let p = real(c"__cxa_thread_atexit_impl", &R_DTOR);
    let r: unsafe extern "C" fn(unsafe extern "C" fn(*mut u8), *mut u8, *mut c_void) -> c_int = core::mem::transmute(p);
    r(f, obj, dso)
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if sched::simulated() {
        sched::yield_now();
        return 0;
    }
    syscall6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int
}

unsafe fn sleep_ts(flags: c_int, req: *const libc::timespec) {
    let t = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
    let deadline = if flags & 1 != 0 { t } else { sched::now() + t };
    sched::sleep_until(deadline);
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if sched::simulated() {
        sleep_ts(0, req);
        return 0;
    }
    ret(syscall6(libc::SYS_nanosleep, req as i64, rem as i64, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: c_int, flags: c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if sched::simulated() {
        sleep_ts(flags, req);
        return 0;
    }
    -syscall6(libc::SYS_clock_nanosleep, clk as i64, flags as i64, req as i64, rem as i64, 0, 0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut libc::timespec) -> c_int {
    if sched::simulated() {
        let t = sched::now();
        let t = if clk == libc::CLOCK_REALTIME { t + EPOCH } else { t };
        (*ts).tv_sec = (t / 1_000_000_000) as i64;
        (*ts).tv_nsec = (t % 1_000_000_000) as i64;
        ctx::count("clock:read");
        return 0;
    }
    ret(syscall6(libc::SYS_clock_gettime, clk as i64, ts as i64, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, flags: u32) -> isize {
    if sched::simulated() {
        let mut x = crate::prng::mix(ctx::seed() ^ 0x7261_6e64);
        for i in 0..len {
            if i % 8 == 0 {
                x = crate::prng::mix(x);
            }
            *(buf as *mut u8).add(i) = (x >> (8 * (i % 8))) as u8;
        }
        return len as isize;
    }
    ret(syscall6(libc::SYS_getrandom, buf as i64, len as i64, flags as i64, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: c_int, size: usize, set: *mut u8) -> c_int {
    if sched::simulated() {
        if NCPUS == 0 {
            return ret(-(libc::EPERM as i64)) as c_int;
        }
        core::ptr::write_bytes(set, 0, size);
        for i in 0..NCPUS {
            *set.add(i / 8) |= 1 << (i % 8);
        }
        return 0;
    }
    let r = syscall6(libc::SYS_sched_getaffinity, pid as i64, size as i64, set as i64, 0, 0, 0);
    if r < 0 {
        return ret(r) as c_int;
    }
    if (r as usize) < size {
        core::ptr::write_bytes(set.add(r as usize), 0, size - r as usize);
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn sysconf(name: c_int) -> c_long {
    if sched::simulated() && (name == libc::_SC_NPROCESSORS_ONLN || name == libc::_SC_NPROCESSORS_CONF) {
        return if NCPUS == 0 { -1 } else { NCPUS as c_long };
    }
    let r: unsafe extern "C" fn(c_int) -> c_long = core::mem::transmute(real(c"sysconf", &R_SYSCONF));
    r(name)
}

// ---- files --------------------------------------------------------------------------------------

unsafe fn bytes<'a>(p: *const c_char) -> &'a [u8] {
    CStr::from_ptr(p).to_bytes()
}

unsafe fn sim_path(p: *const c_char) -> Option<String> {
    if !sched::simulated() {
        return None;
    }
    let r = fs::locate(bytes(p));
    if r.is_some() {
        fs::delay();
    }
    r
}

fn sim_fd(fd: c_int) -> bool {
    fd >= 5000 && sched::simulated() && fs::our_fd(fd)
}

unsafe fn open_common(dir: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if let Some(p) = sim_path(path) {
        return ret(fs::fs().open(&p, flags)) as c_int;
    }
    if sched::simulated() && bytes(path).starts_with(b"/proc/self/cgroup") {
        return ret(-(libc::ENOENT as i64)) as c_int;
    }
    ret(syscall6(libc::SYS_openat, dir as i64, path as i64, flags as i64, mode as i64, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    open_common(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    open_common(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    open_common(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    open_common(dir, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if sim_net(fd) {
        return ret(net::net().close(fd)) as c_int;
    }
    if sim_fd(fd) {
        return ret(fs::fs().close(fd)) as c_int;
    }
    ret(syscall6(libc::SYS_close, fd as i64, 0, 0, 0, 0, 0)) as c_int
}

unsafe fn fcntl_common(fd: c_int, cmd: c_int, arg: i64) -> c_int {
    if sim_net(fd) {
        return match cmd {
            libc::F_GETFD => libc::FD_CLOEXEC,
            libc::F_GETFL => libc::O_RDWR | libc::O_NONBLOCK,
            libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => ret(net::net().dup(fd)) as c_int,
            _ => 0,
        };
    }
    if sim_fd(fd) {
        return match cmd {
            libc::F_GETFD => libc::FD_CLOEXEC,
            _ => 0,
        };
    }
    ret(syscall6(libc::SYS_fcntl, fd as i64, cmd as i64, arg, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: i64) -> c_int {
    fcntl_common(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: i64) -> c_int {
    fcntl_common(fd, cmd, arg)
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    if sim_net(fd) {
        return ret(net_recv(fd, buf as *mut u8, n)) as isize;
    }
    if sim_fd(fd) {
        fs::delay();
        return ret(fs::fs().read(fd, buf as *mut u8, n, None)) as isize;
    }
    ret(syscall6(libc::SYS_read, fd as i64, buf as i64, n as i64, 0, 0, 0)) as isize
}

unsafe fn pread_common(fd: c_int, buf: *mut c_void, n: usize, off: i64) -> isize {
    if sim_fd(fd) {
        return ret(fs::fs().read(fd, buf as *mut u8, n, Some(off as u64))) as isize;
    }
    ret(syscall6(libc::SYS_pread64, fd as i64, buf as i64, n as i64, off, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: usize, off: i64) -> isize {
    pread_common(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, n: usize, off: i64) -> isize {
    pread_common(fd, buf, n, off)
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> isize {
    if sim_fd(fd) || sim_net(fd) {
        // a legal short read: fill the first non-empty buffer only
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                return read(fd, v.iov_base, v.iov_len);
            }
        }
        return 0;
    }
    ret(syscall6(libc::SYS_readv, fd as i64, iov as i64, cnt as i64, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    if sim_net(fd) {
        return ret(net_send(fd, buf as *const u8, n)) as isize;
    }
    if sim_fd(fd) {
        return ret(fs::fs().write(fd, buf as *const u8, n, None)) as isize;
    }
    ret(syscall6(libc::SYS_write, fd as i64, buf as i64, n as i64, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    if sim_fd(fd) {
        return ret(fs::fs().write(fd, buf as *const u8, n, Some(off as u64))) as isize;
    }
    ret(syscall6(libc::SYS_pwrite64, fd as i64, buf as i64, n as i64, off, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> isize {
    if sim_net(fd) {
        let mut all = vec![];
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            all.extend_from_slice(core::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
        }
        return ret(net_send(fd, all.as_ptr(), all.len())) as isize;
    }
    if sim_fd(fd) {
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                return write(fd, v.iov_base, v.iov_len);
            }
        }
        return 0;
    }
    ret(syscall6(libc::SYS_writev, fd as i64, iov as i64, cnt as i64, 0, 0, 0)) as isize
}

unsafe fn seek_common(fd: c_int, off: i64, wh: c_int) -> i64 {
    if sim_fd(fd) {
        return ret(fs::fs().seek(fd, off, wh));
    }
    ret(syscall6(libc::SYS_lseek, fd as i64, off, wh as i64, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, wh: c_int) -> i64 {
    seek_common(fd, off, wh)
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: i64, wh: c_int) -> i64 {
    seek_common(fd, off, wh)
}

unsafe fn fill(st: *mut libc::stat64, size: u64, dir: bool) {
    core::ptr::write_bytes(st as *mut u8, 0, core::mem::size_of::<libc::stat64>());
    (*st).st_mode = if dir { libc::S_IFDIR | 0o755 } else { libc::S_IFREG | 0o644 };
    (*st).st_size = size as i64;
    (*st).st_nlink = 1;
    (*st).st_blksize = 4096;
}

unsafe fn fstat_common(fd: c_int, st: *mut libc::stat64) -> c_int {
    if sim_fd(fd) {
        return match fs::fs().stat(None, fd) {
            Ok((n, d)) => {
                fill(st, n, d);
                0
            }
            Err(e) => ret(e) as c_int,
        };
    }
    ret(syscall6(libc::SYS_fstat, fd as i64, st as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    fstat_common(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut libc::stat64) -> c_int {
    fstat_common(fd, st)
}

unsafe fn stat_common(path: *const c_char, st: *mut libc::stat64, flags: c_int) -> c_int {
    if let Some(p) = sim_path(path) {
        return match fs::fs().stat(Some(&p), -1) {
            Ok((n, d)) => {
                fill(st, n, d);
                0
            }
            Err(e) => ret(e) as c_int,
        };
    }
    ret(syscall6(libc::SYS_newfstatat, libc::AT_FDCWD as i64, path as i64, st as i64, flags as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    stat_common(path, st, 0)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    stat_common(path, st, libc::AT_SYMLINK_NOFOLLOW)
}

/// What the simulated calendar shows when simulated time is zero.
pub const EPOCH: u64 = 1_700_000_000_000_000_000;

#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: u32, out: *mut libc::statx) -> c_int {
    let fd_stat = !path.is_null() && *path == 0 && flags & libc::AT_EMPTY_PATH != 0;
    let r = if fd_stat && sim_fd(dir) {
        Some((fs::fs().stat(None, dir), fs::fs().modified(None, dir)))
    } else if !path.is_null() {
        sim_path(path).map(|p| (fs::fs().stat(Some(&p), -1), fs::fs().modified(Some(&p), -1)))
    } else {
        None
    };
    if let Some((r, t)) = r {
        return match r {
            Ok((n, d)) => {
                core::ptr::write_bytes(out as *mut u8, 0, core::mem::size_of::<libc::statx>());
                (*out).stx_mask = 0x7ff;
                (*out).stx_blksize = 4096;
                (*out).stx_nlink = 1;
                (*out).stx_mode = if d { 0o40755 } else { 0o100644 };
                (*out).stx_size = n;
                let t = t + EPOCH;
                (*out).stx_mtime.tv_sec = (t / 1_000_000_000) as i64;
                (*out).stx_mtime.tv_nsec = (t % 1_000_000_000) as u32;
                (*out).stx_ctime = (*out).stx_mtime;
                0
            }
            Err(e) => ret(e) as c_int,
        };
    }
    ret(syscall6(libc::SYS_statx, dir as i64, path as i64, flags as i64, mask as i64, out as i64, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    if sim_fd(fd) {
        return ret(fs::fs().truncate(fd, len as u64)) as c_int;
    }
    ret(syscall6(libc::SYS_ftruncate, fd as i64, len, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if sim_fd(fd) {
        return ret(fs::fs().sync(fd)) as c_int;
    }
    ret(syscall6(libc::SYS_fsync, fd as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if sim_fd(fd) {
        return ret(fs::fs().sync(fd)) as c_int;
    }
    ret(syscall6(libc::SYS_fdatasync, fd as i64, 0, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    if let Some(p) = sim_path(path) {
        return ret(fs::fs().unlink(&p)) as c_int;
    }
    ret(syscall6(libc::SYS_unlink, path as i64, 0, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if let (Some(x), Some(y)) = (sim_path(a), sim_path(b)) {
        return ret(fs::fs().rename(&x, &y)) as c_int;
    }
    ret(syscall6(libc::SYS_rename, a as i64, b as i64, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const c_char, mode: u32) -> c_int {
    if sim_path(a).is_some() {
        return 0;
    }
    ret(syscall6(libc::SYS_mkdir, a as i64, mode as i64, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn isatty(fd: c_int) -> c_int {
    if sim_fd(fd) {
        return 0;
    }
    let mut t = [0u8; 64];
    (syscall6(libc::SYS_ioctl, fd as i64, 0x5401, t.as_mut_ptr() as i64, 0, 0, 0) == 0) as c_int
}

// ---- network ------------------------------------------------------------------------------------

fn sim_net(fd: c_int) -> bool {
    fd >= 20_000 && sched::simulated() && net::our_fd(fd)
}
fn net_on() -> bool {
    sched::simulated() && net::on()
}
unsafe fn net_recv(fd: c_int, buf: *mut u8, n: usize) -> i64 {
    sched::tick(20);
    let r = net::net().recv(fd, buf, n);
    sched::maybe_switch();
    r
}
unsafe fn net_send(fd: c_int, buf: *const u8, n: usize) -> i64 {
    sched::tick(20);
    let r = net::net().send(fd, buf, n);
    sched::maybe_switch();
    r
}

#[no_mangle]
pub unsafe extern "C" fn socket(a: c_int, b: c_int, c: c_int) -> c_int {
    if net_on() {
        return ret(net::net().socket()) as c_int;
    }
    ret(syscall6(libc::SYS_socket, a as i64, b as i64, c as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn socketpair(a: c_int, b: c_int, c: c_int, out: *mut c_int) -> c_int {
    if net_on() {
        let (x, y) = net::net().pair();
        *out = x;
        *out.add(1) = y;
        return 0;
    }
    ret(syscall6(libc::SYS_socketpair, a as i64, b as i64, c as i64, out as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, addr: *const libc::sockaddr, len: libc::socklen_t) -> c_int {
    if sim_net(fd) {
        let a = &*(addr as *const libc::sockaddr_in);
        let ip = if a.sin_family as c_int == libc::AF_INET { u32::from_be(a.sin_addr.s_addr) } else { 0 };
        return ret(net::net().bind(fd, ip, u16::from_be(a.sin_port))) as c_int;
    }
    ret(syscall6(libc::SYS_bind, fd as i64, addr as i64, len as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn listen(fd: c_int, n: c_int) -> c_int {
    if sim_net(fd) {
        return ret(net::net().listen(fd)) as c_int;
    }
    ret(syscall6(libc::SYS_listen, fd as i64, n as i64, 0, 0, 0, 0)) as c_int
}
unsafe fn put_addr(port: u16, addr: *mut libc::sockaddr, len: *mut libc::socklen_t) {
    if addr.is_null() {
        return;
    }
    let a = addr as *mut libc::sockaddr_in;
    core::ptr::write_bytes(a as *mut u8, 0, core::mem::size_of::<libc::sockaddr_in>());
    (*a).sin_family = libc::AF_INET as u16;
    (*a).sin_port = port.to_be();
    (*a).sin_addr.s_addr = u32::from_ne_bytes([127, 0, 0, 1]);
    *len = core::mem::size_of::<libc::sockaddr_in>() as u32;
}
#[no_mangle]
pub unsafe extern "C" fn accept4(fd: c_int, addr: *mut libc::sockaddr, len: *mut libc::socklen_t, flags: c_int) -> c_int {
    if sim_net(fd) {
        sched::tick(20);
        return match net::net().accept(fd) {
            Ok((n, port)) => {
                put_addr(port, addr, len);
                n
            }
            Err(e) => ret(e) as c_int,
        };
    }
    ret(syscall6(libc::SYS_accept4, fd as i64, addr as i64, len as i64, flags as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, addr: *mut libc::sockaddr, len: *mut libc::socklen_t) -> c_int {
    if sim_net(fd) {
        put_addr(net::net().port_of(fd, false), addr, len);
        return 0;
    }
    ret(syscall6(libc::SYS_getsockname, fd as i64, addr as i64, len as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, addr: *mut libc::sockaddr, len: *mut libc::socklen_t) -> c_int {
    if sim_net(fd) {
        put_addr(net::net().port_of(fd, true), addr, len);
        return 0;
    }
    ret(syscall6(libc::SYS_getpeername, fd as i64, addr as i64, len as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, l: c_int, o: c_int, v: *const c_void, n: libc::socklen_t) -> c_int {
    if sim_net(fd) {
        return 0;
    }
    ret(syscall6(libc::SYS_setsockopt, fd as i64, l as i64, o as i64, v as i64, n as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, l: c_int, o: c_int, v: *mut c_void, n: *mut libc::socklen_t) -> c_int {
    if sim_net(fd) {
        core::ptr::write_bytes(v as *mut u8, 0, *n as usize);
        return 0;
    }
    ret(syscall6(libc::SYS_getsockopt, fd as i64, l as i64, o as i64, v as i64, n as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    if sim_net(fd) {
        return ret(net::net().shutdown(fd, how)) as c_int;
    }
    ret(syscall6(libc::SYS_shutdown, fd as i64, how as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, buf: *mut c_void, n: usize, flags: c_int) -> isize {
    if sim_net(fd) {
        return ret(net_recv(fd, buf as *mut u8, n)) as isize;
    }
    ret(syscall6(libc::SYS_recvfrom, fd as i64, buf as i64, n as i64, flags as i64, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, buf: *const c_void, n: usize, flags: c_int) -> isize {
    if sim_net(fd) {
        return ret(net_send(fd, buf as *const u8, n)) as isize;
    }
    ret(syscall6(libc::SYS_sendto, fd as i64, buf as i64, n as i64, flags as i64, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn epoll_create1(flags: c_int) -> c_int {
    if net_on() {
        return ret(net::net().epoll_create()) as c_int;
    }
    ret(syscall6(libc::SYS_epoll_create1, flags as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn epoll_ctl(ep: c_int, op: c_int, fd: c_int, ev: *mut libc::epoll_event) -> c_int {
    if sim_net(ep) {
        return ret(net::net().epoll_ctl(ep, op, fd, ev)) as c_int;
    }
    ret(syscall6(libc::SYS_epoll_ctl, ep as i64, op as i64, fd as i64, ev as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn epoll_wait(ep: c_int, ev: *mut libc::epoll_event, max: c_int, timeout: c_int) -> c_int {
    if sim_net(ep) {
        return ret(net::epoll_wait(ep, ev, max as usize, timeout)) as c_int;
    }
    ret(syscall6(libc::SYS_epoll_pwait, ep as i64, ev as i64, max as i64, timeout as i64, 0, 8)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn eventfd(v: u32, flags: c_int) -> c_int {
    if net_on() {
        return ret(net::net().eventfd(v)) as c_int;
    }
    ret(syscall6(libc::SYS_eventfd2, v as i64, flags as i64, 0, 0, 0, 0)) as c_int
}

pub fn force_link() -> usize {
    let _ = raw::real_now();
    syscall as usize ^ statx as usize
}
