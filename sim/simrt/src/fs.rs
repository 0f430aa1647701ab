//! In-memory file system behind the libc file calls, for paths below [`PREFIX`].
use crate::ctx::{self, draw, S};
use std::collections::BTreeMap;

pub const PREFIX: &str = "/simfs/";
const FD_BASE: i32 = 5000;

#[derive(Clone, Copy, Default, Debug)]
pub struct Faults {
    /// one in `n` calls (0 = never)
    pub eintr: u64,
    pub short: u64,
    pub eio_read: u64,
    pub eio_write: u64,
    pub enospc: u64,
    pub open_err: u64,
    pub eio_meta: u64,
    pub write_zero: u64,
    /// the disk holds this many more bytes, then ENOSPC
    pub space: Option<u64>,
    /// every read beyond this absolute offset fails with EIO (bad sector), regardless of file
    pub bad_from: Option<u64>,
    /// files appear to end at this offset (file cut short while in use)
    pub cut_at: Option<u64>,
    /// one in `n` calls takes up to a tenth of a second of simulated time
    pub slow: u64,
}
/// Relative paths belong to the simulated disk, below this directory.
pub const CWD: &str = "/simfs/cwd";
static mut RELATIVE: bool = false;
pub fn take_relative_paths() {
    unsafe { RELATIVE = true }
}
/// Without `.`, `..` and repeated separators.
fn plain(p: &str) -> String {
    let mut v: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    format!("/{}", v.join("/"))
}
/// The key of a path that belongs to the simulated disk.
pub fn locate(path: &[u8]) -> Option<String> {
    if !on() {
        return None;
    }
    if ours(path) {
        let k = key(path);
        return Some(if unsafe { RELATIVE } { plain(&k) } else { k.into_owned() });
    }
    if unsafe { RELATIVE } && !path.is_empty() && path[0] != b'/' {
        return Some(plain(&format!("{CWD}/{}", key(path))));
    }
    None
}
/// Called before every access.
pub fn delay() {
    let n = fs().faults.slow;
    if n > 0 && draw(S::Fault, n) == n - 1 {
        ctx::fault("fault:slow_disk");
        crate::sched::sleep_until(crate::sched::now() + 1_000_000 * (1 + draw(S::Fault, 100)));
    }
}

#[derive(Clone)]
struct Open {
    path: String,
    pos: u64,
    read: bool,
    write: bool,
    append: bool,
}

#[derive(Default)]
pub struct Fs {
    files: BTreeMap<String, Vec<u8>>,
    /// when each was last replaced by the environment (simulated time)
    times: BTreeMap<String, u64>,
    open: BTreeMap<i32, Open>,
    next: i32,
    pub faults: Faults,
    /// faults fired since the last `mark`
    hard: u64,
    soft: u64,
    pub reads: u64,
    pub writes: u64,
    pub opens: u64,
    pub bytes_read: u64,
    log: bool,
}

static mut FS: *mut Fs = core::ptr::null_mut();

pub fn start() {
    unsafe { FS = Box::into_raw(Box::new(Fs { next: FD_BASE, ..Default::default() })) }
}

pub fn fs() -> &'static mut Fs {
    unsafe { &mut *FS }
}

pub fn on() -> bool {
    unsafe { !FS.is_null() }
}

pub fn ours(path: &[u8]) -> bool {
    on() && path.starts_with(PREFIX.as_bytes())
}

/// The name under which a path is kept: itself, or with escapes where it is not UTF-8.
pub fn key(path: &[u8]) -> std::borrow::Cow<'_, str> {
    match core::str::from_utf8(path) {
        Ok(s) => s.into(),
        Err(_) => path.iter().map(|b| if b.is_ascii() { (*b as char).to_string() } else { format!("%{b:02x}") }).collect::<String>().into(),
    }
}

pub fn our_fd(fd: i32) -> bool {
    fd >= FD_BASE && on() && fs().open.contains_key(&fd)
}

impl Fs {
    pub fn put(&mut self, path: &str, data: Vec<u8>) {
        self.times.insert(path.to_string(), crate::sched::now());
        self.files.insert(path.to_string(), data);
    }
    pub fn get(&self, path: &str) -> Option<&Vec<u8>> {
        self.files.get(path)
    }
    pub fn remove(&mut self, path: &str) {
        self.files.remove(path);
    }
    /// Nanoseconds since the start of the simulated clock.
    pub fn modified(&self, path: Option<&str>, fd: i32) -> u64 {
        let p = path.or(self.open.get(&fd).map(|o| o.path.as_str()));
        p.and_then(|p| self.times.get(p)).copied().unwrap_or(0)
    }
    pub fn list(&self) -> Vec<String> {
        self.files.keys().cloned().collect()
    }
    pub fn open_count(&self) -> usize {
        self.open.len()
    }
    /// (hard, soft) faults since the last call. Hard = an error that may surface.
    pub fn take_fired(&mut self) -> (u64, u64) {
        let r = (self.hard, self.soft);
        self.hard = 0;
        self.soft = 0;
        r
    }
    pub fn set_log(&mut self, on: bool) {
        self.log = on;
    }

    fn roll(&self, one_in: u64) -> bool {
        one_in > 0 && draw(S::Fault, one_in) == one_in - 1
    }
    fn hard(&mut self, name: &'static str) {
        self.hard += 1;
        ctx::fault(name);
    }
    fn soft(&mut self, name: &'static str) {
        self.soft += 1;
        ctx::fault(name);
    }

    pub fn open(&mut self, path: &str, flags: i32) -> i64 {
        self.opens += 1;
        let f = self.faults;
        if self.roll(f.eintr) {
            self.soft("fault:open_eintr");
            return -(libc::EINTR as i64);
        }
        if self.roll(f.open_err) {
            let e = [
                ("fault:open_eacces", libc::EACCES),
                ("fault:open_emfile", libc::EMFILE),
                ("fault:open_enoent", libc::ENOENT),
                ("fault:open_eio", libc::EIO),
                ("fault:open_eagain", libc::EAGAIN),
            ][draw(S::Fault, 5) as usize];
            self.hard(e.0);
            return -(e.1 as i64);
        }
        let acc = flags & libc::O_ACCMODE;
        let write = acc != libc::O_RDONLY;
        if !self.files.contains_key(path) {
            if flags & libc::O_CREAT == 0 {
                return -(libc::ENOENT as i64);
            }
            if self.faults.space == Some(0) && draw(S::Fault, 2) == 1 {
                self.hard("fault:create_enospc");
                return -(libc::ENOSPC as i64);
            }
            self.files.insert(path.to_string(), Vec::new());
        } else if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
            return -(libc::EEXIST as i64);
        }
        if flags & libc::O_TRUNC != 0 && write {
            let freed = self.files.get_mut(path).map(|v| std::mem::take(v).len()).unwrap_or(0) as u64;
            if let Some(s) = &mut self.faults.space {
                *s += freed;
            }
        }
        let fd = self.next;
        self.next += 1;
        self.open.insert(
            fd,
            Open {
                path: path.to_string(),
                pos: 0,
                read: acc != libc::O_WRONLY,
                write,
                append: flags & libc::O_APPEND != 0,
            },
        );
        ctx::count("io:open");
        fd as i64
    }

    pub fn close(&mut self, fd: i32) -> i64 {
        self.open.remove(&fd);
        if self.roll(self.faults.eio_meta) {
            // the descriptor is gone anyway; std ignores the error
            ctx::fault("fault:close_eio");
            return -(libc::EIO as i64);
        }
        0
    }

    fn visible_len(&self, path: &str) -> u64 {
        let n = self.files.get(path).map_or(0, |v| v.len() as u64);
        match self.faults.cut_at {
            Some(c) => n.min(c),
            None => n,
        }
    }

    pub fn read(&mut self, fd: i32, buf: *mut u8, len: usize, at: Option<u64>) -> i64 {
        self.reads += 1;
        let o = self.open[&fd].clone();
        if !o.read {
            return -(libc::EBADF as i64);
        }
        let f = self.faults;
        let pos = at.unwrap_or(o.pos);
        if self.roll(f.eintr) {
            self.soft("fault:read_eintr");
            return -(libc::EINTR as i64);
        }
        if self.roll(f.eio_read) {
            self.hard("fault:read_eio");
            return -(libc::EIO as i64);
        }
        let end = self.visible_len(&o.path);
        if end < self.files.get(&o.path).map_or(0, |v| v.len() as u64) && pos + len as u64 > end {
            self.hard("fault:read_cut_short");
        }
        let mut n = (end.saturating_sub(pos) as usize).min(len);
        if n > 0 {
            if let Some(b) = f.bad_from {
                if pos >= b {
                    self.hard("fault:bad_sector");
                    return -(libc::EIO as i64);
                }
                n = n.min((b - pos) as usize);
            }
        }
        if n > 1 && self.roll(f.short) {
            self.soft("fault:read_short");
            // biased towards very short reads
            n = match draw(S::Fault, 4) {
                0 => n - 1,
                1 => 1,
                2 => 1 + draw(S::Fault, 8.min(n as u64)) as usize,
                _ => 1 + draw(S::Fault, n as u64) as usize,
            }
            .min(n);
        }
        if n > 0 {
            let data = &self.files[&o.path][pos as usize..pos as usize + n];
            unsafe { core::ptr::copy_nonoverlapping(data.as_ptr(), buf, n) };
        }
        if at.is_none() {
            self.open.get_mut(&fd).unwrap().pos += n as u64;
        }
        self.bytes_read += n as u64;
        ctx::count("io:read");
        n as i64
    }

    pub fn write(&mut self, fd: i32, buf: *const u8, len: usize, at: Option<u64>) -> i64 {
        self.writes += 1;
        let o = self.open[&fd].clone();
        if !o.write {
            return -(libc::EBADF as i64);
        }
        let f = self.faults;
        if self.roll(f.eintr) {
            self.soft("fault:write_eintr");
            return -(libc::EINTR as i64);
        }
        if self.roll(f.eio_write) {
            self.hard("fault:write_eio");
            return -(libc::EIO as i64);
        }
        if self.roll(f.enospc) {
            self.hard("fault:write_enospc");
            return -(libc::ENOSPC as i64);
        }
        if len > 0 && self.roll(f.write_zero) {
            self.hard("fault:write_zero");
            return 0;
        }
        let mut n = len;
        if n > 1 && self.roll(f.short) {
            self.soft("fault:write_short");
            n = match draw(S::Fault, 4) {
                0 => n - 1,
                1 => 1,
                2 => 1 + draw(S::Fault, 8.min(n as u64)) as usize,
                _ => 1 + draw(S::Fault, n as u64) as usize,
            }
            .min(n);
        }
        if let Some(sp) = f.space {
            if sp == 0 && n > 0 {
                self.hard("fault:disk_full");
                return -(libc::ENOSPC as i64);
            }
            if (n as u64) > sp {
                self.soft("fault:disk_almost_full");
                n = sp as usize;
            }
            self.faults.space = Some(sp - n as u64);
        }
        let file = self.files.get_mut(&o.path).expect("open file exists");
        let pos = match at {
            Some(p) => p as usize,
            None if o.append => file.len(),
            None => o.pos as usize,
        };
        if file.len() < pos + n {
            file.resize(pos + n, 0);
        }
        unsafe { core::ptr::copy_nonoverlapping(buf, file.as_mut_ptr().add(pos), n) };
        if at.is_none() {
            self.open.get_mut(&fd).unwrap().pos = (pos + n) as u64;
        }
        ctx::count("io:write");
        n as i64
    }

    pub fn seek(&mut self, fd: i32, off: i64, whence: i32) -> i64 {
        if self.roll(self.faults.eio_meta) {
            self.hard("fault:seek_eio");
            return -(libc::EIO as i64);
        }
        let o = self.open[&fd].clone();
        let base = match whence {
            libc::SEEK_SET => 0,
            libc::SEEK_CUR => o.pos as i64,
            libc::SEEK_END => self.visible_len(&o.path) as i64,
            _ => return -(libc::EINVAL as i64),
        };
        let p = base + off;
        if p < 0 {
            return -(libc::EINVAL as i64);
        }
        self.open.get_mut(&fd).unwrap().pos = p as u64;
        p
    }

    pub fn truncate(&mut self, fd: i32, len: u64) -> i64 {
        let o = self.open[&fd].clone();
        self.files.get_mut(&o.path).unwrap().resize(len as usize, 0);
        0
    }

    pub fn sync(&mut self, _fd: i32) -> i64 {
        if self.roll(self.faults.eio_write) {
            self.hard("fault:fsync_eio");
            return -(libc::EIO as i64);
        }
        0
    }

    pub fn unlink(&mut self, path: &str) -> i64 {
        if self.files.remove(path).is_some() {
            0
        } else {
            -(libc::ENOENT as i64)
        }
    }

    pub fn rename(&mut self, a: &str, b: &str) -> i64 {
        if self.roll(self.faults.eio_meta) {
            self.hard("fault:rename_eio");
            return -(libc::EIO as i64);
        }
        match self.files.remove(a) {
            Some(v) => {
                self.files.insert(b.to_string(), v);
                0
            }
            None => -(libc::ENOENT as i64),
        }
    }

    /// (size, is_dir) or a negative errno
    pub fn stat(&mut self, path: Option<&str>, fd: i32) -> Result<(u64, bool), i64> {
        if self.roll(self.faults.eio_meta) {
            self.hard("fault:stat_eio");
            return Err(-(libc::EIO as i64));
        }
        let p = match path {
            Some(p) => p.to_string(),
            None => self.open[&fd].path.clone(),
        };
        if self.files.contains_key(&p) {
            return Ok((self.visible_len(&p), false));
        }
        let d = format!("{}/", p.trim_end_matches('/'));
        if d == PREFIX || self.files.keys().any(|k| k.starts_with(&d)) {
            return Ok((0, true));
        }
        if path.is_none() {
            return Ok((0, false));
        }
        Err(-(libc::ENOENT as i64))
    }
}
