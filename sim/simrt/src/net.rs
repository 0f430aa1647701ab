//! In-memory network: listening sockets, streams, readiness notification. The code under test sees file
//! descriptors; the workload's clients use [`Client`].
use crate::ctx::{self, draw, S};
use crate::sched;
use std::collections::{BTreeMap, VecDeque};

const FD_BASE: i32 = 20_000;

#[derive(Clone, Copy, Default, Debug)]
pub struct Faults {
    /// one in `n` calls (0 = never)
    pub accept_err: u64,
    pub epoll_eintr: u64,
    pub short_recv: u64,
    pub short_send: u64,
    pub late_wake: u64,
}

#[derive(Default)]
struct Pipe {
    buf: VecDeque<u8>,
    cap: usize,
    /// no more bytes will be put in
    ended: bool,
}
#[derive(Default)]
struct Conn {
    /// [0] client to server, [1] server to client
    pipe: [Pipe; 2],
    reset: bool,
    server_closed: bool,
    client_closed: bool,
    peer_port: u16,
    /// what has happened that concerns the client
    events: u64,
}
struct Reg {
    events: u32,
    data: u64,
    pending: u32,
}
enum Obj {
    /// not yet listening
    Socket { port: u16 },
    Listener { port: u16, backlog: VecDeque<usize> },
    Stream { conn: usize },
    Epoll { regs: BTreeMap<usize, Reg> },
    Event { count: u64 },
    Pair { peer: usize, buf: VecDeque<u8> },
    Gone,
}
pub struct Net {
    fds: BTreeMap<i32, usize>,
    next: i32,
    objs: Vec<Obj>,
    refs: Vec<usize>,
    conns: Vec<Conn>,
    addrs: BTreeMap<usize, u32>,
    pub faults: Faults,
    /// buffer sizes of new connections
    pub caps: (usize, usize),
    pub accepted: u64,
}
static mut NET: *mut Net = core::ptr::null_mut();

pub fn start() {
    let n = Net {
        fds: BTreeMap::new(),
        next: FD_BASE,
        objs: vec![],
        refs: vec![],
        conns: vec![],
        addrs: BTreeMap::new(),
        faults: Faults::default(),
        caps: (65536, 65536),
        accepted: 0,
    };
    unsafe { NET = Box::into_raw(Box::new(n)) }
}
pub fn on() -> bool {
    unsafe { !NET.is_null() }
}
pub fn net() -> &'static mut Net {
    unsafe { &mut *NET }
}
pub fn our_fd(fd: i32) -> bool {
    fd >= FD_BASE && on() && net().fds.contains_key(&fd)
}
const IN: u32 = libc::EPOLLIN as u32;
const OUT: u32 = libc::EPOLLOUT as u32;
const HUP: u32 = libc::EPOLLHUP as u32;
const RDHUP: u32 = libc::EPOLLRDHUP as u32;
const ERR: u32 = libc::EPOLLERR as u32;
const ET: u32 = libc::EPOLLET as u32;

fn neg(e: i32) -> i64 {
    -(e as i64)
}
/// Distinct wait keys: even for epoll objects, odd for connections as clients see them.
fn key(kind: usize, i: usize) -> usize {
    0x5000_0000_0000 + i * 2 + kind
}

impl Net {
    fn roll(one_in: u64) -> bool {
        one_in > 0 && draw(S::Fault, one_in) == one_in - 1
    }
    fn add(&mut self, o: Obj) -> i32 {
        self.objs.push(o);
        self.refs.push(1);
        let fd = self.next;
        self.next += 1;
        self.fds.insert(fd, self.objs.len() - 1);
        fd
    }
    fn readiness(&self, o: usize) -> u32 {
        match &self.objs[o] {
            Obj::Listener { backlog, .. } => {
                if backlog.is_empty() {
                    0
                } else {
                    IN
                }
            }
            Obj::Stream { conn } => {
                let c = &self.conns[*conn];
                let mut m = 0;
                if c.reset {
                    return IN | OUT | HUP | ERR | RDHUP;
                }
                if !c.pipe[0].buf.is_empty() || c.pipe[0].ended {
                    m |= IN;
                }
                if c.pipe[0].ended {
                    m |= RDHUP;
                }
                if c.pipe[1].buf.len() < c.pipe[1].cap || c.pipe[1].ended {
                    m |= OUT;
                }
                if c.pipe[0].ended && c.pipe[1].ended {
                    m |= HUP;
                }
                m
            }
            Obj::Event { count } => OUT | if *count > 0 { IN } else { 0 },
            Obj::Pair { buf, .. } => OUT | if buf.is_empty() { 0 } else { IN },
            _ => 0,
        }
    }
    /// Something happened at an object.
    fn signal(&mut self, o: usize, what: u32) {
        let mut wake = vec![];
        for (e, x) in self.objs.iter_mut().enumerate() {
            if let Obj::Epoll { regs } = x {
                if let Some(r) = regs.get_mut(&o) {
                    r.pending |= what;
                    wake.push(e);
                }
            }
        }
        for e in wake {
            sched::wake_key(key(0, e));
        }
    }
    fn signal_server(&mut self, conn: usize, what: u32) {
        let o = self.objs.iter().position(|o| matches!(o, Obj::Stream { conn: c } if *c == conn));
        if let Some(o) = o {
            self.signal(o, what);
        }
    }
    fn signal_client(&mut self, conn: usize) {
        self.conns[conn].events += 1;
        sched::wake_key(key(1, conn));
    }

    pub fn socket(&mut self) -> i64 {
        self.add(Obj::Socket { port: 0 }) as i64
    }
    fn obj(&self, fd: i32) -> usize {
        self.fds[&fd]
    }
    pub fn bind(&mut self, fd: i32, addr: u32, port: u16) -> i64 {
        let o = self.obj(fd);
        self.addrs.insert(o, addr);
        match &mut self.objs[o] {
            Obj::Socket { port: p } => {
                *p = port;
                0
            }
            _ => neg(libc::EINVAL),
        }
    }
    pub fn listen(&mut self, fd: i32) -> i64 {
        let o = self.obj(fd);
        if let Obj::Socket { port } = self.objs[o] {
            self.objs[o] = Obj::Listener { port, backlog: VecDeque::new() };
            sched::wake_key(key(1, 0x1000_0000));
            0
        } else {
            neg(libc::EINVAL)
        }
    }
    /// The accepted descriptor and the peer's port.
    pub fn accept(&mut self, fd: i32) -> Result<(i32, u16), i64> {
        let o = self.obj(fd);
        let Obj::Listener { backlog, .. } = &mut self.objs[o] else { return Err(neg(libc::EINVAL)) };
        if backlog.is_empty() {
            return Err(neg(libc::EAGAIN));
        }
        if Self::roll(self.faults.accept_err) {
            let (n, e, lost) = [
                ("fault:accept_aborted", libc::ECONNABORTED, true),
                ("fault:accept_emfile", libc::EMFILE, false),
                ("fault:accept_enfile", libc::ENFILE, false),
                ("fault:accept_enomem", libc::ENOMEM, false),
            ][draw(S::Fault, 4) as usize];
            ctx::fault(n);
            if lost {
                let c = backlog.pop_front().unwrap();
                self.conns[c].reset = true;
                self.signal_client(c);
            }
            return Err(neg(e));
        }
        let c = backlog.pop_front().unwrap();
        let port = self.conns[c].peer_port;
        self.accepted += 1;
        ctx::count("net:accepted");
        Ok((self.add(Obj::Stream { conn: c }), port))
    }
    pub fn port_of(&self, fd: i32, peer: bool) -> u16 {
        match &self.objs[self.obj(fd)] {
            Obj::Socket { port } | Obj::Listener { port, .. } => *port,
            Obj::Stream { conn } if peer => self.conns[*conn].peer_port,
            _ => 3000,
        }
    }
    pub fn recv(&mut self, fd: i32, buf: *mut u8, len: usize) -> i64 {
        let o = self.obj(fd);
        match &mut self.objs[o] {
            Obj::Event { count } => {
                if *count == 0 {
                    return neg(libc::EAGAIN);
                }
                unsafe { core::ptr::copy_nonoverlapping(count.to_ne_bytes().as_ptr(), buf, 8) };
                *count = 0;
                8
            }
            Obj::Pair { buf: b, .. } => {
                if b.is_empty() {
                    return neg(libc::EAGAIN);
                }
                let n = b.len().min(len);
                for i in 0..n {
                    unsafe { *buf.add(i) = b.pop_front().unwrap() };
                }
                n as i64
            }
            Obj::Stream { conn } => {
                let ci = *conn;
                let c = &mut self.conns[ci];
                if c.reset {
                    return neg(libc::ECONNRESET);
                }
                let p = &mut c.pipe[0];
                if p.buf.is_empty() {
                    return if p.ended { 0 } else { neg(libc::EAGAIN) };
                }
                let mut n = p.buf.len().min(len);
                if n > 1 && Self::roll(self.faults.short_recv) {
                    ctx::fault("fault:recv_short");
                    n = 1 + draw(S::Fault, n as u64) as usize;
                    n = n.min(p.buf.len()).min(len);
                }
                for i in 0..n {
                    unsafe { *buf.add(i) = p.buf.pop_front().unwrap() };
                }
                // an edge for the rest of the data is only due when more arrives; a short answer means "empty"
                // to an edge-triggered reader, so it gets one
                if !self.conns[ci].pipe[0].buf.is_empty() || self.conns[ci].pipe[0].ended {
                    self.signal(o, IN);
                }
                self.signal_client(ci);
                ctx::count("net:recv");
                n as i64
            }
            _ => neg(libc::EINVAL),
        }
    }
    pub fn send(&mut self, fd: i32, buf: *const u8, len: usize) -> i64 {
        let o = self.obj(fd);
        match &mut self.objs[o] {
            Obj::Event { count } => {
                let mut b = [0u8; 8];
                unsafe { core::ptr::copy_nonoverlapping(buf, b.as_mut_ptr(), 8) };
                *count = count.saturating_add(u64::from_ne_bytes(b));
                self.signal(o, IN);
                8
            }
            Obj::Pair { peer, .. } => {
                let p = *peer;
                if let Obj::Pair { buf: b, .. } = &mut self.objs[p] {
                    b.extend(unsafe { core::slice::from_raw_parts(buf, len) });
                }
                self.signal(p, IN);
                len as i64
            }
            Obj::Stream { conn } => {
                let ci = *conn;
                let c = &mut self.conns[ci];
                if c.reset {
                    return neg(libc::ECONNRESET);
                }
                if c.pipe[1].ended {
                    return neg(libc::EPIPE);
                }
                if len == 0 {
                    return 0;
                }
                let p = &mut c.pipe[1];
                let room = p.cap.saturating_sub(p.buf.len());
                if room == 0 {
                    ctx::count("net:send_would_block");
                    return neg(libc::EAGAIN);
                }
                let mut n = room.min(len);
                if n > 1 && Self::roll(self.faults.short_send) {
                    ctx::fault("fault:send_short");
                    n = 1 + draw(S::Fault, n as u64) as usize;
                    n = n.min(room).min(len);
                }
                p.buf.extend(unsafe { core::slice::from_raw_parts(buf, n) });
                if n < len && p.buf.len() < p.cap {
                    // accepted less although there was room: writable again at once
                    self.signal(o, OUT);
                }
                self.signal_client(ci);
                ctx::count("net:send");
                n as i64
            }
            _ => neg(libc::EINVAL),
        }
    }
    pub fn shutdown(&mut self, fd: i32, how: i32) -> i64 {
        let o = self.obj(fd);
        if let Obj::Stream { conn } = self.objs[o] {
            if how != libc::SHUT_RD {
                self.conns[conn].pipe[1].ended = true;
            }
            self.signal_client(conn);
        }
        0
    }
    pub fn epoll_create(&mut self) -> i64 {
        self.add(Obj::Epoll { regs: BTreeMap::new() }) as i64
    }
    pub fn eventfd(&mut self, v: u32) -> i64 {
        self.add(Obj::Event { count: v as u64 }) as i64
    }
    pub fn pair(&mut self) -> (i32, i32) {
        let n = self.objs.len();
        let a = self.add(Obj::Pair { peer: n + 1, buf: VecDeque::new() });
        let b = self.add(Obj::Pair { peer: n, buf: VecDeque::new() });
        (a, b)
    }
    pub fn dup(&mut self, fd: i32) -> i64 {
        let o = self.obj(fd);
        self.refs[o] += 1;
        let n = self.next;
        self.next += 1;
        self.fds.insert(n, o);
        n as i64
    }
    pub fn close(&mut self, fd: i32) -> i64 {
        let o = self.fds.remove(&fd).unwrap();
        self.refs[o] -= 1;
        if self.refs[o] > 0 {
            return 0;
        }
        let old = std::mem::replace(&mut self.objs[o], Obj::Gone);
        match old {
            Obj::Stream { conn } => {
                let c = &mut self.conns[conn];
                // closing with unread input resets the connection, as TCP does
                c.pipe[1].ended = true;
                c.server_closed = true;
                if !c.pipe[0].buf.is_empty() {
                    ctx::count("net:closed_with_unread_input");
                }
                self.signal_client(conn);
            }
            Obj::Listener { backlog, .. } => {
                for c in backlog {
                    self.conns[c].reset = true;
                    self.signal_client(c);
                }
            }
            _ => {}
        }
        for x in self.objs.iter_mut() {
            if let Obj::Epoll { regs } = x {
                regs.remove(&o);
            }
        }
        0
    }
    pub unsafe fn epoll_ctl(&mut self, ep: i32, op: i32, fd: i32, ev: *const libc::epoll_event) -> i64 {
        if !our_fd(fd) {
            return neg(libc::EPERM);
        }
        let (e, o) = (self.obj(ep), self.obj(fd));
        let now = self.readiness(o);
        let Obj::Epoll { regs } = &mut self.objs[e] else { return neg(libc::EINVAL) };
        match op {
            libc::EPOLL_CTL_ADD => {
                if regs.contains_key(&o) {
                    return neg(libc::EEXIST);
                }
                regs.insert(o, Reg { events: (*ev).events, data: (*ev).u64, pending: now });
            }
            libc::EPOLL_CTL_MOD => match regs.get_mut(&o) {
                Some(r) => *r = Reg { events: (*ev).events, data: (*ev).u64, pending: now },
                None => return neg(libc::ENOENT),
            },
            _ => {
                if regs.remove(&o).is_none() {
                    return neg(libc::ENOENT);
                }
            }
        }
        if now != 0 && op != libc::EPOLL_CTL_DEL {
            sched::wake_key(key(0, e));
        }
        0
    }
    fn collect(&mut self, e: usize, out: *mut libc::epoll_event, max: usize) -> usize {
        let list: Vec<usize> = match &self.objs[e] {
            Obj::Epoll { regs } => regs.keys().copied().collect(),
            _ => return 0,
        };
        let now: Vec<u32> = list.iter().map(|o| self.readiness(*o)).collect();
        let Obj::Epoll { regs } = &mut self.objs[e] else { unreachable!() };
        let mut ready = vec![];
        for (o, now) in list.iter().zip(now) {
            let r = regs.get_mut(o).unwrap();
            let m = now & (r.events | HUP | ERR);
            if m != 0 && (r.events & ET == 0 || r.pending & (r.events | HUP | ERR) != 0) {
                ready.push((*o, m));
            } else {
                r.pending &= !(r.events | HUP | ERR);
            }
        }
        // the kernel's order is not the callers' business
        if ready.len() > 1 {
            let k = draw(S::Sched, ready.len() as u64) as usize;
            ready.rotate_left(k);
        }
        ready.truncate(max);
        for (i, (o, m)) in ready.iter().enumerate() {
            let r = regs.get_mut(o).unwrap();
            r.pending = 0;
            unsafe { *out.add(i) = libc::epoll_event { events: *m, u64: r.data } };
        }
        ready.len()
    }
}

pub unsafe fn epoll_wait(ep: i32, out: *mut libc::epoll_event, max: usize, timeout_ms: i32) -> i64 {
    sched::tick(20);
    let e = net().obj(ep);
    if Net::roll(net().faults.epoll_eintr) {
        ctx::fault("fault:epoll_eintr");
        return neg(libc::EINTR);
    }
    let deadline = if timeout_ms < 0 { u64::MAX } else { sched::now().saturating_add(timeout_ms as u64 * 1_000_000) };
    loop {
        if timeout_ms != 0 && Net::roll(net().faults.late_wake) {
            // the notification comes late
            ctx::fault("fault:late_readiness");
            sched::sleep_until(sched::now() + 1_000_000 * (1 + draw(S::Fault, 50)));
        }
        let n = net().collect(e, out, max);
        if n > 0 {
            ctx::count("net:wakeups");
            return n as i64;
        }
        if timeout_ms == 0 || !sched::wait_key(key(0, e), deadline) {
            return 0;
        }
    }
}

/// The workload's end of a connection.
pub struct Client {
    conn: usize,
    seen: u64,
}
#[derive(Debug, PartialEq, Eq)]
pub enum Got {
    Data(Vec<u8>),
    /// nothing there yet
    Nothing,
    Eof,
    Reset,
}
/// Waits until somebody listens.
pub fn wait_listener(limit: u64) -> bool {
    let end = sched::now() + limit;
    loop {
        if net().objs.iter().any(|o| matches!(o, Obj::Listener { .. })) {
            return true;
        }
        if !sched::wait_key(key(1, 0x1000_0000), end) {
            return false;
        }
    }
}
/// Address (IPv4, or 0) and port of every listening socket.
pub fn listening() -> Vec<(u32, u16)> {
    let n = net();
    (0..n.objs.len())
        .filter_map(|i| if let Obj::Listener { port, .. } = n.objs[i] { Some((n.addrs.get(&i).copied().unwrap_or(0), port)) } else { None })
        .collect()
}
impl Client {
    pub fn connect() -> Option<Client> {
        let n = net();
        let o = n.objs.iter().position(|o| matches!(o, Obj::Listener { .. }))?;
        let conn = n.conns.len();
        let mut c = Conn { peer_port: 40_000 + (conn as u16 % 20_000), ..Default::default() };
        c.pipe[0].cap = n.caps.0;
        c.pipe[1].cap = n.caps.1;
        n.conns.push(c);
        if let Obj::Listener { backlog, .. } = &mut n.objs[o] {
            backlog.push_back(conn);
        }
        n.signal(o, IN);
        sched::maybe_switch();
        Some(Client { conn, seen: 0 })
    }
    fn c(&self) -> &'static mut Conn {
        &mut net().conns[self.conn]
    }
    /// How many bytes were taken; None when the connection is dead.
    pub fn send(&mut self, b: &[u8]) -> Option<usize> {
        let c = self.c();
        self.seen = c.events;
        if c.reset || c.server_closed {
            return None;
        }
        let p = &mut c.pipe[0];
        let n = p.cap.saturating_sub(p.buf.len()).min(b.len());
        p.buf.extend(&b[..n]);
        if n > 0 {
            net().signal_server(self.conn, IN);
            sched::maybe_switch();
        }
        Some(n)
    }
    pub fn recv(&mut self, max: usize) -> Got {
        let c = self.c();
        self.seen = c.events;
        if c.reset {
            return Got::Reset;
        }
        let p = &mut c.pipe[1];
        if p.buf.is_empty() {
            return if p.ended { Got::Eof } else { Got::Nothing };
        }
        let n = p.buf.len().min(max);
        let d: Vec<u8> = p.buf.drain(..n).collect();
        net().signal_server(self.conn, OUT);
        Got::Data(d)
    }
    pub fn end_sending(&mut self) {
        self.c().pipe[0].ended = true;
        net().signal_server(self.conn, IN | RDHUP);
        sched::maybe_switch();
    }
    pub fn reset(&mut self) {
        let c = self.c();
        c.reset = true;
        c.client_closed = true;
        net().signal_server(self.conn, IN | OUT | HUP | ERR | RDHUP);
        sched::maybe_switch();
    }
    pub fn close(&mut self) {
        let c = self.c();
        if c.client_closed {
            return;
        }
        if !c.pipe[1].buf.is_empty() || !c.pipe[1].ended {
            // unread data: the peer learns by a reset
            return self.reset();
        }
        c.client_closed = true;
        self.end_sending();
    }
    /// Waits for something to happen; false when the time is up.
    pub fn wait(&self, until: u64) -> bool {
        while self.c().events == self.seen {
            if !sched::wait_key(key(1, self.conn), until) {
                return self.c().events != self.seen;
            }
        }
        true
    }
    /// For messages: how this connection stands.
    pub fn state(&self) -> String {
        let n = net();
        let c = &n.conns[self.conn];
        let waiting = n.objs.iter().any(|o| matches!(o, Obj::Listener { backlog, .. } if backlog.contains(&self.conn)));
        format!(
            "{}{} bytes not yet read by the server",
            if waiting { "not accepted, " } else if c.server_closed { "closed by the server, " } else { "" },
            c.pipe[0].buf.len()
        )
    }
}
impl Drop for Client {
    fn drop(&mut self) {
        if sched::active() {
            self.close();
        }
    }
}
