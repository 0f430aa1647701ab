//! Memory shared between the driver process and the forked run.
pub const CAP_WORK: usize = 1 << 16;
pub const CAP_FAULT: usize = 1 << 16;
pub const CAP_SCHED: usize = 1 << 18;
pub const CAPS: [usize; 3] = [CAP_WORK, CAP_FAULT, CAP_SCHED];
pub const MSG_CAP: usize = 1 << 15;
pub const TRACE_CAP: usize = 1 << 21;
pub const SPAN_CAP: usize = 1 << 13;
pub const NCOUNTERS: usize = 128;
pub const COV_CAP: usize = 1 << 17;

#[repr(C)]
pub struct Shared {
    /// 0 = running / died, 1 = finished without violation, 2 = violation, 3 = harness error
    pub status: u32,
    pub trace_on: u32,
    pub len: [u64; 3],
    pub nspans: u64,
    pub hash: u64,
    pub sched_hash: u64,
    pub state_hash: u64,
    pub steps: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub sim_ns: u64,
    pub threads: u64,
    pub nontrivial: u64,
    pub msg_len: u64,
    pub class_len: u64,
    pub panic_len: u64,
    pub trace_len: u64,
    pub ncounters: u64,
    /// address and length of a `&'static str` (valid in the parent too: same image)
    pub counter_names: [(usize, usize); NCOUNTERS],
    pub counters: [u64; NCOUNTERS],
    pub counter_is_fault: [bool; NCOUNTERS],
    pub class: [u8; 512],
    pub panic: [u8; 4096],
    pub msg: [u8; MSG_CAP],
    pub spans: [(u32, u32); SPAN_CAP],
    pub work: [u64; CAP_WORK],
    pub fault: [u64; CAP_FAULT],
    pub sched: [u64; CAP_SCHED],
    pub trace: [u8; TRACE_CAP],
    pub cov: [u8; COV_CAP],
}

impl Shared {
    pub fn map() -> *mut Shared {
        unsafe {
            let p = libc::mmap(
                core::ptr::null_mut(),
                core::mem::size_of::<Shared>(),
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED, "cannot map shared memory");
            p as *mut Shared
        }
    }
    pub fn reset(&mut self) {
        self.status = 0;
        self.len = [0; 3];
        self.nspans = 0;
        self.hash = 0;
        self.sched_hash = 0;
        self.state_hash = 0;
        self.steps = 0;
        self.switches = 0;
        self.preemptions = 0;
        self.sim_ns = 0;
        self.threads = 0;
        self.nontrivial = 0;
        self.msg_len = 0;
        self.class_len = 0;
        self.panic_len = 0;
        self.trace_len = 0;
        self.counters = [0; NCOUNTERS];
        self.counter_is_fault = [false; NCOUNTERS];
        self.ncounters = 0;
    }
    pub fn stream(&self, s: usize) -> &[u64] {
        let n = self.len[s] as usize;
        match s {
            0 => &self.work[..n],
            1 => &self.fault[..n],
            _ => &self.sched[..n],
        }
    }
    pub fn counter_list(&self) -> Vec<(&'static str, u64)> {
        (0..self.ncounters as usize)
            .map(|i| {
                let (p, l) = self.counter_names[i];
                let s = unsafe {
                    core::str::from_utf8_unchecked(core::slice::from_raw_parts(p as *const u8, l))
                };
                (s, self.counters[i])
            })
            .collect()
    }
    pub fn message(&self) -> String {
        String::from_utf8_lossy(&self.msg[..self.msg_len as usize]).into_owned()
    }
    pub fn class(&self) -> String {
        String::from_utf8_lossy(&self.class[..self.class_len as usize]).into_owned()
    }
    pub fn panic(&self) -> String {
        String::from_utf8_lossy(&self.panic[..self.panic_len as usize]).into_owned()
    }
    pub fn trace(&self) -> String {
        String::from_utf8_lossy(&self.trace[..self.trace_len as usize]).into_owned()
    }
}
