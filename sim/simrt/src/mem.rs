//! The heap behind a seam: fresh memory holds junk, blocks have the least alignment asked for and nothing
//! beyond, neighbours are guarded, and freed memory is poisoned and kept for a while.
use crate::ctx;
use core::alloc::{GlobalAlloc, Layout};
use core::sync::atomic::{AtomicBool, Ordering};
use std::alloc::System;

pub struct Hostile;

#[global_allocator]
static HEAP: Hostile = Hostile;

const FRONT: usize = 48; // 16 bytes of header, 32 of guard
const BACK: usize = 48;
const GUARD: u8 = 0xb5;
const FREED: u8 = 0xd6;
const KEEP: usize = 96;
const WHOLE: usize = 256 << 10;
const EDGE: usize = 64 << 10;

static mut RUNNING: bool = false;
static mut COUNT: u64 = 0;
static LOCK: AtomicBool = AtomicBool::new(false);
static mut KEPT: [(*mut u8, usize); KEEP] = [(core::ptr::null_mut(), 0); KEEP];
static mut NEXT: usize = 0;

/// From here on (in the process of one run) the heap misbehaves as far as it may.
pub fn start_run(seed: u64) {
    unsafe {
        COUNT = seed;
        RUNNING = true;
    }
}

/// Checks what has been freed but not yet given back.
pub fn end_run() {
    unsafe {
        for (p, n) in KEPT.iter() {
            if !p.is_null() {
                freed_ok(*p, *n);
            }
        }
    }
}

fn mix(mut x: u64) -> u64 {
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    x ^ (x >> 31)
}

unsafe fn fill(p: *mut u8, n: usize, v: u8) {
    if n <= WHOLE {
        p.write_bytes(v, n);
    } else {
        p.write_bytes(v, EDGE);
        p.add(n - EDGE).write_bytes(v, EDGE);
    }
}

unsafe fn all(p: *const u8, n: usize, v: u8) -> Option<usize> {
    (0..n).find(|i| *p.add(*i) != v)
}

fn broken(what: &str) -> ! {
    unsafe { RUNNING = false };
    ctx::fail("memory", what)
}

unsafe fn freed_ok(p: *mut u8, n: usize) {
    if let Some(i) = all(p, n.min(WHOLE), FREED) {
        broken(&format!("byte {i} of a freed block of {n} bytes was written"));
    }
}

unsafe impl GlobalAlloc for Hostile {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let (size, align) = (l.size(), l.align());
        let slack = if align < 64 { 64 } else { align };
        let base = System.alloc(Layout::from_size_align_unchecked(FRONT + slack + align + size + BACK, 16));
        if base.is_null() {
            return base;
        }
        let least = (base as usize + FRONT).next_multiple_of(align);
        let mut user = least;
        if RUNNING {
            COUNT = COUNT.wrapping_add(0x9e37_79b9_7f4a_7c15);
            let h = mix(COUNT);
            if align < 64 {
                // one of the places in the next 64 bytes with the wanted alignment, odd multiples first
                let mut k = h as usize % (64 / align);
                if h >> 60 != 0 {
                    k |= 1;
                }
                user = least.next_multiple_of(64.min(align * 2)) + (k % (64 / align)) * align;
                if user > least + slack {
                    user = least;
                }
            }
            fill(user as *mut u8, size, if (h >> 40) & 3 == 0 { 0xff } else { 0xe7 });
        }
        let user = user as *mut u8;
        (user.sub(FRONT) as *mut usize).write_unaligned(base as usize);
        (user.sub(FRONT - 8) as *mut usize).write_unaligned(size);
        user.sub(FRONT - 16).write_bytes(GUARD, FRONT - 16);
        user.add(size).write_bytes(GUARD, 32);
        user
    }

    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = self.alloc(l);
        if !p.is_null() {
            p.write_bytes(0, l.size());
        }
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let size = l.size();
        let base = (p.sub(FRONT) as *const usize).read_unaligned() as *mut u8;
        let total = Layout::from_size_align_unchecked(1, 16);
        if !RUNNING {
            System.dealloc(base, total);
            return;
        }
        if let Some(i) = all(p.sub(FRONT - 16), FRONT - 16, GUARD) {
            broken(&format!("{} bytes before a block of {size} were written", FRONT - 16 - i));
        }
        let had = (p.sub(FRONT - 8) as *const usize).read_unaligned();
        if had != size {
            broken(&format!("a block of {had} bytes was freed as one of {size}"));
        }
        if let Some(i) = all(p.add(size), 32, GUARD) {
            broken(&format!("byte {i} after a block of {size} was written"));
        }
        fill(p, size, FREED);
        if size <= WHOLE && !LOCK.swap(true, Ordering::Acquire) {
            let (q, n) = KEPT[NEXT];
            KEPT[NEXT] = (p, size);
            NEXT = (NEXT + 1) % KEEP;
            if !q.is_null() {
                freed_ok(q, n);
                let b = (q.sub(FRONT) as *const usize).read_unaligned() as *mut u8;
                System.dealloc(b, total);
            }
            LOCK.store(false, Ordering::Release);
        } else {
            System.dealloc(base, total);
        }
    }
}
