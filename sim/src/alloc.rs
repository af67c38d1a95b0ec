//! Simulated heap.  Every allocation of the process goes through here, which
//! gives the simulator three things: an exact account of what is live
//! (conservation), detection of heap misuse (redzones, poison, quarantine,
//! double free), and a place to inject faults (allocation k of an operation
//! fails, or the thread is preempted there).

use crate::sched;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::*};

const MAGIC_LIVE: u64 = 0x51ed_a110_c8ed_1111;
const MAGIC_HARNESS: u64 = 0x51ed_a110_c8ed_2222;
const MAGIC_FREED: u64 = 0xdead_f4ee_dead_f4ee;
const REDZONE: u64 = 0xa5a5_5a5a_c3c3_3c3c;
const POISON: u8 = 0xdd;
const FRESH: u8 = 0xcd;
const SLACK: u8 = 0xa7;
const HDR: usize = 32;
const QUARANTINE: usize = 1024;
const QUARANTINE_BYTES: usize = 4 << 20;

#[repr(C)]
struct Header {
    magic: u64,
    size: u64,
    /// Operation number (thread << 32 | op) that allocated the block.
    tag: u64,
    /// Offset back to the start of the system block.
    back: u32,
    align: u32,
}

pub struct Heap;

static ENABLED: AtomicBool = AtomicBool::new(false);
static LIVE_BLOCKS: AtomicI64 = AtomicI64::new(0);
static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
pub static PEAK_BYTES: AtomicI64 = AtomicI64::new(0);
pub static TOTAL_ALLOCS: AtomicU64 = AtomicU64::new(0);
static LOCK: AtomicBool = AtomicBool::new(false);
/// First heap corruption seen: 0 none, else a code.
pub static CORRUPT: AtomicU64 = AtomicU64::new(0);
pub static CORRUPT_TAG: AtomicU64 = AtomicU64::new(0);

#[derive(Clone, Copy)]
struct Q {
    base: *mut u8,
    user: *mut u8,
    size: usize,
    total: usize,
    align: usize,
    tag: u64,
}
struct Ring {
    slots: [Q; QUARANTINE],
    head: usize,
    len: usize,
    bytes: usize,
}
static mut RING: Ring = Ring {
    slots: [Q {
        base: std::ptr::null_mut(),
        user: std::ptr::null_mut(),
        size: 0,
        total: 0,
        align: 0,
        tag: 0,
    }; QUARANTINE],
    head: 0,
    len: 0,
    bytes: 0,
};

#[derive(Clone, Copy)]
pub struct Armed {
    /// Allocation index (1-based) that fails; 0 = none.
    pub oom_at: u32,
    /// Allocation indices at which to yield (up to 4, ascending; 0 = none).
    pub yield_at: [u32; 4],
    pub count: u32,
    pub active: bool,
    pub oom_fired: bool,
}

thread_local! {
    // const-initialised, no destructor: safe inside the allocator.
    pub static ARMED: Cell<Armed> = const { Cell::new(Armed { oom_at: 0, yield_at: [0; 4], count: 0, active: false, oom_fired: false }) };
    /// >0 while harness bookkeeping allocates memory that outlives the run.
    static UNTRACKED: Cell<u32> = const { Cell::new(0) };
    pub static TAG: Cell<u64> = const { Cell::new(0) };
}

pub fn enable() {
    ENABLED.store(true, SeqCst);
}
pub fn live() -> (i64, i64) {
    (LIVE_BLOCKS.load(SeqCst), LIVE_BYTES.load(SeqCst))
}

pub struct Untracked(());
pub fn untracked() -> Untracked {
    UNTRACKED.with(|u| u.set(u.get() + 1));
    Untracked(())
}
impl Drop for Untracked {
    fn drop(&mut self) {
        UNTRACKED.with(|u| u.set(u.get() - 1));
    }
}

fn lock() {
    while LOCK.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() {
        std::hint::spin_loop();
    }
}
fn unlock() {
    LOCK.store(false, Release);
}

#[cold]
fn corrupt(code: u64, tag: u64) {
    if CORRUPT.compare_exchange(0, code, SeqCst, SeqCst).is_ok() {
        CORRUPT_TAG.store(tag, SeqCst);
    }
}

pub fn corruption() -> Option<(&'static str, u64)> {
    let what = match CORRUPT.load(SeqCst) {
        0 => return None,
        1 => "double free",
        2 => "free of an invalid pointer",
        3 => "write past the end of an allocation",
        4 => "write to freed memory",
        5 => "deallocation with a wrong layout",
        _ => "heap corruption",
    };
    Some((what, CORRUPT_TAG.load(SeqCst)))
}

const PAGE: usize = 4096;
const FENCED: u32 = 1 << 31;
/// Blocks that may still be put on pages of their own in this run.
static FENCES: AtomicI64 = AtomicI64::new(0);

/// From now on every block ends at an inaccessible page and becomes
/// inaccessible itself when it is freed, so that stray reads are caught too.
pub fn fence(blocks: i64) {
    FENCES.store(blocks, SeqCst);
}

/// `len` accessible bytes between two inaccessible pages.
unsafe fn pages(len: usize) -> *mut u8 {
    let len = len.div_ceil(PAGE) * PAGE;
    let p = libc::mmap(
        std::ptr::null_mut(),
        len + 2 * PAGE,
        libc::PROT_NONE,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
        -1,
        0,
    );
    if p == libc::MAP_FAILED {
        return std::ptr::null_mut();
    }
    let p = (p as *mut u8).add(PAGE);
    if libc::mprotect(p.cast(), len, libc::PROT_READ | libc::PROT_WRITE) != 0 {
        return std::ptr::null_mut();
    }
    p
}

thread_local! {
    /// Pages for the texts this thread parses, kept from one parse to the next.
    static PAGES: Cell<(*mut u8, usize)> = const { Cell::new((std::ptr::null_mut(), 0)) };
}

/// A copy of a text that starts right behind, or ends right before, memory
/// that must not be touched.
pub struct Fenced {
    pages: (*mut u8, usize),
    at: *const u8,
    len: usize,
}
pub fn fenced(text: &str, at_end: bool) -> Fenced {
    let _np = sched::no_preempt();
    unsafe {
        let mut ps = PAGES.with(|p| p.replace((std::ptr::null_mut(), 0)));
        if ps.1 < text.len() || ps.0.is_null() {
            if !ps.0.is_null() {
                libc::munmap(ps.0.sub(PAGE).cast(), ps.1 + 2 * PAGE);
            }
            let len = text.len().max(1).div_ceil(PAGE) * PAGE;
            ps = (pages(len), len);
            assert!(!ps.0.is_null(), "no room for a text");
        }
        let at = if at_end { ps.0.add(ps.1 - text.len()) } else { ps.0 };
        std::ptr::copy_nonoverlapping(text.as_ptr(), at, text.len());
        Fenced { pages: ps, at, len: text.len() }
    }
}
impl std::ops::Deref for Fenced {
    type Target = str;
    fn deref(&self) -> &str {
        unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(self.at, self.len)) }
    }
}
impl Drop for Fenced {
    fn drop(&mut self) {
        // Nothing may still refer to the text.
        unsafe { std::ptr::write_bytes(self.at as *mut u8, 0xff, self.len) };
        let old = PAGES.with(|p| p.replace(self.pages));
        if !old.0.is_null() {
            unsafe { libc::munmap(old.0.sub(PAGE).cast(), old.1 + 2 * PAGE) };
        }
    }
}

unsafe fn fenced_alloc(layout: Layout) -> Option<*mut u8> {
    if layout.align() > 64 || layout.size() > 1 << 20 || FENCES.load(Relaxed) <= 0 {
        return None;
    }
    if FENCES.fetch_sub(1, Relaxed) <= 0 {
        return None;
    }
    let align = layout.align().max(16);
    let body = layout.size().div_ceil(align) * align;
    let len = (HDR + body + align).div_ceil(PAGE) * PAGE;
    let p = pages(len);
    if p.is_null() {
        return None;
    }
    let user = p.add(len - body);
    std::ptr::write_bytes(user, FRESH, body);
    std::ptr::write_bytes(user.add(layout.size()), SLACK, body - layout.size());
    (user.sub(HDR) as *mut Header).write(Header {
        magic: MAGIC_LIVE,
        size: layout.size() as u64,
        tag: TAG.with(|t| t.get()),
        back: (len - body) as u32,
        align: align as u32 | FENCED,
    });
    account(layout.size());
    Some(user)
}

fn account(size: usize) {
    LIVE_BLOCKS.fetch_add(1, Relaxed);
    let b = LIVE_BYTES.fetch_add(size as i64, Relaxed) + size as i64;
    PEAK_BYTES.fetch_max(b, Relaxed);
    TOTAL_ALLOCS.fetch_add(1, Relaxed);
}

unsafe fn raw_alloc(layout: Layout) -> *mut u8 {
    let tracked = ENABLED.load(Relaxed) && UNTRACKED.with(|u| u.get()) == 0;
    if tracked {
        if let Some(p) = fenced_alloc(layout) {
            return p;
        }
    }
    let align = layout.align().max(16);
    let pre = (HDR + align - 1) / align * align;
    let total = match pre.checked_add(layout.size()).and_then(|t| t.checked_add(8)) {
        Some(t) => t,
        None => return std::ptr::null_mut(),
    };
    let base = System.alloc(Layout::from_size_align_unchecked(total, align));
    if base.is_null() {
        return base;
    }
    let user = base.add(pre);
    if tracked {
        // Nobody may rely on what fresh memory contains.
        std::ptr::write_bytes(user, FRESH, layout.size().min(4096));
    }
    let h = user.sub(HDR) as *mut Header;
    h.write(Header {
        magic: if tracked { MAGIC_LIVE } else { MAGIC_HARNESS },
        size: layout.size() as u64,
        tag: TAG.with(|t| t.get()),
        back: pre as u32,
        align: align as u32,
    });
    (user.add(layout.size()) as *mut u64).write_unaligned(REDZONE);
    if tracked {
        account(layout.size());
    }
    user
}

unsafe fn raw_dealloc(user: *mut u8, layout: Layout) {
    let h = user.sub(HDR) as *mut Header;
    let hd = &mut *h;
    match hd.magic {
        MAGIC_LIVE => {
            LIVE_BLOCKS.fetch_sub(1, Relaxed);
            LIVE_BYTES.fetch_sub(hd.size as i64, Relaxed);
        }
        MAGIC_HARNESS => {}
        MAGIC_FREED => {
            corrupt(1, hd.tag);
            return;
        }
        _ => {
            corrupt(2, 0);
            return;
        }
    }
    if hd.size != layout.size() as u64 {
        corrupt(5, hd.tag);
    }
    let size = hd.size as usize;
    if hd.align & FENCED != 0 {
        let align = (hd.align & !FENCED) as usize;
        let body = size.div_ceil(align) * align;
        if std::slice::from_raw_parts(user.add(size), body - size).iter().any(|&b| b != SLACK) {
            corrupt(3, hd.tag);
        }
        hd.magic = MAGIC_FREED;
        let back = hd.back as usize;
        libc::mprotect(user.sub(back).cast(), back + body, libc::PROT_NONE);
        return;
    }
    if (user.add(size) as *mut u64).read_unaligned() != REDZONE {
        corrupt(3, hd.tag);
    }
    hd.magic = MAGIC_FREED;
    let base = user.sub(hd.back as usize);
    let total = hd.back as usize + size + 8;
    let align = hd.align as usize;
    if !ENABLED.load(Relaxed) || size > 256 << 10 {
        System.dealloc(base, Layout::from_size_align_unchecked(total, align));
        return;
    }
    std::ptr::write_bytes(user, POISON, size);
    let q = Q { base, user, size, total, align, tag: hd.tag };
    lock();
    let ring = &mut *std::ptr::addr_of_mut!(RING);
    while ring.len > 0 && (ring.len == QUARANTINE || ring.bytes + size > QUARANTINE_BYTES) {
        let old = ring.slots[ring.head];
        ring.head = (ring.head + 1) % QUARANTINE;
        ring.len -= 1;
        ring.bytes -= old.size;
        evict(old);
    }
    let at = (ring.head + ring.len) % QUARANTINE;
    ring.slots[at] = q;
    ring.len += 1;
    ring.bytes += size;
    unlock();
}

unsafe fn evict(q: Q) {
    check_poison(&q);
    System.dealloc(q.base, Layout::from_size_align_unchecked(q.total, q.align));
}

unsafe fn check_poison(q: &Q) {
    let s = std::slice::from_raw_parts(q.user, q.size);
    let h = &*(q.user.sub(HDR) as *const Header);
    if s.iter().any(|&b| b != POISON) || h.magic != MAGIC_FREED {
        corrupt(4, q.tag);
    }
}

/// Verify every block still in quarantine.
pub fn check_quarantine() {
    let _np = sched::no_preempt();
    lock();
    unsafe {
        let ring = &*std::ptr::addr_of!(RING);
        for i in 0..ring.len {
            check_poison(&ring.slots[(ring.head + i) % QUARANTINE]);
        }
    }
    unlock();
}

/// Called for every allocation made while faults are armed.  Returns true if
/// the allocation must fail.
#[inline]
fn fault_point() -> bool {
    let mut a = match ARMED.try_with(|a| a.get()) {
        Ok(a) => a,
        Err(_) => return false,
    };
    if !a.active || !sched::on_sim_thread() || sched::preempt_disabled() {
        return false;
    }
    a.count += 1;
    let n = a.count;
    let fail = a.oom_at == n && !std::thread::panicking();
    if fail {
        a.oom_fired = true;
        a.oom_at = 0;
    }
    let y = a.yield_at.contains(&n);
    ARMED.with(|c| c.set(a));
    if y && !fail {
        // The preempted thread must not count the harness's own allocations.
        sched::yield_point(sched::Y_ALLOC, true);
    }
    fail
}

unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if fault_point() {
            return std::ptr::null_mut();
        }
        let _np = sched::no_preempt();
        raw_alloc(layout)
    }
    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        let _np = sched::no_preempt();
        raw_dealloc(p, layout)
    }
    unsafe fn realloc(&self, p: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        if fault_point() {
            return std::ptr::null_mut();
        }
        let _np = sched::no_preempt();
        let n = raw_alloc(Layout::from_size_align_unchecked(new_size, layout.align()));
        if !n.is_null() {
            std::ptr::copy_nonoverlapping(p, n, layout.size().min(new_size));
            raw_dealloc(p, layout);
        }
        n
    }
}
