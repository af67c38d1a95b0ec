//! The scheduler.  Simulated threads are real threads of which exactly one
//! runs at a time; who runs next is decided only by the bytes of the plan.
//! Switch points are operation boundaries, calls out of the crate into the
//! harness (iterators, sinks, the compiler bridge), chosen allocations, and
//! chosen machine instructions (the trap flag single-steps the running thread
//! and the n-th instruction of the executable becomes a preemption).

use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};

pub const MAX: usize = 8;

pub const Y_OP: u32 = 1;
pub const Y_ALLOC: u32 = 2;
pub const Y_INSTR: u32 = 3;
pub const Y_ITER: u32 = 4;
pub const Y_SINK: u32 = 5;
pub const Y_RPC: u32 = 6;
pub const Y_BLOCK: u32 = 8;

const S_NONE: u32 = 0;
const S_READY: u32 = 1;
const S_RUNNING: u32 = 2;
const S_BLOCKED: u32 = 3;
const S_EXITING: u32 = 4;
const S_DONE: u32 = 5;

struct Slot {
    go: AtomicU32,
    state: AtomicU32,
    tid: AtomicU32,
    /// Set while the thread sits in one of our own waits.
    parked: AtomicBool,
    blocked_at: AtomicU64,
}
#[allow(clippy::declare_interior_mutable_const)]
const SLOT: Slot = Slot {
    go: AtomicU32::new(0),
    state: AtomicU32::new(S_NONE),
    tid: AtomicU32::new(0),
    parked: AtomicBool::new(false),
    blocked_at: AtomicU64::new(0),
};
static SLOTS: [Slot; MAX] = [SLOT; MAX];
static CTL: AtomicU32 = AtomicU32::new(0);
static REQUEST: AtomicU32 = AtomicU32::new(0);

static BYTES_PTR: AtomicUsize = AtomicUsize::new(0);
static BYTES_LEN: AtomicUsize = AtomicUsize::new(0);
static CURSOR: AtomicUsize = AtomicUsize::new(0);

pub static SWITCHES: AtomicU64 = AtomicU64::new(0);
pub static YIELDS: AtomicU64 = AtomicU64::new(0);
pub static PROGRESS: AtomicU64 = AtomicU64::new(0);
pub static HASH: AtomicU64 = AtomicU64::new(0xcbf29ce484222325);
pub static BY_KIND: [AtomicU64; 9] = [
    AtomicU64::new(0),
    AtomicU64::new(0),
    AtomicU64::new(0),
    AtomicU64::new(0),
    AtomicU64::new(0),
    AtomicU64::new(0),
    AtomicU64::new(0),
    AtomicU64::new(0),
    AtomicU64::new(0),
];
pub static STEPPED: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static SELF: Cell<usize> = const { Cell::new(usize::MAX) };
    /// Set while the destructors of the thread's locals run.
    static LEAVING: Cell<usize> = const { Cell::new(usize::MAX) };
    static NO_PREEMPT: Cell<u32> = const { Cell::new(0) };
    /// Where to preempt; 0 = unused.
    static TARGETS: Cell<Targets> = const { Cell::new(NO_TARGETS) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    /// Instructions that refer to static memory so far, and instructions until
    /// a preemption decided by one of them.
    static REFS: Cell<u64> = const { Cell::new(0) };
    static SOON: Cell<u64> = const { Cell::new(0) };
    static PENDING: Cell<bool> = const { Cell::new(false) };
    static STEPPING: Cell<bool> = const { Cell::new(false) };
}

/// Preempt at the n-th instruction of the operation; or d instructions after
/// the n-th instruction that refers to static memory (n * 8 + d), which is the
/// only place where threads can meet.
#[derive(Clone, Copy, PartialEq)]
pub struct Targets {
    pub instr: [u64; 4],
    pub shared: [u64; 4],
}
pub const NO_TARGETS: Targets = Targets { instr: [0; 4], shared: [0; 4] };

pub fn on_sim_thread() -> bool {
    SELF.with(|s| s.get()) != usize::MAX
}
pub fn current() -> usize {
    SELF.with(|s| s.get())
}
pub fn preempt_disabled() -> bool {
    NO_PREEMPT.with(|n| n.get()) > 0
}

pub struct NoPreempt(());
#[inline]
pub fn no_preempt() -> NoPreempt {
    NO_PREEMPT.with(|n| n.set(n.get() + 1));
    NoPreempt(())
}
impl Drop for NoPreempt {
    #[inline]
    fn drop(&mut self) {
        NO_PREEMPT.with(|n| n.set(n.get() - 1));
    }
}

fn futex_wait(a: &AtomicU32, val: u32, timeout_us: Option<u64>) {
    let ts;
    let p = match timeout_us {
        Some(us) => {
            ts = libc::timespec {
                tv_sec: (us / 1_000_000) as i64,
                tv_nsec: ((us % 1_000_000) * 1000) as i64,
            };
            &ts as *const _
        }
        None => std::ptr::null(),
    };
    unsafe {
        libc::syscall(
            libc::SYS_futex,
            a as *const _ as *const u32,
            libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG,
            val,
            p,
            0usize,
            0u32,
        );
    }
}
fn futex_wake(a: &AtomicU32) {
    unsafe {
        libc::syscall(
            libc::SYS_futex,
            a as *const _ as *const u32,
            libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG,
            1u32,
        );
    }
}

/// While this lives the thread waits for something of the harness's own (a
/// helper thread), which is not a lock of the system under test.
pub struct HarnessWait(NoPreempt);
pub fn harness_wait() -> HarnessWait {
    let np = no_preempt();
    if on_sim_thread() {
        SLOTS[current()].parked.store(true, SeqCst);
    }
    HarnessWait(np)
}
impl Drop for HarnessWait {
    fn drop(&mut self) {
        let _ = &self.0;
        if on_sim_thread() {
            SLOTS[current()].parked.store(false, SeqCst);
        }
    }
}

fn mixin(v: u64) {
    let h = HASH.load(Relaxed);
    HASH.store((h ^ v).wrapping_mul(0x100_0000_01b3).rotate_left(5), Relaxed);
}

fn next_byte() -> u8 {
    let i = CURSOR.fetch_add(1, Relaxed);
    if i < BYTES_LEN.load(Relaxed) {
        unsafe { *(BYTES_PTR.load(Relaxed) as *const u8).add(i) }
    } else {
        0
    }
}

/// Hand the baton back to the controller and wait to be resumed.
fn park(state: u32) {
    park_as(current(), state)
}

fn park_as(me: usize, state: u32) {
    let slot = &SLOTS[me];
    slot.go.store(0, SeqCst);
    slot.parked.store(true, SeqCst);
    slot.state.store(state, SeqCst);
    CTL.store(1, SeqCst);
    futex_wake(&CTL);
    while slot.go.load(SeqCst) == 0 {
        futex_wait(&slot.go, 0, None);
    }
    slot.parked.store(false, SeqCst);
}

fn others_alive() -> bool {
    let me = current();
    (0..MAX).any(|i| {
        i != me && matches!(SLOTS[i].state.load(Relaxed), S_READY | S_BLOCKED | S_EXITING)
    })
}

/// A point at which the plan may switch threads.
pub fn yield_point(kind: u32, forced: bool) {
    if !on_sim_thread() || preempt_disabled() {
        return;
    }
    let _np = no_preempt();
    YIELDS.fetch_add(1, Relaxed);
    if !others_alive() {
        return;
    }
    let mut d = next_byte();
    if d == 0 {
        if !forced {
            return;
        }
        d = 1;
    }
    BY_KIND[kind as usize].fetch_add(1, Relaxed);
    mixin((kind as u64) << 16 | (current() as u64) << 8 | d as u64);
    REQUEST.store(d as u32, SeqCst);
    park(S_READY);
}

// ---------------------------------------------------------------------------
// Instruction-level preemption.

extern "C" {
    static __executable_start: u8;
    static etext: u8;
    static __data_start: u8;
    static end: u8;
}

fn text_range() -> (u64, u64) {
    (std::ptr::addr_of!(__executable_start) as u64, std::ptr::addr_of!(etext) as u64)
}

fn data_range() -> (u64, u64) {
    (std::ptr::addr_of!(__data_start) as u64, std::ptr::addr_of!(end) as u64)
}

/// Does the instruction at `rip` name an address in writable static memory?
unsafe fn refers_to_static(rip: u64) -> bool {
    let p = rip as *const u8;
    let mut i = 0;
    while i < 6 && matches!(*p.add(i), 0x66 | 0xf0 | 0xf2 | 0xf3 | 0x2e | 0x3e | 0x40..=0x4f) {
        i += 1;
    }
    // Thread locals are not shared.
    if matches!(*p.add(i), 0x64 | 0x65) {
        return false;
    }
    let op = *p.add(i);
    i += 1;
    let has_modrm = if op == 0x0f {
        let op2 = *p.add(i);
        i += 1;
        if matches!(op2, 0x38 | 0x3a) {
            i += 1;
            true
        } else {
            // jcc and the like have none
            !matches!(op2, 0x80..=0x8f | 0x05 | 0x0b | 0xa2 | 0x31)
        }
    } else {
        matches!(op,
            0x00..=0x03 | 0x08..=0x0b | 0x10..=0x13 | 0x18..=0x1b | 0x20..=0x23 | 0x28..=0x2b | 0x30..=0x33 | 0x38..=0x3b
            | 0x63 | 0x69 | 0x6b | 0x80..=0x8f | 0xc0 | 0xc1 | 0xc6 | 0xc7 | 0xd0..=0xd3 | 0xf6 | 0xf7 | 0xfe | 0xff)
    };
    if !has_modrm || *p.add(i) & 0xc7 != 0x05 {
        return false;
    }
    let disp = (p.add(i + 1) as *const i32).read_unaligned() as i64;
    let target = (rip + i as u64 + 5).wrapping_add(disp as u64);
    let (lo, hi) = data_range();
    // An immediate operand may follow, hence the slack.
    target + 8 >= lo && target < hi
}

extern "C" fn on_trap(_sig: i32, _info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        let uc = &mut *(ctx as *mut libc::ucontext_t);
        let rip = uc.uc_mcontext.gregs[libc::REG_RIP as usize] as u64;
        let flags = &mut uc.uc_mcontext.gregs[libc::REG_EFL as usize];
        if !STEPPING.with(|s| s.get()) {
            *flags &= !0x100;
            return;
        }
        let (lo, hi) = text_range();
        if rip < lo || rip >= hi || preempt_disabled() || !crate::alloc::ARMED.with(|a| a.get()).active {
            return;
        }
        let n = COUNT.with(|c| {
            c.set(c.get() + 1);
            c.get()
        });
        let t = TARGETS.with(|t| t.get());
        let mut now = t.instr.contains(&n);
        let refs = if t.shared != [0; 4] {
            match SOON.with(|s| s.get()) {
                0 => {}
                k => {
                    SOON.with(|s| s.set(k - 1));
                    now |= k == 1;
                }
            }
            let mut r = REFS.with(|r| r.get());
            if refers_to_static(rip) {
                r += 1;
                REFS.with(|x| x.set(r));
                for d in t.shared {
                    if d / 8 == r {
                        if d % 8 == 0 {
                            now = true;
                        } else {
                            SOON.with(|s| s.set(d % 8));
                        }
                    }
                }
            }
            r
        } else {
            0
        };
        if now {
            let errno = *libc::__errno_location();
            STEPPED.fetch_add(1, Relaxed);
            yield_point(Y_INSTR, true);
            *libc::__errno_location() = errno;
        }
        if n >= *t.instr.iter().max().unwrap()
            && ((refs >= t.shared.iter().max().unwrap() / 8 && SOON.with(|s| s.get()) == 0) || n > 1_500)
        {
            STEPPING.with(|s| s.set(false));
            PENDING.with(|s| s.set(false));
            *flags &= !0x100;
        }
    }
}

/// The preemption points of the operation about to run.
pub fn step_load(t: Targets) {
    COUNT.with(|c| c.set(0));
    REFS.with(|c| c.set(0));
    SOON.with(|c| c.set(0));
    TARGETS.with(|c| c.set(t));
    PENDING.with(|s| s.set(t != NO_TARGETS && on_sim_thread()));
}

#[inline]
pub fn step_pending() -> bool {
    PENDING.with(|s| s.get())
}

/// Single-step the calling thread from here ...
#[inline(never)]
pub fn step_begin() {
    if PENDING.with(|s| s.get()) && !STEPPING.with(|s| s.get()) {
        STEPPING.with(|s| s.set(true));
        unsafe {
            std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        }
    }
}

/// ... to here.
#[inline(never)]
pub fn step_end() {
    if STEPPING.with(|s| s.get()) {
        unsafe {
            std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
        }
        STEPPING.with(|s| s.set(false));
    }
}

extern "C" fn on_usr1(_sig: i32) {
    let me = current().min(LEAVING.with(|l| l.get()));
    if me == usize::MAX {
        return;
    }
    if SLOTS[me].parked.load(SeqCst) {
        return;
    }
    let _np = no_preempt();
    unsafe {
        let errno = *libc::__errno_location();
        BY_KIND[Y_BLOCK as usize].fetch_add(1, Relaxed);
        REQUEST.store(0, SeqCst);
        park_as(me, S_BLOCKED);
        *libc::__errno_location() = errno;
    }
}

pub fn install() {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as extern "C" fn(i32, *mut libc::siginfo_t, *mut libc::c_void) as usize;
        sa.sa_flags = libc::SA_SIGINFO;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
        let mut sb: libc::sigaction = std::mem::zeroed();
        sb.sa_sigaction = on_usr1 as extern "C" fn(i32) as usize;
        sb.sa_flags = 0; // no SA_RESTART: a blocked futex must return EINTR
        libc::sigaction(libc::SIGUSR1, &sb, std::ptr::null_mut());
    }
}

// ---------------------------------------------------------------------------
// Thread side.

/// First thing a simulated thread does.
pub fn thread_start(i: usize) {
    SELF.with(|s| s.set(i));
    SLOTS[i].tid.store(unsafe { libc::syscall(libc::SYS_gettid) } as u32, SeqCst);
    let _np = no_preempt();
    REQUEST.store(0, SeqCst);
    park(S_READY);
}

/// Last thing a simulated thread does before returning (thread-local
/// destructors then run, to completion unless they wait for another thread).
pub fn thread_exit() {
    {
        let _np = no_preempt();
        let d = next_byte();
        REQUEST.store(d as u32, SeqCst);
        park(S_EXITING);
    }
    LEAVING.with(|l| l.set(current()));
    SELF.with(|s| s.set(usize::MAX));
}

// ---------------------------------------------------------------------------
// Controller side.

pub enum End {
    Done,
    Deadlock(String),
}

fn looks_blocked(tid: u32) -> bool {
    // State 'S' inside futex(2).
    let path = format!("/proc/self/task/{}/stat", tid);
    let Ok(s) = std::fs::read_to_string(path) else { return false };
    let Some(p) = s.rfind(')') else { return false };
    if s[p + 1..].trim_start().chars().next() != Some('S') {
        return false;
    }
    match std::fs::read_to_string(format!("/proc/self/task/{}/syscall", tid)) {
        Ok(s) => s.starts_with("202 "),
        Err(_) => true,
    }
}

/// Wait for the end of a thread, for at most two milliseconds.
fn join_briefly(t: libc::pthread_t) -> bool {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_REALTIME, &mut ts);
        ts.tv_nsec += 2_000_000;
        if ts.tv_nsec >= 1_000_000_000 {
            ts.tv_nsec -= 1_000_000_000;
            ts.tv_sec += 1;
        }
        pthread_timedjoin_np(t, std::ptr::null_mut(), &ts) == 0
    }
}
extern "C" {
    fn pthread_timedjoin_np(t: libc::pthread_t, r: *mut *mut libc::c_void, at: *const libc::timespec) -> i32;
}

/// Wait until the running thread gives the baton back, or has ended (true).
fn wait_for(i: usize, leaving: Option<libc::pthread_t>) -> bool {
    let slot = &SLOTS[i];
    let mut suspicious = 0;
    loop {
        if CTL.load(SeqCst) == 1 {
            return false;
        }
        match leaving {
            Some(t) => {
                if join_briefly(t) {
                    return true;
                }
            }
            None => futex_wait(&CTL, 0, Some(2000)),
        }
        if CTL.load(SeqCst) == 1 {
            return false;
        }
        let tid = slot.tid.load(SeqCst);
        let parked = slot.parked.load(SeqCst);
        if !parked && looks_blocked(tid) {
            suspicious += 1;
        } else {
            suspicious = 0;
        }
        if !parked && suspicious >= 4 {
            suspicious = 0;
            if CTL.load(SeqCst) == 1 {
                return false;
            }
            unsafe {
                libc::syscall(libc::SYS_tgkill, libc::getpid(), tid, libc::SIGUSR1);
            }
        }
    }
}

/// `spawn(i)` starts (or restarts) simulated thread i; `joined(i)` is called
/// when it has completely exited and says whether to restart it.
pub fn run(
    n: usize,
    bytes: &[u8],
    mut spawn: impl FnMut(usize) -> std::thread::JoinHandle<()>,
    mut joined: impl FnMut(usize) -> bool,
) -> End {
    BYTES_PTR.store(bytes.as_ptr() as usize, SeqCst);
    BYTES_LEN.store(bytes.len(), SeqCst);
    CURSOR.store(0, SeqCst);
    use std::os::unix::thread::JoinHandleExt;
    let mut handles: Vec<libc::pthread_t> = Vec::new();
    let mut leaving = [false; MAX];
    let mut start = |i: usize| {
        CTL.store(0, SeqCst);
        let h = spawn(i);
        while CTL.load(SeqCst) == 0 {
            futex_wait(&CTL, 0, Some(1_000_000));
        }
        h
    };
    for i in 0..n {
        handles.push(start(i).into_pthread_t());
    }
    let mut cur = 0usize;
    let mut doubts = 0;
    let mut request = {
        let b = next_byte();
        b as u32
    };
    loop {
        let progress = PROGRESS.load(SeqCst);
        let mut ready: Vec<usize> = Vec::new();
        let mut blocked = 0;
        for i in 0..n {
            match SLOTS[i].state.load(SeqCst) {
                S_READY | S_EXITING => ready.push(i),
                S_BLOCKED => {
                    blocked += 1;
                    if SLOTS[i].blocked_at.load(SeqCst) < progress {
                        ready.push(i);
                    }
                }
                _ => {}
            }
        }
        if ready.is_empty() {
            if blocked > 0 && doubts < 3 {
                // Be sure: let every blocked thread try again.
                doubts += 1;
                PROGRESS.fetch_add(1, SeqCst);
                continue;
            }
            if blocked > 0 {
                return End::Deadlock(format!("{} thread(s) blocked forever", blocked));
            }
            return End::Done;
        }
        // 0: stay with the current thread if it can run, else the first one.
        let next = if request == 0 {
            if ready.contains(&cur) {
                cur
            } else {
                ready[0]
            }
        } else {
            let mut others: Vec<usize> = ready.iter().copied().filter(|&i| i != cur).collect();
            if others.is_empty() {
                others = ready.clone();
            }
            others[(request as usize - 1) % others.len()]
        };
        if next != cur {
            SWITCHES.fetch_add(1, Relaxed);
        }
        mixin(0x5151 ^ next as u64);
        cur = next;
        let was = SLOTS[cur].state.swap(S_RUNNING, SeqCst);
        CTL.store(0, SeqCst);
        SLOTS[cur].go.store(1, SeqCst);
        futex_wake(&SLOTS[cur].go);
        if was == S_EXITING {
            // Destructors of thread locals run now, then the thread is gone.
            leaving[cur] = true;
        }
        let gone = wait_for(cur, if leaving[cur] { Some(handles[cur]) } else { None });
        if gone {
            leaving[cur] = false;
            SLOTS[cur].state.store(S_DONE, SeqCst);
            PROGRESS.fetch_add(1, SeqCst);
            if joined(cur) {
                SLOTS[cur].state.store(S_NONE, SeqCst);
                handles[cur] = start(cur).into_pthread_t();
            }
            request = next_byte() as u32;
            continue;
        }
        let st = SLOTS[cur].state.load(SeqCst);
        if st == S_BLOCKED {
            SLOTS[cur].blocked_at.store(PROGRESS.load(SeqCst), SeqCst);
            request = next_byte() as u32;
        } else {
            PROGRESS.fetch_add(1, SeqCst);
            doubts = 0;
            request = REQUEST.load(SeqCst);
        }
    }
}
