//! What a simulated run reports to the process that started it, through a
//! shared mapping that survives any crash of the run.

use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};

pub const BITS: usize = 1 << 16;

#[repr(C)]
pub struct Shared {
    /// 0 unfinished, 1 held, 2 violation, 3 skipped
    pub verdict: AtomicU32,
    class_len: AtomicU32,
    msg_len: AtomicU32,
    /// Where the run currently is: thread << 16 | op index.
    pub at: AtomicU32,
    class: [u8; 32],
    msg: [u8; 6000],
    pub fired: [AtomicU64; 32],
    pub ops: [AtomicU64; 64],
    pub probes: [AtomicU64; 64],
    pub obs: [AtomicU64; 8],
    pub loghash: AtomicU64,
    pub schedhash: AtomicU64,
    pub switches: AtomicU64,
    pub yields: AtomicU64,
    pub evals: AtomicU64,
    pub allocs: AtomicU64,
    pub steps: AtomicU64,
    pub by_kind: [AtomicU64; 16],
    pub bits: [AtomicU64; BITS / 64],
}

static mut SHARED: *mut Shared = std::ptr::null_mut();

pub fn map() -> *mut Shared {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p as *mut Shared
    }
}
pub fn attach(p: *mut Shared) {
    unsafe { SHARED = p }
}
pub fn get() -> &'static Shared {
    unsafe { &*SHARED }
}
pub fn clear(p: *mut Shared) {
    unsafe { std::ptr::write_bytes(p as *mut u8, 0, std::mem::size_of::<Shared>()) }
}

impl Shared {
    pub fn class(&self) -> String {
        String::from_utf8_lossy(&self.class[..self.class_len.load(SeqCst) as usize]).into_owned()
    }
    pub fn msg(&self) -> String {
        String::from_utf8_lossy(&self.msg[..self.msg_len.load(SeqCst) as usize]).into_owned()
    }
}

/// Report a broken property and end the run on the spot.
pub fn violation(class: &str, msg: &str) -> ! {
    unsafe {
        let s = &mut *SHARED;
        if s.verdict.load(SeqCst) == 0 {
            let n = class.len().min(32);
            s.class[..n].copy_from_slice(&class.as_bytes()[..n]);
            s.class_len.store(n as u32, SeqCst);
            let at = s.at.load(SeqCst);
            let m = format!("[thread {} op {}] {}", at >> 16, at & 0xffff, msg);
            let n = m.len().min(6000);
            s.msg[..n].copy_from_slice(&m.as_bytes()[..n]);
            s.msg_len.store(n as u32, SeqCst);
            s.verdict.store(2, SeqCst);
        }
        libc::_exit(3)
    }
}

pub fn fired(kind: u8) {
    get().fired[kind as usize & 31].fetch_add(1, Relaxed);
}
pub fn probe(i: usize) {
    get().probes[i & 63].fetch_add(1, Relaxed);
}
pub fn eval() {
    get().evals.fetch_add(1, Relaxed);
}
/// Something a thread saw, for comparison with the same thread running alone.
pub fn observe(thread: usize, b: &[u8]) {
    let o = &get().obs[thread & 7];
    let mut h = o.load(Relaxed);
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x100_0000_01b3);
    }
    o.store(h.rotate_left(7) ^ 0x55, Relaxed);
}
/// Mix an event into the log of the run.
pub fn log(v: u64) {
    let s = get();
    let h = s.loghash.load(Relaxed);
    s.loghash.store((h ^ v).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(23), Relaxed);
}
/// Note an abstract state as reached.
pub fn state(v: u64) {
    let h = crate::rng::mix(v) as usize % BITS;
    get().bits[h / 64].fetch_or(1 << (h % 64), Relaxed);
}

pub const P_CLONE_SHARED: usize = 0; // mutated a stream whose storage was shared
pub const P_ITER_ALIAS: usize = 1; // iterated one handle while another was alive
pub const P_NEG_SPLIT: usize = 2; // negative literal split
pub const P_PREFIX: usize = 3; // extension interrupted, prefix kept
pub const P_STALE_PANIC: usize = 4;
pub const P_JOIN_NONE: usize = 5;
pub const P_JOIN_SOME: usize = 6;
pub const P_SUBSPAN_NONE: usize = 7;
pub const P_SUBSPAN_SOME: usize = 8;
pub const P_DEFERRED: usize = 9; // compiler stream checked with tokens still buffered
pub const P_MISMATCH: usize = 10; // compiler/fallback mismatch panic seen
pub const P_HETERO: usize = 11; // fallback stream holding compiler tokens
pub const P_BLOCKED: usize = 12; // a thread really blocked on another
pub const P_TLS_AFTER_MAP: usize = 13; // value used after the source map was destroyed
pub const P_UNICODE_SPAN: usize = 14; // span checked in a text with multi-byte characters
pub const P_FILE2: usize = 15; // span checked in a file that is not the first
pub const P_AFTER_INVALIDATE: usize = 16; // span checked after an invalidation
pub const P_AFTER_FAULT: usize = 17; // span checked after an injected fault on the thread
pub const P_ACCEPT: usize = 18;
pub const P_REJECT: usize = 19;
pub const P_INIT_RACE: usize = 20; // first use of one thread overlapped another thread's op
pub const P_DEEP: usize = 21;
pub const P_LEX_FAULT: usize = 22;
pub const P_INVALID_IN_MACRO: usize = 23;
pub const P_CONVERT: usize = 24;
pub const P_SINK_PREFIX: usize = 25;
pub const P_EMPTY_RESULT: usize = 26;
pub const P_GONE: usize = 27;
pub const P_FMT_ERROR: usize = 28;
pub const P_HUGE: usize = 29;
pub const P_FENCED: usize = 30;
pub const PROBE_NAMES: &[&str] = &[
    "mutated_stream_with_shared_storage",
    "iterated_while_aliased",
    "negative_literal_split",
    "extension_interrupted",
    "stale_span_panicked",
    "join_none",
    "join_some",
    "subspan_none",
    "subspan_some",
    "compiler_stream_with_buffered_tokens",
    "mode_mismatch_panic",
    "mixed_stream",
    "thread_really_blocked",
    "value_used_after_source_map_destroyed",
    "span_checked_in_multibyte_text",
    "span_checked_in_later_file",
    "span_checked_after_invalidation",
    "span_checked_after_fault",
    "damaged_text_accepted",
    "damaged_text_rejected",
    "first_use_overlapped",
    "deep_nesting_built",
    "compiler_lexer_fault_hit",
    "invalid_source_inside_macro",
    "fallback_to_compiler_conversion",
    "sink_failed_midway",
    "format_with_empty_output",
    "source_map_already_destroyed",
    "lex_error_written_to_sink",
    "text_with_very_long_part",
    "run_with_every_block_between_guard_pages",
];
