//! The operating system's random source as seen by this process, under the harness's control: the
//! C-library entry points through which it can be reached are replaced by versions that count what is
//! delivered and, when asked, deliver a reproducible stream or fail on plan. Used only in helper
//! processes; everywhere else the replacements pass the call through.
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicI64, AtomicU64, AtomicUsize, Ordering::SeqCst};

const SYS_GETRANDOM: i64 = 318;

pub static DELIVERED: AtomicU64 = AtomicU64::new(0);
pub static OPENED: AtomicBool = AtomicBool::new(false);
static STREAM_ON: AtomicBool = AtomicBool::new(false);
static STREAM: AtomicU64 = AtomicU64::new(0);
static FLIP: AtomicI64 = AtomicI64::new(-1);
static PROBE: AtomicI32 = AtomicI32::new(0);
static LAST: AtomicI32 = AtomicI32::new(0);
static PLAN_ON: AtomicBool = AtomicBool::new(false);
const MAX_PLAN: usize = 32;
static PLAN: [AtomicI32; MAX_PLAN] = [const { AtomicI32::new(0) }; MAX_PLAN];
static PLAN_LEN: AtomicUsize = AtomicUsize::new(0);
static AT: AtomicUsize = AtomicUsize::new(0);

/// How the source answers, request by request.
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Plan {
    /// error of a zero-length (availability) request, 0 = none
    pub probe: i32,
    /// n > 0: deliver at most n bytes; n < 0: fail with error -n; 0: deliver no byte
    pub steps: Vec<i32>,
    /// error of every request after those, 0 = deliver
    pub then: i32,
}
pub fn set_plan(p: &Plan) {
    PROBE.store(p.probe, SeqCst);
    for (a, s) in PLAN.iter().zip(&p.steps) {
        a.store(*s, SeqCst);
    }
    PLAN_LEN.store(p.steps.len().min(MAX_PLAN), SeqCst);
    LAST.store(p.then, SeqCst);
    AT.store(0, SeqCst);
    PLAN_ON.store(true, SeqCst);
}
/// deliver the stream numbered `n`, with bit `flip` inverted
pub fn set_stream(n: u64, flip: i64) {
    STREAM.store(n, SeqCst);
    FLIP.store(flip, SeqCst);
    STREAM_ON.store(true, SeqCst);
}
fn stream_byte(n: u64, i: u64) -> u8 {
    let mut z = n.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ (i / 8).wrapping_add(1).wrapping_mul(0xd1b5_4a32_d192_ed03);
    for _ in 0..2 {
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^= z >> 31;
    }
    (z >> (8 * (i % 8))) as u8
}

extern "C" {
    fn __errno_location() -> *mut i32;
}
unsafe fn raw(n: i64, a: [i64; 6]) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
        in("r10") a[3], in("r8") a[4], in("r9") a[5], lateout("rcx") _, lateout("r11") _);
    r
}
unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}
/// kernel convention: a negative error or the number of bytes delivered
unsafe fn random(buf: *mut u8, len: usize, flags: u32) -> i64 {
    let planned = PLAN_ON.load(SeqCst);
    if len == 0 {
        let p = PROBE.load(SeqCst);
        return if planned && p != 0 { -(p as i64) } else { 0 };
    }
    let mut n = len;
    if planned {
        let i = AT.fetch_add(1, SeqCst);
        let s = if i < PLAN_LEN.load(SeqCst) { PLAN[i].load(SeqCst) } else { match LAST.load(SeqCst) { 0 => i32::MAX, e => -e } };
        if s <= 0 {
            return s as i64;
        }
        n = n.min(s as usize);
    }
    if STREAM_ON.load(SeqCst) {
        let from = DELIVERED.load(SeqCst);
        for i in 0..n {
            *buf.add(i) = stream_byte(STREAM.load(SeqCst), from + i as u64);
        }
        let f = FLIP.load(SeqCst) - 8 * from as i64;
        if f >= 0 && f < 8 * n as i64 {
            *buf.add(f as usize / 8) ^= 0x80 >> (f % 8);
        }
    } else {
        let r = raw(SYS_GETRANDOM, [buf as i64, n as i64, flags as i64, 0, 0, 0]);
        if r < 0 {
            return r;
        }
        n = r as usize;
    }
    DELIVERED.fetch_add(n as u64, SeqCst);
    n as i64
}

/// # Safety
/// as the C library's
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == SYS_GETRANDOM {
        return ret(random(a as *mut u8, b as usize, c as u32));
    }
    ret(raw(n, [a, b, c, d, e, f]))
}
/// # Safety
/// as the C library's
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    ret(random(buf, len, flags)) as isize
}
/// # Safety
/// as the C library's
#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut u8, len: usize) -> i32 {
    let mut at = 0;
    while at < len {
        let r = random(buf.add(at), len - at, 0);
        if r < 0 && r != -4 {
            *__errno_location() = -r as i32;
            return -1;
        }
        at += r.max(0) as usize;
    }
    0
}
unsafe fn note_open(path: *const std::ffi::c_char) {
    if !path.is_null() {
        let p = std::ffi::CStr::from_ptr(path).to_bytes();
        if p.ends_with(b"random") {
            OPENED.store(true, SeqCst);
        }
    }
}
/// # Safety
/// as the C library's
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const std::ffi::c_char, flags: i32, mode: u32) -> i32 {
    note_open(path);
    // SYS_openat relative to the working directory
    ret(raw(257, [-100, path as i64, flags as i64, mode as i64, 0, 0])) as i32
}
