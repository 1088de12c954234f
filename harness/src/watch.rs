//! Global allocator that looks at watched memory at the moment it is released.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU8, AtomicUsize, Ordering::SeqCst};

const N: usize = 1024;
const MAX: usize = 256;
const FREE: u8 = 0;
const ARMED: u8 = 1;
const CLEAN: u8 = 2;
const DIRTY: u8 = 3;
const BUSY: u8 = 4;

struct Slot {
    state: AtomicU8,
    ptr: AtomicUsize,
    len: AtomicUsize,
    orig: UnsafeCell<[u8; MAX]>,
}
unsafe impl Sync for Slot {}
static SLOTS: [Slot; N] = [const { Slot { state: AtomicU8::new(FREE), ptr: AtomicUsize::new(0), len: AtomicUsize::new(0), orig: UnsafeCell::new([0; MAX]) } }; N];
static HIGH: AtomicUsize = AtomicUsize::new(0);
static ACTIVE: AtomicUsize = AtomicUsize::new(0);

pub struct Watcher;

/// Does the memory still hold (part of) the secret? Overwriting with any constant or with unrelated bytes is a wipe.
unsafe fn holds(now: *const u8, orig: &[u8]) -> bool {
    let n = orig.len();
    if n == 0 || orig.iter().all(|b| *b == orig[0]) {
        return false;
    }
    let at = |i: usize| std::ptr::read_volatile(now.add(i));
    let first = at(0);
    if (1..n).all(|i| at(i) == first) {
        return false;
    }
    // a run of the original left in place
    let mut run = 0;
    let mut nonzero = false;
    for i in 0..n {
        if at(i) == orig[i] {
            run += 1;
            nonzero |= orig[i] != 0;
            if run >= 5 && nonzero {
                return true;
            }
        } else {
            run = 0;
            nonzero = false;
        }
    }
    // a constant fill that missed some places
    for fill in [at(0), at(n - 1), at(n / 2), 0] {
        if (0..n).all(|i| at(i) == fill || at(i) == orig[i]) {
            return true;
        }
    }
    false
}
unsafe fn released(p: *mut u8, size: usize) {
    if ACTIVE.load(SeqCst) == 0 {
        return;
    }
    let (a, b) = (p as usize, p as usize + size);
    for s in &SLOTS[..HIGH.load(SeqCst)] {
        if s.state.load(SeqCst) != ARMED {
            continue;
        }
        let q = s.ptr.load(SeqCst);
        if q >= a && q < b && s.state.compare_exchange(ARMED, BUSY, SeqCst, SeqCst).is_ok() {
            let o = &(&*s.orig.get())[..s.len.load(SeqCst)];
            let dirty = holds(q as *const u8, o);
            s.state.store(if dirty { DIRTY } else { CLEAN }, SeqCst);
        }
    }
}
unsafe impl GlobalAlloc for Watcher {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        metered(l.size() as isize);
        came(p, l.size());
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        metered(l.size() as isize);
        came(p, l.size());
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        metered(-(l.size() as isize));
        released(p, l.size());
        if EVER.load(SeqCst) {
            went(p);
            // so that new blocks do not inherit the contents of old ones
            std::ptr::write_bytes(p, 0, l.size());
            std::hint::black_box(p);
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        metered(n as isize - l.size() as isize);
        if !EVER.load(SeqCst) {
            released(p, l.size());
            return System.realloc(p, l, n);
        }
        let q = System.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if q.is_null() {
            return q;
        }
        std::ptr::copy_nonoverlapping(p, q, n.min(l.size()));
        released(p, l.size());
        if went(p) {
            put(q as usize, n);
        } else {
            came(q, n);
        }
        std::ptr::write_bytes(p, 0, l.size());
        std::hint::black_box(p);
        System.dealloc(p, l);
        q
    }
}

/// A watched stretch of live memory.
pub struct Watch(usize);
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fate {
    /// not released; still holds the secret
    Live,
    /// not released, but overwritten
    Overwritten,
    ReleasedClean,
    ReleasedDirty,
}
impl Watch {
    /// The memory must stay allocated until it is released through the global allocator.
    pub fn new(p: *const u8, len: usize) -> Watch {
        assert!(len <= MAX, "watched secret too long");
        for (i, s) in SLOTS.iter().enumerate() {
            if s.state.compare_exchange(FREE, BUSY, SeqCst, SeqCst).is_ok() {
                // SAFETY: the slot is ours while BUSY; the caller gives readable memory
                unsafe { std::ptr::copy_nonoverlapping(p, (*s.orig.get()).as_mut_ptr(), len) };
                s.ptr.store(p as usize, SeqCst);
                s.len.store(len, SeqCst);
                HIGH.fetch_max(i + 1, SeqCst);
                ACTIVE.fetch_add(1, SeqCst);
                s.state.store(ARMED, SeqCst);
                return Watch(i);
            }
        }
        panic!("out of watch slots");
    }
    pub fn fate(&self) -> Fate {
        let s = &SLOTS[self.0];
        match s.state.load(SeqCst) {
            CLEAN => Fate::ReleasedClean,
            DIRTY => Fate::ReleasedDirty,
            // SAFETY: not released, so still readable
            _ => unsafe {
                let o = &(&*s.orig.get())[..s.len.load(SeqCst)];
                if holds(s.ptr.load(SeqCst) as *const u8, o) { Fate::Live } else { Fate::Overwritten }
            },
        }
    }
}
impl Drop for Watch {
    fn drop(&mut self) {
        ACTIVE.fetch_sub(1, SeqCst);
        SLOTS[self.0].state.store(FREE, SeqCst);
    }
}

// Blocks allocated while tracking is on and not yet released, in an open-addressing table under a spin lock.
const CAP: usize = 1 << 18;
static TRACK: AtomicBool = AtomicBool::new(false);
static EVER: AtomicBool = AtomicBool::new(false);
static LOCK: AtomicBool = AtomicBool::new(false);
static FULL: AtomicBool = AtomicBool::new(false);
static COUNT: AtomicUsize = AtomicUsize::new(0);
static TABLE: AtomicPtr<[usize; 2]> = AtomicPtr::new(std::ptr::null_mut());

struct Locked;
impl Locked {
    fn new() -> Locked {
        while LOCK.compare_exchange_weak(false, true, SeqCst, SeqCst).is_err() {
            std::hint::spin_loop();
        }
        Locked
    }
}
impl Drop for Locked {
    fn drop(&mut self) {
        LOCK.store(false, SeqCst);
    }
}
fn slot(p: usize) -> usize {
    (p >> 4).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> (64 - 18)
}
unsafe fn put(p: usize, n: usize) {
    let _l = Locked::new();
    let t = TABLE.load(SeqCst);
    if COUNT.fetch_add(1, SeqCst) > CAP * 3 / 4 {
        FULL.store(true, SeqCst);
        return;
    }
    let mut i = slot(p);
    while (*t.add(i))[0] != 0 {
        i = (i + 1) % CAP;
    }
    *t.add(i) = [p, n];
}
unsafe fn came(p: *mut u8, n: usize) {
    if TRACK.load(SeqCst) && !p.is_null() {
        put(p as usize, n);
    }
}
unsafe fn went(p: *mut u8) -> bool {
    if !EVER.load(SeqCst) {
        return false;
    }
    let _l = Locked::new();
    let t = TABLE.load(SeqCst);
    let mut i = slot(p as usize);
    let mut n = 0;
    while (*t.add(i))[0] != 0 && n < CAP {
        if (*t.add(i))[0] == p as usize {
            // close the gap
            let mut j = i;
            loop {
                j = (j + 1) % CAP;
                let x = *t.add(j);
                if x[0] == 0 {
                    break;
                }
                let k = slot(x[0]);
                if if i <= j { i < k && k <= j } else { i < k || k <= j } {
                    continue;
                }
                *t.add(i) = x;
                i = j;
            }
            (*t.add(i))[0] = 0;
            COUNT.fetch_sub(1, SeqCst);
            return true;
        }
        i = (i + 1) % CAP;
        n += 1;
    }
    false
}
/// Switches the recording of new blocks on or off; releases are always recorded.
pub fn track(on: bool) {
    if !EVER.load(SeqCst) {
        let l = Layout::array::<[usize; 2]>(CAP).expect("layout");
        // SAFETY: all-zero is an empty table
        TABLE.store(unsafe { System.alloc_zeroed(l) }.cast(), SeqCst);
        EVER.store(true, SeqCst);
    }
    TRACK.store(on, SeqCst);
}
/// The blocks recorded and not released since.
pub fn tracked() -> Result<Vec<(usize, usize)>, String> {
    assert!(!TRACK.load(SeqCst));
    if FULL.load(SeqCst) {
        panic!("the table of live blocks is full");
    }
    let mut v = Vec::with_capacity(COUNT.load(SeqCst) + 16);
    let t = TABLE.load(SeqCst);
    for i in 0..CAP {
        // SAFETY: inside the table; tracking is off
        let [p, n] = unsafe { *t.add(i) };
        if p != 0 {
            v.push((p, n));
        }
    }
    Ok(v)
}

// Heap memory held by one thread's allocations, and the most of it at any time.
#[derive(Clone, Copy)]
struct Meter {
    on: bool,
    held: isize,
    peak: isize,
}
thread_local! {
    static METER: std::cell::Cell<Meter> = const { std::cell::Cell::new(Meter { on: false, held: 0, peak: 0 }) };
}
fn metered(d: isize) {
    let _ = METER.try_with(|c| {
        let mut m = c.get();
        if m.on {
            m.held += d;
            m.peak = m.peak.max(m.held);
            c.set(m);
        }
    });
}
/// The most heap memory, in bytes, that this thread holds at any time during the call on top of what it held before.
pub fn peak<R>(f: impl FnOnce() -> R) -> (R, usize) {
    METER.with(|c| c.set(Meter { on: true, held: 0, peak: 0 }));
    let r = f();
    let p = METER.with(|c| c.replace(Meter { on: false, held: 0, peak: 0 })).peak;
    (r, p as usize)
}
