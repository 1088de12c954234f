//! Single-step trace of a piece of code: the trap flag makes the processor stop after every instruction and
//! the signal handler notes where. Per thread; nothing is written but the thread's own buffer.
use std::cell::UnsafeCell;

pub const MAX: usize = 1 << 17;
struct Buf {
    on: bool,
    n: usize,
    at: [u32; MAX],
}
struct Cell0(UnsafeCell<*mut Buf>);
thread_local! {
    static BUF: Cell0 = const { Cell0(UnsafeCell::new(std::ptr::null_mut())) };
}
extern "C" {
    #[link_name = "__executable_start"]
    static START: u8;
}
extern "C" fn on_trap(_: i32, _: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    // SAFETY: the kernel hands us a valid context; BUF is const-initialised and has no destructor
    unsafe {
        let b = BUF.with(|b| *b.0.get());
        let g = &mut (*(ctx as *mut libc::ucontext_t)).uc_mcontext.gregs;
        if b.is_null() || !(*b).on {
            g[libc::REG_EFL as usize] &= !0x100;
            return;
        }
        if (*b).n < MAX {
            (*b).at[(*b).n] = (g[libc::REG_RIP as usize] as usize).wrapping_sub(&START as *const u8 as usize) as u32;
        }
        (*b).n += 1;
    }
}
fn install() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO;
        assert_eq!(libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut()), 0);
    });
}
/// Runs `f` one instruction at a time; the instruction addresses visited go to `out`. Returns the number
/// executed (which may exceed what fits).
#[inline(never)]
pub fn steps<R>(out: &mut Vec<u32>, f: impl FnOnce() -> R) -> (R, usize) {
    install();
    unsafe {
        let b = BUF.with(|b| {
            let p = b.0.get();
            if (*p).is_null() {
                *p = std::alloc::alloc_zeroed(std::alloc::Layout::new::<Buf>()).cast();
            }
            *p
        });
        (*b).n = 0;
        (*b).on = true;
        std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        let r = f();
        std::arch::asm!("pushfq", "and qword ptr [rsp], ~0x100", "popfq");
        (*b).on = false;
        let n = (*b).n;
        out.clear();
        out.extend_from_slice(&(&(*b).at)[..n.min(MAX)]);
        (r, n)
    }
}
