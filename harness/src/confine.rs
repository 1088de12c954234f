//! A system-call filter for helper processes. After `confine()` the process can use memory, locks, clocks,
//! threads, randomness and read-only files as before; any other system call (writing, creating, changing,
//! sending, starting, signalling ...) is not carried out but recorded, and fails with EPERM.
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

/// the descriptor on which a confined process may still write
pub const REPORT: i32 = 200;
const MAX: usize = 64;
const TEXT: usize = 80;
struct Seen {
    nr: AtomicUsize,
    a: [AtomicUsize; 3],
    text: std::cell::UnsafeCell<[u8; TEXT]>,
}
unsafe impl Sync for Seen {}
static SEEN: [Seen; MAX] = [const { Seen { nr: AtomicUsize::new(0), a: [const { AtomicUsize::new(0) }; 3], text: std::cell::UnsafeCell::new([0; TEXT]) } }; MAX];
static N: AtomicUsize = AtomicUsize::new(0);

const LD_ABS: u16 = 0x20;
const JEQ: u16 = 0x15;
const JSET: u16 = 0x45;
const RET: u16 = 0x06;
const ALLOW: u32 = 0x7fff_0000;
const TRAP: u32 = 0x0003_0000;

fn program() -> Vec<libc::sock_filter> {
    let mut p = vec![];
    let mut op = |code, jt, jf, k| p.push(libc::sock_filter { code, jt, jf, k });
    // x86-64 only; the harness is built for it
    op(LD_ABS, 0, 0, 4);
    op(JEQ, 1, 0, 0xc000_003e);
    op(RET, 0, 0, TRAP);
    op(LD_ABS, 0, 0, 0);
    use libc::*;
    for nr in [
        SYS_read, SYS_close, SYS_fstat, SYS_lseek, SYS_poll, SYS_mmap, SYS_mprotect, SYS_munmap, SYS_brk, SYS_rt_sigprocmask,
        SYS_rt_sigreturn, SYS_madvise, SYS_mremap, SYS_sched_yield, SYS_nanosleep, SYS_getpid, SYS_gettid, SYS_getppid, SYS_futex,
        SYS_sched_getaffinity, SYS_clock_gettime, SYS_clock_getres, SYS_clock_nanosleep, SYS_exit, SYS_exit_group, SYS_clone3,
        SYS_set_robust_list, SYS_rseq, SYS_sigaltstack, SYS_getrandom, SYS_membarrier, SYS_getuid, SYS_geteuid, SYS_getgid,
        SYS_getegid, SYS_uname, SYS_getrlimit, SYS_getcwd, SYS_readlink, SYS_readlinkat, SYS_stat, SYS_lstat, SYS_newfstatat,
        SYS_statx, SYS_access, SYS_faccessat, SYS_faccessat2, SYS_sysinfo, SYS_gettimeofday, SYS_time, SYS_getcpu, SYS_pread64,
        SYS_readv, SYS_getdents64, SYS_mlock, SYS_mlock2, SYS_munlock, SYS_getrusage, SYS_times,
    ] {
        op(JEQ, 0, 1, nr as u32);
        op(RET, 0, 0, ALLOW);
    }
    // allowed when an argument equals a value
    for (nr, arg, v) in [(SYS_write, 0, REPORT as u32), (SYS_prctl, 0, PR_SET_NAME as u32), (SYS_prlimit64, 2, 0)] {
        op(JEQ, 0, 4, nr as u32);
        op(LD_ABS, 0, 0, 16 + 8 * arg);
        op(JEQ, 0, 1, v);
        op(RET, 0, 0, ALLOW);
        op(RET, 0, 0, TRAP);
    }
    // opened for reading only
    let w = (O_ACCMODE | O_CREAT | O_TRUNC | O_APPEND) as u32;
    for (nr, arg) in [(SYS_open, 1), (SYS_openat, 2)] {
        op(JEQ, 0, 4, nr as u32);
        op(LD_ABS, 0, 0, 16 + 8 * arg);
        op(JSET, 1, 0, w);
        op(RET, 0, 0, ALLOW);
        op(RET, 0, 0, TRAP);
    }
    // asking for a handler, or the C library's own signals 32 and 33
    op(JEQ, 0, 7, SYS_rt_sigaction as u32);
    op(LD_ABS, 0, 0, 16 + 8);
    op(JEQ, 4, 0, 0);
    op(LD_ABS, 0, 0, 16);
    op(JEQ, 2, 0, 32);
    op(JEQ, 1, 0, 33);
    op(RET, 0, 0, TRAP);
    op(RET, 0, 0, ALLOW);
    // a new thread, not a new process
    op(JEQ, 0, 4, SYS_clone as u32);
    op(LD_ABS, 0, 0, 16);
    op(JSET, 0, 1, CLONE_THREAD as u32);
    op(RET, 0, 0, ALLOW);
    op(RET, 0, 0, TRAP);
    op(RET, 0, 0, TRAP);
    p
}

extern "C" fn on_trap(_: i32, info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    // SAFETY: the kernel hands us a valid siginfo (system-call number at offset 24) and context
    unsafe {
        let nr = *(info as *const u8).add(24).cast::<i32>();
        let g = &mut (*(ctx as *mut libc::ucontext_t)).uc_mcontext.gregs;
        let a = [g[libc::REG_RDI as usize] as usize, g[libc::REG_RSI as usize] as usize, g[libc::REG_RDX as usize] as usize];
        g[libc::REG_RAX as usize] = -(libc::EPERM as i64);
        let i = N.fetch_add(1, SeqCst);
        if i >= MAX {
            return;
        }
        let s = &SEEN[i];
        s.nr.store(nr as usize, SeqCst);
        for (x, y) in s.a.iter().zip(a) {
            x.store(y, SeqCst);
        }
        let nr = nr as i64;
        let t = &mut *s.text.get();
        if nr == libc::SYS_write {
            for (k, b) in t.iter_mut().enumerate().take(a[2].min(TEXT)) {
                *b = *(a[1] as *const u8).add(k);
            }
        } else {
            let path = match nr {
                libc::SYS_open | libc::SYS_mkdir | libc::SYS_rmdir | libc::SYS_unlink | libc::SYS_chdir | libc::SYS_creat | libc::SYS_execve | libc::SYS_rename | libc::SYS_truncate | libc::SYS_chmod => a[0],
                libc::SYS_openat | libc::SYS_unlinkat | libc::SYS_mkdirat | libc::SYS_renameat => a[1],
                _ => 0,
            };
            if path != 0 {
                for (k, b) in t.iter_mut().enumerate() {
                    let c = *(path as *const u8).add(k);
                    if c == 0 {
                        break;
                    }
                    *b = c;
                }
            }
        }
    }
}
/// Puts the whole process under the filter; false when the kernel does not offer it.
pub fn confine() -> bool {
    // SAFETY: plain system interface use, on a process made for this purpose
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
        if libc::sigaction(libc::SIGSYS, &sa, std::ptr::null_mut()) != 0 {
            return false;
        }
        if libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) != 0 {
            return false;
        }
        let mut p = program();
        let prog = libc::sock_fprog { len: p.len() as u16, filter: p.as_mut_ptr() };
        libc::syscall(libc::SYS_seccomp, 1, 1, &prog as *const _) == 0
    }
}
/// What was attempted so far.
pub fn attempts() -> Vec<String> {
    let n = N.load(SeqCst);
    SEEN[..n.min(MAX)]
        .iter()
        .map(|s| {
            let nr = s.nr.load(SeqCst);
            let a: Vec<usize> = s.a.iter().map(|x| x.load(SeqCst)).collect();
            // SAFETY: written before, not any more
            let t = unsafe { &*s.text.get() };
            let t: Vec<u8> = t.iter().copied().take_while(|b| *b != 0).collect();
            format!("{}({}) {}", name(nr as i64), a[0] as i32, String::from_utf8_lossy(&t).trim_end())
        })
        .collect()
}
fn name(nr: i64) -> String {
    let n = match nr {
        libc::SYS_write => "write",
        libc::SYS_writev => "writev",
        libc::SYS_open | libc::SYS_openat | libc::SYS_creat => "open for writing",
        libc::SYS_unlink | libc::SYS_unlinkat => "unlink",
        libc::SYS_rename | libc::SYS_renameat | libc::SYS_renameat2 => "rename",
        libc::SYS_mkdir | libc::SYS_mkdirat => "mkdir",
        libc::SYS_chdir => "chdir",
        libc::SYS_socket => "socket",
        libc::SYS_execve => "execve",
        libc::SYS_fork | libc::SYS_vfork | libc::SYS_clone => "fork",
        libc::SYS_kill | libc::SYS_tgkill | libc::SYS_tkill => "kill",
        libc::SYS_rt_sigaction => "sigaction",
        libc::SYS_umask => "umask",
        libc::SYS_memfd_create => "memfd_create",
        _ => return format!("system call {}", nr),
    };
    n.into()
}
