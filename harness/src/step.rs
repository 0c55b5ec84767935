//! Runs code one instruction at a time, to let others act between any two of them.
//!
//! The processor's trap flag makes the kernel signal this thread after each
//! instruction. At the chosen one, the handler lets another thread act, and
//! waits until that has completed (or is blocked, presumably by a lock which
//! this thread holds). This is a preemption at that very instruction, which
//! neither a stress test nor injected delays would hit but by luck.
use std::{
    cell::Cell,
    ptr::null,
    sync::{
        atomic::{AtomicU32, AtomicU64, Ordering},
        Once,
    },
    time::Duration,
};

/// How long an action may take before the stepped thread goes on.
const BLOCKED: Duration = Duration::from_micros(300);

struct Ctl {
    /// The address at which the other acts.
    at: u64,
    count: AtomicU64,
    /// Where to note the addresses of the instructions, and how many.
    trace: *mut u64,
    room: u64,
    go: AtomicU32,
    done: AtomicU32,
    fired: AtomicU32,
    blocked: AtomicU32,
}

thread_local! {
    static CTL: Cell<*const Ctl> = const { Cell::new(null()) };
}

fn futex(word: &AtomicU32, op: i32, val: u32, timeout: *const libc::timespec) {
    // SAFETY: a futex call on a live word; async-signal-safe.
    unsafe {
        libc::syscall(libc::SYS_futex, word.as_ptr(), op | libc::FUTEX_PRIVATE_FLAG, val, timeout);
    }
}

fn release(word: &AtomicU32) {
    word.store(1, Ordering::SeqCst);
    futex(word, libc::FUTEX_WAKE, u32::MAX >> 1, null());
}

/// Waits until the word is set; or for about the given time.
fn wait(word: &AtomicU32, limit: Option<Duration>) -> bool {
    let t = limit.map(|l| libc::timespec { tv_sec: l.as_secs() as _, tv_nsec: l.subsec_nanos() as _ });
    let mut tries = 0;
    while word.load(Ordering::SeqCst) == 0 {
        if limit.is_some() && tries >= 3 {
            return false;
        }
        tries += 1;
        futex(word, libc::FUTEX_WAIT, 0, t.as_ref().map_or(null(), |t| t));
    }
    true
}

const TRAP: i64 = 0x100;

extern "C" fn on_trap(_: libc::c_int, _: *mut libc::siginfo_t, context: *mut libc::c_void) {
    // SAFETY: the kernel passes a ucontext_t to a handler with SA_SIGINFO.
    let regs = unsafe { &mut (*context.cast::<libc::ucontext_t>()).uc_mcontext.gregs };
    let ip = regs[libc::REG_RIP as usize] as u64;
    let flags = &mut regs[libc::REG_EFL as usize];
    let ctl = CTL.get();
    if ctl.is_null() {
        *flags &= !TRAP;
        return;
    }
    // SAFETY: set by `stepped`, which outlives the stepping.
    let ctl = unsafe { &*ctl };
    let n = ctl.count.fetch_add(1, Ordering::Relaxed);
    if n < ctl.room {
        // SAFETY: there is room for so many.
        unsafe { ctl.trace.add(n as usize).write(ip) };
    }
    if ip == ctl.at {
        // SAFETY: errno of this thread.
        let errno = unsafe { *libc::__errno_location() };
        ctl.fired.store(1, Ordering::SeqCst);
        release(&ctl.go);
        if !wait(&ctl.done, Some(BLOCKED / 3)) {
            ctl.blocked.store(1, Ordering::SeqCst);
        }
        unsafe { *libc::__errno_location() = errno };
        *flags &= !TRAP;
    }
}

fn install() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        // SAFETY: installs a handler of the right signature.
        unsafe {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_trap as *const () as usize;
            a.sa_flags = libc::SA_SIGINFO | libc::SA_RESTART;
            libc::sigaction(libc::SIGTRAP, &a, std::ptr::null_mut());
        }
    });
}

#[derive(Clone, Copy, Debug, Default)]
pub struct At {
    /// Instructions of the stepped code before the other acted, or all of them.
    pub steps: u64,
    /// Whether the other acted in the midst of the stepped code.
    pub within: bool,
    /// Whether that could not complete before the stepped code went on.
    pub blocked: bool,
}

/// Runs `f`, and `other` on another thread, before `f` first executes the
/// instruction at the address, or afterwards.
pub fn stepped<R, A: Send>(at: u64, f: impl FnOnce() -> R, other: impl FnOnce() -> A + Send) -> (R, A, At) {
    run(at, &mut [], f, other)
}

/// Notes the different instructions of this program (not of libraries) that
/// `f` executes, in order; `other` acts afterwards.
pub fn traced<R, A: Send>(f: impl FnOnce() -> R, other: impl FnOnce() -> A + Send) -> (R, A, Vec<u64>) {
    extern "C" {
        static __executable_start: u8;
        static etext: u8;
    }
    // SAFETY: only their addresses are taken.
    let text = unsafe { std::ptr::addr_of!(__executable_start) as u64..std::ptr::addr_of!(etext) as u64 };
    let mut trace = vec![0; 100_000];
    let (r, o, at) = run(0, &mut trace, f, other);
    trace.truncate(at.steps as usize);
    let mut seen = std::collections::HashSet::new();
    trace.retain(|ip| text.contains(ip) && seen.insert(*ip));
    (r, o, trace)
}

fn run<R, A: Send>(at: u64, trace: &mut [u64], f: impl FnOnce() -> R, other: impl FnOnce() -> A + Send) -> (R, A, At) {
    install();
    let ctl = Ctl {
        at,
        count: AtomicU64::new(0),
        trace: trace.as_mut_ptr(),
        room: trace.len() as u64,
        go: AtomicU32::new(0),
        done: AtomicU32::new(0),
        fired: AtomicU32::new(0),
        blocked: AtomicU32::new(0),
    };
    let (go, done) = (&ctl.go, &ctl.done);
    std::thread::scope(|s| {
        let t = s.spawn(move || {
            wait(go, None);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(other));
            release(done);
            r
        });
        CTL.set(&ctl);
        #[cfg(target_arch = "x86_64")]
        // SAFETY: sets a flag of this thread; the handler is in place.
        unsafe {
            std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq")
        };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        #[cfg(target_arch = "x86_64")]
        unsafe {
            std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq")
        };
        CTL.set(null());
        let within = ctl.fired.load(Ordering::SeqCst) == 1;
        if !within {
            release(&ctl.go);
        }
        let other = t.join();
        let at = At { steps: ctl.count.load(Ordering::SeqCst), within, blocked: ctl.blocked.load(Ordering::SeqCst) == 1 };
        match (r, other) {
            (Ok(r), Ok(Ok(o))) => (r, o, at),
            (Err(e), _) => std::panic::resume_unwind(e),
            (_, Ok(Err(e))) | (_, Err(e)) => std::panic::resume_unwind(e),
        }
    })
}
