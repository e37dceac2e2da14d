//! Preemption at instruction granularity: one operation runs under the
//! processor's trap flag and is stopped at chosen instructions of this
//! program, while another thread runs a second operation to completion.
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::time::{Duration, Instant};

/// Where the traced operation is stopped.
#[derive(Clone, Copy)]
pub enum Plan {
    Nowhere,
    /// Before one instruction, counted from the start of the operation.
    At(u64),
    /// Before every instruction.
    Everywhere,
}

static POINTS: AtomicU64 = AtomicU64::new(0);
/// `u64::MAX`: nowhere, `u64::MAX - 1`: everywhere.
static WHERE: AtomicU64 = AtomicU64::new(u64::MAX);
static ASKED: AtomicU64 = AtomicU64::new(0);
static DONE: AtomicU64 = AtomicU64::new(0);
static STOP: AtomicBool = AtomicBool::new(false);

#[cfg(all(target_arch = "x86_64", target_os = "linux"))]
mod trap {
    use super::*;
    extern "C" {
        fn syscall(n: i64, ...) -> i64;
        static __executable_start: u8;
        static etext: u8;
    }
    #[repr(C)]
    struct Libc {
        handler: usize,
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }
    extern "C" {
        fn sigaction(sig: i32, act: *const Libc, old: *mut Libc) -> i32;
    }
    fn range() -> (usize, usize) {
        (&raw const __executable_start as usize, &raw const etext as usize)
    }
    /// Text of the C library. Its functions are run at full speed: nothing of
    /// the program under test is in there.
    static LIBC: [AtomicUsize; 2] = [AtomicUsize::new(0), AtomicUsize::new(0)];
    /// Whether the last trap was in this program, and where the C library
    /// function that runs at full speed returns to.
    static INSIDE: AtomicBool = AtomicBool::new(false);
    static RETURN: AtomicUsize = AtomicUsize::new(0);
    std::arch::global_asm!(
        ".pushsection .text",
        ".globl mc_interleave_back",
        "mc_interleave_back:",
        "int3",
        "ud2",
        ".popsection"
    );
    extern "C" {
        static mc_interleave_back: u8;
    }
    const TF: usize = 0x100;
    extern "C" fn on_trap(_: i32, _: *mut u8, ctx: *mut u8) {
        // uc_mcontext.gregs
        let reg = |i: usize| unsafe { &mut *(ctx.add(40 + i * 8) as *mut usize) };
        let (ip, sp, flags) = (reg(16), *reg(15), reg(17));
        let (lo, hi) = range();
        let back = &raw const mc_interleave_back as usize;
        if *ip == back + 1 {
            // A function of the C library is done.
            *ip = RETURN.load(Relaxed);
            *flags |= TF;
        } else if *ip < lo || *ip >= hi {
            if INSIDE.swap(false, Relaxed) && *ip >= LIBC[0].load(Relaxed) && *ip < LIBC[1].load(Relaxed) {
                let ret = unsafe { &mut *(sp as *mut usize) };
                if (lo..hi).contains(ret) {
                    RETURN.store(*ret, Relaxed);
                    *ret = back;
                    *flags &= !TF;
                }
            }
            return;
        }
        INSIDE.store(true, Relaxed);
        let point = POINTS.load(Relaxed);
        POINTS.store(point + 1, Relaxed);
        let plan = WHERE.load(Relaxed);
        if plan == u64::MAX || (plan != u64::MAX - 1 && plan != point) {
            return;
        }
        if plan == point {
            // That was it: the rest runs at full speed.
            *flags &= !TF;
        }
        let asked = ASKED.load(Relaxed);
        if DONE.load(Acquire) != asked {
            // The other thread still waits for something this one holds.
            return;
        }
        ASKED.store(asked + 1, Release);
        let mut spins = 0u32;
        let mut since = None;
        while DONE.load(Acquire) != asked + 1 {
            spins += 1;
            if spins < 4000 {
                std::hint::spin_loop();
                continue;
            }
            let since = *since.get_or_insert_with(Instant::now);
            if since.elapsed() > Duration::from_millis(200) {
                return;
            }
            unsafe { syscall(24) }; // sched_yield
        }
    }
    pub fn install() {
        if LIBC[1].load(Relaxed) == 0 {
            let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
            let at = maps.lines().find(|l| l.contains(" r-x") && l.contains("/libc.so")).and_then(|l| l.split_whitespace().next()?.split_once('-'));
            let at = at.and_then(|(a, b)| Some((usize::from_str_radix(a, 16).ok()?, usize::from_str_radix(b, 16).ok()?)));
            let (a, b) = at.unwrap_or((1, 1));
            LIBC[0].store(a, Relaxed);
            LIBC[1].store(b, Relaxed);
        }
        INSIDE.store(false, Relaxed);
        let a = Libc { handler: on_trap as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
        assert_eq!(unsafe { sigaction(5, &a, std::ptr::null_mut()) }, 0);
    }
    #[inline(never)]
    pub fn traced<R>(f: impl FnOnce() -> R) -> R {
        unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
        let r = f();
        unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") };
        r
    }
}
#[cfg(not(all(target_arch = "x86_64", target_os = "linux")))]
mod trap {
    pub fn install() {}
    pub fn traced<R>(f: impl FnOnce() -> R) -> R {
        f()
    }
}

/// Runs `a` on this thread, stopped as planned while another thread runs `b`.
/// Gives the result of `a`, the number of instructions at which it could have
/// been stopped, how often `b` ran and the first complaint of `b`.
pub fn run<R>(plan: Plan, a: impl FnOnce() -> R, b: impl Fn() -> Result<(), String> + Sync) -> (std::thread::Result<R>, u64, u64, Option<String>) {
    static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
    trap::install();
    POINTS.store(0, Relaxed);
    ASKED.store(0, Relaxed);
    DONE.store(0, Relaxed);
    STOP.store(false, Relaxed);
    WHERE.store(
        match plan {
            Plan::Nowhere => u64::MAX,
            Plan::At(k) => k,
            Plan::Everywhere => u64::MAX - 1,
        },
        Relaxed,
    );
    let complaint = std::sync::Mutex::new(None);
    let r = std::thread::scope(|s| {
        let t = s.spawn(|| {
            let mut done = 0;
            let mut spins = 0u32;
            loop {
                if ASKED.load(Acquire) > done {
                    let r = catch_unwind(AssertUnwindSafe(&b)).unwrap_or_else(|_| Err("panic in the other thread".into()));
                    if let Err(e) = r {
                        complaint.lock().unwrap().get_or_insert(e);
                    }
                    done += 1;
                    DONE.store(done, Release);
                    spins = 0;
                } else if STOP.load(Acquire) {
                    break;
                } else {
                    spins += 1;
                    if spins < 4000 {
                        std::hint::spin_loop()
                    } else {
                        std::thread::yield_now()
                    }
                }
            }
        });
        let r = trap::traced(|| catch_unwind(AssertUnwindSafe(a)));
        STOP.store(true, Release);
        let _ = t.join();
        r
    });
    WHERE.store(u64::MAX, Relaxed);
    let complaint = complaint.into_inner().unwrap();
    (r, POINTS.load(Relaxed), DONE.load(Relaxed), complaint)
}
