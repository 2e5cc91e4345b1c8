//! Deterministic simulation core: choices, scheduling points, value ledger, async executor,
//! linearizability checker and the explorer that drives seeded runs.
//!
//! Nothing in this crate is instrumented, so none of its code is ever preempted.
pub mod exec;
pub mod explore;
pub mod fx;
pub mod ffi;
pub mod ledger;
pub mod lin;

use std::ffi::{CStr, CString};

pub const W: i32 = 0;
pub const SCHED: i32 = 1;
pub const F: i32 = 2;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(i32)]
pub enum Fault {
    Time = 0,
    Stall = 1,
    SpuriousFutex = 2,
    Eintr = 3,
    SpawnFail = 4,
    Panic = 5,
    ClonePanic = 6,
    Cancel = 7,
    SpuriousPoll = 8,
    StaleWake = 9,
    Error = 10,
    LateWake = 11,
    Slow = 12,
    ClockJump = 13,
    Reenter = 14,
}
pub const FAULT_NAMES: [&str; 15] = [
    "timer_fires_while_others_run",
    "thread_stalled",
    "spurious_futex_wakeup",
    "sleep_interrupted",
    "thread_spawn_failed",
    "panic_in_user_code",
    "panic_in_element_clone",
    "evaluation_cancelled",
    "spurious_poll",
    "stale_waker_ignored",
    "error_injected",
    "wakeup_delayed",
    "slow_user_code",
    "wall_clock_jump",
    "user_code_calls_library",
];

/// A value in 0..n from the workload stream (0 is the smallest workload).
#[inline(never)]
pub fn w(n: usize) -> usize {
    unsafe { ffi::simrt_choose(W, n as u32) as usize }
}
/// In lo..=hi from the workload stream.
#[inline(never)]
pub fn wr(lo: usize, hi: usize) -> usize {
    lo + w(hi - lo + 1)
}
#[inline(never)]
pub fn wchance(num: u32, den: u32) -> bool {
    unsafe { ffi::simrt_chance(W, num, den) != 0 }
}
/// Now and then a long time, of any magnitude from a millisecond to a day.
#[inline(never)]
pub fn w_long_ns() -> Option<u64> {
    wchance(1, 24).then(|| 1_000_000 * 10u64.pow(w(8) as u32) * wr(1, 9) as u64 + w(1000) as u64)
}
#[inline(never)]
pub fn sched(n: usize) -> usize {
    unsafe { ffi::simrt_choose(SCHED, n as u32) as usize }
}
#[inline(never)]
pub fn sched_chance(num: u32, den: u32) -> bool {
    unsafe { ffi::simrt_chance(SCHED, num, den) != 0 }
}
/// Does a fault with this probability strike?
#[inline(never)]
pub fn fault_chance(kind: Fault, num: u32, den: u32) -> bool {
    unsafe {
        let hit = ffi::simrt_chance(F, num, den) != 0;
        if hit {
            ffi::simrt_fault(kind as i32);
        }
        hit
    }
}
#[inline(never)]
pub fn fault_choose(n: usize) -> usize {
    unsafe { ffi::simrt_choose(F, n as u32) as usize }
}
#[inline(never)]
pub fn count_fault(kind: Fault) {
    unsafe { ffi::simrt_fault(kind as i32) }
}
/// An explicit scheduling point (in callbacks that the library calls).
#[inline(never)]
pub fn point() {
    unsafe { ffi::simrt_point() }
}
#[inline(never)]
pub fn yield_now() {
    unsafe { ffi::simrt_yield() }
}
#[inline(never)]
pub fn tid() -> usize {
    unsafe { ffi::simrt_tid().max(0) as usize }
}
/// A run that has become long should come to its end: no further repetitions.
#[inline(never)]
pub fn tired() -> bool {
    unsafe { (*ffi::S).steps > (*ffi::S).cfg.max_steps / 30 || fx::total() > 100_000 }
}
/// Simulated nanoseconds since the run began.
#[inline(never)]
pub fn now_ns() -> u64 {
    unsafe { ffi::simrt_now() }
}
#[inline(never)]
pub fn event(what: &'static CStr, a: i64, b: i64) {
    unsafe { ffi::simrt_event(what.as_ptr(), a, b) }
}
#[inline(never)]
pub fn cfg() -> ffi::Cfg {
    unsafe { (*ffi::S).cfg }
}
/// Adds to a per-run counter reported in the evidence.
#[inline(never)]
pub fn user_count(i: usize, n: u64) {
    unsafe { (*ffi::S).user[i] += n }
}

/// Ends the run with a violation.
#[inline(never)]
#[cold]
pub fn fail(class: &str, msg: &str) -> ! {
    let c = CString::new(class).unwrap();
    unsafe { ffi::simrt_fail(c.as_ptr(), msg.as_ptr(), msg.len()) }
}
#[macro_export]
macro_rules! check {
    ($cond:expr, $class:expr, $($fmt:tt)*) => {
        if !$cond { $crate::fail($class, &format!($($fmt)*)) }
    };
}

/// A description of the generated workload, shown in samples and replay files.
#[inline(never)]
pub fn describe(s: &str) {
    unsafe {
        let d = &mut (*ffi::S).desc;
        let have = d.iter().position(|&c| c == 0).unwrap_or(d.len() - 1);
        let n = s.len().min(d.len() - 1 - have);
        d[have..have + n].copy_from_slice(&s.as_bytes()[..n]);
        d[have + n] = 0;
    }
}

pub struct Mode {
    pre: i32,
    nop: i32,
}
impl Mode {
    #[inline(never)]
    pub fn sut() -> Mode {
        unsafe { Mode { nop: ffi::simrt_set_nopoint(0), pre: ffi::simrt_set_preemptible(1) } }
    }
    #[inline(never)]
    pub fn quiet() -> Mode {
        unsafe { Mode { pre: ffi::simrt_set_preemptible(0), nop: ffi::simrt_set_nopoint(1) } }
    }
    /// Harness code that may lose the processor at explicit points only.
    #[inline(never)]
    pub fn open() -> Mode {
        unsafe { Mode { pre: ffi::simrt_set_preemptible(0), nop: ffi::simrt_set_nopoint(0) } }
    }
}
impl Mode {
    /// Library code was running (or user code it called).
    pub fn was_sut(&self) -> bool {
        self.pre != 0
    }
}
impl Drop for Mode {
    #[inline(never)]
    fn drop(&mut self) {
        unsafe {
            ffi::simrt_set_preemptible(self.pre);
            ffi::simrt_set_nopoint(self.nop);
        }
    }
}
/// Runs library code: it may be preempted at every basic block.
pub fn sut<R>(f: impl FnOnce() -> R) -> R {
    let _m = Mode::sut();
    f()
}
/// Runs harness code: never preempted.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let _m = Mode::quiet();
    f()
}

/// Global harness state: touched only by the thread holding the baton, in quiet code.
pub struct Global<T>(std::cell::UnsafeCell<Option<T>>);
unsafe impl<T> Sync for Global<T> {}
unsafe impl<T> Send for Global<T> {}
impl<T> Global<T> {
    pub const fn empty() -> Self {
        Global(std::cell::UnsafeCell::new(None))
    }
    pub fn new(v: T) -> Self {
        Global(std::cell::UnsafeCell::new(Some(v)))
    }
    pub fn set(&self, v: T) {
        let _m = Mode::quiet();
        unsafe { *self.0.get() = Some(v) }
    }
    /// `f` must not re-enter the same Global and must not block.
    pub fn with<R>(&self, f: impl FnOnce(&mut T) -> R) -> R {
        let _m = Mode::quiet();
        unsafe { f((*self.0.get()).as_mut().expect("harness state not set")) }
    }
    pub fn take(&self) -> Option<T> {
        let _m = Mode::quiet();
        unsafe { (*self.0.get()).take() }
    }
}

pub fn payload_text(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(i) = injected(p) {
        format!("injected #{i}")
    } else {
        "panic of unknown type".into()
    }
}

/// The payload of panics the simulator injects through user callbacks.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Injected(pub u32);

/// The same, owning a tracked value: whoever swallows the panic has to drop it.
pub struct Loaded(pub u32, pub ledger::Tok);

/// Which planned panic a payload belongs to.
pub fn injected(p: &(dyn std::any::Any + Send)) -> Option<u32> {
    p.downcast_ref::<Injected>().map(|i| i.0).or_else(|| {
        p.downcast_ref::<Loaded>().map(|l| {
            if l.1.val() != l.0 as i64 {
                fail("panic-altered", "the value a panic carried changed");
            }
            l.0
        })
    })
}

/// Runs library code, returning the panic payload if it unwinds.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, Box<dyn std::any::Any + Send>> {
    let m = Mode::sut();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    drop(m);
    r
}

/// Spawns a simulated thread whose body is harness code; a panic escaping it is a violation.
#[inline(never)]
pub fn spawn(f: Box<dyn FnOnce() + Send>) -> std::thread::JoinHandle<()> {
    let _m = Mode::open();
    std::thread::Builder::new()
        .stack_size(32 << 20)
        .spawn(move || {
            let _q = Mode::open();
            if let Err(p) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
                fail("unexpected-panic", &format!("a panic escaped: {}", payload_text(&*p)));
            }
        })
        .unwrap_or_else(|e| fail("harness", &format!("spawn: {e}")))
}
#[inline(never)]
pub fn join(h: std::thread::JoinHandle<()>) {
    let _m = Mode::open();
    let _ = h.join();
}

/// A small deterministic generator for per-run configuration (outside the recorded streams).
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
}

/// A draw of the fault plan: not counted as a fault until it strikes.
#[inline(never)]
pub fn plan_chance(num: u32, den: u32) -> bool {
    unsafe { ffi::simrt_chance(F, num, den) != 0 }
}

/// Runs `f(i)` on n simulated threads and waits for them.
pub fn threads(n: usize, f: impl Fn(usize) + Send + Sync + 'static) {
    let f: std::sync::Arc<dyn Fn(usize) + Send + Sync> = std::sync::Arc::new(f);
    let hs: Vec<_> = (0..n)
        .map(|i| {
            let f = f.clone();
            spawn(Box::new(move || {
                let _q = Mode::quiet();
                f(i)
            }))
        })
        .collect();
    drop(f);
    hs.into_iter().for_each(join);
}
