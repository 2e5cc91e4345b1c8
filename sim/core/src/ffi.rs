//! Binding to csrc/simrt.c.
use std::ffi::c_char;

pub const STREAM_CAP: usize = 1 << 17;
pub const EV_CAP: usize = 1 << 14;
pub const BITMAP_BYTES: usize = 1 << 15;
pub const ST_OK: u32 = 1;
pub const ST_VIOLATION: u32 = 2;

#[repr(C)]
pub struct Stream {
    pub len_in: u32,
    pub len_used: u32,
    pub v: [u32; STREAM_CAP],
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Event {
    pub what: *const c_char,
    pub a: i64,
    pub b: i64,
    pub ns: u64,
    pub step: u32,
    pub thread: i32,
}
#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Cfg {
    pub strategy: u32,
    pub gap_mean: u32,
    pub gap_zero: u32,
    pub p_point: u32,
    pub p_stall: u32,
    pub p_time: u32,
    pub p_spurious: u32,
    pub p_eintr: u32,
    pub p_spawn_fail: u32,
    pub fault_scale: u32,
    pub p_jump: u32,
    /// User code calls back into the library (in 1024).
    pub p_reenter: u32,
    pub calm_after: u64,
    pub max_steps: u64,
    pub max_sim_ns: u64,
}
#[repr(C)]
pub struct Shared {
    pub status: u32,
    pub nev: u32,
    pub ev_lost: u32,
    pub threads: u32,
    pub cls: [u8; 64],
    pub msg: [u8; 4000],
    pub cfg: Cfg,
    pub steps: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub sched_points: u64,
    pub idle_advances: u64,
    pub futex_waits: u64,
    pub randoms: u64,
    pub sim_ns: u64,
    pub hash: u64,
    pub sched_hash: u64,
    pub last_guard: u32,
    pub nontrivial: u32,
    pub faults: [u64; 16],
    pub user: [u64; 16],
    pub desc: [u8; 4000],
    pub st: [Stream; 3],
    pub ev: [Event; EV_CAP],
    pub bitmap: [u8; BITMAP_BYTES],
}

unsafe extern "C" {
    pub fn simrt_choose(st: i32, n: u32) -> u32;
    pub fn simrt_chance(st: i32, num: u32, den: u32) -> u32;
    pub fn simrt_fail(cls: *const c_char, msg: *const u8, len: usize) -> !;
    pub fn simrt_point();
    pub fn simrt_yield();
    pub fn simrt_set_preemptible(on: i32) -> i32;
    pub fn simrt_set_nopoint(v: i32) -> i32;
    pub fn simrt_tid() -> i32;
    pub fn simrt_now() -> u64;
    pub fn simrt_advance(ns: u64);
    pub fn simrt_fault(kind: i32);
    pub fn simrt_event(what: *const c_char, a: i64, b: i64);
    pub fn simrt_run(sh: *mut Shared, seed: u64, replay: i32, f: extern "C" fn(*mut u8), arg: *mut u8) -> !;
    pub static mut S: *mut Shared;
}

unsafe extern "C" {
    pub fn fork() -> i32;
    pub fn waitpid(pid: i32, status: *mut i32, opts: i32) -> i32;
    pub fn kill(pid: i32, sig: i32) -> i32;
    pub fn _exit(code: i32) -> !;
    pub fn alarm(s: u32) -> u32;
    pub fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    pub fn dup2(a: i32, b: i32) -> i32;
    pub fn open(p: *const c_char, flags: i32, ...) -> i32;
    pub fn mallopt(param: i32, value: i32) -> i32;
    pub fn setrlimit(r: i32, lim: *const [u64; 2]) -> i32;
    pub fn prctl(op: i32, ...) -> i32;
}

pub fn shared_alloc(bytes: usize) -> *mut u8 {
    // PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS
    let p = unsafe { mmap(std::ptr::null_mut(), bytes, 3, 0x21, -1, 0) };
    assert!(p as isize != -1, "mmap failed");
    p
}
