//! The explorer: many seeded runs in forked children, violation shrinking, replay files,
//! determinism audit and evidence.
use crate::ffi::{self, Cfg, Shared};
use crate::{FAULT_NAMES, Rng};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};

pub const F_EINTR: u32 = 1;
pub const F_SPAWN: u32 = 2;
/// The scenario's own faults (panics, cancellations, errors) may be switched on.
pub const F_OWN: u32 = 4;

#[derive(Clone, Copy)]
pub struct Scenario {
    pub prop: &'static str,
    pub name: &'static str,
    /// Largest mean distance, in basic blocks of library code, between preemptions.
    pub gap_max: u32,
    pub faults: u32,
    pub weight: u32,
    pub run: fn(),
}
pub struct Info {
    pub prop: &'static str,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub counters: &'static [&'static str],
}
pub struct Registry {
    pub scenarios: Vec<Scenario>,
    pub infos: Vec<Info>,
    pub verif_dir: std::path::PathBuf,
}

fn cfg_for(sc: &Scenario, seed: u64) -> Cfg {
    let mut r = Rng(seed ^ 0xC0FF_EE00_D15E_A5E5);
    r.next();
    let mut c = Cfg {
        strategy: 0,
        gap_mean: 0,
        gap_zero: 0,
        p_point: 0,
        p_stall: 0,
        p_time: 0,
        p_spurious: 0,
        p_eintr: 0,
        p_spawn_fail: 0,
        fault_scale: 0,
        p_jump: 0,
        p_reenter: 0,
        calm_after: 4_000_000,
        // scenarios with coarse preemption are those that move much data
        max_steps: if sc.gap_max >= 2000 { 1_000_000_000 } else { 60_000_000 },
        max_sim_ns: 100_000_000_000_000_000,
    };
    if !r.chance(1, 10) {
        let lo = 2f64.ln();
        let hi = (sc.gap_max.max(4) as f64).ln();
        let u = r.below(1 << 20) as f64 / (1u64 << 20) as f64;
        c.gap_mean = (lo + (hi - lo) * u).exp() as u32;
        c.gap_zero = [0, 256, 768][r.below(3) as usize];
        c.p_point = [0, 64, 256, 512][r.below(4) as usize];
        c.strategy = r.chance(3, 10) as u32;
    }
    let on = |r: &mut Rng, p: u32| if r.chance(1, 2) { p } else { 0 };
    c.p_stall = on(&mut r, 20);
    c.p_time = on(&mut r, 40);
    c.p_spurious = on(&mut r, 60);
    if sc.faults & F_EINTR != 0 {
        c.p_eintr = on(&mut r, 400);
    }
    if sc.faults & F_SPAWN != 0 {
        c.p_spawn_fail = if r.chance(1, 4) { 100 } else { 0 };
    }
    if sc.faults & F_OWN != 0 && !r.chance(3, 10) {
        c.fault_scale = [64, 200, 500][r.below(3) as usize];
    }
    c.p_jump = on(&mut r, 300);
    if r.chance(1, 6) {
        c.p_reenter = [4, 16, 64, 256][r.below(4) as usize];
    }
    c
}

#[derive(Clone, Default, Debug)]
pub struct RunResult {
    pub class: String, // "" = ok
    pub msg: String,
    pub hash: u64,
    pub harness_error: Option<String>,
}
pub struct Slot {
    sh: *mut Shared,
}
impl Slot {
    fn new() -> Slot {
        Slot { sh: ffi::shared_alloc(std::mem::size_of::<Shared>()) as *mut Shared }
    }
    fn get(&self) -> &mut Shared {
        unsafe { &mut *self.sh }
    }
}

extern "C" fn entry(arg: *mut u8) {
    let f: fn() = unsafe { std::mem::transmute(arg) };
    let _m = crate::Mode::open();
    if let Err(p) = std::panic::catch_unwind(f) {
        crate::fail("unexpected-panic", &format!("a panic escaped to the caller: {}", crate::payload_text(&*p)));
    }
    // capturing panics must not have cost the program its panic hook
    let _q = crate::Mode::quiet();
    let before = HOOKS.load(std::sync::atomic::Ordering::Relaxed);
    let _ = std::panic::catch_unwind(|| panic!("probe"));
    if HOOKS.load(std::sync::atomic::Ordering::Relaxed) == before {
        crate::fail("panic-hook", "the program's panic hook is no longer called");
    }
}
/// Calls of the panic hook.
static HOOKS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

fn cstr(b: &[u8]) -> String {
    let n = b.iter().position(|&c| c == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).into_owned()
}

/// Runs one simulation in a forked child.  `streams`: replay these instead of drawing.
fn run_child(slot: &Slot, sc: &Scenario, seed: u64, cfg: &Cfg, streams: Option<&[Vec<u32>; 3]>, verbose: bool, limit_s: u32) -> RunResult {
    for attempt in 0..4 {
        let sh = slot.get();
        // everything before the streams is small; the rest is cleared selectively
        unsafe {
            let head = std::mem::offset_of!(Shared, st);
            std::ptr::write_bytes(slot.sh as *mut u8, 0, head);
            std::ptr::write_bytes(sh.bitmap.as_mut_ptr(), 0, ffi::BITMAP_BYTES);
        }
        sh.cfg = *cfg;
        for i in 0..3 {
            sh.st[i].len_used = 0;
            sh.st[i].len_in = 0;
            if let Some(s) = streams {
                let n = s[i].len().min(ffi::STREAM_CAP);
                sh.st[i].len_in = n as u32;
                sh.st[i].v[..n].copy_from_slice(&s[i][..n]);
            }
        }
        let pid = unsafe { ffi::fork() };
        if pid < 0 {
            std::thread::sleep(Duration::from_millis(20 << attempt));
            continue;
        }
        if pid == 0 {
            unsafe {
                ffi::prctl(1, 9); // die with the parent
                ffi::alarm(limit_s);
                ffi::mallopt(-8, 1); // one arena: threads do not reserve address space of their own
                let lim = [4u64 << 30, 4u64 << 30];
                ffi::setrlimit(9, &lim);
                let nocore = [0u64, 0];
                ffi::setrlimit(4, &nocore);
                if !verbose {
                    let n = ffi::open(c"/dev/null".as_ptr(), 1);
                    ffi::dup2(n, 1);
                    ffi::dup2(n, 2);
                }
                std::panic::set_hook(Box::new(move |i| {
                    HOOKS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if verbose {
                        eprintln!("{i}");
                    }
                }));
                crate::fx::set_prop(sc.prop);
                ffi::simrt_run(slot.sh, seed, streams.is_some() as i32, entry, sc.run as *mut u8)
            }
        }
        let mut st = 0;
        while unsafe { ffi::waitpid(pid, &mut st, 0) } < 0 {}
        let sh = slot.get();
        let mut r = RunResult { hash: sh.hash, ..Default::default() };
        let sig = st & 0x7f;
        let code = (st >> 8) & 0xff;
        if sig == 0 && code == 0 && sh.status == ffi::ST_OK {
            return r;
        }
        if sig == 0 && code == 3 && sh.status == ffi::ST_VIOLATION {
            r.class = cstr(&sh.cls);
            r.msg = cstr(&sh.msg);
            if r.class == "harness" {
                r.harness_error = Some(r.msg.clone());
            }
            return r;
        }
        if sig == 14 {
            r.class = "hang".into();
            r.msg = format!("the run did not finish within {limit_s} s of real time: code outside the simulator's control loops or blocks");
            return r;
        }
        if sig == 9 || (sig == 0 && code == 4) {
            // killed from outside or no resources: not the code under test
            std::thread::sleep(Duration::from_millis(50 << attempt));
            continue;
        }
        if sig != 0 {
            let name = match sig {
                6 => "SIGABRT".into(),
                11 => "SIGSEGV".into(),
                7 => "SIGBUS".into(),
                4 => "SIGILL".into(),
                8 => "SIGFPE".into(),
                5 => "SIGTRAP".into(),
                n => format!("signal {n}"),
            };
            r.class = format!("crash-{name}");
            r.msg = format!("the process died of {name}");
        } else {
            r.class = "exit".into();
            r.msg = format!("the process exited with status {code} in the middle of the run");
        }
        return r;
    }
    RunResult { harness_error: Some("a run could not be carried out".into()), class: "harness".into(), ..Default::default() }
}

fn take_streams(slot: &Slot) -> [Vec<u32>; 3] {
    let sh = slot.get();
    std::array::from_fn(|i| {
        let n = (sh.st[i].len_used as usize).min(ffi::STREAM_CAP);
        let mut v = sh.st[i].v[..n].to_vec();
        while v.last() == Some(&0) {
            v.pop();
        }
        v
    })
}
fn weight(s: &[Vec<u32>; 3]) -> (usize, usize, u64) {
    let nz = s.iter().map(|v| v.iter().filter(|x| **x != 0).count()).sum();
    let len = s.iter().map(|v| v.len()).sum();
    let sum = s[0].iter().map(|x| *x as u64).sum::<u64>();
    (nz, len, sum)
}

struct Shrunk {
    streams: [Vec<u32>; 3],
    attempts: usize,
    from: (usize, usize, u64),
}
fn shrink(slot: &Slot, sc: &Scenario, cfg: &Cfg, class: &str, start: [Vec<u32>; 3], budget: Duration) -> Shrunk {
    let t0 = Instant::now();
    let mut best = start;
    let from = weight(&best);
    let mut attempts = 0;
    let lim = if class == "hang" { 3 } else { 30 };
    let mut try_one = |best: &mut [Vec<u32>; 3], cand: [Vec<u32>; 3]| -> bool {
        if attempts >= 700 || t0.elapsed() > budget || weight(&cand) >= weight(best) {
            return false;
        }
        attempts += 1;
        let r = run_child(slot, sc, 0, cfg, Some(&cand), false, lim);
        if r.class == class {
            let used = take_streams(slot);
            // what was really consumed, if that is no worse
            *best = if weight(&used) <= weight(&cand) { used } else { cand };
            true
        } else {
            false
        }
    };
    for i in [2, 1] {
        let mut c = best.clone();
        c[i].clear();
        try_one(&mut best, c);
    }
    for round in 0..4 {
        let before = weight(&best);
        for i in [0usize, 2, 1] {
            // delete, then zero, ever smaller chunks
            for zero in [false, true] {
                let mut n = (best[i].len() / 2).max(1);
                loop {
                    let mut at = 0;
                    while at < best[i].len() {
                        let end = (at + n).min(best[i].len());
                        let mut c = best.clone();
                        let mut moved = false;
                        if zero {
                            if c[i][at..end].iter().any(|x| *x != 0) {
                                c[i][at..end].fill(0);
                                while c[i].last() == Some(&0) {
                                    c[i].pop();
                                }
                                moved = try_one(&mut best, c);
                            }
                        } else {
                            c[i].drain(at..end);
                            moved = try_one(&mut best, c);
                        }
                        if !moved || zero {
                            at = end;
                        }
                    }
                    if n == 1 || (n < 4 && round == 0 && best[i].len() > 200) {
                        break;
                    }
                    n /= 2;
                }
            }
        }
        // lower single workload values
        for at in 0..best[0].len() {
            for f in [|x: u32| x / 2, |x: u32| x.saturating_sub(1)] {
                if at < best[0].len() && best[0][at] > 1 {
                    let mut c = best.clone();
                    c[0][at] = f(c[0][at]);
                    try_one(&mut best, c);
                }
            }
        }
        if weight(&best) >= before || t0.elapsed() > budget {
            break;
        }
    }
    Shrunk { streams: best, attempts, from }
}

// ------------------------------------------------------------------ replay files

fn cfg_line(c: &Cfg) -> String {
    format!(
        "{} {} {} {} {} {} {} {} {} {} {} {} {} {} {}",
        c.strategy, c.gap_mean, c.gap_zero, c.p_point, c.p_stall, c.p_time, c.p_spurious, c.p_eintr, c.p_spawn_fail, c.fault_scale, c.calm_after, c.max_steps, c.max_sim_ns, c.p_jump, c.p_reenter
    )
}
fn cfg_parse(s: &str) -> Option<Cfg> {
    let v: Vec<u64> = s.split_whitespace().map(|x| x.parse().ok()).collect::<Option<_>>()?;
    if v.len() != 15 {
        return None;
    }
    let u = |i: usize| v[i] as u32;
    Some(Cfg {
        strategy: u(0),
        gap_mean: u(1),
        gap_zero: u(2),
        p_point: u(3),
        p_stall: u(4),
        p_time: u(5),
        p_spurious: u(6),
        p_eintr: u(7),
        p_spawn_fail: u(8),
        fault_scale: u(9),
        calm_after: v[10],
        max_steps: v[11],
        max_sim_ns: v[12],
        p_jump: u(13),
        p_reenter: u(14),
    })
}
fn stream_line(v: &[u32]) -> String {
    // run-length encoding of repeats
    let mut o = String::new();
    let mut i = 0;
    while i < v.len() {
        let mut j = i;
        while j < v.len() && v[j] == v[i] {
            j += 1;
        }
        if j - i > 2 {
            let _ = write!(o, "{}x{} ", v[i], j - i);
        } else {
            for _ in i..j {
                let _ = write!(o, "{} ", v[i]);
            }
        }
        i = j;
    }
    o.trim_end().to_string()
}
fn stream_parse(s: &str) -> Option<Vec<u32>> {
    let mut o = Vec::new();
    for t in s.split_whitespace() {
        match t.split_once('x') {
            Some((v, n)) => o.extend(std::iter::repeat_n(v.parse::<u32>().ok()?, n.parse().ok()?)),
            None => o.push(t.parse().ok()?),
        }
    }
    Some(o)
}

fn trace(slot: &Slot, max: usize) -> String {
    let sh = slot.get();
    let n = sh.nev as usize;
    let mut o = String::new();
    let max = std::env::var("RSIM_TRACE").ok().and_then(|v| v.parse().ok()).unwrap_or(max);
    let start = n.saturating_sub(max);
    if start > 0 {
        let _ = writeln!(o, "#   … {start} earlier events");
    }
    for e in &sh.ev[start..n] {
        let what = unsafe { std::ffi::CStr::from_ptr(e.what) }.to_string_lossy();
        let _ = writeln!(o, "#   {:>12} ns  step {:>8}  t{}  {what} {} {}", e.ns, e.step, e.thread, e.a, e.b);
    }
    o
}

fn replay_text(sc: &Scenario, seed: u64, cfg: &Cfg, st: &[Vec<u32>; 3], r: &RunResult, note: &str, slot: &Slot) -> String {
    let sh = slot.get();
    let mut o = String::new();
    let _ = writeln!(o, "# rustica deterministic simulation: replay with  /verif/check.sh replay <this file>");
    let _ = writeln!(o, "property {}", sc.prop);
    let _ = writeln!(o, "scenario {}", sc.name);
    let _ = writeln!(o, "seed {seed}");
    let _ = writeln!(o, "cfg {}", cfg_line(cfg));
    let _ = writeln!(o, "class {}", r.class);
    let _ = writeln!(o, "hash {:016x}", r.hash);
    let _ = writeln!(o, "workload {}", stream_line(&st[0]));
    let _ = writeln!(o, "schedule {}", stream_line(&st[1]));
    let _ = writeln!(o, "faults {}", stream_line(&st[2]));
    let _ = writeln!(o, "# violation: {}", r.msg.replace('\n', "\n#   "));
    let _ = writeln!(o, "# {note}");
    let _ = writeln!(o, "# workload: {}", cstr(&sh.desc).replace('\n', "\n#   "));
    let _ = writeln!(o, "# injected: {}", fault_summary(&sh.faults));
    let _ = writeln!(o, "# events (simulated time, step, thread):");
    o += &trace(slot, 400);
    o
}
fn fault_summary(f: &[u64; 16]) -> String {
    let v: Vec<String> = FAULT_NAMES.iter().enumerate().filter(|(i, _)| f[*i] > 0).map(|(i, n)| format!("{n}={}", f[i])).collect();
    if v.is_empty() { "nothing".into() } else { v.join(" ") }
}

// ------------------------------------------------------------------ batches

const MAXV: usize = 24;
const MAXSC: usize = 16;
const SET_BITS: usize = 22;
#[repr(C)]
struct Agg {
    next: AtomicU64,
    stop: AtomicU32,
    first_viol_ms: AtomicU64,
    runs: AtomicU64,
    nontrivial: AtomicU64,
    distinct: AtomicU64,
    distinct_sched: AtomicU64,
    steps: AtomicU64,
    /// Thousandths of the step limit that the longest run used; milliseconds of the slowest one.
    longest: AtomicU64,
    slowest: AtomicU64,
    switches: AtomicU64,
    preempt: AtomicU64,
    threads: AtomicU64,
    sim_ns: AtomicU64,
    randoms: AtomicU64,
    futex: AtomicU64,
    faults: [AtomicU64; 16],
    runs_with: [AtomicU64; 16],
    user: [AtomicU64; 16],
    per_sc: [AtomicU64; MAXSC],
    audited: AtomicU64,
    diverged: AtomicU64,
    herr: AtomicU64,
    nviol: AtomicU32,
    viol: [[AtomicU64; 2]; MAXV],
    bitmap: [AtomicU64; ffi::BITMAP_BYTES / 8],
    set: [AtomicU64; 1 << SET_BITS],
    set2: [AtomicU64; 1 << SET_BITS],
}
fn set_insert(set: &[AtomicU64], h: u64) -> bool {
    let h = h | 1;
    let mut i = (h.wrapping_mul(0x9E3779B97F4A7C15) >> (64 - SET_BITS)) as usize;
    for _ in 0..64 {
        match set[i].compare_exchange(0, h, Relaxed, Relaxed) {
            Ok(_) => return true,
            Err(x) if x == h => return false,
            _ => i = (i + 1) & ((1 << SET_BITS) - 1),
        }
    }
    false
}

fn seed_of(base: u64, prop: &str, idx: u64) -> u64 {
    let mut h = base.wrapping_mul(0x9E3779B97F4A7C15) ^ idx.wrapping_mul(0xD1B54A32D192ED03);
    for b in prop.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001B3);
    }
    Rng(h).next() >> 1
}

struct Plan<'a> {
    scs: Vec<&'a Scenario>,
    wheel: Vec<usize>,
}
impl<'a> Plan<'a> {
    fn new(reg: &'a Registry, prop: &str, only: Option<&str>) -> Plan<'a> {
        let scs: Vec<&Scenario> = reg.scenarios.iter().filter(|s| s.prop == prop && only.is_none_or(|o| s.name == o)).collect();
        let mut wheel = Vec::new();
        let max = scs.iter().map(|s| s.weight).max().unwrap_or(0);
        for r in 0..max {
            for (i, s) in scs.iter().enumerate() {
                if s.weight > r {
                    wheel.push(i);
                }
            }
        }
        Plan { scs, wheel }
    }
    fn pick(&self, idx: u64) -> (usize, &'a Scenario) {
        let i = self.wheel[(idx % self.wheel.len() as u64) as usize];
        (i, self.scs[i])
    }
}

fn batch_worker(agg: &Agg, plan: &Plan, prop: &str, base: u64, max_runs: u64, deadline: Instant, audit_every: u64, t0: Instant, grace_ms: u64) {
    let slot = Slot::new();
    loop {
        if agg.stop.load(Relaxed) != 0 || Instant::now() > deadline {
            return;
        }
        let first = agg.first_viol_ms.load(Relaxed);
        if first > 0 && t0.elapsed().as_millis() as u64 > first + grace_ms {
            return;
        }
        let idx = agg.next.fetch_add(1, Relaxed);
        if idx >= max_runs {
            return;
        }
        let (si, sc) = plan.pick(idx);
        let seed = seed_of(base, prop, idx);
        let cfg = cfg_for(sc, seed);
        let began = Instant::now();
        let r = run_child(&slot, sc, seed, &cfg, None, false, 30);
        if r.harness_error.is_some() {
            if agg.herr.fetch_add(1, Relaxed) < 3 {
                eprintln!("harness error: scenario={} idx={idx} seed={seed}: {}", sc.name, r.harness_error.unwrap());
            }
            continue;
        }
        let sh = slot.get();
        agg.runs.fetch_add(1, Relaxed);
        agg.per_sc[si].fetch_add(1, Relaxed);
        agg.steps.fetch_add(sh.steps, Relaxed);
        agg.longest.fetch_max(sh.steps * 1000 / cfg.max_steps.max(1), Relaxed);
        agg.slowest.fetch_max(began.elapsed().as_millis() as u64, Relaxed);
        agg.switches.fetch_add(sh.switches, Relaxed);
        agg.preempt.fetch_add(sh.preemptions, Relaxed);
        agg.threads.fetch_add(sh.threads as u64 + 1, Relaxed);
        agg.sim_ns.fetch_add(sh.sim_ns, Relaxed);
        agg.randoms.fetch_add(sh.randoms, Relaxed);
        agg.futex.fetch_add(sh.futex_waits, Relaxed);
        let mut any = false;
        for i in 0..16 {
            if sh.faults[i] > 0 {
                any = true;
                agg.faults[i].fetch_add(sh.faults[i], Relaxed);
                agg.runs_with[i].fetch_add(1, Relaxed);
            }
            if sh.user[i] > 0 {
                agg.user[i].fetch_add(sh.user[i], Relaxed);
            }
        }
        let nontrivial = any || sh.preemptions > 0 || sh.switches > 2;
        if set_insert(&agg.set, sh.hash) && nontrivial {
            agg.distinct.fetch_add(1, Relaxed);
        }
        if set_insert(&agg.set2, sh.sched_hash) {
            agg.distinct_sched.fetch_add(1, Relaxed);
        }
        if nontrivial {
            agg.nontrivial.fetch_add(1, Relaxed);
        }
        for (i, w) in agg.bitmap.iter().enumerate() {
            let b = u64::from_ne_bytes(sh.bitmap[i * 8..i * 8 + 8].try_into().unwrap());
            if b & !w.load(Relaxed) != 0 {
                w.fetch_or(b, Relaxed);
            }
        }
        if !r.class.is_empty() {
            let n = agg.nviol.fetch_add(1, Relaxed) as usize;
            if n < MAXV {
                agg.viol[n][1].store(idx, Relaxed);
                agg.viol[n][0].store(1, Relaxed);
            }
            if n + 1 >= MAXV {
                agg.stop.store(1, Relaxed);
            }
            // give the others a moment to find different ones, then stop
            if n == 0 {
                agg.first_viol_ms.store(t0.elapsed().as_millis() as u64 + 1, Relaxed);
            }
            if n >= 3 {
                agg.stop.store(1, Relaxed);
            }
        } else if audit_every > 0 && idx % audit_every == 0 {
            let again = run_child(&slot, sc, seed, &cfg, None, false, 60);
            agg.audited.fetch_add(1, Relaxed);
            if again.hash != r.hash || again.class != r.class {
                if agg.diverged.fetch_add(1, Relaxed) < 3 {
                    eprintln!("divergence: scenario={} seed={seed} {:016x} {:016x} {}", sc.name, r.hash, again.hash, again.class);
                }
            }
        }
    }
}

/// Forks `n` single-threaded workers and waits for them.
fn fan_out(n: usize, f: impl Fn(usize)) {
    let mut pids = Vec::new();
    for i in 0..n {
        let pid = unsafe { ffi::fork() };
        if pid == 0 {
            unsafe { ffi::prctl(1, 9) };
            f(i);
            unsafe { ffi::_exit(0) }
        }
        if pid > 0 {
            pids.push(pid);
        }
    }
    for p in pids {
        let mut st = 0;
        while unsafe { ffi::waitpid(p, &mut st, 0) } < 0 {}
    }
}

// ------------------------------------------------------------------ JSON

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Known {
    class: String,
    contains: String,
    what: String,
}
fn load_known(reg: &Registry, prop: &str) -> Vec<Known> {
    let Ok(t) = std::fs::read_to_string(reg.verif_dir.join("KNOWN_FINDINGS.txt")) else { return Vec::new() };
    t.lines()
        .filter_map(|l| l.strip_prefix("known:"))
        .filter_map(|l| {
            let f: BTreeMap<&str, &str> = l.split(" ; ").filter_map(|p| p.trim().split_once('=')).collect();
            (f.get("property") == Some(&prop)).then(|| Known {
                class: f.get("class").unwrap_or(&"").to_string(),
                contains: f.get("contains").unwrap_or(&"").to_string(),
                what: f.get("what").unwrap_or(&"").to_string(),
            })
        })
        .collect()
}

pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
    pub runs: Option<u64>,
    pub secs: Option<f64>,
    pub only: Option<String>,
    pub evidence: bool,
    /// Stop at the first violation and report it unshrunk.
    pub fast: bool,
}

/// Runs the check of one property; returns the exit status.
pub fn check(reg: &Registry, prop: &str, o: &Opts) -> i32 {
    let t0 = Instant::now();
    let plan = Plan::new(reg, prop, o.only.as_deref());
    if plan.scs.is_empty() {
        eprintln!("no scenario for {prop}");
        return 2;
    }
    let info = reg.infos.iter().find(|i| i.prop == prop);
    let secs = o.secs.unwrap_or(if o.thorough { 600.0 } else { 30.0 });
    let max_runs = o.runs.unwrap_or(u64::MAX);
    let deadline = t0 + Duration::from_secs_f64(secs);
    let agg: &Agg = unsafe { &*(ffi::shared_alloc(std::mem::size_of::<Agg>()) as *const Agg) };
    fan_out(8, |_| batch_worker(agg, &plan, prop, o.seed, max_runs, deadline, 40, t0, if o.fast { 0 } else { 3000 }));
    let explore_s = t0.elapsed().as_secs_f64();

    let slot = Slot::new();
    let known = load_known(reg, prop);
    let mut known_hit: Vec<String> = Vec::new();
    let mut violations = 0;
    let mut unreproduced = 0;
    let mut reported: Vec<(String, String)> = Vec::new();
    let nv = (agg.nviol.load(Relaxed) as usize).min(MAXV);
    let mut idxs: Vec<u64> = (0..nv).filter(|i| agg.viol[*i][0].load(Relaxed) == 1).map(|i| agg.viol[i][1].load(Relaxed)).collect();
    idxs.sort();
    let confirm_until = Instant::now() + Duration::from_secs(if o.thorough { 300 } else { 90 });
    let shrink_until = Instant::now() + Duration::from_secs(if o.fast { 0 } else if o.thorough { 240 } else { 75 });
    for idx in idxs {
        // slow failures (runs that never end) leave time to confirm only a few
        if !reported.is_empty() && Instant::now() > confirm_until {
            break;
        }
        let (_, sc) = plan.pick(idx);
        let seed = seed_of(o.seed, prop, idx);
        let cfg = cfg_for(sc, seed);
        let mut r = RunResult::default();
        let mut tries = 0;
        while r.class.is_empty() && tries < 5 && (tries == 0 || Instant::now() < confirm_until) {
            tries += 1;
            r = run_child(&slot, sc, seed, &cfg, None, false, 60);
            if r.harness_error.is_some() {
                r.class.clear();
            }
        }
        if r.class.is_empty() {
            unreproduced += 1;
            continue;
        }
        if let Some(k) = known.iter().find(|k| k.class == r.class && r.msg.contains(&k.contains)) {
            let line = format!("KNOWN-FINDING: property={prop} {}", k.what);
            if !known_hit.contains(&line) {
                println!("{line}");
                known_hit.push(line);
            }
            continue;
        }
        violations += 1;
        if reported.iter().any(|(n, c)| n == sc.name && *c == r.class) || reported.len() >= 3 {
            continue;
        }
        reported.push((sc.name.to_string(), r.class.clone()));
        let streams = take_streams(&slot);
        let left = shrink_until.saturating_duration_since(Instant::now());
        let s = shrink(&slot, sc, &cfg, &r.class, streams.clone(), left.min(Duration::from_secs(if o.thorough { 120 } else { 30 })));
        let mut fin = run_child(&slot, sc, 0, &cfg, Some(&s.streams), false, 60);
        let mut st = s.streams;
        if fin.class != r.class {
            // keep the unshrunk recording: it is the one that fails
            st = streams;
            fin = run_child(&slot, sc, 0, &cfg, Some(&st), false, 60);
        }
        let note = format!(
            "found as run {idx} of this batch; {} choices that matter, {} before shrinking ({} attempts)",
            weight(&st).0,
            s.from.0,
            s.attempts
        );
        let dir = reg.verif_dir.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{prop}-{}-{seed}.replay", sc.name));
        if let Err(e) = std::fs::write(&path, replay_text(sc, seed, &cfg, &st, &fin, &note, &slot)) {
            eprintln!("cannot write {}: {e}", path.display());
        }
        println!("scenario={} seed={seed} class={}: {}", sc.name, fin.class, fin.msg);
        println!("VIOLATION property={prop} replay={}", path.display());
    }
    // known findings are named on every run, reached or not
    for k in &known {
        let line = format!("KNOWN-FINDING: property={prop} {}", k.what);
        if !known_hit.contains(&line) {
            println!("{line}");
        }
    }
    let runs = agg.runs.load(Relaxed);
    let herr = agg.herr.load(Relaxed);
    let wall = t0.elapsed().as_secs_f64();
    if o.evidence {
        // a few actual cases, written out
        let mut samples = Vec::new();
        for idx in 0..plan.wheel.len().min(4) as u64 {
            let (_, sc) = plan.pick(idx);
            let seed = seed_of(o.seed, prop, idx);
            let cfg = cfg_for(sc, seed);
            let r = run_child(&slot, sc, seed, &cfg, None, false, 60);
            let sh = slot.get();
            samples.push(format!(
                "{{\"scenario\":{},\"seed\":{seed},\"workload\":{},\"outcome\":{},\"threads\":{},\"context_switches\":{},\"preemptions\":{},\"basic_blocks\":{},\"simulated_ns\":{},\"faults\":{},\"execution_hash\":\"{:016x}\"}}",
                js(sc.name),
                js(&cstr(&sh.desc).chars().take(600).collect::<String>()),
                js(if r.class.is_empty() { "held" } else { &r.class }),
                sh.threads + 1,
                sh.switches,
                sh.preemptions,
                sh.steps,
                sh.sim_ns,
                js(&fault_summary(&sh.faults)),
                r.hash
            ));
        }
        let bits: u32 = agg.bitmap.iter().map(|w| w.load(Relaxed).count_ones()).sum();
        let faults: Vec<String> = FAULT_NAMES
            .iter()
            .enumerate()
            .filter(|(i, _)| agg.faults[*i].load(Relaxed) > 0)
            .map(|(i, n)| format!("{}:{{\"injected\":{},\"runs_with\":{}}}", js(n), agg.faults[i].load(Relaxed), agg.runs_with[i].load(Relaxed)))
            .collect();
        let per_sc: Vec<String> = plan.scs.iter().enumerate().map(|(i, s)| format!("{}:{}", js(s.name), agg.per_sc[i].load(Relaxed))).collect();
        let counters: Vec<String> = info
            .map(|i| i.counters.iter().enumerate().map(|(k, n)| format!("{}:{}", js(n), agg.user[k].load(Relaxed))).collect())
            .unwrap_or_default();
        let hours = explore_s / 3600.0;
        let d = agg.distinct.load(Relaxed);
        let mut e = String::new();
        let _ = write!(
            e,
            "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{runs},\"distinct_nontrivial\":{d},\"rule\":{},\"samples\":[{}],",
            js(prop),
            js(if o.thorough { "thorough" } else { "quick" }),
            o.seed,
            js(&format!(
                "{} A case is one simulated run, derived from one seed. Non-trivial: a thread was preempted or switched in a contended way, or a fault was injected; distinct: its execution hash (all choices, switches and logged events) was not seen before in this batch.",
                info.map(|i| i.rule).unwrap_or("")
            )),
            samples.join(",")
        );
        let _ = write!(
            e,
            "\"runs_per_scenario\":{{{}}},\"nontrivial_runs\":{},\"distinct_schedules\":{},\"schedule_measure\":\"hash of the sequence of (basic block, from, to) context switches\",\"distinct_switch_points\":{bits},\"switch_point_measure\":\"bits set in a 2^18-bit map of (basic block preempted, from thread, to thread)\",",
            per_sc.join(","),
            agg.nontrivial.load(Relaxed),
            agg.distinct_sched.load(Relaxed)
        );
        let _ = write!(
            e,
            "\"runs_per_hour\":{},\"seeds_per_hour\":{},\"simulated_seconds\":{},\"library_basic_blocks_executed\":{},\"longest_run_permille_of_step_limit\":{},\"slowest_run_ms\":{},\"context_switches\":{},\"preemptions\":{},\"simulated_threads\":{},\"lock_or_signal_waits\":{},\"faults\":{{{}}},\"probes\":{{{}}},",
            (runs as f64 / hours) as u64,
            (runs as f64 / hours) as u64,
            agg.sim_ns.load(Relaxed) as f64 / 1e9,
            agg.steps.load(Relaxed),
            agg.longest.load(Relaxed),
            agg.slowest.load(Relaxed),
            agg.switches.load(Relaxed),
            agg.preempt.load(Relaxed),
            agg.threads.load(Relaxed),
            agg.futex.load(Relaxed),
            faults.join(","),
            counters.join(",")
        );
        let _ = write!(
            e,
            "\"determinism_audit\":{{\"runs_repeated\":{},\"diverged\":{}}},\"violations_not_reproduced\":{unreproduced},\"harness_errors\":{herr},\"components_real\":{},\"components_stubbed\":{}}},\"assumptions\":[\"sequentially consistent memory: only one simulated thread executes at a time\",\"preemption at basic blocks of rustica and of code monomorphised with it; precompiled dependencies switch only where they block, wake, sleep or read the clock\"],\"wall_s\":{wall:.3},\"violations\":{violations}}}\n",
            agg.audited.load(Relaxed),
            agg.diverged.load(Relaxed),
            js(info.map(|i| i.real).unwrap_or("")),
            js(info.map(|i| i.stub).unwrap_or("")),
        );
        let dir = reg.verif_dir.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        if let Err(er) = std::fs::write(dir.join(format!("{prop}.json")), e) {
            eprintln!("cannot write the evidence file: {er}");
            return 2;
        }
    }
    println!(
        "property={prop} seed={} runs={runs} distinct={} violations={violations} unreproduced={unreproduced} audited={} diverged={} longest={}/1000 slowest={}ms explored_s={explore_s:.1} wall_s={wall:.1}",
        o.seed,
        agg.distinct.load(Relaxed),
        agg.audited.load(Relaxed),
        agg.diverged.load(Relaxed),
        agg.longest.load(Relaxed),
        agg.slowest.load(Relaxed)
    );
    if violations > 0 {
        return 1;
    }
    if runs == 0 || herr > runs / 20 {
        eprintln!("harness errors: {herr}");
        return 2;
    }
    0
}

pub fn replay(reg: &Registry, file: &str) -> i32 {
    let Ok(t) = std::fs::read_to_string(file) else {
        eprintln!("cannot read {file}");
        return 2;
    };
    let f: BTreeMap<&str, &str> = t.lines().filter(|l| !l.starts_with('#')).map(|l| l.split_once(' ').unwrap_or((l, ""))).collect();
    let g = |k: &str| f.get(k).copied().unwrap_or("");
    let Some(sc) = reg.scenarios.iter().find(|s| s.prop == g("property") && s.name == g("scenario")) else {
        eprintln!("unknown scenario");
        return 2;
    };
    let (Some(cfg), Some(a), Some(b), Some(c)) = (cfg_parse(g("cfg")), stream_parse(g("workload")), stream_parse(g("schedule")), stream_parse(g("faults"))) else {
        eprintln!("damaged replay file");
        return 2;
    };
    let slot = Slot::new();
    let r = run_child(&slot, sc, 0, &cfg, Some(&[a, b, c]), false, 60);
    print!("{}", trace(&slot, 400));
    println!("# workload: {}", cstr(&slot.get().desc));
    if r.class.is_empty() {
        println!("the property held in this replay");
        return 0;
    }
    println!("class={} : {}", r.class, r.msg);
    println!(
        "{}",
        if r.class == g("class") && format!("{:016x}", r.hash) == g("hash") { "reproduced exactly" } else { "a violation, but not the recorded execution (the code has changed?)" }
    );
    println!("VIOLATION property={} replay={file}", sc.prop);
    1
}

pub fn one(reg: &Registry, prop: &str, name: &str, seed: u64, verbose: bool) -> i32 {
    let Some(sc) = reg.scenarios.iter().find(|s| s.prop == prop && s.name == name) else { return 2 };
    let slot = Slot::new();
    let cfg = cfg_for(sc, seed);
    let r = run_child(&slot, sc, seed, &cfg, None, verbose, 60);
    let sh = slot.get();
    print!("{}", trace(&slot, 200));
    println!("cfg {}\nworkload {}\nfaults {}", cfg_line(&cfg), cstr(&sh.desc), fault_summary(&sh.faults));
    println!("steps {} switches {} preemptions {} threads {} sim_ns {} hash {:016x}", sh.steps, sh.switches, sh.preemptions, sh.threads, sh.sim_ns, sh.hash);
    println!("streams {:?}", [sh.st[0].len_used, sh.st[1].len_used, sh.st[2].len_used]);
    println!("class={} {} {:?}", r.class, r.msg, r.harness_error);
    !r.class.is_empty() as i32
}

/// Determinism proof: the same seeds in `procs` processes at once and then one by one.
pub fn determinism(reg: &Registry, n: u64, base: u64) -> i32 {
    let t: &[AtomicU64] = unsafe { std::slice::from_raw_parts(ffi::shared_alloc(8 * 4 * n as usize * reg.scenarios.len()) as *const AtomicU64, 4 * n as usize * reg.scenarios.len()) };
    let mut bad = 0;
    for (k, procs) in [1usize, 8, 24, 3].into_iter().enumerate() {
        fan_out(procs, |p| {
            let slot = Slot::new();
            for (si, sc) in reg.scenarios.iter().enumerate() {
                for j in 0..n {
                    if (j as usize + si) % procs == p {
                        let seed = seed_of(base, sc.prop, j);
                        let r = run_child(&slot, sc, seed, &cfg_for(sc, seed), None, false, 120);
                        t[(si * n as usize + j as usize) * 4 + k].store(r.hash, Relaxed);
                    }
                }
            }
        });
    }
    for (si, sc) in reg.scenarios.iter().enumerate() {
        for j in 0..n {
            let h: Vec<u64> = (0..4).map(|k| t[(si * n as usize + j as usize) * 4 + k].load(Relaxed)).collect();
            if h.iter().any(|x| *x != h[0]) {
                bad += 1;
                if bad < 20 {
                    println!("diverged: {} {} seed {} {h:x?}", sc.prop, sc.name, seed_of(base, sc.prop, j));
                }
            }
        }
    }
    println!("{} executions of {} seeds at 1, 8, 24 and 3 processes: {bad} diverged", 4 * n * reg.scenarios.len() as u64, n * reg.scenarios.len() as u64);
    (bad > 0) as i32
}

pub fn main(reg: Registry) -> i32 {
    let a: Vec<String> = std::env::args().collect();
    // tokio sizes its pools from this; everything else is left alone
    unsafe { std::env::set_var("TOKIO_WORKER_THREADS", "2") };
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let flag = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    match arg(1) {
        "check" => {
            let seed = flag("--seed").or(std::env::var("VERIF_SEED").ok()).and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1);
            let thorough = flag("--tier").or(std::env::var("VERIF_TIER").ok()).as_deref() == Some("thorough");
            let o = Opts {
                seed,
                thorough,
                runs: flag("--runs").and_then(|s| s.parse().ok()),
                secs: flag("--secs").and_then(|s| s.parse().ok()),
                only: flag("--only"),
                evidence: !a.iter().any(|x| x == "--no-evidence"),
                fast: a.iter().any(|x| x == "--fast"),
            };
            check(&reg, arg(2), &o)
        }
        "replay" => replay(&reg, arg(2)),
        "one" => one(&reg, arg(2), arg(3), arg(4).parse().unwrap_or(1), a.iter().any(|x| x == "-v")),
        "det" => determinism(&reg, arg(2).parse().unwrap_or(50), arg(3).parse().unwrap_or(1)),
        "list" => {
            for s in &reg.scenarios {
                println!("{} {} weight {}", s.prop, s.name, s.weight);
            }
            0
        }
        _ => {
            eprintln!("usage: rsim check Cxx | replay FILE | one Cxx SCENARIO SEED [-v] | det N | list");
            2
        }
    }
}
