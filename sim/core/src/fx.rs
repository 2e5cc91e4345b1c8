//! Effects of user code handed to the library: every call is logged with the run it belongs to,
//! is a scheduling point, and panics where the run's fault plan says so.
use crate::{Fault, Global, Injected, Mode, count_fault, event, exec, fail, tid};
use std::collections::HashMap;

pub const BUILD: usize = usize::MAX;
pub type Key = u32;

struct St {
    thread_run: Vec<usize>,
    task_run: Vec<usize>,
    log: HashMap<usize, Vec<(Key, i64)>>,
    panics: HashMap<(usize, Key), u8>,
    async_mode: bool,
    total: usize,
    /// Runs made from inside another run's step.
    nested: HashMap<(usize, Key), usize>,
    nest: Option<Nest>,
}
pub type Nest = std::sync::Arc<dyn Fn(usize) + Send + Sync>;
static FX: Global<St> = Global::empty();

#[inline(never)]
pub fn reset(async_mode: bool) {
    FX.set(St {
        thread_run: vec![BUILD; 256],
        task_run: Vec::new(),
        log: HashMap::new(),
        panics: HashMap::new(),
        async_mode,
        total: 0,
        nested: HashMap::new(),
        nest: None,
    });
}
static SIDE: std::sync::OnceLock<fn(&str)> = std::sync::OnceLock::new();
struct Side {
    prop: &'static str,
    /// Threads working on the side.
    busy: [bool; 64],
    left: u32,
}
static SIDES: Global<Side> = Global::empty();
pub fn set_side(f: fn(&str)) {
    let _ = SIDE.set(f);
}
pub fn set_prop(prop: &'static str) {
    SIDES.set(Side { prop, busy: [false; 64], left: 30 });
}
/// User code the library is calling may itself call the library.
#[inline(never)]
pub fn reenter() {
    let p = crate::cfg().p_reenter;
    if p == 0 || std::thread::panicking() {
        return;
    }
    {
        let m = Mode::quiet();
        if !m.was_sut() {
            return;
        }
    }
    let t = tid() & 63;
    let (go, prop) = SIDES.with(|s| (s.left > 0 && !s.busy[t], s.prop));
    if !go || !crate::fault_chance(Fault::Reenter, p, 1024) {
        return;
    }
    let Some(f) = SIDE.get() else { return };
    SIDES.with(|s| {
        s.left -= 1;
        s.busy[t] = true;
    });
    {
        let _m = Mode::quiet();
        f(prop);
    }
    SIDES.with(|s| s.busy[t] = false);
}
/// When the step `key` of `run` is first reached, `nest(inner)` is called inside it.
#[inline(never)]
pub fn plan_nested(run: usize, key: Key, inner: usize) {
    FX.with(|s| s.nested.insert((run, key), inner));
}
#[inline(never)]
pub fn set_nest(f: Option<Nest>) {
    let old = FX.with(|s| std::mem::replace(&mut s.nest, f));
    drop(old)
}
#[inline(never)]
fn nest(run: usize, key: Key) {
    let Some((inner, f)) = FX.with(|s| match &s.nest {
        Some(f) => s.nested.remove(&(run, key)).map(|i| (i, f.clone())),
        None => None,
    }) else {
        return;
    };
    event(c"nested-run", run as i64, inner as i64);
    let _q = Mode::quiet();
    enter(inner);
    f(inner);
    enter(run);
}
/// The run whose code this thread is executing.
#[inline(never)]
pub fn cur_run() -> usize {
    let _m = Mode::quiet();
    let task = if FX.with(|s| s.async_mode) { exec::cur_task() } else { None };
    FX.with(|s| match task {
        Some(t) => s.task_run.get(t).copied().unwrap_or(BUILD),
        None => s.thread_run[tid()],
    })
}
/// Calls of user code so far.
#[inline(never)]
pub fn total() -> usize {
    FX.with(|s| s.total)
}
/// Marks what this thread (or the task it is polling) does from now on as part of a run.
#[inline(never)]
pub fn enter(run: usize) {
    let _m = Mode::quiet();
    let task = if FX.with(|s| s.async_mode) { exec::cur_task() } else { None };
    FX.with(|s| match task {
        Some(t) => {
            if s.task_run.len() <= t {
                s.task_run.resize(t + 1, BUILD);
            }
            s.task_run[t] = run;
        }
        None => s.thread_run[tid()] = run,
    })
}
/// `kind` 0: panics with an `Injected` or `Loaded` payload, 1: with a String, 2: with a &str.
#[inline(never)]
pub fn plan_panic(run: usize, key: Key, kind: u8) {
    FX.with(|s| s.panics.insert((run, key), kind));
}
#[inline(never)]
pub fn panics(run: usize, key: Key) -> bool {
    FX.with(|s| s.panics.contains_key(&(run, key)))
}
#[inline(never)]
pub fn panic_kind(run: usize, key: Key) -> Option<u8> {
    FX.with(|s| s.panics.get(&(run, key)).copied())
}
#[inline(never)]
fn note(key: Key, arg: i64) -> (usize, Option<u8>) {
    let run = cur_run();
    let k = FX.with(|s| {
        s.log.entry(run).or_default().push((key, arg));
        s.total += 1;
        if s.total > 3_000_000 {
            fail("livelock", "user code is called over and over");
        }
        s.panics.get(&(run, key)).copied()
    });
    event(c"effect", run as i64, key as i64);
    (run, k)
}
/// User code is called.
#[inline(never)]
pub fn effect(key: Key, arg: i64) {
    let (run, p) = note(key, arg);
    {
        let _o = Mode::open();
        crate::point();
    }
    nest(run, key);
    reenter();
    if let Some(kind) = p {
        count_fault(Fault::Panic);
        boom(kind, key)
    }
}
#[inline(never)]
pub fn boom(kind: u8, key: Key) -> ! {
    match kind {
        1 => std::panic::panic_any(long_text("boom ", key)),
        2 => std::panic::panic_any(static_text(key)),
        _ if key % 2 == 0 => std::panic::panic_any(crate::Loaded(key, crate::ledger::Tok::new(key as i64))),
        _ => std::panic::panic_any(Injected(key)),
    }
}
pub fn static_text(key: Key) -> &'static str {
    ["boom a", "boom b", "boom\nc: d -> e {}\n", "b\u{f6}\u{f6}m \u{1f4a5}", ""][(key % 5) as usize]
}
/// A message that tells the keys apart: now and then long, of several lines, or not ASCII.
#[inline(never)]
pub fn long_text(what: &str, key: Key) -> String {
    match key % 9 {
        4 => format!("{what}{key} {}", "\u{e4}\u{f6}\u{1f4a5}x".repeat(7 + (key as usize / 9 % 5) * 40)),
        6 => format!("{what}{key}:\n  -> {{}} \"quoted\"\r\n\t{key}\n"),
        8 => format!("{what}{}{key}", "=".repeat(if key % 2 == 0 { 300 } else { 5000 })),
        _ => format!("{what}{key}"),
    }
}
/// Does this payload text belong to the planned panic?
#[inline(never)]
pub fn payload_is(kind: u8, key: Key, text: &str) -> bool {
    match kind {
        1 => text == long_text("boom ", key),
        2 => text == static_text(key),
        _ => text == format!("injected #{key}"),
    }
}
#[inline(never)]
pub fn log_of(run: usize) -> Vec<(Key, i64)> {
    FX.with(|s| s.log.get(&run).cloned().unwrap_or_default())
}
#[inline(never)]
pub fn clear_log(run: usize) {
    FX.with(|s| s.log.remove(&run));
}
#[inline(never)]
pub fn runs_logged() -> Vec<usize> {
    let mut v: Vec<usize> = FX.with(|s| s.log.keys().copied().collect());
    v.sort();
    v
}

/// The effects a run must perform: a series-parallel order. The same effect may occur several
/// times.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Sp {
    E(Key, i64),
    Seq(Vec<Sp>),
    /// Unordered; the flag marks branches that fail.
    Par(Vec<(Sp, bool)>),
}
impl Sp {
    pub fn none() -> Sp {
        Sp::Seq(Vec::new())
    }
    /// All effects, in no order.
    #[inline(never)]
    pub fn multiset(&self) -> Vec<(Key, i64)> {
        let mut v = Vec::new();
        self.effects(&mut v);
        v.sort();
        v
    }
    fn effects(&self, out: &mut Vec<(Key, i64)>) {
        match self {
            Sp::E(k, a) => out.push((*k, *a)),
            Sp::Seq(v) => v.iter().for_each(|s| s.effects(out)),
            Sp::Par(v) => v.iter().for_each(|s| s.0.effects(out)),
        }
    }
    /// Nothing more has to happen.
    fn done(&self) -> bool {
        match self {
            Sp::E(..) => false,
            Sp::Seq(v) => v.iter().all(Sp::done),
            Sp::Par(v) => {
                if v.iter().any(|s| s.1) {
                    v.iter().any(|s| s.1 && s.0.done())
                } else {
                    v.iter().all(|s| s.0.done())
                }
            }
        }
    }
    /// What may remain once this effect has happened.
    fn after(&self, e: (Key, i64), out: &mut Vec<Sp>) {
        match self {
            Sp::E(k, a) => {
                if (*k, *a) == e {
                    out.push(Sp::none())
                }
            }
            Sp::Seq(v) => {
                for i in 0..v.len() {
                    let mut heads = Vec::new();
                    v[i].after(e, &mut heads);
                    for h in heads {
                        let mut rest = Vec::with_capacity(v.len() - i);
                        if h != Sp::none() {
                            rest.push(h)
                        }
                        rest.extend_from_slice(&v[i + 1..]);
                        out.push(if rest.len() == 1 { rest.pop().unwrap() } else { Sp::Seq(rest) });
                    }
                    if !v[i].done() {
                        break;
                    }
                }
            }
            Sp::Par(v) => {
                for i in 0..v.len() {
                    let mut heads = Vec::new();
                    v[i].0.after(e, &mut heads);
                    for h in heads {
                        let mut rest = v.clone();
                        rest[i].0 = h;
                        // branches are unordered: equal situations are one
                        rest.sort();
                        out.push(Sp::Par(rest));
                    }
                }
            }
        }
    }
    /// Checks a log; `whole`: the run came to its end, otherwise a beginning is expected.
    #[inline(never)]
    pub fn check(&self, log: &[(Key, i64)], whole: bool) -> Result<(), String> {
        let mut may = vec![self.clone()];
        for (i, e) in log.iter().enumerate() {
            let mut next = Vec::new();
            for s in &may {
                s.after(*e, &mut next);
            }
            next.sort();
            next.dedup();
            if next.is_empty() {
                return Err(self.explain(log, i));
            }
            may = next;
            if may.len() > 4096 {
                fail("harness", "too many readings of one log");
            }
        }
        if whole && !may.iter().any(Sp::done) {
            let mut missing = Vec::new();
            may[0].effects(&mut missing);
            return Err(format!("effects that must happen did not: {missing:?}"));
        }
        Ok(())
    }
    fn explain(&self, log: &[(Key, i64)], i: usize) -> String {
        let (k, a) = log[i];
        let mut all = Vec::new();
        self.effects(&mut all);
        let args: Vec<i64> = all.iter().filter(|e| e.0 == k).map(|e| e.1).collect();
        if args.is_empty() {
            format!("effect {k} must not happen in this run")
        } else if !args.contains(&a) {
            format!("effect {k} was given {a} instead of {args:?}")
        } else if log[..=i].iter().filter(|e| e.0 == k).count() > args.len() {
            format!("effect {k} happened more often than it should")
        } else {
            format!("effect {k} at position {i} happened before an effect it must follow, or after the run had failed")
        }
    }
}
