//! Memoizer: C01 single flight, C02 linearizability with clear, C03 panic isolation.
use crate::util::{linger, threads};
use rustica::datatypes::wrapper::memoizer::Memoizer;
use simcore::explore::{F_OWN, Info, Scenario};
use simcore::ledger::{self, Tok};
use simcore::lin::{self, Call, linearizable};
use simcore::*;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

/// Keys whose hashes may collide.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Key {
    pub k: u32,
    pub modulus: u32,
}
impl Hash for Key {
    fn hash<H: Hasher>(&self, h: &mut H) {
        (self.k % self.modulus).hash(h)
    }
}

#[derive(Clone, Debug)]
enum Op {
    /// key, the value returned (None: the computation panicked), the value this call computed
    Get { key: u32, got: Option<i64>, computed: Option<i64>, ran: bool, ran_end: u64 },
    Clear,
}
#[derive(Clone, Debug)]
enum Todo {
    Get { key: u32, slow: usize, panics: u8, idle: u64 },
    Clear,
}
static HIST: Global<Vec<Call<Op>>> = Global::empty();
static UNIQ: Global<i64> = Global::empty();

struct Opt {
    clears: bool,
    panics: bool,
}

/// From a millisecond to some weeks.
fn idle_ns() -> u64 {
    1_000_000 * 10u64.pow(w(10) as u32) * wr(1, 3) as u64
}
fn plan(o: &Opt, nthreads: usize, max_ops: usize, keys: &[u32]) -> Vec<Vec<Todo>> {
    let fault_scale = cfg().fault_scale;
    let idle = wchance(1, 8);
    (0..nthreads)
        .map(|_| {
            (0..wr(1, max_ops))
                .map(|_| {
                    if o.clears && wchance(1, 4) {
                        Todo::Clear
                    } else {
                        let p = if o.panics && fault_scale > 0 && fault_chance(Fault::Panic, 1 + fault_scale / 2, 1024) {
                            1 + fault_choose(3) as u8
                        } else {
                            0
                        };
                        Todo::Get { key: keys[w(keys.len())], slow: w(4), panics: p, idle: if idle && wchance(1, 3) { idle_ns() } else { 0 } }
                    }
                })
                .collect()
        })
        .collect()
}

fn one_op(m: &Memoizer<Key, Tok>, todo: &Todo, modulus: u32) {
    match *todo {
        Todo::Clear => {
            let inv = lin::stamp();
            sut(|| m.clear());
            let ret = lin::stamp();
            HIST.with(|h| h.push(Call { op: Op::Clear, inv, ret }));
        }
        Todo::Get { key, slow, panics, idle } => {
            if idle > 0 {
                std::thread::sleep(std::time::Duration::from_nanos(idle));
            }
            let me = tid();
            let mut computed = None;
            let mut ran = false;
            let mut ran_end = 0;
            let inv = lin::stamp();
            let r = catch(|| {
                m.get_or_compute(Key { k: key, modulus }, |k| {
                    let _q = Mode::quiet();
                    check!(!ran, "computed-twice", "one call ran its computation twice");
                    check!(k.k == key, "wrong-key", "the computation for key {key} was given key {}", k.k);
                    check!(tid() == me, "wrong-thread", "a computation ran on a thread other than its caller's");
                    ran = true;
                    event(c"compute", key as i64, 0);
                    linger(slow);
                    if let Some(ns) = w_long_ns() {
                        let _o = Mode::open();
                        std::thread::sleep(std::time::Duration::from_nanos(ns));
                    }
                    if panics > 0 {
                        ran_end = lin::stamp();
                        fx::boom(panics - 1, key)
                    }
                    let v = UNIQ.with(|u| {
                        *u += 1;
                        *u
                    }) * (1 << 20)
                        + key as i64;
                    linger(slow / 2);
                    computed = Some(v);
                    ran_end = lin::stamp();
                    Tok::new(v)
                })
            });
            let ret = lin::stamp();
            let got = match r {
                Ok(t) => {
                    check!(!(ran && panics > 0), "panic-swallowed", "a call whose computation panicked returned a value");
                    Some(t.val())
                }
                Err(p) => {
                    let text = payload_text(&*p);
                    check!(
                        ran && panics > 0,
                        "foreign-panic",
                        "a call on key {key} panicked ({text}) although its own computation did not"
                    );
                    check!(fx::payload_is(panics - 1, key, &text), "panic-altered", "the panic arrived as {text:?}");
                    None
                }
            };
            event(c"got", key as i64, got.unwrap_or(-1));
            HIST.with(|h| h.push(Call { op: Op::Get { key, got, computed, ran, ran_end }, inv, ret }));
        }
    }
}

/// Nobody else is looking: one clear, or so many that a counter of them may come round.
fn quiet_clears(m: &Memoizer<Key, Tok>, modulus: u32) {
    if wchance(1, 3) {
        let n = [255, 256, 257, 512, 1024][w(5)];
        describe(&format!("{n} clears in a row\n"));
        let inv = lin::stamp();
        sut(|| (0..n).for_each(|_| m.clear()));
        let ret = lin::stamp();
        HIST.with(|h| h.push(Call { op: Op::Clear, inv, ret }));
    } else {
        one_op(m, &Todo::Clear, modulus);
    }
}

fn step(keys: Vec<u32>) -> impl Fn(&Vec<i64>, &Op) -> Option<Vec<i64>> {
    move |s, op| match op {
        Op::Clear => Some(vec![0; keys.len()]),
        Op::Get { key, got, computed, ran, .. } => {
            let k = keys.iter().position(|x| x == key).unwrap_or(0);
            if s[k] != 0 {
                (!ran && *got == Some(s[k])).then(|| s.clone())
            } else {
                if !ran || got != computed {
                    return None;
                }
                let mut n = s.clone();
                n[k] = got.unwrap_or(0);
                Some(n)
            }
        }
    }
}

fn show(h: &[Call<Op>]) -> String {
    let mut v: Vec<_> = h.to_vec();
    v.sort_by_key(|c| c.inv);
    v.iter().map(|c| format!("[{}..{}] {:?}", c.inv, c.ret, c.op)).collect::<Vec<_>>().join("; ")
}

/// Phases of concurrent calls, then a final look at every key.
fn run(o: Opt, max_threads: usize, max_ops: usize) {
    ledger::reset();
    lin::reset();
    HIST.set(Vec::new());
    UNIQ.set(0);
    let nkeys = wr(1, 3);
    let modulus = wr(1, 4) as u32;
    let wide = wchance(1, 12);
    let n = if wide { wr(6, 12) } else { wr(2, max_threads) };
    let max_ops = if wide { 2 } else if n == 2 && wchance(1, 4) { 14 } else { max_ops };
    let phases = if o.clears { 1 } else { wr(1, 3) };
    let m: Arc<Memoizer<Key, Tok>> = Arc::new(sut(|| if wchance(1, 2) { Memoizer::new() } else { Memoizer::default() }));
    // entries that are there already
    let pre = if wchance(1, 4) { [1, 5, 9, 17, 33, 65, 129, 257, 515, 1030, 2060, 4120][if wchance(1, 8) { w(12) } else { w(10) }] } else if wchance(1, 400) { [10_010, 65_600][w(2)] } else { 0 };
    let modulus = if pre > 40 { 1 << 20 } else { modulus };
    for k in 0..pre {
        one_op(&m, &Todo::Get { key: k as u32, slow: 0, panics: 0, idle: 0 }, modulus);
    }
    let warm: Vec<i64> = HIST.with(|h| {
        h.drain(..)
            .enumerate()
            .map(|(i, c)| match c.op {
                Op::Get { computed: Some(v), got: Some(g), .. } if v == g => v,
                ref o => fail("wrong-value", &format!("the first lookup of key {i}: {o:?}")),
            })
            .collect()
    });
    let mut keys: Vec<u32> = Vec::new();
    let mut init: Vec<i64> = Vec::new();
    for j in 0..nkeys {
        let k = if pre > 0 && wchance(1, 2) { w(pre) } else { pre + j };
        if !keys.contains(&(k as u32)) {
            keys.push(k as u32);
            init.push(warm.get(k).copied().unwrap_or(0));
        }
    }
    let mut cleared = false;
    if o.clears && wchance(1, 6) {
        quiet_clears(&m, modulus);
        cleared = true;
    }
    for ph in 0..phases {
        let todo = plan(&o, n, max_ops, &keys);
        describe(&format!("phase {ph}: {n} threads, keys {keys:?}, {pre} cached before, hash mod {modulus}: {todo:?}\n"));
        cleared |= todo.iter().flatten().any(|t| matches!(t, Todo::Clear));
        let (m2, t2) = (m.clone(), Arc::new(todo));
        threads(n, move |i| t2[i].iter().for_each(|t| one_op(&m2, t, modulus)));
        if !o.clears {
            // no clear in this phase: one computation per key, one value for all
            HIST.with(|h| {
                for (i, k) in keys.iter().enumerate() {
                    let of_k: Vec<_> = h
                        .iter()
                        .filter_map(|c| match &c.op {
                            Op::Get { key, got, computed, .. } if key == k => Some((got, computed)),
                            _ => None,
                        })
                        .collect();
                    let mut done: Vec<i64> = of_k.iter().filter_map(|c| *c.1).collect();
                    if init[i] != 0 {
                        done.insert(0, init[i]);
                    }
                    check!(done.len() <= 1, "computed-again", "key {k}: {} computations ran to completion: {done:?}", done.len());
                    for g in of_k.iter().filter_map(|c| *c.0) {
                        check!(done.first() == Some(&g), "wrong-value", "key {k}: a call returned {g}, the computation gave {done:?}");
                    }
                }
            });
            if ph + 1 < phases {
                // a quiescent clear: everything is computed anew afterwards
                quiet_clears(&m, modulus);
                HIST.with(|h| h.clear());
                init = vec![0; keys.len()];
                cleared = true;
            }
        }
    }
    if o.clears && wchance(1, 6) {
        quiet_clears(&m, modulus);
        cleared = true;
    }
    // everything still works and shows a consistent state, also after a long time
    if wchance(1, 8) {
        std::thread::sleep(std::time::Duration::from_nanos(idle_ns()));
    }
    for k in &keys {
        one_op(&m, &Todo::Get { key: *k, slow: 0, panics: 0, idle: 0 }, modulus);
        one_op(&m, &Todo::Get { key: *k, slow: 0, panics: 0, idle: 0 }, modulus);
    }
    let h = HIST.with(|h| h.clone());
    if !linearizable(init, &h, &step(keys.clone())) {
        fail("not-linearizable", &format!("no sequential order explains the history: {}", show(&h)));
    }
    // the other entries are what they were
    if pre > 0 && !cleared {
        for (k, v) in warm.iter().enumerate() {
            if k < 20 || k + 20 > pre || wchance(1, 16) {
                HIST.with(|h| h.clear());
                one_op(&m, &Todo::Get { key: k as u32, slow: 0, panics: 0, idle: 0 }, modulus);
                HIST.with(|h| {
                    let Op::Get { got, ran, .. } = &h[0].op else { return };
                    check!(!ran && *got == Some(*v), "computed-again", "key {k}, cached as {v} before: computed again: {ran}, value {got:?}");
                });
            }
        }
    }
    // a lookup that starts after a clear never sees what was computed before it
    for l in &h {
        let Op::Get { got: Some(v), computed: None, .. } = l.op else { continue };
        let Some(src) = h.iter().find_map(|c| match c.op {
            Op::Get { computed: Some(x), ran_end, .. } if x == v => Some(ran_end),
            _ => None,
        })
        .or(warm.contains(&v).then_some(0)) else {
            if o.clears {
                fail("wrong-value", &format!("value {v} was computed by nobody"))
            }
            continue;
        };
        for c in &h {
            if matches!(c.op, Op::Clear) && src < c.inv && c.ret < l.inv {
                fail("stale-after-clear", &format!("a lookup after a clear got value {v} computed before it: {}", show(&h)));
            }
        }
    }
    let m = Arc::try_unwrap(m).unwrap_or_else(|_| fail("harness", "memoizer still shared"));
    sut(|| drop(m));
}

fn herd() {
    run(Opt { clears: false, panics: false }, 5, 3)
}
fn clears() {
    run(Opt { clears: true, panics: false }, 4, 4)
}
fn panics() {
    run(Opt { clears: wchance(1, 2), panics: true }, 4, 3)
}

/// A key with something to drop.
#[derive(Clone)]
struct Owned {
    k: Key,
    t: Tok,
}
impl PartialEq for Owned {
    fn eq(&self, o: &Owned) -> bool {
        let _ = (self.t.val(), o.t.val());
        self.k == o.k
    }
}
impl Eq for Owned {}
impl Hash for Owned {
    fn hash<H: Hasher>(&self, h: &mut H) {
        let _ = self.t.val();
        self.k.hash(h)
    }
}
/// Keys and values are dropped once, whoever panics when.
fn owned() {
    ledger::reset();
    let keys = wr(1, 3) as u32;
    let modulus = wr(1, 4) as u32;
    let scale = cfg().fault_scale;
    let n = wr(1, 4);
    // clear?, key, lingering, panic, panicking clone
    type Step = (bool, u32, usize, u8, u32);
    let todo: Vec<Vec<Step>> = (0..n)
        .map(|_| {
            (0..wr(1, 5))
                .map(|_| {
                    let clear = wchance(1, 5);
                    let key = w(keys as usize) as u32;
                    let slow = w(3);
                    let p = if scale > 0 && plan_chance(scale, 1024) { 1 + fault_choose(3) as u8 } else { 0 };
                    let c = if scale > 0 && plan_chance(scale, 1024) { 1 + fault_choose(2) as u32 } else { 0 };
                    (clear, key, slow, p, c)
                })
                .collect()
        })
        .collect();
    describe(&format!("{n} threads, hash mod {modulus}, steps (clear, key, slow, panic, clone panic): {todo:?}"));
    let m: Arc<Memoizer<Owned, Tok>> = Arc::new(sut(Memoizer::new));
    let (m2, todo) = (m.clone(), Arc::new(todo));
    threads(n, move |i| {
        for &(clear, key, slow, p, c) in &todo[i] {
            if clear {
                sut(|| m2.clear());
                continue;
            }
            let k = Owned { k: Key { k: key, modulus }, t: Tok::new(key as i64) };
            if c > 0 {
                ledger::arm_clone_bomb(c);
            }
            let r = catch(|| {
                m2.get_or_compute(k, |k| {
                    let _q = Mode::quiet();
                    check!(k.t.val() == key as i64, "wrong-key", "another key was handed out");
                    linger(slow);
                    if p > 0 {
                        count_fault(Fault::Panic);
                        fx::boom(p - 1, key)
                    }
                    Tok::new(100 + key as i64)
                })
            });
            let fired = ledger::disarm_clone_bomb();
            match r {
                Ok(v) => check!(v.val() == 100 + key as i64, "wrong-value", "key {key} gave {}", v.val()),
                Err(e) => check!(p > 0 || fired, "foreign-panic", "key {key}: {}", payload_text(&*e)),
            }
        }
    });
    let m = Arc::try_unwrap(m).unwrap_or_else(|_| fail("harness", "memoizer still shared"));
    check!(ledger::live() <= 2 * keys as usize, "leak", "{} values alive in a cache of {keys} keys", ledger::live());
    if wchance(1, 2) {
        sut(|| m.clear());
        ledger::check_empty("after the cache was cleared");
    }
    sut(|| drop(m));
    ledger::check_empty("after the memoizer was dropped");
}

pub fn register(s: &mut Vec<Scenario>, i: &mut Vec<Info>) {
    s.push(Scenario { prop: "C01", name: "herd", gap_max: 400, faults: 0, weight: 1, run: herd });
    s.push(Scenario { prop: "C02", name: "clears", gap_max: 400, faults: 0, weight: 1, run: clears });
    s.push(Scenario { prop: "C03", name: "panics", gap_max: 400, faults: F_OWN, weight: 1, run: panics });
    s.push(Scenario { prop: "C16", name: "memoizer", gap_max: 400, faults: F_OWN, weight: 1, run: owned });
    let real = "Memoizer, std RwLock, HashMap, thread spawn/join/unwinding";
    let stub = "thread scheduling, futex waits and wakes, clocks, hash seeds";
    i.push(Info { prop: "C01", rule: "2-5 (sometimes up to 12) threads make 1-3 calls each for 1-3 keys (colliding hashes included) through a shared Memoizer, empty or holding up to 1030 entries, in one to three phases separated by clears; computations linger for a drawn number of scheduling points.", real, stub, counters: &[] });
    i.push(Info { prop: "C02", rule: "2-4 threads mix lookups and clears on 1-3 keys; the recorded history is checked for linearizability against a map.", real, stub, counters: &[] });
    i.push(Info { prop: "C03", rule: "As C01/C02 with computations that panic at drawn calls, with and without clears.", real, stub, counters: &[] });
}
