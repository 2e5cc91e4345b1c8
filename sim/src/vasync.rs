//! Validated's async combinators: C13.
use crate::util::mix;
use rustica::datatypes::validated::Validated;
use simcore::exec::{self, Leaf, LeafHooks, Outcome, Step};
use simcore::explore::{F_OWN, Info, Scenario};
use simcore::fx::{self, Key, Sp};
use simcore::ledger::{self, Tok};
use simcore::*;
use smallvec::SmallVec;
use std::sync::Arc;

type V = Validated<Tok, Tok>;

#[derive(Clone, Debug)]
enum Op {
    Map,
    MapErr,
    /// Some(n): turns invalid with n errors.
    Then(Option<usize>),
}
fn key(op: usize, i: usize, k: u32) -> Key {
    ((op * WIDE + i) * 4) as u32 + k
}
struct Hooks {
    op: usize,
    i: usize,
    g: Tok,
}
impl LeafHooks for Hooks {
    fn start(&mut self) {
        let _ = self.g.val();
        fx::effect(key(self.op, self.i, 1), 0)
    }
    fn finish(&mut self) {
        let _ = self.g.val();
        fx::effect(key(self.op, self.i, 2), 0)
    }
}
/// The scripted waiting of each future, by operation and position.
type Plans = Arc<Vec<Vec<Vec<Step>>>>;
const GATES: usize = WIDE * 4;

fn leaf(op: usize, i: usize, plans: &Plans) -> Leaf<Hooks> {
    let run = fx::cur_run();
    let plan = plans[op][i]
        .iter()
        .map(|s| match *s {
            Step::Open(g) => Step::Open(run * GATES + g),
            Step::Gate(g) => Step::Gate(run * GATES + g),
            s => s,
        })
        .collect();
    Leaf::new(plan, Hooks { op, i, g: Tok::new(0) })
}

#[derive(Clone, Debug, PartialEq)]
enum Model {
    Valid(i64),
    Invalid(Vec<(i64, usize)>), // value, position
}
fn read(v: &V) -> Result<i64, Vec<i64>> {
    match v {
        Validated::Valid(t) => Ok(t.val()),
        Validated::Invalid(es) => Err(es.iter().map(|t| t.val()).collect()),
    }
}
/// More than the number of errors of any value.
const WIDE: usize = 2048;
/// Errors carry their position so that the function knows which future is its own.
fn enc(v: i64, pos: usize) -> i64 {
    v * WIDE as i64 + pos as i64
}

static OUT: Global<Vec<Option<Result<i64, Vec<i64>>>>> = Global::empty();

fn scenario(panics: bool) {
    ledger::reset();
    fx::reset(true);
    let tasks = crate::util::crowd(3);
    let workers = wr(1, 3);
    let nops = wr(1, 3);
    exec::reset((tasks + 1) * GATES);
    let n = if wchance(1, 6) { match w(40) { 0..=4 => wr(60, 66), 5..=8 => wr(100, 250), 9 => wr(257, 600), _ => wr(28, 40) } } else { wr(1, 7) };
    let tasks = if n > 100 { tasks.min(2) } else { tasks };
    let input: Model = if wchance(1, 3) { Model::Valid(wr(1, 50) as i64) } else { Model::Invalid((0..n).map(|i| (wr(1, 50) as i64, i)).collect()) };
    let ops: Vec<Op> = (0..nops)
        .map(|_| match w(4) {
            0 => Op::Map,
            1 => Op::Then(if wchance(1, 2) { Some(wr(1, 4)) } else { None }),
            _ => Op::MapErr,
        })
        .collect();
    let ring = wchance(2, 3);
    let mut plans: Vec<Vec<Vec<Step>>> = Vec::new();
    let mut cur = input.clone();
    let scale = cfg().fault_scale;
    for (o, op) in ops.iter().enumerate() {
        let width = match &cur {
            Model::Invalid(es) => es.len(),
            _ => 1,
        };
        let mut ps: Vec<Vec<Step>> = (0..width.max(1)).map(|_| exec::draw_plan(2)).collect();
        if ring && matches!(op, Op::MapErr) && width > 1 && !panics {
            // every future waits for its neighbour to have started
            for (i, p) in ps.iter_mut().enumerate() {
                p.push(Step::Open(o * WIDE + i));
                p.push(Step::Gate(o * WIDE + (i + 1) % width));
            }
        }
        plans.push(ps);
        cur = match (op, cur) {
            (Op::Map, Model::Valid(a)) => Model::Valid(mix(1, a)),
            (Op::Then(None), Model::Valid(a)) => Model::Valid(mix(2, a)),
            (Op::Then(Some(n)), Model::Valid(a)) => Model::Invalid((0..*n).map(|i| (mix(3, a) % 1000 + i as i64, i)).collect()),
            (Op::MapErr, Model::Invalid(es)) => Model::Invalid(es.into_iter().map(|(v, i)| (mix(4, v) % 100_000, i)).collect()),
            (_, m) => m,
        };
    }
    if panics && scale > 0 {
        for run in 0..tasks {
            for o in 0..nops {
                for i in 0..plans[o].len() {
                    for k in 0..3 {
                        if plan_chance(scale, 6144) {
                            fx::plan_panic(run, key(o, i, k), 0);
                        }
                    }
                }
            }
        }
    }
    let cancel: Vec<Option<u32>> = (0..tasks).map(|_| if scale > 0 && plan_chance(200, 1024) { Some(fault_choose(5) as u32) } else { None }).collect();
    describe(&format!("{tasks} tasks on {workers} threads, cancelled {cancel:?}: {input:?} through {ops:?}; waiting {plans:?}"));
    let plans: Plans = Arc::new(plans);
    let v: V = match &input {
        Model::Valid(a) => Validated::Valid(Tok::new(*a)),
        Model::Invalid(es) => Validated::Invalid(es.iter().map(|(v, i)| Tok::new(enc(*v, *i))).collect::<SmallVec<[Tok; 8]>>()),
    };
    let before = read(&v);
    let baseline = ledger::live();
    let v = Arc::new(v);
    OUT.set(vec![None; tasks]);
    for run in 0..tasks {
        let (v, ops, plans) = (v.clone(), ops.clone(), plans.clone());
        exec::spawn(
            Box::pin(async move {
                fx::enter(run);
                let mut own: Option<V> = None;
                for (o, op) in ops.iter().enumerate() {
                    let src: &V = own.as_ref().unwrap_or(&v);
                    let g = Tok::new(0);
                    let pl = plans.clone();
                    let next = match op.clone() {
                        Op::Map => {
                            src.fmap_valid_async(move |a: Tok| {
                                let _ = g.val();
                                fx::effect(key(o, 0, 0), a.val());
                                let l = leaf(o, 0, &pl);
                                async move {
                                    l.await;
                                    a.with(mix(1, a.val()))
                                }
                            })
                            .await
                        }
                        Op::MapErr => {
                            let g = Arc::new(g);
                            src.fmap_invalid_async(move |e: Tok| {
                                let _ = g.val();
                                let i = (e.val() % WIDE as i64) as usize;
                                fx::effect(key(o, i, 0), e.val());
                                let l = leaf(o, i, &pl);
                                async move {
                                    l.await;
                                    e.with(enc(mix(4, e.val() / WIDE as i64) % 100_000, i))
                                }
                            })
                            .await
                        }
                        Op::Then(bad) => {
                            src.and_then_async(move |a: Tok| {
                                let _ = g.val();
                                fx::effect(key(o, 0, 0), a.val());
                                let l = leaf(o, 0, &pl);
                                async move {
                                    l.await;
                                    match bad {
                                        None => Validated::Valid(a.with(mix(2, a.val()))),
                                        Some(n) => Validated::Invalid((0..n).map(|i| a.with(enc(mix(3, a.val()) % 1000 + i as i64, i))).collect()),
                                    }
                                }
                            })
                            .await
                        }
                    };
                    own = Some(next);
                }
                let r = read(&own.unwrap());
                OUT.with(|x| x[run] = Some(r));
                fx::enter(fx::BUILD);
            }),
            cancel[run],
        );
    }
    exec::run(workers);
    for run in 0..tasks {
        // what a plain reading prescribes
        let mut sp = Vec::new();
        let mut m = input.clone();
        let mut failed: Vec<Key> = Vec::new();
        for (o, op) in ops.iter().enumerate() {
            let one = |i: usize, arg: i64| -> (Sp, Option<Key>) {
                let mut v = Vec::new();
                for (k, a) in [(0, arg), (1, 0), (2, 0)] {
                    v.push(Sp::E(key(o, i, k), a));
                    if fx::panics(run, key(o, i, k)) {
                        return (Sp::Seq(v), Some(key(o, i, k)));
                    }
                }
                (Sp::Seq(v), None)
            };
            m = match (op, m) {
                (Op::MapErr, Model::Invalid(es)) => {
                    let each: Vec<(Sp, Option<Key>)> = es.iter().map(|(v, i)| one(*i, enc(*v, *i))).collect();
                    failed = each.iter().filter_map(|e| e.1).collect();
                    sp.push(Sp::Par(each.into_iter().map(|e| (e.0, e.1.is_some())).collect()));
                    Model::Invalid(es.into_iter().map(|(v, i)| (mix(4, v) % 100_000, i)).collect())
                }
                (Op::Map | Op::Then(_), Model::Valid(a)) => {
                    let (s, f) = one(0, a);
                    sp.push(s);
                    failed = f.into_iter().collect();
                    match op {
                        Op::Map => Model::Valid(mix(1, a)),
                        Op::Then(None) => Model::Valid(mix(2, a)),
                        Op::Then(Some(n)) => Model::Invalid((0..*n).map(|i| (mix(3, a) % 1000 + i as i64, i)).collect()),
                        _ => unreachable!(),
                    }
                }
                (_, m) => m,
            };
            if !failed.is_empty() {
                break;
            }
        }
        let sp = Sp::Seq(sp);
        let log = fx::log_of(run);
        let out = exec::outcome(run);
        let got = OUT.with(|x| x[run].clone());
        if let Err(e) = sp.check(&log, out != Outcome::Cancelled) {
            fail("effects", &format!("task {run} ({out:?}): {e}: {log:?}; expected {sp:?}"));
        }
        match out {
            Outcome::Done => {
                check!(failed.is_empty(), "missing-panic", "task {run} finished although {failed:?} panicked");
                let want = match &m {
                    Model::Valid(a) => Ok(*a),
                    Model::Invalid(es) => Err(es.iter().map(|(v, i)| enc(*v, *i)).collect::<Vec<_>>()),
                };
                check!(got.as_ref() == Some(&want), "wrong-value", "task {run} yields {got:?}, expected {want:?}");
            }
            Outcome::Panicked(k, text) => check!(k.is_some_and(|k| failed.contains(&k)), "unexpected-panic", "task {run} panicked with {text}, expected one of {failed:?}"),
            Outcome::Cancelled => {}
        }
    }
    for r in fx::runs_logged() {
        check!(r < tasks, "effects", "effects outside every task: {:?}", fx::log_of(r));
    }
    check!(read(&v) == before, "input-changed", "the input reads {:?} after, {before:?} before", read(&v));
    check!(ledger::live() == baseline, "leak", "{} values alive afterwards, {baseline} before", ledger::live());
}

pub fn register(s: &mut Vec<Scenario>, i: &mut Vec<Info>) {
    s.push(Scenario { prop: "C13", name: "chains", gap_max: 1500, faults: F_OWN, weight: 3, run: || scenario(false) });
    s.push(Scenario { prop: "C13", name: "chains-panics", gap_max: 1500, faults: F_OWN, weight: 1, run: || scenario(true) });
    i.push(Info {
        prop: "C13",
        rule: "1-3 tasks push one shared Validated value (valid, or 1-7, 28-66, 100-250 or up to 600 errors) through 1-3 async combinators whose functions return scripted futures finishing in any order, often waiting for each other in a ring; some tasks are cancelled, some functions panic.",
        real: "Validated, futures::join_all",
        stub: "the executor (task choice, worker threads, spurious polls, wakers of the latest poll only, cancellation), thread scheduling; leaf futures are scripted",
        counters: &[],
    });
}
