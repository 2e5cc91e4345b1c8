//! StateT values made by their constructors (Pure, LiftM) next to effectful ones: C17.
//!
//! What is computed while composing and what only when running is left open: a program is built
//! and run inside one run, and everything user code did there is counted.
use crate::state::{Base, Er, Mapper, Out, Then};
use crate::util::{fails, keep1, keep2, mix, mix2, plan_error, reset, step_fails, threads};
use rustica::transformers::StateT;
use simcore::explore::{F_OWN, Scenario};
use simcore::fx;
use simcore::ledger::{self, Tok};
use simcore::*;
use std::sync::Arc;

type M = Result<(Tok, Tok), Er>;
type T = StateT<Tok, M, Tok>;

#[derive(Clone, Debug)]
enum V {
    Pure(i64),
    /// state, value, fails
    Lift(i64, i64, bool),
    New(u32),
    Fail(u32),
    Fmap(Box<V>, u32),
    Bind(Box<V>, u32, Box<V>),
    Combine(Box<V>, Box<V>, u32),
    Apply(Box<V>, Box<V>, u32),
    Join(Box<V>, u32),
    MapErr(Box<V>, u32),
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    P,
    L,
    E,
}
#[derive(Default)]
struct Gen {
    next: u32,
    keys: Vec<u32>,
    errs: Vec<u32>,
}
impl Gen {
    fn id(&mut self) -> u32 {
        self.next += 2;
        self.keys.push(self.next);
        self.next
    }
    fn draw(&mut self, k: K, d: usize) -> V {
        let c = w(99) as i64;
        if d == 0 || wchance(1, 8) {
            return match k {
                K::P => V::Pure(c),
                K::L => V::Lift(wr(1, 50) as i64, c, wchance(1, 6)),
                K::E if wchance(1, 3) => {
                    let i = self.id();
                    self.errs.push(i);
                    V::Fail(i)
                }
                K::E => V::New(self.id()),
            };
        }
        let d = d - 1;
        match w(7) {
            0 | 1 => V::Fmap(Box::new(self.draw(k, d)), self.id()),
            2 => V::Join(Box::new(self.draw(k, d)), self.id()),
            3 => V::MapErr(Box::new(self.draw(k, d)), self.id()),
            4 => {
                let from = match k {
                    K::E => *pick(&[K::P, K::L, K::E]),
                    _ => K::P,
                };
                let to = if from == K::P { k } else { *pick(&[K::L, K::E]) };
                let a = Box::new(self.draw(from, d));
                V::Bind(a, self.id(), Box::new(self.draw(to, d)))
            }
            5 => {
                if k == K::L {
                    // whose state two lifted values leave behind is not part of the property
                    let s = wr(1, 50) as i64;
                    let (a, b) = (V::Lift(s, c, wchance(1, 6)), V::Lift(s, c + 1, wchance(1, 6)));
                    return V::Combine(Box::new(a), Box::new(b), self.id());
                }
                let a = Box::new(self.draw(k, d));
                V::Combine(a, Box::new(self.draw(k, d)), self.id())
            }
            _ => {
                let (ka, kb) = match k {
                    K::P => return V::Fmap(Box::new(self.draw(k, d)), self.id()),
                    K::L => (K::L, K::L),
                    K::E => *pick(&[(K::L, K::E), (K::E, K::L), (K::E, K::E)]),
                };
                let a = Box::new(self.draw(ka, d));
                let b = Box::new(self.draw(kb, d));
                V::Apply(a, b, self.id())
            }
        }
    }
}
fn pick<X>(v: &[X]) -> &X {
    &v[w(v.len())]
}
/// Some values depend on the step before.
fn val(c: i64, env: i64) -> i64 {
    if c % 3 == 0 { env } else { c }
}
fn build(p: &V, env: i64) -> T {
    match p {
        V::Pure(c) => StateT::Pure(Tok::new(val(*c, env))),
        V::Lift(s, c, e) => StateT::LiftM(if *e { Err(Tok::new(*c)) } else { Ok((Tok::new(*s), Tok::new(val(*c, env)))) }),
        V::New(n) => {
            let n = *n;
            StateT::new(keep1(move |s: Tok| {
                fx::effect(n, s.val());
                Ok((s.with(mix(n, s.val())), s.with(mix2(n, s.val(), env))))
            }))
        }
        V::Fail(n) => {
            let n = *n;
            StateT::new(keep1(move |s: Tok| {
                fx::effect(n, s.val());
                if step_fails(n) { Err(Tok::new(n as i64)) } else { Ok((s.with(mix(n, s.val())), s)) }
            }))
        }
        V::Fmap(q, f) => {
            let f = *f;
            build(q, env).fmap_with(
                keep1(move |a: Tok| {
                    fx::effect(f, a.val());
                    a.with(mix(f, a.val()))
                }),
                keep2(|m: M, k: Mapper| Base::map(m, &*k)),
            )
        }
        V::Bind(q, f, k) => {
            let (f, k) = (*f, k.clone());
            build(q, env).bind_with(
                keep1(move |a: Tok| {
                    fx::effect(f, a.val());
                    build(&k, mix(f, a.val()))
                }),
                keep2(|m: M, k: Then<M>| m.then(&*k)),
            )
        }
        V::Combine(a, b, f) => {
            let f = *f;
            build(a, env).combine_with(
                &build(b, env),
                keep2(move |a: Tok, b: Tok| {
                    fx::effect(f, a.val());
                    a.with(mix2(f, a.val(), b.val()))
                }),
                |ma: M, mb: M, k| ma.both(mb, &*k),
            )
        }
        V::Apply(a, b, f) => {
            let f = *f;
            build(a, env).apply(
                build(b, env),
                keep2(move |ma: M, mb: M| {
                    fx::effect(f, 0);
                    ma.both(mb, &|(_, a), (s, b)| (s, a.with(mix2(f, a.val(), b.val()))))
                }),
            )
        }
        V::Join(q, f) => {
            let f = *f;
            build(q, env).join(keep1(move |m: M| {
                fx::effect(f, 0);
                m
            }))
        }
        V::MapErr(q, f) => {
            let f = *f;
            build(q, env).map_error(keep1(move |e: Tok| {
                fx::effect(f, e.val());
                e.with(e.val() + 1000)
            }))
        }
    }
}
/// A computation as far as it is known without a state.
enum Got {
    Pure(i64),
    Val(Result<(i64, i64), i64>),
}
fn eval(p: &V, env: i64, s: i64, run: usize, log: &mut Vec<(u32, i64)>) -> Got {
    let call = |log: &mut Vec<(u32, i64)>, k: u32, a: i64| log.push((k, a));
    match p {
        V::Pure(c) => Got::Pure(val(*c, env)),
        V::Lift(s, c, e) => Got::Val(if *e { Err(*c) } else { Ok((*s, val(*c, env))) }),
        V::New(n) => {
            call(log, *n, s);
            Got::Val(Ok((mix(*n, s), mix2(*n, s, env))))
        }
        V::Fail(n) => {
            call(log, *n, s);
            Got::Val(if fails(run, *n) { Err(*n as i64) } else { Ok((mix(*n, s), s)) })
        }
        V::Fmap(q, f) => match eval(q, env, s, run, log) {
            Got::Pure(a) => {
                call(log, *f, a);
                Got::Pure(mix(*f, a))
            }
            Got::Val(v) => Got::Val(v.map(|(s, a)| {
                call(log, *f, a);
                (s, mix(*f, a))
            })),
        },
        V::Bind(q, f, k) => match eval(q, env, s, run, log) {
            Got::Pure(a) => {
                call(log, *f, a);
                eval(k, mix(*f, a), s, run, log)
            }
            Got::Val(Err(e)) => Got::Val(Err(e)),
            Got::Val(Ok((s, a))) => {
                call(log, *f, a);
                eval(k, mix(*f, a), s, run, log)
            }
        },
        V::Combine(a, b, f) => match (eval(a, env, s, run, log), eval(b, env, s, run, log)) {
            (Got::Pure(a), Got::Pure(b)) => {
                call(log, *f, a);
                Got::Pure(mix2(*f, a, b))
            }
            (Got::Val(Ok((_, a))), Got::Val(Ok((s, b)))) => {
                call(log, *f, a);
                Got::Val(Ok((s, mix2(*f, a, b))))
            }
            (Got::Val(Err(e)), _) | (_, Got::Val(Err(e))) => Got::Val(Err(e)),
            _ => fail("harness", "operands of different kinds"),
        },
        V::Apply(a, b, f) => {
            let (a, b) = (eval(a, env, s, run, log), eval(b, env, s, run, log));
            call(log, *f, 0);
            match (a, b) {
                (Got::Val(Ok((_, a))), Got::Val(Ok((s, b)))) => Got::Val(Ok((s, mix2(*f, a, b)))),
                (Got::Val(Err(e)), _) | (_, Got::Val(Err(e))) => Got::Val(Err(e)),
                _ => fail("harness", "apply on a plain value"),
            }
        }
        V::Join(q, f) => {
            let g = eval(q, env, s, run, log);
            if let Got::Val(_) = g {
                call(log, *f, 0);
            }
            g
        }
        V::MapErr(q, f) => match eval(q, env, s, run, log) {
            Got::Val(Err(e)) => {
                call(log, *f, e);
                Got::Val(Err(e + 1000))
            }
            g => g,
        },
    }
}
fn within(part: &[(u32, i64)], whole: &[(u32, i64)]) -> bool {
    let mut rest = whole.to_vec();
    part.iter().all(|e| rest.iter().position(|x| x == e).map(|i| rest.swap_remove(i)).is_some())
}
fn one(p: &V, id: usize, arg: i64, how: usize, again: usize) {
    let _q = Mode::quiet();
    let env = arg + 3;
    let mut want = Vec::new();
    let Got::Val(res) = eval(p, env, arg, id, &mut want) else { fail("harness", "program is a plain value") };
    want.sort();
    let bad = want.iter().map(|e| e.0).find(|k| fx::panics(id, *k));
    let expect = |s: i64, how: usize| {
        let mut l = Vec::new();
        let Got::Val(r) = eval(p, env, s, id, &mut l) else { unreachable!() };
        match r {
            Ok((_, a)) if matches!(how, 4 | 5) => Out::Values(vec![a]),
            Ok((s, _)) if how == 6 => Out::States(vec![s]),
            Ok(v) => Out::Vals(vec![v]),
            Err(e) if matches!(how, 3 | 5) => Out::Ctx(e, vec!["outer".into()]),
            Err(e) => Out::Fail(e),
        }
    };
    let _ = res;
    fx::enter(id);
    let got = catch(|| {
        let t = build(p, env);
        let out = M::run(&t, Tok::new(arg), how);
        (t, out)
    });
    fx::enter(fx::BUILD);
    let mut log = fx::log_of(id);
    log.sort();
    match (bad, got) {
        (None, Ok((t, out))) => {
            check!(log == want, "steps", "StateT run {id}: built and run once, user code was called {log:?}, expected {want:?}");
            let w = expect(arg, how);
            check!(out == w, "wrong-value", "StateT run {id}: gives {out:?}, expected {w:?}");
            fx::enter(id);
            let t2 = sut(|| t.clone());
            sut(|| drop(t));
            for i in 0..again {
                let s = arg + 7 * i as i64;
                match catch(|| M::run(&t2, Tok::new(s), (how + i) % 7)) {
                    Ok(out) => {
                        let w = expect(s, (how + i) % 7);
                        check!(out == w, "wrong-value", "StateT run {id}, again ({i}): gives {out:?}, expected {w:?}");
                    }
                    Err(p) => fail("unexpected-panic", &format!("StateT run {id}, again: {}", payload_text(&*p))),
                }
            }
            sut(|| drop(t2));
            fx::enter(fx::BUILD);
        }
        (None, Err(p)) => fail("unexpected-panic", &format!("StateT run {id}: {}", payload_text(&*p))),
        (Some(_), Ok(_)) => fail("missing-panic", &format!("StateT run {id}: a step panicked unnoticed; calls {log:?}")),
        (Some(_), Err(p)) => {
            check!(within(&log, &want), "steps", "StateT run {id}: user code was called {log:?}, at most {want:?} expected");
            let t = payload_text(&*p);
            let ok = log.iter().any(|e| fx::panic_kind(id, e.0).is_some_and(|k| fx::payload_is(k, e.0, &t)));
            check!(ok, "panic-altered", "StateT run {id}: a step's panic surfaced as {t:?}");
        }
    }
}
fn run(strict: bool) {
    reset();
    let mut g = Gen::default();
    let k = if wchance(1, 3) { K::L } else { K::E };
    let p = g.draw(k, wr(1, 5));
    describe(&format!("StateT {p:?}"));
    let n = crate::util::crowd(3);
    let fs = cfg().fault_scale;
    for id in 0..n {
        if fs > 0 && !g.keys.is_empty() && plan_chance(fs, 1024) {
            fx::plan_panic(id, g.keys[fault_choose(g.keys.len())], fault_choose(3) as u8);
        }
        if !g.errs.is_empty() && plan_chance(300, 1024) {
            plan_error(id, g.errs[fault_choose(g.errs.len())]);
        }
    }
    let args: Vec<(i64, usize, usize)> = (0..n).map(|_| (wr(1, 50) as i64, w(7), w(3))).collect();
    let p = Arc::new(p);
    threads(n, move |i| {
        let (arg, how, again) = args[i];
        one(&p, i, arg, how, again);
    });
    if strict {
        ledger::check_empty("after the computations were dropped");
    }
}
pub fn register(s: &mut Vec<Scenario>) {
    s.push(Scenario { prop: "C17", name: "state-t-variants", gap_max: 500, faults: F_OWN, weight: 1, run: || run(false) });
    s.push(Scenario { prop: "C16", name: "state-t-variants", gap_max: 500, faults: F_OWN, weight: 1, run: || run(true) });
}
