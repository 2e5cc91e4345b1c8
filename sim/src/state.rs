//! State and StateT: C17 (and, strictly accounted, C16).
use crate::util::{keep1, keep2, Rec, Ref, Run, drive, fails, judge, mix, mix2, step_fails, too_long};
use rustica::datatypes::id::Id;
use rustica::datatypes::state::{State, get, modify, put};
use rustica::transformers::{MonadTransformer, StateT};
use simcore::explore::{F_OWN, Info, Scenario};
use simcore::fx;
use simcore::ledger::Tok;
use simcore::*;
use std::sync::Arc;

type St = State<Tok, Tok>;

#[derive(Clone, Debug)]
enum P {
    Pure(i64),
    Var,
    New(u32),
    Get,
    Put(i64),
    Modify(u32),
    Fmap(Box<P>, u32),
    Bind(Box<P>, u32, Box<P>),
    /// function computation, function, argument computation
    Apply(Box<P>, u32, Box<P>),
    /// another run inside a step
    Nested(Box<P>, u32, i64),
    /// through StateT and back
    Conv(Box<P>, bool),
    // StateT only
    /// how many outcomes a step has over the list monad
    Branch(u32, usize),
    Lift(i64, usize),
    Fail(u32),
    Combine(Box<P>, Box<P>, u32),
    MapErr(Box<P>, u32),
    Join(Box<P>, u32),
    /// one computation used twice: bound to itself, or (StateT) combined with itself
    Dup(Box<P>, u32, bool),
}
#[derive(Default)]
struct Gen {
    next: u32,
    keys: Vec<u32>,
    errs: Vec<u32>,
    branches: usize,
}
impl Gen {
    fn id(&mut self) -> u32 {
        self.next += 4;
        self.keys.push(self.next);
        self.next
    }
    fn leaf(&mut self, t: bool, bound: bool) -> P {
        let c = wr(1, 99) as i64;
        match w(if t { 11 } else { 7 }) {
            0 => P::New(self.id()),
            1 => P::Get,
            2 => P::Modify(self.id()),
            3 => P::Put(c),
            4 if bound => P::Var,
            5 => P::Pure(c),
            7 if self.branches < 3 => {
                self.branches += 1;
                P::Branch(self.id(), w(3))
            }
            8 => P::Lift(c, if self.branches < 3 { self.branches += 1; w(3) } else { 1 }),
            9 | 10 => {
                let i = self.id();
                self.errs.push(i);
                P::Fail(i)
            }
            _ => P::New(self.id()),
        }
    }
    fn draw(&mut self, t: bool, d: usize, bound: bool) -> P {
        if d == 0 || wchance(1, 7) {
            return self.leaf(t, bound);
        }
        let d = d - 1;
        match w(if t { 10 } else { 8 }) {
            0 => P::Fmap(Box::new(self.draw(t, d, bound)), self.id()),
            1 | 2 => {
                let a = Box::new(self.draw(t, d, bound));
                P::Bind(a, self.id(), Box::new(self.draw(t, d, true)))
            }
            3 => {
                let a = Box::new(self.draw(t, d, bound));
                let i = self.id();
                self.keys.push(i + 1);
                P::Apply(a, i, Box::new(self.draw(t, d, bound)))
            }
            4 => P::Nested(Box::new(self.draw(t, d.min(2), bound)), self.id(), wr(1, 99) as i64),
            5 if !t => P::Conv(Box::new(self.draw(t, d, bound)), wchance(1, 2)),
            6 => {
                let p = Box::new(self.draw(t, d, bound));
                let i = self.id();
                self.keys.push(i + 1);
                P::Dup(p, i, t && wchance(1, 3))
            }
            8 | 5 => {
                let a = Box::new(self.draw(t, d, bound));
                P::Combine(a, Box::new(self.draw(t, d, bound)), self.id())
            }
            9 => {
                let i = self.id();
                if wchance(1, 2) { P::MapErr(Box::new(self.draw(t, d, bound)), i) } else { P::Join(Box::new(self.draw(t, d, bound)), i) }
            }
            _ => {
                // a chain
                let mixed = wchance(1, 2);
                let n = crate::util::size(2, 5, 70);
                let mut p = self.leaf(t, bound || mixed);
                for i in 0..n {
                    let (l, k) = (self.leaf(t, true), self.id());
                    p = match if mixed { w(4) } else { 0 } {
                        0 | 1 => P::Bind(Box::new(p), k, Box::new(l)),
                        2 => P::Fmap(Box::new(p), k),
                        // deeper on the right, as a recursive function builds it
                        _ if i < 120 => P::Bind(Box::new(l), k, Box::new(p)),
                        _ => P::Fmap(Box::new(p), k),
                    };
                }
                if mixed && !bound { P::Bind(Box::new(self.leaf(t, false)), self.id(), Box::new(p)) } else { p }
            }
        }
    }
}

fn build(p: &P, env: i64) -> St {
    match p {
        P::Pure(c) => State::pure(Tok::new(*c)),
        P::Var => State::pure(Tok::new(env)),
        P::New(n) => {
            let (n, g) = (*n, Tok::new(0));
            State::new(move |s: Tok| {
                let _ = g.val();
                fx::effect(n, s.val());
                (s.with(mix2(n, s.val(), env)), s.with(mix(n, s.val())))
            })
        }
        P::Get => get::<Tok>(),
        P::Put(c) => {
            let c = *c;
            put(Tok::new(c)).fmap(move |()| Tok::new(c + 1))
        }
        P::Modify(n) => {
            let (n, g) = (*n, Tok::new(0));
            modify(move |s: Tok| {
                let _ = g.val();
                fx::effect(n, s.val());
                s.with(mix(n, s.val()))
            })
            .bind(move |()| State::pure(Tok::new(n as i64)))
        }
        P::Fmap(q, f) => {
            let (f, g) = (*f, Tok::new(0));
            build(q, env).fmap(move |a: Tok| {
                let _ = g.val();
                fx::effect(f, a.val());
                a.with(mix(f, a.val()))
            })
        }
        P::Bind(q, f, k) => {
            let (f, k, g) = (*f, k.clone(), Tok::new(0));
            build(q, env).bind(move |a: Tok| {
                let _ = g.val();
                fx::effect(f, a.val());
                build(&k, mix(f, a.val()))
            })
        }
        P::Apply(ff, f, v) => {
            let (f, g) = (*f, Tok::new(0));
            build(ff, env)
                .fmap(move |a: Tok| {
                    fx::effect(f, a.val());
                    let g = g.clone();
                    move |b: Tok| {
                        let _ = g.val();
                        fx::effect(f + 1, b.val());
                        a.with(mix2(f, a.val(), b.val()))
                    }
                })
                .apply(build(v, env))
        }
        P::Nested(q, n, c) => {
            let (n, c, q) = (*n, *c, build(q, env));
            State::new(move |s: Tok| {
                fx::effect(n, s.val());
                let (a, t) = q.run_state(Tok::new(c));
                (a.with(mix2(n, a.val(), t.val())), s)
            })
        }
        P::Conv(q, from) => {
            let st: StateT<Tok, Id<(Tok, Tok)>, Tok> = StateT::from_state(build(q, env));
            if *from {
                // (value, state) as State keeps them
                State::from(StateT::new(move |s: Tok| {
                    let (s2, a) = st.run_state(s).unwrap();
                    Id::new((a, s2))
                }))
            } else {
                st.to_state()
            }
        }
        P::Dup(q, f, _) => {
            let (f, x, g) = (*f, build(q, env), Tok::new(0));
            let y = x.clone();
            x.bind(move |a: Tok| {
                let _ = g.val();
                fx::effect(f, a.val());
                y.clone().fmap(move |b: Tok| {
                    fx::effect(f + 1, b.val());
                    a.with(mix2(f, a.val(), b.val()))
                })
            })
        }
        _ => unreachable!(),
    }
}
fn eval(p: &P, env: i64, s: i64, r: &mut Rec) -> Result<(i64, i64), u32> {
    Ok(match p {
        P::Pure(c) => (*c, s),
        P::Var => (env, s),
        P::New(n) => {
            r.call(*n, s)?;
            (mix2(*n, s, env), mix(*n, s))
        }
        P::Get => (s, s),
        P::Put(c) => (c + 1, *c),
        P::Modify(n) => {
            r.call(*n, s)?;
            (*n as i64, mix(*n, s))
        }
        P::Fmap(q, f) => {
            let (a, s) = eval(q, env, s, r)?;
            r.call(*f, a)?;
            (mix(*f, a), s)
        }
        P::Bind(q, f, k) => {
            let (a, s) = eval(q, env, s, r)?;
            r.call(*f, a)?;
            eval(k, mix(*f, a), s, r)?
        }
        P::Apply(ff, f, v) => {
            let (a, s) = eval(ff, env, s, r)?;
            r.call(*f, a)?;
            let (b, s) = eval(v, env, s, r)?;
            r.call(*f + 1, b)?;
            (mix2(*f, a, b), s)
        }
        P::Nested(q, n, c) => {
            r.call(*n, s)?;
            let (a, t) = eval(q, env, *c, r)?;
            (mix2(*n, a, t), s)
        }
        P::Conv(q, _) => eval(q, env, s, r)?,
        P::Dup(q, f, _) => {
            let (a, s) = eval(q, env, s, r)?;
            r.call(*f, a)?;
            let (b, s) = eval(q, env, s, r)?;
            r.call(*f + 1, b)?;
            (mix2(*f, a, b), s)
        }
        _ => unreachable!(),
    })
}

fn exec(p: &P, st: &St, run: &Run, res: &State<Tok, Result<Tok, Tok>>) {
    let mut rec = Rec::new(run.id);
    let r = eval(p, 5, run.arg, &mut rec);
    let s0 = Tok::new(run.arg);
    let how = run.how;
    // a result value made of the final value: odd ones are errors
    let split = |(a, s): (i64, i64)| if a % 2 == 1 { (0, s, a + 1) } else { (a + 1, s, 0) };
    match how {
        0 | 1 | 2 | 3 => {
            let want = r.map(|(a, s)| match how {
                0 => (a, s),
                1 => (a, 0),
                _ => (0, s),
            });
            let got = catch(|| match how {
                0 => st.run_state(s0),
                1 => (st.eval_state(s0), Tok::new(0)),
                2 => (Tok::new(0), st.exec_state(s0)),
                _ => (Tok::new(0), st.exec_pure(s0)),
            });
            judge("State", run, Ref { log: rec.log, res: want }, got.map(|(a, s)| (a.val(), s.val())));
        }
        _ => {
            let want = r.map(split).map(|(a, s, e)| match how {
                4 | 5 => (a, s, e),
                6 | 7 => (a, 0, e),
                _ => (0, if e > 0 { 0 } else { s }, e),
            });
            type R = Result<Tok, rustica::error::ComposableError<Tok>>;
            let ctx = if matches!(how, 5 | 7 | 9) { vec!["outer".to_string()] } else { vec![] };
            let side = |r: R| match r {
                Ok(t) => (t.val() + 1, 0),
                Err(e) => {
                    check!(e.context() == ctx, "wrong-context", "State, {run:?}: contexts {:?} instead of {ctx:?}", e.context());
                    (0, e.core_error().val() + 1)
                }
            };
            let got = catch(|| match how {
                4 => res.try_run_state(s0),
                5 => res.try_run_state_with_context(s0, "outer"),
                6 => (res.try_eval_state(s0).map_err(|e| e), Tok::new(0)),
                7 => (res.try_eval_state_with_context(s0, "outer"), Tok::new(0)),
                8 => (res.try_exec_state(s0), Tok::new(0)),
                _ => (res.try_exec_state_with_context(s0, "outer"), Tok::new(0)),
            });
            let got = got.map(|(r, s)| {
                let (v, e) = side(r);
                if how >= 8 { (0, if v > 0 { v - 1 } else { 0 }, e) } else { (v, s.val(), e) }
            });
            judge("State", run, Ref { log: rec.log, res: want }, got);
        }
    }
}

pub fn state(strict: bool) {
    let mut g = Gen::default();
    let p = g.draw(false, wr(1, 5), false);
    describe(&format!("State {p:?}"));
    if too_long(|r| drop(eval(&p, 5, 1, r))) {
        return;
    }
    let (p1, p2) = (p.clone(), p);
    drive(
        &g.keys,
        &[],
        10,
        strict,
        move || {
            let st = build(&p1, 5);
            let res = st.clone().fmap(|a: Tok| {
                let v = a.val();
                if v % 2 == 1 { Err(a) } else { Ok(a) }
            });
            (st, res)
        },
        |t| t.clone(),
        move |t, run| exec(&p2, &t.0, run, &t.1),
    );
}

// ---- StateT over failing and branching base monads ----

/// A base monad's outcomes: Result (one or an error) or Vec (any number).
pub trait Base: Clone + Send + Sync + 'static {
    const LIST: bool;
    fn many(v: Vec<(Tok, Tok)>) -> Self;
    fn err(e: i64) -> Self;
    /// (state, value) pairs, or the error
    fn read(&self) -> Out;
    fn map(self, f: &dyn Fn((Tok, Tok)) -> (Tok, Tok)) -> Self;
    fn then(self, f: &dyn Fn((Tok, Tok)) -> Self) -> Self;
    fn both(self, o: Self, f: &dyn Fn((Tok, Tok), (Tok, Tok)) -> (Tok, Tok)) -> Self;
    fn lift(self) -> StateT<Tok, Self, Tok>;
    fn map_err(t: StateT<Tok, Self, Tok>, f: impl Fn(i64) -> i64 + Send + Sync + 'static) -> StateT<Tok, Self, Tok>;
    fn modify(f: impl Fn(Tok) -> Tok + Send + Sync + 'static, after: i64) -> StateT<Tok, Self, Tok>;
    /// Another way to run: through the error-reporting forms where there are any.
    fn run(t: &StateT<Tok, Self, Tok>, s: Tok, how: usize) -> Out;
}
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Vals(Vec<(i64, i64)>),
    Fail(i64),
    /// only part of the outcome was asked for
    States(Vec<i64>),
    Values(Vec<i64>),
    Ctx(i64, Vec<String>),
}
pub type Er = Tok;
impl Base for Result<(Tok, Tok), Er> {
    const LIST: bool = false;
    fn many(mut v: Vec<(Tok, Tok)>) -> Self {
        Ok(v.remove(0))
    }
    fn err(e: i64) -> Self {
        Err(Tok::new(e))
    }
    fn read(&self) -> Out {
        match self {
            Ok((s, a)) => Out::Vals(vec![(s.val(), a.val())]),
            Err(e) => Out::Fail(e.val()),
        }
    }
    fn map(self, f: &dyn Fn((Tok, Tok)) -> (Tok, Tok)) -> Self {
        Result::map(self, f)
    }
    fn then(self, f: &dyn Fn((Tok, Tok)) -> Self) -> Self {
        self.and_then(f)
    }
    fn both(self, o: Self, f: &dyn Fn((Tok, Tok), (Tok, Tok)) -> (Tok, Tok)) -> Self {
        match (self, o) {
            (Ok(a), Ok(b)) => Ok(f(a, b)),
            (Err(e), _) => Err(e),
            (_, Err(e)) => Err(e),
        }
    }
    fn lift(self) -> StateT<Tok, Self, Tok> {
        <StateT<Tok, Self, Tok> as MonadTransformer>::lift(self)
    }
    fn map_err(t: StateT<Tok, Self, Tok>, f: impl Fn(i64) -> i64 + Send + Sync + 'static) -> StateT<Tok, Self, Tok> {
        t.map_error(move |e: Tok| e.with(f(e.val())))
    }
    fn modify(f: impl Fn(Tok) -> Tok + Send + Sync + 'static, after: i64) -> StateT<Tok, Self, Tok> {
        StateT::<Tok, Result<(Tok, ()), Er>, ()>::modify(f, Ok).bind_with(
            move |()| StateT::<Tok, Self, Tok>::pure(Tok::new(after), Ok),
            |m, k| match m {
                Ok(x) => k(x),
                Err(e) => Err(e),
            },
        )
    }
    fn run(t: &StateT<Tok, Self, Tok>, s: Tok, how: usize) -> Out {
        let er = |e: &rustica::error::ComposableError<Tok>| if e.context().is_empty() { Out::Fail(e.core_error().val()) } else { Out::Ctx(e.core_error().val(), e.context()) };
        match how {
            0 => t.run_state(s).read(),
            1 => t.exec_state(s, |m| m.read()),
            2 => match t.try_run_state(s) {
                Ok((s, a)) => Out::Vals(vec![(s.val(), a.val())]),
                Err(e) => er(&e),
            },
            3 => match t.try_run_state_with_context(s, "outer") {
                Ok((s, a)) => Out::Vals(vec![(s.val(), a.val())]),
                Err(e) => er(&e),
            },
            4 => match t.try_eval_state(s) {
                Ok(a) => Out::Values(vec![a.val()]),
                Err(e) => er(&e),
            },
            5 => match t.try_eval_state_with_context(s, "outer") {
                Ok(a) => Out::Values(vec![a.val()]),
                Err(e) => er(&e),
            },
            _ => match t.try_exec_state(s) {
                Ok(a) => Out::States(vec![a.val()]),
                Err(e) => er(&e),
            },
        }
    }
}
impl Base for Vec<(Tok, Tok)> {
    const LIST: bool = true;
    fn many(v: Vec<(Tok, Tok)>) -> Self {
        v
    }
    fn err(_: i64) -> Self {
        Vec::new()
    }
    fn read(&self) -> Out {
        Out::Vals(self.iter().map(|(s, a)| (s.val(), a.val())).collect())
    }
    fn map(self, f: &dyn Fn((Tok, Tok)) -> (Tok, Tok)) -> Self {
        self.into_iter().map(f).collect()
    }
    fn then(self, f: &dyn Fn((Tok, Tok)) -> Self) -> Self {
        self.into_iter().flat_map(f).collect()
    }
    fn both(self, o: Self, f: &dyn Fn((Tok, Tok), (Tok, Tok)) -> (Tok, Tok)) -> Self {
        self.iter().flat_map(|a| o.iter().map(move |b| f(a.clone(), b.clone()))).collect()
    }
    fn lift(self) -> StateT<Tok, Self, Tok> {
        StateT::new(move |_| self.clone())
    }
    fn map_err(t: StateT<Tok, Self, Tok>, _: impl Fn(i64) -> i64 + Send + Sync + 'static) -> StateT<Tok, Self, Tok> {
        t
    }
    fn modify(f: impl Fn(Tok) -> Tok + Send + Sync + 'static, after: i64) -> StateT<Tok, Self, Tok> {
        StateT::<Tok, Vec<(Tok, ())>, ()>::modify(f, |x| vec![x]).bind_with(
            move |()| StateT::<Tok, Self, Tok>::pure(Tok::new(after), |x| vec![x]),
            |m, k| m.into_iter().flat_map(k).collect(),
        )
    }
    fn run(t: &StateT<Tok, Self, Tok>, s: Tok, how: usize) -> Out {
        match how % 2 {
            0 => t.run_state(s).read(),
            _ => t.exec_state(s, |m| m.read()),
        }
    }
}

type T<M> = StateT<Tok, M, Tok>;

const PURE: u32 = 900_000;
pub type Mapper = Box<dyn Fn((Tok, Tok)) -> (Tok, Tok) + Send + Sync>;
pub type Then<M> = Box<dyn Fn((Tok, Tok)) -> M + Send + Sync>;
/// The function that puts a pair into the base monad, logged.
fn pure_fn<M: Base>(key: u32) -> impl Fn((Tok, Tok)) -> M + Clone + Send + Sync + 'static {
    keep1(move |x: (Tok, Tok)| {
        fx::effect(key, x.1.val());
        M::many(vec![x])
    })
}
fn build_t<M: Base>(p: &P, env: i64) -> T<M> {
    match p {
        P::Pure(c) => T::<M>::pure(Tok::new(*c), pure_fn(PURE)),
        P::Var => T::<M>::pure(Tok::new(env), pure_fn(PURE)),
        P::New(n) => {
            let (n, g) = (*n, Tok::new(0));
            T::<M>::new(move |s: Tok| {
                let _ = g.val();
                fx::effect(n, s.val());
                M::many(vec![(s.with(mix(n, s.val())), s.with(mix2(n, s.val(), env)))])
            })
        }
        P::Get => T::<M>::get(pure_fn(PURE + 1)),
        P::Put(c) => T::<M>::put(Tok::new(*c), pure_fn(PURE + 2)),
        P::Modify(n) => {
            let (n, g) = (*n, Tok::new(0));
            M::modify(
                move |s: Tok| {
                    let _ = g.val();
                    fx::effect(n, s.val());
                    s.with(mix(n, s.val()))
                },
                n as i64,
            )
        }
        P::Fmap(q, f) => {
            let (f, g) = (*f, Tok::new(0));
            build_t::<M>(q, env).fmap_with(
                move |a: Tok| {
                    let _ = g.val();
                    fx::effect(f, a.val());
                    a.with(mix(f, a.val()))
                },
                keep2(|m: M, k: Mapper| m.map(&*k)),
            )
        }
        P::Bind(q, f, k) => {
            let (f, k, g) = (*f, k.clone(), Tok::new(0));
            build_t::<M>(q, env).bind_with(
                move |a: Tok| {
                    let _ = g.val();
                    fx::effect(f, a.val());
                    build_t::<M>(&k, mix(f, a.val()))
                },
                keep2(|m: M, k: Then<M>| m.then(&*k)),
            )
        }
        P::Apply(a, f, b) => {
            let (f, b, g) = (*f, build_t::<M>(b, env), Tok::new(0));
            build_t::<M>(a, env).apply(b, move |ma: M, mb: M| {
                let _ = g.val();
                fx::effect(f, 0);
                ma.both(mb, &|(_, a), (s, b)| {
                    fx::effect(f + 1, b.val());
                    (s, a.with(mix2(f, a.val(), b.val())))
                })
            })
        }
        P::Nested(q, n, c) => {
            let (n, c, q) = (*n, *c, build_t::<M>(q, env));
            T::<M>::new(move |s: Tok| {
                fx::effect(n, s.val());
                q.run_state(Tok::new(c)).map(&|(_, a)| (s.clone(), a))
            })
        }
        P::Branch(n, k) => {
            let (n, k) = (*n, if M::LIST { *k } else { 1 });
            T::<M>::new(move |s: Tok| {
                fx::effect(n, s.val());
                M::many((0..k).map(|i| (s.with(mix(n + i as u32, s.val())), s.with(s.val() + i as i64))).collect())
            })
        }
        P::Lift(c, k) => {
            let k = if M::LIST { *k } else { 1 };
            let m = M::many((0..k as i64).map(|i| (Tok::new(c + i), Tok::new(c + 10 + i))).collect());
            if c % 2 == 0 { m.lift() } else { T::<M>::new(move |_| m.clone()) }
        }
        P::Fail(n) => {
            let n = *n;
            T::<M>::new(move |s: Tok| {
                fx::effect(n, s.val());
                if step_fails(n) { M::err(n as i64) } else { M::many(vec![(s.with(mix(n, s.val())), s)]) }
            })
        }
        P::Combine(a, b, f) => {
            let (f, g) = (*f, Tok::new(0));
            let b = build_t::<M>(b, env);
            let g2 = Tok::new(0);
            build_t::<M>(a, env).combine_with(
                &b,
                move |a: Tok, b: Tok| {
                    let _ = g.val();
                    fx::effect(f, a.val());
                    a.with(mix2(f, a.val(), b.val()))
                },
                move |ma: M, mb: M, k| {
                    let _ = g2.val();
                    ma.both(mb, &*k)
                },
            )
        }
        P::MapErr(q, n) => {
            let (n, g) = (*n, Tok::new(0));
            M::map_err(build_t::<M>(q, env), move |e| {
                let _ = g.val();
                fx::effect(n, e);
                e + 1000
            })
        }
        P::Join(q, n) => {
            let (n, g) = (*n, Tok::new(0));
            build_t::<M>(q, env).join(move |m: M| {
                let _ = g.val();
                fx::effect(n, 0);
                m
            })
        }
        P::Conv(q, _) => build_t::<M>(q, env),
        P::Dup(q, f, true) => {
            let (f, x, g) = (*f, build_t::<M>(q, env), Tok::new(0));
            x.clone().combine_with(
                &x,
                move |a: Tok, b: Tok| {
                    let _ = g.val();
                    fx::effect(f, a.val());
                    a.with(mix2(f, a.val(), b.val()))
                },
                |ma: M, mb: M, k| ma.both(mb, &*k),
            )
        }
        P::Dup(q, f, false) => {
            let (f, x) = (*f, build_t::<M>(q, env));
            x.clone().bind_with(
                move |a: Tok| {
                    fx::effect(f, a.val());
                    x.clone().fmap_with(
                        move |b: Tok| {
                            fx::effect(f + 1, b.val());
                            a.with(mix2(f, a.val(), b.val()))
                        },
                        |m: M, k| m.map(&*k),
                    )
                },
                |m: M, k| m.then(&*k),
            )
        }
    }
}
type O = Result<Vec<(i64, i64)>, i64>;
fn eval_t(p: &P, list: bool, env: i64, s: i64, r: &mut Rec) -> Result<O, u32> {
    let one = |s, a| Ok(Ok(vec![(s, a)]));
    match p {
        P::Pure(c) => {
            r.call(PURE, *c)?;
            one(s, *c)
        }
        P::Var => {
            r.call(PURE, env)?;
            one(s, env)
        }
        P::New(n) => {
            r.call(*n, s)?;
            one(mix(*n, s), mix2(*n, s, env))
        }
        P::Get => {
            r.call(PURE + 1, s)?;
            one(s, s)
        }
        P::Put(c) => {
            r.call(PURE + 2, s)?;
            one(*c, s)
        }
        P::Modify(n) => {
            r.call(*n, s)?;
            one(mix(*n, s), *n as i64)
        }
        P::Fmap(q, f) => {
            let o = eval_t(q, list, env, s, r)?;
            let Ok(v) = o else { return Ok(o) };
            let mut out = Vec::new();
            for (s, a) in v {
                r.call(*f, a)?;
                out.push((s, mix(*f, a)));
            }
            Ok(Ok(out))
        }
        P::Bind(q, f, k) => {
            let o = eval_t(q, list, env, s, r)?;
            let Ok(v) = o else { return Ok(o) };
            let mut out = Vec::new();
            for (s, a) in v {
                r.call(*f, a)?;
                match eval_t(k, list, mix(*f, a), s, r)? {
                    Ok(v) => out.extend(v),
                    Err(e) => return Ok(Err(e)),
                }
            }
            Ok(Ok(out))
        }
        P::Dup(q, f, true) => eval_t(&P::Combine(q.clone(), q.clone(), *f), list, env, s, r),
        P::Dup(q, f, false) => {
            let o = eval_t(q, list, env, s, r)?;
            let Ok(v) = o else { return Ok(o) };
            let mut out = Vec::new();
            for (s, a) in v {
                r.call(*f, a)?;
                let w = match eval_t(q, list, env, s, r)? {
                    Ok(w) => w,
                    Err(e) => return Ok(Err(e)),
                };
                for (s, b) in w {
                    r.call(*f + 1, b)?;
                    out.push((s, mix2(*f, a, b)));
                }
            }
            Ok(Ok(out))
        }
        P::Apply(a, f, b) | P::Combine(a, b, f) => {
            // both operands get the state the combination started with
            let app = matches!(p, P::Apply(..));
            let oa = eval_t(a, list, env, s, r)?;
            let ob = eval_t(b, list, env, s, r)?;
            if app {
                r.call(*f, 0)?;
            }
            match (oa, ob) {
                (Ok(va), Ok(vb)) => {
                    let mut out = Vec::new();
                    for (_, a) in &va {
                        for (s, b) in &vb {
                            if app { r.call(*f + 1, *b)? } else { r.call(*f, *a)? }
                            out.push((*s, mix2(*f, *a, *b)));
                        }
                    }
                    Ok(Ok(out))
                }
                (Err(e), _) | (_, Err(e)) => Ok(Err(e)),
            }
        }
        P::Nested(q, n, c) => {
            r.call(*n, s)?;
            Ok(eval_t(q, list, env, *c, r)?.map(|v| v.into_iter().map(|(_, a)| (s, a)).collect()))
        }
        P::Branch(n, k) => {
            r.call(*n, s)?;
            let k = if list { *k } else { 1 };
            Ok(Ok((0..k).map(|i| (mix(*n + i as u32, s), s + i as i64)).collect()))
        }
        P::Lift(c, k) => {
            let k = if list { *k } else { 1 };
            Ok(Ok((0..k as i64).map(|i| (c + i, c + 10 + i)).collect()))
        }
        P::Fail(n) => {
            r.call(*n, s)?;
            if fails(r.run, *n) { Ok(if list { Ok(vec![]) } else { Err(*n as i64) }) } else { one(mix(*n, s), s) }
        }
        P::MapErr(q, n) => match eval_t(q, list, env, s, r)? {
            Err(e) => {
                r.call(*n, e)?;
                Ok(Err(e + 1000))
            }
            o => Ok(o),
        },
        P::Join(q, n) => {
            let o = eval_t(q, list, env, s, r)?;
            r.call(*n, 0)?;
            Ok(o)
        }
        P::Conv(q, _) => eval_t(q, list, env, s, r),
    }
}

fn state_t_over<M: Base>(strict: bool) {
    let mut g = Gen::default();
    let p = g.draw(true, wr(1, 4), false);
    describe(&format!("StateT over {} {p:?}", if M::LIST { "Vec" } else { "Result" }));
    if too_long(|r| drop(eval_t(&p, M::LIST, 5, 1, r))) {
        return;
    }
    let (p1, p2) = (p.clone(), p);
    drive(
        &g.keys,
        &g.errs,
        7,
        strict,
        move || build_t::<M>(&p1, 5),
        |t| t.clone(),
        move |t, run| {
            let mut rec = Rec::new(run.id);
            let how = run.how;
            let want = eval_t(&p2, M::LIST, 5, run.arg, &mut rec).map(|o| match o {
                Ok(v) if M::LIST => Out::Vals(v),
                Ok(v) => match how {
                    4 | 5 => Out::Values(v.iter().map(|x| x.1).collect()),
                    6 => Out::States(v.iter().map(|x| x.0).collect()),
                    _ => Out::Vals(v),
                },
                Err(e) if matches!(how, 3 | 5) => Out::Ctx(e, vec!["outer".into()]),
                Err(e) => Out::Fail(e),
            });
            let s0 = Tok::new(run.arg);
            let got = catch(|| M::run(t, s0, how));
            judge("StateT", run, Ref { log: rec.log, res: want }, got);
        },
    );
}
pub fn state_t(strict: bool) {
    if wchance(1, 2) { state_t_over::<Result<(Tok, Tok), Er>>(strict) } else { state_t_over::<Vec<(Tok, Tok)>>(strict) }
}
#[allow(unused)]
type _Keep = Arc<()>;

pub fn register(s: &mut Vec<Scenario>, i: &mut Vec<Info>) {
    s.push(Scenario { prop: "C17", name: "state", gap_max: 500, faults: F_OWN, weight: 1, run: || state(false) });
    s.push(Scenario { prop: "C17", name: "state-t", gap_max: 500, faults: F_OWN, weight: 1, run: || state_t(false) });
    s.push(Scenario { prop: "C16", name: "state", gap_max: 500, faults: F_OWN, weight: 1, run: || state(true) });
    s.push(Scenario { prop: "C16", name: "state-t", gap_max: 500, faults: F_OWN, weight: 1, run: || state_t(true) });
    i.push(Info {
        prop: "C17",
        rule: "A random State program (new, pure, get, put, modify, fmap, bind, apply, nested runs, conversions) or StateT program over Result or Vec (also fmap_with, bind_with, combine_with, apply, join, lift, map_error) is run 1-3 times by each of 1-3 threads from different states, shared, cloned or with the original dropped, some runs with panicking or failing steps; value, state and the exact sequence of steps with their arguments are compared with a reference interpreter.",
        real: "State, StateT, Id, ComposableError, Arc, threads, unwinding",
        stub: "thread scheduling, futex waits and wakes, clocks; the steps are logging callbacks, the base monads' plumbing for *_with forms is the harness's",
        counters: &[],
    });
}
