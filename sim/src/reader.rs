//! Reader and ReaderT: C18 (and, strictly accounted, C16).
use crate::util::{keep1, keep2, Rec, Ref, Run, drive, fails, judge, mix, mix2, step_fails, too_long};
use rustica::datatypes::id::Id;
use rustica::datatypes::reader::Reader;
use rustica::transformers::{MonadTransformer, ReaderT};
use simcore::explore::{F_OWN, Info, Scenario};
use simcore::fx;
use simcore::ledger::Tok;
use simcore::*;

type Rd = Reader<Tok, Tok>;

#[derive(Clone, Debug)]
enum P {
    Pure(i64),
    Var,
    Ask,
    New(u32),
    Asks(u32),
    AskTransform(u32),
    AskWith(u32),
    AsksWith(u32),
    Fmap(Box<P>, u32, bool),
    Bind(Box<P>, u32, Box<P>, bool),
    Local(Box<P>, u32),
    Combine(Box<P>, Box<P>, u32, u8),
    /// another run, in another environment, inside a step
    Nested(Box<P>, u32),
    Conv(Box<P>),
    // ReaderT only
    Lift(i64, bool),
    Fail(u32),
    MapErr(Box<P>, u32),
    Apply(Box<P>, u32, Box<P>),
    /// one computation used twice: bound to itself, or combined with itself
    Dup(Box<P>, u32, bool),
}
#[derive(Default)]
struct Gen {
    next: u32,
    keys: Vec<u32>,
    errs: Vec<u32>,
}
impl Gen {
    fn id(&mut self) -> u32 {
        self.next += 4;
        self.keys.extend([self.next, self.next + 1]);
        self.next
    }
    fn leaf(&mut self, t: bool, bound: bool) -> P {
        let c = wr(1, 99) as i64;
        match w(if t { 12 } else { 9 }) {
            0 => P::Ask,
            1 => P::New(self.id()),
            2 => P::Asks(self.id()),
            3 => P::AskTransform(self.id()),
            4 => P::AskWith(self.id()),
            5 => P::Pure(c),
            6 if t => P::AsksWith(self.id()),
            7 if bound => P::Var,
            9 | 10 => {
                let i = self.id();
                self.errs.push(i);
                P::Fail(i)
            }
            11 => P::Lift(c, wchance(3, 4)),
            _ => P::Ask,
        }
    }
    fn draw(&mut self, t: bool, d: usize, bound: bool) -> P {
        if d == 0 || wchance(1, 7) {
            return self.leaf(t, bound);
        }
        let d = d - 1;
        match w(if t { 11 } else { 9 }) {
            0 => P::Fmap(Box::new(self.draw(t, d, bound)), self.id(), wchance(1, 2)),
            1 | 2 => {
                let a = Box::new(self.draw(t, d, bound));
                P::Bind(a, self.id(), Box::new(self.draw(t, d, true)), wchance(1, 2))
            }
            3 | 4 => P::Local(Box::new(self.draw(t, d, bound)), self.id()),
            5 => {
                let a = Box::new(self.draw(t, d, bound));
                P::Combine(a, Box::new(self.draw(t, d, bound)), self.id(), w(3) as u8)
            }
            6 => P::Nested(Box::new(self.draw(t, d.min(2), bound)), self.id()),
            7 => P::Dup(Box::new(self.draw(t, d, bound)), self.id(), wchance(1, 2)),
            8 if !t => P::Conv(Box::new(self.draw(t, d, bound))),
            9 => P::MapErr(Box::new(self.draw(t, d, bound)), self.id()),
            10 => {
                let a = Box::new(self.draw(t, d, bound));
                P::Apply(a, self.id(), Box::new(self.draw(t, d, bound)))
            }
            _ => {
                let mixed = wchance(1, 2);
                let n = crate::util::size(2, 5, 70);
                let mut p = self.leaf(t, bound || mixed);
                for i in 0..n {
                    let k = self.leaf(t, true);
                    let k = if wchance(1, 3) { P::Local(Box::new(k), self.id()) } else { k };
                    let (id, own) = (self.id(), wchance(1, 2));
                    p = match if mixed { w(5) } else { 0 } {
                        0 | 1 => P::Bind(Box::new(p), id, Box::new(k), own),
                        2 => P::Local(Box::new(p), id),
                        // deeper on the right, as a recursive function builds it
                        3 if i < 120 => P::Bind(Box::new(k), id, Box::new(p), own),
                        _ => P::Fmap(Box::new(p), id, own),
                    };
                }
                if mixed && !bound { P::Bind(Box::new(self.leaf(t, false)), self.id(), Box::new(p), true) } else { p }
            }
        }
    }
}

/// A step of user code on one value, with a captured value that must still be alive.
fn step1(f: u32) -> impl Fn(Tok) -> Tok + Clone + Send + Sync + 'static {
    let g = Tok::new(0);
    move |a: Tok| {
        let _ = g.val();
        fx::effect(f, a.val());
        a.with(mix(f, a.val()))
    }
}
fn step2(f: u32) -> impl Fn(Tok, Tok) -> Tok + Clone + Send + Sync + 'static {
    let g = Tok::new(0);
    move |a: Tok, b: Tok| {
        let _ = g.val();
        fx::effect(f, a.val());
        a.with(mix2(f, a.val(), b.val()))
    }
}
fn build(p: &P, var: i64) -> Rd {
    match p {
        P::Pure(c) => {
            let t = Tok::new(*c);
            Reader::new(move |_| t.clone())
        }
        P::Var => {
            let t = Tok::new(var);
            Reader::new(move |_| t.clone())
        }
        P::Ask => Reader::ask(),
        P::New(n) => Reader::new(step1(*n)),
        P::Asks(n) => Reader::asks(step1(*n)),
        P::AskTransform(n) => Reader::ask_transform(step1(*n)),
        P::AskWith(n) => {
            let (n, g) = (*n, step1(*n + 1));
            Reader::ask_with(
                move |e: &Tok| {
                    fx::effect(n, e.val());
                    e.clone()
                },
                move |a| Id::new(g(a)),
            )
        }
        P::Fmap(q, f, _) => build(q, var).fmap(step1(*f)),
        P::Bind(q, f, k, _) => {
            let (f, k, g) = (*f, k.clone(), Tok::new(0));
            build(q, var).bind(move |a: Tok| {
                let _ = g.val();
                fx::effect(f, a.val());
                build(&k, mix(f, a.val()))
            })
        }
        P::Local(q, f) => build(q, var).local(step1(*f)),
        P::Combine(a, b, f, _) => build(a, var).combine(&build(b, var), step2(*f)),
        P::Nested(q, n) => {
            let (n, q) = (*n, build(q, var));
            Reader::new(move |e: Tok| {
                fx::effect(n, e.val());
                let a = q.run_reader(e.with(mix(n, e.val())));
                a.with(mix2(n, a.val(), e.val()))
            })
        }
        P::Dup(q, f, true) => {
            let x = build(q, var);
            x.combine(&x, step2(*f))
        }
        P::Dup(q, f, false) => {
            let (f, x) = (*f, build(q, var));
            x.clone().bind(move |a: Tok| {
                fx::effect(f, a.val());
                x.clone().fmap(move |b: Tok| {
                    fx::effect(f + 1, b.val());
                    a.with(mix2(f, a.val(), b.val()))
                })
            })
        }
        P::Conv(q) => {
            let q = build(q, var);
            Reader::from(ReaderT::new(move |e: Tok| Id::new(q.run_reader(e))))
        }
        _ => unreachable!(),
    }
}

trait Base: Clone + Send + Sync + 'static {
    const OPT: bool;
    fn ok(a: Tok) -> Self;
    fn err(e: i64) -> Self;
    fn out(&self) -> Result<i64, i64>;
    fn map(self, f: &dyn Fn(Tok) -> Tok) -> Self;
    fn then(self, f: &dyn Fn(Tok) -> Self) -> Self;
    fn both(self, o: Self, f: &dyn Fn(Tok, Tok) -> Tok) -> Self;
    fn lift(self) -> R<Self>;
    fn map_err(t: R<Self>, n: u32) -> R<Self>;
    fn fmap(t: &R<Self>, f: impl Fn(Tok) -> Tok + Clone + Send + Sync + 'static, with: bool) -> R<Self>;
    fn bind(t: &R<Self>, f: impl Fn(Tok) -> R<Self> + Clone + Send + Sync + 'static, with: bool) -> R<Self>;
    fn combine(t: &R<Self>, o: &R<Self>, f: impl Fn(Tok, Tok) -> Tok + Clone + Send + Sync + 'static, how: u8) -> R<Self>;
    fn apply(t: &R<Self>, f: &R<Self>, n: u32) -> R<Self>;
    /// Ok, or the error with its contexts
    fn run(t: &R<Self>, e: Tok, how: usize) -> Result<i64, (i64, Vec<String>)>;
}
type R<M> = ReaderT<Tok, M, Tok>;

macro_rules! base {
    ($m:ty, $opt:expr, ok: $ok:expr, err: $err:expr, out: $out:expr, maperr: $maperr:expr, run: $run:expr) => {
        impl Base for $m {
            const OPT: bool = $opt;
            fn ok(a: Tok) -> Self {
                $ok(a)
            }
            fn err(e: i64) -> Self {
                $err(e)
            }
            fn out(&self) -> Result<i64, i64> {
                $out(self)
            }
            fn map(self, f: &dyn Fn(Tok) -> Tok) -> Self {
                <$m>::map(self, f)
            }
            fn then(self, f: &dyn Fn(Tok) -> Self) -> Self {
                self.and_then(f)
            }
            fn both(self, o: Self, f: &dyn Fn(Tok, Tok) -> Tok) -> Self {
                self.and_then(|a| <$m>::map(o, |b| f(a, b)))
            }
            fn lift(self) -> R<Self> {
                <R<Self> as MonadTransformer>::lift(self)
            }
            fn map_err(t: R<Self>, n: u32) -> R<Self> {
                $maperr(t, n)
            }
            fn fmap(t: &R<Self>, f: impl Fn(Tok) -> Tok + Clone + Send + Sync + 'static, with: bool) -> R<Self> {
                if with { t.fmap_with(f, keep2(|m: $m, f| <$m>::map(m, f))) } else { t.fmap(f) }
            }
            fn bind(t: &R<Self>, f: impl Fn(Tok) -> R<Self> + Clone + Send + Sync + 'static, with: bool) -> R<Self> {
                if with { t.bind_with(f, keep2(|m: $m, k: std::sync::Arc<dyn Fn(Tok) -> $m + Send + Sync>| m.and_then(|a| k(a)))) } else { t.bind(f) }
            }
            fn combine(t: &R<Self>, o: &R<Self>, f: impl Fn(Tok, Tok) -> Tok + Clone + Send + Sync + 'static, how: u8) -> R<Self> {
                let g = Tok::new(0);
                match how {
                    0 => t.combine(o, f),
                    1 => t.combine_with(o, f, move |a: $m, b: $m, f: Box<dyn Fn(&Tok, &Tok) -> Tok + Send + Sync + '_>| {
                        let _ = g.val();
                        a.and_then(|a| <$m>::map(b, |b| f(&a, &b)))
                    }),
                    _ => t.lift2(f, move |a: $m, b: $m, f| {
                        let _ = g.val();
                        a.and_then(|a| <$m>::map(b, |b| f(a, b)))
                    })(t, o),
                }
            }
            fn apply(t: &R<Self>, f: &R<Self>, n: u32) -> R<Self> {
                // the function computation's values stand for the functions
                t.apply_with::<Tok, fn(Tok) -> Tok, _>(&ReaderT::new({
                    let f = f.clone();
                    move |e| f.run_reader(e)
                }), keep2(move |a: $m, f: $m| {
                    fx::effect(n, 0);
                    a.both(f, &|a, f| {
                        fx::effect(n + 1, a.val());
                        a.with(mix2(n, a.val(), f.val()))
                    })
                }))
            }
            fn run(t: &R<Self>, e: Tok, how: usize) -> Result<i64, (i64, Vec<String>)> {
                $run(t, e, how)
            }
        }
    };
}
base!(Result<Tok, Tok>, false,
    ok: Ok, err: |e| Err(Tok::new(e)),
    out: |m: &Self| m.as_ref().map(|t| t.val()).map_err(|e| e.val()),
    maperr: |t: R<Self>, n: u32| t.map_error(keep1(move |e: Tok| {
        fx::effect(n, e.val());
        e.with(e.val() + 1000)
    })),
    run: |t: &R<Self>, e: Tok, how: usize| {
        let er = |e: rustica::error::ComposableError<Tok>| (e.core_error().val(), e.context());
        match how {
            0 => t.run_reader(e).out().map_err(|e| (e, vec![])),
            1 => t.clone().unwrap_with(e).out().map_err(|e| (e, vec![])),
            2 => t.try_run_reader(e).map(|a| a.val()).map_err(er),
            _ => t.try_run_reader_with_context(e, "outer").map(|a| a.val()).map_err(er),
        }
    });
base!(Option<Tok>, true,
    ok: Some, err: |_| None,
    out: |m: &Self| m.as_ref().map(|t| t.val()).ok_or(0),
    maperr: |t: R<Self>, _| t,
    run: |t: &R<Self>, e: Tok, how: usize| {
        match how % 2 {
            0 => t.run_reader(e).out().map_err(|e| (e, vec![])),
            _ => t.clone().unwrap_with(e).out().map_err(|e| (e, vec![])),
        }
    });

const PURE: u32 = 900_000;
fn build_t<M: Base>(p: &P, var: i64) -> R<M> {
    match p {
        P::Pure(c) => R::<M>::pure(Tok::new(*c), keep1(M::ok)),
        P::Var => R::<M>::pure(Tok::new(var), keep1(M::ok)),
        P::Ask => R::<M>::ask(keep1(M::ok)),
        P::New(n) => {
            let f = step1(*n);
            R::<M>::new(move |e| M::ok(f(e)))
        }
        P::Asks(n) | P::AskTransform(n) => R::<M>::asks(step1(*n), keep1(M::ok)),
        P::AskWith(n) => {
            let (n, g) = (*n, step1(*n + 1));
            R::<M>::ask_with(
                move |e: &Tok| {
                    fx::effect(n, e.val());
                    e.clone()
                },
                move |a| M::ok(g(a)),
            )
        }
        P::AsksWith(n) => {
            let (n, g) = (*n, step1(*n + 1));
            R::<M>::asks_with(
                move |e: &Tok| {
                    fx::effect(n, e.val());
                    e.clone()
                },
                g,
                keep1(M::ok),
            )
        }
        P::Fmap(q, f, with) => M::fmap(&build_t(q, var), step1(*f), *with),
        P::Bind(q, f, k, with) => {
            let (f, k, g) = (*f, k.clone(), Tok::new(0));
            M::bind(
                &build_t(q, var),
                move |a: Tok| {
                    let _ = g.val();
                    fx::effect(f, a.val());
                    build_t(&k, mix(f, a.val()))
                },
                *with,
            )
        }
        P::Local(q, f) => build_t::<M>(q, var).local(step1(*f)),
        P::Combine(a, b, f, how) => M::combine(&build_t(a, var), &build_t(b, var), step2(*f), *how),
        P::Apply(a, n, f) => M::apply(&build_t(a, var), &build_t(f, var), *n),
        P::Nested(q, n) => {
            let (n, q) = (*n, build_t::<M>(q, var));
            R::<M>::new(move |e: Tok| {
                fx::effect(n, e.val());
                q.run_reader(e.with(mix(n, e.val()))).map(&|a| a.with(mix2(n, a.val(), e.val())))
            })
        }
        P::Lift(c, true) if c % 3 == 0 => R::<M>::pure(
            Tok::new(*c),
            keep1(|a: Tok| {
                fx::effect(PURE, a.val());
                M::ok(a)
            }),
        ),
        P::Lift(c, ok) => if *ok { M::ok(Tok::new(*c)) } else { M::err(*c) }.lift(),
        P::Fail(n) => {
            let n = *n;
            R::<M>::new(move |e: Tok| {
                fx::effect(n, e.val());
                if step_fails(n) { M::err(n as i64) } else { M::ok(e.with(mix(n, e.val()))) }
            })
        }
        P::MapErr(q, n) => M::map_err(build_t(q, var), *n),
        P::Conv(q) => build_t(q, var),
        P::Dup(q, f, true) => {
            let x = build_t::<M>(q, var);
            M::combine(&x, &x, step2(*f), (*f % 3) as u8)
        }
        P::Dup(q, f, false) => {
            let (f, x, g) = (*f, build_t::<M>(q, var), Tok::new(0));
            let y = x.clone();
            M::bind(
                &x,
                move |a: Tok| {
                    let _ = g.val();
                    fx::effect(f, a.val());
                    M::fmap(
                        &y,
                        move |b: Tok| {
                            fx::effect(f + 1, b.val());
                            a.with(mix2(f, a.val(), b.val()))
                        },
                        false,
                    )
                },
                false,
            )
        }
    }
}

/// Outer Err: the step that panics; inner Err: the base monad's failure.
fn eval(p: &P, opt: bool, var: i64, e: i64, r: &mut Rec) -> Result<Result<i64, i64>, u32> {
    let mut one = |n: u32, a: i64| r.call(n, a).map(|()| Ok(mix(n, a)));
    Ok(match p {
        P::Pure(c) => Ok(*c),
        P::Var => Ok(var),
        P::Ask => Ok(e),
        P::New(n) | P::Asks(n) | P::AskTransform(n) => return one(*n, e),
        P::AskWith(n) | P::AsksWith(n) => {
            let _ = one(*n, e)?;
            return one(*n + 1, e);
        }
        P::Fmap(q, f, _) => match eval(q, opt, var, e, r)? {
            Ok(a) => {
                r.call(*f, a)?;
                Ok(mix(*f, a))
            }
            x => x,
        },
        P::Bind(q, f, k, _) => match eval(q, opt, var, e, r)? {
            Ok(a) => {
                r.call(*f, a)?;
                eval(k, opt, mix(*f, a), e, r)?
            }
            x => x,
        },
        P::Local(q, f) => {
            r.call(*f, e)?;
            eval(q, opt, var, mix(*f, e), r)?
        }
        P::Combine(a, b, f, _) => {
            let a = eval(a, opt, var, e, r)?;
            let b = eval(b, opt, var, e, r)?;
            match (a, b) {
                (Ok(a), Ok(b)) => {
                    r.call(*f, a)?;
                    Ok(mix2(*f, a, b))
                }
                (Err(e), _) | (_, Err(e)) => Err(e),
            }
        }
        P::Apply(a, n, f) => {
            let a = eval(a, opt, var, e, r)?;
            let f = eval(f, opt, var, e, r)?;
            r.call(*n, 0)?;
            match (a, f) {
                (Ok(a), Ok(f)) => {
                    r.call(*n + 1, a)?;
                    Ok(mix2(*n, a, f))
                }
                (Err(e), _) | (_, Err(e)) => Err(e),
            }
        }
        P::Nested(q, n) => {
            r.call(*n, e)?;
            eval(q, opt, var, mix(*n, e), r)?.map(|a| mix2(*n, a, e))
        }
        P::Conv(q) => eval(q, opt, var, e, r)?,
        P::Dup(q, f, true) => eval(&P::Combine(q.clone(), q.clone(), *f, 0), opt, var, e, r)?,
        P::Dup(q, f, false) => match eval(q, opt, var, e, r)? {
            Ok(a) => {
                r.call(*f, a)?;
                match eval(q, opt, var, e, r)? {
                    Ok(b) => {
                        r.call(*f + 1, b)?;
                        Ok(mix2(*f, a, b))
                    }
                    x => x,
                }
            }
            x => x,
        },
        P::Lift(c, ok) => {
            if *ok {
                if c % 3 == 0 {
                    r.call(PURE, *c)?;
                }
                Ok(*c)
            } else {
                Err(if opt { 0 } else { *c })
            }
        }
        P::Fail(n) => {
            r.call(*n, e)?;
            if fails(r.run, *n) { Err(if opt { 0 } else { *n as i64 }) } else { Ok(mix(*n, e)) }
        }
        P::MapErr(q, n) => match eval(q, opt, var, e, r)? {
            Err(x) if !opt => {
                r.call(*n, x)?;
                Err(x + 1000)
            }
            x => x,
        },
    })
}

pub fn reader(strict: bool) {
    let mut g = Gen::default();
    let p = g.draw(false, wr(1, 5), false);
    describe(&format!("Reader {p:?}"));
    if too_long(|r| drop(eval(&p, false, 5, 1, r))) {
        return;
    }
    let (p1, p2) = (p.clone(), p);
    drive(&g.keys, &[], 1, strict, move || build(&p1, 5), |t| t.clone(), move |t, run| {
        let mut rec = Rec::new(run.id);
        let want = eval(&p2, false, 5, run.arg, &mut rec).map(|r| r.unwrap());
        let e = Tok::new(run.arg);
        let got = catch(|| t.run_reader(e)).map(|a| a.val());
        judge("Reader", run, Ref { log: rec.log, res: want }, got);
    });
}
fn over<M: Base>(strict: bool) {
    let mut g = Gen::default();
    let p = g.draw(true, wr(1, 4), false);
    describe(&format!("ReaderT over {} {p:?}", if M::OPT { "Option" } else { "Result" }));
    if too_long(|r| drop(eval(&p, M::OPT, 5, 1, r))) {
        return;
    }
    let (p1, p2) = (p.clone(), p);
    drive(&g.keys, &g.errs, 4, strict, move || build_t::<M>(&p1, 5), |t| t.clone(), move |t, run: &Run| {
        let mut rec = Rec::new(run.id);
        let ctx: Vec<String> = if !M::OPT && run.how == 3 { vec!["outer".into()] } else { vec![] };
        let want = eval(&p2, M::OPT, 5, run.arg, &mut rec).map(|r| r.map_err(|e| (e, ctx)));
        let e = Tok::new(run.arg);
        let got = catch(|| M::run(t, e, run.how));
        judge("ReaderT", run, Ref { log: rec.log, res: want }, got);
    });
}
pub fn reader_t(strict: bool) {
    if wchance(2, 3) { over::<Result<Tok, Tok>>(strict) } else { over::<Option<Tok>>(strict) }
}

pub fn register(s: &mut Vec<Scenario>, i: &mut Vec<Info>) {
    s.push(Scenario { prop: "C18", name: "reader", gap_max: 500, faults: F_OWN, weight: 1, run: || reader(false) });
    s.push(Scenario { prop: "C18", name: "reader-t", gap_max: 500, faults: F_OWN, weight: 1, run: || reader_t(false) });
    s.push(Scenario { prop: "C16", name: "reader", gap_max: 500, faults: F_OWN, weight: 1, run: || reader(true) });
    s.push(Scenario { prop: "C16", name: "reader-t", gap_max: 500, faults: F_OWN, weight: 1, run: || reader_t(true) });
    i.push(Info {
        prop: "C18",
        rule: "A random Reader program (new, ask, asks, ask_transform, ask_with, fmap, bind, local, combine, nested runs, conversion) or ReaderT program over Result or Option (also the _with forms, lift2, apply_with, lift, pure, map_error) is run 1-3 times by each of 1-3 threads in different environments, shared, cloned or with the original dropped, some runs with panicking or failing steps; the value or failure and the exact sequence of steps with their arguments are compared with a reference interpreter.",
        real: "Reader, ReaderT, the base monads' own bind/fmap/lift2, ComposableError, Arc, threads, unwinding",
        stub: "thread scheduling, futex waits and wakes, clocks; the steps are logging callbacks, the plumbing handed to the *_with forms is the harness's",
        counters: &[],
    });
}
