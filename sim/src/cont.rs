//! Cont and ContT: C19 (and, strictly accounted, C16).
use crate::util::{Rec, Ref, Run, drive, fails, judge, mix, mix2, step_fails};
use rustica::datatypes::cont::Cont;
use rustica::datatypes::id::Id;
use rustica::transformers::{ContT, MonadTransformer};
use simcore::explore::{F_OWN, Info, Scenario};
use simcore::fx;
use simcore::ledger::Tok;
use simcore::*;
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Debug)]
enum P {
    Pure(i64),
    Var,
    /// calls its continuation once, and works on what that gives
    Once(u32, i64),
    /// never calls it
    Never(u32, i64),
    /// calls it several times and joins the results
    Many(u32, i64, usize),
    /// calls it or not, depending on the value at hand
    Maybe(u32, i64),
    Fmap(Box<P>, u32),
    Bind(Box<P>, u32, Box<P>),
    /// argument, function computation
    Apply(Box<P>, u32, Box<P>),
    CallCc(Box<P>, u32, bool),
    /// leaves the n-th enclosing call_cc block with a value made of the bound one
    Escape(usize, u32),
    /// leaves it if the bound value is odd
    EscapeIf(usize, u32),
    Nested(Box<P>, u32),
    Conv(Box<P>),
    /// one computation bound to itself
    Dup(Box<P>, u32),
    // ContT only
    Lift(i64, bool),
    Fail(u32),
}
#[derive(Default)]
struct Gen {
    next: u32,
    keys: Vec<u32>,
    errs: Vec<u32>,
    many: usize,
}
impl Gen {
    fn id(&mut self) -> u32 {
        self.next += 4;
        self.keys.extend([self.next, self.next + 1]);
        self.next
    }
    fn leaf(&mut self, t: bool, blocks: usize, bound: bool) -> P {
        let c = wr(1, 99) as i64;
        if blocks > 0 && wchance(1, 3) {
            let b = w(blocks);
            return if wchance(1, 2) { P::Escape(b, self.id()) } else { P::EscapeIf(b, self.id()) };
        }
        match w(if t { 9 } else { 7 }) {
            0 => P::Once(self.id(), c),
            1 => P::Pure(c),
            2 if self.many < 3 => {
                self.many += 1;
                P::Many(self.id(), c, wr(2, 3))
            }
            3 => P::Never(self.id(), c),
            4 => P::Maybe(self.id(), c),
            5 if bound => P::Var,
            7 => {
                let i = self.id();
                self.errs.push(i);
                P::Fail(i)
            }
            8 => P::Lift(c, wchance(3, 4)),
            _ => P::Once(self.id(), c),
        }
    }
    fn draw(&mut self, t: bool, d: usize, blocks: usize, bound: bool) -> P {
        if d == 0 || wchance(1, 8) {
            return self.leaf(t, blocks, bound);
        }
        let d = d - 1;
        match w(9) {
            0 => P::Fmap(Box::new(self.draw(t, d, blocks, bound)), self.id()),
            1 | 2 => {
                let a = Box::new(self.draw(t, d, blocks, bound));
                P::Bind(a, self.id(), Box::new(self.draw(t, d, blocks, true)))
            }
            3 => {
                let a = Box::new(self.draw(t, d, blocks, bound));
                P::Apply(a, self.id(), Box::new(self.draw(t, d, blocks, bound)))
            }
            4 | 5 => P::CallCc(Box::new(self.draw(t, d, blocks + 1, bound)), self.id(), wchance(1, 2)),
            7 => P::Dup(Box::new(self.draw(t, d.min(2), blocks, bound)), self.id()),
            6 => {
                if wchance(1, 2) {
                    P::Nested(Box::new(self.draw(t, d.min(2), 0, bound)), self.id())
                } else {
                    P::Conv(Box::new(self.draw(t, d, blocks, bound)))
                }
            }
            _ => {
                let mixed = wchance(1, 2);
                let n = crate::util::size(2, 4, 60);
                let mut p = self.leaf(t, blocks, bound || mixed);
                for i in 0..n {
                    let (l, k) = (self.leaf(t, blocks, true), self.id());
                    p = match if mixed { w(4) } else { 0 } {
                        0 | 1 => P::Bind(Box::new(p), k, Box::new(l)),
                        // deeper on the right, as a recursive function builds it
                        2 if i < 120 => P::Bind(Box::new(l), k, Box::new(p)),
                        _ => P::Fmap(Box::new(p), k),
                    };
                }
                if mixed && !bound { P::Bind(Box::new(self.leaf(t, blocks, false)), self.id(), Box::new(p)) } else { p }
            }
        }
    }
}

/// The answer types: Id (that is, Cont itself) or Result.
trait Base: Clone + Send + Sync + 'static {
    const ID: bool;
    fn ok(r: Tok) -> Self;
    fn err(e: i64) -> Self;
    fn map(self, f: &dyn Fn(Tok) -> Tok) -> Self;
    fn then(self, f: &dyn Fn(Tok) -> Self) -> Self;
    fn out(self) -> Result<i64, i64>;
    fn lift(self) -> C<Self>;
}
type C<M> = ContT<Tok, M, Tok>;
type K<M> = Arc<dyn Fn(Tok) -> C<M> + Send + Sync>;
impl Base for Id<Tok> {
    const ID: bool = true;
    fn ok(r: Tok) -> Self {
        Id::new(r)
    }
    fn err(e: i64) -> Self {
        Id::new(Tok::new(e))
    }
    fn map(self, f: &dyn Fn(Tok) -> Tok) -> Self {
        Id::new(f(self.unwrap()))
    }
    fn then(self, f: &dyn Fn(Tok) -> Self) -> Self {
        f(self.unwrap())
    }
    fn out(self) -> Result<i64, i64> {
        Ok(self.unwrap().val())
    }
    fn lift(self) -> C<Self> {
        <C<Self> as MonadTransformer>::lift(self)
    }
}
impl Base for Result<Tok, Tok> {
    const ID: bool = false;
    fn ok(r: Tok) -> Self {
        Ok(r)
    }
    fn err(e: i64) -> Self {
        Err(Tok::new(e))
    }
    fn map(self, f: &dyn Fn(Tok) -> Tok) -> Self {
        Result::map(self, f)
    }
    fn then(self, f: &dyn Fn(Tok) -> Self) -> Self {
        self.and_then(f)
    }
    fn out(self) -> Result<i64, i64> {
        self.map(|t| t.val()).map_err(|t| t.val())
    }
    fn lift(self) -> C<Self> {
        <C<Self> as MonadTransformer>::lift(self)
    }
}

fn build_t<M: Base>(p: &P, var: i64, esc: &[K<M>]) -> C<M> {
    match p {
        P::Pure(c) => C::<M>::pure(Tok::new(*c)),
        P::Var => C::<M>::pure(Tok::new(var)),
        P::Once(n, c) => {
            let (n, c, g) = (*n, *c, Tok::new(0));
            C::<M>::new(move |k| {
                let _ = g.val();
                fx::effect(n, var);
                k(Tok::new(c)).map(&|r| {
                    fx::effect(n + 1, r.val());
                    r.with(mix(n, r.val()))
                })
            })
        }
        P::Never(n, c) => {
            let (n, c) = (*n, *c);
            C::<M>::new(move |_| {
                fx::effect(n, var);
                M::ok(Tok::new(c))
            })
        }
        P::Maybe(n, c) => {
            let (n, c) = (*n, *c);
            C::<M>::new(move |k| {
                fx::effect(n, var);
                if (var + c) % 3 == 0 { M::ok(Tok::new(c)) } else { k(Tok::new(c)) }
            })
        }
        P::Many(n, c, times) => {
            let (n, c, times) = (*n, *c, *times);
            C::<M>::new(move |k| {
                fx::effect(n, var);
                let mut r = k(Tok::new(c));
                for i in 1..times as i64 {
                    r = r.then(&|a: Tok| k(Tok::new(c + i)).map(&|b| a.with(mix2(n, a.val(), b.val()))));
                }
                r
            })
        }
        P::Fmap(q, f) => {
            let (f, g) = (*f, Tok::new(0));
            build_t::<M>(q, var, esc).fmap(move |a: Tok| {
                let _ = g.val();
                fx::effect(f, a.val());
                a.with(mix(f, a.val()))
            })
        }
        P::Bind(q, f, k) => {
            let (f, k, g, esc2) = (*f, k.clone(), Tok::new(0), esc.to_vec());
            build_t::<M>(q, var, esc).bind(move |a: Tok| {
                let _ = g.val();
                fx::effect(f, a.val());
                build_t::<M>(&k, mix(f, a.val()), &esc2)
            })
        }
        P::Apply(v, f, ff) => {
            let f = *f;
            let cf = build_t::<M>(ff, var, esc).fmap(move |b: Tok| -> Arc<dyn Fn(Tok) -> Tok + Send + Sync> {
                fx::effect(f, b.val());
                Arc::new(move |a: Tok| {
                    fx::effect(f + 1, a.val());
                    a.with(mix2(f, a.val(), b.val()))
                })
            });
            build_t::<M>(v, var, esc).apply(cf)
        }
        P::CallCc(q, n, _) => {
            let (n, q, esc) = (*n, q.clone(), esc.to_vec());
            ContT::call_cc(move |k: K<M>| {
                fx::effect(n, var);
                let mut esc = esc.clone();
                esc.push(k);
                build_t::<M>(&q, var, &esc)
            })
        }
        P::Escape(b, n) => esc[*b](Tok::new(mix(*n, var))),
        P::EscapeIf(b, n) => {
            if var % 2 == 1 {
                esc[*b](Tok::new(mix(*n, var)))
            } else {
                C::<M>::pure(Tok::new(mix(*n + 1, var)))
            }
        }
        P::Nested(q, n) => {
            let (n, q) = (*n, build_t::<M>(q, var, &[]));
            C::<M>::new(move |k| {
                fx::effect(n, var);
                q.run(move |a: Tok| {
                    fx::effect(n + 1, a.val());
                    M::ok(a.with(mix(n, a.val())))
                })
                .then(&|r| k(r))
            })
        }
        P::Conv(q) => build_t::<M>(q, var, esc),
        P::Dup(q, f) => {
            let (f, x) = (*f, build_t::<M>(q, var, esc));
            x.clone().bind(move |a: Tok| {
                fx::effect(f, a.val());
                x.clone().fmap(move |b: Tok| {
                    fx::effect(f + 1, b.val());
                    a.with(mix2(f, a.val(), b.val()))
                })
            })
        }
        P::Lift(c, ok) => if *ok { M::ok(Tok::new(*c)) } else { M::err(*c) }.lift(),
        P::Fail(n) => {
            let n = *n;
            C::<M>::new(move |k| {
                fx::effect(n, var);
                if step_fails(n) { M::err(n as i64) } else { k(Tok::new(n as i64)) }
            })
        }
    }
}

type Ct = Cont<Tok, Tok>;
type Kc = Arc<dyn Fn(Tok) -> Ct + Send + Sync>;
/// `p` lives as long as the process: call_cc's block function has to be Copy.
fn build_c(p: &'static P, var: i64, esc: &[Kc]) -> Ct {
    match p {
        P::Pure(c) => Cont::pure(Tok::new(*c)),
        P::Var => Cont::return_cont(Tok::new(var)),
        P::Once(n, c) => {
            let (n, c, g) = (*n, *c, Tok::new(0));
            Cont::new(move |k: Arc<dyn Fn(Tok) -> Tok + Send + Sync>| {
                let _ = g.val();
                fx::effect(n, var);
                let r = k(Tok::new(c));
                fx::effect(n + 1, r.val());
                r.with(mix(n, r.val()))
            })
        }
        P::Never(n, c) => {
            let (n, c) = (*n, *c);
            Cont::new(move |_| {
                fx::effect(n, var);
                Tok::new(c)
            })
        }
        P::Maybe(n, c) => {
            let (n, c) = (*n, *c);
            Cont::new(move |k: Arc<dyn Fn(Tok) -> Tok + Send + Sync>| {
                fx::effect(n, var);
                if (var + c) % 3 == 0 { Tok::new(c) } else { k(Tok::new(c)) }
            })
        }
        P::Many(n, c, times) => {
            let (n, c, times) = (*n, *c, *times);
            Cont::new(move |k: Arc<dyn Fn(Tok) -> Tok + Send + Sync>| {
                fx::effect(n, var);
                let mut r = k(Tok::new(c));
                for i in 1..times as i64 {
                    let b = k(Tok::new(c + i));
                    r = r.with(mix2(n, r.val(), b.val()));
                }
                r
            })
        }
        P::Fmap(q, f) => {
            let (f, g) = (*f, Tok::new(0));
            build_c(q, var, esc).fmap(move |a: Tok| {
                let _ = g.val();
                fx::effect(f, a.val());
                a.with(mix(f, a.val()))
            })
        }
        P::Bind(q, f, k) => {
            let (f, g, esc2) = (*f, Tok::new(0), esc.to_vec());
            build_c(q, var, esc).bind(move |a: Tok| {
                let _ = g.val();
                fx::effect(f, a.val());
                build_c(k, mix(f, a.val()), &esc2)
            })
        }
        P::Apply(v, f, ff) => {
            let f = *f;
            let cf = build_c(ff, var, esc).fmap(move |b: Tok| -> Arc<dyn Fn(Tok) -> Tok + Send + Sync> {
                fx::effect(f, b.val());
                Arc::new(move |a: Tok| {
                    fx::effect(f + 1, a.val());
                    a.with(mix2(f, a.val(), b.val()))
                })
            });
            build_c(v, var, esc).apply(cf)
        }
        P::CallCc(q, n, method) => {
            let n = *n;
            if *method && esc.is_empty() {
                // what it is called on plays no part
                Cont::pure(Tok::new(0)).call_cc(move |k: Box<dyn Fn(Tok) -> Ct + Send + Sync>| {
                    fx::effect(n, var);
                    build_c(q, var, &[Arc::new(move |t| k(t))])
                })
            } else {
                let esc = esc.to_vec();
                Cont::from(ContT::call_cc(move |k: K<Id<Tok>>| {
                    fx::effect(n, var);
                    let mut esc = esc.clone();
                    esc.push(Arc::new(move |t| Cont::from(k(t))));
                    build_c(q, var, &esc).inner
                }))
            }
        }
        P::Escape(b, n) => esc[*b](Tok::new(mix(*n, var))),
        P::EscapeIf(b, n) => {
            if var % 2 == 1 {
                esc[*b](Tok::new(mix(*n, var)))
            } else {
                Cont::pure(Tok::new(mix(*n + 1, var)))
            }
        }
        P::Nested(q, n) => {
            let (n, q) = (*n, build_c(q, var, &[]));
            Cont::new(move |k: Arc<dyn Fn(Tok) -> Tok + Send + Sync>| {
                fx::effect(n, var);
                let r = q.run(move |a: Tok| {
                    fx::effect(n + 1, a.val());
                    a.with(mix(n, a.val()))
                });
                k(r)
            })
        }
        P::Conv(q) => ContT::from_cont(build_c(q, var, esc)).to_cont(),
        P::Dup(q, f) => {
            let (f, x) = (*f, build_c(q, var, esc));
            x.clone().bind(move |a: Tok| {
                fx::effect(f, a.val());
                x.clone().fmap(move |b: Tok| {
                    fx::effect(f + 1, b.val());
                    a.with(mix2(f, a.val(), b.val()))
                })
            })
        }
        P::Lift(..) | P::Fail(..) => unreachable!(),
    }
}

/// Outer Err: the step that panics; inner Err: the base monad's failure.
type Res = Result<Result<i64, i64>, u32>;
type Ke = Rc<dyn Fn(i64, &mut Rec) -> Res>;
fn eval(p: &'static P, var: i64, esc: &[Ke], k: Ke, r: &mut Rec) -> Res {
    match p {
        P::Pure(c) => k(*c, r),
        P::Var => k(var, r),
        P::Once(n, c) => {
            r.call(*n, var)?;
            match k(*c, r)? {
                Ok(x) => {
                    r.call(*n + 1, x)?;
                    Ok(Ok(mix(*n, x)))
                }
                e => Ok(e),
            }
        }
        P::Never(n, c) => {
            r.call(*n, var)?;
            Ok(Ok(*c))
        }
        P::Maybe(n, c) => {
            r.call(*n, var)?;
            if (var + c) % 3 == 0 { Ok(Ok(*c)) } else { k(*c, r) }
        }
        P::Many(n, c, times) => {
            r.call(*n, var)?;
            let mut x = match k(*c, r)? {
                Ok(x) => x,
                e => return Ok(e),
            };
            for i in 1..*times as i64 {
                match k(c + i, r)? {
                    Ok(b) => x = mix2(*n, x, b),
                    e => return Ok(e),
                }
            }
            Ok(Ok(x))
        }
        P::Fmap(q, f) => eval(
            q,
            var,
            esc,
            Rc::new(move |a, r: &mut Rec| {
                r.call(*f, a)?;
                k(mix(*f, a), r)
            }),
            r,
        ),
        P::Bind(q, f, then) => {
            let esc2 = esc.to_vec();
            eval(
                q,
                var,
                esc,
                Rc::new(move |a, r: &mut Rec| {
                    r.call(*f, a)?;
                    eval(then, mix(*f, a), &esc2, k.clone(), r)
                }),
                r,
            )
        }
        P::Apply(v, f, ff) => {
            let esc2 = esc.to_vec();
            eval(
                ff,
                var,
                esc,
                Rc::new(move |b, r: &mut Rec| {
                    r.call(*f, b)?;
                    let k = k.clone();
                    eval(
                        v,
                        var,
                        &esc2,
                        Rc::new(move |a, r: &mut Rec| {
                            r.call(*f + 1, a)?;
                            k(mix2(*f, a, b), r)
                        }),
                        r,
                    )
                }),
                r,
            )
        }
        P::CallCc(q, n, _) => {
            r.call(*n, var)?;
            let mut esc = esc.to_vec();
            esc.push(k.clone());
            eval(q, var, &esc, k, r)
        }
        P::Escape(b, n) => esc[*b].clone()(mix(*n, var), r),
        P::EscapeIf(b, n) => {
            if var % 2 == 1 { esc[*b].clone()(mix(*n, var), r) } else { k(mix(*n + 1, var), r) }
        }
        P::Nested(q, n) => {
            r.call(*n, var)?;
            let x = eval(
                q,
                var,
                &[],
                Rc::new(move |a, r: &mut Rec| {
                    r.call(*n + 1, a)?;
                    Ok(Ok(mix(*n, a)))
                }),
                r,
            )?;
            match x {
                Ok(x) => k(x, r),
                e => Ok(e),
            }
        }
        P::Conv(q) => eval(q, var, esc, k, r),
        P::Dup(q, f) => {
            let esc2 = esc.to_vec();
            eval(
                q,
                var,
                esc,
                Rc::new(move |a, r: &mut Rec| {
                    r.call(*f, a)?;
                    let k = k.clone();
                    eval(
                        q,
                        var,
                        &esc2,
                        Rc::new(move |b, r: &mut Rec| {
                            r.call(*f + 1, b)?;
                            k(mix2(*f, a, b), r)
                        }),
                        r,
                    )
                }),
                r,
            )
        }
        P::Lift(c, ok) => Ok(if *ok { Ok(*c) } else { Err(*c) }),
        P::Fail(n) => {
            r.call(*n, var)?;
            if fails(r.run, *n) { Ok(Err(*n as i64)) } else { k(*n as i64, r) }
        }
    }
}

const FINAL: u32 = 2;
const VAR: i64 = 5;
fn reference(p: &'static P, run: &Run) -> Ref<Result<i64, i64>> {
    let mut rec = Rec::new(run.id);
    let arg = run.arg;
    let how = run.how;
    let res = eval(
        p,
        VAR,
        &[],
        Rc::new(move |a, r: &mut Rec| {
            r.call(FINAL, a)?;
            Ok(if how == 1 && a % 4 == 0 { Err(a) } else { Ok(mix2(FINAL, a, arg)) })
        }),
        &mut rec,
    );
    Ref { log: rec.log, res }
}
fn prepare(t: bool, gen_depth: usize, what: &str) -> (&'static P, Gen) {
    let mut g = Gen::default();
    g.keys.push(FINAL);
    let p = g.draw(t, gen_depth, 0, false);
    describe(&format!("{what} {p:?}"));
    (Box::leak(Box::new(p)), g)
}
/// Programs whose continuations multiply too much are left alone.
fn too_long(p: &'static P) -> bool {
    crate::util::reset();
    reference(p, &Run { id: 100, arg: 1, how: 0 }).log.len() > 1500
}

pub fn cont(strict: bool) {
    let (p, g) = prepare(false, wr(1, 5), "Cont");
    if too_long(p) {
        return;
    }
    drive(&g.keys, &[], 1, strict, move || build_c(p, VAR, &[]), |t| t.clone(), move |t, run| {
        let want = reference(p, run);
        let arg = Tok::new(run.arg);
        let got = catch(|| {
            t.run(move |a: Tok| {
                fx::effect(FINAL, a.val());
                a.with(mix2(FINAL, a.val(), arg.val()))
            })
        })
        .map(|r| Ok(r.val()));
        judge("Cont", run, want, got);
    });
}
fn over<M: Base>(strict: bool) {
    let (p, g) = prepare(!M::ID, wr(1, 4), if M::ID { "ContT over Id" } else { "ContT over Result" });
    if too_long(p) {
        return;
    }
    drive(&g.keys, &g.errs, if M::ID { 1 } else { 2 }, strict, move || build_t::<M>(p, VAR, &[]), |t| t.clone(), move |t, run| {
        let want = reference(p, run);
        let (arg, how) = (Tok::new(run.arg), run.how);
        let got = catch(|| {
            t.run(move |a: Tok| {
                fx::effect(FINAL, a.val());
                if how == 1 && a.val() % 4 == 0 { M::err(a.val()) } else { M::ok(a.with(mix2(FINAL, a.val(), arg.val()))) }
            })
        })
        .map(|m| m.out());
        judge("ContT", run, want, got);
    });
}
pub fn cont_t(strict: bool) {
    if wchance(1, 3) { over::<Id<Tok>>(strict) } else { over::<Result<Tok, Tok>>(strict) }
}

pub fn register(s: &mut Vec<Scenario>, i: &mut Vec<Info>) {
    s.push(Scenario { prop: "C19", name: "cont", gap_max: 500, faults: F_OWN, weight: 1, run: || cont(false) });
    s.push(Scenario { prop: "C19", name: "cont-t", gap_max: 500, faults: F_OWN, weight: 1, run: || cont_t(false) });
    s.push(Scenario { prop: "C16", name: "cont", gap_max: 500, faults: F_OWN, weight: 1, run: || cont(true) });
    s.push(Scenario { prop: "C16", name: "cont-t", gap_max: 500, faults: F_OWN, weight: 1, run: || cont_t(true) });
    i.push(Info {
        prop: "C19",
        rule: "A random Cont program (new with steps that call their continuation once, never, several times or conditionally, pure, fmap, bind, apply, nested call_cc blocks with escapes to any enclosing block, nested runs, conversions) or ContT program over Id or Result (also lift and failing steps) is run 1-3 times by each of 1-3 threads with different final continuations, shared, cloned or with the original dropped, some runs with panicking or failing steps; the answer and the exact sequence of steps and continuation entries are compared with a continuation-passing reference interpreter.",
        real: "Cont, ContT, Id, Arc, threads, unwinding",
        stub: "thread scheduling, futex waits and wakes, clocks; the steps and continuations are logging callbacks",
        counters: &[],
    });
}
