//! AsyncM: C04 laziness and order, C05 concurrency of operands, C06 cancellation, C07 failures.
use crate::util::{Want, check_run, mix, mix2};
use rustica::datatypes::async_monad::AsyncM;
use simcore::exec::{self, Leaf, LeafHooks, Outcome, Step};
use simcore::explore::{F_OWN, Info, Scenario};
use simcore::fx::{self, Key, Sp};
use simcore::ledger::{self, Tok};
use simcore::*;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use std::time::Duration;

pub type Am = AsyncM<Tok>;

const MAKE: u32 = 0;
const START: u32 = 1;
const FINISH: u32 = 2;
const CALL: u32 = 3;
const APP: u32 = 4;
const ERR: u32 = 5;
fn key(n: u32, k: u32) -> Key {
    n * 8 + k
}

#[derive(Clone, Debug)]
pub struct L {
    n: u32,
    plan: Vec<Step>,
}
#[derive(Clone, Debug)]
pub enum P {
    Pure(i64),
    Var,
    New(L, i64),
    Fmap(Box<P>, L, bool),
    Bind(Box<P>, L, Box<P>, bool),
    /// value, how the function comes (0 pure, 1 new, 2 fmapped), its leaf, owned
    Apply(Box<P>, u8, L, bool),
    Zip(Box<P>, Box<P>, L),
    ZipWith(Box<P>, Box<P>, L),
    Recover(Box<P>, i64),
    FromResult(L, i64, i64),
    /// The same part twice: zipped, zipped with a function, bound to itself.
    Dup(Box<P>, L, u8),
}
pub struct Gen {
    next: u32,
    gates: usize,
    par: bool,
    rec: bool,
    rendezvous: bool,
}
impl Gen {
    fn leaf(&mut self) -> L {
        self.next += 1;
        L { n: self.next, plan: exec::draw_plan(2) }
    }
    fn draw(&mut self, depth: usize, bound: bool) -> P {
        let c = wr(1, 99) as i64;
        if depth == 0 || wchance(1, 7) {
            return match w(6) {
                1 => P::Pure(c),
                2 if bound => P::Var,
                3 => P::FromResult(self.leaf(), c, c + 300),
                _ => P::New(self.leaf(), c),
            };
        }
        let d = depth - 1;
        let mut n = 5;
        let choice = {
            if self.par {
                n += 4
            }
            let m = n + if self.rec { 3 } else { 0 };
            let x = w(m);
            if x >= n { 100 } else { x }
        };
        match choice {
            0 => P::Fmap(Box::new(self.draw(d, bound)), self.leaf(), wchance(1, 2)),
            1 | 2 => {
                let p = Box::new(self.draw(d, bound));
                P::Bind(p, self.leaf(), Box::new(self.draw(d, true)), wchance(1, 2))
            }
            3 if wchance(1, 10) => {
                let right = wchance(1, 2);
                let b = bound || right;
                let mut p = self.draw(0, b);
                // few joins: each one deep in the chain is polled again on every wake
                let mut joins = 0;
                for _ in 0..wr(8, 40) {
                    let (l, own) = (self.leaf(), wchance(1, 2));
                    let arm = w(12);
                    joins += (arm < 3) as u32;
                    let par = self.par && joins <= 3;
                    p = match arm {
                        0 if par => P::Zip(Box::new(p), Box::new(self.draw(0, b)), l),
                        1 if par => P::ZipWith(Box::new(self.draw(0, b)), Box::new(p), l),
                        2 if par => P::Apply(Box::new(p), w(3) as u8, l, own),
                        3 if self.rec => P::Recover(Box::new(p), 7),
                        4 | 5 if right => P::Bind(Box::new(self.draw(0, true)), l, Box::new(p), own),
                        6..9 => P::Bind(Box::new(p), l, Box::new(self.draw(0, true)), own),
                        _ => P::Fmap(Box::new(p), l, own),
                    };
                }
                if right && !bound { P::Bind(Box::new(self.draw(0, false)), self.leaf(), Box::new(p), true) } else { p }
            }
            3 => {
                let l = self.leaf();
                P::Fmap(Box::new(P::Bind(Box::new(self.draw(d, bound)), self.leaf(), Box::new(P::Var), wchance(1, 2))), l, wchance(1, 2))
            }
            4 => P::Dup(Box::new(self.draw(d, bound)), self.leaf(), if self.par { w(3) as u8 } else { 2 }),
            5 => {
                let mut v = self.draw(d, bound);
                let mut l = self.leaf();
                let how = w(3) as u8;
                if how > 0 {
                    self.meet_leaf(&mut v, &mut l);
                }
                P::Apply(Box::new(v), how, l, wchance(1, 2))
            }
            6 | 7 => {
                let mut a = self.draw(d, bound);
                let mut b = self.draw(d, bound);
                self.meet(&mut a, &mut b);
                if wchance(1, 2) { P::Zip(Box::new(a), Box::new(b), self.leaf()) } else { P::ZipWith(Box::new(a), Box::new(b), self.leaf()) }
            }
            8 => {
                let mut v = P::New(self.leaf(), c);
                let mut l = self.leaf();
                self.meet_leaf(&mut v, &mut l);
                P::Apply(Box::new(v), 1 + w(2) as u8, l, wchance(1, 2))
            }
            _ => P::Recover(Box::new(self.draw(d, bound)), c + 200),
        }
    }
    /// The two sides wait for each other: neither may be held back until the other is done.
    fn meet(&mut self, a: &mut P, b: &mut P) {
        if !self.rendezvous || !wchance(2, 3) {
            return;
        }
        if wchance(1, 4) {
            if wchance(1, 2) { self.peers(leaves(a), leaves(b)) } else { self.peers(leaves(b), leaves(a)) }
        }
        let g = self.gates;
        let (mut la, mut lb) = (leaves(a), leaves(b));
        if la.is_empty() || lb.is_empty() {
            return;
        }
        self.gates += 2;
        let i = w(la.len());
        let j = w(lb.len());
        la[i].plan.extend([Step::Open(g), Step::Gate(g + 1)]);
        lb[j].plan.extend([Step::Open(g + 1), Step::Gate(g)]);
    }
    /// The second side must have been started before the first is polled again and again.
    fn peers(&mut self, mut a: Vec<&mut L>, mut b: Vec<&mut L>) {
        if a.is_empty() || b.is_empty() {
            return;
        }
        let g = self.gates;
        self.gates += 1;
        b[0].plan.insert(0, Step::Open(g));
        let i = if wchance(1, 2) { 0 } else { w(a.len()) };
        let at = w(a[i].plan.len() + 1);
        a[i].plan.insert(at, Step::Peer(g));
    }
    fn meet_leaf(&mut self, a: &mut P, l: &mut L) {
        if !self.rendezvous || !wchance(2, 3) {
            return;
        }
        if wchance(1, 4) {
            if wchance(1, 2) { self.peers(leaves(a), vec![l]) } else { self.peers(vec![l], leaves(a)) }
        }
        let g = self.gates;
        let mut la = leaves(a);
        if la.is_empty() {
            return;
        }
        self.gates += 2;
        let i = w(la.len());
        la[i].plan.extend([Step::Open(g), Step::Gate(g + 1)]);
        l.plan.extend([Step::Open(g + 1), Step::Gate(g)]);
    }
}
fn leaves(p: &mut P) -> Vec<&mut L> {
    match p {
        P::Pure(_) | P::Var => vec![],
        P::New(l, _) | P::FromResult(l, ..) => vec![l],
        P::Fmap(p, l, _) => {
            let mut v = leaves(p);
            v.push(l);
            v
        }
        P::Bind(p, l, k, _) => {
            let mut v = leaves(p);
            v.push(l);
            v.extend(leaves(k));
            v
        }
        P::Apply(p, how, l, _) => {
            let mut v = leaves(p);
            if *how > 0 {
                v.push(l)
            }
            v
        }
        P::Zip(a, b, l) => {
            let mut v = leaves(a);
            v.extend(leaves(b));
            v.push(l);
            v
        }
        P::ZipWith(a, b, _) => {
            let mut v = leaves(a);
            v.extend(leaves(b));
            v
        }
        P::Recover(p, _) => leaves(p),
        P::Dup(p, l, how) => {
            let mut v = leaves(p);
            if *how != 1 {
                v.push(l)
            }
            v
        }
    }
}
/// Whether functions of values known at building time are logged as well.
static LOUD: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn is_pure(p: &P) -> bool {
    if LOUD.load(std::sync::atomic::Ordering::Relaxed) {
        return false;
    }
    match p {
        P::Pure(_) | P::Var => true,
        P::Apply(p, 0, _, _) => is_pure(p),
        P::ZipWith(a, b, _) => is_pure(a) && is_pure(b),
        P::Dup(p, _, 1) => is_pure(p),
        _ => false,
    }
}
fn leaf_keys(l: &L, out: &mut Vec<Key>) {
    out.extend([key(l.n, START), key(l.n, FINISH)]);
}
fn keys(p: &P, out: &mut Vec<Key>) {
    match p {
        P::Pure(_) | P::Var => {}
        P::New(l, _) => {
            out.push(key(l.n, MAKE));
            leaf_keys(l, out)
        }
        P::FromResult(l, ..) => {
            out.push(key(l.n, MAKE));
            leaf_keys(l, out);
            out.push(key(l.n, ERR));
            out.push(key(l.n, ERR));
        }
        P::Fmap(p, l, _) => {
            keys(p, out);
            out.push(key(l.n, CALL));
            leaf_keys(l, out)
        }
        P::Bind(p, l, k, _) => {
            keys(p, out);
            out.push(key(l.n, CALL));
            leaf_keys(l, out);
            keys(k, out)
        }
        P::Apply(p, how, l, _) => {
            keys(p, out);
            if *how > 0 {
                out.push(key(l.n, MAKE));
                leaf_keys(l, out)
            }
            if !is_pure(&P::Apply(p.clone(), *how, l.clone(), false)) {
                out.push(key(l.n, APP))
            }
        }
        P::Zip(a, b, l) => {
            keys(a, out);
            keys(b, out);
            out.push(key(l.n, CALL));
            leaf_keys(l, out)
        }
        P::ZipWith(a, b, l) => {
            keys(a, out);
            keys(b, out);
            if !(is_pure(a) && is_pure(b)) {
                out.push(key(l.n, APP))
            }
        }
        P::Recover(p, _) => keys(p, out),
        P::Dup(q, l, how) => {
            keys(q, out);
            if *how != 1 {
                out.push(key(l.n, CALL));
                leaf_keys(l, out)
            } else if !is_pure(p) {
                out.push(key(l.n, APP))
            }
        }
    }
}

struct Hooks {
    n: u32,
    g: Tok,
}
impl LeafHooks for Hooks {
    fn start(&mut self) {
        let _ = self.g.val();
        fx::effect(key(self.n, START), 0)
    }
    fn finish(&mut self) {
        let _ = self.g.val();
        fx::effect(key(self.n, FINISH), 0)
    }
}
/// Whether leaves wait with tokio's timers, under a real runtime.
static TOKIO: Global<bool> = Global::empty();
/// A scripted leaf, under the simulated executor or under tokio.
enum AnyLeaf {
    Sim(Leaf<Hooks>),
    Tokio(Pin<Box<dyn Future<Output = ()> + Send>>),
}
impl Future for AnyLeaf {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        match self.get_mut() {
            AnyLeaf::Sim(l) => Pin::new(l).poll(cx),
            AnyLeaf::Tokio(f) => {
                let _o = Mode::open();
                f.as_mut().poll(cx)
            }
        }
    }
}
async fn tokio_leaf(plan: Vec<Step>, mut hooks: Hooks) {
    hooks.start();
    for s in plan {
        match s {
            Step::Yield => tokio::task::yield_now().await,
            Step::Event => tokio::time::sleep(Duration::from_millis(1)).await,
            Step::Timer(ns) => tokio::time::sleep(Duration::from_nanos(ns)).await,
            s => Leaf::new(vec![s], exec::NoHooks).await,
        }
    }
    hooks.finish();
}
/// Everything polled inside belongs to the run.
struct InRun<F>(usize, F);
impl<F: Future + Unpin> Future for InRun<F> {
    type Output = F::Output;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        let _m = Mode::sut();
        let me = self.get_mut();
        let before = fx::cur_run();
        fx::enter(me.0);
        let r = Pin::new(&mut me.1).poll(cx);
        fx::enter(before);
        r
    }
}
/// A leaf and what follows it, as an async block or as a future written by hand, which can be
/// polled again after it has panicked.
struct Then<F> {
    leaf: AnyLeaf,
    f: Option<F>,
}
impl<F> Unpin for Then<F> {}
impl<T, F: FnOnce() -> T> Future for Then<F> {
    type Output = T;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        let me = self.get_mut();
        match Pin::new(&mut me.leaf).poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(()) => {
                check!(me.f.is_some(), "polled-after-completion", "a future was polled again after it had completed");
                Poll::Ready((me.f.take().unwrap())())
            }
        }
    }
}
fn then<T: Send, F: FnOnce() -> T + Send>(n: u32, leaf: AnyLeaf, f: F) -> impl Future<Output = T> + Send {
    if n % 3 == 1 {
        futures::future::Either::Left(Then { leaf, f: Some(f) })
    } else {
        futures::future::Either::Right(async move {
            leaf.await;
            f()
        })
    }
}
fn leaf(l: &L) -> AnyLeaf {
    let _q = Mode::quiet();
    let run = fx::cur_run();
    let plan = l
        .plan
        .iter()
        .map(|s| match *s {
            Step::Open(g) => Step::Open(gate(run, g)),
            Step::Gate(g) => Step::Gate(gate(run, g)),
            Step::Peer(g) => Step::Peer(gate(run, g)),
            s => s,
        })
        .collect();
    let hooks = Hooks { n: l.n, g: Tok::new(0) };
    if TOKIO.with(|t| *t) { AnyLeaf::Tokio(Box::pin(tokio_leaf(plan, hooks))) } else { AnyLeaf::Sim(Leaf::new(plan, hooks)) }
}
const MAX_GATES: usize = 64;
fn gate(run: usize, g: usize) -> usize {
    (run % 64) * MAX_GATES + g
}
fn app1(f: u32, silent: bool) -> impl Fn(Tok) -> Tok + Clone + Send + Sync + 'static {
    let g = Tok::new(0);
    move |a: Tok| {
        let _ = g.val();
        if !silent {
            fx::effect(key(f, APP), a.val());
        }
        a.with(mix(f, a.val()))
    }
}

pub fn build(p: &P, env: Option<i64>) -> Am {
    match p {
        P::Pure(c) => AsyncM::pure(Tok::new(*c)),
        P::Var => AsyncM::pure(Tok::new(env.unwrap_or(7))),
        P::New(l, c) => {
            let (l, c, g) = (l.clone(), *c, Tok::new(0));
            AsyncM::new(move || {
                let _ = g.val();
                fx::effect(key(l.n, MAKE), 0);
                let f = leaf(&l);
                then(l.n, f, move || Tok::new(c))
            })
        }
        P::FromResult(l, c, d) => {
            let (l, c, g) = (l.clone(), *c, Tok::new(0));
            AsyncM::from_result_or_default(
                move || {
                    let _ = g.val();
                    fx::effect(key(l.n, MAKE), 0);
                    let f = leaf(&l);
                    let n = l.n;
                    then(l.n, f, move || {
                        if fx::panics(fx::cur_run(), key(n, ERR)) {
                            count_fault(Fault::Error);
                            return Err(Tok::new(-1));
                        }
                        Ok(Tok::new(c))
                    })
                },
                Tok::new(*d),
            )
        }
        P::Fmap(q, l, own) => {
            let (l, g) = (l.clone(), Tok::new(0));
            let f = move |a: Tok| {
                let _ = g.val();
                fx::effect(key(l.n, CALL), a.val());
                let n = l.n;
                let w = leaf(&l);
                then(l.n, w, move || a.with(mix(n, a.val())))
            };
            if *own { build(q, env).fmap_owned(f) } else { build(q, env).fmap(f) }
        }
        P::Bind(q, l, k, own) => {
            let (l, k, g) = (l.clone(), k.clone(), Tok::new(0));
            let f = move |a: Tok| {
                let _ = g.val();
                fx::effect(key(l.n, CALL), a.val());
                let (n, k) = (l.n, k.clone());
                let w = leaf(&l);
                then(l.n, w, move || build(&k, Some(mix(n, a.val()))))
            };
            if *own { build(q, env).bind_owned(f) } else { build(q, env).bind(f) }
        }
        P::Apply(q, how, l, own) => {
            let v = build(q, env);
            let (n, l2, g) = (l.n, l.clone(), Tok::new(0));
            match how {
                0 => {
                    let mf = AsyncM::pure(app1(n, is_pure(q)));
                    if *own { v.apply_owned(mf) } else { v.apply(mf) }
                }
                1 => {
                    let mf = AsyncM::new(move || {
                        let _ = g.val();
                        fx::effect(key(n, MAKE), 0);
                        let w = leaf(&l2);
                        then(n, w, move || app1(n, false))
                    });
                    if *own { v.apply_owned(mf) } else { v.apply(mf) }
                }
                _ => {
                    let mf = AsyncM::pure(Tok::new(n as i64)).fmap(move |_t: Tok| {
                        let _ = g.val();
                        fx::effect(key(n, MAKE), 0);
                        let w = leaf(&l2);
                        then(n, w, move || app1(n, false))
                    });
                    if *own { v.apply_owned(mf) } else { v.apply(mf) }
                }
            }
        }
        P::Zip(a, b, l) => {
            let (l, g) = (l.clone(), Tok::new(0));
            build(a, env).zip(build(b, env)).fmap(move |(a, b): (Tok, Tok)| {
                let _ = g.val();
                fx::effect(key(l.n, CALL), a.val());
                let n = l.n;
                let w = leaf(&l);
                then(l.n, w, move || a.with(mix2(n, a.val(), b.val())))
            })
        }
        P::ZipWith(a, b, l) => {
            let (n, g) = (l.n, Tok::new(0));
            let silent = is_pure(a) && is_pure(b);
            build(a, env).zip_with(build(b, env), move |a: Tok, b: Tok| {
                let _ = g.val();
                if !silent {
                    fx::effect(key(n, APP), a.val());
                }
                a.with(mix2(n, a.val(), b.val()))
            })
        }
        P::Recover(q, d) => build(q, env).recover_with(Tok::new(*d)),
        P::Dup(q, l, how) => {
            let x = build(q, env);
            let (l, g, silent) = (l.clone(), Tok::new(0), is_pure(p));
            let y = x.clone();
            match how {
                0 => x.zip(y).fmap(move |(a, b): (Tok, Tok)| {
                    let _ = g.val();
                    fx::effect(key(l.n, CALL), a.val());
                    let n = l.n;
                    let w = leaf(&l);
                    then(l.n, w, move || a.with(mix2(n, a.val(), b.val())))
                }),
                1 => x.zip_with(y, move |a: Tok, b: Tok| {
                    let _ = g.val();
                    if !silent {
                        fx::effect(key(l.n, APP), a.val());
                    }
                    a.with(mix2(l.n, a.val(), b.val()))
                }),
                _ => x.bind(move |a: Tok| {
                    let _ = g.val();
                    fx::effect(key(l.n, CALL), a.val());
                    let y = y.clone();
                    let w = leaf(&l);
                    then(l.n, w, move || y)
                }),
            }
        }
    }
}

fn eval(p: &P, env: Option<i64>, run: usize) -> (Sp, Want) {
    let chain = |steps: &[(Key, i64)], ok: i64| -> (Sp, Want) {
        let mut v = Vec::new();
        for (k, a) in steps {
            v.push(Sp::E(*k, *a));
            if fx::panics(run, *k) {
                return (Sp::Seq(v), Err(vec![*k]));
            }
        }
        (Sp::Seq(v), Ok(ok))
    };
    let then = |s: Sp, next: (Sp, Want)| (Sp::Seq(vec![s, next.0]), next.1);
    let par = |a: (Sp, Want), b: (Sp, Want)| {
        let sp = Sp::Par(vec![(a.0, a.1.is_err()), (b.0, b.1.is_err())]);
        let r = match (a.1, b.1) {
            (Ok(a), Ok(b)) => Ok((a, b)),
            (a, b) => Err([a.err(), b.err()].into_iter().flatten().flatten().collect::<Vec<Key>>()),
        };
        (sp, r)
    };
    match p {
        P::Pure(c) => (Sp::none(), Ok(*c)),
        P::Var => (Sp::none(), Ok(env.unwrap_or(7))),
        P::New(l, c) => chain(&[(key(l.n, MAKE), 0), (key(l.n, START), 0), (key(l.n, FINISH), 0)], *c),
        P::FromResult(l, c, d) => {
            let v = if fx::panics(run, key(l.n, ERR)) { *d } else { *c };
            chain(&[(key(l.n, MAKE), 0), (key(l.n, START), 0), (key(l.n, FINISH), 0)], v)
        }
        P::Fmap(q, l, _) => match eval(q, env, run) {
            (s, Err(e)) => (s, Err(e)),
            (s, Ok(a)) => then(s, chain(&[(key(l.n, CALL), a), (key(l.n, START), 0), (key(l.n, FINISH), 0)], mix(l.n, a))),
        },
        P::Bind(q, l, k, _) => match eval(q, env, run) {
            (s, Err(e)) => (s, Err(e)),
            (s, Ok(a)) => {
                let (s2, r2) = then(s, chain(&[(key(l.n, CALL), a), (key(l.n, START), 0), (key(l.n, FINISH), 0)], mix(l.n, a)));
                match r2 {
                    Err(e) => (s2, Err(e)),
                    Ok(v) => then(s2, eval(k, Some(v), run)),
                }
            }
        },
        P::Apply(q, how, l, _) => {
            let f = if *how == 0 { (Sp::none(), Ok(0)) } else { chain(&[(key(l.n, MAKE), 0), (key(l.n, START), 0), (key(l.n, FINISH), 0)], 0) };
            match par(eval(q, env, run), f) {
                (s, Err(e)) => (s, Err(e)),
                (s, Ok((a, _))) => {
                    if *how == 0 && is_pure(q) {
                        (s, Ok(mix(l.n, a)))
                    } else {
                        then(s, chain(&[(key(l.n, APP), a)], mix(l.n, a)))
                    }
                }
            }
        }
        P::Zip(a, b, l) => match par(eval(a, env, run), eval(b, env, run)) {
            (s, Err(e)) => (s, Err(e)),
            (s, Ok((a, b))) => then(s, chain(&[(key(l.n, CALL), a), (key(l.n, START), 0), (key(l.n, FINISH), 0)], mix2(l.n, a, b))),
        },
        P::ZipWith(a, b, l) => {
            let silent = is_pure(a) && is_pure(b);
            match par(eval(a, env, run), eval(b, env, run)) {
                (s, Err(e)) => (s, Err(e)),
                (s, Ok((a, b))) => {
                    if silent {
                        (s, Ok(mix2(l.n, a, b)))
                    } else {
                        then(s, chain(&[(key(l.n, APP), a)], mix2(l.n, a, b)))
                    }
                }
            }
        }
        P::Recover(q, d) => {
            let (s, r) = eval(q, env, run);
            (s, Ok(r.unwrap_or(*d)))
        }
        P::Dup(q, l, how) => {
            let calls = |a: i64| [(key(l.n, CALL), a), (key(l.n, START), 0), (key(l.n, FINISH), 0)];
            if *how == 2 {
                return match eval(q, env, run) {
                    (s, Err(e)) => (s, Err(e)),
                    (s, Ok(a)) => match then(s.clone(), chain(&calls(a), a)) {
                        (s2, Err(e)) => (s2, Err(e)),
                        (s2, Ok(_)) => then(s2, (s, Ok(a))),
                    },
                };
            }
            match par(eval(q, env, run), eval(q, env, run)) {
                (s, Err(e)) => (s, Err(e)),
                (s, Ok((a, b))) if *how == 0 => then(s, chain(&calls(a), mix2(l.n, a, b))),
                (s, Ok((a, b))) if is_pure(p) => (s, Ok(mix2(l.n, a, b))),
                (s, Ok((a, b))) => then(s, chain(&[(key(l.n, APP), a)], mix2(l.n, a, b))),
            }
        }
    }
}

#[derive(Clone, Copy)]
pub struct Opt {
    pub par: bool,
    pub rec: bool,
    pub rendezvous: bool,
    pub cancel: bool,
    pub panics: bool,
    pub strict: bool,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum RunState {
    NotStarted,
    Started,
    Done(i64),
}
static RUNS: Global<Vec<RunState>> = Global::empty();

fn draw_program(o: Opt) -> P {
    let mut g = Gen { next: 0, gates: 0, par: o.par, rec: o.rec, rendezvous: o.rendezvous };
    loop {
        let p = g.draw(wr(1, 4), false);
        if g.gates <= MAX_GATES && g.next < 150 {
            return p;
        }
        g.next = 0;
        g.gates = 0;
    }
}
pub fn scenario(o: Opt) {
    ledger::reset();
    fx::reset(true);
    TOKIO.set(false);
    let p = draw_program(o);
    exec::reset(64 * MAX_GATES);
    let mut ks = Vec::new();
    keys(&p, &mut ks);
    // (gates are told apart for up to 64 evaluations)
    let tasks = if wchance(1, 24) { wr(5, 60) } else { wr(1, 4) };
    let per = if tasks > 4 { 1 } else if tasks < 3 { crate::util::size(1, 2, 20) } else { wr(1, 2) };
    let workers = wr(1, 3);
    let total = tasks * per + 1;
    let scale = cfg().fault_scale;
    if scale > 0 {
        for run in 0..total {
            for k in &ks {
                // errors are answered with a default, panics end the evaluation
                if (o.panics || k % 8 == ERR) && plan_chance(scale, 3072) {
                    fx::plan_panic(run, *k, fault_choose(3) as u8);
                }
            }
        }
    }
    let cancel: Vec<Option<u32>> = (0..tasks).map(|_| if o.cancel && scale > 0 && plan_chance(400, 1024) { Some(fault_choose(5) as u32) } else { None }).collect();
    describe(&format!("{tasks} tasks x {per} evaluations on {workers} threads, cancelled after pendings {cancel:?}: {p:?}"));
    RUNS.set(vec![RunState::NotStarted; total]);
    let m = sut(|| build(&p, None));
    check!(fx::runs_logged().is_empty(), "eager", "effects were performed while building: {:?}", fx::log_of(fx::BUILD));
    let baseline = ledger::live();
    let shared = Arc::new(m);
    let start = |t: usize, runs: std::ops::Range<usize>, cancel: Option<u32>| {
        let m = shared.clone();
        let by_clone = wchance(1, 2);
        exec::spawn(
            Box::pin(async move {
                let own = if by_clone { Some((*m).clone()) } else { None };
                let first = runs.start;
                for run in runs {
                    if run > first && tired() {
                        break;
                    }
                    fx::enter(run);
                    RUNS.with(|r| r[run] = RunState::Started);
                    let v = match &own {
                        Some(m) => m.try_get().await,
                        None => m.try_get().await,
                    };
                    let x = v.val();
                    drop(v);
                    fx::enter(fx::BUILD);
                    RUNS.with(|r| r[run] = RunState::Done(x));
                    let _ = t;
                }
            }),
            cancel,
        )
    };
    let mut ids: Vec<(usize, std::ops::Range<usize>)> = Vec::new();
    for t in 0..tasks {
        let r = t * per..(t + 1) * per;
        ids.push((start(t, r.clone(), cancel[t]), r));
    }
    exec::run(workers);
    // a later evaluation, undisturbed
    let last = tasks * per..total;
    ids.push((start(tasks, last.clone(), None), last));
    exec::run(1);
    for (id, range) in ids {
        let out = exec::outcome(id);
        for run in range.clone() {
            let (sp, want) = eval(&p, None, run);
            let st = RUNS.with(|r| r[run]);
            match (st, &out) {
                (RunState::Done(v), _) => check_run("AsyncM", run, &sp, &want, &Ok(v)),
                (RunState::NotStarted, Outcome::Done) if run == range.start => fail("harness", "a task ended without its runs"),
                (RunState::NotStarted, _) => check!(fx::log_of(run).is_empty(), "effects", "run {run} was never started but performed {:?}", fx::log_of(run)),
                (RunState::Started, Outcome::Panicked(i, text)) => check_run("AsyncM", run, &sp, &want, &Err((*i, text.clone()))),
                (RunState::Started, Outcome::Cancelled) => {
                    let log = fx::log_of(run);
                    if let Err(e) = sp.check(&log, false) {
                        fail("effects", &format!("cancelled run {run}: {e}: {log:?}; expected a beginning of {sp:?}"));
                    }
                }
                (RunState::Started, Outcome::Done) => fail("harness", "a task ended within a run"),
            }
        }
    }
    for r in fx::runs_logged() {
        check!(r < total, "effects", "effects outside every evaluation: {:?}", fx::log_of(r));
    }
    if o.strict || o.cancel {
        check!(ledger::live() == baseline, "leak", "{} values alive after the evaluations, {} before", ledger::live(), baseline);
    }
    let m = Arc::try_unwrap(shared).unwrap_or_else(|_| fail("harness", "still shared"));
    sut(|| drop(m));
    if o.strict || o.cancel {
        ledger::check_empty("after everything was dropped");
    }
}

/// Built and evaluated once: every function is called as often as the program prescribes, be it
/// while building or while evaluating.
fn once(par: bool) {
    ledger::reset();
    fx::reset(true);
    TOKIO.set(false);
    LOUD.store(true, std::sync::atomic::Ordering::Relaxed);
    let mut g = Gen { next: 0, gates: 0, par, rec: wchance(1, 4), rendezvous: false };
    let ps: Arc<Vec<P>> = Arc::new((0..wr(1, 5)).map(|_| g.draw(wr(1, 3), false)).collect());
    exec::reset(64 * MAX_GATES);
    let n = wr(1, 2);
    describe(&format!("{n} tasks build and evaluate {ps:?}"));
    let mut ids = Vec::new();
    for t in 0..n {
        let ps = ps.clone();
        ids.push(exec::spawn(
            Box::pin(async move {
                for (i, p) in ps.iter().enumerate() {
                    let run = t * ps.len() + i;
                    fx::enter(run);
                    let m = sut(|| build(p, None));
                    let v = m.try_get().await.val();
                    sut(|| drop(m));
                    fx::enter(fx::BUILD);
                    let (sp, want) = eval(p, None, run);
                    let (want_fx, mut log) = (sp.multiset(), fx::log_of(run));
                    log.sort();
                    // a part used twice may have been computed once, when building
                    let shared = format!("{p:?}").contains("Dup");
                    let (mut a, mut b) = (log.clone(), want_fx.clone());
                    a.dedup();
                    b.dedup();
                    let ok = if shared { a == b && log.len() <= want_fx.len() } else { log == want_fx };
                    check!(ok, "effects", "run {run}: effects (in no order) were {log:?}, expected {want_fx:?}: {p:?}");
                    check!(want == Ok(v), "wrong-value", "run {run} gave {v}, expected {want:?}: {p:?}");
                }
            }),
            None,
        ));
    }
    exec::run(wr(1, 2));
    for id in ids {
        check!(matches!(exec::outcome(id), Outcome::Done), "unexpected-panic", "a task ended with {:?}", exec::outcome(id));
    }
    LOUD.store(false, std::sync::atomic::Ordering::Relaxed);
    drop(ps);
    ledger::check_empty("after the evaluations");
}

/// The same programs evaluated by tasks of a real tokio runtime.
fn on_tokio(o: Opt) {
    ledger::reset();
    fx::reset(false);
    TOKIO.set(true);
    let p = draw_program(o);
    exec::reset(64 * MAX_GATES);
    let mut ks = Vec::new();
    keys(&p, &mut ks);
    let tasks = wr(1, 3);
    let per = wr(1, 2);
    let total = tasks * per + 1;
    let scale = cfg().fault_scale;
    if scale > 0 {
        for run in 0..total {
            for k in &ks {
                if (o.panics || k % 8 == ERR) && plan_chance(scale, 3072) {
                    fx::plan_panic(run, *k, fault_choose(3) as u8);
                }
            }
        }
    }
    let multi = wchance(1, 2);
    let workers = wr(1, 2);
    let spawned: Vec<bool> = (0..tasks).map(|_| wchance(2, 3)).collect();
    // dropped after that much time, by a timeout or (spawned tasks) by an abort
    let cancel: Vec<Option<(u64, bool)>> =
        (0..tasks).map(|_| if o.cancel && scale > 0 && plan_chance(400, 1024) { Some((1_000_000 * fault_choose(8) as u64, fault_choose(2) == 0)) } else { None }).collect();
    let local = wchance(1, 4);
    describe(&format!("on tokio (multi={multi} workers={workers} spawned={spawned:?}), {tasks} tasks x {per} evaluations, dropped after (ns, abort) {cancel:?}, built there {local}: {p:?}"));
    RUNS.set(vec![RunState::NotStarted; total]);
    let failed: Arc<Global<Vec<Option<(Option<u32>, String)>>>> = Arc::new(Global::new(vec![None; total]));
    let rt = crate::iort::runtime(multi, workers);
    let m = if local {
        let p = p.clone();
        let _o = Mode::open();
        rt.block_on(async move { sut(|| build(&p, None)) })
    } else {
        sut(|| build(&p, None))
    };
    check!(fx::runs_logged().is_empty(), "eager", "effects were performed while building: {:?}", fx::log_of(fx::BUILD));
    let baseline = ledger::live();
    let shared = Arc::new(m);
    let f2 = failed.clone();
    let s2 = shared.clone();
    // one evaluation; a panic ends the task's evaluations
    let task = move |runs: std::ops::Range<usize>, timeout: Option<u64>| {
        let (m, failed) = (s2.clone(), f2.clone());
        async move {
            for run in runs {
                RUNS.with(|r| r[run] = RunState::Started);
                let one = async {
                    let v = m.try_get().await;
                    v.val()
                };
                let one = InRun(run, Box::pin(futures::FutureExt::catch_unwind(std::panic::AssertUnwindSafe(one))));
                let r = match timeout {
                    None => one.await,
                    Some(ns) => match tokio::time::timeout(Duration::from_nanos(ns), one).await {
                        Ok(r) => r,
                        Err(_) => {
                            count_fault(Fault::Cancel);
                            continue;
                        }
                    },
                };
                match r {
                    Ok(x) => RUNS.with(|r| r[run] = RunState::Done(x)),
                    Err(p) => {
                        let t = crate::util::panic_pair(p);
                        failed.with(|f| f[run] = Some(t));
                    }
                }
            }
        }
    };
    let main = async move {
        let mut hs = Vec::new();
        let mut inline = Vec::new();
        for t in 0..tasks {
            let r = t * per..(t + 1) * per;
            let timeout = cancel[t].map(|c| c.0).filter(|_| !(spawned[t] && cancel[t].is_some_and(|c| c.1)));
            let fut = task(r, timeout);
            if spawned[t] {
                let h = tokio::spawn(fut);
                if let Some((ns, true)) = cancel[t] {
                    let a = h.abort_handle();
                    tokio::spawn(async move {
                        tokio::time::sleep(Duration::from_nanos(ns)).await;
                        count_fault(Fault::Cancel);
                        a.abort();
                    });
                }
                hs.push(h);
            } else {
                inline.push(fut);
            }
        }
        futures::future::join_all(inline).await;
        for h in hs {
            if let Err(e) = h.await {
                check!(e.is_cancelled(), "foreign-panic", "a task died: {e}");
            }
        }
        // anything that goes on by itself shows itself now
        tokio::time::sleep(Duration::from_millis(60)).await;
        task(tasks * per..total, None).await;
    };
    {
        let _o = Mode::open();
        rt.block_on(main);
    }
    for run in 0..total {
        let (sp, want) = eval(&p, None, run);
        let st = RUNS.with(|r| r[run]);
        let log = fx::log_of(run);
        match (st, failed.with(|f| f[run].clone())) {
            (RunState::Done(v), _) => check_run("AsyncM", run, &sp, &want, &Ok(v)),
            (_, Some(p)) => check_run("AsyncM", run, &sp, &want, &Err(p)),
            (RunState::NotStarted, _) => check!(log.is_empty(), "effects", "run {run} was never started but performed {log:?}"),
            (RunState::Started, None) => {
                if let Err(e) = sp.check(&log, false) {
                    fail("effects", &format!("dropped run {run}: {e}: {log:?}; expected a beginning of {sp:?}"));
                }
            }
        }
    }
    for r in fx::runs_logged() {
        check!(r < total, "effects", "effects outside every evaluation: {:?}", fx::log_of(r));
    }
    if o.strict || o.cancel {
        check!(ledger::live() == baseline, "leak", "{} values alive after the evaluations, {} before", ledger::live(), baseline);
    }
    let _o = Mode::open();
    drop(rt);
    let m = Arc::try_unwrap(shared).unwrap_or_else(|_| fail("harness", "still shared"));
    sut(|| drop(m));
    if o.strict || o.cancel {
        ledger::check_empty("after everything was dropped");
    }
}

/// Two timed operands: the evaluation lasts as long as the longer one.
fn overlap(tokio: bool) {
    ledger::reset();
    fx::reset(!tokio);
    exec::reset(0);
    TOKIO.set(tokio);
    let lo = if tokio { 6 } else { 1 };
    let a = 1_000_000 * wr(lo, 50) as u64;
    let b = 1_000_000 * wr(lo, 50) as u64;
    let how = w(5);
    let la = L { n: 1, plan: vec![Step::Timer(a)] };
    let lb = L { n: 2, plan: vec![Step::Timer(b)] };
    let (x, y) = (Box::new(P::New(la.clone(), 1)), Box::new(P::New(lb.clone(), 2)));
    let p = match how {
        0 => P::ZipWith(x, y, L { n: 3, plan: vec![] }),
        1 => P::Zip(x, y, L { n: 3, plan: vec![] }),
        2 => P::Apply(x, 1, lb, false),
        3 => P::Apply(x, 1, lb, true),
        _ => P::Apply(x, 2, lb, wchance(1, 2)),
    };
    describe(&format!("operands of {a} and {b} ns: {p:?}"));
    let m = sut(|| build(&p, None));
    let rt = tokio.then(|| crate::iort::runtime(wchance(1, 2), 1));
    let t0 = now_ns();
    if let Some(rt) = &rt {
        let _o = Mode::open();
        rt.block_on(InRun(0, Box::pin(async move { m.try_get().await.val() })));
    } else {
        exec::spawn(
            Box::pin(async move {
                fx::enter(0);
                let v = m.try_get().await;
                let _ = v.val();
                fx::enter(fx::BUILD);
            }),
            None,
        );
        exec::run(1);
    }
    let took = now_ns() - t0;
    let _o = Mode::open();
    drop(rt);
    // a stalled machine adds time of its own
    check!(cfg().p_stall > 0 || (tokio && cfg().p_time > 0) || took < a.max(b) + a.min(b) / 2, "sequential", "operands of {a} and {b} ns took {took} ns together");
    check!(took >= a.max(b), "too-early", "operands of {a} and {b} ns were done after {took} ns");
}

pub fn register(s: &mut Vec<Scenario>, i: &mut Vec<Info>) {
    const O: Opt = Opt { par: false, rec: false, rendezvous: false, cancel: false, panics: false, strict: false };
    let mut add = |prop, name, faults, weight, run| s.push(Scenario { prop, name, gap_max: 1500, faults, weight, run });
    add("C04", "sequential", F_OWN, 2, || scenario(O));
    add("C04", "mixed", F_OWN, 1, || scenario(Opt { par: true, ..O }));
    add("C05", "rendezvous", F_OWN, 3, || scenario(Opt { par: true, rendezvous: true, ..O }));
    add("C04", "once", 0, 1, || once(false));
    add("C05", "once", 0, 1, || once(true));
    add("C05", "overlap", F_OWN, 1, || overlap(false));
    add("C05", "overlap-tokio", F_OWN, 1, || overlap(true));
    add("C04", "tokio", F_OWN, 1, || on_tokio(Opt { par: true, ..O }));
    add("C05", "tokio", F_OWN, 1, || on_tokio(Opt { par: true, rendezvous: true, ..O }));
    add("C06", "tokio", F_OWN, 1, || on_tokio(Opt { par: true, rec: true, cancel: true, ..O }));
    add("C07", "tokio", F_OWN, 1, || on_tokio(Opt { par: true, rec: true, panics: true, ..O }));
    add("C16", "asyncm-tokio", F_OWN, 1, || on_tokio(Opt { par: true, rec: true, cancel: true, panics: true, strict: true, ..O }));
    add("C06", "cancel", F_OWN, 3, || scenario(Opt { par: true, rec: true, cancel: true, ..O }));
    add("C06", "cancel-panics", F_OWN, 1, || scenario(Opt { par: true, rec: true, cancel: true, panics: true, ..O }));
    add("C07", "failures", F_OWN, 3, || scenario(Opt { rec: true, panics: true, ..O }));
    add("C07", "failures-par", F_OWN, 2, || scenario(Opt { par: true, rec: true, panics: true, ..O }));
    add("C16", "asyncm", F_OWN, 3, || scenario(Opt { par: true, rec: true, cancel: true, panics: true, strict: true, ..O }));
    let real = "AsyncM and the futures it builds, futures::FutureExt, tokio::join!, unwinding; in the tokio scenarios also the runtime, its timers, timeouts and aborts";
    let stub = "elsewhere the executor (simulated: task choice, worker threads, spurious polls, wakers of the latest poll only, cancellation, timers), thread scheduling, clocks; leaf futures are scripted";
    let rule = "A random AsyncM program over scripted leaf futures is evaluated 1-2 times by each of 1-4 tasks on 1-3 worker threads, shared or cloned, and once more afterwards, or by tasks of a current-thread or multi-thread tokio runtime; value and effects of every evaluation are compared with a reference interpreter's series-parallel order.";
    i.push(Info { prop: "C04", rule, real, stub, counters: &[] });
    i.push(Info { prop: "C05", rule: "As C04, where the operands of apply/zip/zip_with wait for each other (a sequential evaluation cannot finish), and timed operands whose total duration is measured on the simulated clock.", real, stub, counters: &[] });
    i.push(Info { prop: "C06", rule: "As C04 with tasks dropped at a drawn suspension point, or by a tokio timeout or abort; effects of dropped evaluations form a beginning of the prescribed order, nothing stays alive, the other evaluations are complete.", real, stub, counters: &[] });
    i.push(Info { prop: "C07", rule: "As C04 with recover_with and from_result_or_default and drawn panics (in future creation, first poll, last poll, functions) and errors per evaluation.", real, stub, counters: &[] });
}
