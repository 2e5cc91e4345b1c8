//! Composed functions, predicates, deferred values and optics: C21.
//!
//! A random program over function morphisms, predicates, thunks, lenses, prisms and isos is
//! built once and called several times; parts of it are used in more than one place. Every part
//! is user code that is logged and may panic; calls, arguments and the outcome are compared with
//! a plain reading of the program.
use crate::util::{self, Rec, Ref, Run, judge, linger, mix, mix2, threads};
use rustica::category::function_category::{FunctionCategory as FC, FunctionMorphism, compose, pipe};
use rustica::datatypes::iso_lens::IsoLens;
use rustica::datatypes::iso_prism::IsoPrism;
use rustica::datatypes::lens::Lens;
use rustica::datatypes::prism::Prism;
use rustica::datatypes::wrapper::predicate::Predicate;
use rustica::datatypes::wrapper::thunk::Thunk;
use rustica::traits::arrow::Arrow;
use rustica::traits::category::Category;
use rustica::traits::evaluate::{Evaluate, EvaluateExt};
use rustica::traits::iso::{Iso, IsoExt};
use rustica::traits::monoid::Monoid;
use rustica::traits::semigroup::Semigroup;
use simcore::explore::{F_OWN, Info, Scenario};
use simcore::ledger::{self, Tok};
use simcore::*;
use std::sync::Arc;

/// A function.
#[derive(Clone, Debug)]
enum U {
    Id,
    Prim(u32),
    /// In the order of application.
    Comp(Vec<U>, usize),
    When(Pr, Box<U>),
    ThenIf(Box<U>, Box<U>, Pr, bool),
    Fan(Box<U>, Box<U>, Vec<Pair>, u32),
    Thunk(Box<U>, Box<U>, Pr, usize, u32),
    Lens(usize, bool, Box<U>, u32),
    Prism(usize, bool, Box<U>, u32),
    Iso(usize, usize, Box<U>, u32),
    Shared(usize),
}
/// A function on pairs.
#[derive(Clone, Debug)]
enum Pair {
    First(U),
    Second(U),
    Both(U),
    Par(U, U),
}
/// A predicate.
#[derive(Clone, Debug)]
enum Pr {
    Leaf(u32),
    Empty,
    Or(Box<Pr>, Box<Pr>, usize),
    And(Box<Pr>, Box<Pr>, usize),
    Diff(Box<Pr>, Box<Pr>, usize),
    Not(Box<Pr>, usize),
    Shared(usize),
}
#[derive(Debug)]
struct Prog {
    us: Vec<U>,
    ps: Vec<Pr>,
    main: U,
}
const ISOS: usize = 5;

// ---- drawing programs ----
struct Gen {
    keys: u32,
    us: usize,
    ps: usize,
}
impl Gen {
    fn key(&mut self) -> u32 {
        self.keys += 4;
        self.keys
    }
    fn pr(&mut self, d: usize) -> Pr {
        if d == 0 || wchance(1, 4) {
            return match w(8) {
                0 => Pr::Empty,
                1 | 2 if self.ps > 0 => Pr::Shared(w(self.ps)),
                _ => Pr::Leaf(self.key()),
            };
        }
        let a = Box::new(self.pr(d - 1));
        match w(4) {
            0 => Pr::Or(a, Box::new(self.pr(d - 1)), w(4)),
            1 => Pr::And(a, Box::new(self.pr(d - 1)), w(2)),
            2 => Pr::Diff(a, Box::new(self.pr(d - 1)), w(2)),
            _ => Pr::Not(a, w(2)),
        }
    }
    fn u(&mut self, d: usize) -> U {
        if d == 0 || wchance(1, 5) {
            return match w(8) {
                0 => U::Id,
                1 | 2 if self.us > 0 => U::Shared(w(self.us)),
                _ => U::Prim(self.key()),
            };
        }
        let d = d - 1;
        match w(11) {
            0 | 1 => {
                let n = if wchance(1, 10) { util::size(5, 9, 70) } else { wr(1, 4) };
                let d = if n > 4 { 0 } else { d };
                U::Comp((0..n).map(|_| self.u(d)).collect(), w(6))
            }
            2 => U::When(self.pr(2), Box::new(self.u(d))),
            3 => U::ThenIf(Box::new(self.u(d)), Box::new(self.u(d)), self.pr(2), wchance(1, 2)),
            4 | 5 => {
                let (f, g) = (self.u(d), self.u(d));
                let ps = (0..w(3))
                    .map(|_| match w(4) {
                        0 => Pair::First(self.u(d)),
                        1 => Pair::Second(self.u(d)),
                        2 => Pair::Both(self.u(d)),
                        _ => Pair::Par(self.u(d), self.u(d)),
                    })
                    .collect();
                U::Fan(Box::new(f), Box::new(g), ps, self.key())
            }
            6 | 7 => U::Thunk(Box::new(self.u(d)), Box::new(self.u(d)), self.pr(1), w(16), self.key()),
            8 => U::Lens(w(6), wchance(1, 3), Box::new(self.u(d)), self.key()),
            9 => U::Prism(w(4), wchance(1, 2), Box::new(self.u(d)), self.key()),
            _ => U::Iso(w(ISOS), w(5), Box::new(self.u(d)), self.key()),
        }
    }
}
fn prog() -> (Prog, u32) {
    let mut g = Gen { keys: 0, us: 0, ps: 0 };
    let (mut us, mut ps) = (Vec::new(), Vec::new());
    for _ in 0..w(3) {
        ps.push(g.pr(2));
        g.ps += 1;
    }
    for _ in 0..w(3) {
        us.push(g.u(2));
        g.us += 1;
    }
    let d = wr(1, 4);
    let main = g.u(d);
    (Prog { us, ps, main }, g.keys)
}

// ---- user code ----
fn yes(k: u32, a: i64) -> bool {
    (mix(k, a) / 8) % 2 == 0
}
fn step(k: u32, a: &Tok) -> Tok {
    fx::effect(k, a.val());
    a.with(mix(k, a.val()))
}
fn prim(k: u32) -> impl Fn(Tok) -> Tok + 'static {
    let own = Tok::new(k as i64);
    move |a| {
        let _q = Mode::quiet();
        let b = step(own.val() as u32, &a);
        drop(a);
        b
    }
}
fn same(v: i64) -> i64 {
    v ^ 0x155
}

struct Env {
    us: Vec<FunctionMorphism<Tok, Tok>>,
    ps: Vec<Predicate<Tok>>,
}
fn call(m: &FunctionMorphism<Tok, Tok>) -> impl Fn(Tok) -> Tok + 'static {
    let m = m.clone();
    move |a| m(a)
}
#[allow(deprecated)]
fn build_p(p: &Pr, e: &Env) -> Predicate<Tok> {
    match p {
        Pr::Leaf(k) => {
            let own = Tok::new(*k as i64);
            Predicate::new(move |a: &Tok| {
                let _q = Mode::quiet();
                let k = own.val() as u32;
                fx::effect(k, a.val());
                yes(k, a.val())
            })
        }
        Pr::Empty => Predicate::empty(),
        Pr::Or(a, b, form) => {
            let (a, b) = (build_p(a, e), build_p(b, e));
            match form {
                0 => a.union(&b),
                1 => a | b,
                2 => a.combine(&b),
                _ => a.combine_owned(b),
            }
        }
        Pr::And(a, b, form) => {
            let (a, b) = (build_p(a, e), build_p(b, e));
            if *form == 0 { a.intersection(&b) } else { a & b }
        }
        Pr::Diff(a, b, form) => {
            let (a, b) = (build_p(a, e), build_p(b, e));
            if *form == 0 { a.diff(&b) } else { a - b }
        }
        Pr::Not(a, form) => {
            let a = build_p(a, e);
            if *form == 0 { a.negate() } else { !a }
        }
        Pr::Shared(i) => e.ps[*i].clone(),
    }
}
fn run_p(p: &Pr, g: &Prog, a: i64, r: &mut Rec) -> Result<bool, u32> {
    Ok(match p {
        Pr::Leaf(k) => {
            r.call(*k, a)?;
            yes(*k, a)
        }
        Pr::Empty => false,
        Pr::Or(x, y, _) => run_p(x, g, a, r)? || run_p(y, g, a, r)?,
        Pr::And(x, y, _) => run_p(x, g, a, r)? && run_p(y, g, a, r)?,
        Pr::Diff(x, y, _) => run_p(x, g, a, r)? && !run_p(y, g, a, r)?,
        Pr::Not(x, _) => !run_p(x, g, a, r)?,
        Pr::Shared(i) => run_p(&g.ps[*i], g, a, r)?,
    })
}

#[derive(Clone)]
struct S2 {
    a: Tok,
    b: Tok,
}
#[derive(Clone)]
enum Sh {
    Circle(Tok),
    Rect(Tok),
}
/// A conversion of user code.
#[derive(Clone)]
struct Conv(Arc<Tok>);
fn conv(k: u32) -> Conv {
    Conv(Arc::new(Tok::new(k as i64)))
}
impl Iso<Tok, Tok> for Conv {
    type From = Tok;
    type To = Tok;
    fn forward(&self, a: &Tok) -> Tok {
        let _q = Mode::quiet();
        step(self.0.val() as u32, a)
    }
    fn backward(&self, a: &Tok) -> Tok {
        let _q = Mode::quiet();
        step(self.0.val() as u32 + 1, a)
    }
}
/// Looks at even values only.
#[derive(Clone)]
struct Part(Arc<Tok>);
impl Iso<Tok, Option<Tok>> for Part {
    type From = Tok;
    type To = Option<Tok>;
    fn forward(&self, a: &Tok) -> Option<Tok> {
        let _q = Mode::quiet();
        let b = step(self.0.val() as u32, a);
        (a.val() % 4 != 0).then_some(b)
    }
    fn backward(&self, a: &Option<Tok>) -> Tok {
        let _q = Mode::quiet();
        let a = a.as_ref().unwrap_or_else(|| fail("wrong-value", "a prism went backwards from nothing"));
        step(self.0.val() as u32 + 1, a)
    }
}
/// Splits a value into a focus and itself.
#[derive(Clone)]
struct Cut(Arc<Tok>);
impl Iso<Tok, (Tok, Tok)> for Cut {
    type From = Tok;
    type To = (Tok, Tok);
    fn forward(&self, a: &Tok) -> (Tok, Tok) {
        let _q = Mode::quiet();
        (step(self.0.val() as u32, a), a.with(a.val()))
    }
    fn backward(&self, a: &(Tok, Tok)) -> Tok {
        let _q = Mode::quiet();
        let v = mix2(3, a.0.val(), a.1.val());
        step(self.0.val() as u32 + 1, &a.0.with(v))
    }
}
/// The five ways to use an iso on one value: `form`.
fn use_iso<I: Iso<Tok, Tok, From = Tok, To = Tok> + Clone>(i: &I, form: usize, a: Tok, m: &FunctionMorphism<Tok, Tok>) -> Tok {
    match form {
        0 => m(i.forward(&a)),
        1 => m(i.convert_backward(&a)),
        2 => i.modify(&a, |x| m(x)),
        3 => i.map_from_target(|x: &Tok| m(x.clone()))(&a),
        _ if a.val() % 2 == 0 => i.map_from_source(|x: &Tok| m(x.clone()))(&a),
        _ => i.inverse().map_from_target(|x: &Tok| m(x.clone()))(&a),
    }
}

/// A category of the user's own, whose `split` is the trait's.
struct Mine;
impl Category for Mine {
    type Morphism<A, B> = FunctionMorphism<A, B>;
    fn identity_morphism<A>() -> FunctionMorphism<A, A> {
        Arc::new(|a| a)
    }
    fn compose_morphisms<A: 'static, B: 'static, C: 'static>(g: &FunctionMorphism<B, C>, f: &FunctionMorphism<A, B>) -> FunctionMorphism<A, C> {
        let (f, g) = (f.clone(), g.clone());
        Arc::new(move |a| g(f(a)))
    }
}
impl Arrow for Mine {
    fn arrow<B, C, F: Fn(B) -> C + 'static>(f: F) -> FunctionMorphism<B, C> {
        Arc::new(f)
    }
    fn first<B: 'static, C: 'static, D: 'static>(f: &FunctionMorphism<B, C>) -> FunctionMorphism<(B, D), (C, D)> {
        FC::first(f)
    }
    fn second<B: 'static, C: 'static, D: 'static>(f: &FunctionMorphism<B, C>) -> FunctionMorphism<(D, B), (D, C)> {
        FC::second(f)
    }
    fn combine_morphisms<B: 'static, C: 'static, D: 'static, E: 'static>(f: &FunctionMorphism<B, C>, g: &FunctionMorphism<D, E>) -> FunctionMorphism<(B, D), (C, E)> {
        let (f, g) = (f.clone(), g.clone());
        Arc::new(move |(b, d)| {
            let c = f(b);
            (c, g(d))
        })
    }
}

fn build(u: &U, e: &Env) -> FunctionMorphism<Tok, Tok> {
    match u {
        U::Id => FC::identity_morphism(),
        U::Prim(k) => {
            if k % 8 == 0 {
                FC::lift(prim(*k))
            } else {
                FC::arrow(prim(*k))
            }
        }
        U::Comp(v, form) => {
            let ms: Vec<_> = v.iter().map(|u| build(u, e)).collect();
            match (form, ms.len()) {
                (0, _) => ms[1..].iter().fold(ms[0].clone(), |f, g| FC::compose_morphisms(g, &f)),
                (1, 1) => compose!(call(&ms[0])),
                (1, 2) => compose!(call(&ms[1]), call(&ms[0])),
                (1, 3) => compose!(call(&ms[2]), call(&ms[1]), call(&ms[0])),
                (1, 4) => compose!(call(&ms[3]), call(&ms[2]), call(&ms[1]), call(&ms[0])),
                (2, 1) => pipe!(call(&ms[0])),
                (2, 2) => pipe!(call(&ms[0]), call(&ms[1])),
                (2, 3) => pipe!(call(&ms[0]), call(&ms[1]), call(&ms[2])),
                (2, 4) => pipe!(call(&ms[0]), call(&ms[1]), call(&ms[2]), call(&ms[3])),
                (4, _) => ms[1..].iter().fold(ms[0].clone(), |f, g| FC::arrow(rustica::utils::categorical_utils::compose(call(g), call(&f)))),
                (5, _) => ms[1..].iter().fold(ms[0].clone(), |f, g| FC::arrow(rustica::utils::categorical_utils::pipe(call(&f), call(g)))),
                (3, _) => FC::sequence(ms.iter().map(call).collect()),
                _ => {
                    let last = ms.len() - 1;
                    ms[..last].iter().rev().fold(ms[last].clone(), |g, f| FC::compose_morphisms(&g, f))
                }
            }
        }
        U::When(p, u) => {
            let (p, m) = (build_p(p, e), build(u, e));
            FC::when(move |a: &Tok| p.contains(a), call(&m))
        }
        U::ThenIf(f, g, p, old) => {
            let (f, g, p) = (build(f, e), build(g, e), build_p(p, e));
            #[allow(deprecated)]
            if *old { FC::compose_when(&f, &g, move |a: &Tok| p.contains(a)) } else { FC::then_if(&f, &g, move |a: &Tok| p.contains(a)) }
        }
        U::Fan(f, g, ps, k) => {
            let mut m = if k % 8 == 0 { Mine::split(&build(f, e), &build(g, e)) } else { FC::split(&build(f, e), &build(g, e)) };
            for p in ps {
                let q = match p {
                    Pair::First(u) => FC::first(&build(u, e)),
                    Pair::Second(u) => FC::second(&build(u, e)),
                    Pair::Both(u) => FC::both(call(&build(u, e))),
                    Pair::Par(f, g) => FC::combine_morphisms(&build(f, e), &build(g, e)),
                };
                m = FC::compose_morphisms(&q, &m);
            }
            let own = Tok::new(*k as i64);
            let merge = FC::arrow(move |(a, b): (Tok, Tok)| {
                let _q = Mode::quiet();
                step(own.val() as u32, &a.with(mix2(1, a.val(), b.val())))
            });
            FC::compose_morphisms(&merge, &m)
        }
        U::Thunk(f, g, p, form, k) => {
            let (f, g, p, form, own) = (build(f, e), build(g, e), build_p(p, e), *form, Tok::new(*k as i64));
            FC::arrow(move |a: Tok| {
                let k = own.val() as u32;
                let b = a.clone();
                let f2 = f.clone();
                let t = Thunk::new(move || f2(b.clone()));
                let two = |x: Tok, y: Tok| {
                    let _q = Mode::quiet();
                    step(k, &x.with(mix2(1, x.val(), y.val())))
                };
                let later = |x: Tok| {
                    let g = g.clone();
                    Thunk::new(move || g(x.clone()))
                };
                match form {
                    0 => t.evaluate(),
                    1 => two(t.evaluate(), t.evaluate()),
                    2 => t.evaluate_owned(),
                    3 => t.fmap_evaluate(|x| g(x)),
                    4 => t.map_evaluate(|x| g(x)),
                    5 => t.fmap_evaluate_owned(|x| g(x)),
                    6 => t.map_evaluate_owned(|x| g(x)),
                    7 => t.bind_evaluate(later),
                    8 => t.and_then_evaluate(later),
                    9 => t.bind_evaluate_owned(later),
                    10 => t.and_then_evaluate_owned(later),
                    11 => t.combine_evaluate(&later(a), two),
                    12 => t.combine_evaluate_owned(later(a), two),
                    13 => t.filter_evaluate(|x| p.contains(x)).unwrap_or(a),
                    14 => t.filter_evaluate_owned(|x| p.contains(x)).unwrap_or(a),
                    _ => {
                        let u = t.clone();
                        drop(t);
                        u.evaluate()
                    }
                }
            })
        }
        U::Lens(op, mapped, u, k) => {
            let (op, m, key, key2) = (*op, build(u, e), Tok::new(*k as i64), Tok::new(*k as i64 + 1));
            let lens = Lens::new(
                |s: &S2| s.a.clone(),
                move |s: S2, a: Tok| {
                    let _q = Mode::quiet();
                    fx::effect(key.val() as u32, a.val());
                    S2 { a, b: s.b }
                },
            );
            if *mapped {
                let lens = lens.fmap(
                    |a: Tok| a.with(same(a.val())),
                    move |b: Tok| {
                        let _q = Mode::quiet();
                        fx::effect(key2.val() as u32, b.val());
                        b.with(same(b.val()))
                    },
                );
                FC::arrow(move |a| use_lens(&lens, op, a, &m))
            } else {
                FC::arrow(move |a| use_lens(&lens, op, a, &m))
            }
        }
        U::Prism(op, circle, u, k) => {
            let (op, circle, m, key) = (*op, *circle, build(u, e), Tok::new(*k as i64));
            let prism = Prism::new(
                |s: &Sh| match s {
                    Sh::Circle(a) => Some(a.clone()),
                    Sh::Rect(_) => None,
                },
                move |a: &Tok| {
                    let _q = Mode::quiet();
                    fx::effect(key.val() as u32, a.val());
                    Sh::Circle(a.with(a.val()))
                },
            );
            FC::arrow(move |a: Tok| {
                let s = if circle { Sh::Circle(a.clone()) } else { Sh::Rect(a.clone()) };
                let out = match op {
                    0 => prism.modify(s, |x| m(x)),
                    1 => prism.set_if_different(s, m(a)),
                    2 => match prism.preview(&s) {
                        Some(x) => Sh::Circle(m(x)),
                        None => s,
                    },
                    _ => prism.review(&m(a)),
                };
                match out {
                    Sh::Circle(a) => a.with(mix2(5, a.val(), 0)),
                    Sh::Rect(a) => a.with(mix2(6, a.val(), 0)),
                }
            })
        }
        U::Iso(shape, form, u, k) => {
            let (form, m) = (*form, build(u, e));
            let (k, c) = (*k, conv(*k));
            match shape {
                0 => FC::arrow(move |a| use_iso(&c, form, a, &m)),
                1 => {
                    let d = conv(k + 2);
                    FC::arrow(move |a: Tok| {
                        let i = c.iso_compose(d.clone());
                        match form {
                            0 => m(i.forward(&a)),
                            1 => m(i.backward(&a)),
                            2 => IsoExt::modify(&i, &a, |x| m(x)),
                            3 => {
                                let l = IsoLens::new(i);
                                l.modify(&a, |x| m(x))
                            }
                            _ => {
                                let l = IsoLens::new(i);
                                l.set(&m(l.get(&a)))
                            }
                        }
                    })
                }
                2 => {
                    let l = IsoLens::new(c);
                    FC::arrow(move |a: Tok| match form {
                        0 => m(l.get(&a)),
                        1 => m(l.set(&a)),
                        2 => l.modify(&a, |x| m(x)),
                        3 => l.clone().modify(&a, |x| m(x)),
                        _ => m(l.iso_ref().forward(&a)),
                    })
                }
                3 => {
                    let p = IsoPrism::new(Part(Arc::new(Tok::new(k as i64))));
                    let q = IsoPrism::new(Part(Arc::new(Tok::new(k as i64 + 2))));
                    FC::arrow(move |a: Tok| match form {
                        0 => p.preview(&a).map(|x| m(x)).unwrap_or(a),
                        1 => m(p.review(&a)),
                        2 | 3 => p.clone().compose(q.clone()).preview(&a).map(|x| m(x)).unwrap_or(a),
                        _ => m(p.clone().compose(q.clone()).review(&a)),
                    })
                }
                _ => {
                    let l = IsoLens::new(c).compose(IsoLens::new(Cut(Arc::new(Tok::new(k as i64 + 2)))));
                    FC::arrow(move |a: Tok| match form {
                        0 => {
                            let (x, y) = l.get(&a);
                            m(x.with(mix2(7, x.val(), y.val())))
                        }
                        1 => {
                            let b = m(a.clone());
                            l.set_focus(&a, &b)
                        }
                        2 | 3 => l.modify_focus(&a, |x| m(x)),
                        _ => l.set(&(m(a.clone()), a)),
                    })
                }
            }
        }
        U::Shared(i) => e.us[*i].clone(),
    }
}
fn use_lens<G: Fn(&S2) -> Tok, S: Fn(S2, Tok) -> S2>(l: &Lens<S2, Tok, G, S>, op: usize, a: Tok, m: &FunctionMorphism<Tok, Tok>) -> Tok {
    let s = S2 { b: a.with(77), a };
    let s = match op {
        0 => {
            let v = m(l.get(&s));
            S2 { a: v, b: s.b }
        }
        1 => {
            let v = m(l.get(&s));
            l.set(s, v)
        }
        2 => {
            let v = l.get(&s);
            l.set(s, v)
        }
        3 => {
            let v = m(l.get(&s));
            l.set_always(s, v)
        }
        4 => l.modify(s, |x| m(x)),
        _ => l.modify_always(s, |x| m(x)),
    };
    s.a.with(mix2(4, s.a.val(), s.b.val()))
}

// ---- the plain reading ----
fn ap(k: u32, a: i64, r: &mut Rec) -> Result<i64, u32> {
    r.call(k, a)?;
    Ok(mix(k, a))
}
fn run_u(u: &U, g: &Prog, a: i64, r: &mut Rec) -> Result<i64, u32> {
    Ok(match u {
        U::Id => a,
        U::Prim(k) => ap(*k, a, r)?,
        U::Comp(v, _) => {
            let mut a = a;
            for u in v {
                a = run_u(u, g, a, r)?;
            }
            a
        }
        U::When(p, u) => {
            if run_p(p, g, a, r)? {
                run_u(u, g, a, r)?
            } else {
                a
            }
        }
        U::ThenIf(f, h, p, _) => {
            let a = run_u(f, g, a, r)?;
            if run_p(p, g, a, r)? { run_u(h, g, a, r)? } else { a }
        }
        U::Fan(f, h, ps, k) => {
            let (mut x, mut y) = (run_u(f, g, a, r)?, run_u(h, g, a, r)?);
            for p in ps {
                match p {
                    Pair::First(u) => x = run_u(u, g, x, r)?,
                    Pair::Second(u) => y = run_u(u, g, y, r)?,
                    Pair::Both(u) => {
                        x = run_u(u, g, x, r)?;
                        y = run_u(u, g, y, r)?;
                    }
                    Pair::Par(f, h) => {
                        x = run_u(f, g, x, r)?;
                        y = run_u(h, g, y, r)?;
                    }
                }
            }
            ap(*k, mix2(1, x, y), r)?
        }
        U::Thunk(f, h, p, form, k) => {
            let x = run_u(f, g, a, r)?;
            match form {
                0 | 2 | 15 => x,
                1 => {
                    let y = run_u(f, g, a, r)?;
                    ap(*k, mix2(1, x, y), r)?
                }
                3..=10 => run_u(h, g, x, r)?,
                11 | 12 => {
                    let y = run_u(h, g, a, r)?;
                    ap(*k, mix2(1, x, y), r)?
                }
                _ => {
                    if run_p(p, g, x, r)? {
                        x
                    } else {
                        a
                    }
                }
            }
        }
        U::Lens(op, mapped, u, k) => {
            let see = |v: i64| if *mapped { same(v) } else { v };
            let put = |v: i64, r: &mut Rec| -> Result<i64, u32> {
                if *mapped {
                    r.call(*k + 1, v)?;
                }
                let w = see(v);
                r.call(*k, w)?;
                Ok(w)
            };
            let old = see(a);
            let s = match op {
                0 => run_u(u, g, old, r)?,
                2 => a,
                _ => {
                    let v = run_u(u, g, old, r)?;
                    if *op != 3 && *op != 5 && v == old { a } else { put(v, r)? }
                }
            };
            mix2(4, s, 77)
        }
        U::Prism(op, circle, u, k) => {
            let rev = |v: i64, r: &mut Rec| -> Result<i64, u32> {
                r.call(*k, v)?;
                Ok(mix2(5, v, 0))
            };
            match op {
                0 | 2 if !*circle => mix2(6, a, 0),
                2 => mix2(5, run_u(u, g, a, r)?, 0),
                3 => {
                    let v = run_u(u, g, a, r)?;
                    rev(v, r)?
                }
                _ => {
                    let v = run_u(u, g, a, r)?;
                    if *circle && v == a { mix2(5, a, 0) } else { rev(v, r)? }
                }
            }
        }
        U::Iso(shape, form, u, k) => {
            let k = *k;
            match (shape, form) {
                (0, 0) | (0, 3) | (2, 0) | (2, 4) => {
                    let x = ap(k, a, r)?;
                    run_u(u, g, x, r)?
                }
                (0, 1) | (0, 4) | (2, 1) => {
                    let x = ap(k + 1, a, r)?;
                    run_u(u, g, x, r)?
                }
                (0, _) | (2, _) => {
                    let x = ap(k, a, r)?;
                    let x = run_u(u, g, x, r)?;
                    ap(k + 1, x, r)?
                }
                (1, 0) => {
                    let x = ap(k, a, r)?;
                    let x = ap(k + 2, x, r)?;
                    run_u(u, g, x, r)?
                }
                (1, 1) => {
                    let x = ap(k + 3, a, r)?;
                    let x = ap(k + 1, x, r)?;
                    run_u(u, g, x, r)?
                }
                (1, _) => {
                    let x = ap(k, a, r)?;
                    let x = ap(k + 2, x, r)?;
                    let x = run_u(u, g, x, r)?;
                    let x = ap(k + 3, x, r)?;
                    ap(k + 1, x, r)?
                }
                (3, 0) => {
                    let x = ap(k, a, r)?;
                    if a % 4 != 0 { run_u(u, g, x, r)? } else { a }
                }
                (3, 1) => {
                    let x = ap(k + 1, a, r)?;
                    run_u(u, g, x, r)?
                }
                (3, 2 | 3) => {
                    let x = ap(k, a, r)?;
                    if a % 4 == 0 {
                        a
                    } else {
                        let y = ap(k + 2, x, r)?;
                        if x % 4 != 0 { run_u(u, g, y, r)? } else { a }
                    }
                }
                (3, _) => {
                    let x = ap(k + 3, a, r)?;
                    let x = ap(k + 1, x, r)?;
                    run_u(u, g, x, r)?
                }
                (_, 0) => {
                    let x = ap(k, a, r)?;
                    let y = ap(k + 2, x, r)?;
                    run_u(u, g, mix2(7, y, x), r)?
                }
                (_, 2 | 3) => {
                    let x = ap(k, a, r)?;
                    let y = ap(k + 2, x, r)?;
                    let y = run_u(u, g, y, r)?;
                    let z = ap(k + 3, mix2(3, y, x), r)?;
                    ap(k + 1, z, r)?
                }
                _ => {
                    let y = run_u(u, g, a, r)?;
                    let z = ap(k + 3, mix2(3, y, a), r)?;
                    ap(k + 1, z, r)?
                }
            }
        }
        U::Shared(i) => run_u(&g.us[*i], g, a, r)?,
    })
}

/// A function of the program, or a predicate of it, is called.
#[derive(Clone, Copy, Debug)]
enum Target {
    Main,
    Sub(usize),
    Pred(usize),
}

/// Used on the thread it was made on only.
struct Here<F>(F);
unsafe impl<F> Send for Here<F> {}
unsafe impl<F> Sync for Here<F> {}
impl<F: Fn(usize)> Here<F> {
    fn call(&self, id: usize) {
        (self.0)(id)
    }
}
fn scenario() {
    let (p, keys) = prog();
    if util::too_long(|r| {
        let _ = run_u(&p.main, &p, 7, r);
    }) {
        return;
    }
    util::reset();
    let n = if wchance(1, 6) { 1 + crate::util::crowd(1) } else { 1 };
    let per = util::size(1, 5, 40);
    let fs = cfg().fault_scale;
    // on one thread, composed functions are also called from inside their own parts
    let inner = if n == 1 && keys > 0 && wchance(1, 4) { wr(1, 4) } else { 0 };
    let runs: Vec<(Run, Target)> = (0..n * per + inner)
        .map(|id| {
            let t = match w(8) {
                0 if !p.us.is_empty() => Target::Sub(w(p.us.len())),
                1 if !p.ps.is_empty() => Target::Pred(w(p.ps.len())),
                _ => Target::Main,
            };
            (Run { id, arg: wr(1, 60) as i64, how: 0 }, t)
        })
        .collect();
    for (r, t) in &runs {
        if fs > 0 && plan_chance(fs, 1024) {
            // one of the calls this run makes
            let mut rec = Rec::new(usize::MAX - 1);
            let _ = match t {
                Target::Main => run_u(&p.main, &p, r.arg, &mut rec),
                Target::Sub(i) => run_u(&p.us[*i], &p, r.arg, &mut rec),
                Target::Pred(i) => run_p(&p.ps[*i], &p, r.arg, &mut rec).map(|b| b as i64),
            };
            if !rec.log.is_empty() {
                fx::plan_panic(r.id, rec.log[fault_choose(rec.log.len())].0, fault_choose(3) as u8);
            }
            if keys > 0 && fault_choose(4) == 0 {
                fx::plan_panic(r.id, 4 + fault_choose(keys as usize) as u32, fault_choose(3) as u8);
            }
        }
    }
    describe(&format!("{n} threads x {per} calls; {p:?}; {runs:?}"));
    for i in 0..inner {
        let (outer, key) = (w(per + i), 4 + w(keys as usize) as u32);
        describe(&format!("; call {} inside part {key} of call {outer}", per + i));
        fx::plan_nested(outer, key, per + i);
    }
    let keep = w(3);
    let all = Arc::new((p, runs));
    let go = move |t: usize| {
        let (p, runs) = &*all;
        let _q = Mode::quiet();
        let mut e = Env { us: Vec::new(), ps: Vec::new() };
        let main = sut(|| {
            for q in &p.ps {
                let q = build_p(q, &e);
                e.ps.push(q);
            }
            for u in &p.us {
                let u = build(u, &e);
                e.us.push(u);
            }
            build(&p.main, &e)
        });
        let built = fx::log_of(fx::BUILD);
        check!(built.is_empty(), "eager", "functions were called while composing them: {built:?}");
        let main = match keep {
            0 => main,
            1 => {
                let m = sut(|| main.clone());
                sut(move || drop(main));
                m
            }
            _ => main,
        };
        let one = {
            let (all, main, e) = (all.clone(), sut(|| main.clone()), sut(|| Env { us: e.us.clone(), ps: e.ps.clone() }));
            move |id: usize| {
            let (p, runs) = &*all;
            let (run, target) = &runs[id];
            fx::enter(run.id);
            let mut rec = Rec::new(run.id);
            let arg = Tok::new(run.arg);
            let (res, got) = match target {
                Target::Main => (run_u(&p.main, p, run.arg, &mut rec), catch(|| main(arg).val())),
                Target::Sub(i) => (run_u(&p.us[*i], p, run.arg, &mut rec), catch(|| e.us[*i](arg).val())),
                Target::Pred(i) => {
                    let got = catch(|| e.ps[*i].contains(&arg) as i64);
                    (run_p(&p.ps[*i], p, run.arg, &mut rec).map(|b| b as i64), got)
                }
            };
            judge(&format!("{target:?}"), run, Ref { log: rec.log, res }, got);
            fx::enter(fx::BUILD);
            }
        };
        let one = Arc::new(Here(one));
        if inner > 0 {
            let one = one.clone();
            fx::set_nest(Some(Arc::new(move |id| one.call(id))));
        }
        for id in t * per..(t + 1) * per {
            if tired() {
                break;
            }
            one.call(id);
            linger(1);
        }
        fx::set_nest(None);
        sut(move || drop(one));
        sut(move || drop(e));
        sut(move || drop(main));
    };
    if n == 1 { go(0) } else { threads(n, go) }
    ledger::check_empty("after the functions were dropped");
}

pub fn register(s: &mut Vec<Scenario>, i: &mut Vec<Info>) {
    s.push(Scenario { prop: "C21", name: "functions", gap_max: 800, faults: F_OWN, weight: 1, run: scenario });
    i.push(Info {
        prop: "C21",
        rule: "A random program of function morphisms (identity, arrow, compose, compose!, pipe!, sequence, when, then_if, split, first, second, both, combine), predicates (union, intersection, difference, negation, operators, combination), thunks (all evaluate forms), lenses, prisms, isos and their compositions, with parts used in several places, is built once and called 1-40 times by each of 1-2 threads; any part may panic in any call; the exact calls, their arguments, the outcome, the panic and the dropping of every value and captured closure are compared with a reference reading.",
        real: "FunctionCategory, Arrow, Predicate, Thunk, EvaluateExt, Lens, Prism, Iso, IsoLens, IsoPrism, unwinding",
        stub: "the composed functions are logging callbacks; thread scheduling",
        counters: &[],
    });
}
