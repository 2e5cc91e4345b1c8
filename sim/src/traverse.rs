//! Traversals, accumulation, error pipelines and collection helpers: C20.
//!
//! Every element function, predicate, recovery, lazy context and iterator step is user code that
//! is logged and may fail or panic at drawn positions; the calls made, their arguments and the
//! outcome are compared with a plain reading of the operation.
use crate::util::{self, Rec, Ref, Run, fails, judge, mix, mix2, step_fails, threads};
use rustica::datatypes::choice::Choice;
use rustica::datatypes::either::Either;
use rustica::datatypes::maybe::Maybe;
use rustica::datatypes::validated::Validated;
use rustica::error::{self, ComposableError, ErrorContext, ErrorOps, ErrorPipeline, LazyContext};
use rustica::pvec::PersistentVector;
use rustica::traits::bifunctor::Bifunctor;
use rustica::traits::foldable::{Foldable, FoldableExt};
use rustica::traits::functor::{Functor, FunctorExt};
use rustica::traits::hkt::BinaryHKT;
use rustica::traits::monad::Monad;
use rustica::traits::monoid::Monoid;
use rustica::traits::semigroup::Semigroup;
use rustica::traits::applicative::Applicative;
use rustica::utils::error_utils::{self as eu, WithError};
use rustica::utils::{categorical_utils as cu, hkt_utils as hu, transform_utils as tu};
use simcore::explore::{F_OWN, Info, Scenario};
use simcore::fx;
use simcore::ledger::{self, Tok};
use simcore::*;
use std::sync::Arc;

const EL: u32 = 1000; // element functions, by position
const SECOND: u32 = 2000; // a second function of the same elements
const FEED: u32 = 3000; // an iterator's step
const ONE: u32 = 10; // functions called at most once

/// A list-like result: values or errors.
type Out = Result<Vec<i64>, Vec<i64>>;
/// `Err`: the step that panics.
type R<T> = Result<T, u32>;

fn vals(v: &[Tok]) -> Vec<i64> {
    v.iter().map(|t| t.val()).collect()
}
/// Elements know their position.
fn pos(v: i64) -> u32 {
    (v / 1000) as u32
}
fn out_r(r: Result<Vec<Tok>, Tok>) -> Out {
    r.map(|v| vals(&v)).map_err(|e| vec![e.val()])
}
fn out_v(v: Validated<Tok, Vec<Tok>>) -> Out {
    match v {
        Validated::Valid(v) => Ok(vals(&v)),
        Validated::Invalid(e) => Err(vals(&e)),
    }
}
fn out_1(v: &Validated<Tok, Tok>) -> Out {
    match v {
        Validated::Valid(v) => Ok(vec![v.val()]),
        Validated::Invalid(e) => Err(vals(e)),
    }
}

/// User code on an element.
fn user(base: u32, a: &Tok) -> Tok {
    let k = base + pos(a.val());
    fx::effect(k, a.val());
    a.with(mix(k, a.val()))
}
fn r_user(r: &mut Rec, base: u32, a: i64) -> R<i64> {
    let k = base + pos(a);
    r.call(k, a)?;
    Ok(mix(k, a))
}
/// User code that may fail with an error made from its argument.
fn user_try(base: u32, a: &Tok) -> Result<Tok, Tok> {
    let t = user(base, a);
    if step_fails(base + pos(a.val())) { Err(a.with(a.val() + 7)) } else { Ok(t) }
}
fn r_try(r: &mut Rec, base: u32, a: i64) -> R<Result<i64, i64>> {
    let v = r_user(r, base, a)?;
    Ok(if fails(r.run, base + pos(a)) { Err(a + 7) } else { Ok(v) })
}
fn user_opt(base: u32, a: &Tok) -> Option<Tok> {
    user_try(base, a).ok()
}
fn r_opt(r: &mut Rec, base: u32, a: i64) -> R<Option<i64>> {
    Ok(r_try(r, base, a)?.ok())
}
fn user_is(base: u32, a: &Tok) -> bool {
    user_try(base, a).is_ok()
}
fn r_is(r: &mut Rec, base: u32, a: i64) -> R<bool> {
    Ok(r_try(r, base, a)?.is_ok())
}

/// An iterator of user code: logged steps, any honest size hint.
struct Feed<T> {
    items: std::vec::IntoIter<T>,
    hint: usize,
    at: u32,
    logged: bool,
}
impl<T> Iterator for Feed<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let _q = Mode::quiet();
        let x = self.items.next();
        if self.logged && x.is_some() {
            let k = FEED + self.at;
            self.at += 1;
            fx::effect(k, 0);
        }
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.items.len();
        match self.hint {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (0, Some(if n % 2 == 0 { n + 3 } else { usize::MAX })),
            3 => (n / 2, Some(n)),
            _ => (n, None),
        }
    }
}
fn feed<T>(items: Vec<T>, hint: usize, logged: bool) -> Feed<T> {
    Feed { items: items.into_iter(), hint, at: 0, logged }
}

#[derive(Clone, Debug)]
struct Case {
    op: usize,
    form: usize,
    hint: usize,
    /// The elements; `bad` tells which are errors where the input carries both.
    xs: Vec<i64>,
    bad: Vec<bool>,
    /// More elements, errors of an element, or steps.
    ys: Vec<i64>,
    many: Vec<Vec<i64>>,
    steps: Vec<St>,
}
/// A step of an error pipeline.
#[derive(Clone, Debug)]
enum St {
    Lazy(u32),
    Text(u32),
    Ctx(u32),
    MapError(u32),
    Recover(u32),
    AndThen(u32),
    Map(u32),
}

fn perform<O: PartialEq + std::fmt::Debug>(what: &str, run: &Run, want: impl FnOnce(&mut Rec) -> R<O>, got: impl FnOnce() -> O) {
    let mut rec = Rec::new(run.id);
    let res = want(&mut rec);
    judge(what, run, Ref { log: rec.log, res }, catch(got));
}

impl Case {
    fn draw() -> Case {
        let op = w(OPS.len());
        let n = if wchance(1, 7) { crate::util::size(9, 40, 270) } else { util::size(0, 7, 12) };
        // nor many elements where each step copies what came before
        let n = if op == 30 { n.min(300) } else { n };
        let xs = (0..n).map(|i| (i * 1000 + 1 + w(9)) as i64).collect();
        let p = [0, 0, 100, 300, 800][w(5)];
        let bad = (0..n).map(|_| p > 0 && wchance(p, 1024)).collect();
        // many of them only where that is not cubic
        let far = if op == 30 { 12 } else { 20 };
        let ys = (0..util::size(0, 6, far)).map(|i| (i * 1000 + 1 + w(9)) as i64).collect();
        let many = (0..n)
            .map(|i| {
                let m = if wchance(1, 12) { 0 } else if wchance(1, 8) { wr(5, 12) } else { wr(1, 3) };
                (0..m).map(|j| (i * 1000 + 100 + j * 10 + w(9)) as i64).collect()
            })
            .collect();
        let steps = (0..util::size(0, 7, 40))
            .map(|i| {
                let k = ONE + i as u32;
                match w(7) {
                    0 => St::Lazy(k),
                    1 => St::Text(k),
                    2 => St::Ctx(k),
                    3 => St::MapError(k),
                    4 => St::Recover(k),
                    5 => St::AndThen(k),
                    _ => St::Map(k),
                }
            })
            .collect();
        Case { op, form: w(6), hint: w(5), xs, bad, ys, many, steps }
    }
    fn toks(&self) -> Vec<Tok> {
        self.xs.iter().map(|x| Tok::new(*x)).collect()
    }
    fn results(&self) -> Vec<Result<Tok, Tok>> {
        self.xs.iter().zip(&self.bad).map(|(x, b)| if *b { Err(Tok::new(*x)) } else { Ok(Tok::new(*x)) }).collect()
    }
    /// Invalid ones carry any number of errors.
    fn validated(&self, empty: bool) -> Vec<Validated<Tok, Tok>> {
        (0..self.xs.len()).map(|i| self.validated_1(i, empty)).collect()
    }
    fn errs(&self, i: usize, empty: bool) -> Vec<i64> {
        if self.many[i].is_empty() && !empty { vec![self.xs[i]] } else { self.many[i].clone() }
    }
    fn validated_1(&self, i: usize, empty: bool) -> Validated<Tok, Tok> {
        if self.bad[i] {
            Validated::Invalid(self.errs(i, empty).into_iter().map(Tok::new).collect())
        } else {
            Validated::Valid(Tok::new(self.xs[i]))
        }
    }
    fn all(&self) -> Out {
        match self.bad.iter().position(|b| *b) {
            Some(i) => Err(vec![self.xs[i]]),
            None => Ok(self.xs.clone()),
        }
    }
    fn all_errors(&self, empty: bool) -> Out {
        if self.bad.iter().any(|b| *b) {
            Err((0..self.xs.len()).filter(|i| self.bad[*i]).flat_map(|i| self.errs(i, empty)).collect())
        } else {
            Ok(self.xs.clone())
        }
    }
    /// One value or its errors, from the first element.
    fn single(&self) -> Validated<Tok, Tok> {
        if self.xs.is_empty() { Validated::Valid(Tok::new(1)) } else { self.validated_1(0, true) }
    }
    fn single_out(&self) -> Out {
        if self.xs.is_empty() {
            Ok(vec![1])
        } else if self.bad[0] {
            Err(self.many[0].clone())
        } else {
            Ok(vec![self.xs[0]])
        }
    }
    fn keys(&self) -> Vec<u32> {
        let n = self.xs.len().max(self.ys.len()) as u32;
        let mut k: Vec<u32> = (0..n).flat_map(|i| [EL + i, SECOND + i, FEED + i]).collect();
        k.extend(ONE..ONE + 8);
        k
    }
}

fn with_all(r: &mut Rec, xs: &[i64], base: u32) -> R<Vec<i64>> {
    xs.iter().map(|x| r_user(r, base, *x)).collect()
}

const OPS: [fn(&Case, &Run); 32] = [
    sequence, traverse, traverse_validated, sequence_with_error, sequence_std, collect, validated_sequence, recover_all, recover_at_once, map_errors, map_valid,
    filter_map, zip_with, fan_out, pipeline, compose_all, transform_all, error_pipeline, error_pipeline, contexts, contexts_many, error_ops, choice, choice_2, folds, vec_ext, lifts, helpers, reusable, split_errors, monoids, odds,
];

fn sequence(c: &Case, run: &Run) {
    let input = c.results();
    perform("sequence", run, |_| Ok(c.all()), || out_r(eu::sequence(input)));
}
fn traverse(c: &Case, run: &Run) {
    let input = feed(c.toks(), c.hint, false);
    let want = |r: &mut Rec| {
        let mut v = Vec::new();
        for x in &c.xs {
            match r_try(r, EL, *x)? {
                Ok(y) => v.push(y),
                Err(e) => return Ok(Err(vec![e])),
            }
        }
        Ok(Ok(v))
    };
    perform("traverse", run, want, || out_r(eu::traverse(input, |a: Tok| user_try(EL, &a))));
}
fn traverse_validated(c: &Case, run: &Run) {
    let input = feed(c.toks(), c.hint, c.form % 2 == 0);
    let logged = input.logged;
    let want = |r: &mut Rec| {
        let (mut v, mut es) = (Vec::new(), Vec::new());
        for (i, x) in c.xs.iter().enumerate() {
            if logged {
                r.call(FEED + i as u32, 0)?;
            }
            match r_try(r, EL, *x)? {
                Ok(y) => v.push(y),
                Err(e) => es.push(e),
            }
        }
        Ok(if es.is_empty() { Ok(v) } else { Err(es) })
    };
    perform("traverse_validated", run, want, || out_v(eu::traverse_validated(input, |a: Tok| user_try(EL, &a))));
}
fn sequence_with_error(c: &Case, run: &Run) {
    let first = |_: &mut Rec| Ok(c.all());
    match c.form % 3 {
        0 => {
            let v = c.results();
            perform("sequence_with_error over Result", run, first, || out_r(eu::sequence_with_error::<_, Tok, Tok>(v)))
        }
        1 => {
            let v: Vec<Either<Tok, Tok>> = c.results().into_iter().map(|r| r.map_or_else(Either::Left, Either::Right)).collect();
            perform("sequence_with_error over Either", run, first, || out_r(eu::sequence_with_error::<_, Tok, Tok>(v)))
        }
        _ => {
            let v = c.validated(false);
            let want = |_: &mut Rec| {
                Ok(match c.bad.iter().position(|b| *b) {
                    Some(i) => Err(vec![c.errs(i, false)[0]]),
                    None => Ok(c.xs.clone()),
                })
            };
            perform("sequence_with_error over Validated", run, want, || out_r(eu::sequence_with_error::<_, Tok, Tok>(v)))
        }
    }
}
fn sequence_std(c: &Case, run: &Run) {
    let v = c.results();
    if c.form % 2 == 0 {
        perform("sequence_results", run, |_| Ok(c.all()), || out_r(cu::sequence_results(v)))
    } else {
        let v: Vec<Option<Tok>> = v.into_iter().map(|r| r.ok()).collect();
        perform("sequence_options", run, |_| Ok(c.all().ok()), || cu::sequence_options(v).map(|v| vals(&v)))
    }
}
fn collect(c: &Case, run: &Run) {
    let input = feed(c.validated(true), c.hint, true);
    let want = |r: &mut Rec| {
        for i in 0..c.xs.len() {
            r.call(FEED + i as u32, 0)?;
        }
        Ok(c.all_errors(true))
    };
    let pv = |v: Validated<Tok, PersistentVector<Tok>>| match v {
        Validated::Valid(v) => Ok(v.iter().map(|t| t.val()).collect()),
        Validated::Invalid(e) => Err(vals(&e)),
    };
    match c.form % 4 {
        0 => perform("Validated::collect", run, want, || out_v(Validated::collect(input))),
        1 => perform("Validated::collect_owned", run, want, || out_v(Validated::collect_owned(input))),
        2 => perform("Validated::collect into a persistent vector", run, want, || pv(Validated::collect(input))),
        _ => perform("Validated::collect_owned into a persistent vector", run, want, || pv(Validated::collect_owned(input))),
    }
}
fn validated_sequence(c: &Case, run: &Run) {
    let input = c.validated(true);
    let want = |r: &mut Rec| match c.all_errors(true) {
        Ok(v) => {
            let s = v.iter().fold(0, |a, x| mix2(ONE, a, *x));
            r.call(ONE, s)?;
            Ok(Ok(vec![mix(ONE, s)]))
        }
        e => Ok(e),
    };
    let f = |v: &[Tok]| {
        let s = v.iter().fold(0, |a, x| mix2(ONE, a, x.val()));
        fx::effect(ONE, s);
        Tok::new(mix(ONE, s))
    };
    if c.form % 2 == 0 {
        let refs: Vec<&Validated<Tok, Tok>> = input.iter().collect();
        perform("Validated::sequence", run, want, || out_1(&Validated::sequence(&refs, &f)));
        for (i, v) in input.iter().enumerate() {
            let mut one = c.clone();
            one.xs = vec![c.xs[i]];
            one.bad = vec![c.bad[i]];
            one.many = vec![c.many[i].clone()];
            check!(out_1(v) == one.all_errors(true), "input-changed", "Validated::sequence changed its input {i}");
        }
    } else {
        perform("Validated::sequence_owned", run, want, || out_1(&Validated::sequence_owned(input, |v| f(&v))));
    }
}
fn many(c: &Case) -> Vec<i64> {
    c.xs.clone()
}
fn invalid(c: &Case) -> Validated<Tok, Tok> {
    if c.form == 5 { Validated::Valid(Tok::new(5)) } else { Validated::Invalid(many(c).into_iter().map(Tok::new).collect()) }
}
fn recover_all(c: &Case, run: &Run) {
    let v = invalid(c);
    // a recovery gives a value, or any number of other errors
    let want = |r: &mut Rec| {
        if c.form == 5 {
            return Ok(Ok(vec![5]));
        }
        let mut es = Vec::new();
        for (i, x) in c.xs.iter().enumerate() {
            match r_try(r, EL, *x)? {
                Err(e) if c.bad[i] => return Ok(Ok(vec![e])),
                _ => es.extend(c.many[i].clone()),
            }
        }
        Ok(Err(es))
    };
    let rec = |e: Tok| match user_try(EL, &e) {
        Err(x) if c.bad[pos(e.val()) as usize] => Validated::Valid(x),
        _ => Validated::Invalid(c.many[pos(e.val()) as usize].iter().map(|x| Tok::new(*x)).collect()),
    };
    perform("Validated::recover_all", run, want, || out_1(&v.recover_all(rec)));
}
fn recover_at_once(c: &Case, run: &Run) {
    let v = invalid(c);
    if c.form % 2 == 0 {
        let want = |r: &mut Rec| {
            let s = c.xs.iter().fold(0, |a, x| mix2(ONE, a, *x));
            r.call(ONE, s)?;
            Ok(if fails(r.run, ONE) { Err(vec![s]) } else { Ok(vec![s]) })
        };
        perform("Validated::recover_all_at_once", run, want, || {
            out_1(&v.recover_all_at_once(|es| {
                let s = es.iter().fold(0, |a, x| mix2(ONE, a, x.val()));
                fx::effect(ONE, s);
                if step_fails(ONE) { Validated::Invalid([Tok::new(s)].into_iter().collect()) } else { Validated::Valid(Tok::new(s)) }
            }))
        });
    } else if c.form == 5 {
        perform("Validated::recover_all_at_once", run, |_| Ok(Ok(vec![5])), || out_1(&v.recover_all_at_once(|_| fail("steps", "a valid value is recovered"))));
    } else {
        perform("Validated::recover_with", run, |_| Ok(Ok(vec![9])), || out_1(&v.recover_with(Tok::new(9))));
    }
}
fn map_errors(c: &Case, run: &Run) {
    let v = invalid(c);
    let want = |r: &mut Rec| if c.form == 5 { Ok(Ok(vec![5])) } else { Ok(Err(with_all(r, &c.xs, EL)?)) };
    let by_ref = |e: &Tok| user(EL, e);
    let owned = |e: Tok| user(EL, &e);
    match c.hint {
        0 => perform("Validated::fmap_invalid", run, want, || out_1(&v.fmap_invalid(by_ref))),
        1 => perform("Validated::fmap_invalid_owned", run, want, || out_1(&v.fmap_invalid_owned(owned))),
        2 => perform("Validated::map_second", run, want, || out_1(&v.map_second(by_ref))),
        3 => perform("Validated::fmap_error", run, want, || out_1(&v.fmap_error(owned))),
        _ if c.form % 2 == 0 => perform("Validated::map_second_owned", run, want, || out_1(&v.map_second_owned(owned))),
        _ => perform("Validated::second", run, want, || out_1(&v.second(by_ref))),
    }
}
fn map_valid(c: &Case, run: &Run) {
    let v = c.single();
    let x = c.single_out();
    let want = |r: &mut Rec| match &x {
        Ok(v) => Ok(Ok(vec![r_user(r, EL, v[0])?])),
        e => Ok(e.clone()),
    };
    let bound = |r: &mut Rec| match &x {
        Ok(v) => Ok(match r_try(r, EL, v[0])? {
            Ok(y) => Ok(vec![y]),
            Err(e) => Err(vec![e]),
        }),
        e => Ok(e.clone()),
    };
    let conv = |r: Result<Tok, Tok>| match r {
        Ok(t) => Validated::Valid(t),
        Err(e) => Validated::Invalid([e].into_iter().collect()),
    };
    match c.hint {
        0 => perform("Validated::fmap", run, want, || out_1(&v.fmap(|a: &Tok| user(EL, a)))),
        1 => perform("Validated::fmap_owned", run, want, || out_1(&v.fmap_owned(|a: Tok| user(EL, &a)))),
        2 => perform("Validated::bind", run, bound, || out_1(&v.bind(|a: &Tok| conv(user_try(EL, a))))),
        3 => perform("Validated::bind_owned", run, bound, || out_1(&v.bind_owned(|a: Tok| conv(user_try(EL, &a))))),
        _ => {
            let want = |r: &mut Rec| match &x {
                Ok(v) => Ok(Ok(vec![r_user(r, EL, v[0])?])),
                Err(es) => Ok(Err(es.iter().enumerate().map(|(i, e)| r_one(r, SECOND + (i as u32).min(7), *e)).collect::<R<Vec<_>>>()?)),
            };
            let at = std::sync::atomic::AtomicU32::new(0);
            perform("Validated::bimap", run, want, || {
                out_1(&v.bimap(
                    |a: &Tok| user(EL, a),
                    |e: &Tok| {
                        let i = at.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        one(SECOND + i.min(7), e)
                    },
                ))
            })
        }
    }
}
fn one(k: u32, a: &Tok) -> Tok {
    fx::effect(k, a.val());
    a.with(mix(k, a.val()))
}
fn r_one(r: &mut Rec, k: u32, a: i64) -> R<i64> {
    r.call(k, a)?;
    Ok(mix(k, a))
}

fn filter_map(c: &Case, run: &Run) {
    let input = feed(c.toks(), c.hint, c.form >= 3);
    let logged = input.logged;
    if c.form % 3 == 0 {
        let want = |r: &mut Rec| {
            let mut v = Vec::new();
            for (i, x) in c.xs.iter().enumerate() {
                if logged {
                    r.call(FEED + i as u32, 0)?;
                }
                if r_is(r, SECOND, *x)? {
                    v.push(r_user(r, EL, *x)?);
                }
            }
            Ok(v)
        };
        perform("filter_map", run, want, || vals(&hu::filter_map(input, |a: &Tok| user_is(SECOND, a), |a: Tok| user(EL, &a))));
    } else {
        let want = |r: &mut Rec| {
            let mut v = Vec::new();
            for (i, x) in c.xs.iter().enumerate() {
                if logged {
                    r.call(FEED + i as u32, 0)?;
                }
                v.extend(r_opt(r, EL, *x)?);
            }
            Ok(v)
        };
        perform("filter_map_collect", run, want, || vals(&cu::filter_map_collect(input, |a: Tok| user_opt(EL, &a))));
    }
}
fn zip_with(c: &Case, run: &Run) {
    let (xs, ys) = (c.toks(), c.ys.iter().map(|y| Tok::new(*y)).collect());
    let want = |r: &mut Rec| c.xs.iter().zip(&c.ys).map(|(x, y)| r_one(r, EL + pos(*x), mix2(3, *x, *y))).collect::<R<Vec<_>>>();
    perform("zip_with", run, want, || vals(&hu::zip_with(xs, ys, |a: Tok, b: Tok| one(EL + pos(a.val()), &a.with(mix2(3, a.val(), b.val()))))));
}
fn fan_out(c: &Case, run: &Run) {
    let fs: Vec<_> = (0..c.xs.len() as u32)
        .map(|i| {
            let g = Tok::new(0);
            move |a: Tok| {
                let _ = g.val();
                one(EL + i, &a)
            }
        })
        .collect();
    let t = Tok::new(4);
    perform("fan_out", run, |r| (0..c.xs.len() as u32).map(|i| r_one(r, EL + i, 4)).collect::<R<Vec<_>>>(), || vals(&hu::fan_out(t, fs)));
}
fn pipeline(c: &Case, run: &Run) {
    let fs: Vec<_> = (0..c.xs.len() as u32)
        .map(|i| {
            let g = Tok::new(0);
            move |a: Tok| {
                let _ = g.val();
                let b = one(EL + i, &a);
                if step_fails(EL + i) { Err(b) } else { Ok(b) }
            }
        })
        .collect();
    let t = Tok::new(4);
    let want = |r: &mut Rec| {
        let mut a = 4;
        for i in 0..c.xs.len() as u32 {
            a = r_one(r, EL + i, a)?;
            if fails(r.run, EL + i) {
                return Ok(Err(a));
            }
        }
        Ok(Ok(a))
    };
    let out = |r: Result<Tok, Tok>| r.map(|t| t.val()).map_err(|t| t.val());
    match c.form % 3 {
        0 => perform("pipeline_result", run, want, || out(hu::pipeline_result(t, fs))),
        1 => perform("try_pipeline", run, want, || out(hu::try_pipeline(t, fs))),
        _ => {
            let fs: Vec<_> = fs.into_iter().map(|f| move |a: Tok| f(a).ok()).collect();
            let fs = feed(fs, c.hint, false);
            perform("pipeline_option", run, |r| Ok(want(r)?.ok()), || hu::pipeline_option::<Tok, Tok, _, _>(t, fs).map(|t| t.val()))
        }
    }
}
fn compose_all(c: &Case, run: &Run) {
    let n = c.xs.len() as u32;
    let fs: Vec<Box<dyn Fn(Tok) -> Tok>> = (0..n)
        .map(|i| {
            let g = Tok::new(0);
            Box::new(move |a: Tok| {
                let _ = g.val();
                one(EL + i, &a)
            }) as _
        })
        .collect();
    let f = sut(|| hu::compose_all::<Tok, Tok>(fs));
    check!(fx::log_of(run.id).is_empty(), "eager", "compose_all called its functions while composing");
    let want = |r: &mut Rec| (0..n).try_fold(4, |a, i| r_one(r, EL + i, a));
    perform("compose_all", run, want, || f(Tok::new(4)).val());
}
fn transform_all(c: &Case, run: &Run) {
    let opts: Vec<Option<Tok>> = c.results().into_iter().map(|r| r.ok()).collect();
    let show = |v: &[Option<Tok>]| v.iter().map(|o| o.as_ref().map(|t| t.val())).collect::<Vec<_>>();
    let before = show(&opts);
    let want = |r: &mut Rec| {
        let mut v = Vec::new();
        for (x, b) in c.xs.iter().zip(&c.bad) {
            v.push(if *b { None } else { Some(r_user(r, EL, *x)?) });
        }
        Ok(v)
    };
    if c.form % 2 == 0 {
        perform("transform_all", run, want, || show(&tu::transform_all(&opts, |a: &Tok| user(EL, a))));
        check!(show(&opts) == before, "input-changed", "transform_all changed its input");
    } else {
        // mapping over and over in a pipeline
        let v = c.toks();
        let want = |r: &mut Rec| {
            let a = with_all(r, &c.xs, EL)?;
            c.xs.iter().zip(a).map(|(x, a)| r_one(r, SECOND + pos(*x), a)).collect::<R<Vec<_>>>()
        };
        let at = std::sync::atomic::AtomicU32::new(0);
        perform("Pipeline", run, want, || {
            vals(
                &tu::Pipeline::new(v)
                    .map(|a: &Tok| user(EL, a))
                    .map_owned(|a: Tok| one(SECOND + at.fetch_add(1, std::sync::atomic::Ordering::Relaxed), &a))
                    .extract(),
            )
        });
    }
}

/// value or error with its contexts, newest first
type Piped = Result<i64, (i64, Vec<String>)>;
fn error_pipeline(c: &Case, run: &Run) {
    let start: Result<Tok, Tok> = if c.form % 2 == 0 { Ok(Tok::new(3)) } else { Err(Tok::new(3)) };
    let want = |r: &mut Rec| -> R<Piped> {
        let mut x: Result<i64, i64> = if c.form % 2 == 0 { Ok(3) } else { Err(3) };
        let mut ctx: Vec<String> = Vec::new();
        for s in &c.steps {
            match (s, x) {
                (St::Lazy(k), Err(_)) => {
                    r.call(*k, 0)?;
                    ctx.push(fx::long_text("c", *k));
                }
                (St::Text(k) | St::Ctx(k), Err(_)) => ctx.push(fx::long_text("c", *k)),
                (St::MapError(k), Err(e)) => x = Err(r_one(r, *k, e)?),
                (St::Map(k), Ok(v)) => x = Ok(r_one(r, *k, v)?),
                (St::Recover(k), Err(e)) | (St::AndThen(k), Ok(e)) => {
                    let y = r_one(r, *k, e)?;
                    x = if fails(r.run, *k) { Err(y) } else { Ok(y) };
                }
                _ => {}
            }
        }
        Ok(x.map_err(|e| {
            ctx.reverse();
            (e, ctx)
        }))
    };
    let lazy = |k: u32| {
        let g = Tok::new(0);
        LazyContext::new(move || {
            let _ = g.val();
            fx::effect(k, 0);
            fx::long_text("c", k)
        })
    };
    let both = |k: u32, a: Tok| {
        let b = one(k, &a);
        if step_fails(k) { Err(b) } else { Ok(b) }
    };
    perform("ErrorPipeline", run, want, || {
        let mut p = if c.hint % 2 == 0 { ErrorPipeline::new(start) } else { error::error_pipeline(start) };
        for s in &c.steps {
            p = match *s {
                St::Lazy(k) => p.with_context(lazy(k)),
                St::Text(k) => p.with_context(fx::long_text("c", k)),
                St::Ctx(k) => p.with_context(ErrorContext::new(fx::long_text("c", k))),
                St::MapError(k) => p.map_error(|e| one(k, &e)),
                St::Map(k) => p.map(|v| one(k, &v)),
                St::Recover(k) => p.recover(|e| both(k, e)),
                St::AndThen(k) => p.and_then(|v| both(k, v)),
            };
        }
        let show = |e: &ComposableError<Tok>| (e.core_error().val(), e.context());
        if c.hint < 2 { p.finish().map(|t| t.val()).map_err(|e| show(&e)) } else { p.finish_without_box().map(|t| t.val()).map_err(|e| show(&e)) }
    });
}
fn contexts(c: &Case, run: &Run) {
    let bad = c.form % 2 == 1;
    let input: Result<Tok, Tok> = if bad { Err(Tok::new(3)) } else { Ok(Tok::new(3)) };
    let g = Tok::new(0);
    let lazy = LazyContext::new(move || {
        let _ = g.val();
        fx::effect(ONE, 0);
        "lazy".to_string()
    });
    let show = |e: &ComposableError<Tok>| (e.core_error().val(), e.context());
    if c.hint < 3 {
        let want = |r: &mut Rec| -> R<Piped> {
            if bad {
                r.call(ONE, 0)?;
                Ok(Err((3, vec!["lazy".into()])))
            } else {
                Ok(Ok(3))
            }
        };
        perform("with_context_result", run, want, || error::with_context_result(input, lazy).map(|t| t.val()).map_err(|e| show(&e)));
    } else {
        let want = |r: &mut Rec| {
            r.call(ONE, 0)?;
            Ok((r_one(r, ONE + 1, 3)?, vec!["last".to_string(), "lazy".to_string()]))
        };
        let e = input.unwrap_or_else(|e| e);
        perform("with_context", run, want, || show(&error::with_context(e, lazy).with_context("last").map_core(|e| one(ONE + 1, &e))));
    }
}
fn contexts_many(c: &Case, run: &Run) {
    let n = c.ys.len() as u32;
    let lazies: Vec<_> = (0..n)
        .map(|i| {
            let g = Tok::new(0);
            LazyContext::new(move || {
                let _ = g.val();
                fx::effect(EL + i, 0);
                format!("c{i}")
            })
        })
        .collect();
    let want = |r: &mut Rec| {
        for i in 0..n {
            r.call(EL + i, 0)?;
        }
        Ok((3, (0..n).rev().map(|i| format!("c{i}")).collect::<Vec<_>>()))
    };
    let input = feed(lazies, c.hint, false);
    let e = Tok::new(3);
    let show = |e: ComposableError<Tok>| (e.core_error().val(), e.context());
    perform("accumulate_context", run, want, || show(error::accumulate_context(e, input)));
}
fn error_ops(c: &Case, run: &Run) {
    let bad = c.form % 2 == 1;
    let recover = |r: &mut Rec| {
        if bad {
            let y = r_one(r, ONE, 3)?;
            Ok(if fails(r.run, ONE) { Err(y) } else { Ok(y) })
        } else {
            Ok(Ok(3))
        }
    };
    let bimap = |r: &mut Rec| Ok(if bad { Err(r_one(r, ONE, 3)?) } else { Ok(r_one(r, ONE + 1, 3)?) });
    let rec = |e: Tok| {
        let y = one(ONE, &e);
        if step_fails(ONE) { Err(y) } else { Ok(y) }
    };
    let out = |r: Result<Tok, Tok>| r.map(|t| t.val()).map_err(|t| t.val());
    let r: Result<Tok, Tok> = if bad { Err(Tok::new(3)) } else { Ok(Tok::new(3)) };
    let e = |r: Result<Tok, Tok>| match r {
        Ok(v) => Either::Right(v),
        Err(e) => Either::Left(e),
    };
    match c.hint {
        0 => perform("ErrorOps::recover on Result", run, recover, || out(ErrorOps::recover(r, rec))),
        1 => perform("ErrorOps::bimap_result on Result", run, bimap, || out(r.bimap_result(|v| one(ONE + 1, &v), |x| one(ONE, &x)))),
        2 => perform("ErrorOps::recover on Either", run, recover, || out(ErrorOps::recover(e(r), |x| e(rec(x))).to_result())),
        3 => perform("ErrorOps::bimap_result on Either", run, bimap, || out(e(r).bimap_result(|v| one(ONE + 1, &v), |x| one(ONE, &x)))),
        _ => perform("bimap_result", run, bimap, || out(cu::bimap_result(r, |v| one(ONE + 1, &v), |x| one(ONE, &x)))),
    }
}
fn choice_of(c: &Case) -> Choice<Tok> {
    c.toks().into_iter().collect()
}
fn of_choice(c: &Choice<Tok>) -> Vec<i64> {
    c.iter().map(|t| t.val()).collect()
}
fn choice(c: &Case, run: &Run) {
    let x = choice_of(c);
    let all = |r: &mut Rec| with_all(r, &c.xs, EL);
    match c.form {
        0 => perform("Choice::fmap", run, all, || of_choice(&x.fmap(|a: &Tok| user(EL, a)))),
        1 => {
            let x = x.clone();
            perform("Choice::fmap_owned", run, all, move || of_choice(&x.fmap_owned(|a: Tok| user(EL, &a))))
        }
        _ => {
            let want = |r: &mut Rec| {
                let mut v = Vec::new();
                for x in &c.xs {
                    if r_is(r, EL, *x)? {
                        v.push(*x);
                    }
                }
                Ok(v)
            };
            perform("Choice::filter_values", run, want, || of_choice(&x.filter_values(|a: &Tok| user_is(EL, a))))
        }
    }
    check!(of_choice(&x) == c.xs, "input-changed", "an operation changed a Choice");
}
fn choice_2(c: &Case, run: &Run) {
    let x = choice_of(c);
    let want = |r: &mut Rec| {
        let mut v = Vec::new();
        for (i, x) in c.xs.iter().enumerate() {
            let y = r_user(r, EL, *x)?;
            v.push(y);
            if i > 0 || !c.many[i].is_empty() {
                v.extend(c.many[i].iter());
            }
        }
        Ok(v)
    };
    let f = |a: &Tok| {
        let y = user(EL, a);
        Choice::new(y, c.many[pos(a.val()) as usize].iter().map(|v| Tok::new(*v)))
    };
    if c.form % 2 == 0 {
        perform("Choice::bind", run, want, || of_choice(&x.bind(f)));
    } else {
        let x = x.clone();
        perform("Choice::bind_owned", run, want, || of_choice(&x.bind_owned(|a| f(&a))));
    }
    check!(of_choice(&x) == c.xs, "input-changed", "an operation changed a Choice");
}

#[derive(Clone, Debug, PartialEq)]
struct Cat(Vec<i64>);
impl Semigroup for Cat {
    fn combine(&self, o: &Cat) -> Cat {
        Cat(self.0.iter().chain(&o.0).copied().collect())
    }
    fn combine_owned(self, o: Cat) -> Cat {
        self.combine(&o)
    }
}
impl Monoid for Cat {
    fn empty() -> Cat {
        Cat(Vec::new())
    }
}
fn fold_over<T: Foldable<Source = Tok>>(name: &str, x: &T, xs: &[i64], c: &Case, run: &Run) {
    let kept = |r: &mut Rec| -> R<Option<i64>> {
        for x in xs {
            if r_is(r, EL, *x)? {
                return Ok(Some(*x));
            }
        }
        Ok(None)
    };
    match c.form {
        0 => {
            let want = |r: &mut Rec| xs.iter().try_fold(1, |a, x| Ok(mix2(4, a, r_user(r, EL, *x)?)));
            perform(&format!("fold_left over {name}"), run, want, || x.fold_left(&Tok::new(1), |a, t| a.with(mix2(4, a.val(), user(EL, t).val()))).val())
        }
        1 => {
            let want = |r: &mut Rec| xs.iter().rev().try_fold(1, |a, x| Ok(mix2(4, a, r_user(r, EL, *x)?)));
            perform(&format!("fold_right over {name}"), run, want, || x.fold_right(&Tok::new(1), |t, a| a.with(mix2(4, a.val(), user(EL, t).val()))).val())
        }
        2 => perform(&format!("find in {name}"), run, kept, || x.find(|t| user_is(EL, t)).map(|t| t.val())),
        3 => perform(&format!("any in {name}"), run, |r| Ok(kept(r)?.is_some()), || x.any(|t| user_is(EL, t))),
        4 => {
            let want = |r: &mut Rec| {
                for x in xs {
                    if !r_is(r, EL, *x)? {
                        return Ok(false);
                    }
                }
                Ok(true)
            };
            perform(&format!("all of {name}"), run, want, || x.all(|t| user_is(EL, t)))
        }
        _ if c.hint % 2 == 0 => {
            let want = |r: &mut Rec| {
                let mut v = Vec::new();
                for x in xs {
                    match r_opt(r, EL, *x)? {
                        Some(y) => v.push(y),
                        None => return Ok(None),
                    }
                }
                Ok(Some(Cat(v)))
            };
            perform(&format!("fold_option over {name}"), run, want, || x.fold_option(|t| user_opt(EL, t).map(|y| Cat(vec![y.val()]))))
        }
        _ => perform(&format!("fold_map over {name}"), run, |r| Ok(Cat(with_all(r, xs, EL)?)), || x.fold_map(|t| Cat(vec![user(EL, t).val()]))),
    }
}
fn folds(c: &Case, run: &Run) {
    let first: Vec<i64> = c.xs.first().copied().into_iter().filter(|_| !c.bad[0]).collect();
    match c.ys.len() {
        0 => fold_over("a Choice", &choice_of(c), &c.xs, c, run),
        1 => fold_over("an Option", &first.first().map(|x| Tok::new(*x)), &first, c, run),
        2 => fold_over("a Result", &first.first().map(|x| Tok::new(*x)).ok_or(Tok::new(0)), &first, c, run),
        3 => fold_over("a Validated", &c.single(), &c.single_out().unwrap_or_default(), c, run),
        _ => fold_over("a Vec", &c.toks(), &c.xs, c, run),
    }
}
fn vec_ext(c: &Case, run: &Run) {
    let x = c.toks();
    match c.form {
        0 => perform("Vec::fmap", run, |r| with_all(r, &c.xs, EL), || vals(&Functor::fmap(&x, |a: &Tok| user(EL, a)))),
        1 => {
            let x = x.clone();
            perform("Vec::fmap_owned", run, |r| with_all(r, &c.xs, EL), || vals(&x.fmap_owned(|a: Tok| user(EL, &a))))
        }
        2 => {
            let want = |r: &mut Rec| {
                let mut v = Vec::new();
                for x in &c.xs {
                    v.extend(r_opt(r, EL, *x)?);
                }
                Ok(v)
            };
            perform("FunctorExt::filter_map on Vec", run, want, || vals(&FunctorExt::filter_map(&x, |a: &Tok| user_opt(EL, a))))
        }
        3 => {
            let want = |r: &mut Rec| c.xs.iter().map(|x| Ok(r_try(r, EL, *x)?.unwrap_or(8))).collect::<R<Vec<_>>>();
            perform("try_map_or on Vec", run, want, || vals(&x.try_map_or(Tok::new(8), |a: &Tok| user_try(EL, a))))
        }
        4 => {
            let want = |r: &mut Rec| {
                let mut v = Vec::new();
                for x in &c.xs {
                    v.push(match r_try(r, EL, *x)? {
                        Ok(y) => y,
                        Err(e) => r_user(r, SECOND, e)?,
                    });
                }
                Ok(v)
            };
            perform("try_map_or_else on Vec", run, want, || vals(&x.try_map_or_else(|e: &Tok| user(SECOND, e), |a: &Tok| user_try(EL, a))))
        }
        _ => {
            let m = if c.xs.is_empty() { Maybe::Nothing } else { Maybe::Just(Tok::new(c.xs[0])) };
            let want = |r: &mut Rec| match c.xs.first() {
                Some(x) => Ok(if r_is(r, EL, *x)? { Some(r_user(r, SECOND, *x)?) } else { None }),
                None => Ok(None),
            };
            perform("Maybe::filter and fmap_or", run, want, || m.filter(|a| user_is(EL, a)).fmap_or(None, |a| Some(user(SECOND, &a).val())))
        }
    }
    check!(vals(&x) == c.xs, "input-changed", "an operation changed its input");
}
/// The one-value helpers.
fn helpers(c: &Case, run: &Run) {
    let bad = c.form % 2 == 1;
    let some = |r: &mut Rec| if bad { Ok(None) } else { Ok(Some(r_one(r, ONE, 3)?)) };
    let chain = |r: &mut Rec| Ok(some(r)?.filter(|_| !fails(r.run, ONE)));
    let o: Option<Tok> = if bad { None } else { Some(Tok::new(3)) };
    let r: Result<Tok, Tok> = o.clone().ok_or_else(|| Tok::new(5));
    let f = |a: Tok| one(ONE, &a);
    let g = |a: Tok| {
        let b = one(ONE, &a);
        if step_fails(ONE) { Err(b) } else { Ok(b) }
    };
    let v = |o: Option<Tok>| o.map(|t| t.val());
    let out = |r: Result<Tok, Tok>| r.map(|t| t.val()).map_err(|t| t.val());
    let mapped = |r: &mut Rec| Ok(some(r)?.ok_or(5));
    match c.hint * 2 + c.form / 3 {
        0 => perform("map_option", run, some, || v(cu::map_option(o, f))),
        1 => perform("flat_map_option", run, chain, || v(cu::flat_map_option(o, |a| g(a).ok()))),
        2 => perform("map_result", run, mapped, || out(cu::map_result(r, f))),
        3 => perform("hkt map_result", run, mapped, || out(hu::map_result(r, f))),
        4 => {
            let want = |rec: &mut Rec| match some(rec)? {
                Some(y) => Ok(if fails(rec.run, ONE) { Err(y) } else { Ok(y) }),
                None => Ok(Err(5)),
            };
            perform("flat_map_result", run, want, || out(cu::flat_map_result(r, g)))
        }
        5 => {
            // made once, called again and again
            let t = Tok::new(0);
            let lifted = sut(|| {
                hu::lift_option(move |a: Tok| {
                    let _ = t.val();
                    one(ONE, &a)
                })
            });
            let k = c.ys.len().min(3) + 1;
            let want = |r: &mut Rec| (0..k).map(|_| some(r)).collect::<R<Vec<_>>>();
            perform("lift_option", run, want, || (0..k).map(|_| v(lifted(o.clone()))).collect::<Vec<_>>())
        }
        6 => {
            let xs = if bad { None } else { Some(c.toks()) };
            let want = |r: &mut Rec| if bad { Ok(None) } else { Ok(Some(with_all(r, &c.xs, EL)?)) };
            perform("transform_chain", run, want, || tu::transform_chain(xs, |a: &Tok| user(EL, a)).map(|v| vals(&v)))
        }
        7 => {
            let t = Tok::new(0);
            let h = sut(|| {
                cu::flip(move |a: Tok, b: Tok| {
                    let _ = t.val();
                    one(ONE, &a.with(mix2(3, a.val(), b.val())))
                })
            });
            perform("flip", run, |r| r_one(r, ONE, mix2(3, 7, 8)), || h(Tok::new(8), Tok::new(7)).val())
        }
        8 => {
            let t = Tok::new(3);
            let h = sut(|| rustica::utils::functions::const_fn::<Tok, Tok>(t));
            for i in 0..3 {
                check!(sut(|| h(Tok::new(i))).val() == 3, "value", "const_fn changed its value");
            }
        }
        _ => {
            let t = Tok::new(9);
            perform("functions::id", run, |_| Ok(9), || rustica::utils::functions::id(t).val())
        }
    }
}
/// A monoid made of elements, by logged conversions.
#[derive(Clone)]
struct Conv(Vec<i64>);
impl From<Tok> for Conv {
    fn from(t: Tok) -> Conv {
        Conv(vec![user(EL, &t).val()])
    }
}
impl Semigroup for Conv {
    fn combine(&self, o: &Conv) -> Conv {
        Conv(self.0.iter().chain(&o.0).copied().collect())
    }
    fn combine_owned(self, o: Conv) -> Conv {
        self.combine(&o)
    }
}
impl Monoid for Conv {
    fn empty() -> Conv {
        Conv(Vec::new())
    }
}
/// A lazy context that can be cloned with the function it is given to.
#[derive(Clone)]
struct Ctx(u32, Tok);
impl error::IntoErrorContext for Ctx {
    fn into_error_context(self) -> ErrorContext {
        let _ = self.1.val();
        fx::effect(self.0, 0);
        ErrorContext::new(format!("c{}", self.0))
    }
}
/// Context functions made once and given several errors; folds by conversion.
fn reusable(c: &Case, run: &Run) {
    let n = c.ys.len() as u32;
    let show = |e: ComposableError<Tok>| (e.core_error().val(), e.context());
    match c.form % 3 {
        0 => {
            let ctx = Ctx(ONE, Tok::new(0));
            let f = sut(|| error::context_fn::<Tok, Ctx>(ctx));
            check!(fx::log_of(run.id).is_empty(), "eager", "context_fn evaluated its context");
            let want = |r: &mut Rec| {
                (0..n)
                    .map(|i| {
                        r.call(ONE, 0)?;
                        Ok((i as i64, vec![format!("c{ONE}")]))
                    })
                    .collect::<R<Vec<_>>>()
            };
            perform("context_fn", run, want, || (0..n).map(|i| show(f(Tok::new(i as i64)))).collect::<Vec<_>>());
        }
        1 => {
            let m = c.xs.len() as u32;
            let ctx: Vec<Ctx> = (0..m).map(|i| Ctx(EL + i, Tok::new(0))).collect();
            let f = sut(|| error::context_accumulator::<Tok, _, Ctx>(ctx));
            check!(fx::log_of(run.id).is_empty(), "eager", "context_accumulator evaluated its contexts");
            let want = |r: &mut Rec| {
                (0..n.min(3))
                    .map(|i| {
                        for j in 0..m {
                            r.call(EL + j, 0)?;
                        }
                        Ok((i as i64, (0..m).rev().map(|j| format!("c{}", EL + j)).collect::<Vec<_>>()))
                    })
                    .collect::<R<Vec<_>>>()
            };
            perform("context_accumulator", run, want, || (0..n.min(3)).map(|i| show(f(Tok::new(i as i64)))).collect::<Vec<_>>());
        }
        _ => {
            let input = feed(c.toks(), c.hint, c.form >= 3);
            let logged = input.logged;
            let want = |r: &mut Rec| {
                let mut v = Vec::new();
                for (i, x) in c.xs.iter().enumerate() {
                    if logged {
                        r.call(FEED + i as u32, 0)?;
                    }
                    v.push(r_user(r, EL, *x)?);
                }
                Ok(v)
            };
            perform("fold_with", run, want, || cu::fold_with::<_, Tok, Conv>(input).0);
        }
    }
}
/// Errors gathered from an iterator, and taken apart again; contexts attached to a core error.
fn split_errors(c: &Case, run: &Run) {
    match c.form % 3 {
        0 => {
            let input = feed(c.toks(), c.hint, c.form >= 3);
            let logged = input.logged;
            let want = |r: &mut Rec| {
                if logged {
                    for i in 0..c.xs.len() as u32 {
                        r.call(FEED + i, 0)?;
                    }
                }
                Ok(if c.xs.is_empty() { Ok(vec![]) } else { Err(c.xs.clone()) })
            };
            perform("collect_errors", run, want, || match error::collect_errors(input) {
                Validated::Valid(()) => Ok(vec![]),
                Validated::Invalid(e) => Out::Err(vals(&e)),
            })
        }
        1 => {
            let v = if c.hint == 0 { c.single() } else { Validated::Invalid(c.xs.iter().map(|x| Tok::new(*x)).collect()) };
            let want: Vec<Result<i64, i64>> = match out_1(&v) {
                Ok(v) => vec![Ok(v[0])],
                Err(e) => e.into_iter().map(Err).collect(),
            };
            perform("split_validated_errors", run, |_| Ok(want), || {
                error::split_validated_errors(v).into_iter().map(|r| r.map(|t| t.val()).map_err(|t| t.val())).collect::<Vec<_>>()
            })
        }
        _ => {
            let r: Result<Tok, ComposableError<Tok>> = if c.hint % 2 == 0 { Ok(Tok::new(3)) } else { Err(ComposableError::new(Tok::new(3)).with_context("a")) };
            let want = if c.hint % 2 == 0 { Ok(3) } else { Err(3) };
            perform("flatten_composable_result", run, |_| Ok(want), || error::flatten_composable_result(r).map(|t| t.val()).map_err(|t| t.val()))
        }
    }
}
/// A number whose arithmetic is user code, named by its right operand.
#[derive(Clone)]
struct Num(Tok);
impl Default for Num {
    fn default() -> Num {
        Num(Tok::new(2))
    }
}
impl From<u8> for Num {
    fn from(v: u8) -> Num {
        Num(Tok::new(v as i64 * 2))
    }
}
impl std::ops::Add for Num {
    type Output = Num;
    fn add(self, o: Num) -> Num {
        Num(one(EL + pos(o.0.val()), &self.0.with(mix2(5, self.0.val(), o.0.val()))))
    }
}
impl std::ops::Mul for Num {
    type Output = Num;
    fn mul(self, o: Num) -> Num {
        self + o
    }
}
/// Combining many values, and folds with the element's own operations.
fn monoids(c: &Case, run: &Run) {
    use rustica::traits::monoid::{combine_all, mconcat, power, repeat};
    use rustica::traits::semigroup::{SemigroupExt, combine_all_values, combine_values};
    let all: Vec<i64> = c.many.iter().flatten().copied().collect();
    let parts: Vec<Vec<Tok>> = c.many.iter().map(|m| m.iter().map(|x| Tok::new(*x)).collect()).collect();
    let front = Tok::new(5);
    let from = vec![front.clone()];
    let mut with_front = vec![5];
    with_front.extend(&all);
    let n = c.ys.len();
    let times = |at_least: usize| std::iter::repeat_n(&all, n.max(at_least)).flatten().copied().collect::<Vec<_>>();
    let logged = c.form % 2 == 1;
    let fed = |r: &mut Rec| -> R<()> {
        if logged {
            for i in 0..c.xs.len() as u32 {
                r.call(FEED + i, 0)?;
            }
        }
        Ok(())
    };
    let flat: Vec<Tok> = all.iter().map(|x| Tok::new(*x)).collect();
    match c.form + 6 * (c.hint % 3) {
        0 | 1 => {
            let i = feed(parts, c.hint, logged);
            perform("monoid::combine_all", run, |r| fed(r).map(|_| all), || vals(&combine_all(i)))
        }
        2 | 3 => {
            let i = feed(parts, c.hint, logged);
            perform("combine_values", run, |r| fed(r).map(|_| with_front), || vals(&combine_values(from, i)))
        }
        4 | 5 => {
            let i = feed(parts, c.hint, logged);
            let want = |r: &mut Rec| fed(r).map(|_| if c.xs.is_empty() { None } else { Some(all) });
            perform("combine_all_values", run, want, || combine_all_values(i).map(|v| vals(&v)))
        }
        6 | 7 => {
            let i = feed(parts, c.hint, logged);
            perform("SemigroupExt::combine_all", run, |r| fed(r).map(|_| with_front), || vals(&from.combine_all(i)))
        }
        8 => perform("mconcat", run, |_| Ok(all), || vals(&mconcat(&parts))),
        9 => {
            let w = times(0);
            perform("repeat", run, |_| Ok(w), || vals(&repeat(flat, n)))
        }
        10 => {
            let w = times(0);
            perform("power", run, |_| Ok(w), || vals(&power(flat, n)))
        }
        11 => {
            let w = times(1);
            perform("combine_n", run, |_| Ok(w), || vals(&flat.combine_n(&n)));
        }
        12 => {
            let w = times(1);
            perform("combine_n_owned", run, |_| Ok(w), || vals(&flat.combine_n_owned(n)))
        }
        13 => {
            let x = c.toks();
            perform("fold_monoid", run, |r| with_all(r, &c.xs, EL), || x.fold_monoid::<Conv>().0)
        }
        14 => {
            let x = choice_of(c);
            perform("FoldableExt::to_vec", run, |_| Ok(c.xs.clone()), || vals(&FoldableExt::to_vec(&x)))
        }
        _ => {
            let x: Vec<Num> = c.toks().into_iter().map(Num).collect();
            let want = |r: &mut Rec| c.xs.iter().try_fold(2, |a, x| r_one(r, EL + pos(*x), mix2(5, a, *x)));
            match c.form % 2 {
                0 => perform("sum_values", run, want, || x.sum_values().0.val()),
                _ => perform("product_values", run, want, || x.product_values().0.val()),
            }
            check!(x.iter().map(|n| n.0.val()).collect::<Vec<_>>() == c.xs, "input-changed", "a sum changed its input");
        }
    }
}
/// Conversions between the error carriers, and the older helpers.
#[allow(deprecated)]
fn odds(c: &Case, run: &Run) {
    use eu::{AppError, ResultExt, error_with_context};
    let mut errs = if c.xs.is_empty() { vec![] } else { c.errs(0, false) };
    if errs.is_empty() {
        errs.push(77);
    }
    let bad = c.hint % 2 == 0;
    let v: Validated<Tok, Tok> = if bad { Validated::Invalid(errs.iter().map(|x| Tok::new(*x)).collect()) } else { Validated::Valid(Tok::new(6)) };
    let r: Result<Tok, Tok> = if bad { Err(Tok::new(errs[0])) } else { Ok(Tok::new(6)) };
    let first: Result<i64, i64> = if bad { Err(errs[0]) } else { Ok(6) };
    let flat = |r: Result<Tok, Tok>| r.map(|t| t.val()).map_err(|t| t.val());
    let whole: Out = if bad { Err(vec![errs[0]]) } else { Ok(vec![6]) };
    match c.form + 6 * (c.ys.len() % 3) {
        0 => perform("validated_to_result", run, |_| Ok(first), || flat(error::validated_to_result(v))),
        1 => perform("validated_to_either", run, |_| Ok(first), || flat(error::validated_to_either(v).to_result())),
        2 => perform("either_to_validated", run, |_| Ok(whole), || out_1(&error::either_to_validated(Either::from_result(r)))),
        3 => perform("result_to_validated", run, |_| Ok(whole), || out_1(&error::result_to_validated(r))),
        4 => perform("ResultExt::to_validated", run, |_| Ok(whole), || out_1(&r.to_validated())),
        5 => perform("ResultExt::to_either", run, |_| Ok(first), || flat(error::either_to_result(r.to_either()))),
        6 => {
            let bimap = |r: &mut Rec| Ok(if bad { Err(r_one(r, ONE, errs[0])?) } else { Ok(r_one(r, ONE + 1, 6)?) });
            perform("ResultExt::bimap", run, bimap, || flat(r.bimap(|v| one(ONE + 1, &v), |e| one(ONE, &e))))
        }
        7 => {
            let want = if bad { vec![] } else { vec![6] };
            perform("ResultExt::unwrap_or_default", run, |_| Ok(want), || vals(&ResultExt::unwrap_or_default(r.map(|t| vec![t]))))
        }
        8 | 9 => {
            // contexts stay in order, newest first, whatever they are wrapped in
            let n = c.xs.len();
            let e = (0..n).fold(ComposableError::new(Tok::new(3)), |e, i| e.with_context(format!("c{i}")));
            let e = if bad { e.set_code(9) } else { e };
            let want: Vec<String> = (0..n).rev().map(|i| format!("c{i}")).collect();
            let all = (want.clone(), want, 3, if bad { Some(9) } else { None });
            if c.form == 2 {
                perform("contexts of an error", run, |_| Ok(all), || (error::extract_context(&e), e.context_iter().cloned().collect::<Vec<_>>(), e.core_error().val(), e.error_code()))
            } else {
                perform("map_core keeps contexts", run, |r| Ok((all.0, r_one(r, ONE, 3)?, all.3)), || {
                    let e = e.map_core(|t| one(ONE, &t));
                    (e.context(), e.core_error().val(), e.error_code())
                })
            }
        }
        10 => perform("wrap_in_composable_result", run, |_| Ok((first, 0)), || match error::wrap_in_composable_result(r) {
            Ok(t) => (Ok(t.val()), 0),
            Err(e) => (Err(e.core_error().val()), e.context().len()),
        }),
        11 => perform("wrap_in_composable_result_boxed", run, |_| Ok((first, 0)), || match error::wrap_in_composable_result_boxed(r) {
            Ok(t) => (Ok(t.val()), 0),
            Err(e) => (Err(e.core_error().val()), e.context().len()),
        }),
        12 | 13 => {
            let e: AppError<Tok, Tok> = if bad { AppError::new(Tok::new(3)) } else { error_with_context(Tok::new(3), Tok::new(4)) };
            let ctx = if bad { None } else { Some(4) };
            let show = |e: AppError<Tok, Tok>| (e.message().val(), e.context().map(|t| t.val()));
            if c.form == 0 {
                perform("AppError::map", run, |r| Ok((r_one(r, ONE, 3)?, ctx)), || show(e.map(|t| one(ONE, &t))))
            } else {
                let want = |r: &mut Rec| {
                    let n = match ctx {
                        Some(x) => r_one(r, ONE, x)?,
                        None => r_one(r, ONE + 1, 0)?,
                    };
                    Ok((3, Some(n)))
                };
                perform("AppError::map_context", run, want, || {
                    show(e.map_context(|x| match x {
                        Some(t) => Some(one(ONE, &t)),
                        None => Some(one(ONE + 1, &Tok::new(0))),
                    }))
                })
            }
        }
        14 => {
            let p = sut(|| tu::Pipeline::new(c.toks()));
            let want = |r: &mut Rec| with_all(r, &c.xs, EL);
            perform("Pipeline into_iter", run, want, || p.into_iter().map(|t| user(EL, &t).val()).collect::<Vec<_>>())
        }
        15 => perform("composable_to_core", run, |_| Ok(3), || error::composable_to_core(error::core_to_composable(Tok::new(3)).with_context("x")).val()),
        16 => {
            let want = vec![6, 3, 6, 3, 6, 3];
            perform("ErrorCategory", run, |_| Ok(want), || {
                use error::ErrorCategory;
                type E = Either<Tok, ()>;
                type V = Validated<Tok, ()>;
                type Rs = Result<(), Tok>;
                let t = |v| Tok::new(v);
                vec![
                    <E as ErrorCategory<Tok>>::lift(t(6)).to_result().map_or(0, |t| t.val()),
                    <E as ErrorCategory<Tok>>::handle_error::<Tok>(t(3)).to_result().map_or_else(|t| t.val(), |_| 0),
                    out_1(&<V as ErrorCategory<Tok>>::lift(t(6))).map_or(0, |v| v[0]),
                    out_1(&<V as ErrorCategory<Tok>>::handle_error::<Tok>(t(3))).map_or_else(|v| v[0], |_| 0),
                    <Rs as ErrorCategory<Tok>>::lift(t(6)).map_or(0, |t| t.val()),
                    <Rs as ErrorCategory<Tok>>::handle_error::<Tok>(t(3)).map_or_else(|t| t.val(), |_| 0),
                ]
            })
        }
        _ => {
            // the errors of a validation, one after the other
            let w: Vec<i64> = if bad { errs.clone() } else { vec![] };
            let want = |r: &mut Rec| w.iter().map(|x| r_one(r, ONE, *x)).collect::<R<Vec<_>>>();
            perform("Validated::iter_errors", run, want, || v.iter_errors().map(|e| one(ONE, e).val()).collect::<Vec<_>>());
            check!(out_1(&v).map_err(|e| e.len()) == if bad { Err(errs.len()) } else { Ok(vec![6]) }, "input-changed", "iter_errors changed its input");
        }
    }
}
/// Accumulating applicative forms: all errors in operand order, or one call.
fn lifts(c: &Case, run: &Run) {
    let mut c2 = c.clone();
    while c2.xs.len() < 3 {
        c2.xs.push(c2.xs.len() as i64 * 1000 + 5);
        c2.bad.push(false);
        c2.many.push(vec![]);
    }
    c2.xs.truncate(3);
    c2.bad.truncate(3);
    c2.many.truncate(3);
    let n = if c.form < 3 { 2 } else { 3 };
    c2.xs.truncate(n);
    c2.bad.truncate(n);
    c2.many.truncate(n);
    let v = c2.validated(true);
    let want = |r: &mut Rec| match c2.all_errors(true) {
        Ok(x) => Ok(Ok(vec![r_one(r, ONE, x.iter().fold(0, |a, x| mix2(9, a, *x)))?])),
        e => Ok(e),
    };
    let f = |v: &[&Tok]| one(ONE, &Tok::new(v.iter().fold(0, |a, x| mix2(9, a, x.val()))));
    type V = Validated<Tok, Tok>;
    match c.form {
        0 => perform("Validated::lift2", run, want, || out_1(&V::lift2(|a: &Tok, b: &Tok| f(&[a, b]), &v[0], &v[1]))),
        1 => perform("Validated::lift2_owned", run, want, || out_1(&V::lift2_owned(|a: Tok, b: Tok| f(&[&a, &b]), v[0].clone(), v[1].clone()))),
        2 => {
            // the function comes first, its errors too
            type Fun = Arc<dyn Fn(&Tok) -> Tok>;
            let (a, b) = (v[0].clone(), v[1].clone());
            perform("Validated::apply", run, want, || {
                let fun: Validated<Tok, Fun> = match a {
                    Validated::Valid(x) => Validated::Valid(Arc::new(move |y: &Tok| f(&[&x, y]))),
                    Validated::Invalid(e) => Validated::Invalid(e),
                };
                struct _S;
                match (&fun, c.hint % 2) {
                    (_, 0) => out_1(&apply_ref(&fun, &b)),
                    _ => out_1(&apply_ref(&fun.clone(), &b.clone())),
                }
            })
        }
        3 => perform("Validated::lift3", run, want, || out_1(&V::lift3(|a: &Tok, b: &Tok, c: &Tok| f(&[a, b, c]), &v[0], &v[1], &v[2]))),
        _ => perform("Validated::lift3_owned", run, want, || out_1(&V::lift3_owned(|a: Tok, b: Tok, c: Tok| f(&[&a, &b, &c]), v[0].clone(), v[1].clone(), v[2].clone()))),
    }
    for (i, v) in v.iter().enumerate() {
        let want = if c2.bad[i] { Err(c2.many[i].clone()) } else { Ok(vec![c2.xs[i]]) };
        check!(out_1(v) == want, "input-changed", "operand {i} changed");
    }
}
/// `Arc<dyn Fn>` is no Fn itself.
fn apply_ref(f: &Validated<Tok, Arc<dyn Fn(&Tok) -> Tok>>, v: &Validated<Tok, Tok>) -> Validated<Tok, Tok> {
    match f {
        Validated::Valid(g) => {
            let g = |x: &Tok| g(x);
            Validated::<Tok, &dyn Fn(&Tok) -> Tok>::Valid(&g).apply(v)
        }
        Validated::Invalid(e) => Validated::<Tok, fn(&Tok) -> Tok>::Invalid(e.clone()).apply(v),
    }
}

fn scenario() {
    util::reset();
    let n = wr(1, 6);
    let nth = if wchance(1, 6) { 2 } else { 1 };
    util::draw_lumpy();
    let cases: Vec<Case> = (0..n).map(|_| Case::draw()).collect();
    let fs = cfg().fault_scale;
    for (id, c) in cases.iter().enumerate() {
        let keys = c.keys();
        // how often elements fail, and whether every one of them may panic
        let errors = [20, 120, 120, 400, 960][w(5)];
        let calm = wchance(1, 2);
        for t in 0..nth {
            let run = id * nth + t;
            if fs > 0 && plan_chance(fs, 1024) {
                fx::plan_panic(run, keys[fault_choose(keys.len())], fault_choose(3) as u8);
            }
            // plan over the elements that are really there
            for i in 0..c.xs.len().max(c.ys.len()) as u32 {
                for base in [EL, SECOND] {
                    if !calm && fs > 0 && plan_chance(fs, 4096) {
                        fx::plan_panic(run, base + i, fault_choose(3) as u8);
                    }
                    if plan_chance(errors + fs / 16, 1024) {
                        util::plan_error(run, base + i);
                    }
                }
            }
            for k in ONE..ONE + 8 {
                if fs > 0 && plan_chance(fs, 8192) {
                    fx::plan_panic(run, k, fault_choose(3) as u8);
                }
                if plan_chance(300, 1024) {
                    util::plan_error(run, k);
                }
            }
        }
    }
    describe(&format!("{nth} threads: {cases:?}"));
    let cases = Arc::new(cases);
    let go = move |t: usize| {
        for (id, c) in cases.iter().enumerate() {
            if simcore::tired() {
                break;
            }
            let _q = Mode::quiet();
            let run = Run { id: id * nth + t, arg: 0, how: 0 };
            fx::enter(run.id);
            OPS[c.op](c, &run);
            fx::enter(fx::BUILD);
        }
    };
    if nth == 1 { go(0) } else { threads(nth, go) }
    ledger::check_empty("after the traversals");
}

pub fn register(s: &mut Vec<Scenario>, i: &mut Vec<Info>) {
    s.push(Scenario { prop: "C20", name: "traversals", gap_max: 800, faults: F_OWN, weight: 1, run: scenario });
    i.push(Info {
        prop: "C20",
        rule: "1-6 operations (sequence, traverse, traverse_validated, sequence_with_error, Validated collection, sequencing, recovery, mapping and lifting, error pipelines and contexts, ErrorOps, filter_map, zip_with, fan_out, pipelines, compositions, Choice mapping and binding, folds and searches) on up to 40 tracked elements, fed by iterators with any honest size hint, on 1-2 threads; element functions, predicates, recoveries, lazy contexts and iterator steps fail or panic at drawn positions; the exact calls, the outcome, the panic, the inputs and the dropping of every value are compared with a reference.",
        real: "the operations, SmallVec, unwinding",
        stub: "user functions and iterators are logging callbacks; thread scheduling",
        counters: &[],
    });
}
