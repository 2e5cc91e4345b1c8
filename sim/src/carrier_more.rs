//! Operations that only one carrier has, with their models: C22.
#![allow(deprecated)]
use crate::carrier::*;
use crate::util::{Rec, fails, step_fails};
use rustica::datatypes::either::Either;
use rustica::datatypes::id::Id;
use rustica::datatypes::maybe::Maybe;
use rustica::datatypes::validated::Validated;
use rustica::datatypes::writer::Writer;
use rustica::traits::alternative::Alternative;
use rustica::traits::applicative::Applicative;
use rustica::traits::comonad::Comonad;
use rustica::traits::foldable::Foldable;
use rustica::traits::functor::Functor;
use rustica::traits::identity::Identity;
use rustica::traits::monad_error::MonadError;
use rustica::traits::monad_plus::MonadPlus;
use rustica::traits::pure::{Pure, PureExt};
use rustica::utils::error_utils::WithError;
use simcore::check;
use simcore::ledger::Tok;

fn t(v: i64) -> Tok {
    Tok::new(v)
}
fn err(v: i64) -> M {
    M { errs: vec![v], ..M::default() }
}
/// Does the function succeed on the value?
fn test(r: &mut Rec, k: u32, v: i64) -> R<bool> {
    r1(r, k, v)?;
    Ok(!fails(r.run, key(k, v)))
}
fn pred(k: u32, x: &Tok) -> bool {
    utry(k, x).is_ok()
}
fn list(k: u32, x: &Tok) -> Vec<Tok> {
    simcore::fx::effect(key(k, x.val()), x.val());
    toks(&car_of(List, k, x.val(), step_fails(key(k, x.val()))).vals)
}
/// An iterator whose length nobody can tell.
fn vague(v: Vec<Tok>, how: usize) -> Box<dyn Iterator<Item = Tok>> {
    match how % 4 {
        0 => Box::new(v.into_iter()),
        1 => Box::new(v.into_iter().filter(|_| true)),
        2 => {
            // honest, and no bound at all
            let mut i = v.into_iter();
            Box::new((0..usize::MAX).map_while(move |_| i.next()))
        }
        _ => {
            let mut i = v.into_iter();
            Box::new(std::iter::from_fn(move || i.next()))
        }
    }
}

// ---- Option ----

pub fn option(o: &Op, a: Op_, b: Op_) -> Op_ {
    let k = o.k;
    match o.form % 6 {
        0 => match (&a, &b) {
            (Some(x), Some(y)) => x.combine_with::<Op_, Tok, Tok>(y, |x, y| u2(k, x, y)),
            _ => a,
        },
        1 => a.try_value().map(|t| u1(k, t)),
        2 => a.try_into_value(),
        3 => <Op_ as MonadError<()>>::throw::<Tok>(()),
        4 => Op_::guard(a.is_some()).fmap(|()| t(6)),
        _ => match (a, b) {
            (Some(x), Some(y)) => x.pair_with::<Op_, Tok>(&y).map(|(x, y)| u2(k, &x, &y)),
            (Some(x), None) => x.to_pure::<Op_>(),
            (None, Some(y)) => y.to_pure_owned::<Op_>(),
            _ => Op_::empty_alt::<Tok>(),
        },
    }
}
pub fn option_model(o: &Op, a: &M, b: &M, r: &mut Rec) -> R<M> {
    let k = o.k;
    let (x, y) = (a.vals.first().copied(), b.vals.first().copied());
    Ok(match (o.form % 6, x, y) {
        (0 | 5, Some(x), Some(y)) => one(r2(r, k, x, y)?),
        (0, ..) => a.clone(),
        (1, Some(x), _) => one(r1(r, k, x)?),
        (3, ..) => M::default(),
        (4, Some(_), _) => one(6),
        (5, None, Some(y)) => one(y),
        _ => a.clone(),
    })
}

// ---- Maybe ----

pub fn maybe(o: &Op, mut a: Ma) -> Ma {
    let k = o.k;
    match o.form % 12 {
        0 => a.filter(|x| pred(k, x)),
        1 => a.tap(|x| drop(u1(k, x))),
        2 => Maybe::Just(a.fmap_or(t(6), |x| u1(k, &x))),
        3 => Maybe::Just(a.unwrap_or_else(|| u1(k, &t(0)))),
        4 => Maybe::from_option(a.to_option()),
        5 => Maybe::Just(a.unwrap_or(t(6))),
        6 => {
            for x in a.iter_mut() {
                *x = u1(k, x);
            }
            a
        }
        7 => a.to_vec().into_iter().map(|x| u1(k, &x)).collect(),
        8 => a.iter().chain(&a).map(|x| u1(k, x)).collect(),
        9 => {
            for x in &mut a {
                *x = u1(k, x);
            }
            Maybe::from(a.try_unwrap())
        }
        10 => Maybe::Just(match a.to_result(t(6)) {
            Ok(x) => u1(k, &x),
            Err(e) => u1(k + 1, &e),
        }),
        _ => match a.as_option() {
            Some(x) => Maybe::when(pred(k, x), x.with(x.val())),
            None => Ma::mzero::<Tok>().alt(&Maybe::Just(t(6))),
        },
    }
}
pub fn maybe_model(o: &Op, a: &M, r: &mut Rec) -> R<M> {
    let k = o.k;
    let v = a.vals.first().copied();
    Ok(match (o.form % 12, v) {
        (0 | 11, Some(v)) => {
            if test(r, k, v)? { a.clone() } else { M::default() }
        }
        (1, Some(v)) => {
            r1(r, k, v)?;
            a.clone()
        }
        (8, Some(v)) => one(r1(r, k, v)?),
        (2 | 6 | 7 | 9 | 10, Some(v)) => one(r1(r, k, v)?),
        (10, None) => one(r1(r, k + 1, 6)?),
        (2 | 5 | 11, None) => one(6),
        (3, None) => one(r1(r, k, 0)?),
        _ => a.clone(),
    })
}

// ---- Result ----

pub fn result(o: &Op, a: Re, b: Re) -> Re {
    let k = o.k;
    match o.form % 5 {
        0 => a.fmap_error(|e| u1(k, &e)),
        1 => WithError::to_result(a),
        2 => match a {
            Err(e) => <Re as MonadError<Tok>>::throw::<Tok>(u1(k, &e)),
            Ok(x) => Re::pure_owned::<Tok>(x),
        },
        3 => a.try_value().or(b.try_value()).map(|x| u1(k, x)).ok_or(t(6)),
        _ => a.try_into_value().ok_or(t(6)),
    }
}
pub fn result_model(o: &Op, a: &M, b: &M, r: &mut Rec) -> R<M> {
    let k = o.k;
    let v = a.vals.first().copied();
    Ok(match (o.form % 5, v) {
        (0 | 2, None) => err(r1(r, k, a.errs[0])?),
        (3, _) => match v.or(b.vals.first().copied()) {
            Some(v) => one(r1(r, k, v)?),
            None => err(6),
        },
        (4, None) => err(6),
        _ => a.clone(),
    })
}

// ---- Either ----

pub fn either(o: &Op, mut a: Ei, b: Ei) -> Ei {
    let k = o.k;
    match o.form % 18 {
        0 => Either::Right(a.unwrap_or(t(6))),
        1 => Either::Right(a.right_or(t(6))),
        2 => Either::Left(a.left_or(t(6))),
        3 => Either::from_result(a.to_result()),
        4 => a.right_option().map_or(Either::Left(t(6)), Either::Right),
        5 => a.left_option().map_or(Either::Right(t(6)), Either::Left),
        6 => {
            for x in &mut a {
                *x = u1(k, x);
            }
            a
        }
        7 => {
            for x in a.left_iter_mut() {
                *x = u1(k, x);
            }
            a
        }
        8 => a.mplus(&b),
        9 => a.mplus_owned(b),
        10 => a.into_iter().map(|x| u1(k, &x)).next().map_or(Either::Left(t(6)), Either::Right),
        11 => a.left_iter().map(|x| u1(k, &x)).next().map_or(Either::Right(t(6)), Either::Left),
        12 => a.fmap_error(|e| u1(k, &e)),
        13 => {
            if a.is_left() {
                *a.left_mut() = u1(k, a.left_ref());
            }
            a
        }
        14 => {
            if a.is_right() {
                Either::right(u1(k, a.right_ref()))
            } else {
                Either::left(a.left_value())
            }
        }
        15 => match a.is_right() {
            true => Either::Right(a.right_value()),
            false => Either::Left(a.unwrap_left()),
        },
        16 => match a.is_left() {
            false if o.own => Either::Right(a.unwrap()),
            false => Either::Right(a.unwrap_right()),
            true => a.left_iter_ref().map(|x| u1(k, x)).next().map_or(Either::Right(t(6)), Either::Left),
        },
        _ => (&a).into_iter().map(|x| u1(k, x)).next().map_or(Either::Left(t(6)), Either::Right),
    }
}
pub fn either_model(o: &Op, a: &M, b: &M, r: &mut Rec) -> R<M> {
    let k = o.k;
    let v = a.vals.first().copied();
    let e = a.errs.first().copied();
    Ok(match (o.form % 18, v, e) {
        (0 | 1, None, _) => one(6),
        (2, _, None) => err(6),
        (4, None, _) => err(6),
        (5, _, None) => one(6),
        (6 | 10 | 14 | 17, Some(v), _) => one(r1(r, k, v)?),
        (7 | 11 | 12 | 13 | 16, _, Some(e)) => err(r1(r, k, e)?),
        (10 | 17, None, _) => err(6),
        (11, Some(_), _) => one(6),
        (8 | 9, None, _) if !b.vals.is_empty() => b.clone(),
        _ => a.clone(),
    })
}

// ---- Validated ----

pub fn validated(o: &Op, mut a: Va, b: Va) -> Va {
    let k = o.k;
    let how = o.at[2];
    match o.form % 18 {
        0 => a.recover_all(|e| uc::<Va>(k, &e)),
        1 => a.recover_all_at_once(|es| uc::<Va>(k, &digest_t(es))),
        2 => a.recover_with(t(6)),
        3 if a.is_valid() && b.is_valid() => Validated::invalid(t(7)),
        3 if o.own => a.combine_errors_owned(b),
        3 => a.combine_errors(&b),
        4 if o.own => Validated::from_option_with_owned(a.to_option(), || u1(k, &t(0))),
        4 => Validated::from_option_with(&a.to_option(), &|| u1(k, &t(0))),
        5 => Validated::valid(a.unwrap_or(&t(6))),
        6 => {
            for x in a.iter_mut() {
                *x = u1(k, x);
            }
            a
        }
        7 => {
            for x in a.iter_errors_mut() {
                *x = u1(k, x);
            }
            a
        }
        8 => match a.into_value() {
            Ok(x) => Validated::Valid(u1(k, &x)),
            Err(es) => Validated::Invalid(es),
        },
        9 => match a.into_error_payload() {
            Ok(es) => Validated::Invalid(es.into_iter().map(|e| u1(k, &e)).collect()),
            Err(x) => Validated::Valid(x),
        },
        10 => {
            let es: Vec<Tok> = a.errors().into_iter().chain(b.errors()).collect();
            if es.is_empty() {
                return Validated::Valid(t(6));
            }
            if o.own { Validated::invalid_vec(vague(es, how)) } else { Validated::invalid_many(vague(es, how)) }
        }
        11 => a.fmap_error(|e| u1(k, &e)),
        12 if o.own => Validated::from_result_owned(a.to_result_owned()),
        12 => Validated::from_result(&Validated::to_result(&a)),
        13 if o.own => Validated::sequence_owned(vec![a, b], |l: Vec<Tok>| u1(k, &digest_t(l))),
        13 => Validated::sequence(&[&a, &b], &|l: &[Tok]| u1(k, &t(digest(&read(l))))),
        14 if o.own => Validated::<Tok, Tok>::collect_owned::<_, Vec<Tok>>([a, b].into_iter()).fmap_owned(digest_t),
        14 => Validated::<Tok, Tok>::collect::<_, Vec<Tok>>([a, b].into_iter()).fmap_owned(digest_t),
        15 => {
            if let Some(es) = a.error_buffer_mut() {
                es.push(t(6));
                es[0] = u1(k, &es[0]);
            }
            a
        }
        16 => match a.is_invalid() {
            true => Validated::Invalid(a.unwrap_invalid_owned()),
            false => Validated::Valid(u1(k, &a.unwrap_owned())),
        },
        _ => match (&a, o.own) {
            (Validated::Valid(_), true) => Validated::from_option_owned(a.into_iter().next(), t(6)),
            (Validated::Valid(_), false) => Validated::from_option(&Some(a.unwrap()), &t(6)),
            (_, true) => Validated::from_option_owned(a.as_ref().cloned(), t(6)),
            _ => Validated::Invalid(a.unwrap_invalid().into()),
        },
    }
}
pub fn validated_model(o: &Op, a: &M, b: &M, r: &mut Rec) -> R<M> {
    let k = o.k;
    let v = a.vals.first().copied();
    let both = || (v.is_some() && !b.vals.is_empty()).then(|| digest(&[v.unwrap(), b.vals[0]]));
    Ok(match (o.form % 18, v) {
        (0, None) => {
            let mut m = M::default();
            for e in &a.errs {
                let x = rc(r, Acc, k, *e)?;
                if !x.vals.is_empty() {
                    return Ok(x);
                }
                m.errs.extend(x.errs);
            }
            m
        }
        (1, None) => rc(r, Acc, k, digest(&a.errs))?,
        (2 | 5, None) => one(6),
        (3, Some(_)) => {
            if b.vals.is_empty() {
                b.clone()
            } else {
                err(7)
            }
        }
        (3, None) => merge(Acc, &[a, b]),
        (4, None) => err(r1(r, k, 0)?),
        (6 | 8 | 16, Some(v)) => one(r1(r, k, v)?),
        (7 | 9 | 11, None) => M { errs: a.errs.iter().map(|e| r1(r, k, *e)).collect::<R<_>>()?, ..M::default() },
        (10, _) => match merge(Acc, &[a, b]) {
            m if m.errs.is_empty() => one(6),
            m => m,
        },
        (12, None) => err(a.errs[0]),
        (13, _) => match both() {
            Some(d) => one(r1(r, k, d)?),
            None => merge(Acc, &[a, b]),
        },
        (14, _) => both().map_or_else(|| merge(Acc, &[a, b]), one),
        (15, None) => {
            let mut m = a.clone();
            m.errs.push(6);
            m.errs[0] = r1(r, k, m.errs[0])?;
            m
        }
        (17, None) if o.own => err(6),
        _ => a.clone(),
    })
}

// ---- Id ----

pub fn id(o: &Op, mut a: I, b: I) -> I {
    let k = o.k;
    match o.form % 7 {
        2 => Id::new(a.extract()),
        3 => a.then(b),
        4 => {
            *a.value_mut() = u1(k, a.as_ref());
            a
        }
        5 => {
            for x in &mut a {
                *x = u1(k, x);
            }
            Id::new(a.unwrap_or(t(6)))
        }
        _ => Id::from(a.into_iter().chain(b).map(|x| u1(k, &x)).next().unwrap()),
    }
}
pub fn id_model(o: &Op, a: &M, b: &M, r: &mut Rec) -> R<M> {
    Ok(match o.form % 7 {
        0 | 4 | 5 | 6 => one(r1(r, o.k, a.vals[0])?),
        3 => b.clone(),
        _ => a.clone(),
    })
}

// ---- Writer ----

pub fn writer<L: rustica::traits::monoid::Monoid + Clone>(o: &Op, mut a: Writer<L, Tok>, b: Writer<L, Tok>) -> Writer<L, Tok> {
    type W<L, T> = Writer<L, T>;
    let k = o.k;
    match o.form % 6 {
        0 if o.own => W::<L, Tok>::sequence_right_owned::<(), Tok>(W::<L, ()>::tell(b.log()), a),
        0 => W::<L, Tok>::sequence_right::<(), Tok>(&W::<L, ()>::tell(b.log()), &a),
        1 => Writer::new(a.clone().log(), u1(k, &a.unwrap())),
        2 => W::pure_value(a.into_iter().next().unwrap()),
        3 => W::pure_value(u1(k, a.value())),
        4 => {
            for x in &mut a {
                *x = u1(k, x);
            }
            a
        }
        _ => Writer::new(b.log(), a.into_value()),
    }
}
pub fn writer_model(o: &Op, a: &M, b: &M, r: &mut Rec) -> R<M> {
    Ok(match o.form % 6 {
        0 => M { log: [&b.log[..], &a.log].concat(), ..a.clone() },
        2 => one(a.vals[0]),
        3 => one(r1(r, o.k, a.vals[0])?),
        5 => M { log: b.log.clone(), ..a.clone() },
        _ => M { vals: vec![r1(r, o.k, a.vals[0])?], ..a.clone() },
    })
}

// ---- Choice ----

pub fn choice(o: &Op, a: Ch, b: Ch) -> Ch {
    let k = o.k;
    let at = o.at[2];
    let i = at % (a.len() + 1);
    let seven = || toks::<Ch>(&[7]);
    match o.form % 18 {
        0 => a.filter(|x| pred(k, x)),
        1 => a.filter_values(|x| pred(k, x)),
        2 => a.fmap_alternatives(|x| u1(k, x)),
        3 => a.add_alternatives(vague(b.into(), at)),
        4 => a.try_remove_alternative(i).unwrap_or_else(|_| seven()),
        5 if i + 1 >= a.len() => seven(),
        5 => a.remove_alternative(i),
        6 if i + 1 >= a.len() => seven(),
        6 => a.swap_with_alternative(i),
        7 => a.try_swap_with_alternative(i).unwrap_or_else(|_| seven()),
        8 => a.dedup_by_key(|x| u1(k, x).val() & 3),
        9 => a.find_first(|x| pred(k, x)).map_or(Ch::new_empty(), |x| Ch::new(x.with(x.val()), [])),
        10 => a.bind_lazy(|x| uc::<Ch>(k, x)).take(at % 6).collect(),
        11 => {
            let l = a.fmap(|x| list(k, x));
            if o.own {
                l.try_flatten().unwrap_or_else(|_| seven())
            } else if l.first().is_some_and(|v| v.is_empty()) {
                seven()
            } else {
                l.flatten()
            }
        }
        12 => {
            let l = a.fmap(|x| list(k, x));
            if l.first().is_some_and(|v| v.is_empty()) { seven() } else { l.flatten_sorted() }
        }
        13 => a.fmap(|x| utry(k, x).ok()).sequence().unwrap_or_else(seven),
        14 => {
            let mut m: Vec<(i64, Tok)> = a.to_map_with_key(|x| u1(k, x).val() & 3).into_iter().collect();
            m.sort_by_key(|x| x.0);
            m.into_iter().map(|x| x.1).collect()
        }
        15 => match at % 7 {
            0 => Ch::from(Vec::<Tok>::from(a)),
            1 => Ch::from(&a.to_vec()[..]),
            2 => Ch::of_many(vague(a.into_iter().collect(), o.at[1])),
            3 if a.is_empty() => Ch::default(),
            3 => Ch::new(a.first().unwrap().clone(), a.alternatives().to_vec()),
            4 => vec![a, b].into_iter().collect(),
            5 => [a, b].into_iter().sum(),
            _ => a.first().cloned().into_iter().chain(a.iter_alternatives().cloned()).collect(),
        },
        16 => toks(&[a.fold(t(11), |x, y| u2(k, &x, y)).val()]),
        _ => {
            let d = b.combine_twice(a).dedup();
            toks(&d.fold_left(&vec![], |v: &Vec<i64>, x| [&v[..], &[x.val()]].concat()))
        }
    }
}
trait Twice {
    fn combine_twice(self, o: Self) -> Self;
}
impl Twice for Ch {
    fn combine_twice(self, o: Ch) -> Ch {
        self.into_iter().chain(o.iter().cloned()).chain(o.iter().cloned()).collect()
    }
}
pub fn choice_model(o: &Op, a: &M, b: &M, r: &mut Rec) -> R<M> {
    let k = o.k;
    let at = o.at[2];
    let n = a.vals.len();
    let i = at % (n + 1);
    let m = |vals: Vec<i64>| M { vals, ..M::default() };
    let lists = |r: &mut Rec| a.vals.iter().map(|v| Ok(rc(r, List, k, *v)?.vals)).collect::<R<Vec<_>>>();
    Ok(match o.form % 18 {
        f @ (0..=2) => {
            let mut out = vec![];
            for (i, v) in a.vals.iter().enumerate() {
                match f {
                    0 | 2 if i == 0 => out.push(*v),
                    2 => out.push(r1(r, k, *v)?),
                    _ => {
                        if test(r, k, *v)? {
                            out.push(*v)
                        }
                    }
                }
            }
            m(out)
        }
        3 => m([&a.vals[..], &b.vals].concat()),
        4..=7 if i + 1 >= n => one(7),
        4 | 5 => {
            let mut v = a.vals.clone();
            v.remove(i + 1);
            m(v)
        }
        6 | 7 => {
            let mut v = a.vals.clone();
            v.swap(0, i + 1);
            m(v)
        }
        f @ (8 | 14) => {
            let mut by: Vec<(i64, i64)> = vec![];
            for v in &a.vals {
                let key = r1(r, k, *v)? & 3;
                if by.iter().all(|x| x.0 != key) {
                    by.push((key, *v));
                }
            }
            if f == 14 {
                by.sort();
            }
            m(by.into_iter().map(|x| x.1).collect())
        }
        9 => {
            for v in &a.vals {
                if test(r, k, *v)? {
                    return Ok(one(*v));
                }
            }
            M::default()
        }
        10 => {
            let mut out = vec![];
            for v in &a.vals {
                if out.len() >= at % 6 {
                    break;
                }
                out.extend(rc(r, Choice, k, *v)?.vals);
            }
            out.truncate(at % 6);
            m(out)
        }
        f @ (11 | 12) => {
            let l = lists(r)?;
            if l.first().is_some_and(|v| v.is_empty()) {
                return Ok(one(7));
            }
            let mut l = l.concat();
            if f == 12 && !l.is_empty() {
                l[1..].sort();
            }
            m(l)
        }
        13 => {
            let mut out = vec![];
            let mut ok = true;
            for v in &a.vals {
                let x = r1(r, k, *v)?;
                ok &= !fails(r.run, key(k, *v));
                out.push(x);
            }
            if ok { m(out) } else { one(7) }
        }
        15 if matches!(at % 7, 4 | 5) => m([&a.vals[..], &b.vals].concat()),
        15 => a.clone(),
        16 => {
            let mut acc = 11;
            for v in &a.vals {
                acc = r2(r, k, acc, *v)?;
            }
            one(acc)
        }
        _ => {
            let mut out = vec![];
            for v in b.vals.iter().chain(&a.vals) {
                if !out.contains(v) {
                    out.push(*v);
                }
            }
            m(out)
        }
    })
}

/// Questions a carrier answers itself must fit what it holds.
pub fn answers<C: Foldable<Source = Tok>>(c: &C, m: M) -> M {
    check!(c.length() == m.vals.len(), "accessor", "length gives {} for {m:?}", c.length());
    check!(c.is_empty() == m.vals.is_empty(), "accessor", "is_empty gives {} for {m:?}", c.is_empty());
    m
}
