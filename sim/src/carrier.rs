//! Value carriers and the functions given to them: C22.
//!
//! A pool of carriers (options, results, choices, writers, ...) is transformed by a random chain
//! of operations; every function given to an operation is user code that is logged and may panic
//! or fail, and so may every clone of a value. After each operation the calls made, their
//! arguments, the outcome and all other carriers are compared with a model of the carrier.
use crate::carrier_mine::Bag;
use crate::carrier_more as more;
use crate::util::{self, Rec, Ref, Run, fails, judge, linger, mix, mix2, plan_error, step_fails, threads};
use rustica::datatypes::either::Either;
use rustica::datatypes::id::Id;
use rustica::datatypes::maybe::Maybe;
use rustica::datatypes::validated::Validated;
use rustica::datatypes::wrapper::{first::First, last::Last, max::Max, min::Min, product::Product, sum::Sum};
use rustica::datatypes::writer::Writer;
use rustica::traits::alternative::Alternative;
use rustica::traits::applicative::Applicative;
use rustica::traits::bifunctor::Bifunctor;
use rustica::traits::comonad::Comonad;
use rustica::traits::foldable::Foldable;
use rustica::traits::functor::{Functor, FunctorExt};
use rustica::traits::hkt::BinaryHKT;
use rustica::traits::monad::Monad;
use rustica::traits::monad_error::{ErrorMapper, MonadError};
use rustica::traits::monad_plus::MonadPlus;
use rustica::traits::semigroup::{Semigroup, SemigroupExt};
use simcore::explore::{F_OWN, Info, Scenario};
use simcore::fx;
use simcore::ledger::{self, Tok};
use simcore::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    /// No value, or one.
    Opt,
    /// A value or an error; the first error wins.
    Res,
    /// A value or errors; all are kept.
    Acc,
    One,
    Log,
    List,
    /// A primary value and alternatives.
    Choice,
    /// Values by key: each key, the number of its values, the values.
    Map,
    Set,
    /// Lists side by side.
    Tup,
}
pub use Kind::*;

/// What a carrier holds.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct M {
    pub log: Vec<i64>,
    pub vals: Vec<i64>,
    pub errs: Vec<i64>,
}
pub fn one(v: i64) -> M {
    M { vals: vec![v], ..Default::default() }
}
pub fn toks<B: FromIterator<Tok>>(v: &[i64]) -> B {
    v.iter().map(|x| Tok::new(*x)).collect()
}
pub fn read(v: &[Tok]) -> Vec<i64> {
    v.iter().map(|t| t.val()).collect()
}
pub fn digest(v: &[i64]) -> i64 {
    v.iter().fold(v.len() as i64, |a, x| mix2(9, a, *x))
}
pub fn digest_t(v: Vec<Tok>) -> Tok {
    Tok::new(digest(&read(&v)))
}

// ---- user code ----

/// Different arguments of one function have different keys.
pub fn key(k: u32, v: i64) -> u32 {
    k * 8 + (v & 3) as u32
}
pub fn u1(k: u32, a: &Tok) -> Tok {
    fx::effect(key(k, a.val()), a.val());
    a.with(mix(k, a.val()))
}
pub fn u2(k: u32, a: &Tok, b: &Tok) -> Tok {
    let v = mix2(k, a.val(), b.val());
    fx::effect(key(k, v), v);
    a.with(mix(k, v))
}
fn u3(k: u32, a: &Tok, b: &Tok, c: &Tok) -> Tok {
    let v = mix2(k, mix2(k, a.val(), b.val()), c.val());
    fx::effect(key(k, v), v);
    b.with(mix(k, v))
}
pub fn uc<C: Car>(k: u32, a: &Tok) -> C {
    fx::effect(key(k, a.val()), a.val());
    C::mk(&car_of(C::KIND, k, a.val(), step_fails(key(k, a.val()))))
}
pub fn utry(k: u32, a: &Tok) -> Result<Tok, Tok> {
    let t = u1(k, a);
    if step_fails(key(k, a.val())) { Err(t) } else { Ok(t) }
}
/// The carrier a function gives for a value.
pub fn car_of(kind: Kind, k: u32, v: i64, fail: bool) -> M {
    let x = mix(k, v);
    let some = |n: i64| (0..n).map(|i| x + i * 5).collect::<Vec<_>>();
    match kind {
        Opt if fail => M::default(),
        Res if fail => M { errs: vec![x + 1], ..M::default() },
        Acc if fail => M { errs: some(1 + x % 3), ..M::default() },
        Log => M { log: some(x % 3), ..one(x) },
        List => M { vals: if fail { vec![] } else { some(1 + x % 2) }, ..M::default() },
        Choice => M { vals: some(1 + x % 2), ..M::default() },
        _ => one(x),
    }
}

// ---- the same as the model reads it ----

pub type R<T> = Result<T, u32>;
pub fn r1(r: &mut Rec, k: u32, a: i64) -> R<i64> {
    r.call(key(k, a), a)?;
    Ok(mix(k, a))
}
pub fn r2(r: &mut Rec, k: u32, a: i64, b: i64) -> R<i64> {
    r1(r, k, mix2(k, a, b))
}
pub fn rc(r: &mut Rec, kind: Kind, k: u32, a: i64) -> R<M> {
    r.call(key(k, a), a)?;
    Ok(car_of(kind, k, a, fails(r.run, key(k, a))))
}
/// What two carriers agree on besides values: their logs, and errors in the carrier's way.
pub fn merge(kind: Kind, parts: &[&M]) -> M {
    let mut m = M::default();
    for p in parts {
        m.log.extend(&p.log);
        if kind == Acc || m.errs.is_empty() {
            m.errs.extend(&p.errs);
        }
    }
    m
}
/// The first of the two that holds a value.
pub fn either<'a>(a: &'a M, b: &'a M) -> &'a M {
    if a.vals.is_empty() { b } else { a }
}
pub fn unflat(v: &[i64]) -> BTreeMap<i64, Vec<i64>> {
    let (mut m, mut i) = (BTreeMap::new(), 0);
    while i < v.len() {
        let n = v[i + 1] as usize;
        m.insert(v[i], v[i + 2..i + 2 + n].to_vec());
        i += 2 + n;
    }
    m
}
pub fn flat(m: &BTreeMap<i64, Vec<i64>>) -> Vec<i64> {
    m.iter().flat_map(|(k, v)| [*k, v.len() as i64].into_iter().chain(v.iter().copied())).collect()
}
pub fn plus(kind: Kind, a: &M, b: &M) -> M {
    match kind {
        Acc if a.vals.is_empty() && b.vals.is_empty() => merge(kind, &[a, b]),
        Choice | List => M { vals: [&a.vals[..], &b.vals].concat(), ..M::default() },
        Tup => M { vals: [&a.vals[..], &b.vals].concat(), errs: [&a.errs[..], &b.errs].concat(), log: [&a.log[..], &b.log].concat() },
        Map => {
            let mut m = unflat(&a.vals);
            for (k, v) in unflat(&b.vals) {
                m.entry(k).or_default().extend(v);
            }
            M { vals: flat(&m), ..M::default() }
        }
        Set => M { vals: a.vals.iter().chain(&b.vals).copied().collect::<BTreeSet<_>>().into_iter().collect(), ..M::default() },
        _ => either(a, b).clone(),
    }
}

#[derive(Clone, Debug)]
pub struct Op {
    pub code: usize,
    pub k: u32,
    /// Consumes its operands.
    pub own: bool,
    /// Which pool entries it works on.
    pub at: [usize; 3],
    pub form: usize,
}
pub const MAP: usize = 0;
pub const REPLACE: usize = 1;
pub const BIND: usize = 2;
pub const FLAT_MAP: usize = 3;
pub const MAP_PURE: usize = 4;
pub const TRY_BIND: usize = 5;
pub const JOIN: usize = 6;
pub const APPLY: usize = 7;
pub const LIFT2: usize = 8;
pub const LIFT3: usize = 9;
pub const AP2: usize = 10;
pub const SEQ_R: usize = 11;
pub const SEQ_L: usize = 12;
pub const FOLD: usize = 13;
pub const PLUS: usize = 14;
pub const ALT: usize = 15;
pub const COMBINE: usize = 16;
pub const MANY: usize = 17;
pub const TRY_MAP: usize = 18;
pub const FILTER_MAP: usize = 19;
pub const MAP_ERR: usize = 20;
pub const BIMAP: usize = 21;
pub const CATCH: usize = 22;
pub const CAT: usize = 23; // combination of carriers of lists
pub const OWN: usize = 24; // an operation of this carrier only
pub const ERR_TO: usize = 25;

pub trait Car: Clone + Send + Sync + 'static {
    const NAME: &'static str;
    const KIND: Kind;
    /// The operations it has, besides the functor's.
    const HAS: &'static [usize];
    fn mk(m: &M) -> Self;
    fn read(&self) -> M;
    fn by_ref(o: &Op, a: &Self, b: &Self, c: &Self) -> Self;
    fn by_val(o: &Op, a: Self, b: Self, c: Self) -> Self;
    /// Can be mapped.
    const FUNCTOR: bool = true;
    /// The model of `OWN`.
    fn own(_o: &Op, _a: &M, _b: &M, _r: &mut Rec) -> R<M> {
        unreachable!()
    }
}

/// The model of an operation.
fn model<C: Car>(o: &Op, a: &M, b: &M, c: &M, r: &mut Rec) -> R<M> {
    let (kind, k) = (C::KIND, o.k);
    let map = |r: &mut Rec, f: &mut dyn FnMut(&mut Rec, i64) -> R<i64>| -> R<M> {
        let vals = a.vals.iter().map(|v| f(r, *v)).collect::<R<_>>()?;
        Ok(M { vals, ..a.clone() })
    };
    let bind = |r: &mut Rec, f: &mut dyn FnMut(&mut Rec, i64) -> R<M>| -> R<M> {
        let mut out = M { log: a.log.clone(), ..M::default() };
        if a.vals.is_empty() {
            out.errs = a.errs.clone();
        }
        for v in &a.vals {
            let m = f(r, *v)?;
            out.log.extend(m.log);
            out.vals.extend(m.vals);
            out.errs.extend(m.errs);
        }
        Ok(out)
    };
    Ok(match o.code {
        MAP => map(r, &mut |r, v| r1(r, k, v))?,
        REPLACE => map(r, &mut |_, _| Ok(if o.form % 3 == 0 && C::HAS != [OWN] { 0 } else { k as i64 }))?,
        BIND | FLAT_MAP => bind(r, &mut |r, v| rc(r, kind, k, v))?,
        MAP_PURE => bind(r, &mut |r, v| Ok(one(r1(r, k, v)?)))?,
        TRY_BIND => bind(r, &mut |r, v| {
            let m = rc(r, kind, k, v)?;
            Ok(if fails(r.run, key(k + 1, v)) { one(3) } else { m })
        })?,
        // all functions are made first, then all carriers are put together
        JOIN => {
            let ms = a.vals.iter().map(|v| rc(r, kind, k, *v)).collect::<R<Vec<_>>>()?;
            let mut ms = ms.into_iter();
            bind(r, &mut |_, _| Ok(ms.next().unwrap()))?
        }
        APPLY => {
            let mut m = merge(kind, &[a, b]);
            let outer: Vec<(i64, i64)> = if kind == Choice {
                b.vals.iter().flat_map(|x| a.vals.iter().map(|f| (*f, *x))).collect()
            } else {
                a.vals.iter().flat_map(|f| b.vals.iter().map(|x| (*f, *x))).collect()
            };
            m.vals = outer.into_iter().map(|(f, x)| r2(r, k, f, x)).collect::<R<_>>()?;
            m
        }
        LIFT2 | AP2 => {
            let mut m = merge(kind, &[a, b]);
            for x in &a.vals {
                for y in &b.vals {
                    m.vals.push(r2(r, k, *x, *y)?);
                }
            }
            m
        }
        SEQ_L | SEQ_R => {
            let mut m = merge(kind, &[a, b]);
            for x in &a.vals {
                for y in &b.vals {
                    m.vals.push(if o.code == SEQ_L { *x } else { *y });
                }
            }
            m
        }
        LIFT3 => {
            let mut m = merge(kind, &[a, b, c]);
            for x in &a.vals {
                for y in &b.vals {
                    for z in &c.vals {
                        m.vals.push(r1(r, k, mix2(k, mix2(k, *x, *y), *z))?);
                    }
                }
            }
            m
        }
        FOLD => {
            let mut acc = 11;
            match o.form % 4 {
                0 => {
                    for v in &a.vals {
                        acc = r2(r, k, acc, *v)?;
                    }
                }
                1 => {
                    for v in a.vals.iter().rev() {
                        acc = r2(r, k, *v, acc)?;
                    }
                }
                2 => {
                    let l = a.vals.iter().map(|v| r1(r, k, *v)).collect::<R<Vec<_>>>()?;
                    acc = digest(&l);
                }
                _ => acc = a.vals.len() as i64 * 2 + a.vals.is_empty() as i64,
            }
            one(acc)
        }
        PLUS => plus(kind, a, b),
        ALT => match kind {
            Choice => plus(kind, a, b),
            _ => either(a, b).clone(),
        },
        COMBINE => match o.form % 4 {
            0 | 1 => plus(kind, a, b),
            2 => plus(kind, &plus(kind, a, b), c),
            _ => plus(kind, &plus(kind, a, a), a),
        },
        MANY => {
            let l = if kind == List { &a.vals[..] } else { &a.vals[..1] };
            one(digest(l))
        }
        TRY_MAP => map(r, &mut |r, v| {
            let x = r1(r, k, v)?;
            Ok(match (fails(r.run, key(k, v)), o.form % 2) {
                (false, _) => x,
                (true, 0) => 4,
                (true, _) => r1(r, k + 1, x)?,
            })
        })?,
        FILTER_MAP => {
            let mut m = M { errs: a.errs.clone(), ..M::default() };
            for v in &a.vals {
                let x = r1(r, k, *v)?;
                if !fails(r.run, key(k, *v)) {
                    m.vals.push(x);
                } else if kind == Res {
                    m.errs.push(Tok::default().val());
                }
            }
            m
        }
        MAP_ERR => {
            let errs = a.errs.iter().map(|v| r1(r, k, *v)).collect::<R<_>>()?;
            M { errs, ..a.clone() }
        }
        BIMAP => match o.form % 3 {
            0 => {
                let vals = a.vals.iter().map(|v| r1(r, k, *v)).collect::<R<_>>()?;
                M { vals, ..a.clone() }
            }
            1 => {
                let errs = a.errs.iter().map(|v| r1(r, k, *v)).collect::<R<_>>()?;
                M { errs, ..a.clone() }
            }
            _ => {
                let vals = a.vals.iter().map(|v| r1(r, k, *v)).collect::<R<_>>()?;
                let errs = a.errs.iter().map(|v| r1(r, k + 1, *v)).collect::<R<_>>()?;
                M { vals, errs, ..a.clone() }
            }
        },
        CATCH => match (a.vals.is_empty(), a.errs.first()) {
            (false, _) => a.clone(),
            (_, e) => rc(r, kind, k, e.copied().unwrap_or(0))?,
        },
        ERR_TO => match (a.vals.is_empty(), a.errs.first()) {
            (false, _) => a.clone(),
            (_, None) => {
                r1(r, k, 0)?;
                a.clone()
            }
            (_, Some(e)) => M { errs: vec![r1(r, k, *e)?], ..M::default() },
        },
        CAT => {
            // lists of one are made of every value, combined, and digested
            let (x, y) = (a.vals.first(), b.vals.first());
            match (x, y) {
                (None, None) => M::default(),
                (Some(x), None) | (None, Some(x)) => one(digest(&[*x])),
                (Some(x), Some(y)) => M { log: [&a.log[..], &b.log].concat(), ..one(digest(&[*x, *y])) },
            }
        }
        _ => C::own(o, a, b, r)?,
    })
}

/// The operations of functors, applicatives and monads, for a concrete carrier.
macro_rules! functor {
    (ref $C:ident, $o:ident, $a:ident) => {{
        let k = $o.k;
        match $o.code {
            MAP => $a.fmap(|t| u1(k, t)),
            _ if $o.form % 3 == 0 => $a.void().fmap_owned(|()| Tok::new(0)),
            _ => $a.replace(&Tok::new(k as i64)),
        }
    }};
    (val $C:ident, $o:ident, $a:ident) => {{
        let k = $o.k;
        match $o.code {
            MAP => $a.fmap_owned(|t: Tok| u1(k, &t)),
            _ if $o.form % 3 == 0 => $a.void_owned().fmap(|()| Tok::new(0)),
            _ => $a.replace_owned(Tok::new(k as i64)),
        }
    }};
}
macro_rules! applicative {
    (ref $T:ty, $o:ident, $a:ident, $b:ident, $c:ident, $rest:expr) => {{
        let k = $o.k;
        match $o.code {
            MAP | REPLACE => functor!(ref C, $o, $a),
            APPLY => {
                let fs = $a.fmap(|t| {
                    let t = t.with(t.val());
                    move |x: &Tok| u2(k, &t, x)
                });
                fs.apply($b)
            }
            LIFT2 => <$T>::lift2(|x: &Tok, y: &Tok| u2(k, x, y), $a, $b),
            AP2 => <$T>::ap2(|x: &Tok, y: &Tok| u2(k, x, y), $a, $b),
            LIFT3 => <$T>::lift3(|x: &Tok, y: &Tok, z: &Tok| u3(k, x, y, z), $a, $b, $c),
            SEQ_R => <$T>::sequence_right::<Tok, Tok>($a, $b),
            SEQ_L => <$T>::sequence_left::<Tok, Tok>($a, $b),
            _ => $rest,
        }
    }};
    (val $T:ty, $o:ident, $a:ident, $b:ident, $c:ident, $rest:expr) => {{
        let k = $o.k;
        match $o.code {
            MAP | REPLACE => functor!(val C, $o, $a),
            APPLY => {
                let fs = $a.fmap(|t| {
                    let t = t.with(t.val());
                    move |x: Tok| u2(k, &t, &x)
                });
                drop($a);
                fs.apply_owned($b)
            }
            LIFT2 | AP2 => <$T>::lift2_owned(|x: Tok, y: Tok| u2(k, &x, &y), $a, $b),
            LIFT3 => <$T>::lift3_owned(|x: Tok, y: Tok, z: Tok| u3(k, &x, &y, &z), $a, $b, $c),
            SEQ_R => <$T>::sequence_right_owned::<Tok, Tok>($a, $b),
            SEQ_L => <$T>::sequence_left_owned::<Tok, Tok>($a, $b),
            _ => $rest,
        }
    }};
}
macro_rules! monad {
    (ref $T:ty, $o:ident, $a:ident, $b:ident, $c:ident, $rest:expr) => {{
        let k = $o.k;
        match $o.code {
            BIND => $a.bind(|t| uc::<$T>(k, t)),
            FLAT_MAP => $a.flat_map(|t| uc::<$T>(k, t)),
            MAP_PURE => $a.map_and_pure(|t| u1(k, t)),
            TRY_BIND => $a.try_bind(&Tok::new(3), |t| {
                let c = uc::<$T>(k, t);
                if step_fails(key(k + 1, t.val())) { Err(c) } else { Ok(c) }
            }),
            JOIN => $a.fmap(|t| uc::<$T>(k, t)).join::<Tok>(),
            _ => applicative!(ref $T, $o, $a, $b, $c, $rest),
        }
    }};
    (val $T:ty, $o:ident, $a:ident, $b:ident, $c:ident, $rest:expr) => {{
        let k = $o.k;
        match $o.code {
            BIND => $a.bind_owned(|t: Tok| uc::<$T>(k, &t)),
            FLAT_MAP => $a.flat_map_owned(|t: Tok| uc::<$T>(k, &t)),
            JOIN => $a.fmap_owned(|t: Tok| uc::<$T>(k, &t)).join_owned::<Tok>(),
            _ => applicative!(val $T, $o, $a, $b, $c, $rest),
        }
    }};
}
fn fold<C: Foldable<Source = Tok>>(o: &Op, a: &C) -> Tok {
    let k = o.k;
    match o.form % 4 {
        0 => a.fold_left(&Tok::new(11), |x: &Tok, t| u2(k, x, t)),
        1 => a.fold_right(&Tok::new(11), |t, x: &Tok| u2(k, t, x)),
        2 => digest_t(a.fold_map(|t| vec![u1(k, t)])),
        _ => Tok::new(a.length() as i64 * 2 + a.is_empty() as i64),
    }
}
pub fn combine<C: Semigroup + Clone>(o: &Op, a: &C, b: &C, c: &C) -> C {
    match o.form % 4 {
        0 | 1 => a.combine(b),
        2 => a.combine(b).combine(c),
        _ => a.combine_n(&3),
    }
}
pub fn combine_owned<C: Semigroup + Clone>(o: &Op, a: C, b: C, c: C) -> C {
    match o.form % 4 {
        0 => a.combine_owned(b),
        1 => C::combine_all_owned([a, b]),
        2 => a.combine_all([b, c]),
        _ => a.combine_n_owned(3),
    }
}


pub type Op_ = Option<Tok>;
impl Car for Op_ {
    const NAME: &'static str = "Option";
    const KIND: Kind = Opt;
    const HAS: &'static [usize] = &[OWN, BIND, FLAT_MAP, MAP_PURE, TRY_BIND, JOIN, APPLY, LIFT2, LIFT3, AP2, SEQ_R, SEQ_L, FOLD, PLUS, ALT, MANY, TRY_MAP, FILTER_MAP, CATCH, CAT, ERR_TO];
    fn mk(m: &M) -> Self {
        m.vals.first().map(|v| Tok::new(*v))
    }
    fn read(&self) -> M {
        more::answers(self, M { vals: self.iter().map(|t| t.val()).collect(), ..M::default() })
    }
    fn by_ref(o: &Op, a: &Self, b: &Self, c: &Self) -> Self {
        if o.code == OWN {
            return more::option(o, a.clone(), b.clone());
        }
        let k = o.k;
        monad!(ref Self, o, a, b, c, match o.code {
            FOLD => Some(fold(o, a)),
            PLUS => a.mplus(b),
            ALT => a.alt(b),
            MANY => a.many().fmap_owned(digest_t),
            TRY_MAP if o.form % 2 == 0 => a.try_map_or(Tok::new(4), |t| utry(k, t)),
            TRY_MAP => a.try_map_or_else(|e: &Tok| u1(k + 1, e), |t| utry(k, t)),
            FILTER_MAP => FunctorExt::filter_map(a, |t| utry(k, t).ok()),
            CATCH => a.catch(|_: &()| uc::<Self>(k, &Tok::new(0))),
            ERR_TO => a.map_error_to(|_: &()| u1(k, &Tok::new(0))).ok(),
            _ => Functor::fmap(a, |t| vec![t.with(t.val())]).combine(&b.fmap(|t| vec![t.with(t.val())])).fmap_owned(digest_t),
        })
    }
    fn by_val(o: &Op, a: Self, b: Self, c: Self) -> Self {
        if o.code == OWN {
            return more::option(o, a, b);
        }
        let k = o.k;
        monad!(val Self, o, a, b, c, match o.code {
            PLUS => a.mplus_owned(b),
            CATCH => a.catch_owned(|_: ()| uc::<Self>(k, &Tok::new(0))),
            ERR_TO => a.map_error_to_owned(|_: ()| u1(k, &Tok::new(0))).ok(),
            CAT => a.fmap_owned(|t| vec![t]).combine_owned(b.fmap_owned(|t| vec![t])).fmap_owned(digest_t),
            _ => Self::by_ref(o, &a, &b, &c),
        })
    }
    fn own(o: &Op, a: &M, b: &M, r: &mut Rec) -> R<M> {
        more::option_model(o, a, b, r)
    }
}

pub type Ma = Maybe<Tok>;
impl Car for Ma {
    const NAME: &'static str = "Maybe";
    const KIND: Kind = Opt;
    const HAS: &'static [usize] = &[BIND, FLAT_MAP, MAP_PURE, TRY_BIND, JOIN, APPLY, LIFT2, LIFT3, AP2, SEQ_R, SEQ_L, PLUS, ALT, MANY, OWN];
    fn mk(m: &M) -> Self {
        m.vals.first().map_or(Maybe::Nothing, |v| Maybe::Just(Tok::new(*v)))
    }
    fn read(&self) -> M {
        match self {
            Maybe::Just(t) => one(t.val()),
            Maybe::Nothing => M::default(),
        }
    }
    fn by_ref(o: &Op, a: &Self, b: &Self, c: &Self) -> Self {
        monad!(ref Self, o, a, b, c, match o.code {
            PLUS => a.mplus(b),
            ALT => a.alt(b),
            MANY => a.many().fmap_owned(digest_t),
            _ => Self::by_val(o, a.clone(), b.clone(), c.clone()),
        })
    }
    fn by_val(o: &Op, a: Self, b: Self, c: Self) -> Self {
        monad!(val Self, o, a, b, c, match (o.code, o.form) {
            (PLUS, _) => a.mplus_owned(b),
            (OWN, _) => more::maybe(o, a),
            _ => Self::by_ref(o, &a, &b, &c),
        })
    }
    fn own(o: &Op, a: &M, _: &M, r: &mut Rec) -> R<M> {
        more::maybe_model(o, a, r)
    }
}

pub type Re = Result<Tok, Tok>;
impl Car for Re {
    const NAME: &'static str = "Result";
    const KIND: Kind = Res;
    const HAS: &'static [usize] = &[OWN, BIND, FLAT_MAP, MAP_PURE, TRY_BIND, JOIN, APPLY, LIFT2, LIFT3, AP2, SEQ_R, SEQ_L, FOLD, PLUS, TRY_MAP, FILTER_MAP, CATCH, ERR_TO];
    fn mk(m: &M) -> Self {
        match m.vals.first() {
            Some(v) => Ok(Tok::new(*v)),
            None => Err(Tok::new(m.errs[0])),
        }
    }
    fn read(&self) -> M {
        more::answers(
            self,
            match self {
                Ok(t) => one(t.val()),
                Err(e) => M { errs: vec![e.val()], ..M::default() },
            },
        )
    }
    fn by_ref(o: &Op, a: &Self, b: &Self, c: &Self) -> Self {
        if o.code == OWN {
            return more::result(o, a.clone(), b.clone());
        }
        let k = o.k;
        monad!(ref Self, o, a, b, c, match o.code {
            FOLD => Ok(fold(o, a)),
            PLUS => a.mplus(b),
            TRY_MAP if o.form % 2 == 0 => a.try_map_or(Tok::new(4), |t| utry(k, t)),
            TRY_MAP => a.try_map_or_else(|e: &Tok| u1(k + 1, e), |t| utry(k, t)),
            FILTER_MAP => FunctorExt::filter_map(a, |t| utry(k, t).ok()),
            CATCH => a.catch(|e: &Tok| uc::<Self>(k, e)),
            _ => a.map_error_to(|e: &Tok| u1(k, e)),
        })
    }
    fn by_val(o: &Op, a: Self, b: Self, c: Self) -> Self {
        if o.code == OWN {
            return more::result(o, a, b);
        }
        let k = o.k;
        monad!(val Self, o, a, b, c, match o.code {
            PLUS => a.mplus_owned(b),
            CATCH => a.catch_owned(|e: Tok| uc::<Self>(k, &e)),
            ERR_TO => a.map_error_to_owned(|e: Tok| u1(k, &e)),
            _ => Self::by_ref(o, &a, &b, &c),
        })
    }
    fn own(o: &Op, a: &M, b: &M, r: &mut Rec) -> R<M> {
        more::result_model(o, a, b, r)
    }
}

pub type Ei = Either<Tok, Tok>;
impl Car for Ei {
    const NAME: &'static str = "Either";
    const KIND: Kind = Res;
    const HAS: &'static [usize] = &[OWN, BIND, FLAT_MAP, MAP_PURE, TRY_BIND, JOIN, APPLY, LIFT2, LIFT3, AP2, SEQ_R, SEQ_L, MANY, ALT, MAP_ERR, BIMAP];
    fn mk(m: &M) -> Self {
        match m.vals.first() {
            Some(v) => Either::Right(Tok::new(*v)),
            None => Either::Left(Tok::new(m.errs[0])),
        }
    }
    fn read(&self) -> M {
        match self {
            Either::Right(t) => {
                check!(self.is_right() && !self.is_left() && self.right_ref() == t && self.left_iter_ref().count() == 0, "accessor", "{self:?}");
                one(t.val())
            }
            Either::Left(e) if !self.is_left() || self.is_right() || self.left_ref() != e || self.into_iter().count() > 0 => fail("accessor", &format!("{self:?}")),
            Either::Left(e) => M { errs: vec![e.val()], ..M::default() },
        }
    }
    fn by_ref(o: &Op, a: &Self, b: &Self, c: &Self) -> Self {
        if o.code == OWN {
            return more::either(o, a.clone(), b.clone());
        }
        let k = o.k;
        monad!(ref Self, o, a, b, c, match (o.code, o.form % 3) {
            (MANY, _) => a.many().fmap_owned(digest_t),
            (ALT, _) => a.alt(b),
            (MAP_ERR, _) => a.map_second(|e| u1(k, e)),
            (_, 0) => a.first(|t| u1(k, t)),
            (_, 1) => a.second(|e| u1(k, e)),
            _ => a.bimap(|t| u1(k, t), |e| u1(k + 1, e)),
        })
    }
    fn by_val(o: &Op, a: Self, b: Self, c: Self) -> Self {
        if o.code == OWN {
            return more::either(o, a, b);
        }
        let k = o.k;
        monad!(val Self, o, a, b, c, match (o.code, o.form % 3) {
            (MAP_ERR, 0) => a.fmap_left(|e| u1(k, &e)),
            (MAP_ERR, _) => a.map_second_owned(|e| u1(k, &e)),
            (BIMAP, 0) => a.fmap_right(|t| u1(k, &t)),
            (BIMAP, 1) => a.fmap_left(|t| u1(k, &t)),
            _ => Self::by_ref(o, &a, &b, &c),
        })
    }
    fn own(o: &Op, a: &M, b: &M, r: &mut Rec) -> R<M> {
        more::either_model(o, a, b, r)
    }
}

pub type Va = Validated<Tok, Tok>;
impl Car for Va {
    const NAME: &'static str = "Validated";
    const KIND: Kind = Acc;
    const HAS: &'static [usize] = &[OWN, BIND, FLAT_MAP, MAP_PURE, TRY_BIND, JOIN, APPLY, LIFT2, LIFT3, AP2, SEQ_R, SEQ_L, FOLD, PLUS, ALT, COMBINE, MANY, MAP_ERR, BIMAP];
    fn mk(m: &M) -> Self {
        match m.vals.first() {
            Some(v) => Validated::Valid(Tok::new(*v)),
            None => Validated::Invalid(toks(&m.errs)),
        }
    }
    fn read(&self) -> M {
        let m = match self {
            Validated::Valid(t) => one(t.val()),
            Validated::Invalid(e) => M { errs: read(e), ..M::default() },
        };
        let errs: Vec<i64> = self.iter_errors().map(|t| t.val()).collect();
        let vals: Vec<i64> = self.iter().map(|t| t.val()).collect();
        check!(errs == m.errs && read(self.error_slice()) == errs && vals == m.vals, "accessor", "iterating {m:?} gives {vals:?} and {errs:?}");
        check!(self.is_valid() != self.is_invalid() && self.is_valid() == self.error_payload().is_none() && self.as_ref().is_some() == self.is_valid(), "accessor", "{m:?}");
        more::answers(self, m)
    }
    fn by_ref(o: &Op, a: &Self, b: &Self, c: &Self) -> Self {
        if o.code == OWN {
            return more::validated(o, a.clone(), b.clone());
        }
        let k = o.k;
        monad!(ref Self, o, a, b, c, match (o.code, o.form % 3) {
            (FOLD, _) => Validated::Valid(fold(o, a)),
            (PLUS, _) => a.mplus(b),
            (ALT, _) => a.alt(b),
            (COMBINE, _) => combine(o, a, b, c),
            (MANY, _) => a.many().fmap_owned(digest_t),
            (MAP_ERR, 0) => a.fmap_invalid(|e| u1(k, e)),
            (MAP_ERR, _) => a.map_second(|e| u1(k, e)),
            (_, 0) => a.first(|t| u1(k, t)),
            (_, 1) => a.second(|e| u1(k, e)),
            _ => a.bimap(|t| u1(k, t), |e| u1(k + 1, e)),
        })
    }
    fn by_val(o: &Op, a: Self, b: Self, c: Self) -> Self {
        if o.code == OWN {
            return more::validated(o, a, b);
        }
        let k = o.k;
        monad!(val Self, o, a, b, c, match (o.code, o.form % 3) {
            (PLUS, _) => a.mplus_owned(b),
            (COMBINE, _) => combine_owned(o, a, b, c),
            (MAP_ERR, 0) => a.fmap_invalid_owned(|e| u1(k, &e)),
            (MAP_ERR, _) => a.map_second_owned(|e| u1(k, &e)),
            _ => Self::by_ref(o, &a, &b, &c),
        })
    }
    fn own(o: &Op, a: &M, b: &M, r: &mut Rec) -> R<M> {
        more::validated_model(o, a, b, r)
    }
}

pub type I = Id<Tok>;
impl Car for I {
    const NAME: &'static str = "Id";
    const KIND: Kind = One;
    const HAS: &'static [usize] = &[BIND, FLAT_MAP, MAP_PURE, TRY_BIND, JOIN, APPLY, LIFT2, LIFT3, AP2, SEQ_R, SEQ_L, FOLD, CAT, OWN];
    fn mk(m: &M) -> Self {
        Id::new(Tok::new(m.vals[0]))
    }
    fn read(&self) -> M {
        more::answers(self, one(self.as_ref().val()))
    }
    fn by_ref(o: &Op, a: &Self, b: &Self, c: &Self) -> Self {
        let k = o.k;
        monad!(ref Self, o, a, b, c, match (o.code, o.form % 7) {
            (FOLD, _) => Id::new(fold(o, a)),
            (CAT, _) => a.fmap(|t| vec![t.with(t.val())]).combine(&b.fmap(|t| vec![t.with(t.val())])).fmap_owned(digest_t),
            (_, 0) => a.extend(|w| u1(k, w.as_ref())),
            (_, 1) => a.duplicate(),
            _ => more::id(o, a.clone(), b.clone()),
        })
    }
    fn by_val(o: &Op, a: Self, b: Self, c: Self) -> Self {
        monad!(val Self, o, a, b, c, match o.code {
            CAT => a.fmap_owned(|t| vec![t]).combine_owned(b.fmap_owned(|t| vec![t])).fmap_owned(digest_t),
            _ => Self::by_ref(o, &a, &b, &c),
        })
    }
    fn own(o: &Op, a: &M, b: &M, r: &mut Rec) -> R<M> {
        more::id_model(o, a, b, r)
    }
}

/// A log of user's own making, no larger than a word.
#[derive(Clone)]
pub struct LogBox(Box<Vec<Tok>>);
impl FromIterator<Tok> for LogBox {
    fn from_iter<I: IntoIterator<Item = Tok>>(i: I) -> LogBox {
        LogBox(Box::new(i.into_iter().collect()))
    }
}
impl std::ops::Deref for LogBox {
    type Target = [Tok];
    fn deref(&self) -> &[Tok] {
        &self.0
    }
}
impl Semigroup for LogBox {
    fn combine(&self, b: &Self) -> Self {
        LogBox(Box::new(self.0.iter().chain(&*b.0).cloned().collect()))
    }
    fn combine_owned(mut self, b: Self) -> Self {
        self.0.extend(*b.0);
        self
    }
}
impl rustica::traits::monoid::Monoid for LogBox {
    fn empty() -> Self {
        LogBox(Box::default())
    }
}
pub type Wr = Writer<Vec<Tok>, Tok>;
pub type WrB = Writer<LogBox, Tok>;
macro_rules! writer {
    ($W:ty, $L:ty, $name:expr) => {
        impl Car for $W {
            const NAME: &'static str = $name;
            const KIND: Kind = Log;
            const HAS: &'static [usize] = &[OWN, BIND, FLAT_MAP, MAP_PURE, TRY_BIND, JOIN, APPLY, LIFT2, LIFT3, AP2, SEQ_R, SEQ_L, CAT];
            fn mk(m: &M) -> Self {
                Writer::new(toks(&m.log), Tok::new(m.vals[0]))
            }
            fn read(&self) -> M {
                let (log, v) = self.clone().run();
                M { log: read(&log), ..one(v.val()) }
            }
            fn by_ref(o: &Op, a: &Self, b: &Self, c: &Self) -> Self {
                if o.code == OWN {
                    return more::writer::<$L>(o, a.clone(), b.clone());
                }
                monad!(ref Self, o, a, b, c, a.fmap(|t| vec![t.with(t.val())]).combine(&b.fmap(|t| vec![t.with(t.val())])).fmap_owned(digest_t))
            }
            fn by_val(o: &Op, a: Self, b: Self, c: Self) -> Self {
                if o.code == OWN {
                    return more::writer::<$L>(o, a, b);
                }
                monad!(val Self, o, a, b, c, match o.code {
                    CAT => a.fmap_owned(|t| vec![t]).combine_owned(b.fmap_owned(|t| vec![t])).fmap_owned(digest_t),
                    _ => Self::by_ref(o, &a, &b, &c),
                })
            }
            fn own(o: &Op, a: &M, b: &M, r: &mut Rec) -> R<M> {
                more::writer_model(o, a, b, r)
            }
        }
    };
}
writer!(Wr, Vec<Tok>, "Writer");
writer!(WrB, LogBox, "Writer with a boxed log");

pub type Ch = rustica::datatypes::choice::Choice<Tok>;
impl Car for Ch {
    const NAME: &'static str = "Choice";
    const KIND: Kind = Choice;
    const HAS: &'static [usize] = &[OWN, BIND, FLAT_MAP, MAP_PURE, TRY_BIND, JOIN, APPLY, LIFT2, LIFT3, AP2, SEQ_R, SEQ_L, FOLD, PLUS, ALT, COMBINE, MANY];
    fn mk(m: &M) -> Self {
        toks(&m.vals)
    }
    fn read(&self) -> M {
        let m = M { vals: self.iter().map(|t| t.val()).collect(), ..M::default() };
        check!(self.first().map(|t| t.val()) == m.vals.first().copied(), "accessor", "first of {m:?} is {:?}", self.first());
        check!(read(self.alternatives()) == m.vals[m.vals.len().min(1)..], "accessor", "the alternatives of {m:?} are {:?}", self.alternatives());
        check!(self.len() == m.vals.len() && self.is_empty() == m.vals.is_empty(), "accessor", "the length of {m:?} is {}", self.len());
        more::answers(self, m)
    }
    fn by_ref(o: &Op, a: &Self, b: &Self, c: &Self) -> Self {
        if o.code == OWN {
            return more::choice(o, a.clone(), b.clone());
        }
        monad!(ref Self, o, a, b, c, match o.code {
            FOLD => toks(&[fold(o, a).val()]),
            PLUS => a.mplus(b),
            ALT => a.alt(b),
            COMBINE => combine(o, a, b, c),
            _ => a.many().fmap_owned(digest_t),
        })
    }
    fn by_val(o: &Op, a: Self, b: Self, c: Self) -> Self {
        if o.code == OWN {
            return more::choice(o, a, b);
        }
        monad!(val Self, o, a, b, c, match o.code {
            PLUS => a.mplus_owned(b),
            COMBINE => combine_owned(o, a, b, c),
            _ => Self::by_ref(o, &a, &b, &c),
        })
    }
    fn own(o: &Op, a: &M, b: &M, r: &mut Rec) -> R<M> {
        more::choice_model(o, a, b, r)
    }
}

impl Car for Vec<Tok> {
    const NAME: &'static str = "Vec";
    const KIND: Kind = List;
    const HAS: &'static [usize] = &[APPLY, LIFT2, LIFT3, AP2, SEQ_R, SEQ_L, FOLD, ALT, COMBINE, MANY, TRY_MAP, FILTER_MAP];
    fn mk(m: &M) -> Self {
        toks(&m.vals)
    }
    fn read(&self) -> M {
        more::answers(self, M { vals: read(self), ..M::default() })
    }
    fn by_ref(o: &Op, a: &Self, b: &Self, c: &Self) -> Self {
        let k = o.k;
        applicative!(ref Self, o, a, b, c, match o.code {
            FOLD => vec![fold(o, a)],
            ALT => a.alt(b),
            COMBINE => combine(o, a, b, c),
            MANY => a.many().fmap_owned(digest_t),
            TRY_MAP if o.form % 2 == 0 => a.try_map_or(Tok::new(4), |t| utry(k, t)),
            TRY_MAP => a.try_map_or_else(|e: &Tok| u1(k + 1, e), |t| utry(k, t)),
            _ => FunctorExt::filter_map(a, |t| utry(k, t).ok()),
        })
    }
    fn by_val(o: &Op, a: Self, b: Self, c: Self) -> Self {
        applicative!(val Self, o, a, b, c, match o.code {
            COMBINE => combine_owned(o, a, b, c),
            _ => Self::by_ref(o, &a, &b, &c),
        })
    }
}

impl Car for Bag<Tok> {
    const NAME: &'static str = "Bag";
    const KIND: Kind = List;
    const HAS: &'static [usize] = &[BIND, FLAT_MAP, MAP_PURE, TRY_BIND, JOIN, APPLY, LIFT2, LIFT3, AP2, SEQ_R, SEQ_L, FOLD, COMBINE, TRY_MAP, FILTER_MAP];
    fn mk(m: &M) -> Self {
        Bag(toks(&m.vals))
    }
    fn read(&self) -> M {
        more::answers(self, M { vals: read(&self.0), ..M::default() })
    }
    fn by_ref(o: &Op, a: &Self, b: &Self, c: &Self) -> Self {
        let k = o.k;
        monad!(ref Self, o, a, b, c, match o.code {
            FOLD => Bag(vec![fold(o, a)]),
            COMBINE => combine(o, a, b, c),
            TRY_MAP if o.form % 2 == 0 => a.try_map_or(Tok::new(4), |t| utry(k, t)),
            TRY_MAP => a.try_map_or_else(|e: &Tok| u1(k + 1, e), |t| utry(k, t)),
            _ => FunctorExt::filter_map(a, |t| utry(k, t).ok()),
        })
    }
    fn by_val(o: &Op, a: Self, b: Self, c: Self) -> Self {
        monad!(val Self, o, a, b, c, match o.code {
            COMBINE => combine_owned(o, a, b, c),
            _ => Self::by_ref(o, &a, &b, &c),
        })
    }
}

/// Maps, sets and tuples: combined only.
macro_rules! bag {
    ($T:ty, $name:expr, $kind:expr, $mk:expr, $read:expr) => {
        impl Car for $T {
            const NAME: &'static str = $name;
            const KIND: Kind = $kind;
            const HAS: &'static [usize] = &[COMBINE];
            const FUNCTOR: bool = false;
            fn mk(m: &M) -> Self {
                let f: fn(&M) -> Self = $mk;
                f(m)
            }
            fn read(&self) -> M {
                let f: fn(&Self) -> M = $read;
                f(self)
            }
            fn by_ref(o: &Op, a: &Self, b: &Self, c: &Self) -> Self {
                combine(o, a, b, c)
            }
            fn by_val(o: &Op, a: Self, b: Self, c: Self) -> Self {
                combine_owned(o, a, b, c)
            }
        }
    };
}
type L = Vec<Tok>;
fn mk_map<C: FromIterator<(Tok, L)>>(m: &M) -> C {
    unflat(&m.vals).into_iter().map(|(k, v)| (Tok::new(k), toks(&v))).collect()
}
fn read_map<'a>(i: impl Iterator<Item = (&'a Tok, &'a L)>) -> M {
    M { vals: flat(&i.map(|(k, v)| (k.val(), read(v))).collect()), ..M::default() }
}
fn read_set<'a>(i: impl Iterator<Item = &'a Tok>) -> M {
    let mut vals: Vec<i64> = i.map(|t| t.val()).collect();
    vals.sort();
    M { vals, ..M::default() }
}
bag!(HashMap<Tok, L>, "HashMap", Map, mk_map, |c| read_map(c.iter()));
bag!(BTreeMap<Tok, L>, "BTreeMap", Map, mk_map, |c| read_map(c.iter()));
bag!(HashSet<Tok>, "HashSet", Set, |m| toks(&m.vals), |c| read_set(c.iter()));
bag!(BTreeSet<Tok>, "BTreeSet", Set, |m| toks(&m.vals), |c| read_set(c.iter()));
bag!((L, L), "pair", Tup, |m| (toks(&m.vals), toks(&m.errs)), |c| M { vals: read(&c.0), errs: read(&c.1), log: vec![] });
bag!((L, L, L), "triple", Tup, |m| (toks(&m.vals), toks(&m.errs), toks(&m.log)), |c| M { vals: read(&c.0), errs: read(&c.1), log: read(&c.2) });
bag!((L, Option<L>, (L, L), L), "quadruple", Tup,
    |m| (toks(&m.vals), Some(toks(&m.errs)), (toks(&m.log), toks(&m.vals)), toks(&m.vals)),
    |c| {
        check!(read(&c.0) == read(&c.2.1) && c.0 == c.3, "wrong-value", "parts of a tuple differ: {c:?}");
        M { vals: read(&c.0), errs: read(c.1.as_ref().unwrap()), log: read(&c.2.0) }
    });

/// Wrappers: a value at most, with a semigroup that picks one.
macro_rules! wrapper {
    ($T:ident, $kind:expr, $mk:expr, $read:expr, $pick:expr) => {
        impl Car for $T<Tok> {
            const NAME: &'static str = stringify!($T);
            const KIND: Kind = $kind;
            const HAS: &'static [usize] = &[OWN];
            fn mk(m: &M) -> Self {
                let f: fn(Option<Tok>) -> Self = $mk;
                f(m.vals.first().map(|v| Tok::new(*v)))
            }
            fn read(&self) -> M {
                let f: fn(&Self) -> Option<&Tok> = $read;
                M { vals: f(self).iter().map(|t| t.val()).collect(), ..M::default() }
            }
            fn by_ref(o: &Op, a: &Self, b: &Self, _: &Self) -> Self {
                match o.code {
                    MAP => a.fmap(|t| u1(o.k, t)),
                    REPLACE => a.replace(&Tok::new(o.k as i64)),
                    _ => a.combine(b),
                }
            }
            fn by_val(o: &Op, a: Self, b: Self, _: Self) -> Self {
                match o.code {
                    MAP => a.fmap_owned(|t: Tok| u1(o.k, &t)),
                    REPLACE => a.replace_owned(Tok::new(o.k as i64)),
                    _ => a.combine_owned(b),
                }
            }
            fn own(_: &Op, a: &M, b: &M, _: &mut Rec) -> R<M> {
                let f: fn(&M, &M) -> M = $pick;
                Ok(f(a, b))
            }
        }
    };
}
wrapper!(First, Opt, First, |x| x.0.as_ref(), |a, b| either(a, b).clone());
wrapper!(Last, Opt, Last, |x| x.0.as_ref(), |a, b| either(b, a).clone());
wrapper!(Max, One, |x| Max(x.unwrap()), |x| Some(&x.0), |a, b| one(a.vals[0].max(b.vals[0])));
wrapper!(Sum, One, |x| Sum(x.unwrap()), |x| Some(&x.0), |a, b| one(ledger::add(a.vals[0], b.vals[0])));
wrapper!(Product, One, |x| Product(x.unwrap()), |x| Some(&x.0), |a, b| one(ledger::mul(a.vals[0], b.vals[0])));
wrapper!(Min, One, |x| Min(x.unwrap()), |x| Some(&x.0), |a, b| one(a.vals[0].min(b.vals[0])));

/// An entry of the pool: a carrier, and what it must hold.
struct Ent<C> {
    c: Arc<C>,
    m: M,
}
impl<C> Clone for Ent<C> {
    fn clone(&self) -> Self {
        Ent { c: self.c.clone(), m: self.m.clone() }
    }
}
fn intact<C: Car>(e: &Ent<C>, when: &str) {
    let got = sut(|| e.c.read());
    check!(got == e.m, "input-changed", "{} {when}: an operand holds {got:?}, expected {:?}", C::NAME, e.m);
}

fn draw<C: Car>(absent: u32) -> M {
    let x = || wr(1, 900) as i64;
    let some = |n: usize| (0..n).map(|_| x()).collect::<Vec<_>>();
    let none = wchance(absent, 6);
    match C::KIND {
        Opt if none => M::default(),
        Res if none => M { errs: some(1), ..M::default() },
        Acc if none => M { errs: some(util::size(1, 4, 20)), ..M::default() },
        Log => M { log: some(util::size(0, 3, 20)), ..one(x()) },
        List | Choice => M { vals: some(util::size(0, 4, 24)), ..M::default() },
        Map => {
            let m = {
                let keys = if wchance(1, 8) { 90 } else { 7 };
                (0..util::size(0, 4, if keys > 7 { 20 } else { 8 })).map(|_| (wr(0, keys) as i64, some(util::size(0, 2, 6)))).collect()
            };
            M { vals: flat(&m), ..M::default() }
        }
        Set => M { vals: (0..util::size(0, 4, 20)).map(|_| wr(0, if wchance(1, 4) { 90 } else { 20 }) as i64).collect::<BTreeSet<_>>().into_iter().collect(), ..M::default() },
        Tup => M { vals: some(util::size(0, 3, 8)), errs: vec![], log: vec![] },
        _ => one(x()),
    }
}

fn chain<C: Car>() {
    let n = if wchance(1, 5) { 1 + crate::util::crowd(1) } else { 1 };
    let per = util::size(1, 10, 50);
    util::draw_lumpy();
    let absent = [2, 2, 2, 5][w(4)];
    let start: Vec<M> = (0..wr(2, 5)).map(|_| draw::<C>(absent)).collect();
    // a few operations again and again, or all of them
    let few: Vec<usize> = if wchance(1, 2) { (0..wr(1, 4)).map(|_| C::HAS[w(C::HAS.len())]).collect() } else { C::HAS.to_vec() };
    let ops: Vec<Vec<Op>> = (0..n)
        .map(|_| {
            (0..per)
                .map(|i| {
                    let code = if C::FUNCTOR && wchance(1, 6) { w(2) } else { few[w(few.len())] };
                    Op { code, k: 10 + 3 * i as u32, own: wchance(1, 2), at: [w(64), w(64), w(64)], form: w(36) }
                })
                .collect()
        })
        .collect();
    describe(&format!("{} {start:?}; {ops:?}", C::NAME));
    let start: Vec<Ent<C>> = start.into_iter().map(|m| Ent { c: Arc::new(sut(|| C::mk(&m))), m }).collect();
    let pool = Arc::new(start);
    let p2 = pool.clone();
    let go = move |t: usize| {
        let _q = Mode::quiet();
        let mut mine: Vec<Ent<C>> = p2.iter().cloned().collect();
        for (i, o) in ops[t].iter().enumerate() {
            if simcore::tired() {
                break;
            }
            step(&mut mine, o, t * 1000 + i);
            linger(1);
        }
        for e in &mine {
            intact(e, "at the end");
        }
        sut(move || drop(mine));
    };
    if n == 1 {
        go(0);
        sut(move || drop(go));
    } else {
        threads(n, go)
    }
    for e in pool.iter() {
        intact(e, "in the end");
    }
    sut(move || drop(pool));
    ledger::check_empty("after the carriers were dropped");
}

fn step<C: Car>(pool: &mut Vec<Ent<C>>, o: &Op, id: usize) {
    let at = [o.at[0] % pool.len(), o.at[1] % pool.len(), o.at[2] % pool.len()];
    let [a, b, c] = at.map(|i| pool[i].clone());
    if o.code == MANY && a.m.vals.is_empty() {
        return;
    }
    let run = Run { id, arg: 0, how: o.code };
    let fs = cfg().fault_scale;
    if plan_chance(if fs > 0 { fs } else { 200 }, 1024) {
        for v in 0..4 {
            for k in [o.k, o.k + 1] {
                if wchance(1, 3) {
                    plan_error(id, key(k, v));
                }
            }
        }
    }
    let mut rec = Rec::new(id);
    let free = model::<C>(o, &a.m, &b.m, &c.m, &mut rec);
    if rec.log.len() > 300 || free.is_ok_and(|m| m.vals.len() > 60 || m.log.len() > 60 || m.errs.len() > 60) {
        return;
    }
    let mut bomb = 0;
    if fs > 0 {
        if !rec.log.is_empty() && plan_chance(fs, 1024) {
            fx::plan_panic(id, rec.log[fault_choose(rec.log.len())].0, fault_choose(3) as u8);
        }
        if plan_chance(fs, 2048) {
            bomb = 1 + fault_choose([2, 8, 60][fault_choose(3)]) as u32;
        }
    }
    let mut rec = Rec::new(id);
    let res = model::<C>(o, &a.m, &b.m, &c.m, &mut rec);
    let want = Ref { log: rec.log, res };
    let what = format!("{} {o:?} on {:?}, {:?}, {:?}", C::NAME, a.m, b.m, c.m);
    event(c"op", o.code as i64, id as i64);
    fx::enter(id);
    let mut made: Option<C> = None;
    let slot = &mut made;
    // what is consumed is a clone, or an entry nobody else holds
    let alone = o.own && at[0] != at[1] && at[0] != at[2] && { drop(a.c); Arc::strong_count(&pool[at[0]].c) == 1 };
    let got = if o.own {
        let mut args: Vec<C> = Vec::new();
        let keep = if alone { Some(pool.swap_remove(at[0]).c) } else { None };
        let pick = |i: usize| -> Arc<C> {
            // entries moved by the removal
            pool.get(i).map(|e| e.c.clone()).unwrap_or_else(|| pool[at[0]].c.clone())
        };
        let (b2, c2) = (pick(at[1]), pick(at[2]));
        match keep {
            Some(k) => args.push(Arc::try_unwrap(k).unwrap_or_else(|_| fail("harness", "entry still shared"))),
            None => args.push(sut(|| (*pool[at[0]].c).clone())),
        }
        args.push(sut(|| (*b2).clone()));
        args.push(sut(|| (*c2).clone()));
        let (c1, b1, a1) = (args.pop().unwrap(), args.pop().unwrap(), args.pop().unwrap());
        ledger_bomb(bomb);
        let r = catch(move || *slot = Some(C::by_val(o, a1, b1, c1)));
        drop((b2, c2));
        r
    } else {
        let (x, y, z) = (pool[at[0]].c.clone(), b.c.clone(), c.c.clone());
        ledger_bomb(bomb);
        let r = catch(|| *slot = Some(C::by_ref(o, &x, &y, &z)));
        sut(move || drop((x, y, z)));
        r
    };
    drop((b.c, c.c));
    let fired = bomb > 0 && ledger::disarm_clone_bomb();
    fx::enter(fx::BUILD);
    if fired {
        count_fault(Fault::Panic);
        let log = fx::log_of(id);
        check!(want.log.starts_with(&log), "steps", "{what}: before a clone panicked, the calls were {log:?}, expected a beginning of {:?}", want.log);
        match got {
            Err(p) => check!(p.downcast_ref::<Injected>() == Some(&Injected(900)), "panic-altered", "{what}: a panicking clone surfaced as {:?}", payload_text(&*p)),
            Ok(()) => fail("panic-swallowed", &format!("{what}: a clone panicked but the operation returned")),
        }
    } else {
        let m = made.as_ref().map(|c| sut(|| c.read()));
        judge(&what, &run, want, got.map(|()| m.clone().unwrap()));
        if let Some(m) = m {
            pool.push(Ent { c: Arc::new(made.unwrap()), m });
        }
    }
    for e in pool.iter() {
        intact(e, &what);
    }
    if pool.len() > 12 {
        let e = pool.remove(o.at[1] % 12);
        sut(move || drop(e));
    }
}
fn ledger_bomb(n: u32) {
    if n > 0 {
        ledger::arm_clone_bomb(n);
    }
}

const CARRIERS: [fn(); 24] = [
    chain::<Op_>,
    chain::<Ma>,
    chain::<Re>,
    chain::<Ei>,
    chain::<Va>,
    chain::<I>,
    chain::<Wr>,
    chain::<WrB>,
    chain::<Ch>,
    chain::<Vec<Tok>>,
    chain::<Bag<Tok>>,
    chain::<First<Tok>>,
    chain::<Last<Tok>>,
    chain::<Max<Tok>>,
    chain::<Min<Tok>>,
    chain::<Sum<Tok>>,
    chain::<Product<Tok>>,
    chain::<HashMap<Tok, L>>,
    chain::<BTreeMap<Tok, L>>,
    chain::<HashSet<Tok>>,
    chain::<BTreeSet<Tok>>,
    chain::<(L, L)>,
    chain::<(L, L, L)>,
    chain::<(L, Option<L>, (L, L), L)>,
];
fn scenario() {
    util::reset();
    // those that only combine have few operations
    let i = if wchance(1, 5) { 11 + w(13) } else { w(11) };
    CARRIERS[i]();
}

pub fn register(s: &mut Vec<Scenario>, i: &mut Vec<Info>) {
    s.push(Scenario { prop: "C22", name: "carriers", gap_max: 800, faults: F_OWN, weight: 1, run: scenario });
    i.push(Info {
        prop: "C22",
        rule: "A pool of carriers of one kind, shared by 1-2 threads, is transformed by 1-50 operations each; functions given to the operations are logged and may panic or give failures, and any clone of a value may panic; calls, arguments, order, outcome and panic of each operation, the unchanged state of every other carrier, and the dropping of every value are compared with a model.",
        real: "Option, Maybe, Result, Either, Validated, Id, Writer, Choice, Vec, maps, sets, tuples and First, Last, Max, Min, Sum, Product under Functor, FunctorExt, Applicative, Monad, Foldable, Semigroup, Alternative, MonadPlus, Bifunctor, Comonad, MonadError, ErrorMapper, WithError, Identity, PureExt and their own methods and conversions, unwinding",
        stub: "functions given to the operations are logging callbacks; thread scheduling",
        counters: &[],
    });
}
