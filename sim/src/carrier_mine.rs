//! A carrier as a user writes one: a bag of values with the required methods only, so that
//! everything else runs the traits' own default methods.
use rustica::traits::applicative::Applicative;
use rustica::traits::foldable::Foldable;
use rustica::traits::functor::{Functor, FunctorExt};
use rustica::traits::hkt::HKT;
use rustica::traits::monad::Monad;
use rustica::traits::monoid::Monoid;
use rustica::traits::pure::Pure;
use rustica::traits::semigroup::Semigroup;

#[derive(Clone, Debug, PartialEq)]
pub struct Bag<T>(pub Vec<T>);

impl<T> HKT for Bag<T> {
    type Source = T;
    type Output<U> = Bag<U>;
}
impl<T> Pure for Bag<T> {
    fn pure<U: Clone>(value: &U) -> Bag<U> {
        Bag(vec![value.clone()])
    }
}
impl<T> Functor for Bag<T> {
    fn fmap<B: Clone, F: Fn(&T) -> B>(&self, f: F) -> Bag<B> {
        Bag(self.0.iter().map(f).collect())
    }
    fn fmap_owned<B: Clone, F: Fn(T) -> B>(self, f: F) -> Bag<B> {
        Bag(self.0.into_iter().map(f).collect())
    }
}
impl<T> FunctorExt for Bag<T> {
    fn filter_map<B, F: Fn(&T) -> Option<B>>(&self, f: F) -> Bag<B> {
        Bag(self.0.iter().filter_map(f).collect())
    }
}
impl<T> Applicative for Bag<T> {
    fn apply<A, B: Clone>(&self, value: &Bag<A>) -> Bag<B>
    where
        T: Fn(&A) -> B,
    {
        Bag(self.0.iter().flat_map(|f| value.0.iter().map(move |x| f(x))).collect())
    }
    fn lift2<A: Clone, B: Clone, C: Clone, F: Fn(&A, &B) -> C>(f: F, fa: &Bag<A>, fb: &Bag<B>) -> Bag<C> {
        let mut v = Vec::new();
        for a in &fa.0 {
            for b in &fb.0 {
                v.push(f(a, b));
            }
        }
        Bag(v)
    }
    fn lift3<A: Clone, B: Clone, C: Clone, D: Clone, F: Fn(&A, &B, &C) -> D>(f: F, fa: &Bag<A>, fb: &Bag<B>, fc: &Bag<C>) -> Bag<D> {
        let mut v = Vec::new();
        for a in &fa.0 {
            for b in &fb.0 {
                for c in &fc.0 {
                    v.push(f(a, b, c));
                }
            }
        }
        Bag(v)
    }
    fn apply_owned<A: Clone, B: Clone>(self, value: Bag<A>) -> Bag<B>
    where
        T: Fn(A) -> B,
    {
        let value = &value;
        Bag(self.0.iter().flat_map(|f| value.0.iter().map(move |x| f(x.clone()))).collect())
    }
    fn lift2_owned<A: Clone, B: Clone, C: Clone, F: Fn(A, B) -> C>(f: F, fa: Bag<A>, fb: Bag<B>) -> Bag<C> {
        Self::lift2(|a: &A, b: &B| f(a.clone(), b.clone()), &fa, &fb)
    }
    fn lift3_owned<A: Clone, B: Clone, C: Clone, D: Clone, F: Fn(A, B, C) -> D>(f: F, fa: Bag<A>, fb: Bag<B>, fc: Bag<C>) -> Bag<D> {
        Self::lift3(|a: &A, b: &B, c: &C| f(a.clone(), b.clone(), c.clone()), &fa, &fb, &fc)
    }
}
impl<T> Monad for Bag<T> {
    fn join<U: Clone>(&self) -> Bag<U>
    where
        T: Clone + Into<Bag<U>>,
    {
        Bag(self.0.iter().flat_map(|x| x.clone().into().0).collect())
    }
    fn bind<U: Clone, F: Fn(&T) -> Bag<U>>(&self, f: F) -> Bag<U>
    where
        T: Clone,
    {
        Bag(self.0.iter().flat_map(|x| f(x).0).collect())
    }
    fn bind_owned<U: Clone, F: Fn(T) -> Bag<U>>(self, f: F) -> Bag<U> {
        Bag(self.0.into_iter().flat_map(|x| f(x).0).collect())
    }
    fn join_owned<U: Clone>(self) -> Bag<U>
    where
        T: Into<Bag<U>>,
    {
        Bag(self.0.into_iter().flat_map(|x| x.into().0).collect())
    }
}
impl<T> Foldable for Bag<T> {
    fn fold_left<U: Clone, F: Fn(&U, &T) -> U>(&self, init: &U, f: F) -> U {
        self.0.iter().fold(init.clone(), |a, x| f(&a, x))
    }
    fn fold_right<U: Clone, F: Fn(&T, &U) -> U>(&self, init: &U, f: F) -> U {
        self.0.iter().rev().fold(init.clone(), |a, x| f(x, &a))
    }
}
impl<T> Semigroup for Bag<T>
where
    T: Clone,
{
    fn combine(&self, o: &Self) -> Self {
        Bag(self.0.iter().chain(&o.0).cloned().collect())
    }
    fn combine_owned(mut self, o: Self) -> Self {
        self.0.extend(o.0);
        self
    }
}
impl<T: Clone> Monoid for Bag<T> {
    fn empty() -> Self {
        Bag(Vec::new())
    }
}
