//! Work on the side: library calls made from inside user code that the library is calling, on
//! values of their own. They must give what they always give.
use rustica::category::function_category::{FunctionCategory, FunctionMorphism};
use rustica::datatypes::async_monad::AsyncM;
use rustica::datatypes::choice::Choice;
use rustica::datatypes::cont::Cont;
use rustica::datatypes::io::IO;
use rustica::datatypes::lens::Lens;
use rustica::datatypes::reader::Reader;
use rustica::datatypes::state::{State, get, modify, put};
use rustica::datatypes::validated::Validated;
use rustica::datatypes::wrapper::memoizer::Memoizer;
use rustica::datatypes::wrapper::predicate::Predicate;
use rustica::datatypes::wrapper::thunk::Thunk;
use rustica::datatypes::writer::Writer;
use rustica::error::{ErrorPipeline, sequence_with_error, traverse};
use rustica::pvec::PersistentVector;
use rustica::traits::arrow::Arrow;
use rustica::traits::category::Category;
use rustica::traits::evaluate::Evaluate;
use rustica::traits::functor::Functor;
use rustica::traits::monad::Monad;
use rustica::transformers::{ContT, ReaderT, StateT};
use simcore::*;
use std::future::Future;
use std::sync::Arc;
use std::task::{Context, Poll};

type R = Result<(), String>;
fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> R {
    if got == want { Ok(()) } else { Err(format!("{what} gave {got:?} instead of {want:?}")) }
}
fn panics<T>(what: &str, f: impl FnOnce() -> T) -> R {
    match catch(f) {
        Ok(_) => Err(format!("{what} did not panic")),
        Err(p) if injected(&*p) == Some(998) => Ok(()),
        Err(p) => Err(format!("{what} panicked with {}", payload_text(&*p))),
    }
}
fn boom() -> ! {
    std::panic::panic_any(Injected(998))
}
fn finish<F: Future>(f: F) -> Option<F::Output> {
    let mut f = Box::pin(f);
    let mut cx = Context::from_waker(futures::task::noop_waker_ref());
    for _ in 0..64 {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return Some(v);
        }
    }
    None
}
/// Ready when polled again.
async fn pause() {
    let mut again = false;
    std::future::poll_fn(move |cx| {
        if again {
            return Poll::Ready(());
        }
        again = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    })
    .await
}

fn memo(c: i64, bad: bool) -> R {
    let m: Memoizer<i64, i64> = Memoizer::new();
    same("a lookup", m.get_or_compute(c, |k| k + 1), c + 1)?;
    same("a second lookup", m.get_or_compute(c, |_| 0), c + 1)?;
    if bad {
        panics("a panicking computation", || m.get_or_compute(c + 1, |_| boom()))?;
    }
    same("a lookup of another key", m.get_or_compute(c + 1, |k| k * 2), c * 2 + 2)?;
    m.clear();
    same("a lookup after a clear", m.get_or_compute(c, |_| 7), 7)
}
fn asyncm(c: i64, bad: bool) -> R {
    let leaf = AsyncM::new(move || async move {
        pause().await;
        c
    });
    let p = leaf
        .fmap(|x: i64| async move { x + 1 })
        .bind(move |x: i64| async move {
            pause().await;
            AsyncM::pure(x * 2)
        })
        .zip_with(leaf.clone(), |a: i64, b: i64| a - b);
    same("an evaluation", finish(p.try_get()), Some(c + 2))?;
    let d = AsyncM::from_result_or_default(move || async move { if c % 2 == 0 { Ok(c) } else { Err(c) } }, -1);
    same("from_result_or_default", finish(d.try_get()), Some(if c % 2 == 0 { c } else { -1 }))?;
    let f = AsyncM::new(move || async move {
        pause().await;
        if bad { boom() } else { c }
    });
    if bad {
        panics("a panicking evaluation", || finish(f.try_get()))?;
    }
    same("recover_with", finish(f.recover_with(c + 9).try_get()), Some(if bad { c + 9 } else { c }))
}
fn io(c: i64, bad: bool) -> R {
    let e = IO::new(move || c);
    let p = e.bind(|x| IO::new(move || x + 1)).fmap(|x| x * 2);
    same("a run", p.run(), (c + 1) * 2)?;
    same("a sequence", IO::sequence(vec![e.clone(), p.clone(), IO::pure(3)]).run(), vec![c, (c + 1) * 2, 3])?;
    same("an application", e.apply(IO::new(|| |x: i64| x - 1)).run(), c - 1)?;
    let f = IO::new(move || if bad { boom() } else { c });
    if bad {
        panics("a panicking run", || f.run())?;
        same("a captured run", f.try_get().is_err(), true)?;
    }
    same("recover", f.recover(|_| IO::pure(5)).run(), if bad { 5 } else { c })?;
    same("try_get", p.try_get().ok(), Some((c + 1) * 2))
}
fn validated(c: i64, _: bool) -> R {
    let v: Validated<i64, i64> = Validated::valid(c);
    let f = |x: i64| async move {
        pause().await;
        x + 1
    };
    same("fmap_valid_async", finish(v.fmap_valid_async(f)), Some(Validated::valid(c + 1)))?;
    let e: Validated<i64, i64> = Validated::invalid_many([c, 2, 3]);
    same("fmap_invalid_async", finish(e.fmap_invalid_async(f)), Some(Validated::invalid_many([c + 1, 3, 4])))?;
    same("and_then_async", finish(v.and_then_async(|x| async move { Validated::<i64, i64>::valid(x - 1) })), Some(Validated::valid(c - 1)))
}
fn pvec(c: i64, bad: bool) -> R {
    let n = 40 + c % 50;
    let v: PersistentVector<i64> = (0..n).collect();
    let u = v.update(3, -1).push_back(c);
    let all = |v: &PersistentVector<i64>| v.iter().copied().collect::<Vec<_>>();
    if bad {
        panics("a panicking map", || v.map(|x| if *x == 35 { boom() } else { *x }))?;
    }
    same("a vector", all(&v), (0..n).collect())?;
    same("an updated vector", all(&u), (0..n).map(|x| if x == 3 { -1 } else { x }).chain([c]).collect())?;
    let (a, b) = v.split_at(7);
    same("parts put together", all(&b.concat(&a)), (7..n).chain(0..7).collect())?;
    same("a filtered vector", all(&u.filter(|x| x % 2 == 0)), all(&u).into_iter().filter(|x| x % 2 == 0).collect())
}
fn state(c: i64, bad: bool) -> R {
    let p = get::<i64>().bind(|x| put(x + 1).bind(move |()| modify(|s: i64| s * 2)).fmap(move |()| x));
    same("a State", p.run_state(c), (c, (c + 1) * 2))?;
    if bad {
        panics("a panicking State", || p.clone().bind(|_: i64| -> State<i64, i64> { boom() }).run_state(c))?;
    }
    same("State again", p.eval_state(c + 5), c + 5)?;
    let t: StateT<i64, Result<(i64, i64), i64>, i64> = StateT::new(|s: i64| if s % 2 == 0 { Ok((s + 1, s)) } else { Err(s) });
    let t = t.fmap_with(|a| a + 1, |m: Result<(i64, i64), i64>, f| m.map(|(s, a)| f((s, a))));
    same("a StateT", t.run_state(c), if c % 2 == 0 { Ok((c + 1, c + 1)) } else { Err(c) })
}
fn reader(c: i64, bad: bool) -> R {
    let p: Reader<i64, i64> = Reader::<i64, i64>::ask().bind(|x| Reader::<i64, i64>::asks(move |e: i64| e * 10 + x)).local(|e| e + 1);
    same("a Reader", p.run_reader(c), (c + 1) * 11)?;
    if bad {
        panics("a panicking Reader", || p.clone().fmap(|_| -> i64 { boom() }).run_reader(c))?;
    }
    same("a Reader elsewhere", p.run_reader(c + 1), (c + 2) * 11)?;
    let t: ReaderT<i64, Result<i64, i64>, i64> = ReaderT::new(|e: i64| if e % 2 == 0 { Ok(e) } else { Err(e) });
    let t = t.fmap(|x| x + 1).local(|e| e + 1);
    same("a ReaderT", t.run_reader(c), if c % 2 == 1 { Ok(c + 2) } else { Err(c + 1) })
}
fn cont(c: i64, bad: bool) -> R {
    let p: Cont<i64, i64> = Cont::return_cont(c).bind(|x| Cont::new(move |k: Arc<dyn Fn(i64) -> i64 + Send + Sync>| k(x) + k(x + 1)));
    same("a Cont", p.clone().run(|x| x * 2), c * 4 + 2)?;
    if bad {
        panics("a panicking Cont", || p.clone().fmap(|_| -> i64 { boom() }).run(|x| x))?;
    }
    same("a Cont again", p.run(|x| x), c * 2 + 1)?;
    let t: ContT<i64, i64, i64> = ContT::call_cc(move |exit| if c % 2 == 0 { exit(c) } else { ContT::pure(c + 1) }).fmap(|x: i64| x + 1);
    same("a ContT", t.run(|x| x), if c % 2 == 0 { c + 1 } else { c + 2 })
}
fn traversals(c: i64, bad: bool) -> R {
    let f = |x: i64| if x == 4 { Err(x) } else { Ok(x + 1) };
    same("traverse", traverse(vec![c + 5, c + 6], f), Ok(vec![c + 6, c + 7]))?;
    if bad {
        panics("a panicking traverse", || traverse(vec![1, 2], |_: i64| -> Result<i64, i64> { boom() }))?;
    }
    same("a failing traverse", traverse(vec![1, 4, 5], f), Err(4))?;
    same("sequence_with_error", sequence_with_error::<Result<i64, i64>, i64, i64>(vec![Ok::<i64, i64>(1), Err(c), Err(3)]), Err(c))?;
    let e = ErrorPipeline::new(Err::<i64, i64>(c)).with_context("a").recover(|x| if x > 0 { Ok(x + 1) } else { Err(x) }).map(|x| x * 2).finish();
    same("a pipeline", e.ok(), if c > 0 { Some((c + 1) * 2) } else { None })
}
fn composed(c: i64, bad: bool) -> R {
    let f = FunctionCategory::arrow(|x: i64| x + 1);
    let g = FunctionCategory::arrow(|x: i64| x * 2);
    let h: FunctionMorphism<i64, i64> = FunctionCategory::compose_morphisms(&g, &f);
    same("a composition", h(c), (c + 1) * 2)?;
    let (even, big) = (Predicate::new(|x: &i64| x % 2 == 0), Predicate::new(|x: &i64| *x > 10));
    same("a predicate", even.union(&big).contains(&c), c % 2 == 0 || c > 10)?;
    if bad {
        panics("a panicking predicate", || even.intersection(&Predicate::new(|_: &i64| -> bool { boom() })).contains(&2))?;
    }
    same("a predicate again", even.diff(&big).contains(&c), c % 2 == 0 && c <= 10)?;
    same("a thunk", Thunk::new(move || c).evaluate(), c)?;
    let l = Lens::new(|p: &(i64, i64)| p.0, |p: (i64, i64), x: i64| (x, p.1));
    same("a lens", l.modify((c, 1), |x| x + 1), (c + 1, 1))
}
fn carriers(c: i64, bad: bool) -> R {
    let ch = Choice::new(c, vec![1, 2]);
    same("a choice", ch.fmap(|x| x + 1).iter().copied().collect::<Vec<_>>(), vec![c + 1, 2, 3])?;
    if bad {
        panics("a panicking choice", || ch.fmap(|_| -> i64 { boom() }))?;
    }
    same("a bound choice", ch.bind(|x| Choice::new(*x, vec![x + 1])).iter().copied().collect::<Vec<_>>(), vec![c, c + 1, 1, 2, 2, 3])?;
    let w = Writer::new(vec![1], c).bind(|x| Writer::new(vec![2], x + 1));
    same("a writer", w.run(), (vec![1, 2], c + 1))?;
    let v: Validated<i64, i64> = Validated::invalid_many([c, 1]);
    same("a validated", v.fmap_invalid(|e| e + 1), Validated::invalid_many([c + 1, 2]))?;
    same("a vector", vec![c, 2].bind_vec(), vec![c, c, 2, 2])
}
trait Twice {
    fn bind_vec(&self) -> Vec<i64>;
}
impl Twice for Vec<i64> {
    fn bind_vec(&self) -> Vec<i64> {
        self.fmap(|x| vec![*x, *x]).concat()
    }
}

const ALL: [(fn(i64, bool) -> R, &str, &[&str]); 11] = [
    (memo, "Memoizer", &["C01", "C02", "C03"]),
    (asyncm, "AsyncM", &["C04", "C05", "C06", "C07"]),
    (io, "IO", &["C08", "C09"]),
    (validated, "Validated", &["C13"]),
    (pvec, "PersistentVector", &["C14", "C15"]),
    (state, "State", &["C17"]),
    (reader, "Reader", &["C18"]),
    (cont, "Cont", &["C19"]),
    (traversals, "traversals", &["C20"]),
    (composed, "composed", &["C21"]),
    (carriers, "carriers", &["C22"]),
];
fn work(prop: &str) {
    // the parts this property speaks of
    let mine: Vec<_> = ALL.iter().filter(|a| prop == "C16" || a.2.contains(&prop)).collect();
    if mine.is_empty() {
        return;
    }
    let (f, name, _) = mine[fault_choose(mine.len())];
    let (c, bad) = (fault_choose(20) as i64, fault_choose(4) == 0);
    match catch(|| f(c, bad)) {
        // C16 speaks of drops only
        _ if prop == "C16" => {}
        Ok(Ok(())) => {}
        Ok(Err(e)) => fail("reentrancy", &format!("used from inside user code, {name}: {e}")),
        Err(p) => fail("reentrancy", &format!("used from inside user code, {name} panicked: {}", payload_text(&*p))),
    }
}
pub fn register() {
    fx::set_side(work);
}
