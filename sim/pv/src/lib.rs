//! PersistentVector: C14 versions never change, C15 sequence semantics (C16 strict accounting).
#![allow(deprecated)]
use simcore::threads;
use rustica::pvec::PersistentVector;
use rustica::traits::foldable::{Foldable, FoldableExt};
use rustica::traits::functor::Functor;
use rustica::traits::identity::Identity;
use rustica::traits::monoid::{self, Monoid, MonoidExt};
use rustica::traits::semigroup::{self, Semigroup, SemigroupExt};
use simcore::explore::{F_OWN, Info, Scenario};
use simcore::ledger::{self, Tok};
use simcore::*;
use std::fmt::Debug;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::sync::Arc;

type Pv<E> = PersistentVector<E>;

/// Elements: plain numbers, or tracked values.
pub trait El: Clone + Ord + Hash + Debug + Send + Sync + 'static {
    fn mk(v: i64) -> Self;
    fn v(&self) -> i64;
    /// What comparisons see of a value.
    fn key(v: i64) -> i64 {
        v
    }
}
/// Elements that compare by a part of what they hold, as records with an id do.
#[derive(Clone, Debug)]
pub struct Rec(i64);
impl PartialEq for Rec {
    fn eq(&self, o: &Rec) -> bool {
        Rec::key(self.0) == Rec::key(o.0)
    }
}
impl Eq for Rec {}
impl PartialOrd for Rec {
    fn partial_cmp(&self, o: &Rec) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Rec {
    fn cmp(&self, o: &Rec) -> std::cmp::Ordering {
        Rec::key(self.0).cmp(&Rec::key(o.0))
    }
}
impl Hash for Rec {
    fn hash<H: Hasher>(&self, h: &mut H) {
        Rec::key(self.0).hash(h)
    }
}
impl El for Rec {
    fn mk(v: i64) -> Rec {
        Rec(v)
    }
    fn v(&self) -> i64 {
        self.0
    }
    fn key(v: i64) -> i64 {
        v.rem_euclid(7)
    }
}
fn keys<E: El>(m: &[i64]) -> Vec<i64> {
    m.iter().map(|x| E::key(*x)).collect()
}
impl El for i64 {
    fn mk(v: i64) -> i64 {
        v
    }
    fn v(&self) -> i64 {
        *self
    }
}
impl El for Tok {
    fn mk(v: i64) -> Tok {
        Tok::new(v)
    }
    fn v(&self) -> i64 {
        self.val()
    }
}

/// A version and the sequence it must read back as.
struct Ent<E> {
    id: u32,
    v: Arc<Pv<E>>,
    m: Arc<Vec<i64>>,
}
impl<E> Clone for Ent<E> {
    fn clone(&self) -> Self {
        Ent { id: self.id, v: self.v.clone(), m: self.m.clone() }
    }
}
struct Pool<E> {
    ents: Global<Vec<Ent<E>>>,
    next: Global<u32>,
    cap: usize,
    max_len: usize,
    /// Values come from 0..vals.
    vals: usize,
    fresh: Global<i64>,
    /// The operations of this run.
    kinds: Vec<usize>,
}

#[derive(Clone, Copy)]
pub struct Opt {
    pub panics: bool,
    pub threads: usize,
    pub ops: usize,
    pub strict: bool,
    pub big: bool,
}

/// What is asked of an iterator: steps, then an end.
fn draw_walk(n: usize) -> Vec<(usize, usize)> {
    let far = |n: usize| if wchance(1, 6) { idx(n) } else { w(n.min(70) + 2) };
    let mut prog: Vec<_> = (0..w(6)).map(|_| (w(3), if wchance(1, 8) { far(n) } else { w(5) })).collect();
    prog.push((3 + w(21), far(n)));
    prog
}
fn walk<I: ExactSizeIterator>(mut it: I, val: impl Fn(I::Item) -> i64, prog: &[(usize, usize)]) -> Vec<i64> {
    let mut out = Vec::new();
    let none = i64::MIN;
    for (op, k) in prog {
        let k = *k;
        match op {
            0 => out.push(it.next().map_or(none, &val)),
            1 => out.push(it.nth(k).map_or(none, &val)),
            2 => out.extend([it.len() as i64, it.size_hint().0 as i64]),
            3 => out.push(it.by_ref().last().map_or(none, &val)),
            4 => out.push(it.by_ref().count() as i64),
            5 => out.extend(it.by_ref().step_by(k % 9 + 1).map(&val)),
            6 => out.extend(it.by_ref().skip(k).map(&val)),
            7 => out.extend(it.by_ref().take(k).map(&val)),
            8 => out.push(it.by_ref().fold(7, |a, x| (a * 31 + (val(x) & 0xffff_ffff)) & 0xffff_ffff)),
            9 => out.push(it.position(|x| val(x) % 5 == 0).map_or(none, |p| p as i64)),
            10 => out.push(it.any(|x| val(x) % 7 == 1) as i64),
            11 => out.push(it.by_ref().map(&val).max().unwrap_or(none)),
            12 => {
                let mut p = it.by_ref().peekable();
                out.push(p.peek().is_some() as i64);
                out.extend(p.map(&val));
            }
            13 => {
                // stops half way, goes on by hand, and past the end
                out.push(it.try_fold(0i64, |a, x| if val(x) % 11 == 3 { None } else { Some(a + 1) }).unwrap_or(none));
                out.push(it.all(|x| val(x) % 3 != 2) as i64);
            }
            14 => out.extend(it.by_ref().skip(k / 2).step_by(k % 5 + 1).take(k).map(&val)),
            // given away
            15 => return [out, vec![it.last().map_or(none, &val)]].concat(),
            16 => return [out, vec![it.count() as i64]].concat(),
            17 => return [out, vec![it.fold(7, |a, x| (a * 31 + (val(x) & 0xffff_ffff)) & 0xffff_ffff)]].concat(),
            18 => return [out, it.skip(k).map(&val).collect()].concat(),
            19 => return [out, it.step_by(k % 9 + 1).map(&val).collect()].concat(),
            20 => return [out, it.partition::<Vec<_>, _>(|_| true).0.into_iter().map(&val).collect()].concat(),
            21 => {
                it.for_each(|x| out.push(val(x)));
                return out;
            }
            22 => return [out, it.enumerate().filter(|(i, _)| i % 3 != 1).map(|(_, x)| val(x)).collect()].concat(),
            _ => return [out, vec![it.map(&val).reduce(|a, b| a.wrapping_mul(3) ^ b).unwrap_or(none)]].concat(),
        }
    }
    // what is left, and nothing after the end
    out.push(it.len() as i64);
    out.push(it.nth(0).map_or(none, &val));
    while let Some(x) = it.next() {
        out.push(val(x))
    }
    out.extend([it.next().is_some() as i64, it.nth(3).is_some() as i64, it.size_hint().0 as i64]);
    out.push(it.last().map_or(none, &val));
    out
}

fn diff(want: &[i64], got: &[i64]) -> String {
    let i = want.iter().zip(got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
    let cut = |s: &[i64]| s[i.saturating_sub(2).min(s.len())..(i + 4).min(s.len())].to_vec();
    format!("{} elements, expected {}; first difference at {i}: ..{:?}.., expected ..{:?}..", got.len(), want.len(), cut(got), cut(want))
}

impl<E: El> Pool<E> {
    fn pick(&self) -> Ent<E> {
        let n = self.ents.with(|e| e.len());
        let i = w(n);
        self.ents.with(|e| e[(n - 1 - i).min(e.len() - 1)].clone())
    }
    fn add(&self, what: &str, v: Pv<E>, m: Vec<i64>) {
        let id = self.next.with(|n| {
            *n += 1;
            *n
        });
        describe(&format!("{}: #{id}={what} len {}; ", tid(), m.len()));
        let ent = Ent { id, v: Arc::new(v), m: Arc::new(m) };
        read(&ent, what, wr(0, 13), self.max_len > 1000);
        let n = self.ents.with(|e| e.len());
        let old = if n < self.cap {
            self.ents.with(|e| e.push(ent));
            None
        } else {
            let k = w(n);
            Some(self.ents.with(|e| {
                let k = k.min(e.len() - 1);
                std::mem::replace(&mut e[k], ent)
            }))
        };
        sut(|| drop(old));
    }
    fn value(&self) -> i64 {
        if wchance(1, 3) {
            w(self.vals) as i64
        } else {
            self.fresh.with(|f| {
                *f += 1;
                *f
            })
        }
    }
    fn values(&self, n: usize) -> Vec<i64> {
        let step = [0, 1, 3, 7][w(4)];
        let m = [2, 5, 1 << 40][w(3)];
        let base = if m > 5 { self.fresh.with(|f| { *f += 10_000; *f }) } else { w(5) as i64 };
        (0..n as i64).map(|i| (base + i * step) % m).collect()
    }
}

/// Reads a version in one of several ways and compares it with its sequence.
fn read<E: El>(e: &Ent<E>, what: &str, how: usize, big: bool) {
    let (v, want) = (&e.v, &e.m[..]);
    let n = want.len();
    let bad = |how: &str, got: String| -> ! {
        fail("wrong-elements", &format!("version #{} ({what}) read by {how}: {got}", e.id))
    };
    if sut(|| (v.len(), v.is_empty(), Foldable::length(&**v))) != (n, n == 0, n) {
        bad("len", format!("len {} instead of {n}", v.len()));
    }
    let cmp = |how: &str, got: Vec<i64>| {
        if got != want {
            bad(how, diff(want, &got))
        }
    };
    let how = if big && n > 300 && how != 1 { 7 } else { how };
    match how {
        0 => cmp("get", sut(|| (0..n).map_while(|i| v.get(i).map(|x| x.v())).collect())),
        1 => {
            let mut it = sut(|| v.iter());
            let mut got = Vec::with_capacity(n);
            let mut left = n;
            loop {
                let h = sut(|| it.size_hint());
                if h != (left, Some(left)) {
                    bad("iter", format!("size_hint {h:?} with {left} left"));
                }
                match sut(|| it.next().map(|x| x.v())) {
                    Some(x) if left > 0 => got.push(x),
                    None => break,
                    Some(_) => bad("iter", "too many elements".into()),
                }
                left -= 1;
            }
            cmp("iter", got)
        }
        2 => cmp("to_vec", sut(|| v.to_vec().iter().map(|x| x.v()).collect())),
        3 => cmp("index", sut(|| (0..n).map(|i| v[i].v()).collect())),
        4 => cmp(
            "fold",
            sut(|| {
                v.fold(Vec::new(), |mut a, x| {
                    a.push(x.v());
                    a
                })
            }),
        ),
        5 => {
            let mut got = sut(|| {
                Foldable::fold_right(&**v, &Vec::new(), |x, a: &Vec<i64>| {
                    let mut a = if a.len() < 12 || a.len() + 12 > n { a.clone() } else { a.clone() };
                    a.push(x.v());
                    a
                })
            });
            got.reverse();
            cmp("fold_right", got)
        }
        6 => {
            let c = sut(|| (**v).clone());
            let stop = if wchance(1, 3) { w(n + 1) } else { n };
            let mut it = sut(|| c.into_iter());
            let mut got = Vec::new();
            while got.len() < stop {
                let left = n - got.len();
                if it.size_hint() != (left, Some(left)) {
                    bad("into_iter", format!("size_hint {:?} with {left} left", it.size_hint()));
                }
                match sut(|| it.next()) {
                    Some(x) => got.push(x.v()),
                    None => break,
                }
            }
            if stop == n && sut(|| it.next().is_some()) {
                bad("into_iter", "too many elements".into());
            }
            sut(|| drop(it));
            if got[..] != want[..stop] {
                bad("into_iter", diff(&want[..stop], &got));
            }
        }
        8 => {
            let mut got = Vec::with_capacity(n);
            sut(|| {
                for x in &**v {
                    got.push(x.v())
                }
            });
            cmp("&vector in a for loop", got)
        }
        9 => cmp(
            "fold_left",
            sut(|| {
                Foldable::fold_left(&**v, &Vec::new(), |a: &Vec<i64>, x| {
                    let mut a = a.clone();
                    a.push(x.v());
                    a
                })
            }),
        ),
        11 | 12 => {
            // an iterator used in any way an iterator can be used
            let prog = draw_walk(n);
            let (exp, got) = if how == 11 {
                (walk(want.iter(), |x| *x, &prog), sut(|| walk(v.iter(), |x| x.v(), &prog)))
            } else {
                let c = sut(|| (**v).clone());
                (walk(want.iter(), |x| *x, &prog), sut(|| walk(c.into_iter(), |x| x.v(), &prog)))
            };
            if got != exp {
                bad(if how == 11 { "iterator" } else { "consuming iterator" }, format!("steps {prog:?} give {got:?}, expected {exp:?}"))
            }
        }
        10 if n < 200 => {
            // questions about the elements
            let k = if n > 0 && wchance(2, 3) { want[w(n)] } else { -1 };
            let e = E::mk(k);
            let got = sut(|| {
                let r = (
                    v.find(|x| x.v() == k).map(|x| x.v()),
                    FoldableExt::any(&**v, |x| x.v() == k),
                    FoldableExt::all(&**v, |x| x.v() != k),
                    v.contains(&e),
                    FoldableExt::is_sorted(&**v),
                    v.maximum().map(|x| E::key(x.v())),
                    v.minimum().map(|x| E::key(x.v())),
                    v.reduce(|a, b| E::mk(a.v().wrapping_mul(3) ^ b.v())).map(|x| x.v()),
                );
                drop(e);
                r
            });
            let has = want.contains(&k);
            let red = want.iter().copied().reduce(|a, b| a.wrapping_mul(3) ^ b);
            let ks = keys::<E>(want);
            let exp = (has.then_some(k), has, !has, ks.contains(&E::key(k)), ks.is_sorted(), ks.iter().copied().max(), ks.iter().copied().min(), red);
            if got != exp {
                bad("find, any, all, contains, is_sorted, maximum, minimum, reduce", format!("{got:?}, expected {exp:?}"))
            }
            let ve = FoldableExt::fold_option(&**v, |x| (x.v() != k).then(|| vec![x.v()]));
            let we = (!has).then(|| want.to_vec());
            if ve != we {
                bad("fold_option", format!("{ve:?}"))
            }
        }
        _ => {
            // ends, seams and a few others
            let mut at = vec![0, 1, 63, 64, 65, 127, 128, n / 2, n.wrapping_sub(1), n.wrapping_sub(2), n.wrapping_sub(64), n.wrapping_sub(65), n.wrapping_sub(128)];
            at.push(w(n + 1));
            at.push(w(n + 1));
            for i in at.into_iter().filter(|i| *i < n) {
                let g = sut(|| v.get(i).map(|x| x.v()));
                if g != Some(want[i]) {
                    bad("get", format!("element {i} is {g:?}, expected {}", want[i]));
                }
            }
        }
    }
    let o = idx(n).max(n);
    let ends = sut(|| (v.first().map(|x| x.v()), v.last().map(|x| x.v()), v.get(o).is_none(), v.try_get(o).is_err(), v.try_value().map(|x| x.v())));
    let f = want.first().copied();
    if ends != (f, want.last().copied(), true, true, f) {
        bad("first/last/get", format!("{ends:?}"));
    }
    if n > 0 {
        let x = sut(|| Identity::value(&**v).v());
        if Some(x) != f {
            bad("value", format!("{x}"));
        }
    }
}

fn hash_of<E: El>(v: &Pv<E>) -> u64 {
    let mut h = DefaultHasher::new();
    sut(|| v.hash(&mut h));
    h.finish()
}

/// Equality, order and hash of two versions are those of their sequences.
fn compare<E: El>(a: &Ent<E>, b: &Ent<E>) {
    let rev = a.m.len() < 500;
    let (ka, kb) = (keys::<E>(&a.m), keys::<E>(&b.m));
    let got = sut(|| (*a.v == *b.v, if rev { *b.v == *a.v } else { ka == kb }, a.v.cmp(&b.v), if rev { a.v.partial_cmp(&b.v) } else { Some(ka.cmp(&kb)) }));
    let want = (ka == kb, kb == ka, ka.cmp(&kb), Some(ka.cmp(&kb)));
    check!(got == want, "comparison", "versions #{} and #{}: (eq, eq, cmp, partial_cmp) = {got:?}, expected {want:?}", a.id, b.id);
    if a.m.len() < 500 || wchance(1, 3) {
        let same = hash_of(&a.v) == hash_of(&b.v);
        check!(same == (ka == kb), "hash", "versions #{} and #{}: hashes {}, sequences {}", a.id, b.id, if same { "equal" } else { "differ" }, if ka == kb { "equal" } else { "differ" });
    }
}

/// Calls library code that may panic by plan; the panic must be the planned one.
struct Plan {
    /// Which call of the user function panics.
    at: usize,
    kind: u8,
    bomb: u32,
}
fn plan(o: &Opt, n: usize) -> Plan {
    let mut p = Plan { at: usize::MAX, kind: 0, bomb: 0 };
    let fs = cfg().fault_scale;
    if o.panics && fs > 0 {
        if plan_chance(fs, 1024) {
            p.at = fault_choose(n + 1);
            p.kind = fault_choose(3) as u8;
        }
        if plan_chance(fs, 1024) {
            let lim = [3, 70, 2 * n + 2][fault_choose(3)];
            p.bomb = 1 + fault_choose(lim) as u32;
        }
    }
    p
}
struct Calls(std::cell::Cell<usize>, usize, u8);
impl Calls {
    fn tick(&self) {
        let _q = Mode::quiet();
        let k = self.0.get();
        self.0.set(k + 1);
        {
            let _o = Mode::open();
            point();
        }
        if k == self.1 {
            count_fault(Fault::Panic);
            event(c"callback-panics", k as i64, 0);
            fx::boom(self.2, 77)
        }
    }
}
/// None: it panicked as planned.
fn go<R>(what: &str, p: &Plan, f: impl FnOnce(&Calls) -> R) -> Option<R> {
    let calls = Calls(Default::default(), p.at, p.kind);
    if p.bomb > 0 {
        ledger::arm_clone_bomb(p.bomb);
    }
    let r = catch(|| f(&calls));
    let fired = p.bomb > 0 && ledger::disarm_clone_bomb();
    let boomed = calls.0.get() > p.at;
    match r {
        Ok(v) => {
            check!(!fired && !boomed, "panic-swallowed", "{what}: user code panicked but the operation returned");
            Some(v)
        }
        Err(e) => {
            let t = payload_text(&*e);
            if fired {
                check!(e.downcast_ref::<Injected>() == Some(&Injected(900)), "panic-altered", "{what}: a panicking clone surfaced as {t:?}");
            } else if boomed {
                check!(fx::payload_is(p.kind, 77, &t), "panic-altered", "{what}: a panicking function surfaced as {t:?}");
            } else {
                fail("unexpected-panic", &format!("{what} panicked: {t}"));
            }
            None
        }
    }
}

/// A position, now and then far outside.
fn idx(n: usize) -> usize {
    if !wchance(1, 24) {
        return w(n + 2);
    }
    match w(6) {
        0 => usize::MAX - w(3),
        1 => (1 << 32) + w(n + 2),
        2 => (1 << 31) + w(n + 2),
        3 => n + 64 * (1 + w(40)),
        4 => (1 << 16) + w(n + 2),
        _ => isize::MAX as usize + w(2),
    }
}
fn op<E: El>(pool: &Pool<E>, o: &Opt) {
    let a = pool.pick();
    let n = a.m.len();
    let m = &a.m;
    let kind = pool.kinds[w(pool.kinds.len())];
    let p = plan(o, n);
    let (name, _) = (OPS[kind], ());
    let what = &format!("{name} of #{}", a.id);
    event(c"op", kind as i64, a.id as i64);
    let mut b: Option<Ent<E>> = None;
    match kind {
        0 | 1 => {
            // a burst of pushes at one end
            let k = if wchance(1, 2) { 1 } else { [2, 5, 63, 64, 65, 70, 130][w(7)] };
            let k = k.min(pool.max_len.saturating_sub(n));
            let mut model = (**m).clone();
            let mut cur: Option<Pv<E>> = None;
            for _ in 0..k {
                let x = pool.value();
                let e = E::mk(x);
                let src: &Pv<E> = cur.as_ref().unwrap_or(&a.v);
                let Some(nv) = go(what, &p, |_| if kind == 0 { src.push_back(e) } else { src.push_front(e) }) else { break };
                if kind == 0 { model.push(x) } else { model.insert(0, x) }
                let old = std::mem::replace(&mut cur, Some(nv));
                if old.is_some() && wchance(1, 8) {
                    let mut om = model.clone();
                    if kind == 0 { om.pop(); } else { om.remove(0); }
                    pool.add(what, old.unwrap(), om);
                } else {
                    sut(|| drop(old));
                }
            }
            if let Some(v) = cur {
                pool.add(&format!("{what} x{k}"), v, model);
            }
        }
        2 | 3 => {
            let k = if wchance(1, 2) { 1 } else { [2, 5, 63, 64, 65, 70, 130, if n < 300 { n + 1 } else { 33 }, if n < 300 { n.saturating_sub(w(3)) } else { 64 }][w(9)] };
            let mut model = (**m).clone();
            let mut cur: Option<Pv<E>> = None;
            // a drain may alternate between the ends
            let alt = k > 5 && wchance(1, 4);
            for step in 0..k {
                let kind = if alt && step % 2 == 1 { 5 - kind } else { kind };
                let src: &Pv<E> = cur.as_ref().unwrap_or(&a.v);
                let Some(r) = go(what, &p, |_| if kind == 2 { src.pop_back() } else { src.pop_front() }) else { break };
                let want = if model.is_empty() { None } else if kind == 2 { model.pop() } else { Some(model.remove(0)) };
                let (nv, x) = r.map_or((None, None), |(v, x)| (Some(v), Some(x)));
                let got = x.as_ref().map(|x| x.v());
                if got != want {
                    fail("wrong-elements", &format!("{what}: popped {got:?}, expected {want:?}"));
                }
                drop(x);
                let Some(nv) = nv else { break };
                let old = std::mem::replace(&mut cur, Some(nv));
                sut(|| drop(old));
                let cur = cur.as_ref().unwrap();
                let ends = (cur.len(), cur.first().map(|x| x.v()), cur.last().map(|x| x.v()));
                if ends != (model.len(), model.first().copied(), model.last().copied()) {
                    fail("wrong-elements", &format!("{what}, step {step}: (len, first, last) = {ends:?}, expected ({}, {:?}, {:?})", model.len(), model.first(), model.last()));
                }
            }
            if let Some(v) = cur {
                pool.add(&format!("{what} x{k}"), v, model);
            }
        }
        4 | 5 => {
            let i = if wchance(1, 2) { idx(n) } else { w(n + 2).min(n.saturating_sub(1)) };
            let x = pool.value();
            let e = E::mk(x);
            let mut model = (**m).clone();
            if i < n {
                model[i] = x;
            }
            let r = if kind == 4 {
                go(what, &p, |_| a.v.update(i, e))
            } else {
                match go(what, &p, |_| a.v.try_update(i, e)) {
                    Some(Ok(v)) if i < n => Some(v),
                    Some(Err(_)) if i >= n => None,
                    None => None,
                    Some(r) => fail("wrong-elements", &format!("try_update({i}) of a vector of {n} elements: ok={}", r.is_ok())),
                }
            };
            if let Some(v) = r {
                pool.add(&format!("{what} at {i}"), v, model);
            }
        }
        6 if n < pool.max_len => {
            let i = idx(n);
            let x = pool.value();
            let e = E::mk(x);
            let mut model = (**m).clone();
            model.insert(i.min(n), x);
            if let Some(v) = go(what, &p, |_| a.v.insert(i, e)) {
                pool.add(&format!("{what} at {i}"), v, model);
            }
        }
        7 => {
            let i = idx(n);
            let mut model = (**m).clone();
            match go(what, &p, |_| a.v.remove(i)) {
                Some(Some(v)) => {
                    check!(i < n, "wrong-elements", "{what}: remove({i}) of {n} elements gave a vector");
                    model.remove(i);
                    pool.add(&format!("{what} at {i}"), v, model);
                }
                Some(None) => check!(i >= n, "wrong-elements", "{what}: remove({i}) of {n} elements gave None"),
                None => {}
            }
        }
        8 | 9 | 10 => {
            let e = pool.pick();
            if n + e.m.len() <= pool.max_len {
                let model: Vec<i64> = m.iter().chain(e.m.iter()).copied().collect();
                let r = go(what, &p, |_| match kind {
                    8 => a.v.concat(&e.v),
                    9 => a.v.combine(&e.v),
                    _ => (*a.v).clone().combine_owned((*e.v).clone()),
                });
                if let Some(v) = r {
                    pool.add(&format!("{what} and #{}", e.id), v, model);
                }
            }
            b = Some(e);
        }
        11 | 12 => {
            let i = idx(n);
            if let Some((l, r)) = go(what, &p, |_| a.v.split_at(i)) {
                let i = i.min(n);
                pool.add(&format!("left {what} at {i}"), l, m[..i].to_vec());
                pool.add(&format!("right {what} at {i}"), r, m[i..].to_vec());
            }
        }
        13 => {
            let i = idx(n);
            if let Some(v) = go(what, &p, |_| a.v.take(i)) {
                pool.add(&format!("{what} {i}"), v, m[..i.min(n)].to_vec());
            }
        }
        14 => {
            let i = idx(n);
            if let Some(v) = go(what, &p, |_| a.v.skip(i)) {
                pool.add(&format!("{what} {i}"), v, m[i.min(n)..].to_vec());
            }
        }
        15 | 16 | 17 => {
            let k = wr(1, 1000) as i64;
            // the function may look at the vector being mapped
            let peek = wchance(1, 3);
            let f = |c: &Calls, x: i64| {
                c.tick();
                if peek && n > 0 {
                    let i = (x as usize).wrapping_mul(31) % n;
                    let g = a.v.get(i).map(|y| y.v());
                    if g != Some(m[i]) {
                        fail("wrong-elements", &format!("{what}: during the operation element {i} of its input reads {g:?}, expected {}", m[i]));
                    }
                }
                x.wrapping_mul(3) + k
            };
            let r = go(what, &p, |c| match kind {
                15 => a.v.map(|x| E::mk(f(c, x.v()))),
                16 => a.v.fmap(|x| E::mk(f(c, x.v()))),
                _ => (*a.v).clone().fmap_owned(|x: E| E::mk(f(c, x.v()))),
            });
            if let Some(v) = r {
                pool.add(what, v, m.iter().map(|x| x.wrapping_mul(3) + k).collect());
            }
        }
        18 => {
            let k = wr(2, 4) as i64;
            if let Some(v) = go(what, &p, |c| a.v.filter(|x| { c.tick(); x.v() % k != 0 })) {
                pool.add(what, v, m.iter().copied().filter(|x| x % k != 0).collect());
            }
        }
        19 => {
            let k = wr(2, 4) as i64;
            if let Some(v) = go(what, &p, |c| a.v.filter_map(|x| { c.tick(); (x.v() % k != 0).then(|| E::mk(x.v() + 1)) })) {
                pool.add(what, v, m.iter().filter(|x| *x % k != 0).map(|x| x + 1).collect());
            }
        }
        20 => {
            let k = wr(1, 3);
            let g = |x: i64| -> Vec<i64> { (0..(x as usize % (k + 1)) as i64).map(|i| x + i).collect() };
            if n * k <= pool.max_len {
                if let Some(v) = go(what, &p, |c| a.v.flat_map(|x| { c.tick(); g(x.v()).into_iter().map(E::mk).collect::<Vec<_>>() })) {
                    pool.add(what, v, m.iter().flat_map(|x| g(*x)).collect());
                }
            }
        }
        21 => {
            let mut model = (**m).clone();
            model.dedup_by_key(|x| E::key(*x));
            if let Some(v) = go(what, &p, |_| a.v.dedup()) {
                pool.add(what, v, model);
            }
        }
        22 => {
            let mut model = (**m).clone();
            model.sort_by_key(|x| E::key(*x));
            if let Some(v) = go(what, &p, |_| a.v.sorted()) {
                pool.add(what, v, model);
            }
        }
        23 => {
            let e = pool.pick();
            if let Some(v) = go(what, &p, |_| a.v.zip(&e.v)) {
                let want: Vec<(i64, i64)> = m.iter().copied().zip(e.m.iter().copied()).collect();
                let got: Vec<(i64, i64)> = sut(|| v.iter().map(|(x, y)| (x.v(), y.v())).collect());
                check!(v.len() == want.len() && got == want, "wrong-elements", "{what} with #{}: zip gives {} pairs, expected {}, or other ones", e.id, got.len(), want.len());
                sut(|| drop(v));
            }
            b = Some(e);
        }
        24 => {
            let k = wr(2, 4) as i64;
            if let Some((t, f)) = go(what, &p, |c| a.v.partition(|x| { c.tick(); x.v() % k == 0 })) {
                pool.add(what, t, m.iter().copied().filter(|x| x % k == 0).collect());
                pool.add(what, f, m.iter().copied().filter(|x| x % k != 0).collect());
            }
        }
        25 => {
            let k = [0, 1, 2, 7, 63, 64, 65, 100][w(8)];
            let k = if k == 100 { 100 + idx(0).min(usize::MAX - 100) } else if k > 0 && n / k > 150 { 63 + w(3) } else { k };
            if let Some(v) = go(what, &p, |_| a.v.chunk(k)) {
                let want: Vec<&[i64]> = if k == 0 { vec![] } else { m.chunks(k).collect() };
                check!(v.len() == want.len(), "wrong-elements", "{what} by {k}: {} chunks, expected {}", v.len(), want.len());
                let mut keep = None;
                for (i, wc) in want.iter().enumerate() {
                    let got: Vec<i64> = sut(|| v[i].iter().map(|x| x.v()).collect());
                    if got != *wc {
                        fail("wrong-elements", &format!("{what} by {k}: chunk {i}: {}", diff(wc, &got)));
                    }
                    if keep.is_none() && wchance(1, 4) {
                        keep = Some((sut(|| v[i].clone()), wc.to_vec()));
                    }
                }
                sut(|| drop(v));
                if let Some((v, m)) = keep {
                    pool.add(what, v, m);
                }
            }
        }
        26 => {
            // extend works on a version of its own
            let xs = pool.values(w(80).min(pool.max_len.saturating_sub(n)));
            let es: Vec<E> = xs.iter().map(|x| E::mk(*x)).collect();
            let mut v = sut(|| (*a.v).clone());
            let k = go(what, &p, |_| v.extend(es)).is_some();
            let mut model = (**m).clone();
            model.extend(&xs);
            if !k {
                // how far it got is not promised; what is there must be a prefix
                let got = sut(|| v.len());
                check!(got >= n && got <= model.len(), "wrong-elements", "{what}: {got} elements after a failed extend of {n} by {}", xs.len());
                model.truncate(got);
            }
            pool.add(what, v, model);
        }
        27 => {
            if let Some(v) = go(what, &p, |_| (*a.v).clone()) {
                pool.add(what, v, (**m).clone());
            }
        }
        28 | 29 => {
            // the same sequence, built another way
            let mut model = (**m).clone();
            if wchance(1, 3) && n > 0 {
                let i = w(n);
                model[i] += [1, -1][w(2)];
            } else if wchance(1, 4) {
                model.truncate(w(n + 1));
            }
            let es: Vec<E> = model.iter().map(|x| E::mk(*x)).collect();
            let r = match w(if n < 20_000 { 5 } else { 4 }) {
                0 => go(what, &p, |_| Pv::from(es)),
                1 => go(what, &p, |_| Pv::from_slice(&es)),
                2 => go(what, &p, |_| es.into_iter().collect::<Pv<E>>()),
                3 => go(what, &p, |_| Pv::from_slice_with_cache_policy(&es, 3u8)),
                _ => go(what, &p, |_| es.into_iter().rev().fold(Pv::<E>::empty(), |v, e| v.push_front(e))),
            };
            if let Some(v) = r {
                let e = Ent { id: u32::MAX, v: Arc::new(v), m: Arc::new(model.clone()) };
                compare(&a, &e);
                let v = Arc::try_unwrap(e.v).unwrap_or_else(|_| unreachable!());
                pool.add(what, v, model);
            }
        }
        30 => {
            // a round trip through Vec, and ownership of the first element
            if let Some(v) = go(what, &p, |_| Vec::from((*a.v).clone())) {
                let got: Vec<i64> = v.iter().map(|x| x.v()).collect();
                check!(got == **m, "wrong-elements", "{what}: {}", diff(m, &got));
            }
            if let Some(x) = go(what, &p, |_| (*a.v).clone().try_into_value()) {
                let g = x.as_ref().map(|x| x.v());
                check!(g == m.first().copied(), "wrong-elements", "{what}: try_into_value gives {g:?}");
            }
        }
        31 => {
            let xs = pool.values(w(pool.max_len.min(200) + 1));
            let es: Vec<E> = xs.iter().map(|x| E::mk(*x)).collect();
            if let Some(v) = go(what, &p, |_| Pv::from_iter(es)) {
                pool.add("fresh", v, xs);
            }
        }
        32 | 33 => {
            // grown at both ends without keeping anything in between
            let fresh = wchance(1, 2);
            let xs = if fresh { pool.values([0, 1, 64, 65, 128, w(200)][w(6)].min(pool.max_len)) } else { Vec::new() };
            let (mut cur, mut model) = if fresh {
                let es: Vec<E> = xs.iter().map(|x| E::mk(*x)).collect();
                let Some(v) = go(what, &p, |_| Pv::from_iter(es)) else { return };
                (v, std::collections::VecDeque::from(xs))
            } else {
                (sut(|| (*a.v).clone()), (**m).iter().copied().collect())
            };
            let k = wr(1, 150).min(pool.max_len.saturating_sub(model.len()));
            let odds = [1, 4, 7][w(3)];
            for _ in 0..k {
                let x = pool.value();
                let e = E::mk(x);
                let back = wchance(odds, 8);
                let Some(nv) = go(what, &p, |_| if back { cur.push_back(e) } else { cur.push_front(e) }) else { break };
                if back { model.push_back(x) } else { model.push_front(x) }
                let old = std::mem::replace(&mut cur, nv);
                sut(|| drop(old));
            }
            pool.add(&format!("{what} x{k}"), cur, model.into());
        }
        34 => {
            // forget most versions: what is left no longer shares its nodes
            let keep = wr(1, 2);
            let mut gone = Vec::new();
            while let Some(e) = pool.ents.with(|e| if e.len() > keep { Some(e.len()) } else { None }).map(|n| w(n)).and_then(|k| pool.ents.with(|e| if e.len() > keep { let k = k.min(e.len() - 1); Some(e.swap_remove(k)) } else { None })) {
                gone.push(e);
            }
            sut(|| drop(gone));
        }
        35 => {
            // several at once
            let e = pool.pick();
            let f = pool.pick();
            let k = wr(1, 4);
            let how = w(6);
            let parts: Vec<&Ent<E>> = match how {
                0 | 1 => vec![&a; k],
                2 => vec![&a; k - 1],
                _ => vec![&a, &e, &f],
            };
            let model: Vec<i64> = parts.iter().flat_map(|x| x.m.iter().copied()).collect();
            if model.len() <= pool.max_len {
                let own = |x: &Ent<E>| (*x.v).clone();
                let r = go(what, &p, |_| match how {
                    0 => a.v.combine_n(&k),
                    1 => own(&a).combine_n_owned(k),
                    2 => monoid::repeat(own(&a), k - 1),
                    3 => monoid::mconcat(&[own(&a), own(&e), own(&f)]),
                    4 => semigroup::combine_all_values(vec![own(&a), own(&e), own(&f)]).unwrap_or_default(),
                    _ => own(&a).combine_all(vec![own(&e), own(&f)]),
                });
                if let Some(v) = r {
                    check!(v.is_empty_monoid() == model.is_empty(), "comparison", "{what}: is_empty_monoid of {} elements", model.len());
                    pool.add(&format!("{what} ({how}) of #{}, #{}, #{}, {k} times", a.id, e.id, f.id), v, model);
                }
            }
            b = Some(e);
        }
        _ => {
            let e = pool.pick();
            compare(&a, &e);
            compare(&a, &a);
            b = Some(e);
        }
    }
    // the operands are what they were
    read(&a, "operand", w(14), pool.max_len > 1000);
    if let Some(b) = &b {
        read(b, "second operand", w(14), pool.max_len > 1000);
    }
    sut(move || drop((a, b)));
}
const OPS: [&str; 37] = [
    "push_back", "push_front", "pop_back", "pop_front", "update", "try_update", "insert", "remove", "concat", "combine", "combine_owned", "split_at",
    "split_at", "take", "skip", "map", "fmap", "fmap_owned", "filter", "filter_map", "flat_map", "dedup", "sorted", "zip", "partition", "chunk", "extend",
    "clone", "rebuild", "rebuild", "to Vec", "from_iter", "grow", "grow", "forget", "combine many", "compare",
];

pub fn scenario<E: El>(o: Opt) {
    ledger::reset();
    // 3: large enough for one more level of the tree
    let profile = if o.big && wchance(1, 8) { if wchance(1, 16) { 3 } else { 2 } } else { w(2) };
    let max_len = [60, 420, 4400, 135_000][profile];
    let pool: Arc<Pool<E>> = Arc::new(Pool {
        ents: Global::new(Vec::new()),
        next: Global::new(0),
        cap: if wchance(1, 4) { 1 } else { wr(1, [8, 8, 4, 2][profile]) },
        max_len,
        vals: wr(2, 5),
        fresh: Global::new(10),
        // all operations, or a few of them again and again, with pushes and pops among them
        kinds: match w(4) {
            0 | 1 => (0..37).collect(),
            2 => (0..4).chain((0..wr(1, 5)).map(|_| w(37))).collect(),
            _ => (0..wr(1, 3)).map(|_| w(4)).chain((0..wr(1, 3)).map(|_| w(37))).collect(),
        },
    });
    let n0 = match profile {
        0 => w(40),
        1 => [w(300), 63 + w(3), 127 + w(3), 191 + w(3), 255 + w(4)][w(5)],
        3 => [65_536 - 3 + w(6), 65_600 - 3 + w(6), 65_536 + 2_048 - 3 + w(70), 66_000 + w(4000), 32_768 + 64 + w(6)][w(5)],
        _ => [2048 - 3 + w(8), 2112 - 3 + w(6), 1900 + w(300), 4090 + w(12)][w(4)],
    };
    let xs = pool.values(n0);
    let v = sut(|| xs.iter().map(|x| E::mk(*x)).collect::<Pv<E>>());
    pool.add("start", v, xs);
    let nth = if profile == 3 { 1 } else if o.threads > 1 && wchance(1, 40) { wr(5, 16) } else { wr(1, o.threads) };
    let ops = if profile == 3 { wr(1, 4) } else if profile == 2 { wr(1, 8) } else { wr(1, o.ops) };
    if nth == 1 {
        for _ in 0..ops {
            op(&pool, &o);
        }
    } else {
        let p2 = pool.clone();
        threads(nth, move |_| {
            for _ in 0..ops.div_ceil(2) {
                op(&p2, &o)
            }
        });
    }
    // every surviving version, in full
    let ents = pool.ents.take().unwrap();
    for e in &ents {
        let got: Vec<i64> = sut(|| e.v.iter().map(|x| x.v()).collect());
        if got != **e.m {
            fail("wrong-elements", &format!("version #{} at the end: {}", e.id, diff(&e.m, &got)));
        }
    }
    for i in 0..ents.len().min(4) {
        compare(&ents[i], &ents[ents.len() - 1 - i]);
    }
    let mut ents = ents;
    while !ents.is_empty() {
        let e = ents.swap_remove(w(ents.len()));
        sut(|| drop(e));
    }
    if o.strict {
        ledger::check_empty("after every vector was dropped");
    }
}

fn versions() {
    scenario::<Tok>(Opt { panics: true, threads: 4, ops: 12, strict: false, big: true })
}
fn seq() {
    scenario::<i64>(Opt { panics: false, threads: 1, ops: 40, strict: false, big: true })
}
fn seq_threads() {
    scenario::<i64>(Opt { panics: false, threads: 4, ops: 20, strict: false, big: false })
}

fn seq_rec() {
    scenario::<Rec>(Opt { panics: false, threads: 1, ops: 30, strict: false, big: false })
}
/// Elements that need not equal themselves, whatever the vectors share.
fn partial() {
    let draw = |n: usize| -> Vec<f64> {
        let odd = wchance(1, 2);
        (0..n).map(|i| if odd && wchance(1, 20) { [f64::NAN, -0.0][w(2)] } else { ((i * 7) % 5) as f64 }).collect()
    };
    let n = [w(8), 63 + w(3), 64 + w(3), w(300)][w(4)];
    let mut pool: Vec<(PersistentVector<f64>, Vec<f64>)> = Vec::new();
    let m = draw(n);
    pool.push((sut(|| m.iter().copied().collect()), m));
    for _ in 0..wr(1, 6) {
        let (v, mut m) = pool[w(pool.len())].clone();
        let n = m.len();
        let new = sut(|| match w(8) {
            0 => v.clone(),
            1 if n > 0 => {
                let i = w(n);
                v.update(i, m[i])
            }
            2 if n > 0 => {
                let i = w(n);
                m[i] = [f64::NAN, -0.0, 0.0, 9.0][w(4)];
                v.update(i, m[i])
            }
            3 => {
                let x = [f64::NAN, 1.0][w(2)];
                m.push(x);
                v.push_back(x)
            }
            4 if n > 0 => {
                m.pop();
                v.pop_back().expect("not empty").0
            }
            5 => {
                let i = w(n + 1);
                let (l, r) = v.split_at(i);
                l.concat(&r)
            }
            6 => {
                m.dedup();
                v.dedup()
            }
            _ => PersistentVector::from_slice(&m),
        });
        pool.push((new, m));
    }
    let bits = |x: &[f64]| x.iter().map(|x| x.to_bits()).collect::<Vec<_>>();
    for (v, m) in &pool {
        let got = sut(|| v.to_vec());
        check!(bits(&got) == bits(m), "wrong-elements", "{} elements, expected {}, or other ones", got.len(), m.len());
        for (u, k) in &pool {
            let got = sut(|| (v == u, v != u, v.partial_cmp(u)));
            let want = (m == k, m != k, m.partial_cmp(k));
            check!(got == want, "comparison", "{m:?} and {k:?}: (eq, ne, partial_cmp) = {got:?}, expected {want:?}");
        }
        let again = sut(|| v.clone());
        let got = sut(|| (again == *v, again.partial_cmp(v)));
        check!(got == (m == m, m.partial_cmp(m)), "comparison", "{m:?} and its clone: (eq, partial_cmp) = {got:?}");
        sut(|| drop(again));
    }
    sut(|| drop(pool));
}

pub fn register(s: &mut Vec<Scenario>, i: &mut Vec<Info>) {
    s.push(Scenario { prop: "C14", name: "versions", gap_max: 4000, faults: F_OWN, weight: 1, run: versions });
    s.push(Scenario { prop: "C15", name: "histories", gap_max: 4000, faults: 0, weight: 2, run: seq });
    s.push(Scenario { prop: "C15", name: "histories-threads", gap_max: 4000, faults: 0, weight: 1, run: seq_threads });
    s.push(Scenario { prop: "C15", name: "histories-records", gap_max: 4000, faults: 0, weight: 1, run: seq_rec });
    s.push(Scenario { prop: "C15", name: "partial-order", gap_max: 4000, faults: 0, weight: 1, run: partial });
    s.push(Scenario { prop: "C16", name: "pvec", gap_max: 4000, faults: F_OWN, weight: 4, run: || scenario::<Tok>(Opt { panics: true, threads: 4, ops: 12, strict: true, big: true }) });
    let real = "PersistentVector and its tree, iterators, comparison and trait implementations, Arc, SmallVec, threads, unwinding";
    let stub = "thread scheduling, clocks, hash seeds; panics come from user functions and element clones";
    i.push(Info { prop: "C14", rule: "1-4 threads derive new versions from a shared pool of versions (up to 8 alive) by every public operation, with bursts across inline, leaf and branch capacities; tracked elements whose clones may panic and user functions that may panic; every operand is read back in one of eight ways after each operation, and every version at the end.", real, stub, counters: &[] });
    i.push(Info { prop: "C15", rule: "histories of up to 40 operations over a pool of versions, each result read back and compared with the model sequence, equality, order and hash compared with those of the sequences, for plain numbers, for records that compare by a part of themselves, and for floating-point numbers with NaN.", real, stub, counters: &[] });
}
