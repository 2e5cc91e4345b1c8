//! IO: C08 composition, C09 failure capture.
use crate::util::{Want, check_run, linger, mix, mix2, panic_pair, threads};
use rustica::datatypes::io::{IO, IOError};
use rustica::error::ComposableError;
use rustica::traits::evaluate::Evaluate;
use simcore::explore::{F_OWN, Info, Scenario};
use simcore::fx::{self, Key, Sp};
use simcore::ledger::{self, Tok};
use simcore::*;
use std::collections::HashMap;
use std::sync::Arc;

pub type Io = IO<Tok>;

#[derive(Clone, Debug)]
pub enum P {
    Pure(i64),
    /// The value bound by the innermost enclosing bind.
    Var,
    New(u32, i64),
    Fmap(Box<P>, u32),
    Bind(Box<P>, u32, Box<P>),
    Combine(Box<P>, Box<P>, u32),
    Seq(Vec<P>, u32),
    When(u32, bool, i64, i64),
    Apply(Box<P>, u32, bool),
    Recover(Box<P>, u32, Box<P>),
    RecoverWith(Box<P>, i64),
    Delay(u32, u64, i64),
    /// The same part twice (or more): combined, in a sequence, bound to itself, applied to itself.
    Dup(Box<P>, u32, u8),
}

pub struct Gen {
    pub next: u32,
    pub recover: bool,
}
impl Gen {
    fn id(&mut self) -> u32 {
        self.next += 1;
        self.next
    }
    pub fn draw(&mut self, depth: usize, bound: bool) -> P {
        let c = wr(1, 99) as i64;
        if depth == 0 || wchance(1, 6) {
            return match w(5) {
                0 => P::New(self.id(), c),
                1 => P::Pure(c),
                2 if bound => P::Var,
                3 => P::When(self.id(), wchance(1, 2), c, c + 100),
                _ => P::New(self.id(), c),
            };
        }
        let d = depth - 1;
        match w(if self.recover { 10 } else { 7 }) {
            0 => P::Fmap(Box::new(self.draw(d, bound)), self.id()),
            1 => {
                let p = Box::new(self.draw(d, bound));
                P::Bind(p, self.id(), Box::new(self.draw(d, true)))
            }
            2 => {
                let a = Box::new(self.draw(d, bound));
                P::Combine(a, Box::new(self.draw(d, bound)), self.id())
            }
            3 => {
                let n = if depth < 3 { crate::util::size(0, 3, 40) } else { w(4) };
                let d = if n > 4 { 0 } else { d };
                P::Seq((0..n).map(|_| self.draw(d, bound)).collect(), self.id())
            }
            4 => P::Apply(Box::new(self.draw(d, bound)), self.id(), wchance(1, 2)),
            5 if wchance(1, 12) => {
                let right = wchance(1, 2);
                let mut p = self.draw(0, bound || right);
                for _ in 0..wr(10, 70) {
                    let b = bound || right;
                    p = match w(if self.recover { 10 } else { 8 }) {
                        0 | 1 => P::Fmap(Box::new(p), self.id()),
                        2 => P::Combine(Box::new(p), Box::new(self.draw(0, b)), self.id()),
                        3 => P::Combine(Box::new(self.draw(0, b)), Box::new(p), self.id()),
                        4 => P::Apply(Box::new(p), self.id(), wchance(1, 2)),
                        5 if right => P::Bind(Box::new(self.draw(0, true)), self.id(), Box::new(p)),
                        8 => P::RecoverWith(Box::new(p), 7),
                        9 => P::Recover(Box::new(p), self.id(), Box::new(self.draw(0, b))),
                        _ => P::Bind(Box::new(p), self.id(), Box::new(self.draw(0, true))),
                    };
                }
                if right && !bound { P::Bind(Box::new(self.draw(0, false)), self.id(), Box::new(p)) } else { p }
            }
            5 => {
                // deeper on the left
                let p = P::Fmap(Box::new(self.draw(d, bound)), self.id());
                P::Bind(Box::new(p), self.id(), Box::new(P::Var))
            }
            6 => P::Dup(Box::new(self.draw(d, bound)), self.id(), w(4) as u8),
            7 => {
                let p = Box::new(self.draw(d, bound));
                P::Recover(p, self.id(), Box::new(self.draw(d.min(1), bound)))
            }
            _ => P::RecoverWith(Box::new(self.draw(d, bound)), c + 200),
        }
    }
}
/// Whether functions of values known at building time are logged as well.
static LOUD: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// Everything known before any effect runs: the library may compute with it when building.
fn is_pure(p: &P) -> bool {
    if LOUD.load(std::sync::atomic::Ordering::Relaxed) {
        return false;
    }
    match p {
        P::Pure(_) | P::Var => true,
        P::Fmap(p, _) => is_pure(p),
        P::Bind(p, _, k) => is_pure(p) && is_pure(k),
        P::Apply(p, _, pure_f) => *pure_f && is_pure(p),
        P::Dup(p, _, how) => *how >= 2 && is_pure(p),
        _ => false,
    }
}
pub fn keys(p: &P, out: &mut Vec<Key>) {
    match p {
        P::Pure(_) | P::Var => {}
        P::New(n, _) => out.push(n * 4),
        P::Delay(..) => {}
        P::Fmap(p, f) => {
            keys(p, out);
            if !is_pure(p) {
                out.push(f * 4)
            }
        }
        P::Bind(p, f, k) => {
            keys(p, out);
            keys(k, out);
            if !is_pure(p) {
                out.push(f * 4)
            }
        }
        P::Combine(a, b, f) => {
            keys(a, out);
            keys(b, out);
            out.push(f * 4)
        }
        P::Seq(v, f) => {
            v.iter().for_each(|p| keys(p, out));
            out.push(f * 4)
        }
        P::When(n, ..) => out.extend([n * 4, n * 4 + 1, n * 4 + 2]),
        P::Apply(p, f, pure_f) => {
            keys(p, out);
            if !pure_f {
                out.push(f * 4 + 1)
            }
            if !(*pure_f && is_pure(p)) {
                out.push(f * 4)
            }
        }
        P::Recover(p, f, r) => {
            keys(p, out);
            keys(r, out);
            out.push(f * 4)
        }
        P::RecoverWith(p, _) => keys(p, out),
        P::Dup(q, f, _) => {
            keys(q, out);
            if !is_pure(p) {
                out.push(f * 4)
            }
        }
    }
}

fn apply_fn(f: u32, silent: bool) -> impl Fn(Tok) -> Tok + Clone + Send + Sync + 'static {
    let g = Tok::new(f as i64);
    move |a: Tok| {
        let _ = g.val();
        if !silent {
            fx::effect(f * 4, a.val());
        }
        a.with(mix(f, a.val()))
    }
}

/// Which errors a recovery of a run may be given.
static EXPECT: Global<HashMap<(usize, u32), Vec<Key>>> = Global::empty();

pub fn build(p: &P, env: Option<i64>) -> Io {
    match p {
        P::Pure(c) => IO::pure(Tok::new(*c)),
        P::Var => IO::pure(Tok::new(env.unwrap_or(7))),
        P::New(n, c) => {
            let (n, c, g) = (*n, *c, Tok::new(0));
            IO::new(move || {
                let _ = g.val();
                fx::effect(n * 4, 0);
                Tok::new(c)
            })
        }
        P::Delay(_, ns, c) => IO::delay_sync(std::time::Duration::from_nanos(*ns), Tok::new(*c)),
        P::Fmap(q, f) => {
            let silent = is_pure(q);
            build(q, env).fmap(apply_fn(*f, silent))
        }
        P::Bind(q, f, k) => {
            let (f, k, silent, g) = (*f, k.clone(), is_pure(q), Tok::new(0));
            build(q, env).bind(move |a: Tok| {
                let _ = g.val();
                if !silent {
                    fx::effect(f * 4, a.val());
                }
                build(&k, Some(mix(f, a.val())))
            })
        }
        P::Combine(a, b, f) => {
            let f = *f;
            IO::<Tok>::combine(&build(a, env), &build(b, env)).fmap(move |(a, b): (Tok, Tok)| {
                fx::effect(f * 4, a.val());
                a.with(mix2(f, a.val(), b.val()))
            })
        }
        P::Seq(v, f) => {
            let f = *f;
            let ios: Vec<Io> = v.iter().map(|p| build(p, env)).collect();
            IO::<Tok>::sequence(ios).fmap(move |v: Vec<Tok>| {
                fx::effect(f * 4, v.len() as i64);
                Tok::new(v.iter().fold(f as i64, |s, t| mix2(f, s, t.val())))
            })
        }
        P::When(n, yes, a, b) => {
            let (n, yes, a, b) = (*n, *yes, *a, *b);
            let (g1, g2, g3) = (Tok::new(1), Tok::new(2), Tok::new(3));
            IO::when(
                move || {
                    let _ = g1.val();
                    fx::effect(n * 4, 0);
                    yes
                },
                move || {
                    let _ = g2.val();
                    fx::effect(n * 4 + 1, 0);
                    Tok::new(a)
                },
                move || {
                    let _ = g3.val();
                    fx::effect(n * 4 + 2, 0);
                    Tok::new(b)
                },
            )
        }
        P::Apply(v, f, pure_f) => {
            let f = *f;
            if *pure_f {
                let silent = is_pure(v);
                build(v, env).apply(IO::pure(apply_fn(f, silent)))
            } else {
                build(v, env).apply(IO::new(move || {
                    fx::effect(f * 4 + 1, 0);
                    apply_fn(f, false)
                }))
            }
        }
        P::Recover(q, f, r) => {
            let (f, r, g) = (*f, r.clone(), Tok::new(0));
            build(q, env).recover(move |e| {
                let _ = g.val();
                let run = fx::cur_run();
                check_error("recover", run, &e, EXPECT.with(|m| m.get(&(run, f)).cloned().unwrap_or_default()), &[]);
                fx::effect(f * 4, 0);
                build(&r, env)
            })
        }
        P::RecoverWith(q, d) => build(q, env).recover_with(Tok::new(*d)),
        P::Dup(q, f, how) => {
            let (f, silent, g) = (*f, is_pure(p), Tok::new(0));
            let x = build(q, env);
            match how {
                0 => IO::<Tok>::combine(&x, &x).fmap(move |(a, b): (Tok, Tok)| {
                    let _ = g.val();
                    fx::effect(f * 4, a.val());
                    a.with(mix2(f, a.val(), b.val()))
                }),
                1 => IO::<Tok>::sequence(vec![x.clone(), x.clone(), x]).fmap(move |v: Vec<Tok>| {
                    let _ = g.val();
                    fx::effect(f * 4, v[0].val());
                    Tok::new(v.iter().fold(f as i64, |s, t| mix2(f, s, t.val())))
                }),
                2 => {
                    let y = x.clone();
                    x.bind(move |a: Tok| {
                        let _ = g.val();
                        if !silent {
                            fx::effect(f * 4, a.val());
                        }
                        y.clone()
                    })
                }
                _ => {
                    let fs = x.clone().fmap(move |a: Tok| {
                        let g = g.clone();
                        move |b: Tok| {
                            let _ = g.val();
                            if !silent {
                                fx::effect(f * 4, b.val());
                            }
                            b.with(mix2(f, a.val(), b.val()))
                        }
                    });
                    x.apply(fs)
                }
            }
        }
    }
}

fn check_error(what: &str, run: usize, e: &ComposableError<IOError>, keys: Vec<Key>, ctx: &[&str]) {
    let _q = Mode::quiet();
    let IOError::Other(text) = e.core_error() else { fail("wrong-error", &format!("{what}: the error is {:?}", e.core_error())) };
    let ok = keys.iter().any(|k| match fx::panic_kind(run, *k).unwrap_or(0) {
        0 => true, // a payload that is no text: any message will do
        kind => fx::payload_is(kind, *k, text),
    });
    check!(ok, "wrong-error", "{what} in run {run}: the error says {text:?}, expected the panic of one of {keys:?}");
    check!(e.context() == ctx, "wrong-context", "{what}: contexts are {:?}, expected {ctx:?}", e.context());
}

/// What a run must do.
pub fn eval(p: &P, env: Option<i64>, run: usize, exp: &mut HashMap<(usize, u32), Vec<Key>>) -> (Sp, Want) {
    let call = |key: Key, arg: i64, then: Want| -> (Sp, Want) {
        let r = if fx::panics(run, key) { Err(vec![key]) } else { then };
        (Sp::E(key, arg), r)
    };
    match p {
        P::Pure(c) => (Sp::none(), Ok(*c)),
        P::Var => (Sp::none(), Ok(env.unwrap_or(7))),
        P::New(n, c) => call(n * 4, 0, Ok(*c)),
        P::Delay(_, _, c) => (Sp::none(), Ok(*c)),
        P::Fmap(q, f) => {
            let (s, r) = eval(q, env, run, exp);
            match r {
                Err(e) => (s, Err(e)),
                Ok(a) if is_pure(q) => (s, Ok(mix(*f, a))),
                Ok(a) => {
                    let (s2, r2) = call(f * 4, a, Ok(mix(*f, a)));
                    (Sp::Seq(vec![s, s2]), r2)
                }
            }
        }
        P::Bind(q, f, k) => {
            let (s, r) = eval(q, env, run, exp);
            match r {
                Err(e) => (s, Err(e)),
                Ok(a) => {
                    let mut v = vec![s];
                    if !is_pure(q) {
                        let (s2, r2) = call(f * 4, a, Ok(0));
                        v.push(s2);
                        if let Err(e) = r2 {
                            return (Sp::Seq(v), Err(e));
                        }
                    }
                    let (s3, r3) = eval(k, Some(mix(*f, a)), run, exp);
                    v.push(s3);
                    (Sp::Seq(v), r3)
                }
            }
        }
        P::Combine(a, b, f) => {
            let (sa, ra) = eval(a, env, run, exp);
            let a = match ra {
                Err(e) => return (sa, Err(e)),
                Ok(a) => a,
            };
            let (sb, rb) = eval(b, env, run, exp);
            let b = match rb {
                Err(e) => return (Sp::Seq(vec![sa, sb]), Err(e)),
                Ok(b) => b,
            };
            let (sf, rf) = call(f * 4, a, Ok(mix2(*f, a, b)));
            (Sp::Seq(vec![sa, sb, sf]), rf)
        }
        P::Seq(ps, f) => {
            let mut v = Vec::new();
            let mut acc = *f as i64;
            for p in ps {
                let (s, r) = eval(p, env, run, exp);
                v.push(s);
                match r {
                    Err(e) => return (Sp::Seq(v), Err(e)),
                    Ok(x) => acc = mix2(*f, acc, x),
                }
            }
            let (s, r) = call(f * 4, ps.len() as i64, Ok(acc));
            v.push(s);
            (Sp::Seq(v), r)
        }
        P::When(n, yes, a, b) => {
            let (s, r) = call(n * 4, 0, Ok(0));
            if let Err(e) = r {
                return (s, Err(e));
            }
            let (s2, r2) = if *yes { call(n * 4 + 1, 0, Ok(*a)) } else { call(n * 4 + 2, 0, Ok(*b)) };
            (Sp::Seq(vec![s, s2]), r2)
        }
        P::Apply(q, f, pure_f) => {
            let (sv, rv) = eval(q, env, run, exp);
            let (sf, rf) = if *pure_f { (Sp::none(), Ok(0)) } else { call(f * 4 + 1, 0, Ok(0)) };
            let par = Sp::Par(vec![(sv, rv.is_err()), (sf, rf.is_err())]);
            match (rv, rf) {
                (Ok(a), Ok(_)) => {
                    if *pure_f && is_pure(q) {
                        (par, Ok(mix(*f, a)))
                    } else {
                        let (s, r) = call(f * 4, a, Ok(mix(*f, a)));
                        (Sp::Seq(vec![par, s]), r)
                    }
                }
                (a, b) => (par, Err([a.err(), b.err()].into_iter().flatten().flatten().collect())),
            }
        }
        P::Recover(q, f, r) => {
            let (s, res) = eval(q, env, run, exp);
            match res {
                Ok(v) => (s, Ok(v)),
                Err(ks) => {
                    exp.insert((run, *f), ks);
                    let (s2, r2) = call(f * 4, 0, Ok(0));
                    if let Err(e) = r2 {
                        return (Sp::Seq(vec![s, s2]), Err(e));
                    }
                    let (s3, r3) = eval(r, env, run, exp);
                    (Sp::Seq(vec![s, s2, s3]), r3)
                }
            }
        }
        P::RecoverWith(q, d) => {
            let (s, res) = eval(q, env, run, exp);
            (s, Ok(res.unwrap_or(*d)))
        }
        P::Dup(q, f, how) => {
            let (s, res) = eval(q, env, run, exp);
            let a = match res {
                Ok(a) => a,
                Err(e) if *how == 3 => {
                    // the value or the function first: the same part either way
                    return (Sp::Par(vec![(s.clone(), true), (s, true)]), Err(e));
                }
                Err(e) => return (s, Err(e)),
            };
            let silent = is_pure(p);
            let finish = |mut v: Vec<Sp>, r: i64| {
                let mut res = Ok(r);
                if !silent {
                    let (s, r2) = call(f * 4, a, Ok(r));
                    v.push(s);
                    res = r2;
                }
                (Sp::Seq(v), res)
            };
            match how {
                0 => finish(vec![s.clone(), s], mix2(*f, a, a)),
                1 => finish(vec![s.clone(), s.clone(), s], (0..3).fold(*f as i64, |acc, _| mix2(*f, acc, a))),
                2 => {
                    let (s1, r) = finish(vec![s.clone()], a);
                    if r.is_err() { (s1, r) } else { (Sp::Seq(vec![s1, s]), r) }
                }
                _ => finish(vec![s.clone(), s], mix2(*f, a, a)),
            }
        }
    }
}

/// Decides where each run panics.
pub fn draw_panics(runs: std::ops::Range<usize>, keys: &[Key]) {
    let sc = cfg().fault_scale;
    if sc == 0 || keys.is_empty() {
        return;
    }
    for run in runs {
        for k in keys {
            if simcore::plan_chance(sc, 2048) {
                fx::plan_panic(run, *k, fault_choose(3) as u8);
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Form {
    Run,
    TryGet,
    TryGetCtx,
    TryComposable,
    TryComposableCtx,
    Pipeline,
    Evaluate,
}
/// One run through one of the ways to run an IO.
fn perform(io: &Io, form: Form) -> Result<i64, (Option<u32>, String)> {
    let run = fx::cur_run();
    let conv = |r: Result<Tok, ComposableError<IOError>>, ctx: &[&str]| match r {
        Ok(t) => Ok(t.val()),
        Err(e) => {
            check!(e.context() == ctx, "wrong-context", "{form:?} in run {run}: contexts are {:?}, expected {ctx:?}", e.context());
            match e.core_error() {
                IOError::Other(s) => Err((None, s.clone())),
                other => fail("wrong-error", &format!("{form:?}: the error is {other:?}")),
            }
        }
    };
    let r = match form {
        Form::Run => catch(|| io.run()).map(|t| t.val()).map_err(panic_pair),
        Form::Evaluate => catch(|| io.evaluate()).map(|t| t.val()).map_err(panic_pair),
        _ => match catch(|| match form {
            Form::TryGet => io.try_get(),
            Form::TryGetCtx => io.try_get_with_context("outer"),
            Form::TryComposable => io.try_get_composable().map_err(|e| *e),
            Form::TryComposableCtx => io.try_get_composable_with_context("outer").map_err(|e| *e),
            _ => io.clone().into_error_pipeline().finish().map_err(|e| *e.core_error),
        }) {
            Ok(r) => match form {
                Form::TryGetCtx | Form::TryComposableCtx => conv(r.map_err(|e| e), &["outer"]),
                _ => conv(r, &[]),
            },
            Err(p) => fail("escaped-panic", &format!("{form:?} let a panic out: {}", payload_text(&*p))),
        },
    };
    r
}

/// Threads run one shared IO (and clones of it) over and over.
pub fn scenario(recover: bool, strict: bool) {
    ledger::reset();
    fx::reset(false);
    EXPECT.set(HashMap::new());
    let mut g = Gen { next: 0, recover };
    let p = g.draw(wr(1, 4), false);
    let mut ks = Vec::new();
    keys(&p, &mut ks);
    let n = crate::util::crowd(4);
    let per = if n < 3 { crate::util::size(1, 3, 20) } else { wr(1, 3) };
    let total = n * per + 1;
    // the IO is also run from inside its own effects
    let inner = if wchance(1, 5) && !ks.is_empty() { wr(1, 4) } else { 0 };
    draw_panics(0..total + inner, &ks);
    describe(&format!("{n} threads x {per} runs of {p:?}"));
    let io = Arc::new(sut(|| build(&p, None)));
    check!(fx::runs_logged().is_empty(), "eager", "effects were performed while building: {:?}", fx::log_of(fx::BUILD));
    let baseline = ledger::live();
    let mut want = Vec::new();
    for run in 0..total + inner {
        let mut exp = HashMap::new();
        want.push(eval(&p, None, run, &mut exp));
        EXPECT.with(|m| m.extend(exp));
    }
    let forms: Vec<Form> = (0..total + inner)
        .map(|_| {
            if recover {
                [Form::Run, Form::TryGet, Form::TryGetCtx, Form::TryComposable, Form::TryComposableCtx, Form::Pipeline, Form::Evaluate][w(7)]
            } else {
                [Form::Run, Form::Evaluate][w(2)]
            }
        })
        .collect();
    let clones: Vec<bool> = (0..n).map(|_| wchance(1, 2)).collect();
    let want = Arc::new(want);
    let body = {
        let (io, want, forms) = (io.clone(), want.clone(), forms.clone());
        move |run: usize, mine: Option<&Io>| {
            fx::enter(run);
            let got = perform(mine.unwrap_or(&io), forms[run]);
            fx::enter(fx::BUILD);
            // an unknown payload has no message of its own in an error value
            let got = match got {
                Err((None, _)) if !matches!(forms[run], Form::Run | Form::Evaluate) && want[run].1.as_ref().is_err_and(|ks| ks.iter().any(|k| fx::panic_kind(run, *k) == Some(0))) => {
                    let k = want[run].1.as_ref().unwrap_err().iter().copied().find(|k| fx::panic_kind(run, *k) == Some(0)).unwrap();
                    Err((Some(k), format!("injected #{k}")))
                }
                g => g,
            };
            check_run("IO", run, &want[run].0, &want[run].1, &got);
        }
    };
    if inner > 0 {
        for i in 0..inner {
            let (outer, key) = (w(total + i), ks[w(ks.len())]);
            describe(&format!("; run {} inside effect {key} of run {outer}", total + i));
            fx::plan_nested(outer, key, total + i);
        }
        let (b, own) = (body.clone(), sut(|| (*io).clone()));
        fx::set_nest(Some(Arc::new(move |run| b(run, Some(&own)))));
    }
    let b2 = body.clone();
    let io2 = io.clone();
    threads(n, move |i| {
        let mine = if clones[i] { Some(sut(|| (*io2).clone())) } else { None };
        for j in 0..per {
            if j > 0 && tired() {
                break;
            }
            b2(i * per + j, mine.as_ref());
            linger(1);
        }
        sut(|| drop(mine));
    });
    // and once more afterwards, as if nothing had happened
    body(n * per, None);
    drop(body);
    fx::set_nest(None);
    drop(want);
    for r in fx::runs_logged() {
        check!(r < total + inner, "effects", "effects outside every run: {:?}", fx::log_of(r));
    }
    if strict {
        check!(ledger::live() == baseline, "leak", "{} values alive after the runs, {} before", ledger::live(), baseline);
    }
    let io = Arc::try_unwrap(io).unwrap_or_else(|_| fail("harness", "IO still shared"));
    sut(|| drop(io));
    if strict {
        ledger::check_empty("after everything was dropped");
    }
}

/// Built and run once: every function is called as often as the program prescribes, be it while
/// building or while running.
fn once() {
    ledger::reset();
    fx::reset(false);
    EXPECT.set(HashMap::new());
    LOUD.store(true, std::sync::atomic::Ordering::Relaxed);
    let mut g = Gen { next: 0, recover: wchance(1, 3) };
    let ps: Vec<P> = (0..wr(1, 6)).map(|_| g.draw(wr(1, 3), false)).collect();
    let n = wr(1, 2);
    describe(&format!("{n} threads build and run {ps:?}"));
    let ps = Arc::new(ps);
    threads(n, move |t| {
        for (i, p) in ps.iter().enumerate() {
            let run = t * ps.len() + i;
            fx::enter(run);
            let got = catch(|| {
                let io = build(p, None);
                io.run()
            });
            fx::enter(fx::BUILD);
            let got = got.map(|t| t.val()).map_err(panic_pair);
            let (sp, want) = eval(p, None, run, &mut HashMap::new());
            let (want_fx, mut log) = (sp.multiset(), fx::log_of(run));
            log.sort();
            // a part used twice may have been computed once, when building
            let shared = format!("{p:?}").contains("Dup");
            let (mut a, mut b) = (log.clone(), want_fx.clone());
            a.dedup();
            b.dedup();
            let ok = if shared { a == b && log.len() <= want_fx.len() } else { log == want_fx };
            check!(ok, "effects", "run {run}: effects (in no order) were {log:?}, expected {want_fx:?}: {p:?}");
            check!(want.ok() == got.clone().ok(), "wrong-value", "run {run} gave {got:?}: {p:?}");
        }
    });
    LOUD.store(false, std::sync::atomic::Ordering::Relaxed);
    ledger::check_empty("after the runs");
}

/// sequence_composable: every IO once; all values or all errors, in order.
fn sequence_composable() {
    ledger::reset();
    fx::reset(false);
    EXPECT.set(HashMap::new());
    let n = wr(1, 3);
    let m = crate::util::size(0, 5, 40);
    let mut g = Gen { next: 0, recover: true };
    let ps: Arc<Vec<P>> = Arc::new((0..m).map(|_| g.draw(w(3), false)).collect());
    let mut ks = Vec::new();
    ps.iter().for_each(|p| keys(p, &mut ks));
    draw_panics(0..n, &ks);
    describe(&format!("{n} threads run sequence_composable over {ps:?}"));
    let ios: Arc<Vec<Io>> = Arc::new(sut(|| ps.iter().map(|p| build(p, None)).collect()));
    for run in 0..n {
        let mut exp = HashMap::new();
        ps.iter().for_each(|p| drop(eval(p, None, run, &mut exp)));
        EXPECT.with(|m| m.extend(exp));
    }
    threads(n, move |run| {
        let mut exp = HashMap::new();
        let each: Vec<(Sp, Want)> = ps.iter().map(|p| eval(p, None, run, &mut exp)).collect();
        let sp = Sp::Seq(each.iter().map(|e| e.0.clone()).collect());
        fx::enter(run);
        let r = catch(|| IO::sequence_composable(ios.iter().cloned()));
        let log = fx::log_of(run);
        if let Err(e) = sp.check(&log, true) {
            fail("effects", &format!("sequence_composable: {e}: {log:?} instead of {sp:?}"));
        }
        let bad: Vec<&Vec<Key>> = each.iter().filter_map(|e| e.1.as_ref().err()).collect();
        match r {
            Err(p) => fail("escaped-panic", &format!("sequence_composable let a panic out: {}", payload_text(&*p))),
            Ok(Ok(v)) => {
                check!(bad.is_empty(), "missing-error", "sequence_composable returned values although {bad:?} panicked");
                let got: Vec<i64> = v.iter().map(|t| t.val()).collect();
                let want: Vec<i64> = each.iter().map(|e| *e.1.as_ref().unwrap()).collect();
                check!(got == want, "wrong-value", "sequence_composable returned {got:?}, expected {want:?}");
            }
            Ok(Err(es)) => {
                check!(es.len() == bad.len(), "wrong-errors", "{} errors, {} expected", es.len(), bad.len());
                for (e, ks) in es.iter().zip(bad) {
                    check_error("sequence_composable", run, e, ks.clone(), &[]);
                }
            }
        }
        fx::enter(fx::BUILD);
    });
}

pub fn register(s: &mut Vec<Scenario>, i: &mut Vec<Info>) {
    s.push(Scenario { prop: "C08", name: "compose", gap_max: 600, faults: 0, weight: 1, run: || scenario(false, false) });
    s.push(Scenario { prop: "C08", name: "compose-panics", gap_max: 600, faults: F_OWN, weight: 1, run: || scenario(false, false) });
    s.push(Scenario { prop: "C08", name: "once", gap_max: 600, faults: 0, weight: 1, run: once });
    s.push(Scenario { prop: "C09", name: "capture", gap_max: 600, faults: F_OWN, weight: 3, run: || scenario(true, false) });
    s.push(Scenario { prop: "C09", name: "sequence", gap_max: 600, faults: F_OWN, weight: 1, run: sequence_composable });
    s.push(Scenario { prop: "C16", name: "io", gap_max: 600, faults: F_OWN, weight: 2, run: || scenario(wchance(1, 2), true) });
    let real = "IO and its closures, ComposableError, ErrorPipeline, std thread spawn/join/unwinding";
    let stub = "thread scheduling, futex waits and wakes, clocks; user effects are logging callbacks";
    i.push(Info { prop: "C08", rule: "A random IO program (pure, new, fmap, bind, combine, sequence, when, apply) is run 1-3 times by each of 1-4 threads, shared or cloned, some runs with panicking effects, and every run is compared with a reference interpreter: value, effects, order, thread.", real, stub, counters: &[] });
    i.push(Info { prop: "C09", rule: "As C08 with recover/recover_with in the program and a drawn set of effects that panic (text and non-text payloads) per run, run through run, evaluate, try_get, try_get_with_context, try_get_composable(_with_context), into_error_pipeline and sequence_composable.", real, stub, counters: &[] });
}
