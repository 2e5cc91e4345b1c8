pub use simcore::threads;
use simcore::Mode;

/// A few scheduling points, so that others can overtake.
pub fn linger(n: usize) {
    let _o = Mode::open();
    for _ in 0..n {
        simcore::point();
    }
}

/// The arithmetic of user functions: injective enough to tell every composition apart.
pub fn mix(f: u32, a: i64) -> i64 {
    (a.wrapping_mul(31).wrapping_add(f as i64 * 7 + 1)) & 0x3fff_ffff
}
pub fn mix2(f: u32, a: i64, b: i64) -> i64 {
    (a.wrapping_mul(37).wrapping_add(b.wrapping_mul(101)).wrapping_add(f as i64)) & 0x3fff_ffff
}

/// Runs under test compare what happened with what a plain reading of the program prescribes.
pub type Want = Result<i64, Vec<simcore::fx::Key>>;

/// Checks one finished run of a program against the reference.
pub fn check_run(prop: &str, run: usize, sp: &simcore::fx::Sp, want: &Want, got: &Result<i64, (Option<u32>, String)>) {
    use simcore::{check, fx};
    let log = fx::log_of(run);
    if let Err(e) = sp.check(&log, true) {
        simcore::fail("effects", &format!("{prop} run {run}: {e}; effects performed: {log:?}; expected order: {sp:?}"));
    }
    match (want, got) {
        (Ok(w), Ok(g)) => check!(w == g, "wrong-value", "{prop} run {run}: value {g}, expected {w}"),
        (Err(ks), Err((_, text))) => {
            let ok = ks.iter().any(|k| fx::payload_is(fx::panic_kind(run, *k).unwrap_or(0), *k, text));
            check!(ok, "wrong-panic", "{prop} run {run}: failed with {text:?}, expected the panic of one of {ks:?}");
        }
        (Ok(w), Err((_, text))) => simcore::fail("unexpected-panic", &format!("{prop} run {run}: panicked with {text:?} instead of returning {w}")),
        (Err(ks), Ok(g)) => simcore::fail("missing-panic", &format!("{prop} run {run}: returned {g} although {ks:?} panicked")),
    }
}
pub fn panic_pair(p: Box<dyn std::any::Any + Send>) -> (Option<u32>, String) {
    (simcore::injected(&*p), simcore::payload_text(&*p))
}

// ---- programs of the synchronous monads ----

/// Planned failures (error values) of a run's steps, next to fx's planned panics.
static ERRS: simcore::Global<std::collections::HashSet<(usize, u32)>> = simcore::Global::empty();

/// Does this step of the current run fail?
pub fn step_fails(key: u32) -> bool {
    let run = simcore::fx::cur_run();
    let hit = fails(run, key);
    if hit {
        simcore::count_fault(simcore::Fault::Error);
    }
    hit
}
pub fn plan_error(run: usize, key: u32) {
    ERRS.with(|e| e.insert((run, key)));
}
pub fn fails(run: usize, key: u32) -> bool {
    ERRS.with(|e| e.contains(&(run, key)))
}
#[derive(Clone, Debug)]
pub struct Run {
    pub id: usize,
    pub arg: i64,
    pub how: usize,
}
/// What a reference reading of a run performs and gives; `Err`: the step that panics.
#[derive(Clone, Debug)]
pub struct Ref<T> {
    pub log: Vec<(u32, i64)>,
    pub res: Result<T, u32>,
}
/// The reference interpreter's log.
pub struct Rec {
    pub run: usize,
    pub log: Vec<(u32, i64)>,
}
impl Rec {
    pub fn new(run: usize) -> Rec {
        Rec { run, log: Vec::new() }
    }
    /// User code is called.
    pub fn call(&mut self, key: u32, arg: i64) -> Result<(), u32> {
        self.log.push((key, arg));
        if self.log.len() > 3000 { Err(u32::MAX) } else if simcore::fx::panics(self.run, key) { Err(key) } else { Ok(()) }
    }
}
static LUMPY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// In some runs every length is either small or just past the usual limits.
pub fn draw_lumpy() {
    LUMPY.store(simcore::wchance(1, 6), std::sync::atomic::Ordering::Relaxed);
}
/// Lengths that are small most of the time, and now and then past any small limit.
pub fn size(lo: usize, hi: usize, far: usize) -> usize {
    use simcore::{wchance, wr};
    if LUMPY.load(std::sync::atomic::Ordering::Relaxed) {
        return if wchance(1, 2) { wr(lo, (lo + 2).min(hi)) } else { wr(hi, far.min(hi + 12)) };
    }
    if !wchance(1, 12) {
        wr(lo, hi)
    } else if far < 20 || !wchance(1, 10) {
        wr(hi, far)
    } else if wchance(1, 4) {
        // past the powers of two a counter or a cache limit might sit at
        wr(far * 6, far * 14)
    } else {
        wr(far, far * 6)
    }
}
/// Programs whose steps multiply too much are left alone.
pub fn too_long(reference: impl FnOnce(&mut Rec)) -> bool {
    reset();
    let mut r = Rec::new(usize::MAX - 1);
    reference(&mut r);
    r.log.len() > 1000
}
/// Compares a finished run with its reference reading.
pub fn judge<T: PartialEq + std::fmt::Debug>(what: &str, run: &Run, want: Ref<T>, got: Result<T, Box<dyn std::any::Any + Send>>) {
    use simcore::{check, fail, fx};
    let log = fx::log_of(run.id);
    if want.res.as_ref().err() == Some(&u32::MAX) {
        // the reference stopped reading; the beginning has been compared
        check!(log.starts_with(&want.log), "steps", "{what}, {run:?}: steps differ");
        return;
    }
    if log != want.log {
        let i = log.iter().zip(&want.log).position(|(a, b)| a != b).unwrap_or(log.len().min(want.log.len()));
        fail("steps", &format!("{what}, {run:?}: step {i} was {:?}, expected {:?} (steps (key, argument): {log:?}, expected {:?})", log.get(i), want.log.get(i), want.log));
    }
    match (want.res, got) {
        (Ok(w), Ok(g)) => check!(w == g, "wrong-value", "{what}, {run:?}: gives {g:?}, expected {w:?}"),
        (Err(k), Err(p)) => {
            let t = simcore::payload_text(&*p);
            let kind = fx::panic_kind(run.id, k).unwrap_or(0);
            check!(fx::payload_is(kind, k, &t), "panic-altered", "{what}, {run:?}: the panic of step {k} surfaced as {t:?}");
        }
        (Ok(w), Err(p)) => fail("unexpected-panic", &format!("{what}, {run:?}: panicked ({}) instead of giving {w:?}", simcore::payload_text(&*p))),
        (Err(k), Ok(g)) => fail("missing-panic", &format!("{what}, {run:?}: gave {g:?} although step {k} panicked")),
    }
}
/// Forgets everything about earlier runs.
pub fn reset() {
    simcore::ledger::reset();
    simcore::fx::reset(false);
    ERRS.set(Default::default());
}
/// A few threads; now and then many.
pub fn crowd(n: usize) -> usize {
    if simcore::wchance(1, 30) { simcore::wr(n + 1, 20) } else { simcore::wr(1, n) }
}
/// Lets 1-3 threads (now and then up to 20) run a shared program (or clones of it) 1-3 times each, some runs with
/// planned panics and errors, and once more at the end.
pub fn drive<T: Send + Sync + 'static>(
    keys: &[u32],
    err_keys: &[u32],
    hows: usize,
    strict: bool,
    make: impl FnOnce() -> T,
    clone: impl Fn(&T) -> T + Send + Sync + 'static,
    exec: impl Fn(&T, &Run) + Send + Sync + 'static,
) {
    use simcore::{Mode, cfg, check, fault_choose, fx, ledger, plan_chance, sut, w, wchance, wr};
    use std::sync::Arc;
    reset();
    let n = crowd(3);
    let per = if n < 3 { size(1, 3, 24) } else { wr(1, 3) };
    let total = n * per + 1;
    // the computation is also run from inside its own steps
    let inner = if !keys.is_empty() && wchance(1, 5) { wr(1, 4) } else { 0 };
    let runs: Arc<Vec<Run>> = Arc::new((0..total + inner).map(|id| Run { id, arg: wr(1, 50) as i64, how: w(hows) }).collect());
    let fs = cfg().fault_scale;
    for r in runs.iter() {
        if fs > 0 && !keys.is_empty() && plan_chance(fs, 1024) {
            for _ in 0..1 + fault_choose(2) {
                fx::plan_panic(r.id, keys[fault_choose(keys.len())], fault_choose(3) as u8);
            }
        }
        if !err_keys.is_empty() && plan_chance(if fs > 0 { fs } else { 300 }, 1024) {
            for _ in 0..1 + fault_choose(2) {
                let k = err_keys[fault_choose(err_keys.len())];
                ERRS.with(|e| e.insert((r.id, k)));
            }
        }
    }
    let prog = sut(make);
    let built: Vec<_> = fx::log_of(fx::BUILD);
    check!(built.is_empty(), "eager", "steps were performed while building: {built:?}");
    simcore::describe(&format!("; {n} threads x {per} runs {runs:?}"));
    let exec = Arc::new(exec);
    if inner > 0 {
        for i in 0..inner {
            // an inner run may contain a further one
            let (outer, key) = (w(total + i), keys[w(keys.len())]);
            simcore::describe(&format!("; run {} inside step {key} of run {outer}", total + i));
            fx::plan_nested(outer, key, total + i);
        }
        let (e, r, t) = (exec.clone(), runs.clone(), sut(|| clone(&prog)));
        fx::set_nest(Some(Arc::new(move |id| e(&t, &r[id]))));
    }
    let give_away = wchance(1, 3);
    if give_away {
        // every thread owns a clone; the original goes away at once
        let slots: Vec<std::sync::Mutex<Option<T>>> = (0..n + 1).map(|_| std::sync::Mutex::new(Some(sut(|| clone(&prog))))).collect();
        sut(move || drop(prog));
        let slots = Arc::new(slots);
        let (s2, r2) = (slots.clone(), runs.clone());
        let e2 = exec.clone();
        threads(n, move |i| {
            let mine = { s2[i].lock().unwrap().take().unwrap() };
            for j in 0..per {
                if j > 0 && simcore::tired() {
                    break;
                }
                one(&*e2, &mine, &r2[i * per + j]);
            }
            sut(|| drop(mine));
        });
        let mine = { slots[n].lock().unwrap().take().unwrap() };
        one(&*exec, &mine, &runs[n * per]);
        sut(move || drop(mine));
    } else {
        let prog = Arc::new(prog);
        let own: Arc<Vec<bool>> = Arc::new((0..n).map(|_| wchance(1, 3)).collect());
        let (p2, r2) = (prog.clone(), runs.clone());
        let e2 = exec.clone();
        threads(n, move |i| {
            let mine = own[i].then(|| sut(|| clone(&p2)));
            for j in 0..per {
                if j > 0 && simcore::tired() {
                    break;
                }
                one(&*e2, mine.as_ref().unwrap_or(&p2), &r2[i * per + j]);
            }
            sut(|| drop(mine));
        });
        one(&*exec, &prog, &runs[n * per]);
        let prog = Arc::try_unwrap(prog).unwrap_or_else(|_| simcore::fail("harness", "program still shared"));
        sut(move || drop(prog));
    }
    fx::set_nest(None);
    for r in fx::runs_logged() {
        check!(r < total + inner, "steps", "steps outside every run: {:?}", fx::log_of(r));
    }
    if strict {
        ledger::check_empty("after the computation was dropped");
    }
    fn one<T>(exec: &(impl Fn(&T, &Run) + ?Sized), t: &T, r: &Run) {
        let _q = Mode::quiet();
        fx::enter(r.id);
        exec(t, r);
        fx::enter(fx::BUILD);
        linger(1);
    }
}

// ---- functions that own something ----

/// A function that owns a value, which must be alive whenever the function is called.
pub fn keep1<A, B>(f: impl Fn(A) -> B + Clone + Send + Sync + 'static) -> impl Fn(A) -> B + Clone + Send + Sync + 'static {
    let g = simcore::ledger::Tok::new(0);
    move |a| {
        let _ = g.val();
        f(a)
    }
}
pub fn keep2<A, B, C>(f: impl Fn(A, B) -> C + Clone + Send + Sync + 'static) -> impl Fn(A, B) -> C + Clone + Send + Sync + 'static {
    let g = simcore::ledger::Tok::new(0);
    move |a, b| {
        let _ = g.val();
        f(a, b)
    }
}
