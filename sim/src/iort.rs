//! IO on a real tokio runtime under simulated threads and time: C10, C11, C12.
use crate::util::{linger, mix, threads};
use rustica::datatypes::io::IO;
use simcore::explore::{F_EINTR, F_OWN, Info, Scenario};
use simcore::fx;
use simcore::ledger::{self, Tok};
use simcore::*;
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

#[derive(Default, Clone, Debug)]
struct Counts {
    started: u32,
    finished: u32,
    polls: u32,
}
static C: Global<Vec<Counts>> = Global::empty();
fn count(i: usize, f: impl FnOnce(&mut Counts)) {
    C.with(|c| f(&mut c[i]))
}
fn counts(i: usize) -> Counts {
    C.with(|c| c[i].clone())
}

/// Opens once; waiting blocks the thread.
#[derive(Default)]
pub struct Gate {
    open: Mutex<usize>,
    cv: Condvar,
}
impl Gate {
    pub fn arrive(&self) {
        *self.open.lock().unwrap() += 1;
        self.cv.notify_all();
    }
    pub fn wait(&self, n: usize) {
        let mut g = self.open.lock().unwrap();
        while *g < n {
            g = self.cv.wait(g).unwrap();
        }
    }
}

#[derive(Clone, Copy, Debug)]
enum Wait {
    Yield,
    Sleep(u64),
    Block(u64),
    Linger,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Plain,
    Clone,
    BlockOn,
    CurrentThread,
    Task,
    RunAsync,
    Spawned,
    /// under the current-thread runtime the IO was built in
    Home,
}
/// Where an IO is built.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Born {
    Plain,
    /// in a task of the runtime that the runs use
    Task,
    /// under a current-thread runtime that stays, or is gone before the first run
    Home,
    Gone,
    /// the same, and that runtime has neither timers nor I/O
    BareHome,
}
#[derive(Clone, Default)]
struct Rts {
    multi: Option<Arc<tokio::runtime::Runtime>>,
    home: Option<Arc<tokio::runtime::Runtime>>,
}
impl Rts {
    fn drop(self) {
        let _o = Mode::open();
        drop(self);
    }
}
fn draw_born() -> Born {
    if wchance(1, 2) { Born::Plain } else { [Born::Task, Born::Home, Born::Gone, Born::BareHome][w(4)] }
}
fn build_in<T: Send + 'static>(born: Born, rts: &mut Rts, workers: usize, f: impl FnOnce() -> T + Send + 'static) -> T {
    match born {
        Born::Plain => sut(f),
        Born::Task => {
            let rt = rts.multi.get_or_insert_with(|| Arc::new(runtime(true, workers))).clone();
            let _o = Mode::open();
            rt.block_on(rt.spawn(async move { sut(f) })).unwrap()
        }
        Born::Home | Born::Gone | Born::BareHome => {
            let rt = if born == Born::BareHome {
                let _o = Mode::open();
                tokio::runtime::Builder::new_current_thread().build().unwrap()
            } else {
                runtime(false, 1)
            };
            let _o = Mode::open();
            let v = rt.block_on(async move { sut(f) });
            if born == Born::Gone {
                drop(rt);
            } else {
                rts.home = Some(Arc::new(rt));
            }
            v
        }
    }
}

pub fn runtime(multi: bool, workers: usize) -> tokio::runtime::Runtime {
    let _o = Mode::open();
    if multi {
        tokio::runtime::Builder::new_multi_thread().worker_threads(workers).enable_all().build().unwrap()
    } else {
        tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
    }
}

/// The future of async IO number `i`; it may run another async IO on the way.
async fn body(i: usize, waits: Vec<Wait>, panics: Option<usize>, inner: Option<IO<Tok>>, v: Tok) -> Tok {
    count(i, |c| c.started += 1);
    event(c"future-started", i as i64, 0);
    for (k, w) in waits.iter().enumerate() {
        if panics == Some(k) {
            count_fault(Fault::Panic);
            fx::boom(1, i as u32);
        }
        match *w {
            Wait::Yield => tokio::task::yield_now().await,
            Wait::Sleep(ns) => tokio::time::sleep(Duration::from_nanos(ns)).await,
            Wait::Block(ns) => std::thread::sleep(Duration::from_nanos(ns)),
            Wait::Linger => linger(3),
        }
        count(i, |c| c.polls += 1);
    }
    if panics.is_some_and(|p| p >= waits.len()) {
        count_fault(Fault::Panic);
        fx::boom(1, i as u32);
    }
    let extra = inner.map(|io| io.run().val()).unwrap_or(0);
    count(i, |c| c.finished += 1);
    event(c"future-finished", i as i64, 0);
    v.with(v.val() + extra)
}

const HOWS: [How; 8] = [How::Plain, How::Clone, How::BlockOn, How::CurrentThread, How::Task, How::RunAsync, How::Spawned, How::Home];
/// One run of `io` from a given kind of caller.
fn run_as(io: Arc<IO<Tok>>, how: How, rts: &Rts) -> Result<Tok, Box<dyn std::any::Any + Send>> {
    let rt = rts.multi.as_ref();
    match how {
                How::Home if rts.home.is_some() => {
                    let rt = rts.home.as_ref().unwrap();
                    catch(|| rt.block_on(async { io.run() }))
                }
                How::Plain => catch(|| io.run()),
                How::Clone => catch(|| {
                    let c = (*io).clone();
                    c.run()
                }),
                How::BlockOn => {
                    let rt = rt.unwrap();
                    catch(|| rt.block_on(async { io.run() }))
                }
                How::CurrentThread | How::Home => {
                    let rt = runtime(false, 1);
                    let r = catch(|| rt.block_on(async { io.run() }));
                    let _o = Mode::open();
                    drop(rt);
                    r
                }
                How::Task => {
                    let h = rt.unwrap().handle().clone();
                    catch(move || {
                        let j = h.spawn(async move {
                            let _m = Mode::sut();
                            io.run()
                        });
                        h.block_on(j)
                    })
                    .and_then(|r| r.map_err(|e| e.into_panic()))
                }
                How::RunAsync => {
                    let h = rt.unwrap().handle().clone();
                    catch(move || h.block_on(async move { io.run_async().await }))
                }
                How::Spawned => {
                    let h = rt.unwrap().handle().clone();
                    catch(move || {
                        let j = h.spawn(async move { io.run_async().await });
                        h.block_on(j)
                    })
                    .and_then(|r| r.map_err(|e| e.into_panic()))
                }
            }
}
fn needs_rt(hows: &[How]) -> bool {
    hows.iter().any(|h| matches!(h, How::BlockOn | How::Task | How::RunAsync | How::Spawned))
}

fn new_async(strict: bool) {
    ledger::reset();
    let nested = wchance(1, 5);
    let total = if nested { 2 } else { 1 };
    C.set(vec![Counts::default(); total]);
    let scale = cfg().fault_scale;
    let waits: Vec<Wait> = (0..w(4))
        .map(|_| match w(4) {
            0 => Wait::Yield,
            1 => Wait::Sleep(w_long_ns().unwrap_or_else(|| 1_000_000 * wr(0, 20) as u64)),
            2 => Wait::Block(w_long_ns().unwrap_or_else(|| 500_000 * wr(0, 20) as u64)),
            _ => Wait::Linger,
        })
        .collect();
    let panics = if scale > 0 && plan_chance(scale, 1024) { Some(fault_choose(waits.len() + 1)) } else { None };
    let v = wr(1, 1000) as i64;
    let n = crate::util::crowd(4);
    let hows: Vec<Vec<How>> = (0..n).map(|_| (0..if n < 3 { crate::util::size(1, 2, 9) } else { wr(1, 2) }).map(|_| HOWS[w(8)]).collect()).collect();
    let mapped = wchance(1, 3);
    let born = draw_born();
    describe(&format!("built in {born:?}; future {waits:?} panics {panics:?} nested {nested} fmapped {mapped}; runs {hows:?}"));
    let rt_workers = wr(1, 2);
    let mut rts = Rts::default();
    let waits2 = waits.clone();
    let io: IO<Tok> = build_in(born, &mut rts, rt_workers, move || {
        let inner = if nested { Some(IO::new_async(body(1, vec![Wait::Yield], None, None, Tok::new(5)))) } else { None };
        IO::new_async(body(0, waits2, panics, inner, Tok::new(v)))
    });
    let io = if mapped { sut(move || io.fmap(|t: Tok| t.with(mix(9, t.val())))) } else { io };
    let want = {
        let x = v + if nested { 5 } else { 0 };
        if mapped { mix(9, x) } else { x }
    };
    linger(3);
    check!(counts(0).started == 0, "eager", "the future was started before any run");
    let io = Arc::new(io);
    if rts.multi.is_none() && needs_rt(&hows.concat()) {
        rts.multi = Some(Arc::new(runtime(true, rt_workers)));
    }
    let rt2 = rts.clone();
    let io2 = io.clone();
    let hows2 = hows.clone();
    threads(n, move |t| {
        for how in &hows2[t] {
            let io = io2.clone();
            event(c"run", t as i64, *how as i64);
            let r = run_as(io, *how, &rt2);
            let c = counts(0);
            match r {
                Ok(t) => {
                    check!(panics.is_none(), "invented-value", "a run returned {} although the future panicked", t.val());
                    check!(t.val() == want, "wrong-value", "a run ({how:?}) returned {} instead of {want}", t.val());
                    check!(c.finished == 1, "too-early", "a run returned before the future had finished ({c:?})");
                }
                Err(p) => {
                    check!(panics.is_some(), "unexpected-panic", "a run ({how:?}) panicked: {}", payload_text(&*p));
                    check!(c.started == 1, "too-early", "a run panicked although the future was never started");
                }
            }
        }
    });
    for i in 0..total {
        let c = counts(i);
        let ran = i == 0 || panics.is_none();
        check!(c.started == ran as u32, "not-once", "future {i} was started {} times", c.started);
        check!(c.finished == (ran && (i == 1 || panics.is_none())) as u32, "not-once", "future {i} finished {} times", c.finished);
    }
    // later runs agree
    let late = catch(|| io.run());
    match late {
        Ok(t) => check!(panics.is_none() && t.val() == want, "wrong-value", "a late run returned {}", t.val()),
        Err(p) => check!(panics.is_some(), "unexpected-panic", "a late run panicked: {}", payload_text(&*p)),
    }
    check!(counts(0).started == 1, "not-once", "a late run started the future again");
    rts.drop();
    gone(io, strict);
}
/// Nothing outlives the last handle.
fn gone<T>(last: Arc<T>, strict: bool) {
    let last = Arc::try_unwrap(last).unwrap_or_else(|_| fail("harness", "still shared"));
    sut(move || drop(last));
    if strict {
        ledger::check_empty("after everything was dropped");
    }
}

/// An async IO that nobody ever runs: its future is dropped with the last handle.
fn never_run() {
    ledger::reset();
    C.set(vec![Counts::default(); 2]);
    let n = crate::util::crowd(3);
    let kinds: Vec<usize> = (0..wr(1, 4)).map(|_| w(5)).collect();
    describe(&format!("built, cloned by {n} threads and dropped: {kinds:?}"));
    let ios: Arc<Vec<IO<Tok>>> = Arc::new(sut(|| {
        kinds
            .iter()
            .map(|k| {
                let io = IO::new_async(body(0, vec![Wait::Yield], None, None, Tok::new(1)));
                match k {
                    0 => io,
                    1 => {
                        let g = Tok::new(2);
                        io.fmap(move |t: Tok| t.with(t.val() + g.val()))
                    }
                    2 => io.bind(|t: Tok| IO::pure(t)),
                    3 => IO::new_async(body(1, vec![], None, Some(io), Tok::new(3))),
                    _ => io.recover_with(Tok::new(4)),
                }
            })
            .collect()
    }));
    let (i2, k2) = (ios.clone(), kinds.clone());
    threads(n, move |_| {
        for i in 0..k2.len() {
            let c = sut(|| i2[i].clone());
            linger(2);
            sut(move || drop(c));
        }
    });
    gone(ios, true);
    for i in 0..2 {
        check!(counts(i).started == 0, "eager", "the future of an IO that was never run was started");
    }
}

fn delays(strict: bool) {
    ledger::reset();
    let n = wr(1, 4);
    let quiet_clock = cfg().p_stall == 0 && cfg().p_time == 0;
    let plain = wchance(1, 2);
    let ds: Vec<(bool, u64, Vec<How>)> = (0..n)
        .map(|_| {
            let d = match w(5) {
                0 => 0,
                1 => w(1000) as u64,
                2 => 1_000_000 * wr(1, 50) as u64 + w(1000) as u64,
                3 if wchance(1, 4) => 1_000_000_000 * wr(90, 20_000) as u64,
                3 if plain && wchance(1, 8) => 86_400_000_000_000 * wr(1, 100) as u64,
                3 => 1_000_000_000 * wr(1, 90) as u64 + w(1 << 30) as u64,
                _ => 1_000_000 * wr(1, 9) as u64,
            };
            (wchance(1, 2), d, (0..wr(1, 3)).map(|_| if plain || wchance(1, 2) { How::Plain } else { HOWS[w(8)] }).collect())
        })
        .collect();
    let composed = wchance(1, 3);
    let born = draw_born();
    describe(&format!("built in {born:?}; (sync, ns, runs) per thread: {ds:?} composed {composed}"));
    let workers = wr(1, 2);
    let mut rts = Rts::default();
    if born == Born::Task || ds.iter().any(|d| needs_rt(&d.2)) {
        rts.multi = Some(Arc::new(runtime(true, workers)));
    }
    let ds1 = ds.clone();
    let took: Arc<Global<u64>> = Arc::new(Global::new(0));
    let took2 = took.clone();
    let ios: Vec<Arc<IO<Tok>>> = build_in(born, &mut rts, workers, move || {
        let t0 = now_ns();
        let ios = ds1
            .iter()
            .enumerate()
            .map(|(i, (sync, d, _))| {
                let d = Duration::from_nanos(*d);
                let io = if *sync { IO::delay_sync(d, Tok::new(i as i64)) } else { IO::delay(d, Tok::new(i as i64)) };
                Arc::new(if composed { io.fmap(|t: Tok| t.with(t.val() + 100)).bind(|t: Tok| IO::pure(t)) } else { io })
            })
            .collect();
        took2.set(now_ns() - t0);
        ios
    });
    let took = took.with(|t| *t);
    if cfg().p_stall == 0 {
        check!(took < 500_000, "building-waits", "building the delays took {took} ns");
    }
    let rt2 = rts.clone();
    let ios = Arc::new(ios);
    // several threads may wait for the same delay
    let share = wchance(1, 3);
    let ds2 = ds.clone();
    let ios2 = ios.clone();
    let begun: Arc<Global<Vec<Option<u64>>>> = Arc::new(Global::new(vec![None; n]));
    threads(n, move |t| {
        let i = if share { 0 } else { t };
        let (sync, d, runs) = &ds2[i];
        let (sync, d) = (*sync, *d);
        for how in runs {
            let t0 = now_ns();
            begun.with(|b| {
                if b[i].is_none() {
                    b[i] = Some(t0)
                }
            });
            let first = begun.with(|b| b[i].unwrap());
            event(c"delay", i as i64, *how as i64);
            let v = match run_as(ios[i].clone(), *how, &rt2) {
                Ok(v) => v,
                Err(p) => fail("unexpected-panic", &format!("delay {i} ({how:?}) panicked: {}", payload_text(&*p))),
            };
            let t1 = now_ns();
            check!(v.val() == i as i64 + if composed { 100 } else { 0 }, "wrong-value", "delay {i} gave {}", v.val());
            if sync {
                check!(t1 - t0 >= d, "too-early", "a delay_sync of {d} ns returned after {} ns", t1 - t0);
            } else {
                check!(t1 - first >= d, "too-early", "a delay of {d} ns, first run {} ns ago, returned", t1 - first);
            }
            // blocked workers make others wait
            if quiet_clock && matches!(how, How::Plain | How::Clone) {
                let lim = d + 20_000_000;
                check!(t1 - t0 <= lim, "too-late", "a delay of {d} ns returned after {} ns on an idle machine", t1 - t0);
            }
        }
    });
    rts.drop();
    gone(ios2, strict);
}

#[derive(Clone, Copy, Debug)]
struct Call {
    io: usize,
    spawned: bool,
    timeout: Option<u64>,
}

fn run_async(strict: bool) {
    ledger::reset();
    let multi = wchance(1, 2);
    let workers = wr(1, 2);
    let nio = wr(1, 3);
    let calls: Vec<Call> = (0..crate::util::size(1, 5, if wchance(1, 3) { 70 } else { 14 }).min(100))
        .map(|_| Call { io: w(nio), spawned: wchance(2, 3), timeout: None })
        .collect();
    let scale = cfg().fault_scale;
    let calls: Vec<Call> = calls
        .into_iter()
        .map(|c| Call { timeout: if scale > 0 && plan_chance(scale, 2048) { Some(1_000_000 * fault_choose(30) as u64) } else { None }, ..c })
        .collect();
    let panics: Vec<bool> = (0..nio).map(|_| scale > 0 && plan_chance(scale, 3072)).collect();
    let slow: Vec<u64> = (0..nio).map(|_| if wchance(1, 2) { w_long_ns().unwrap_or_else(|| 1_000_000 * wr(0, 20) as u64) } else { 0 }).collect();
    // all effects wait until every call without a deadline has begun its effects
    let barrier = wchance(1, 2);
    let needs_heart = wchance(1, 2);
    let sure: usize = calls.iter().filter(|c| c.timeout.is_none()).count();
    describe(&format!("runtime multi={multi} workers={workers}, {} calls, {sure} without timeout, panics {panics:?} slow {slow:?} barrier {barrier} heart {needs_heart}; calls {calls:?}", calls.len()));
    C.set(vec![Counts::default(); nio]);
    let start = Arc::new(Gate::default());
    let heart = Arc::new(Gate::default());
    let ios: Arc<Vec<IO<Tok>>> = Arc::new(sut(|| {
        (0..nio)
            .map(|i| {
                let (start, heart, p, s) = (start.clone(), heart.clone(), panics[i], slow[i]);
                let g = Tok::new(0);
                let io = IO::new(move || {
                    let _ = g.val();
                    count(i, |c| c.started += 1);
                    event(c"effect-starts", i as i64, 0);
                    if barrier {
                        start.arrive();
                        start.wait(sure);
                    }
                    if needs_heart {
                        heart.wait(1);
                    }
                    if s > 0 {
                        std::thread::sleep(Duration::from_nanos(s));
                    }
                    linger(2);
                    count(i, |c| c.finished += 1);
                    event(c"effect-ends", i as i64, 0);
                    if p {
                        count_fault(Fault::Panic);
                        fx::boom(1, i as u32);
                    }
                    Tok::new(10 + i as i64)
                });
                if i == 1 { io.fmap(|t: Tok| t.with(t.val() + 1000)) } else { io }
            })
            .collect()
    }));
    let rt = runtime(multi, workers);
    let done: Arc<Global<Vec<(usize, u8)>>> = Arc::new(Global::new(Vec::new()));
    let (c2, i2, d2, h2, p2) = (calls.clone(), ios.clone(), done.clone(), heart.clone(), panics.clone());
    let main = async move {
        let mut hs = Vec::new();
        let beat = tokio::spawn(async move {
            for _ in 0..3 {
                tokio::task::yield_now().await;
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
            h2.arrive();
        });
        let mut inline = Vec::new();
        for (k, c) in c2.iter().copied().enumerate() {
            let ios = i2.clone();
            let d = d2.clone();
            let panics = p2.clone();
            let fut = async move {
                let one = std::panic::AssertUnwindSafe(async {
                    let m = Mode::sut();
                    let f = ios[c.io].run_async();
                    drop(m);
                    match c.timeout {
                        None => Some(f.await),
                        Some(ns) => tokio::time::timeout(Duration::from_nanos(ns), f).await.ok(),
                    }
                });
                let r = futures::FutureExt::catch_unwind(one).await;
                let _q = Mode::quiet();
                let code = match r {
                    Ok(Some(v)) => {
                        check!(!panics[c.io], "missing-panic", "call {k} returned although its effect panicked");
                        let want = 10 + c.io as i64 + if c.io == 1 { 1000 } else { 0 };
                        check!(v.val() == want, "wrong-value", "call {k} yields {} instead of {want}", v.val());
                        1
                    }
                    Ok(None) => {
                        count_fault(Fault::Cancel);
                        2
                    }
                    Err(p) => {
                        check!(panics[c.io], "foreign-panic", "call {k} panicked though its effect did not: {}", payload_text(&*p));
                        3
                    }
                };
                d.with(|d| d.push((k, code)));
            };
            if c.spawned {
                hs.push(tokio::spawn(fut));
            } else {
                inline.push(fut);
            }
        }
        futures::future::join_all(inline).await;
        for h in hs {
            if h.await.is_err() {
                fail("foreign-panic", "a spawned task died");
            }
        }
        let _ = beat.await;
        // effects whose await was dropped finish all the same
        for k in 0..100 {
            let busy = C.with(|c| c.iter().any(|c| c.started != c.finished));
            if !busy {
                break;
            }
            tokio::time::sleep(Duration::from_millis(5 << (k / 4))).await;
        }
    };
    {
        let _o = Mode::open();
        rt.block_on(main);
    }
    let done = done.with(|d| d.clone());
    check!(done.len() == calls.len(), "lost-call", "{} of {} calls ended", done.len(), calls.len());
    for i in 0..nio {
        let c = counts(i);
        let sure = done.iter().filter(|(k, code)| calls[*k].io == i && *code != 2).count() as u32;
        let cut = done.iter().filter(|(k, code)| calls[*k].io == i && *code == 2).count() as u32;
        check!(c.started == c.finished, "torn-effect", "IO {i}: {} effects started, {} finished", c.started, c.finished);
        check!(c.started >= sure && c.started <= sure + cut, "not-once", "IO {i}: {} effects for {sure} completed and {cut} dropped awaits", c.started);
    }
    // plain runs still work
    for i in 0..nio {
        if barrier || needs_heart {
            start.arrive();
            heart.arrive();
        }
        let before = counts(i).started;
        let r = catch(|| ios[i].run());
        check!(r.is_err() == panics[i], "wrong-outcome", "a later run of IO {i} has another outcome");
        check!(counts(i).started == before + 1, "not-once", "a later run performed its effect {} times", counts(i).started - before);
    }
    let _o = Mode::open();
    drop(rt);
    gone(ios, strict);
}

pub fn register(s: &mut Vec<Scenario>, i: &mut Vec<Info>) {
    s.push(Scenario { prop: "C10", name: "new-async", gap_max: 500, faults: F_OWN | F_EINTR, weight: 1, run: || new_async(false) });
    s.push(Scenario { prop: "C11", name: "delays", gap_max: 300, faults: F_EINTR, weight: 1, run: || delays(false) });
    s.push(Scenario { prop: "C12", name: "run-async", gap_max: 300, faults: F_OWN | F_EINTR, weight: 1, run: || run_async(false) });
    s.push(Scenario { prop: "C16", name: "new-async", gap_max: 500, faults: F_OWN | F_EINTR, weight: 1, run: || new_async(true) });
    s.push(Scenario { prop: "C16", name: "never-run", gap_max: 300, faults: F_OWN, weight: 1, run: never_run });
    s.push(Scenario { prop: "C16", name: "delays", gap_max: 300, faults: F_EINTR, weight: 1, run: || delays(true) });
    s.push(Scenario { prop: "C16", name: "run-async", gap_max: 300, faults: F_OWN | F_EINTR, weight: 1, run: || run_async(true) });
    let real = "IO, the tokio runtimes (rustica's global one and the caller's: scheduler, blocking pool, timer wheel), std locks, threads, sleeps";
    let stub = "the operating system below them: thread scheduling, futex waits and wakes, clocks, sleeping, randomness";
    i.push(Info { prop: "C10", rule: "1-4 threads run one async IO (clones, fmapped, nested) 1-2 times each: plainly, under block_on of multi- and current-thread runtimes, inside runtime tasks and through run_async; it is built on a plain thread or inside a runtime that stays or is gone; the future yields, sleeps, blocks or panics at a drawn point.", real, stub, counters: &[] });
    i.push(Info { prop: "C11", rule: "1-4 threads run delay and delay_sync IOs of 0 ns to 90 s (own or shared) 1-3 times on the simulated clock, with interrupted sleeps, stalls and time jumping ahead.", real, stub, counters: &[] });
    i.push(Info { prop: "C12", rule: "1-5 run_async awaits (spawned or joined, some under a timeout) of 1-3 IOs whose effects sleep, panic, wait for each other or for a heartbeat task of the same runtime, on current-thread and 1-2 worker runtimes.", real, stub, counters: &[] });
}
