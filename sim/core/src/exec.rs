//! A simulated async executor: tasks are polled by k simulated worker threads, and which task is
//! polled when, which event or timer fires, which task is polled without need and which is
//! cancelled where is decided by the recorded choice streams.
//!
//! It keeps to the letter of the `Future` contract: only the waker of a task's latest poll
//! wakes it, polls may be spurious, a task may be dropped whenever it is not being polled.
use crate::{Fault, Global, Mode, cfg, check, count_fault, event, fail, fault_chance, fault_choose, payload_text, sched, tid};
use std::future::Future;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub type BoxFut = Pin<Box<dyn Future<Output = ()> + Send>>;
pub type TaskId = usize;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Outcome {
    Done,
    /// The id of an injected panic, or the text of any other.
    Panicked(Option<u32>, String),
    Cancelled,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum TState {
    Ready,
    Waiting,
    Polling,
    Done,
}
struct Task {
    fut: Option<BoxFut>,
    st: TState,
    generation: u64,
    notified: bool,
    polls: u32,
    pendings: u32,
    cancel_after: Option<u32>,
    outcome: Option<Outcome>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum SigKind {
    Event,
    Timer(u64),
    Gate(usize),
}
struct Sig {
    kind: SigKind,
    fired: bool,
    gone: bool,
    waker: Option<Waker>,
}
pub struct Exec {
    tasks: Vec<Task>,
    sigs: Vec<Sig>,
    gates: Vec<bool>,
    idle: Vec<std::thread::Thread>,
    cur: Vec<Option<TaskId>>,
    polling: usize,
    unfinished: usize,
}
static X: Global<Exec> = Global::empty();

struct TaskWaker {
    task: TaskId,
    generation: u64,
}
impl Wake for TaskWaker {
    #[inline(never)]
    fn wake(self: Arc<Self>) {
        do_wake(self.task, self.generation)
    }
    #[inline(never)]
    fn wake_by_ref(self: &Arc<Self>) {
        do_wake(self.task, self.generation)
    }
}
#[inline(never)]
fn do_wake(task: TaskId, generation: u64) {
    let _m = Mode::quiet();
    let idle = X.with(|x| {
        let t = &mut x.tasks[task];
        if t.st == TState::Done {
            return Vec::new();
        }
        if t.generation != generation {
            count_fault(Fault::StaleWake);
            return Vec::new();
        }
        event(c"wake", task as i64, generation as i64);
        match t.st {
            TState::Polling => t.notified = true,
            TState::Waiting => t.st = TState::Ready,
            _ => {}
        }
        std::mem::take(&mut x.idle)
    });
    for th in idle {
        th.unpark();
    }
}

#[inline(never)]
pub fn reset(gates: usize) {
    X.set(Exec {
        tasks: Vec::new(),
        sigs: Vec::new(),
        gates: vec![false; gates],
        idle: Vec::new(),
        cur: vec![None; 256],
        polling: 0,
        unfinished: 0,
    });
}
/// Adds a task; `cancel_after` drops its future once it has been pending that many times
/// (0: possibly before it is ever polled).
#[inline(never)]
pub fn spawn(fut: BoxFut, cancel_after: Option<u32>) -> TaskId {
    let _m = Mode::quiet();
    let (id, idle) = X.with(|x| {
        x.tasks.push(Task {
            fut: Some(fut),
            st: TState::Ready,
            generation: 0,
            notified: false,
            polls: 0,
            pendings: 0,
            cancel_after,
            outcome: None,
        });
        x.unfinished += 1;
        (x.tasks.len() - 1, std::mem::take(&mut x.idle))
    });
    for th in idle {
        th.unpark();
    }
    id
}
/// The task this thread is polling (or dropping), if any.
#[inline(never)]
pub fn cur_task() -> Option<TaskId> {
    X.with(|x| x.cur[tid()])
}
/// Also false if no executor has been set up.
#[inline(never)]
pub fn in_task() -> bool {
    let _m = Mode::quiet();
    cur_task().is_some()
}
#[inline(never)]
pub fn outcome(t: TaskId) -> Outcome {
    X.with(|x| x.tasks[t].outcome.clone()).expect("the executor has run")
}
#[inline(never)]
pub fn polls(t: TaskId) -> u32 {
    X.with(|x| x.tasks[t].polls)
}

enum Act {
    Poll(TaskId, BoxFut, Waker),
    Cancel(TaskId, Option<BoxFut>),
    Fire(Option<Waker>),
    Park,
    Done,
}

#[inline(never)]
fn next() -> Act {
    let c = cfg();
    X.with(|x| {
        if x.unfinished == 0 {
            return Act::Done;
        }
        let mut acts: Vec<(u8, usize)> = Vec::new();
        for (i, t) in x.tasks.iter().enumerate() {
            if t.st == TState::Ready {
                acts.push((0, i));
            }
        }
        for (i, t) in x.tasks.iter().enumerate() {
            if matches!(t.st, TState::Ready | TState::Waiting) && t.cancel_after.is_some_and(|n| t.pendings >= n) {
                acts.push((1, i));
            }
        }
        let mut timer: Option<(u64, usize)> = None;
        for (i, s) in x.sigs.iter().enumerate() {
            if s.fired || s.gone {
                continue;
            }
            match s.kind {
                SigKind::Event => acts.push((2, i)),
                SigKind::Timer(d) => {
                    if timer.is_none_or(|t| (d, i) < t) {
                        timer = Some((d, i))
                    }
                }
                SigKind::Gate(_) => {}
            }
        }
        if let Some((_, i)) = timer {
            acts.push((3, i));
        }
        let waiting: Vec<usize> =
            x.tasks.iter().enumerate().filter(|(_, t)| t.st == TState::Waiting).map(|(i, _)| i).collect();
        if !waiting.is_empty() && c.fault_scale > 0 && fault_chance(Fault::SpuriousPoll, 1 + c.fault_scale / 8, 1024) {
            let i = waiting[fault_choose(waiting.len())];
            acts = vec![(0, i)];
        }
        if acts.is_empty() {
            if x.polling == 0 {
                let stuck: Vec<String> = x
                    .tasks
                    .iter()
                    .enumerate()
                    .filter(|(_, t)| t.st != TState::Done)
                    .map(|(i, t)| format!("task {i} after {} poll(s)", t.polls))
                    .collect();
                fail("no-progress", &format!("nothing is left to happen but evaluations are unfinished: {}", stuck.join(", ")));
            }
            x.idle.push(std::thread::current());
            return Act::Park;
        }
        let (k, i) = acts[sched(acts.len())];
        match k {
            0 => {
                let t = &mut x.tasks[i];
                t.st = TState::Polling;
                t.notified = false;
                t.generation += 1;
                t.polls += 1;
                check!(t.polls < 200_000, "livelock", "task {i} was polled {} times without finishing", t.polls);
                x.polling += 1;
                x.cur[tid()] = Some(i);
                event(c"poll", i as i64, t.generation as i64);
                let w = Waker::from(Arc::new(TaskWaker { task: i, generation: t.generation }));
                Act::Poll(i, t.fut.take().expect("a future to poll"), w)
            }
            1 => {
                let t = &mut x.tasks[i];
                t.st = TState::Polling;
                x.polling += 1;
                x.cur[tid()] = Some(i);
                count_fault(Fault::Cancel);
                event(c"cancel", i as i64, t.pendings as i64);
                Act::Cancel(i, t.fut.take())
            }
            _ => {
                let s = &mut x.sigs[i];
                s.fired = true;
                event(c"fire", i as i64, k as i64);
                if let SigKind::Timer(d) = s.kind {
                    let n = crate::now_ns();
                    if d > n {
                        unsafe { crate::ffi::simrt_advance(d - n) }
                    }
                }
                Act::Fire(s.waker.take())
            }
        }
    })
}

#[inline(never)]
fn settle(i: TaskId, fut: Option<BoxFut>, out: Option<Outcome>) {
    let idle = X.with(|x| {
        x.cur[tid()] = None;
        x.polling -= 1;
        let t = &mut x.tasks[i];
        match out {
            Some(o) => {
                event(c"task-end", i as i64, matches!(o, Outcome::Done) as i64);
                t.st = TState::Done;
                t.outcome = Some(o);
                x.unfinished -= 1;
            }
            None => {
                t.fut = fut;
                t.pendings += 1;
                t.st = if t.notified { TState::Ready } else { TState::Waiting };
            }
        }
        // others may have parked because nothing but this poll could bring progress
        std::mem::take(&mut x.idle)
    });
    for th in idle {
        th.unpark();
    }
}

fn panicked(p: Box<dyn std::any::Any + Send>) -> Outcome {
    Outcome::Panicked(crate::injected(&*p), payload_text(&*p))
}

#[inline(never)]
fn worker() {
    let _q = Mode::quiet();
    loop {
        match next() {
            Act::Poll(i, mut fut, waker) => {
                let mut cx = Context::from_waker(&waker);
                let m = Mode::sut();
                let r = catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(&mut cx)));
                drop(m);
                drop(waker);
                match r {
                    Ok(Poll::Pending) => settle(i, Some(fut), None),
                    other => {
                        let mut out = match other {
                            Ok(_) => Outcome::Done,
                            Err(p) => panicked(p),
                        };
                        let m = Mode::sut();
                        if let Err(p) = catch_unwind(AssertUnwindSafe(move || drop(fut))) {
                            out = panicked(p);
                        }
                        drop(m);
                        settle(i, None, Some(out));
                    }
                }
            }
            Act::Cancel(i, fut) => {
                let m = Mode::sut();
                let r = catch_unwind(AssertUnwindSafe(move || drop(fut)));
                drop(m);
                settle(i, None, Some(match r {
                    Ok(()) => Outcome::Cancelled,
                    Err(p) => panicked(p),
                }));
            }
            Act::Fire(w) => {
                if let Some(w) = w {
                    w.wake();
                }
            }
            Act::Park => {
                let _m = Mode::open();
                std::thread::park();
            }
            Act::Done => {
                for th in X.with(|x| std::mem::take(&mut x.idle)) {
                    th.unpark();
                }
                return;
            }
        }
        let _m = Mode::open();
        crate::point();
    }
}

/// Runs all tasks to their end on `k` simulated threads (this one included).
#[inline(never)]
pub fn run(k: usize) {
    let hs: Vec<_> = (1..k.max(1)).map(|_| crate::spawn(Box::new(worker))).collect();
    worker();
    for h in hs {
        crate::join(h);
    }
}

// ------------------------------------------------------------------ leaf futures

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Step {
    /// Pending once, waking itself at once.
    Yield,
    /// Pending until the outside world decides.
    Event,
    /// Pending for this long.
    Timer(u64),
    /// Opens a gate.
    Open(usize),
    /// Pending until the gate is open.
    Gate(usize),
    /// Whoever opens the gate is polled as often as this leaf: it is open by the third poll.
    Peer(usize),
}
/// What a leaf does, besides waiting.
pub trait LeafHooks: Send {
    fn start(&mut self) {}
    /// Called when everything awaited has happened.
    fn finish(&mut self) {}
    fn dropped(&mut self, _finished: bool) {}
}
pub struct NoHooks;
impl LeafHooks for NoHooks {}

pub struct Leaf<H: LeafHooks> {
    plan: Vec<Step>,
    at: usize,
    sig: Option<usize>,
    started: bool,
    finished: bool,
    pub hooks: H,
}
impl<H: LeafHooks> Unpin for Leaf<H> {}
impl<H: LeafHooks> Leaf<H> {
    #[inline(never)]
    pub fn new(plan: Vec<Step>, hooks: H) -> Self {
        Leaf { plan, at: 0, sig: None, started: false, finished: false, hooks }
    }
}
#[inline(never)]
fn sig_new(kind: SigKind) -> usize {
    X.with(|x| {
        let fired = match kind {
            SigKind::Gate(g) => x.gates[g],
            _ => false,
        };
        x.sigs.push(Sig { kind, fired, gone: false, waker: None });
        x.sigs.len() - 1
    })
}
/// Registers the latest waker; true once the signal has fired.
#[inline(never)]
fn sig_poll(s: usize, cx: &mut Context<'_>) -> bool {
    let w = cx.waker().clone();
    let (fired, old, idle) = X.with(|x| {
        let s = &mut x.sigs[s];
        if s.fired {
            (true, Some(w), Vec::new())
        } else {
            let old = s.waker.replace(w);
            (false, old, std::mem::take(&mut x.idle))
        }
    });
    drop(old);
    for th in idle {
        th.unpark();
    }
    fired
}
#[inline(never)]
fn gate_open(g: usize) {
    let ws: Vec<Waker> = X.with(|x| {
        x.gates[g] = true;
        let mut ws = Vec::new();
        for s in x.sigs.iter_mut() {
            if s.kind == SigKind::Gate(g) && !s.fired {
                s.fired = true;
                ws.extend(s.waker.take());
            }
        }
        ws
    });
    for w in ws {
        w.wake();
    }
}
impl<H: LeafHooks> Future for Leaf<H> {
    type Output = ();
    #[inline(never)]
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let _q = Mode::open();
        let me = &mut *self;
        check!(!me.finished, "polled-after-completion", "a future was polled again after it had completed");
        if !me.started {
            me.started = true;
            me.hooks.start();
        }
        crate::point();
        let _q2 = Mode::quiet();
        loop {
            if me.at >= me.plan.len() {
                me.finished = true;
                me.hooks.finish();
                return Poll::Ready(());
            }
            match me.plan[me.at] {
                Step::Yield => {
                    if me.sig.is_none() {
                        me.sig = Some(usize::MAX);
                        cx.waker().wake_by_ref();
                        return Poll::Pending;
                    }
                }
                Step::Open(g) => gate_open(g),
                Step::Peer(g) => {
                    let polls = me.sig.map_or(0, |s| usize::MAX - s) + 1;
                    if !X.with(|x| x.gates[g]) {
                        check!(polls < 3, "held-back", "one operand was polled {polls} times before the other was started");
                        me.sig = Some(usize::MAX - polls);
                        cx.waker().wake_by_ref();
                        return Poll::Pending;
                    }
                }
                st => {
                    let s = match me.sig {
                        Some(s) => s,
                        None => {
                            let s = sig_new(match st {
                                Step::Event => SigKind::Event,
                                Step::Timer(d) => SigKind::Timer(crate::now_ns() + d),
                                Step::Gate(g) => SigKind::Gate(g),
                                _ => unreachable!(),
                            });
                            me.sig = Some(s);
                            s
                        }
                    };
                    if !sig_poll(s, cx) {
                        return Poll::Pending;
                    }
                }
            }
            me.sig = None;
            me.at += 1;
        }
    }
}
impl<H: LeafHooks> Drop for Leaf<H> {
    #[inline(never)]
    fn drop(&mut self) {
        let _q = Mode::quiet();
        if let Some(s) = self.sig
            && s < usize::MAX - 8
        {
            let w = X.with(|x| {
                x.sigs[s].gone = true;
                x.sigs[s].waker.take()
            });
            drop(w);
        }
        let f = self.finished;
        self.hooks.dropped(f);
    }
}

/// Draws a waiting plan: mostly short, of all kinds.
#[inline(never)]
pub fn draw_plan(max: usize) -> Vec<Step> {
    let n = crate::w(max + 1);
    let mut plan: Vec<Step> = (0..n)
        .map(|_| match crate::w(4) {
            0 => Step::Yield,
            1 => Step::Event,
            _ => Step::Timer(crate::w_long_ns().unwrap_or_else(|| 1000 * crate::wr(0, 20) as u64)),
        })
        .collect();
    if n > 0 && crate::wchance(1, 48) {
        // a long time busy
        let many = crate::wr(8, 140);
        plan.extend((0..many).map(|_| Step::Yield));
    }
    plan
}
