//! Deterministic simulation of rustica: scenarios, oracles and the command line.
mod asyncm;
mod carrier;
mod carrier_mine;
mod carrier_more;
mod compose;
mod io;
mod iort;
mod memo;
mod cont;
mod reader;
mod side;
mod state;
mod statev;
mod traverse;
mod util;
mod vasync;

use simcore::explore::{Info, Registry, Scenario};

fn main() {
    side::register();
    let mut scenarios: Vec<Scenario> = Vec::new();
    let mut infos: Vec<Info> = Vec::new();
    asyncm::register(&mut scenarios, &mut infos);
    vasync::register(&mut scenarios, &mut infos);
    iort::register(&mut scenarios, &mut infos);
    io::register(&mut scenarios, &mut infos);
    rsim_pvec::register(&mut scenarios, &mut infos);
    state::register(&mut scenarios, &mut infos);
    statev::register(&mut scenarios);
    reader::register(&mut scenarios, &mut infos);
    cont::register(&mut scenarios, &mut infos);
    traverse::register(&mut scenarios, &mut infos);
    compose::register(&mut scenarios, &mut infos);
    carrier::register(&mut scenarios, &mut infos);
    memo::register(&mut scenarios, &mut infos);
    infos.push(Info {
        prop: "C16",
        rule: "The workloads of C01-C12, C14, C15 and C17-C19 over tracked values, keys, closures and futures: with panics in user code and element clones, cancelled evaluations, dropped awaits and IOs that are never run; every value must be dropped exactly once and never used afterwards, and none may be alive once the last handle is gone.",
        real: "PersistentVector, Memoizer, IO (with tokio), AsyncM, State, StateT, Reader, ReaderT, Cont, ContT, Arc, SmallVec, unwinding",
        stub: "thread scheduling, futex waits and wakes, clocks, the executor of AsyncM evaluations; user functions are logging callbacks",
        counters: &[],
    });
    let verif_dir = std::env::var_os("VERIF_DIR").map(Into::into).unwrap_or_else(|| std::path::PathBuf::from("/verif"));
    std::process::exit(simcore::explore::main(Registry { scenarios, infos, verif_dir }));
}
