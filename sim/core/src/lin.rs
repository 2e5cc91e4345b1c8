//! Linearizability checking of small histories (Wing & Gong search with memoisation).
use std::collections::HashSet;
use std::hash::Hash;

#[derive(Clone, Debug)]
pub struct Call<O> {
    pub op: O,
    pub inv: u64,
    pub ret: u64,
}

/// `step(state, op)` gives the successor state if `op` (with its observed result) is legal.
pub fn linearizable<S: Clone + Eq + Hash, O>(init: S, calls: &[Call<O>], step: &dyn Fn(&S, &O) -> Option<S>) -> bool {
    assert!(calls.len() <= 64);
    let full: u64 = if calls.len() == 64 { u64::MAX } else { (1u64 << calls.len()) - 1 };
    let mut seen: HashSet<(u64, S)> = HashSet::new();
    let mut stack = vec![(0u64, init)];
    while let Some((done, st)) = stack.pop() {
        if done == full {
            return true;
        }
        if !seen.insert((done, st.clone())) {
            continue;
        }
        // the earliest return among the calls not linearized yet bounds who may come next
        let bound = calls.iter().enumerate().filter(|(i, _)| done >> i & 1 == 0).map(|(_, c)| c.ret).min().unwrap();
        for (i, c) in calls.iter().enumerate() {
            if done >> i & 1 == 0 && c.inv <= bound {
                if let Some(n) = step(&st, &c.op) {
                    stack.push((done | 1 << i, n));
                }
            }
        }
    }
    false
}

/// A strictly increasing logical clock for call/return stamps.
static CLOCK: crate::Global<u64> = crate::Global::empty();
#[inline(never)]
pub fn reset() {
    CLOCK.set(0);
}
#[inline(never)]
pub fn stamp() -> u64 {
    CLOCK.with(|c| {
        *c += 1;
        *c
    })
}
