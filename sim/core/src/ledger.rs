//! Tracked values: every creation, clone, use and drop is accounted for.
use crate::{Fault, Global, Injected, event, fail};

pub struct Ledger {
    state: Vec<u8>, // 1 alive, 2 dropped
    live: usize,
    /// Per thread: panic in the n-th clone from now (0: off).
    clone_bomb: [u32; 64],
    fired: [bool; 64],
}
static L: Global<Ledger> = Global::empty();
const MAGIC: u64 = 0x5EED_1234_ABCD_0000;

#[inline(never)]
pub fn reset() {
    L.set(Ledger { state: Vec::new(), live: 0, clone_bomb: [0; 64], fired: [false; 64] });
}
#[inline(never)]
pub fn live() -> usize {
    L.with(|l| l.live)
}
#[inline(never)]
pub fn created() -> usize {
    L.with(|l| l.state.len())
}
#[inline(never)]
/// Lets the calling thread's n-th clone from now panic.
pub fn arm_clone_bomb(n: u32) {
    let t = crate::tid() & 63;
    L.with(|l| {
        l.clone_bomb[t] = n;
        l.fired[t] = false;
    })
}
#[inline(never)]
pub fn disarm_clone_bomb() -> bool {
    let t = crate::tid() & 63;
    L.with(|l| {
        l.clone_bomb[t] = 0;
        std::mem::take(&mut l.fired[t])
    })
}
#[inline(never)]
fn birth() -> u32 {
    L.with(|l| {
        l.state.push(1);
        l.live += 1;
        (l.state.len() - 1) as u32
    })
}
#[inline(never)]
fn death(id: u32, magic: u64) {
    L.with(|l| {
        if magic != MAGIC ^ id as u64 || id as usize >= l.state.len() {
            fail("bad-drop", "a value was dropped that is not (or no longer) a valid value");
        }
        if l.state[id as usize] != 1 {
            fail("double-drop", &format!("value #{id} was dropped twice"));
        }
        l.state[id as usize] = 2;
        l.live -= 1;
    })
}
#[inline(never)]
fn alive(id: u32, magic: u64) {
    L.with(|l| {
        if magic != MAGIC ^ id as u64 || l.state.get(id as usize) != Some(&1) {
            fail("use-after-drop", &format!("value #{id} was used after it had been dropped"));
        }
    })
}

/// A tracked value.  Equality, order and hash are those of the payload.
pub struct Tok {
    id: u32,
    val: i64,
    magic: u64,
    /// Heap part, so that a bitwise duplicate is a real double free for the allocator too.
    heap: Box<u64>,
}
impl Tok {
    #[inline(never)]
    pub fn new(val: i64) -> Tok {
        let id = birth();
        Tok { id, val, magic: MAGIC ^ id as u64, heap: Box::new(id as u64) }
    }
    #[inline(never)]
    pub fn val(&self) -> i64 {
        alive(self.id, self.magic);
        self.val
    }
    /// A new value derived from this one.
    #[inline(never)]
    pub fn with(&self, val: i64) -> Tok {
        alive(self.id, self.magic);
        Tok::new(val)
    }
}
impl Clone for Tok {
    #[inline(never)]
    fn clone(&self) -> Tok {
        alive(self.id, self.magic);
        let t = crate::tid() & 63;
        let boom = L.with(|l| {
            let b = &mut l.clone_bomb[t];
            if *b > 0 {
                *b -= 1;
                if *b == 0 {
                    l.fired[t] = true;
                    return true;
                }
            }
            false
        });
        if boom {
            crate::count_fault(Fault::ClonePanic);
            event(c"clone-panics", self.id as i64, 0);
            std::panic::panic_any(Injected(900));
        }
        let mut t = Tok::new(self.val);
        crate::fx::reenter();
        *t.heap ^= *self.heap & 0;
        t
    }
}
impl Drop for Tok {
    #[inline(never)]
    fn drop(&mut self) {
        death(self.id, self.magic);
        self.magic = 0xDEAD;
        crate::fx::reenter();
    }
}
impl std::fmt::Debug for Tok {
    #[inline(never)]
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.val())
    }
}
impl PartialEq for Tok {
    #[inline(never)]
    fn eq(&self, o: &Tok) -> bool {
        self.val() == o.val()
    }
}
impl Eq for Tok {}
impl PartialOrd for Tok {
    #[inline(never)]
    fn partial_cmp(&self, o: &Tok) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tok {
    #[inline(never)]
    fn cmp(&self, o: &Tok) -> std::cmp::Ordering {
        self.val().cmp(&o.val())
    }
}
impl std::hash::Hash for Tok {
    #[inline(never)]
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.val().hash(h)
    }
}

/// What adding and multiplying values gives; the order of the operands matters.
pub fn add(a: i64, b: i64) -> i64 {
    (a * 7 + b * 3 + 1) & 0xffff
}
pub fn mul(a: i64, b: i64) -> i64 {
    (a * 5 + b * 11 + 2) & 0xffff
}
impl std::ops::Add for Tok {
    type Output = Tok;
    fn add(self, o: Tok) -> Tok {
        self.with(add(self.val(), o.val()))
    }
}
impl std::ops::Mul for Tok {
    type Output = Tok;
    fn mul(self, o: Tok) -> Tok {
        self.with(mul(self.val(), o.val()))
    }
}

/// Everything must be gone.
#[inline(never)]
pub fn check_empty(what: &str) {
    let n = live();
    if n != 0 {
        let ids: Vec<usize> = L.with(|l| l.state.iter().enumerate().filter(|x| *x.1 == 1).map(|x| x.0).take(8).collect());
        fail("leak", &format!("{n} value(s) still alive {what} (of {} created; first: {ids:?})", created()));
    }
}
impl Default for Tok {
    fn default() -> Tok {
        Tok::new(0)
    }
}
