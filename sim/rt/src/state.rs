//! Per-thread and per-run state. Exactly one simulated thread runs at a time (the scheduler's baton),
//! so the global state is never accessed concurrently.
use std::cell::{Cell, UnsafeCell};

pub const NOT_SIM: usize = usize::MAX;

thread_local! {
    /// Inside a library call (so allocations are the library's and memory accesses are schedulable).
    pub static IN_LIB: Cell<bool> = const { Cell::new(false) };
    /// Simulated thread id, NOT_SIM on the driver thread.
    pub static TID: Cell<usize> = const { Cell::new(NOT_SIM) };
    /// Live heap blocks gained minus lost by this thread in the simulated heap.
    pub static NET: Cell<i64> = const { Cell::new(0) };
    /// Zero-sized tracked values created minus dropped by this thread.
    pub static ZNET: Cell<i64> = const { Cell::new(0) };
    /// Index of the operation this thread is executing.
    pub static OP: Cell<usize> = const { Cell::new(0) };
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub detail: String,
    pub tid: usize,
    pub op: usize,
}

pub const N_COUNTERS: usize = 96;

pub struct Global {
    pub violation: Option<Violation>,
    /// Other classes seen by the same operation before the run ended.
    pub also: Vec<Violation>,
    /// Hash of every observable event so far, per thread (schedule-independent) ...
    pub log: [u64; 8],
    /// ... and of the global order of events and switches.
    pub order: u64,
    pub text_log: Option<Vec<String>>,
    pub counters: [u64; N_COUNTERS],
}

pub struct Racy<T>(pub UnsafeCell<T>);
unsafe impl<T> Sync for Racy<T> {}
impl<T> Racy<T> {
    pub const fn new(t: T) -> Self {
        Racy(UnsafeCell::new(t))
    }
    #[allow(clippy::mut_from_ref)]
    pub fn get(&self) -> &mut T {
        unsafe { &mut *self.0.get() }
    }
}

pub static G: Racy<Global> = Racy::new(Global {
    violation: None,
    also: Vec::new(),
    log: [0; 8],
    order: 0,
    text_log: None,
    counters: [0; N_COUNTERS],
});

/// Records a violation: the first of the run, or another class seen by the same operation.
#[inline(never)]
pub fn report(class: &str, detail: String) {
    let was = IN_LIB.with(|c| c.replace(false));
    let g = G.get();
    let tid = TID.with(|t| t.get());
    let v = Violation {
        class: class.to_string(),
        detail,
        tid: if tid == NOT_SIM { 9 } else { tid },
        op: OP.with(|o| o.get()),
    };
    match &g.violation {
        None => g.violation = Some(v),
        Some(f) => {
            let new = f.class != v.class && g.also.iter().all(|x| x.class != v.class);
            if f.tid == v.tid && f.op == v.op && new && g.also.len() < 6 {
                g.also.push(v);
            }
        }
    }
    IN_LIB.with(|c| c.set(was));
}

#[inline(never)]
pub fn violated() -> bool {
    G.get().violation.is_some()
}

#[inline(never)]
pub fn count(i: usize) {
    G.get().counters[i] += 1;
}

/// Adds an observable event to the calling thread's log.
#[inline(never)]
pub fn log(f: impl FnOnce() -> String) {
    let was = IN_LIB.with(|c| c.replace(false));
    let s = f();
    let g = G.get();
    let tid = TID.with(|t| t.get());
    let i = if tid == NOT_SIM { 7 } else { tid };
    let mut h = g.log[i];
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    h = (h ^ 0xff).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(13);
    g.log[i] = h;
    g.order = crate::rng::mix(g.order ^ h ^ ((i as u64) << 56));
    if let Some(t) = &mut g.text_log {
        t.push(format!("{} {}", i, s));
    }
    IN_LIB.with(|c| c.set(was));
}
