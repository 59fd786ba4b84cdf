//! Cooperative scheduler over real threads: exactly one holds the baton; at every scheduling point
//! the seeded policy (or an explicit list of switches) decides who continues.
use crate::rng::Rng;
use crate::state::*;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::thread::Thread;

#[derive(Clone, Debug)]
pub enum Policy {
    /// Follow the listed (step, thread) switches only.
    Explicit(Vec<(u64, usize)>),
    /// Switch with probability 1/den at a scheduling point: `hook` for allocator/callback/op
    /// boundaries, `cov` for memory accesses and edges.
    Random { seed: u64, hook: u64, cov: u64 },
    /// Priorities with `d` change points in the first `len` steps.
    Pct { seed: u64, d: u64, len: u64 },
    /// As Random, but one thread is stalled (not scheduled) from step `from` for `steps` steps
    /// while others can run.
    Stall { seed: u64, hook: u64, cov: u64, victim: usize, from: u64, steps: u64 },
}

pub const STEP_CAP: u64 = 3_000_000;
/// No operation may need more steps of its own than this, whatever the other threads do.
pub const OWN_CAP: u64 = 160_000;
const MAXT: usize = 7;

pub struct Sched {
    pub n: usize,
    pub live: [bool; MAXT],
    pub step: u64,
    pub policy: Policy,
    rng: Rng,
    prio: [u64; MAXT],
    change: Vec<u64>,
    pos: usize,
    pub trace: Vec<(u64, usize)>,
    pub order: u64,
    handles: [Option<Thread>; MAXT],
    driver: Option<Thread>,
    since: u64,
    pub sites: [u64; 2],
    /// Counts events a blocked thread may be waiting for; what each blocked thread has seen of them.
    pub events: u64,
    waits: [u64; MAXT],
    /// Steps each thread has taken itself in the operation it is in, and the most ever taken.
    own: [u64; MAXT],
    pub own_max: u64,
}

pub static CUR: AtomicUsize = AtomicUsize::new(NOT_SIM);
pub static S: Racy<Sched> = Racy::new(Sched {
    n: 0,
    live: [false; MAXT],
    step: 0,
    policy: Policy::Explicit(Vec::new()),
    rng: Rng(0),
    prio: [0; MAXT],
    change: Vec::new(),
    pos: 0,
    trace: Vec::new(),
    order: 0,
    handles: [const { None }; MAXT],
    driver: None,
    since: 0,
    sites: [0; 2],
    events: 1,
    waits: [0; MAXT],
    own: [0; MAXT],
    own_max: 0,
});

#[derive(Clone, Copy, PartialEq)]
pub enum Site {
    Cov,
    Hook,
}

impl Sched {
    fn others(&self, me: usize) -> usize {
        (0..self.n).filter(|&i| i != me && self.live[i]).count()
    }
    fn random_other(&mut self, me: usize, avoid: usize) -> Option<usize> {
        let mut c: Vec<usize> =
            (0..self.n).filter(|&i| i != me && self.live[i] && i != avoid).collect();
        if c.is_empty() {
            c = (0..self.n).filter(|&i| i != me && self.live[i]).collect();
        }
        if c.is_empty() {
            None
        } else {
            Some(c[self.rng.below(c.len() as u64) as usize])
        }
    }
    /// Who runs next, if not `me`. `me_live` is false when `me` has just finished.
    fn decide(&mut self, me: usize, site: Site, me_live: bool) -> Option<usize> {
        if self.others(me) == 0 {
            return None;
        }
        let step = self.step;
        match &self.policy {
            Policy::Explicit(list) => {
                while self.pos < list.len() && list[self.pos].0 < step {
                    self.pos += 1;
                }
                if self.pos < list.len() && list[self.pos].0 == step {
                    let t = list[self.pos].1;
                    self.pos += 1;
                    if t < self.n && self.live[t] && t != me {
                        return Some(t);
                    }
                }
                if me_live {
                    None
                } else {
                    (0..self.n).find(|&i| self.live[i])
                }
            }
            Policy::Random { hook, cov, .. } => {
                let den = if site == Site::Hook { *hook } else { *cov };
                if !me_live || (den != 0 && self.rng.below(den) == 0) {
                    self.random_other(me, NOT_SIM)
                } else {
                    None
                }
            }
            Policy::Stall { hook, cov, victim, from, steps, .. } => {
                let den = if site == Site::Hook { *hook } else { *cov };
                let v = *victim;
                let stalled = step >= *from && step < *from + *steps;
                if stalled && me == v {
                    return self.random_other(me, NOT_SIM);
                }
                let avoid = if stalled { v } else { NOT_SIM };
                if !me_live || (den != 0 && self.rng.below(den) == 0) {
                    let t = self.random_other(me, avoid);
                    if t == Some(avoid) && me_live { None } else { t }
                } else {
                    None
                }
            }
            Policy::Pct { .. } => {
                if self.pos < self.change.len() && step >= self.change[self.pos] {
                    self.pos += 1;
                    self.prio[me] = self.pos as u64; // lower than every initial priority
                } else if me_live {
                    return None;
                }
                let best = (0..self.n).filter(|&i| self.live[i]).max_by_key(|&i| self.prio[i])?;
                if best == me && me_live { None } else { Some(best) }
            }
        }
    }
}

fn hand_to(to: usize) {
    let s = S.get();
    CUR.store(to, Ordering::Release);
    s.handles[to].as_ref().unwrap().unpark();
}

fn wait_for_baton(me: usize) {
    let mut spins = 0;
    while CUR.load(Ordering::Acquire) != me {
        spins += 1;
        if spins < 200 {
            std::hint::spin_loop();
        } else {
            std::thread::park();
        }
    }
}

#[cold]
fn too_long() -> ! {
    // A run that needs this many steps is not making progress.
    IN_LIB.with(|c| c.set(false));
    TID.with(|t| t.set(NOT_SIM));
    S.get().step = 0;
    report("no-progress", format!("run exceeded {} simulated steps", STEP_CAP));
    (HANG.get())();
    unsafe { _exit(9) }
}

pub static HANG: Racy<fn()> = Racy::new(|| {});
extern "C" {
    fn _exit(code: i32) -> !;
}

/// A scheduling point.
#[inline]
pub fn point(site: Site) {
    let me = TID.with(|t| t.get());
    if me == NOT_SIM {
        // Driver-thread phases (setup, audit) are sequential, but must still be bounded.
        let s = S.get();
        s.step += 1;
        if s.step > STEP_CAP {
            too_long();
        }
        return;
    }
    let s = S.get();
    s.step += 1;
    s.sites[(site == Site::Hook) as usize] += 1;
    s.own[me] += 1;
    if s.step > STEP_CAP || s.own[me] > OWN_CAP {
        too_long();
    }
    if s.n > 1 {
        slow(s, me, site);
    }
}

fn slow(s: &mut Sched, me: usize, site: Site) {
    let was = IN_LIB.with(|c| c.replace(false));
    s.since += 1;
    let mut next = s.decide(me, site, true);
    if next.is_none() && s.since > 200_000 {
        next = s.random_other(me, NOT_SIM); // no policy may starve the others for ever
    }
    if let Some(t) = next {
        s.since = 0;
        s.trace.push((s.step, t));
        s.order = crate::rng::mix(s.order ^ s.step ^ ((t as u64) << 48));
        hand_to(t);
        wait_for_baton(me);
    }
    IN_LIB.with(|c| c.set(was));
}

/// The calling thread starts an operation.
pub fn op_begin() {
    let me = TID.with(|t| t.get());
    if me != NOT_SIM {
        let s = S.get();
        s.own_max = s.own_max.max(s.own[me]);
        s.own[me] = 0;
    }
}

/// The calling thread cannot continue before another thread does something: hands the baton over.
/// False if no other thread is left.
pub fn block() -> bool {
    let me = TID.with(|t| t.get());
    let s = S.get();
    s.step += 1;
    if s.step > STEP_CAP {
        too_long();
    }
    if me == NOT_SIM || s.others(me) == 0 {
        return false;
    }
    s.waits[me] = s.events;
    if (0..s.n).all(|i| !s.live[i] || s.waits[i] == s.events) {
        s.waits[me] = 0;
        return false; // everybody waits, nothing will come
    }
    let was = IN_LIB.with(|c| c.replace(false));
    let step = s.step;
    let listed = match &s.policy {
        Policy::Explicit(list) => list.iter().find(|x| x.0 == step).map(|x| x.1),
        _ => s.random_other(me, NOT_SIM),
    };
    let t = match listed {
        Some(t) if t < s.n && s.live[t] && t != me => t,
        _ => (1..s.n).map(|k| (me + k) % s.n).find(|&i| s.live[i]).unwrap(),
    };
    s.since = 0;
    s.trace.push((s.step, t));
    s.order = crate::rng::mix(s.order ^ s.step ^ ((t as u64) << 48));
    hand_to(t);
    wait_for_baton(me);
    s.waits[me] = 0;
    IN_LIB.with(|c| c.set(was));
    true
}

/// Prepares a run of `n` threads.
pub fn begin(n: usize, policy: Policy) {
    let s = S.get();
    s.n = n;
    s.step = 0;
    s.pos = 0;
    s.since = 0;
    s.order = 0;
    s.trace.clear();
    s.sites = [0; 2];
    s.events = 1;
    s.waits = [0; MAXT];
    s.own = [0; MAXT];
    s.change.clear();
    let seed = match &policy {
        Policy::Random { seed, .. } | Policy::Pct { seed, .. } | Policy::Stall { seed, .. } => *seed,
        _ => 0,
    };
    s.rng = Rng::new(seed);
    if let Policy::Pct { d, len, .. } = &policy {
        for i in 0..MAXT {
            s.prio[i] = 1000 + s.rng.below(1 << 40);
        }
        for _ in 0..*d {
            let at = 1 + s.rng.below(*len);
            s.change.push(at);
        }
        s.change.sort_unstable();
    }
    s.policy = policy;
    for i in 0..MAXT {
        s.live[i] = i < n;
    }
    s.driver = Some(std::thread::current());
}

pub fn set_handle(i: usize, t: Thread) {
    S.get().handles[i] = Some(t);
}

/// Driver: starts the threads and returns when all have finished.
pub fn drive() {
    let s = S.get();
    if s.n == 0 {
        return;
    }
    let first = match &s.policy {
        Policy::Explicit(list) => list.iter().find(|x| x.0 == 0).map_or(0, |x| x.1.min(s.n - 1)),
        Policy::Pct { .. } => (0..s.n).max_by_key(|&i| s.prio[i]).unwrap(),
        _ => s.rng.below(s.n as u64) as usize,
    };
    s.trace.push((0, first));
    hand_to(first);
    wait_for_baton(usize::MAX - 1);
}

/// Worker: waits until first scheduled.
pub fn enter(me: usize) {
    TID.with(|t| t.set(me));
    wait_for_baton(me);
}

/// Worker: this thread's script is finished.
pub fn leave(me: usize) {
    let s = S.get();
    s.step += 1;
    s.live[me] = false;
    let next = s.decide(me, Site::Hook, false).or_else(|| (0..s.n).find(|&i| s.live[i]));
    match next {
        Some(t) => {
            s.trace.push((s.step, t));
            s.order = crate::rng::mix(s.order ^ s.step ^ ((t as u64) << 48));
            TID.with(|c| c.set(NOT_SIM));
            hand_to(t);
        }
        None => {
            let d = s.driver.clone().unwrap();
            TID.with(|c| c.set(NOT_SIM));
            CUR.store(usize::MAX - 1, Ordering::Release);
            d.unpark();
        }
    }
}
