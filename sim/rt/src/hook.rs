//! Entry into library code, and the points where user code called by it can be made to fail.
use crate::sched::{point, Site};
use crate::state::*;
use std::cell::Cell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

/// Where a fault can be injected.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Fault {
    None = 0,
    AllocFail,
    ClonePanic,
    CmpPanic,
    FmtPanic,
    FmtErr,
    SinkErr,
    SinkPanic,
    CallbackPanic,
}
pub const FAULT_NAMES: [&str; 9] = [
    "none", "alloc-fail", "clone-panic", "cmp-panic", "fmt-panic", "fmt-err", "sink-err", "sink-panic",
    "callback-panic",
];
pub fn fault_from(s: &str) -> Fault {
    match FAULT_NAMES.iter().position(|n| *n == s) {
        Some(1) => Fault::AllocFail,
        Some(2) => Fault::ClonePanic,
        Some(3) => Fault::CmpPanic,
        Some(4) => Fault::FmtPanic,
        Some(5) => Fault::FmtErr,
        Some(6) => Fault::SinkErr,
        Some(7) => Fault::SinkPanic,
        Some(8) => Fault::CallbackPanic,
        _ => Fault::None,
    }
}

thread_local! {
    static KIND: Cell<Fault> = const { Cell::new(Fault::None) };
    static NTH: Cell<u64> = const { Cell::new(0) };
    static SEEN: Cell<u64> = const { Cell::new(0) };
    static FIRED: Cell<bool> = const { Cell::new(false) };
    /// An allocation failed, so do all others until the operation is over.
    static DOWN: Cell<bool> = const { Cell::new(false) };
}

pub struct SimPanic(pub Fault);

pub enum Outcome<R> {
    Ok(R),
    /// Unwound; true if by a panic the simulator injected into user code.
    Panic(bool, String),
}
impl<R> Outcome<R> {
    pub fn map<T>(self, f: impl FnOnce(R) -> T) -> Outcome<T> {
        match self {
            Outcome::Ok(r) => Outcome::Ok(f(r)),
            Outcome::Panic(a, b) => Outcome::Panic(a, b),
        }
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Outcome::Ok(_))
    }
}

/// From here on a failing allocation is a passing one: the next may succeed.
pub const PASSING: u64 = 8;
pub fn arm(kind: Fault, nth: u64) {
    KIND.with(|k| k.set(kind));
    NTH.with(|k| k.set(nth));
    DOWN.with(|k| k.set(false));
    SEEN.with(|k| k.set(0));
    FIRED.with(|k| k.set(false));
}
/// Disarms and tells whether the armed fault fired.
pub fn disarm() -> bool {
    KIND.with(|k| k.set(Fault::None));
    DOWN.with(|k| k.set(false));
    FIRED.with(|k| k.get())
}
pub fn armed() -> (Fault, u64) {
    (KIND.with(|k| k.get()), NTH.with(|k| k.get()))
}
pub fn fired() -> bool {
    FIRED.with(|k| k.get())
}
pub fn mark_fired() {
    FIRED.with(|k| k.set(true));
    let k = KIND.with(|k| k.get());
    count(crate::state::N_COUNTERS - 16 + k as usize);
    KIND.with(|k| k.set(Fault::None));
}
/// Counts one opportunity for `kind`; true if the armed fault fires here.
pub fn try_fire(kind: Fault) -> bool {
    if kind == Fault::AllocFail && DOWN.with(|k| k.get()) {
        return true;
    }
    if KIND.with(|k| k.get()) != kind {
        return false;
    }
    let n = SEEN.with(|s| {
        s.set(s.get() + 1);
        s.get()
    });
    let nth = NTH.with(|k| k.get());
    if kind == Fault::AllocFail && nth < PASSING && n == nth {
        DOWN.with(|k| k.set(true));
    }
    if n == if kind == Fault::AllocFail { nth % PASSING } else { nth } {
        mark_fired();
        return true;
    }
    false
}

struct Restore(bool);
impl Drop for Restore {
    fn drop(&mut self) {
        IN_LIB.with(|c| c.set(self.0));
    }
}

/// Runs `f` as simulator/user code although called from inside the library.
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
    let _r = Restore(IN_LIB.with(|c| c.replace(false)));
    f()
}
/// Runs `f` as code under test (allocations count, accesses are schedulable).
pub fn inside<R>(f: impl FnOnce() -> R) -> R {
    let _r = Restore(IN_LIB.with(|c| c.replace(true)));
    f()
}
pub fn in_lib() -> bool {
    IN_LIB.with(|c| c.get())
}

/// Calls into the library. Every unwinding panic is caught.
pub fn call<R>(f: impl FnOnce() -> R) -> Outcome<R> {
    let r = {
        let _r = Restore(IN_LIB.with(|c| c.replace(true)));
        catch_unwind(AssertUnwindSafe(f))
    };
    match r {
        Ok(r) => Outcome::Ok(r),
        Err(p) => {
            if p.is::<SimPanic>() {
                Outcome::Panic(true, String::new())
            } else {
                let m = if let Some(s) = p.downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = p.downcast_ref::<String>() {
                    s.clone()
                } else {
                    "?".to_string()
                };
                drop(p);
                Outcome::Panic(false, m)
            }
        }
    }
}

pub fn sim_panic(kind: Fault) -> ! {
    let _r = Restore(IN_LIB.with(|c| c.replace(false)));
    let b: Box<dyn std::any::Any + Send> = Box::new(SimPanic(kind));
    resume_unwind(b)
}

/// A user-code call made by the library: a scheduling point where a panic may be injected.
pub fn user_code(kind: Fault) {
    if !in_lib() {
        return;
    }
    let fire = outside(|| {
        point(Site::Hook);
        !std::thread::panicking() && try_fire(kind)
    });
    if fire {
        sim_panic(kind);
    }
}
/// As `user_code`, but for a formatter that may report an error (true) instead.
pub fn user_fmt() -> bool {
    if !in_lib() {
        return false;
    }
    let (p, e) = outside(|| {
        point(Site::Hook);
        if std::thread::panicking() {
            (false, false)
        } else {
            (try_fire(Fault::FmtPanic), try_fire(Fault::FmtErr))
        }
    });
    if p {
        sim_panic(Fault::FmtPanic);
    }
    e
}
/// A scheduling point without fault.
pub fn yield_here() {
    outside(|| point(Site::Hook));
}
