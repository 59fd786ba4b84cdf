//! SanitizerCoverage callbacks: every edge, load and store executed by instrumented code inside a
//! library call is a scheduling point. Edges also measure which library code was reached.
use crate::sched::{point, Site};
use crate::state::*;
use std::sync::atomic::{AtomicU32, Ordering};

static NEXT: AtomicU32 = AtomicU32::new(1);
pub const MAP: usize = 1 << 20;
pub static HIT: Racy<[u8; MAP]> = Racy::new([0; MAP]);

pub fn total() -> u32 {
    NEXT.load(Ordering::Relaxed) - 1
}
pub fn hit() -> u64 {
    HIT.get().iter().map(|x| *x as u64).sum()
}

#[inline(always)]
fn access() {
    if IN_LIB.with(|c| c.get()) {
        point(Site::Cov);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    while start < stop {
        *start = NEXT.fetch_add(1, Ordering::Relaxed);
        start = start.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if IN_LIB.with(|c| c.get()) {
        let i = *g as usize;
        if i < MAP {
            HIT.get()[i] = 1;
        }
        point(Site::Cov);
    }
}
macro_rules! cb { ($($n:ident)*) => { $(#[no_mangle] pub extern "C" fn $n(_: *const u8) { access() })* } }
cb! {
    __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16
}
