//! Life of every tracked value: who should own it, and whether its destructor ran.
//!
//! Nothing here may be inlined into the workload crate: that one is instrumented, and a thread switch
//! half way through a look at the ledger would let another thread change it meanwhile.
use crate::rng::mix;
use crate::state::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Own {
    /// Created, not (yet) inside a box as far as the model knows.
    Free,
    /// Owned by a box: must not be dropped.
    Boxed,
    /// Its box was dropped or replaced: may be dropped once (or leak).
    Doomed,
    Dropped,
}

#[derive(Clone, Copy)]
pub struct Info {
    pub content: u64,
    pub own: Own,
    pub tid: usize,
    pub op: usize,
}

pub struct Ledger {
    pub epoch: u64,
    pub toks: Vec<Info>,
    pub collect: Option<Vec<u32>>,
    /// What the handles without a destructor stand for.
    pub hnds: Vec<u64>,
}
pub static L: Racy<Ledger> = Racy::new(Ledger { epoch: 0, toks: Vec::new(), collect: None, hnds: Vec::new() });

#[inline(never)]
pub fn begin() {
    let l = L.get();
    l.epoch += 1;
    l.toks.clear();
    l.toks.reserve(4096);
    l.collect = None;
    l.hnds.clear();
    l.hnds.reserve(4096);
}
#[inline(never)]
pub fn cookie(id: u32, content: u64) -> u64 {
    mix(L.get().epoch.wrapping_mul(0x9E37_79B9) ^ ((id as u64) << 32) ^ mix(content)) | 1
}
#[inline(never)]
pub fn new_tok(content: u64) -> u32 {
    crate::outside(|| {
        let l = L.get();
        let tid = TID.with(|t| t.get());
        l.toks.push(Info { content, own: Own::Free, tid, op: OP.with(|o| o.get()) });
        (l.toks.len() - 1) as u32
    })
}
#[inline(never)]
pub fn get(id: u32) -> Option<Info> {
    L.get().toks.get(id as usize).copied()
}
#[inline(never)]
pub fn set(id: u32, own: Own) {
    if let Some(t) = L.get().toks.get_mut(id as usize) {
        t.own = own;
    }
}
/// A destructor ran on a value that identifies as `id`.
#[inline(never)]
pub fn dropped(id: u32, cookie_ok: bool) {
    crate::outside(|| {
        let l = L.get();
        if !cookie_ok || id as usize >= l.toks.len() {
            report("garbage-dropped", "destructor ran on bytes that are not a live value".into());
            return;
        }
        let t = &mut l.toks[id as usize];
        match t.own {
            Own::Dropped => report("double-drop", format!("value #{} dropped a second time", id)),
            Own::Boxed => report("early-drop", format!("value #{} dropped while stored in a box", id)),
            _ => t.own = Own::Dropped,
        }
    })
}
/// User code was handed a reference to a value that identifies as `id`.
#[inline(never)]
pub fn observed(id: u32, cookie_ok: bool) -> bool {
    crate::outside(|| {
        let l = L.get();
        if !cookie_ok || id as usize >= l.toks.len() {
            report("garbage-observed", "user code was shown bytes that are not a live value".into());
            return false;
        }
        if l.toks[id as usize].own == Own::Dropped {
            report("dropped-observed", format!("user code was shown dropped value #{}", id));
            return false;
        }
        if !in_flight() {
            if let Some(c) = &mut l.collect {
                c.push(id);
            }
        }
        true
    })
}
fn in_flight() -> bool {
    false
}
/// Values created by this thread during operation `op` that are still unowned.
#[inline(never)]
pub fn free_since(start: usize) -> Vec<u32> {
    let me = TID.with(|t| t.get());
    let op = OP.with(|o| o.get());
    let l = L.get();
    (start..l.toks.len())
        .filter(|&i| l.toks[i].tid == me && l.toks[i].op == op && l.toks[i].own == Own::Free)
        .map(|i| i as u32)
        .collect()
}

#[inline(never)]
pub fn new_hnd(content: u64) -> u32 {
    crate::outside(|| {
        let l = L.get();
        l.hnds.push(content);
        (l.hnds.len() - 1) as u32
    })
}
#[inline(never)]
pub fn hnd(id: u32) -> Option<u64> {
    L.get().hnds.get(id as usize).copied()
}
#[inline(never)]
pub fn garbage_seen() {
    report("garbage-observed", "user code was shown bytes that are not a live value".into());
}
