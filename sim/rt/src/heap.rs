//! The simulated heap. Allocations made by code under test are placed by the run's policy (zone,
//! minimal alignment, immediate reuse), surrounded by guard bytes, filled with a pattern, poisoned on
//! free, and may fail. Everything else goes to the system allocator.
use crate::hook::{self, Fault};
use crate::rng::Rng;
use crate::sched::{point, Site};
use crate::state::*;
use std::alloc::{GlobalAlloc, Layout, System};

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

pub const NZONES: usize = 8;
const ZSIZE: usize = 8 << 20;
// Around powers of two and at both ends of the user address range, away from ASLR regions.
const ZBASE: [usize; NZONES] = [
    0x0001_0000,
    0x7fe0_0000,
    0xffe0_0000,
    0x00ff_ffe0_0000,
    0x2aaa_aaa0_0000,
    0x3fff_ffe0_0000,
    0x4fff_ffe0_0000,
    0x7bff_ffe0_0000,
];
fn zlen(z: usize) -> usize {
    if z == 0 { 2 << 20 } else { ZSIZE }
}
const PRE: usize = 48;
const POST: usize = 32;
const MAGIC: u64 = 0xB10C_5EED_0DD5_1DE5;
const GUARD: u8 = 0x6B;
const POISON: u8 = 0xD9;

#[derive(Clone, Copy)]
pub struct Block {
    pub addr: usize,
    pub size: usize,
    pub align: usize,
    pub live: bool,
    pub reused: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct HeapCfg {
    pub seed: u64,
    /// zone index, or NZONES = a different one each time
    pub zone: usize,
    /// 0 = never reuse (quarantine), 1 = reuse last freed block of the same layout at once
    pub reuse: u8,
    /// fill byte of fresh blocks
    pub fill: u8,
}

pub struct Heap {
    pub ready: bool,
    pub on: bool,
    pub cfg: HeapCfg,
    rng: Rng,
    bump: [usize; NZONES],
    pub blocks: Vec<Block>,
    pub allocs: u64,
    pub frees: u64,
    pub reuses: u64,
}
pub static H: Racy<Heap> = Racy::new(Heap {
    ready: false,
    on: false,
    cfg: HeapCfg { seed: 0, zone: 0, reuse: 0, fill: 0 },
    rng: Rng(0),
    bump: [0; NZONES],
    blocks: Vec::new(),
    allocs: 0,
    frees: 0,
    reuses: 0,
});

/// Maps the zones. False if the address space does not allow it.
pub fn init() -> bool {
    for z in 0..NZONES {
        // PROT_READ|WRITE, MAP_PRIVATE|ANON|NORESERVE|FIXED_NOREPLACE
        let p = unsafe { mmap(ZBASE[z] as *mut u8, zlen(z), 3, 0x2 | 0x20 | 0x4000 | 0x10_0000, -1, 0) };
        if p as usize != ZBASE[z] {
            return false;
        }
    }
    H.get().ready = true;
    true
}

pub fn zone_of(addr: usize) -> Option<usize> {
    (0..NZONES).find(|&z| addr >= ZBASE[z] && addr < ZBASE[z] + zlen(z))
}

pub fn begin(cfg: HeapCfg) {
    let h = H.get();
    h.cfg = cfg;
    h.rng = Rng::new(cfg.seed);
    for z in 0..NZONES {
        // Start just below the power-of-two boundary in the middle of some zones.
        let off = match z {
            1 | 2 | 3 | 5 | 6 | 7 => (2 << 20) - h.rng.below(2048) as usize,
            _ => h.rng.below(4096) as usize,
        };
        h.bump[z] = ZBASE[z] + off;
    }
    h.blocks.clear();
    h.allocs = 0;
    h.frees = 0;
    h.reuses = 0;
    h.on = true;
}

unsafe fn guards(b: &Block) -> bool {
    let pre = std::slice::from_raw_parts((b.addr - POST) as *const u8, POST);
    let post = std::slice::from_raw_parts((b.addr + b.size) as *const u8, POST);
    pre.iter().all(|x| *x == GUARD) && post.iter().all(|x| *x == GUARD)
}

unsafe fn sim_alloc(layout: Layout, thread_point: bool) -> *mut u8 {
    let h = H.get();
    if thread_point {
        point(Site::Hook);
        if hook::try_fire(Fault::AllocFail) {
            return std::ptr::null_mut();
        }
    }
    h.allocs += 1;
    NET.with(|n| n.set(n.get() + 1));
    let (size, align) = (layout.size(), layout.align());
    if h.cfg.reuse == 1 {
        if let Some(i) = h
            .blocks
            .iter()
            .rposition(|b| !b.live && !b.reused && b.size == size && b.align == align)
        {
            h.reuses += 1;
            let addr = h.blocks[i].addr;
            h.blocks[i].reused = true;
            h.blocks.push(Block { addr, size, align, live: true, reused: false });
            let idx = h.blocks.len() as u64 - 1;
            ((addr - PRE) as *mut u64).write_unaligned(MAGIC ^ idx);
            // Contents stay: stale bytes of the previous owner, as a real allocator would leave them.
            return addr as *mut u8;
        }
    }
    let z = if h.cfg.zone < NZONES { h.cfg.zone } else { h.rng.below(NZONES as u64) as usize };
    let mut found = None;
    for k in 0..NZONES {
        let z = (z + k) % NZONES;
        let mut a = (h.bump[z] + PRE + align - 1) & !(align - 1);
        if a % (2 * align) == 0 {
            a += align; // no better aligned than asked for
        }
        if a + size + POST <= ZBASE[z] + zlen(z) {
            h.bump[z] = a + size + POST;
            found = Some(a);
            break;
        }
    }
    let addr = match found {
        Some(a) => a,
        None => {
            eprintln!("simulated heap exhausted");
            std::process::exit(3)
        }
    };
    let idx = h.blocks.len() as u64;
    h.blocks.push(Block { addr, size, align, live: true, reused: false });
    ((addr - PRE) as *mut u64).write_unaligned(MAGIC ^ idx);
    std::ptr::write_bytes((addr - POST) as *mut u8, GUARD, POST);
    std::ptr::write_bytes((addr + size) as *mut u8, GUARD, POST);
    std::ptr::write_bytes(addr as *mut u8, h.cfg.fill, size);
    addr as *mut u8
}

fn find(addr: usize) -> Option<usize> {
    let h = H.get();
    h.blocks.iter().rposition(|b| b.addr == addr && !b.reused)
}

unsafe fn sim_free(addr: usize, layout: Layout) {
    let h = H.get();
    let i = match find(addr) {
        Some(i) => i,
        None => {
            report("invalid-free", format!("freed an address that is not a block (size {})", layout.size()));
            return;
        }
    };
    let b = h.blocks[i];
    if !b.live {
        report("double-free", format!("block of {} bytes freed twice", b.size));
        return;
    }
    if b.size != layout.size() || b.align != layout.align() {
        report(
            "layout-mismatch",
            format!(
                "block allocated with size {} align {} freed with size {} align {}",
                b.size, b.align, layout.size(), layout.align()
            ),
        );
    }
    if !guards(&b) {
        report("overrun", format!("guard bytes around a block of {} bytes overwritten", b.size));
    }
    h.blocks[i].live = false;
    h.frees += 1;
    NET.with(|n| n.set(n.get() - 1));
    std::ptr::write_bytes(addr as *mut u8, POISON, b.size);
}

/// Checks guard bytes of all blocks.
pub fn check_guards() {
    let h = H.get();
    for b in h.blocks.iter().filter(|b| !b.reused) {
        if !unsafe { guards(b) } {
            report("overrun", format!("guard bytes around a block of {} bytes overwritten", b.size));
            return;
        }
    }
}
/// Checks that nothing wrote to freed blocks.
pub fn check_poison() {
    let h = H.get();
    for b in h.blocks.iter().filter(|b| !b.reused && !b.live) {
        let s = unsafe { std::slice::from_raw_parts(b.addr as *const u8, b.size) };
        if s.iter().any(|x| *x != POISON) {
            report("write-after-free", format!("freed block of {} bytes was written to", b.size));
            return;
        }
    }
}
/// The live block starting at `addr`.
pub fn live_block(addr: usize) -> Option<Block> {
    find(addr).map(|i| H.get().blocks[i]).filter(|b| b.live)
}
pub fn live_count() -> usize {
    H.get().blocks.iter().filter(|b| b.live).count()
}

pub struct SimAlloc;

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if IN_LIB.with(|c| c.get()) && H.get().on && layout.size() > 0 {
            // Memory the panic machinery asks for is not the library's.
            if std::thread::panicking() {
                return System.alloc(layout);
            }
            IN_LIB.with(|c| c.set(false));
            let p = sim_alloc(layout, true);
            IN_LIB.with(|c| c.set(true));
            p
        } else {
            if IN_LIB.with(|c| c.get()) && layout.size() == 0 {
                report("zero-size-alloc", "zero-sized allocation requested".into());
            }
            System.alloc(layout)
        }
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        if H.get().ready && zone_of(ptr as usize).is_some() {
            let was = IN_LIB.with(|c| c.replace(false));
            if was {
                point(Site::Hook);
            }
            sim_free(ptr as usize, layout);
            IN_LIB.with(|c| c.set(was));
        } else if IN_LIB.with(|c| c.get()) && H.get().on && suspicious(ptr as usize) {
            report("invalid-free", "freed an address that no allocator returned".into());
        } else {
            System.dealloc(ptr, layout)
        }
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new: usize) -> *mut u8 {
        let in_zone = H.get().ready && zone_of(ptr as usize).is_some();
        if in_zone || (IN_LIB.with(|c| c.get()) && H.get().on) {
            let nl = Layout::from_size_align_unchecked(new, layout.align());
            let p = self.alloc(nl);
            if !p.is_null() {
                std::ptr::copy_nonoverlapping(ptr, p, layout.size().min(new));
                self.dealloc(ptr, layout);
            }
            p
        } else {
            System.realloc(ptr, layout, new)
        }
    }
}

/// Addresses the system allocator cannot have returned: the first page, or tag bits set.
fn suspicious(a: usize) -> bool {
    a < 0x1_0000 || a >> 47 != 0
}
