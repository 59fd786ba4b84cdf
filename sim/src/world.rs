//! One simulated execution: runs a plan against the library, next to a reference model.
use crate::obj::*;
use crate::pay::*;
use crate::subj::{RTYPES, SUBJECTS};
use simrt::heap::{self, HeapCfg};
use simrt::hook::{self, Fault};
use simrt::ledger::{self, Own};
use simrt::sched::{self, Policy};
use simrt::state::*;
use simrt::{report, Outcome};
use std::cell::Cell;
use std::collections::HashMap;

pub const WIDTH: u64 = {
    // TAGGED_BOX_RESERVED_WIDTH is "48bits" .. "63bits", as the crate's own build reads it.
    match option_env!("TAGGED_BOX_RESERVED_WIDTH") {
        Some(s) => {
            let b = s.as_bytes();
            ((b[0] - b'0') * 10 + (b[1] - b'0')) as u64
        }
        None => 60,
    }
};
/// What the configured width must be able to hold: computed here, not read from the crate.
pub const MAXD: u64 = (1u64 << (64 - WIDTH)) - 1;
pub const MAXP: u64 = if WIDTH == 64 { u64::MAX } else { (1u64 << WIDTH) - 1 };
pub const DISC_MAX: u64 = Disc::MAX as u64;

pub const NSLOT: usize = 64;
pub const PER_THREAD: usize = 10;
pub const SHARED0: usize = 40;
pub const NMBOX: usize = 8;
pub const SETUP: usize = 9;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum K {
    Mk, Take, Look, Look2, Clone, CloneFrom, Cmp, Fmt, Hex, Disc, Drop, Alias, Poke, Rewrap, Foreign,
    Send, Recv,
    RMk, RLook, RWrite, RRaw, RBox, RTake, RDisc, RHex, Tp, RDrop, RAlias, RRefuse,
    ImMk, ImBump, ImRead, ImTake, ImEnd,
}
pub const KNAMES: [&str; 34] = [
    "mk", "take", "look", "look2", "clone", "clonefrom", "cmp", "fmt", "hex", "disc", "drop", "alias", "poke",
    "rewrap", "foreign", "send", "recv", "rmk", "rlook", "rwrite", "rraw", "rbox", "rtake", "rdisc", "rhex",
    "tp", "rdrop", "ralias", "rrefuse", "immk", "imbump", "imread", "imtake", "imend",
];
pub const NK: usize = 34;
pub fn kind_from(s: &str) -> Option<K> {
    KNAMES.iter().position(|n| *n == s).map(|i| unsafe { std::mem::transmute::<u8, K>(i as u8) })
}

#[derive(Clone, Debug)]
pub struct Op {
    pub t: usize,
    pub k: K,
    /// Meaning depends on `k`; the type or subject comes second where there is one.
    pub a: [u64; 5],
    pub fault: Fault,
    pub nth: u64,
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub threads: usize,
    pub heap: HeapCfg,
    pub policy: Policy,
    pub ops: Vec<Op>,
}

fn named(k: K) -> u8 {
    match k {
        K::Mk => 1,
        K::RMk | K::RRefuse => 2,
        _ => 0,
    }
}

impl Plan {
    pub fn text(&self) -> String {
        let mut s = String::new();
        s.push_str(&format!(
            "heap seed={} zone={} reuse={} fill={}\nthreads {}\n",
            self.heap.seed, self.heap.zone, self.heap.reuse, self.heap.fill, self.threads
        ));
        match &self.policy {
            Policy::Explicit(l) => {
                s.push_str("policy explicit\n");
                for (st, t) in l {
                    s.push_str(&format!("switch {} {}\n", st, t));
                }
            }
            Policy::Random { seed, hook, cov } => s.push_str(&format!("policy random {} {} {}\n", seed, hook, cov)),
            Policy::Pct { seed, d, len } => s.push_str(&format!("policy pct {} {} {}\n", seed, d, len)),
            Policy::Stall { seed, hook, cov, victim, from, steps } => {
                s.push_str(&format!("policy stall {} {} {} {} {} {}\n", seed, hook, cov, victim, from, steps))
            }
        }
        for o in &self.ops {
            let second = match named(o.k) {
                1 => SUBJECTS[o.a[1] as usize].name.to_string(),
                2 => RTYPES[o.a[1] as usize].name.to_string(),
                _ => o.a[1].to_string(),
            };
            s.push_str(&format!(
                "op {} {} {} {} {} {} {}",
                o.t, KNAMES[o.k as usize], o.a[0], second, o.a[2], o.a[3], o.a[4]
            ));
            if o.fault != Fault::None {
                s.push_str(&format!(" {}:{}", hook::FAULT_NAMES[o.fault as usize], o.nth));
            }
            s.push('\n');
        }
        s
    }
    pub fn parse(text: &str) -> Result<Plan, String> {
        let mut p = Plan {
            threads: 1,
            heap: HeapCfg { seed: 0, zone: 1, reuse: 0, fill: 0 },
            policy: Policy::Explicit(Vec::new()),
            ops: Vec::new(),
        };
        let mut switches = Vec::new();
        for line in text.lines() {
            let w: Vec<&str> = line.split_whitespace().collect();
            if w.is_empty() || w[0].starts_with('#') {
                continue;
            }
            let n = |i: usize| -> Result<u64, String> {
                w.get(i).and_then(|x| x.parse().ok()).ok_or_else(|| format!("bad line: {}", line))
            };
            match w[0] {
                "heap" => {
                    for kv in &w[1..] {
                        let mut it = kv.split('=');
                        let (k, v) = (it.next().unwrap_or(""), it.next().unwrap_or(""));
                        let v: u64 = v.parse().map_err(|_| format!("bad line: {}", line))?;
                        match k {
                            "seed" => p.heap.seed = v,
                            "zone" => p.heap.zone = v as usize,
                            "reuse" => p.heap.reuse = v as u8,
                            _ => p.heap.fill = v as u8,
                        }
                    }
                }
                "threads" => p.threads = n(1)? as usize,
                "policy" => match w.get(1).copied() {
                    Some("explicit") => {}
                    Some("random") => p.policy = Policy::Random { seed: n(2)?, hook: n(3)?, cov: n(4)? },
                    Some("pct") => p.policy = Policy::Pct { seed: n(2)?, d: n(3)?, len: n(4)? },
                    Some("stall") => {
                        p.policy = Policy::Stall {
                            seed: n(2)?, hook: n(3)?, cov: n(4)?, victim: n(5)? as usize, from: n(6)?, steps: n(7)?,
                        }
                    }
                    _ => return Err(format!("bad line: {}", line)),
                },
                "switch" => switches.push((n(1)?, n(2)? as usize)),
                "op" => {
                    let k = w.get(2).and_then(|s| kind_from(s)).ok_or_else(|| format!("bad line: {}", line))?;
                    let second = match named(k) {
                        1 => match SUBJECTS.iter().position(|s| Some(&s.name) == w.get(4)) {
                            Some(i) => i as u64,
                            None => return Err(format!("unknown enum: {}", line)),
                        },
                        2 => match RTYPES.iter().position(|s| Some(&s.name) == w.get(4)) {
                            Some(i) => i as u64,
                            None => return Err(format!("unknown type: {}", line)),
                        },
                        _ => n(4)?,
                    };
                    let (mut fault, mut nth) = (Fault::None, 0);
                    if let Some(f) = w.get(8) {
                        let mut it = f.split(':');
                        fault = hook::fault_from(it.next().unwrap_or(""));
                        nth = it.next().and_then(|x| x.parse().ok()).unwrap_or(1);
                    }
                    p.ops.push(Op { t: n(1)? as usize, k, a: [n(3)?, second, n(5)?, n(6)?, n(7)?], fault, nth });
                }
                _ => {}
            }
        }
        if !switches.is_empty() {
            p.policy = Policy::Explicit(switches);
        }
        Ok(p)
    }
}

// ---------------------------------------------------------------- model

pub struct CModel {
    subj: usize,
    v: usize,
    seed: u64,
    look: Look,
    addr: usize,
    aliased: bool,
}
pub struct RModel {
    ty: usize,
    d: u64,
    look: Look,
    addr: usize,
    aliased: bool,
}
pub enum Slot {
    Empty,
    C(Box<dyn CObj>, CModel),
    R(Box<dyn RObj>, RModel),
}
impl Slot {
    fn is_empty(&self) -> bool {
        matches!(self, Slot::Empty)
    }
}

pub struct World {
    pub slots: Vec<Slot>,
    mbox: Vec<Slot>,
    pub ims: Vec<Option<crate::im::ImSlot>>,
    pub ops: Vec<Op>,
    lists: [Vec<usize>; 5],
    pub known: Known,
    /// Ops that reached the library.
    pub done: u64,
    pub skipped: u64,
}
/// Known findings: counted, not reported.
#[derive(Default)]
pub struct Known {
    pub listed: Vec<String>,
    pub seen: HashMap<&'static str, u64>,
    /// Whether storage and value conservation is being judged.
    pub strict: bool,
}
pub static W: Racy<Option<World>> = Racy::new(None);
pub fn w() -> &'static mut World {
    W.get().as_mut().unwrap()
}

pub struct Res<R> {
    pub out: Outcome<R>,
    pub fired: Option<Fault>,
    pub net: i64,
    pub znet: i64,
    pub l0: usize,
}
thread_local! {
    static FAULT: Cell<(Fault, u64)> = const { Cell::new((Fault::None, 0)) };
}

/// Runs one library call with the op's fault armed and measures what it did to heap and ledger.
pub fn lib<R>(f: impl FnOnce() -> Outcome<R>) -> Res<R> {
    let (k, n) = FAULT.with(|c| c.replace((Fault::None, 0)));
    let l0 = ledger::L.get().toks.len();
    let n0 = NET.with(|x| x.get());
    let z0 = ZNET.with(|x| x.get());
    hook::arm(k, n);
    let out = f();
    let mut fired = hook::disarm();
    if k == Fault::AllocFail && n >= hook::PASSING && out.is_ok() {
        // Memory was there when asked for again.
        fired = false;
    }
    w().done += 1;
    Res {
        out,
        fired: if fired { Some(k) } else { None },
        net: NET.with(|x| x.get()) - n0,
        znet: ZNET.with(|x| x.get()) - z0,
        l0,
    }
}

/// Turns the outcome of a call into its value, or reports what must not have happened.
/// `may_panic`: the library is entitled to refuse.
pub fn settle<R>(group: &str, r: Res<R>, may_panic: bool) -> (Option<R>, Option<Fault>, i64, i64, usize) {
    let v = match r.out {
        Outcome::Ok(x) => {
            match r.fired {
                Some(Fault::AllocFail) => report(&format!("alloc-fail-ignored@{}", group), "the operation returned although its allocation failed".into()),
                Some(f @ (Fault::ClonePanic | Fault::CmpPanic | Fault::FmtPanic | Fault::SinkPanic | Fault::CallbackPanic)) => {
                    report(&format!("swallowed-panic@{}", group), format!("{} did not reach the caller", hook::FAULT_NAMES[f as usize]))
                }
                _ => {}
            }
            Some(x)
        }
        Outcome::Panic(true, _) => None,
        Outcome::Panic(false, m) => {
            match r.fired {
                Some(Fault::AllocFail) => {}
                Some(Fault::FmtErr) | Some(Fault::SinkErr) | None if !may_panic => {
                    report(&format!("unexpected-panic@{}", group), m)
                }
                None => {}
                Some(f) => report(&format!("panic-replaced@{}", group), format!("{} became: {}", hook::FAULT_NAMES[f as usize], m)),
            }
            None
        }
    };
    (v, r.fired, r.net, r.znet, r.l0)
}

fn note(key: &'static str, class: &str, detail: String) {
    let k = &mut w().known;
    if k.listed.iter().any(|x| x == key) {
        *k.seen.entry(key).or_insert(0) += 1;
    } else {
        report(class, detail);
    }
}
pub fn note_known(key: &'static str, class: &str, detail: String) {
    note(key, class, detail)
}

/// The looked-at value must be the model's, token for token.
pub fn same(group: &str, got: &Look, want: &Look) {
    if !got.same(want) {
        report(&format!("value@{}", group), format!("expected {} but got {}", want.brief(), got.brief()));
    } else if got.toks != want.toks {
        report(&format!("identity@{}", group), format!("expected values #{:?} but got #{:?}", want.toks, got.toks));
    } else if !want.hnds.is_empty() && got.hnds != want.hnds {
        report(&format!("identity@{}", group), format!("expected handles #{:?} but got #{:?}", want.hnds, got.hnds));
    }
}
fn set_all(l: &Look, o: Own) {
    for t in &l.toks {
        ledger::set(*t, o);
    }
}
fn count_own(l: &Look, o: Own) -> usize {
    l.toks.iter().filter(|t| ledger::get(**t).map_or(false, |i| i.own == o)).count()
}
/// Values that went into a failed operation must all have been dropped.
fn gone(group: &str, l: &Look, znet: i64) {
    if count_own(l, Own::Dropped) != l.toks.len() {
        report(&format!("leak-value@{}", group), "the value given to the failed operation was not dropped".into());
    }
    if znet != -(l.zs as i64) {
        let c = if znet > -(l.zs as i64) { "leak-value" } else { "double-drop" };
        report(&format!("{}@{}", c, group), format!("{} zero-sized values dropped instead of {}", -znet, l.zs));
    }
}
fn no_blocks(group: &str, net: i64) {
    expect_blocks(group, net, 0, 0);
}
fn expect_blocks(group: &str, net: i64, lo: i64, hi: i64) {
    if net > hi {
        report(&format!("leak-block@{}", group), format!("the operation left {} heap blocks, expected {}", net, hi));
    } else if net < lo {
        report(&format!("lost-block@{}", group), format!("the operation left {} heap blocks, expected {}", net, lo));
    }
}
fn no_values(group: &str, l0: usize, znet: i64) {
    let f = ledger::free_since(l0);
    if !f.is_empty() {
        report(&format!("leak-value@{}", group), format!("temporary values #{:?} were never dropped", f));
    }
    expect_z(group, znet, 0, 0);
}
fn expect_z(group: &str, znet: i64, lo: i64, hi: i64) {
    if znet > hi {
        report(&format!("leak-value@{}", group), format!("zero-sized values: net {} instead of {}", znet, hi));
    } else if znet < lo {
        report(&format!("double-drop@{}", group), format!("zero-sized values: net {} instead of {}", znet, lo));
    }
}
/// The storage of a box holding a value of `min..=max` bytes.
fn check_block(group: &str, addr: usize, min: usize, max: usize, align: usize) {
    if max == 0 {
        if addr == 0 {
            report(&format!("null@{}", group), "a zero-sized value is stored at address 0".into());
        }
        if addr % align != 0 {
            report(&format!("misaligned@{}", group), format!("a zero-sized value is stored unaligned for {}", align));
        }
        return;
    }
    match heap::live_block(addr) {
        None => report(&format!("no-block@{}", group), "the box does not point at the start of a live block".into()),
        Some(b) => {
            if b.size < min || b.size > max || b.align != align {
                report(
                    &format!("block-shape@{}", group),
                    format!("block of {} bytes aligned {} for a value of {} bytes aligned {}", b.size, b.align, max, align),
                );
            }
        }
    }
}

fn may(t: usize, s: usize, write: bool) -> bool {
    if t == SETUP {
        return s < NSLOT;
    }
    if s >= SHARED0 && s < NSLOT {
        return !write;
    }
    s / PER_THREAD == t && s < SHARED0
}
fn slot(s: u64) -> &'static mut Slot {
    &mut w().slots[s as usize]
}
macro_rules! need {
    ($c:expr) => {
        if !$c {
            w().skipped += 1;
            return;
        }
    };
}
macro_rules! cont {
    ($s:expr) => {
        match slot($s) {
            Slot::C(o, m) => (o, m),
            _ => {
                w().skipped += 1;
                return;
            }
        }
    };
}
macro_rules! raw {
    ($s:expr) => {
        match slot($s) {
            Slot::R(o, m) => (o, m),
            _ => {
                w().skipped += 1;
                return;
            }
        }
    };
}

fn fits(v: usize) -> bool {
    v as u64 <= MAXD
}
/// Copies of the number of blocks a container holds: its own and the ones its value owns.
fn held(m: &CModel) -> i64 {
    let sh = (SUBJECTS[m.subj].shape)(m.v);
    (sh.max > 0) as i64 + m.look.zone_blocks as i64
}
fn same_addr(c: &dyn CObj, m: &CModel) -> bool {
    matches!(c.addr(), Outcome::Ok(a) if a == m.addr)
}
fn has_block(m: &CModel) -> i64 {
    ((SUBJECTS[m.subj].shape)(m.v).max > 0) as i64
}

fn make_op(op: &Op, group: &str, v: Box<dyn VObj>, subj: usize, variant: usize, seed: u64, how: u8, dst: u64) {
    let look = v.look();
    let sh = (SUBJECTS[subj].shape)(variant);
    let _ = op;
    let ok = fits(variant);
    let r = lib(|| v.put(how));
    let (c, fired, net, znet, l0) = settle(group, r, !ok);
    let _ = l0;
    match c {
        None => {
            let g = if !ok { format!("refused-{}", group) } else { format!("{}-{}", if fired == Some(Fault::AllocFail) { "allocfail" } else { "failed" }, group) };
            gone(&g, &look, znet);
            no_blocks(&g, net);
            log(|| format!("{} refused", group));
        }
        Some(c) => {
            if !ok {
                report(&format!("not-refused@{}", group), format!("variant {} does not fit {} discriminant bits", variant, 64 - WIDTH));
            }
            if count_own(&look, Own::Free) != look.toks.len() || znet != 0 {
                report(&format!("early-drop@{}", group), "the value was dropped while being boxed".into());
            }
            set_all(&look, Own::Boxed);
            expect_blocks(group, net, (sh.max > 0) as i64, (sh.max > 0) as i64);
            let addr = match c.addr() {
                Outcome::Ok(a) => a,
                _ => 0,
            };
            check_block(group, addr, sh.min, sh.max, sh.align);
            check_disc(group, c.disc(), variant as u64);
            log(|| format!("{} {} v{} {:x}", group, SUBJECTS[subj].name, variant, look.hash()));
            *slot(dst) = Slot::C(c, CModel { subj, v: variant, seed, look, addr, aliased: false });
        }
    }
}
fn check_disc(group: &str, d: Outcome<u64>, want: u64) {
    match d {
        Outcome::Ok(d) if d == want => {}
        Outcome::Ok(d) => report(&format!("disc@{}", group), format!("discriminant {} instead of {}", d, want)),
        Outcome::Panic(_, m) => report(&format!("unexpected-panic@{}", group), m),
    }
}
fn check_addr(group: &str, a: Outcome<usize>, want: usize) {
    match a {
        Outcome::Ok(a) if a == want => {}
        Outcome::Ok(_) => report(&format!("addr@{}", group), "the value's address changed".into()),
        Outcome::Panic(_, m) => report(&format!("unexpected-panic@{}", group), m),
    }
}
/// A container that must be left exactly as it was.
fn intact(group: &str, o: &dyn CObj, m: &CModel) {
    if violated() {
        return;
    }
    if count_own(&m.look, Own::Boxed) != m.look.toks.len() {
        report(&format!("early-drop@{}", group), "a stored value was dropped".into());
        return;
    }
    check_disc(group, o.disc(), m.v as u64);
    check_addr(group, o.addr(), m.addr);
    let mut n = 0;
    let r = o.observe(&mut |l| {
        n += 1;
        same(group, l, &m.look)
    });
    match r {
        Outcome::Ok(()) => {
            if n != 1 {
                report(&format!("callback@{}", group), format!("the callback ran {} times", n));
            }
        }
        Outcome::Panic(_, e) => report(&format!("unexpected-panic@{}", group), e),
    }
}

fn after_take(group: &str, v: &dyn VObj, m: &CModel, net: i64, znet: i64, l0: usize) {
    let l = v.look();
    same(group, &l, &m.look);
    if count_own(&m.look, Own::Boxed) != m.look.toks.len() && !violated() {
        report(&format!("early-drop@{}", group), "the value was dropped while being taken out".into());
    }
    no_values(group, l0, znet);
    let hb = has_block(m);
    expect_blocks(group, net, if m.aliased { -1 } else { -hb }, 0);
    if w().known.strict && net == 0 && hb > 0 && !m.aliased {
        note("take-leaks-block", &format!("leak-block@{}", group), "the block of a box whose value was taken out is never released".into());
    }
    set_all(&m.look, Own::Free);
}

fn drop_checked(group: &str, l: &Look, f: impl FnOnce()) {
    let z0 = ZNET.with(|z| z.get());
    f();
    if count_own(l, Own::Dropped) != l.toks.len() && !violated() {
        report(&format!("garbage-observed@{}", group), "dropping the extracted value did not drop the stored one".into());
    }
    let _ = z0;
}

pub fn run_op(i: usize) {
    let op = w().ops[i].clone();
    OP.with(|o| o.set(i));
    FAULT.with(|f| f.set((op.fault, op.nth)));
    sched::op_begin();
    sched::point(sched::Site::Hook);
    if violated() {
        return;
    }
    exec(&op);
    FAULT.with(|f| f.set((Fault::None, 0)));
    count(op.k as usize);
    if !violated() {
        heap::check_guards();
    }
}

fn exec(op: &Op) {
    let a = &op.a;
    let t = op.t;
    let g = KNAMES[op.k as usize];
    match op.k {
        K::Mk => {
            need!(may(t, a[0] as usize, true) && slot(a[0]).is_empty());
            let s = &SUBJECTS[a[1] as usize];
            let v = a[2] as usize % s.nvar;
            if op.fault == Fault::AllocFail && a[4] == 9 {
                return;
            }
            let val = (s.make)(v, a[3], false);
            make_op(op, g, val, a[1] as usize, v, a[3], a[4] as u8, a[0]);
        }
        K::Take => {
            need!(may(t, a[0] as usize, true));
            let _ = cont!(a[0]);
            let (o, m) = match std::mem::replace(slot(a[0]), Slot::Empty) {
                Slot::C(o, m) => (o, m),
                _ => unreachable!(),
            };
            let r = lib(|| o.take(a[1] as u8));
            let (v, _, net, znet, l0) = settle(g, r, false);
            if let Some(v) = v {
                after_take(g, &*v, &m, net, znet, l0);
                log(|| format!("{} v{} {:x}", g, m.v, v.look().hash()));
                if a[2] == 0 || m.aliased || violated() {
                    drop_checked(g, &m.look, || drop(v));
                } else {
                    make_op(op, "put", v, m.subj, m.v, m.seed, a[2] as u8 - 1, a[0]);
                }
            }
        }
        K::Look => {
            need!(may(t, a[0] as usize, false));
            let (o, m) = cont!(a[0]);
            let mut n = 0;
            let r = lib(|| {
                o.observe(&mut |l| {
                    n += 1;
                    same(g, l, &m.look)
                })
            });
            let (x, fired, net, znet, l0) = settle(g, r, false);
            if (x.is_some() && n != 1) || n > 1 {
                report(&format!("callback@{}", g), format!("the callback ran {} times", n));
            }
            no_blocks(g, net);
            no_values(g, l0, znet);
            log(|| format!("{} {:x} {} {:?}", g, m.look.hash(), n, fired));
            if fired.is_some() {
                intact(g, &**o, m);
            }
        }
        K::Look2 => {
            need!(may(t, a[0] as usize, false) && may(t, a[1] as usize, false));
            let (o, m) = cont!(a[0]);
            let (p, q) = cont!(a[1]);
            need!(m.subj == q.subj);
            let mut n = 0;
            let r = lib(|| {
                o.observe2(&**p, &mut |l, k| {
                    n += 1;
                    same(g, l, &m.look);
                    same(g, k, &q.look)
                })
            });
            let (x, fired, net, znet, l0) = settle(g, r, false);
            if (x.is_some() && n != 1) || n > 1 {
                report(&format!("callback@{}", g), format!("the callback ran {} times", n));
            }
            no_blocks(g, net);
            no_values(g, l0, znet);
            log(|| format!("{} {:x} {:x} {} {:?}", g, m.look.hash(), q.look.hash(), n, fired));
            if fired.is_some() {
                intact(g, &**o, m);
                intact(g, &**p, q);
            }
        }
        K::Clone => {
            need!(may(t, a[0] as usize, false) && may(t, a[1] as usize, true) && slot(a[1]).is_empty());
            let (o, m) = cont!(a[0]);
            let s = &SUBJECTS[m.subj];
            need!(s.caps & CLONE != 0 && !(op.fault == Fault::AllocFail && s.caps & STD_ALLOC != 0));
            let r = lib(|| o.clone_obj(a[2] as u8));
            let (c, fired, net, znet, l0) = settle(g, r, false);
            log(|| format!("{} {:x} {:?}", g, m.look.hash(), fired));
            match c {
                None => {
                    let g2 = if fired == Some(Fault::AllocFail) { "allocfail-clone" } else { "failed-clone" };
                    no_blocks(g2, net);
                    no_values(g2, l0, znet);
                    intact(g2, &**o, m);
                }
                Some(c) if s.caps & COPY != 0 && a[2] == 0 && net == 0 && same_addr(&*c, m) => {
                    // Cloning a container that is Copy may copy it.
                    no_values(g, l0, znet);
                    m.aliased = true;
                    let nm = CModel { subj: m.subj, v: m.v, seed: m.seed, look: m.look.clone(), addr: m.addr, aliased: true };
                    intact(g, &*c, &nm);
                    intact(g, &**o, m);
                    *slot(a[1]) = Slot::C(c, nm);
                }
                Some(c) => {
                    expect_blocks(g, net, has_block(m) + m.look.clone_blocks as i64, has_block(m) + m.look.clone_blocks as i64);
                    expect_z(g, znet, m.look.zs as i64, m.look.zs as i64);
                    if let Some(nm) = adopt_clone(g, &*c, m, l0) {
                        if nm.addr == m.addr && has_block(m) > 0 {
                            report("shared-storage@clone", "the clone uses the storage of the original".into());
                        }
                        *slot(a[1]) = Slot::C(c, nm);
                    }
                    intact(g, &**o, m);
                }
            }
        }
        K::CloneFrom => {
            need!(a[0] != a[1] && may(t, a[0] as usize, true) && may(t, a[1] as usize, false));
            let (o, m) = cont!(a[0]);
            let (p, q) = cont!(a[1]);
            let s = &SUBJECTS[m.subj];
            need!(m.subj == q.subj && s.caps & CLONE != 0 && !m.aliased && !(s.caps & COPY != 0 && a[2] == 0)
                && !(op.fault == Fault::AllocFail && s.caps & STD_ALLOC != 0));
            set_all(&m.look, Own::Doomed);
            let r = lib(|| o.clone_from_obj(&**p, a[2] as u8));
            let (x, fired, net, znet, l0) = settle(g, r, false);
            log(|| format!("{} {:x} {:?}", g, q.look.hash(), fired));
            if x.is_none() {
                if count_own(&m.look, Own::Doomed) != m.look.toks.len() {
                    report("early-drop@failed-clonefrom", "the target lost its value in a failed clone".into());
                }
                set_all(&m.look, Own::Boxed);
                no_blocks("failed-clone", net);
                no_values("failed-clone", l0, znet);
                intact("failed-clone", &**o, m);
                intact("failed-clone", &**p, q);
            } else {
                let new = has_block(q) + q.look.clone_blocks as i64;
                expect_blocks(g, net, new - held(m), new);
                expect_z(g, znet, q.look.zs as i64 - m.look.zs as i64, q.look.zs as i64);
                if w().known.strict && (net == new && held(m) > 0 || count_own(&m.look, Own::Dropped) != m.look.toks.len()) {
                    note("drop-leaks", "leak-block@clonefrom", "the replaced box's storage and value are never released".into());
                }
                if let Some(nm) = adopt_clone(g, &**o, q, l0) {
                    *m = nm;
                }
                intact(g, &**p, q);
            }
        }
        K::Cmp => {
            need!(may(t, a[0] as usize, false) && may(t, a[1] as usize, false));
            let (o, m) = cont!(a[0]);
            let (p, q) = cont!(a[1]);
            let s = &SUBJECTS[m.subj];
            let need_cap = match a[2] {
                0 | 1 => EQ,
                2..=6 => PORD,
                _ => ORD,
            };
            need!(m.subj == q.subj && s.caps & need_cap != 0);
            let (x, y) = ((s.make)(m.v, m.seed, true), (s.make)(q.v, q.seed, true));
            let want = x.cmp_ref(&*y, a[2] as u8);
            let r = lib(|| o.cmp(&**p, a[2] as u8, a[3] as u8));
            let (got, fired, net, znet, l0) = settle(g, r, false);
            if let Some(got) = got {
                if got != want {
                    report(
                        &format!("cmp@{}", CMP_NAMES[a[2] as usize]),
                        format!("{} and {}: {} instead of {}", m.look.brief(), q.look.brief(), got, want),
                    );
                }
            }
            no_blocks(g, net);
            no_values(g, l0, znet);
            log(|| format!("{} {} {:?} {:?}", g, CMP_NAMES[a[2] as usize], got, fired));
            if fired.is_some() {
                intact(g, &**o, m);
                intact(g, &**p, q);
            }
        }
        K::Fmt => {
            need!(may(t, a[0] as usize, false));
            let (o, m) = cont!(a[0]);
            let s = &SUBJECTS[m.subj];
            need!(s.caps & if a[1] < DBG_STYLES { DBG } else { DISP } != 0);
            let mut want = Sink::default();
            let x = (s.make)(m.v, m.seed, true);
            let wr = x.fmt_ref(&mut want, a[1] as usize);
            let mut got = Sink::default();
            let r = lib(|| o.fmt(&mut got, a[1] as usize, a[2] as u8));
            let (res, fired, net, znet, l0) = settle(g, r, false);
            text_check(g, res, fired, &got, &want.buf, wr.is_ok());
            no_blocks(g, net);
            no_values(g, l0, znet);
            log(|| format!("{} {} {} {:?}", g, a[1], got.buf, fired));
            if fired.is_some() {
                intact(g, &**o, m);
            }
        }
        K::Hex => {
            need!(may(t, a[0] as usize, false));
            let (o, m) = cont!(a[0]);
            let want = hex_ref(m.addr, a[1] as usize);
            let mut got = Sink::default();
            let r = lib(|| o.hex(&mut got, a[1] as usize));
            let (res, fired, net, znet, l0) = settle(g, r, false);
            text_check(g, res, fired, &got, &want, true);
            no_blocks(g, net);
            no_values(g, l0, znet);
            log(|| format!("{} {:?}", g, fired));
        }
        K::Disc => {
            need!(may(t, a[0] as usize, false));
            let (o, m) = cont!(a[0]);
            let r = lib(|| o.disc());
            let (d, ..) = settle(g, r, false);
            if let Some(d) = d {
                check_disc(g, Outcome::Ok(d), m.v as u64);
                log(|| format!("{} {}", g, d));
            }
            check_addr(g, o.addr(), m.addr);
        }
        K::Drop => {
            need!(may(t, a[0] as usize, true));
            let _ = cont!(a[0]);
            let (o, m) = match std::mem::replace(slot(a[0]), Slot::Empty) {
                Slot::C(o, m) => (o, m),
                _ => unreachable!(),
            };
            set_all(&m.look, Own::Doomed);
            let r = lib(|| o.drop_obj());
            let (_, _, net, znet, l0) = settle(g, r, false);
            let _ = l0;
            expect_blocks(g, net, if m.aliased { -1 } else { -held(&m) }, 0);
            expect_z(g, znet, -(m.look.zs as i64), 0);
            if w().known.strict && !m.aliased {
                let full = net == -held(&m) && znet == -(m.look.zs as i64) && count_own(&m.look, Own::Dropped) == m.look.toks.len();
                let none = net == 0 && znet == 0 && count_own(&m.look, Own::Dropped) == 0;
                if !full {
                    if none {
                        note("drop-leaks", "leak-block@drop", "dropping a box releases neither its block nor its value".into());
                    } else {
                        report("leak-value@drop", "dropping a box released only part of what it owned".into());
                    }
                }
            }
            log(|| format!("{} v{}", g, m.v));
        }
        K::Alias => {
            need!(may(t, a[0] as usize, true) && may(t, a[1] as usize, true) && slot(a[1]).is_empty());
            let (o, m) = cont!(a[0]);
            need!(SUBJECTS[m.subj].caps & COPY != 0);
            m.aliased = true;
            let c = o.alias();
            let nm = CModel { subj: m.subj, v: m.v, seed: m.seed, look: m.look.clone(), addr: m.addr, aliased: true };
            *slot(a[1]) = Slot::C(c, nm);
        }
        K::Poke => {
            need!(may(t, a[0] as usize, true));
            let (o, m) = cont!(a[0]);
            need!(!m.aliased && (SUBJECTS[m.subj].shape)(m.v).max > 0);
            set_all(&m.look, Own::Doomed);
            let start = ledger::L.get().toks.len();
            let r = o.poke(m.v, a[1], a[2] as u8);
            match r {
                None => {
                    set_all(&m.look, Own::Boxed);
                    w().skipped += 1;
                    return;
                }
                Some(Outcome::Panic(_, e)) => {
                    report(&format!("unexpected-panic@{}", g), e);
                }
                Some(Outcome::Ok(())) => {
                    w().done += 1;
                    if count_own(&m.look, Own::Dropped) != m.look.toks.len() {
                        report(&format!("garbage-observed@{}", g), "overwriting did not drop the stored value".into());
                    }
                    let new: Vec<u32> = ledger::free_since(start);
                    let x = (SUBJECTS[m.subj].make)(m.v, a[1], true).look();
                    m.look = Look { toks: new, ..x };
                    m.seed = a[1];
                    set_all(&m.look, Own::Boxed);
                    intact(g, &**o, m);
                }
            }
            log(|| format!("{} {:x}", g, m.look.hash()));
        }
        K::Rewrap => {
            need!(may(t, a[0] as usize, true));
            let _ = cont!(a[0]);
            let (o, m) = match std::mem::replace(slot(a[0]), Slot::Empty) {
                Slot::C(o, m) => (o, m),
                _ => unreachable!(),
            };
            let r = lib(|| o.rewrap(a[1] as u8));
            let (c, _, net, znet, l0) = settle(g, r, false);
            if let Some(c) = c {
                no_blocks(g, net);
                no_values(g, l0, znet);
                intact(g, &*c, &m);
                log(|| format!("{} v{}", g, m.v));
                *slot(a[0]) = Slot::C(c, m);
            }
        }
        K::Foreign => {
            need!(may(t, a[0] as usize, true));
            {
                let (_, m) = cont!(a[0]);
                let n = SUBJECTS[m.subj].nvar as u64;
                need!(a[1] >= n && a[1] <= MAXD && !m.aliased);
            }
            let (o, m) = match std::mem::replace(slot(a[0]), Slot::Empty) {
                Slot::C(o, m) => (o, m),
                _ => unreachable!(),
            };
            // A good box of the same enum, to be used together with the odd one.
            let p = (a[4] & 0xff) as usize;
            let other = match p {
                0 => None,
                _ if may(t, p - 1, false) => match slot(p as u64 - 1) {
                    Slot::C(q, n) if n.subj == m.subj => Some((q, &*n, may(t, p - 1, true) && !n.aliased)),
                    _ => None,
                },
                _ => None,
            };
            if let Some((o, m)) = foreign(o, m, a[1], a[2], a[3], other, a[4] >> 8) {
                *slot(a[0]) = Slot::C(o, m);
            }
        }
        K::Send => {
            need!(may(t, a[0] as usize, true) && (a[1] as usize) < NMBOX && w().mbox[a[1] as usize].is_empty());
            need!(!slot(a[0]).is_empty());
            if let Slot::C(_, CModel { aliased: true, .. }) | Slot::R(_, RModel { aliased: true, .. }) = slot(a[0]) {
                return;
            }
            w().mbox[a[1] as usize] = std::mem::replace(slot(a[0]), Slot::Empty);
            sched::S.get().events += 1;
            log(|| g.to_string());
        }
        K::Recv => {
            need!(may(t, a[0] as usize, true) && slot(a[0]).is_empty() && (a[1] as usize) < NMBOX);
            let b = a[1] as usize;
            while w().mbox[b].is_empty() {
                if violated() || !sched::block() {
                    w().skipped += 1;
                    log(|| format!("{} none", g));
                    return;
                }
            }
            *slot(a[0]) = std::mem::replace(&mut w().mbox[b], Slot::Empty);
            match slot(a[0]) {
                Slot::C(o, m) => intact(g, &**o, m),
                Slot::R(o, m) => r_intact(g, o, m),
                _ => {}
            }
            log(|| g.to_string());
        }
        K::RMk => {
            need!(may(t, a[0] as usize, true) && slot(a[0]).is_empty());
            let rt = &RTYPES[a[1] as usize];
            let mut how = a[4] as u8;
            if (how == 2 && (op.fault == Fault::AllocFail || rt.std_alloc)) || (how >= 3 && rt.size > 0) {
                how = 0;
            }
            let d = a[2].min(DISC_MAX);
            let ok = d <= MAXD;
            let v = (rt.make)(a[3]);
            let look = v.look();
            if (how == 1 || how == 2 || how == 4) && !ok {
                // `new_unchecked` leaves the check to its caller,
                how = 0; // a raw pointer is not consumed by a refused from_raw
            }
            let r = lib(|| (rt.mk)(v, d, how, a[3]));
            let (o, fired, net, znet, _) = settle(g, r, !ok);
            match o {
                None => {
                    let g2 = if !ok { "refused-rmk" } else if fired.is_some() { "allocfail-rmk" } else { "failed-rmk" };
                    gone(g2, &look, znet);
                    no_blocks(g2, net);
                    log(|| format!("{} refused", g));
                }
                Some(mut o) => {
                    if !ok {
                        report("not-refused@rmk", format!("discriminant {} does not fit {} bits", d, 64 - WIDTH));
                    }
                    if count_own(&look, Own::Free) != look.toks.len() || znet != 0 {
                        report("early-drop@rmk", "the value was dropped while being boxed".into());
                    }
                    set_all(&look, Own::Boxed);
                    let nb = (rt.size > 0) as i64;
                    expect_blocks(g, net, nb, nb);
                    let addr = match o.addr(0) {
                        Outcome::Ok(a) => a,
                        _ => 0,
                    };
                    if how == 4 {
                        check_addr(g, Outcome::Ok(addr), crate::obj::zst_addr(a[3], rt.align));
                    }
                    check_block(g, addr, rt.size, rt.size, rt.align);
                    let m = RModel { ty: a[1] as usize, d, look, addr, aliased: false };
                    log(|| format!("{} {} {} {:x}", g, rt.name, d, m.look.hash()));
                    r_intact(g, &mut o, &m);
                    *slot(a[0]) = Slot::R(o, m);
                }
            }
        }
        K::RLook => {
            need!(may(t, a[0] as usize, false));
            let shared = !may(t, a[0] as usize, true);
            let (o, m) = raw!(a[0]);
            let r = lib(|| if shared { o.look_shared() } else { o.look(a[1] as u8) });
            let (l, _, net, znet, l0) = settle(g, r, false);
            if let Some(l) = l {
                same(g, &l, &m.look);
                log(|| format!("{} {:x}", g, l.hash()));
            }
            no_blocks(g, net);
            no_values(g, l0, znet);
            for how in 0..ADDR_VIEWS {
                check_addr(g, o.addr(how), m.addr);
            }
        }
        K::RWrite => {
            need!(may(t, a[0] as usize, true));
            let (o, m) = raw!(a[0]);
            let rt = &RTYPES[m.ty];
            need!(!m.aliased && rt.size > 0);
            set_all(&m.look, Own::Doomed);
            let start = ledger::L.get().toks.len();
            match o.write(a[1] as u8, a[2]) {
                Outcome::Panic(_, e) => report(&format!("unexpected-panic@{}", g), e),
                Outcome::Ok(()) => {
                    w().done += 1;
                    if count_own(&m.look, Own::Dropped) != m.look.toks.len() {
                        report("garbage-observed@rwrite", "overwriting did not drop the stored value".into());
                    }
                    let toks = ledger::free_since(start);
                    // The written value as seen through the view it was written by must be the new one.
                    let x = (rt.make)(a[2]);
                    let xl = x.look();
                    set_all(&xl, Own::Free);
                    drop(x);
                    m.look = Look { toks, zone_blocks: 0, ..xl };
                    set_all(&m.look, Own::Boxed);
                    r_intact(g, o, m);
                }
            }
            log(|| format!("{} {:x}", g, m.look.hash()));
        }
        K::RRaw => {
            need!(may(t, a[0] as usize, true) && a[1] <= MAXD);
            let _ = raw!(a[0]);
            let (o, mut m) = match std::mem::replace(slot(a[0]), Slot::Empty) {
                Slot::R(o, m) => (o, m),
                _ => unreachable!(),
            };
            let r = lib(|| o.via_raw(a[1], a[2] as u8));
            let (x, _, net, znet, l0) = settle(g, r, false);
            if let Some((mut o, addr)) = x {
                no_blocks(g, net);
                no_values(g, l0, znet);
                if addr != m.addr {
                    report("addr@rraw", "into_raw gave another address".into());
                }
                m.d = a[1];
                r_intact(g, &mut o, &m);
                log(|| format!("{} {}", g, m.d));
                *slot(a[0]) = Slot::R(o, m);
            }
        }
        K::RBox => {
            need!(may(t, a[0] as usize, true) && a[1] <= MAXD);
            {
                let (_, m) = raw!(a[0]);
                need!(!m.aliased);
            }
            let (o, mut m) = match std::mem::replace(slot(a[0]), Slot::Empty) {
                Slot::R(o, m) => (o, m),
                _ => unreachable!(),
            };
            let (want, addr) = (m.look.clone(), m.addr);
            let mut cb = |l: &Look, a: usize| {
                same(g, l, &want);
                if a != addr {
                    report("addr@rbox", "into_box gave another address".into());
                }
            };
            if a[2] == 0 {
                let r = lib(|| o.via_box(a[1], &mut cb));
                let (x, _, net, znet, l0) = settle(g, r, false);
                no_blocks(g, net);
                no_values(g, l0, znet);
                if let Some(mut o) = x {
                    m.d = a[1];
                    r_intact(g, &mut o, &m);
                    log(|| format!("{} {}", g, m.d));
                    *slot(a[0]) = Slot::R(o, m);
                }
            } else {
                let nb = (RTYPES[m.ty].size > 0) as i64;
                set_all(&m.look, Own::Doomed);
                let z = m.look.zs as i64;
                let r = lib(|| o.box_drop(&mut cb));
                let (x, _, net, znet, _) = settle(g, r, false);
                if x.is_some() {
                    expect_z(g, znet, -z, -z);
                    if net > -nb {
                        report("leak-block@rbox", "dropping the standard box did not release its block".into());
                    }
                    if count_own(&m.look, Own::Dropped) != m.look.toks.len() {
                        report("leak-value@rbox", "dropping the standard box did not drop the value".into());
                    }
                }
                log(|| format!("{} dropped", g));
            }
        }
        K::RTake => {
            need!(may(t, a[0] as usize, true));
            let _ = raw!(a[0]);
            let (o, m) = match std::mem::replace(slot(a[0]), Slot::Empty) {
                Slot::R(o, m) => (o, m),
                _ => unreachable!(),
            };
            r_take(g, o, m);
        }
        K::RDisc => {
            need!(may(t, a[0] as usize, false));
            let (o, m) = raw!(a[0]);
            let r = lib(|| o.disc());
            if let (Some(d), ..) = settle(g, r, false) {
                check_disc(g, Outcome::Ok(d), m.d);
                log(|| format!("{} {}", g, d));
            }
        }
        K::RHex => {
            need!(may(t, a[0] as usize, false));
            let (o, m) = raw!(a[0]);
            let want = hex_ref(m.addr, a[1] as usize);
            let mut got = Sink::default();
            let r = lib(|| o.hex(&mut got, a[1] as usize));
            let (res, fired, net, znet, l0) = settle(g, r, false);
            text_check(g, res, fired, &got, &want, true);
            no_blocks(g, net);
            no_values(g, l0, znet);
            log(|| format!("{} {:?}", g, fired));
        }
        K::Tp => {
            need!(may(t, a[0] as usize, false) && a[1] <= MAXD);
            let addr = match slot(a[0]) {
                Slot::C(_, m) => m.addr,
                Slot::R(_, m) => m.addr,
                _ => return,
            } as u64;
            // Any address that fits can be packed, not only those of boxes.
            let addr = if a[3] == 0 { addr } else { wild_addr(a[3]) & MAXP };
            let d2 = if MAXD == 0 { 0 } else { (a[1] + 1 + a[3] % MAXD) % (MAXD + 1) };
            let r = lib(|| tp_report(addr, a[1], addr ^ 1 << (a[3] >> 8) % WIDTH, d2, a[3] == 0));
            let (bad, ..) = settle(g, r, false);
            if let Some(bad) = bad {
                if let Some((n, v)) = bad.first() {
                    let c = if n.ends_with("discriminant") && *n != "strip_discriminant" { "disc" } else { "addr" };
                    report(&format!("{}@tp", c), format!("{} of a packed pointer is {:#x}", n, v));
                }
            }
            if a[2] <= 9 {
                let style = a[2] as usize;
                let mut got = Sink::default();
                let r = lib(|| tp_fmt(addr, a[1], &mut got, style));
                let (res, fired, net, ..) = settle(g, r, false);
                no_blocks(g, net);
                let want = tp_fmt_ref(addr, a[1], WIDTH, style);
                if style < 9 {
                    text_check(g, res, fired, &got, &want, true);
                } else if let Some(Ok(())) = res {
                    for part in want.split('|') {
                        if fired.is_none() && !got.buf.contains(part) {
                            report("text@tp", format!("Debug of a packed pointer lacks {}", if part.len() < 6 { part } else { "the pointer" }));
                        }
                    }
                }
                if let (Some(Err(_)), None) = (res, fired) {
                    report("spurious-error@tp", "formatting failed without cause".into());
                }
            }
            log(|| format!("{} {}", g, a[1]));
        }
        K::RDrop => {
            need!(may(t, a[0] as usize, true));
            let _ = raw!(a[0]);
            let (o, m) = match std::mem::replace(slot(a[0]), Slot::Empty) {
                Slot::R(o, m) => (o, m),
                _ => unreachable!(),
            };
            set_all(&m.look, Own::Doomed);
            let r = lib(|| o.drop_obj());
            let (_, _, net, znet, _) = settle(g, r, false);
            // The type of the value is not known to the box: nothing can be released.
            expect_blocks(g, net, -1, 0);
            expect_z(g, znet, -(m.look.zs as i64), 0);
            log(|| g.to_string());
        }
        K::RAlias => {
            need!(may(t, a[0] as usize, true) && may(t, a[1] as usize, true) && slot(a[1]).is_empty());
            let (o, m) = raw!(a[0]);
            need!(RTYPES[m.ty].copy);
            m.aliased = true;
            let c = o.alias();
            let nm = RModel { ty: m.ty, d: m.d, look: m.look.clone(), addr: m.addr, aliased: true };
            *slot(a[1]) = Slot::R(c, nm);
        }
        K::RRefuse => {
            // a: _, type, how, pointer, discriminant: at least one does not fit.
            let rt = &RTYPES[a[1] as usize];
            let d = a[4].min(DISC_MAX);
            let how = a[2] as u8;
            let bad = d > MAXD || (how < 2 && a[3] > MAXP);
            need!(bad);
            let r = lib(|| (rt.reject_ptr)(a[3], d, how));
            let (x, _, net, znet, l0) = settle(g, r, true);
            if x.is_some() {
                report("not-refused@rrefuse", format!("pointer {:#x} with discriminant {} was accepted at {} bits", a[3], d, WIDTH));
            }
            no_blocks(g, net);
            no_values(g, l0, znet);
            log(|| format!("{} {}", g, x.is_none()));
        }
        K::ImMk | K::ImBump | K::ImRead | K::ImTake | K::ImEnd => crate::im::exec(op),
    }
}

/// Model of a fresh clone of `m`, looked up through the library; checks that it is equal and separate.
fn adopt_clone(g: &str, c: &dyn CObj, m: &CModel, l0: usize) -> Option<CModel> {
    let mut got = None;
    match c.observe(&mut |l| got = Some(l.clone())) {
        Outcome::Ok(()) => {}
        Outcome::Panic(_, e) => {
            report(&format!("unexpected-panic@{}", g), e);
            return None;
        }
    }
    let look = match got {
        Some(l) => l,
        None => {
            report(&format!("callback@{}", g), "the callback did not run".into());
            return None;
        }
    };
    if !look.same(&m.look) {
        report(&format!("value@{}", g), format!("the clone of {} is {}", m.look.brief(), look.brief()));
        return None;
    }
    if look.toks.iter().any(|t| m.look.toks.contains(t)) || look.hnds.iter().any(|t| m.look.hnds.contains(t)) {
        report(&format!("shared-value@{}", g), "the clone holds the original's own value".into());
        return None;
    }
    let mut fresh = ledger::free_since(l0);
    let mut want = look.toks.clone();
    fresh.sort_unstable();
    want.sort_unstable();
    if fresh != want {
        let c = if fresh.len() > want.len() { "leak-value" } else { "identity" };
        report(&format!("{}@{}", c, g), format!("cloning made values #{:?}, the clone holds #{:?}", fresh, want));
        return None;
    }
    set_all(&look, Own::Boxed);
    let sh = (SUBJECTS[m.subj].shape)(m.v);
    let addr = match c.addr() {
        Outcome::Ok(a) => a,
        _ => 0,
    };
    check_block(g, addr, sh.min, sh.max, sh.align);
    check_disc(g, c.disc(), m.v as u64);
    Some(CModel { subj: m.subj, v: m.v, seed: m.seed, look, addr, aliased: false })
}

fn text_check(g: &str, res: Option<std::fmt::Result>, fired: Option<Fault>, got: &Sink, want: &str, want_ok: bool) {
    if got.after {
        report(&format!("text-after-error@{}", g), "output went on after the writer failed".into());
        return;
    }
    match (res, fired) {
        (Some(Ok(())), None) => {
            if got.buf != want || !want_ok {
                report(&format!("text@{}", g), format!("printed {:?} instead of {:?}", clip(&got.buf), clip(want)));
            }
        }
        (Some(Err(_)), None) => report(&format!("spurious-error@{}", g), "formatting failed without cause".into()),
        (Some(Ok(())), Some(f)) => {
            report(&format!("swallowed-error@{}", g), format!("{} was not reported", hook::FAULT_NAMES[f as usize]))
        }
        (_, Some(_)) => {
            if !want.starts_with(&got.buf) {
                report(&format!("text@{}", g), format!("printed {:?} before failing, expected a prefix of {:?}", clip(&got.buf), clip(want)));
            }
        }
        (None, None) => {}
    }
}
fn clip(s: &str) -> String {
    s.chars().take(120).collect()
}

fn r_intact(g: &str, o: &mut Box<dyn RObj>, m: &RModel) {
    if violated() {
        return;
    }
    check_disc(g, o.disc(), m.d);
    check_addr(g, o.addr(0), m.addr);
    match o.look_shared() {
        Outcome::Ok(l) => same(g, &l, &m.look),
        Outcome::Panic(_, e) => report(&format!("unexpected-panic@{}", g), e),
    }
}

fn r_take(g: &str, o: Box<dyn RObj>, m: RModel) {
    let nb = (RTYPES[m.ty].size > 0) as i64;
    let r = lib(|| o.take());
    let (v, _, net, znet, l0) = settle(g, r, false);
    if let Some(v) = v {
        same(g, &v.look(), &m.look);
        no_values(g, l0, znet);
        expect_blocks(g, net, if m.aliased { -1 } else { -nb }, 0);
        if count_own(&m.look, Own::Boxed) != m.look.toks.len() && !violated() {
            report(&format!("early-drop@{}", g), "the value was dropped while being taken out".into());
        }
        if w().known.strict && net == 0 && nb > 0 && !m.aliased {
            note("take-leaks-block", &format!("leak-block@{}", g), "the block of a box whose value was taken out is never released".into());
        }
        set_all(&m.look, Own::Free);
        log(|| format!("{} {:x}", g, v.look().hash()));
        drop_checked(g, &m.look, || drop(v));
    }
}

/// Gives the container a discriminant that names no variant and tries to use it.
#[allow(clippy::too_many_arguments)]
fn foreign(
    o: Box<dyn CObj>,
    m: CModel,
    d: u64,
    mask: u64,
    end: u64,
    mut other: Option<(&mut Box<dyn CObj>, &CModel, bool)>,
    op: u64,
) -> Option<(Box<dyn CObj>, CModel)> {
    let s = &SUBJECTS[m.subj];
    let o = match o.retag(d) {
        Outcome::Ok(o) => o,
        Outcome::Panic(_, e) => {
            report("unexpected-panic@foreign", e);
            return None;
        }
    };
    let mut tries: Vec<u8> = Vec::new();
    for b in 0..13u8 {
        if mask >> b & 1 == 1 {
            tries.push(b);
        }
    }
    log(|| format!("foreign {} {:x}", d, mask));
    let toks0 = ledger::L.get().toks.len();
    for b in tries {
        let mut ran = false;
        let mut sink = Sink::default();
        let r = match b {
            0 => lib(|| o.observe(&mut |_| ran = true)),
            1 if s.caps & CLONE != 0 => lib(|| {
                o.clone_obj(1).map(|c| {
                    c.abandon();
                })
            }),
            2 if s.caps & EQ != 0 => lib(|| o.cmp(&*o, 0, 1).map(|_| ())),
            3 if s.caps & DBG != 0 => lib(|| o.fmt(&mut sink, 0, 1).map(|_| ())),
            4 if s.caps & ORD != 0 => lib(|| o.cmp(&*o, 7, 1).map(|_| ())),
            5 if s.caps & PORD != 0 => lib(|| o.cmp(&*o, 6, 1).map(|_| ())),
            6 if s.caps & CLONE != 0 && s.caps & COPY == 0 => lib(|| o.clone_obj(0).map(|c| c.abandon())),
            7 if s.caps & DBG != 0 => {
                let n = if s.caps & DISP != 0 { DISP_STYLES } else { DBG_STYLES };
                lib(|| o.fmt(&mut sink, (op % n) as usize, 0).map(|_| ()))
            }
            8 | 9 if s.caps & EQ != 0 && other.is_some() => {
                let n = if s.caps & ORD != 0 { 8 } else if s.caps & PORD != 0 { 7 } else { 2 };
                let (q, ..) = other.as_ref().unwrap();
                let (x, y): (&dyn CObj, &dyn CObj) = if b == 8 { (&*o, &***q) } else { (&***q, &*o) };
                lib(|| x.cmp(y, (op % n) as u8, (op >> 4 & 1) as u8).map(|_| ()))
            }
            10 if other.is_some() => lib(|| o.observe2(&***other.as_ref().map(|x| &x.0).unwrap(), &mut |_, _| ran = true)),
            11 if other.is_some() => lib(|| other.as_ref().unwrap().0.observe2(&*o, &mut |_, _| ran = true)),
            12 if s.caps & CLONE != 0 && s.caps & COPY == 0 && other.as_ref().map_or(false, |x| x.2) => {
                let q = &mut other.as_mut().unwrap().0;
                lib(|| q.clone_from_obj(&*o, (op >> 4 & 1) as u8))
            }
            _ => continue,
        };
        let name = ["look", "clone", "eq", "fmt", "cmp", "partial_cmp", "clone0", "fmt0", "cmp-good", "cmp-good", "look2", "look2", "clonefrom"][b as usize];
        let (x, _, net, znet, l0) = settle("foreign", r, true);
        if x.is_some() {
            report(&format!("foreign-accepted@{}", name), format!("discriminant {} of {} variants was decoded by {}", d, s.nvar, name));
        }
        if ran {
            report(&format!("foreign-callback@{}", name), "the callback ran for a discriminant that names no variant".into());
        }
        if b == 3 && !sink.buf.is_empty() {
            report(&format!("foreign-text@{}", name), "something was printed".into());
        }
        if ledger::L.get().toks.len() != toks0 && sched::S.get().n <= 1 {
            report(&format!("foreign-value@{}", name), "values were made".into());
        }
        no_blocks("foreign", net);
        no_values("foreign", l0, znet);
        if violated() {
            return None;
        }
    }
    check_disc("foreign", o.disc(), d);
    check_addr("foreign", o.addr(), m.addr);
    if let Some((q, n, _)) = other {
        intact("foreign", &**q, n);
    }
    if end == 0 {
        return match o.retag(m.v as u64) {
            Outcome::Ok(o) => {
                intact("foreign", &*o, &m);
                Some((o, m))
            }
            Outcome::Panic(_, e) => {
                report("unexpected-panic@foreign", e);
                None
            }
        };
    }
    // The consuming attempts.
    let how = end - 1;
    let r = lib(|| {
        o.take(how as u8).map(|v| {
            // Never touch what came out.
            std::mem::forget(v);
        })
    });
    let (x, _, net, znet, l0) = settle("foreign", r, true);
    let name = if how == 0 { "into_inner" } else { "from_tagged_box" };
    if x.is_some() {
        report(&format!("foreign-accepted@{}", name), format!("discriminant {} of {} variants was decoded by {}", d, s.nvar, name));
        return None;
    }
    if net != 0 || count_own(&m.look, Own::Boxed) != m.look.toks.len() || znet != 0 {
        report(&format!("foreign-consumed@{}", name), "the stored value did not survive the refusal".into());
        return None;
    }
    no_values("foreign", l0, znet);
    if has_block(&m) > 0 && heap::live_block(m.addr).is_none() {
        report(&format!("foreign-consumed@{}", name), "the storage did not survive the refusal".into());
        return None;
    }
    match (s.adopt)(m.addr, m.v as u64) {
        Outcome::Ok(o) => {
            intact("foreign", &*o, &m);
            Some((o, m))
        }
        Outcome::Panic(_, e) => {
            report("unexpected-panic@foreign", e);
            None
        }
    }
}

/// Takes every remaining box apart and compares with the model.
fn audit() {
    OP.with(|o| o.set(9999));
    for b in 0..NMBOX {
        if let Some(i) = w().slots.iter().position(|s| s.is_empty()) {
            w().slots[i] = std::mem::replace(&mut w().mbox[b], Slot::Empty);
        }
    }
    for i in 0..NSLOT {
        if violated() {
            return;
        }
        match std::mem::replace(slot(i as u64), Slot::Empty) {
            Slot::Empty => {}
            Slot::C(o, m) => {
                intact("audit", &*o, &m);
                if violated() {
                    return;
                }
                let r = lib(|| o.take(i as u8 & 1));
                let (v, _, net, znet, l0) = settle("audit", r, false);
                if let Some(v) = v {
                    after_take("audit", &*v, &m, net, znet, l0);
                    if !violated() {
                        drop_checked("audit", &m.look, || drop(v));
                    }
                }
            }
            Slot::R(mut o, m) => {
                r_intact("audit", &mut o, &m);
                if violated() {
                    return;
                }
                r_take("audit", o, m);
            }
        }
    }
    crate::im::audit();
    if !violated() {
        heap::check_guards();
        heap::check_poison();
    }
}

pub struct Report {
    pub violation: Option<Violation>,
    pub also: Vec<Violation>,
    pub hash: u64,
    pub order: u64,
    pub logs: [u64; 8],
    pub text: Vec<String>,
    pub trace: Vec<(u64, usize)>,
    pub switches: u64,
    pub steps: u64,
    pub done: u64,
    pub skipped: u64,
    pub known: HashMap<&'static str, u64>,
    pub allocs: u64,
    pub frees: u64,
    pub reuses: u64,
}

/// The state of the run in progress, for the watchdog.
pub fn thread_main(i: usize) {
    loop {
        sched::enter(i);
        NET.with(|n| n.set(0));
        ZNET.with(|n| n.set(0));
        for j in 0..w().lists[i].len() {
            let k = w().lists[i][j];
            run_op(k);
            if violated() {
                break;
            }
        }
        sched::leave(i);
    }
}

/// Workers are made once per process and reused by every run.
pub fn start_workers(n: usize) {
    static STARTED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let have = STARTED.load(std::sync::atomic::Ordering::SeqCst);
    for i in have..n {
        let h = std::thread::Builder::new()
            .stack_size(128 << 20)
            .spawn(move || {
                // Panic machinery allocates on first use: not during a run.
                let _ = std::panic::catch_unwind(|| panic!("warm {}", i));
                thread_main(i)
            })
            .unwrap();
        sched::set_handle(i, h.thread().clone());
        std::mem::forget(h);
    }
    if n > have {
        STARTED.store(n, std::sync::atomic::Ordering::SeqCst);
    }
}

pub fn run(plan: &Plan, listed: &[String], strict: bool, text: bool) -> Report {
    let g = G.get();
    g.violation = None;
    g.also = Vec::new();
    g.log = [0; 8];
    g.order = 0;
    g.text_log = if text { Some(Vec::new()) } else { None };
    let nt = plan.threads.clamp(1, 4);
    if nt > 1 {
        start_workers(nt);
    }
    let mut lists: [Vec<usize>; 5] = Default::default();
    let mut setup = Vec::new();
    for (i, o) in plan.ops.iter().enumerate() {
        if o.t == SETUP {
            setup.push(i);
        } else if o.t < nt {
            lists[o.t].push(i);
        }
    }
    *W.get() = Some(World {
        slots: (0..NSLOT).map(|_| Slot::Empty).collect(),
        mbox: (0..NMBOX).map(|_| Slot::Empty).collect(),
        ims: (0..crate::im::NIM).map(|_| None).collect(),
        ops: plan.ops.clone(),
        lists,
        known: Known { listed: listed.to_vec(), seen: HashMap::new(), strict },
        done: 0,
        skipped: 0,
    });
    ledger::begin();
    heap::begin(plan.heap);
    NET.with(|n| n.set(0));
    ZNET.with(|n| n.set(0));
    sched::begin(nt, plan.policy.clone());
    TID.with(|t| t.set(NOT_SIM));
    for i in setup {
        if violated() {
            break;
        }
        run_op(i);
    }
    if !violated() {
        if nt == 1 {
            TID.with(|t| t.set(0));
            for j in 0..w().lists[0].len() {
                let k = w().lists[0][j];
                run_op(k);
                if violated() {
                    break;
                }
            }
            TID.with(|t| t.set(NOT_SIM));
        } else {
            sched::drive();
        }
    }
    if !violated() {
        audit();
    }
    heap::H.get().on = false;
    let h = heap::H.get();
    let s = sched::S.get();
    let wd = w();
    let rep = Report {
        violation: g.violation.clone(),
        also: g.also.clone(),
        hash: simrt::rng::mix(g.order ^ s.order),
        order: s.order,
        logs: g.log,
        text: g.text_log.take().unwrap_or_default(),
        trace: s.trace.clone(),
        switches: s.trace.len() as u64,
        steps: s.step,
        done: wd.done,
        skipped: wd.skipped,
        known: std::mem::take(&mut wd.known.seen),
        allocs: h.allocs,
        frees: h.frees,
        reuses: h.reuses,
    };
    // Whatever is left after a violation is not to be trusted.
    let slots = std::mem::take(&mut wd.slots);
    let mb = std::mem::take(&mut wd.mbox);
    if rep.violation.is_some() {
        std::mem::forget(slots);
        std::mem::forget(mb);
        std::mem::forget(std::mem::take(&mut wd.ims));
    }
    rep
}
