//! Seeded generation of plans: what happens, where faults strike, how the scheduler and the heap behave.
use crate::obj::*;
use crate::subj::{RTYPES, SUBJECTS};
use crate::world::*;
use simrt::heap::{HeapCfg, NZONES};
use simrt::hook::Fault;
use simrt::rng::Rng;
use simrt::sched::Policy;

pub const PROPS: [&str; 14] =
    ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14"];

struct Profile {
    w: [u32; NK],
    /// Probability (percent) of one thread only.
    single: u64,
    /// Percent of ops with a fault, for runs that have faults (`faulty` percent of the runs).
    faulty: u64,
    fault: u64,
    kinds: &'static [Fault],
    /// Percent of values from the tiny domain.
    tiny: u64,
    /// Percent of created boxes whose discriminant does not fit.
    refuse: u64,
    /// Capabilities an enum should have (half of the time).
    caps: u32,
}

const ALL_FAULTS: &[Fault] = &[
    Fault::AllocFail, Fault::ClonePanic, Fault::CmpPanic, Fault::FmtPanic, Fault::FmtErr, Fault::SinkErr,
    Fault::SinkPanic, Fault::CallbackPanic,
];
const PANICS: &[Fault] =
    &[Fault::ClonePanic, Fault::CmpPanic, Fault::FmtPanic, Fault::SinkPanic, Fault::CallbackPanic, Fault::FmtErr, Fault::SinkErr];

fn weights(list: &[(K, u32)]) -> [u32; NK] {
    let mut w = [0; NK];
    for (k, x) in list {
        w[*k as usize] = *x;
    }
    w
}

fn profile(prop: &str) -> Profile {
    use K::*;
    let base = Profile { w: [0; NK], single: 80, faulty: 30, fault: 20, kinds: ALL_FAULTS, tiny: 25, refuse: 3, caps: 0 };
    match prop {
        "C01" => Profile {
            w: weights(&[(Mk, 30), (Take, 22), (Look, 14), (Look2, 3), (Clone, 4), (CloneFrom, 1), (Drop, 4), (Alias, 4),
                (Poke, 6), (Rewrap, 8), (Disc, 3), (Send, 2), (Recv, 4), (RMk, 3), (RTake, 2), (Cmp, 1), (Fmt, 1)]),
            faulty: 15,
            tiny: 15,
            ..base
        },
        "C02" => Profile {
            w: weights(&[(RMk, 24), (RLook, 14), (RWrite, 14), (RRaw, 10), (RBox, 10), (RTake, 10), (RDisc, 3), (Tp, 5),
                (RDrop, 2), (RAlias, 3), (Mk, 3), (Take, 2), (Send, 2), (Recv, 4)]),
            faulty: 10,
            tiny: 15,
            ..base
        },
        "C03" => Profile {
            w: weights(&[(RMk, 26), (RDisc, 8), (RRaw, 10), (RBox, 6), (RWrite, 4), (RTake, 4), (RLook, 4), (RRefuse, 12), (Tp, 8),
                (Mk, 14), (Disc, 8), (Rewrap, 4), (Take, 4), (Clone, 4), (CloneFrom, 1), (Poke, 2), (Look, 3), (Send, 1), (Recv, 2)]),
            faulty: 10,
            refuse: 30,
            tiny: 10,
            ..base
        },
        "C04" => Profile {
            w: weights(&[(Mk, 24), (Foreign, 40), (Take, 5), (Look, 4), (Rewrap, 2), (Clone, 2), (Drop, 1)]),
            single: 90,
            faulty: 0,
            ..base
        },
        "C05" => Profile {
            w: weights(&[(Mk, 24), (RMk, 24), (Clone, 14), (CloneFrom, 8), (Take, 10), (RTake, 6), (Look, 3), (RLook, 3),
                (Cmp, 2), (Fmt, 2), (RBox, 2), (Drop, 1)]),
            faulty: 90,
            fault: 45,
            kinds: &[Fault::AllocFail],
            refuse: 1,
            ..base
        },
        "C06" => Profile {
            w: weights(&[(Mk, 22), (Look, 14), (Look2, 6), (Clone, 10), (CloneFrom, 4), (Cmp, 14), (Fmt, 14), (Take, 10),
                (RMk, 5), (RLook, 5), (RTake, 3), (Hex, 3), (RHex, 2), (Disc, 2), (Drop, 1), (Alias, 1)]),
            faulty: 85,
            fault: 35,
            kinds: PANICS,
            tiny: 45,
            ..base
        },
        "C07" => Profile {
            w: weights(&[(Mk, 22), (Take, 14), (Drop, 6), (Poke, 6), (Clone, 8), (CloneFrom, 4), (Look, 5), (Cmp, 4), (Fmt, 3),
                (Rewrap, 4), (RMk, 18), (RTake, 8), (RBox, 14), (RRaw, 4), (RWrite, 8), (RLook, 4), (RDrop, 4), (Alias, 2),
                (RAlias, 2), (Hex, 1), (Send, 1), (Recv, 2)]),
            faulty: 30,
            ..base
        },
        "C08" => Profile {
            w: weights(&[(Mk, 22), (Take, 12), (Drop, 10), (Clone, 8), (CloneFrom, 6), (Look, 5), (Look2, 2), (Cmp, 5), (Fmt, 5),
                (Rewrap, 4), (RMk, 16), (RTake, 8), (RBox, 10), (RRaw, 4), (RLook, 3), (RDrop, 3), (RRefuse, 3), (Hex, 1)]),
            faulty: 55,
            fault: 30,
            refuse: 10,
            ..base
        },
        "C09" => Profile {
            w: weights(&[(Mk, 20), (Clone, 26), (CloneFrom, 12), (Poke, 10), (Take, 12), (Look, 8), (Drop, 5), (Cmp, 4), (Alias, 1),
                (Send, 1), (Recv, 2)]),
            faulty: 55,
            fault: 30,
            kinds: &[Fault::ClonePanic, Fault::ClonePanic, Fault::AllocFail],
            caps: CLONE,
            ..base
        },
        "C10" => Profile {
            w: weights(&[(Mk, 24), (Cmp, 50), (Clone, 5), (Take, 4), (Poke, 4), (Alias, 3), (Look, 2), (CloneFrom, 1)]),
            faulty: 35,
            fault: 20,
            kinds: &[Fault::CmpPanic],
            tiny: 75,
            caps: EQ,
            ..base
        },
        "C11" => Profile {
            w: weights(&[(Mk, 22), (Fmt, 44), (Hex, 10), (RMk, 6), (RHex, 6), (Tp, 6), (Take, 3), (Clone, 2), (Look, 1), (Poke, 3)]),
            faulty: 65,
            fault: 40,
            kinds: &[Fault::FmtPanic, Fault::FmtErr, Fault::FmtErr, Fault::SinkErr, Fault::SinkErr, Fault::SinkPanic],
            tiny: 20,
            caps: DBG,
            ..base
        },
        "C12" => Profile {
            w: weights(&[(Mk, 18), (Take, 9), (Look, 12), (Look2, 4), (Clone, 9), (CloneFrom, 3), (Cmp, 9), (Fmt, 7), (Hex, 2),
                (Disc, 3), (Drop, 3), (Poke, 3), (Rewrap, 3), (Alias, 1), (RMk, 8), (RLook, 6), (RWrite, 3), (RRaw, 3),
                (RBox, 4), (RTake, 3), (RDisc, 1), (RHex, 1), (Tp, 1), (Send, 6), (Recv, 12), (Foreign, 1), (ImMk, 3),
                (ImBump, 5), (ImRead, 2), (ImTake, 2), (ImEnd, 1)]),
            single: 0,
            faulty: 40,
            fault: 15,
            ..base
        },
        "C13" => Profile {
            w: weights(&[(ImMk, 20), (ImBump, 40), (ImRead, 8), (ImTake, 16), (ImEnd, 10), (Mk, 2), (Take, 1), (Clone, 1)]),
            single: 45,
            faulty: 10,
            ..base
        },
        _ => Profile {
            // C14: every operation whose outcome does not depend on the capacity.
            w: weights(&[(Mk, 20), (Take, 12), (Look, 6), (Look2, 2), (Clone, 8), (CloneFrom, 3), (Cmp, 8), (Fmt, 7), (Disc, 4),
                (Drop, 2), (Alias, 1), (Poke, 4), (Rewrap, 6), (RMk, 14), (RLook, 5), (RWrite, 5), (RRaw, 8), (RBox, 6),
                (RTake, 5), (RDisc, 4), (Tp, 4), (Foreign, 2), (Send, 2), (Recv, 4), (Hex, 4), (RHex, 3)]),
            single: 75,
            faulty: 25,
            ..base
        },
    }
}

#[derive(Clone, Copy, PartialEq)]
enum P {
    No,
    C { s: usize, v: usize, al: bool },
    R { ty: usize, al: bool },
}

struct G<'a> {
    r: Rng,
    pr: &'a Profile,
    maxd: u64,
    /// Whether discriminants that do not fit may be used.
    over: bool,
    slots: [P; NSLOT],
    mb: [P; NMBOX],
    used: [bool; NMBOX],
    from: [usize; NMBOX],
    im: [Option<u64>; crate::im::NIM],
    subjects: Vec<usize>,
    /// Enums this run concentrates on.
    focus: Vec<usize>,
    threads: usize,
    /// One thread with four times the boxes and many more operations.
    long: bool,
}

fn limit(s: &Subject) -> usize {
    s.nvar
}
use crate::subj::Subject;

impl<'a> G<'a> {
    fn mine(&self, t: usize) -> std::ops::Range<usize> {
        if t == SETUP {
            SHARED0..SHARED0 + 16
        } else if self.long {
            0..SHARED0
        } else {
            t * PER_THREAD..(t + 1) * PER_THREAD
        }
    }
    fn empty(&mut self, t: usize) -> Option<usize> {
        let c: Vec<usize> = self.mine(t).filter(|&i| self.slots[i] == P::No).collect();
        if c.is_empty() { None } else { Some(*self.r.pick(&c)) }
    }
    fn find(&mut self, t: usize, write: bool, f: impl Fn(&P) -> bool) -> Option<usize> {
        let mut c: Vec<usize> = self.mine(t).filter(|&i| f(&self.slots[i])).collect();
        if !write && t != SETUP && self.threads > 1 {
            let sh: Vec<usize> = (SHARED0..SHARED0 + 16).filter(|&i| f(&self.slots[i])).collect();
            if !sh.is_empty() && (c.is_empty() || self.r.chance(2, 3)) {
                c = sh;
            }
        }
        if c.is_empty() { None } else { Some(*self.r.pick(&c)) }
    }
    fn seed(&mut self) -> u64 {
        if self.r.chance(self.pr.tiny, 100) { self.r.below(64) } else { 64 + (self.r.next() >> 20) }
    }
    fn subject(&mut self) -> usize {
        let pool = if !self.focus.is_empty() && self.r.chance(7, 10) { self.focus.clone() } else { self.subjects.clone() };
        *self.r.pick(&pool)
    }
    fn variant(&mut self, s: usize) -> usize {
        let n = limit(&SUBJECTS[s]);
        match self.r.below(8) {
            0 => n - 1,
            1 => (self.maxd as usize).min(n - 1),
            2 if self.over => (self.maxd as usize + 1).min(n - 1),
            // Not mostly refusals.
            3..=6 if n as u64 > self.maxd => self.r.below(self.maxd + 1) as usize,
            _ => self.r.below(n as u64) as usize,
        }
    }
    fn disc(&mut self) -> u64 {
        let m = self.maxd;
        match self.r.below(6) {
            0 => 0,
            1 => m,
            2 => m - m.min(1),
            3 => (1u64 << self.r.below(16)).min(m),
            _ => self.r.below(m + 1),
        }
    }
    fn bad_disc(&mut self) -> u64 {
        let m = self.maxd;
        match self.r.below(5) {
            0 => m + 1,
            1 => DISC_MAX,
            2 => (m + 1) * (1 + self.r.below((DISC_MAX / (m + 1)).max(1))),
            3 => m + 1 + self.r.below(DISC_MAX - m.min(DISC_MAX) + 1),
            _ => (m + 1) | self.r.below(m + 1),
        }
        .min(DISC_MAX)
    }
    fn cs(p: &P) -> bool {
        matches!(p, P::C { .. })
    }
    fn rs(p: &P) -> bool {
        matches!(p, P::R { .. })
    }
    fn caps(p: &P, c: u32) -> bool {
        match p {
            P::C { s, .. } => SUBJECTS[*s].caps & c == c,
            _ => false,
        }
    }
    fn partner(&mut self, t: usize, a: usize) -> Option<usize> {
        let (s, v) = match self.slots[a] {
            P::C { s, v, .. } => (s, v),
            _ => return None,
        };
        if self.r.chance(1, 6) {
            return Some(a); // with itself
        }
        if self.r.chance(1, 2) {
            if let Some(b) = self.find(t, false, |p| matches!(p, P::C { s: x, v: y, .. } if *x == s && *y == v)) {
                return Some(b);
            }
        }
        self.find(t, false, |p| matches!(p, P::C { s: x, .. } if *x == s))
    }

    /// One operation of thread `t`, or none if nothing of the kind can be done now.
    fn op(&mut self, t: usize, k: K) -> Option<Op> {
        let mut o = Op { t, k, a: [0; 5], fault: Fault::None, nth: 0 };
        match k {
            K::Mk => {
                let d = self.empty(t)?;
                // Often a sibling of an enum that is already there.
                let old = if self.r.chance(1, 2) { self.find(t, false, Self::cs) } else { None };
                let s = match old.map(|i| self.slots[i]) {
                    Some(P::C { s, .. }) => s,
                    _ => self.subject(),
                };
                let v = match old.map(|i| self.slots[i]) {
                    Some(P::C { v, .. }) if self.r.chance(1, 2) => v,
                    _ => self.variant(s),
                };
                o.a = [d as u64, s as u64, v as u64, self.seed(), self.r.below(4)];
                if v as u64 <= self.maxd {
                    self.slots[d] = P::C { s, v, al: false };
                }
            }
            K::Take => {
                let a = self.find(t, true, Self::cs)?;
                let put = match self.slots[a] {
                    P::C { al: false, .. } if self.r.chance(1, 3) => 1 + self.r.below(4),
                    _ => 0,
                };
                o.a = [a as u64, self.r.below(2), put, 0, 0];
                if put == 0 {
                    self.slots[a] = P::No;
                }
            }
            K::Look | K::Disc => o.a[0] = self.find(t, false, Self::cs)? as u64,
            K::Look2 => {
                let a = self.find(t, false, Self::cs)?;
                o.a = [a as u64, self.partner(t, a)? as u64, 0, 0, 0];
            }
            K::Clone => {
                let d = self.empty(t)?;
                let a = self.find(t, false, |p| Self::caps(p, CLONE))?;
                let via = self.r.below(2);
                if let P::C { s, v, al } = self.slots[a] {
                    let copy = via == 0 && SUBJECTS[s].caps & COPY != 0;
                    self.slots[d] = P::C { s, v, al: copy };
                    self.slots[a] = P::C { s, v, al: al || copy };
                }
                o.a = [a as u64, d as u64, via, 0, 0];
            }
            K::CloneFrom => {
                let a = self.find(t, true, |p| Self::caps(p, CLONE) && matches!(p, P::C { al: false, .. }))?;
                let b = self.partner(t, a)?;
                if a == b {
                    return None;
                }
                if let P::C { s, v, .. } = self.slots[b] {
                    self.slots[a] = P::C { s, v, al: false };
                }
                let copy = matches!(self.slots[a], P::C { s, .. } if SUBJECTS[s].caps & COPY != 0);
                o.a = [a as u64, b as u64, if copy { 1 } else { self.r.below(2) }, 0, 0];
            }
            K::Cmp => {
                let a = self.find(t, false, |p| Self::caps(p, EQ))?;
                let b = self.partner(t, a)?;
                let c = match self.slots[a] {
                    P::C { s, .. } => SUBJECTS[s].caps,
                    _ => 0,
                };
                let n = if c & ORD != 0 { 8 } else if c & PORD != 0 { 7 } else { 2 };
                o.a = [a as u64, b as u64, self.r.below(n), self.r.below(2), 0];
            }
            K::Fmt => {
                let a = self.find(t, false, |p| Self::caps(p, DBG))?;
                let n = if Self::caps(&self.slots[a], DISP) { DISP_STYLES } else { DBG_STYLES };
                o.a = [a as u64, self.r.below(n), 0, 0, 0];
            }
            K::Hex => o.a = [self.find(t, false, Self::cs)? as u64, self.r.below(HEX_STYLES), 0, 0, 0],
            K::Drop => {
                let a = self.find(t, true, Self::cs)?;
                o.a[0] = a as u64;
                self.slots[a] = P::No;
            }
            K::Alias => {
                let d = self.empty(t)?;
                let a = self.find(t, true, |p| Self::caps(p, COPY))?;
                if let P::C { s, v, .. } = self.slots[a] {
                    self.slots[a] = P::C { s, v, al: true };
                    self.slots[d] = self.slots[a];
                }
                o.a = [a as u64, d as u64, 0, 0, 0];
            }
            K::Poke => {
                let a = self.find(t, true, |p| matches!(p, P::C { al: false, .. }))?;
                o.a = [a as u64, self.seed(), self.r.below(2), 0, 0];
            }
            K::Rewrap => o.a = [self.find(t, true, Self::cs)? as u64, self.r.below(3), 0, 0, 0],
            K::Foreign => {
                let m = self.maxd;
                let a = self.find(t, true, |p| matches!(p, P::C { s, al: false, .. } if (SUBJECTS[*s].nvar as u64) <= m))?;
                let n = match self.slots[a] {
                    P::C { s, .. } => SUBJECTS[s].nvar as u64,
                    _ => 0,
                };
                let span = m - n + 1;
                let d = match self.r.below(7) {
                    0 => n,
                    1 => m,
                    2 => n + self.r.below(span.min(4)),
                    // The same low bits as a variant.
                    3 => (self.r.below(n) + (1u64 << (1 + self.r.below(16)))).clamp(n, m),
                    4 => (self.r.below(n) + 256).clamp(n, m),
                    _ => n + self.r.below(span),
                };
                let mate = if self.r.chance(2, 3) {
                    self.partner(t, a).filter(|b| *b != a).map_or(0, |b| b as u64 + 1)
                } else {
                    0
                };
                o.a = [a as u64, d, 1 + self.r.below(8191), self.r.below(3), mate | self.r.below(256) << 8];
            }
            K::Send => {
                let a = self.find(t, true, |p| !matches!(p, P::No | P::C { al: true, .. } | P::R { al: true, .. }))?;
                let b = self.used.iter().position(|u| !u)?;
                self.used[b] = true;
                self.from[b] = t;
                self.mb[b] = self.slots[a];
                self.slots[a] = P::No;
                o.a = [a as u64, b as u64, 0, 0, 0];
            }
            K::Recv => {
                let b = (0..NMBOX).find(|&b| self.mb[b] != P::No && self.from[b] != t)?;
                let d = self.empty(t)?;
                self.slots[d] = self.mb[b];
                self.mb[b] = P::No;
                o.a = [d as u64, b as u64, 0, 0, 0];
            }
            K::RMk => {
                let d = self.empty(t)?;
                let mut ty = self.r.below(RTYPES.len() as u64) as usize;
                if RTYPES[ty].size > 10_000 && !self.r.chance(1, 2 + RTYPES[ty].size as u64 / 30_000) {
                    ty = self.r.below(RTYPES.len() as u64) as usize;
                }
                let bad = self.over && DISC_MAX > self.maxd && self.r.chance(self.pr.refuse, 100);
                let disc = if bad { self.bad_disc() } else { self.disc() };
                o.a = [d as u64, ty as u64, disc, self.seed(), if RTYPES[ty].size == 0 { self.r.below(5) } else { self.r.below(4) }];
                if disc <= self.maxd {
                    self.slots[d] = P::R { ty, al: false };
                }
            }
            K::RLook => o.a = [self.find(t, false, Self::rs)? as u64, self.r.below(LOOKS as u64), 0, 0, 0],
            K::RWrite => {
                let a = self.find(t, true, |p| matches!(p, P::R { al: false, .. }))?;
                o.a = [a as u64, self.r.below(WRITES as u64), self.seed(), 0, 0];
            }
            K::RRaw => o.a = [self.find(t, true, Self::rs)? as u64, self.disc(), self.r.below(2), 0, 0],
            K::RBox => {
                let a = self.find(t, true, |p| matches!(p, P::R { al: false, .. }))?;
                let end = self.r.below(2);
                if end == 1 {
                    self.slots[a] = P::No;
                }
                o.a = [a as u64, self.disc(), end, 0, 0];
            }
            K::RTake | K::RDrop => {
                let a = self.find(t, true, Self::rs)?;
                self.slots[a] = P::No;
                o.a[0] = a as u64;
            }
            K::RDisc => o.a[0] = self.find(t, false, Self::rs)? as u64,
            K::RHex => o.a = [self.find(t, false, Self::rs)? as u64, self.r.below(HEX_STYLES), 0, 0, 0],
            K::Tp => {
                let a = self.find(t, false, |p| *p != P::No)?;
                let wild = if self.r.chance(1, 2) { 0 } else { self.seed() | 1 };
                o.a = [a as u64, self.disc(), self.r.below(13), wild, 0];
            }
            K::RAlias => {
                let d = self.empty(t)?;
                let a = self.find(t, true, |p| matches!(p, P::R { ty, .. } if RTYPES[*ty].copy))?;
                if let P::R { ty, .. } = self.slots[a] {
                    self.slots[a] = P::R { ty, al: true };
                    self.slots[d] = self.slots[a];
                }
                o.a = [a as u64, d as u64, 0, 0, 0];
            }
            K::RRefuse => {
                if !self.over {
                    return None;
                }
                let ty = self.r.below(RTYPES.len() as u64);
                let how = self.r.below(4);
                let (mut p, mut d) = (self.r.next() & MAXP, self.disc());
                let bad_p = how < 2 && (DISC_MAX <= self.maxd || self.r.chance(2, 3));
                if bad_p {
                    p = match self.r.below(5) {
                        0 => MAXP + 1,
                        1 => u64::MAX,
                        2 => (MAXP + 1) | self.r.next() & MAXP,
                        3 => 1 << 63 | self.r.next() & MAXP,
                        _ => self.r.next() | MAXP + 1,
                    };
                } else if DISC_MAX > self.maxd {
                    d = self.bad_disc();
                } else {
                    return None;
                }
                o.a = [0, ty, how, p, d];
            }
            K::ImMk | K::ImBump | K::ImRead | K::ImTake | K::ImEnd => return self.im_op(t, o),
        }
        Some(o)
    }
    fn im_op(&mut self, t: usize, mut o: Op) -> Option<Op> {
        use crate::im::*;
        let own: Vec<usize> = if t == SETUP { (IM_SHARED..NIM).collect() } else { (t * IM_PER_THREAD..(t + 1) * IM_PER_THREAD).collect() };
        let mut c: Vec<usize> = own.clone();
        if t != SETUP && !matches!(o.k, K::ImMk | K::ImEnd) {
            c.extend(IM_SHARED..NIM);
        }
        c.retain(|&i| self.im[i].is_none() == (o.k == K::ImMk));
        match o.k {
            K::ImBump => c.retain(|&i| self.im[i].map_or(false, counts)),
            K::ImTake => c.retain(|&i| self.im[i].map_or(false, |k| !counts(k))),
            _ => {}
        }
        if c.is_empty() {
            return None;
        }
        let s = *self.r.pick(&c);
        match o.k {
            K::ImMk => {
                // Shared slots hold what has a typed view: it gives the stored value itself.
                let kind = if t == SETUP { 3 + self.r.below(KINDS - 3) } else { self.r.below(KINDS) };
                o.a = [s as u64, kind, self.seed(), self.disc(), 0];
                if variant(kind).map_or(true, |v| v <= self.maxd) {
                    self.im[s] = Some(kind);
                }
            }
            K::ImEnd => {
                o.a = [s as u64, self.r.below(6), 0, 0, 0];
                self.im[s] = None;
            }
            _ => o.a = [s as u64, self.r.below(ROUTES), 0, 0, 0],
        }
        Some(o)
    }
    fn fault(&mut self, o: &mut Op) {
        let f = *self.r.pick(self.pr.kinds);
        let suits = match o.k {
            K::Mk | K::RMk => f == Fault::AllocFail,
            K::Clone | K::CloneFrom => matches!(f, Fault::AllocFail | Fault::ClonePanic),
            K::Look | K::Look2 => f == Fault::CallbackPanic,
            K::Cmp => f == Fault::CmpPanic,
            K::Fmt | K::Hex | K::RHex | K::Tp => matches!(f, Fault::FmtPanic | Fault::FmtErr | Fault::SinkErr | Fault::SinkPanic),
            K::Take => f == Fault::AllocFail,
            _ => false,
        };
        // Where this kind of fault cannot strike, try one that can.
        let f = if suits {
            f
        } else {
            let c: &[Fault] = match o.k {
                K::Mk | K::RMk => &[Fault::AllocFail],
                K::Clone | K::CloneFrom => &[Fault::ClonePanic, Fault::AllocFail],
                K::Look | K::Look2 => &[Fault::CallbackPanic],
                K::Cmp => &[Fault::CmpPanic],
                K::Fmt => &[Fault::FmtPanic, Fault::FmtErr, Fault::SinkErr, Fault::SinkPanic],
                K::Hex | K::RHex | K::Tp => &[Fault::SinkErr, Fault::SinkPanic],
                _ => return,
            };
            let c: Vec<Fault> = c.iter().copied().filter(|f| self.pr.kinds.contains(f)).collect();
            if c.is_empty() {
                return;
            }
            *self.r.pick(&c)
        };
        o.fault = f;
        o.nth = match f {
            Fault::SinkErr | Fault::SinkPanic => 1 + self.r.below(8),
            Fault::AllocFail => 1 + self.r.below(6) / 5 + if self.r.chance(1, 3) { simrt::hook::PASSING } else { 0 },
            _ => 1 + [0, 0, 0, 1, 1, 2, 3, self.r.below(12)][self.r.below(8) as usize],
        };
    }
}

/// Moves everything a plan does to other addresses.
pub fn place(p: &mut Plan, n: u64) {
    p.heap.seed ^= simrt::rng::mix(n) >> 40;
    p.heap.zone = (p.heap.zone + n as usize) % (NZONES + 1);
    p.heap.reuse ^= (n & 1) as u8;
    p.heap.fill = p.heap.fill.wrapping_add(n as u8 * 37);
}

/// The plan for a seed: the same in every process and on every machine. `capacity` limits
/// discriminants to fewer bits than the configured width has (for comparing widths).
/// The upper half of every block of seeds.
pub fn is_first_use(seed: u64) -> bool {
    seed >> 31 & 1 == 1
}

pub fn plan(prop: &str, seed: u64, capacity: Option<u64>) -> Plan {
    let pr = profile(prop);
    let mut r = Rng::new(seed ^ prop.bytes().fold(0, |h, b| simrt::rng::mix(h ^ b as u64)));
    let maxd = capacity.map_or(MAXD, |c| (1u64 << c) - 1);
    let over = capacity.is_none();
    // Runs that are made in a process of their own look at the first use of everything, so mostly by
    // several threads and without a setup before them.
    let first = is_first_use(seed);
    let single = if first { 25 } else { pr.single };
    let threads = if r.chance(single, 100) { 1 } else { 2 + r.below(3) as usize };
    let heap = HeapCfg {
        seed: r.next() >> 32,
        zone: if r.chance(1, 3) { NZONES } else { r.below(NZONES as u64) as usize },
        reuse: r.below(2) as u8,
        fill: *r.pick(&[0u8, 0xff, 0xa5, 1]),
    };
    let ps = r.next() >> 32;
    let policy = if threads == 1 {
        Policy::Explicit(Vec::new())
    } else {
        match r.below(10) {
            0..=3 => Policy::Random { seed: ps, hook: *r.pick(&[1, 2, 4]), cov: *r.pick(&[0, 8, 50, 400]) },
            4..=7 => Policy::Pct { seed: ps, d: 1 + r.below(12), len: *r.pick(&[200, 1000, 4000, 20000]) },
            _ => Policy::Stall {
                seed: ps,
                hook: *r.pick(&[1, 3]),
                cov: *r.pick(&[10, 100]),
                victim: r.below(threads as u64) as usize,
                from: r.below(3000),
                steps: if r.chance(1, 3) { 1 << 40 } else { 200 + r.below(20000) },
            },
        }
    };
    // Values of more than a megabyte make long runs.
    let huge = r.chance(1, 25);
    let subjects: Vec<usize> = (0..SUBJECTS.len())
        .filter(|&i| huge || SUBJECTS[i].name != "huge")
        .filter(|&i| over || (SUBJECTS[i].nvar as u64) <= maxd + 1)
        .collect();
    let mut focus = Vec::new();
    let good: Vec<usize> = subjects.iter().copied().filter(|&i| SUBJECTS[i].caps & pr.caps == pr.caps).collect();
    for _ in 0..1 + r.below(3) {
        if !good.is_empty() {
            focus.push(*r.pick(&good));
        }
    }
    if subjects.is_empty() {
        focus.clear();
    }
    let faulty = r.chance(pr.faulty, 100);
    let n = if threads == 1 { 4 + r.below(28) } else { threads as u64 * (3 + r.below(9)) };
    // Few runs, but long ones with many boxes alive at once.
    let long = threads == 1 && r.chance(1, if prop == "C13" { 400 } else { 60 });
    let n = if long { 60 + r.below(180) } else { n };
    let mut g = G {
        r,
        pr: &pr,
        maxd,
        over,
        slots: [P::No; NSLOT],
        mb: [P::No; NMBOX],
        used: [false; NMBOX],
        from: [0; NMBOX],
        im: [None; crate::im::NIM],
        subjects,
        focus,
        threads,
        long,
    };
    let mut ops = Vec::new();
    let has = |k: K| pr.w[k as usize] > 0;
    if threads > 1 && !(first && g.r.chance(3, 4)) {
        for _ in 0..2 + g.r.below(6) {
            let k = match g.r.below(10) {
                0..=5 if has(K::Mk) => K::Mk,
                6..=7 if has(K::RMk) => K::RMk,
                8..=9 if has(K::ImMk) => K::ImMk,
                _ => K::Mk,
            };
            if g.subjects.is_empty() && k == K::Mk {
                continue;
            }
            if let Some(mut o) = g.op(SETUP, k) {
                if has(K::ImMk) && k == K::Mk && prop == "C13" {
                    o.a[4] = 0;
                }
                ops.push(o);
            }
        }
    }
    let mut tries = 0;
    let mut made = 0;
    while made < n && tries < n * 20 {
        tries += 1;
        let t = g.r.below(threads as u64) as usize;
        let mut i = g.r.weighted(&pr.w);
        if long && made < 40 && g.r.chance(1, 2) {
            i = if g.r.chance(2, 3) || !has(K::RMk) { K::Mk as usize } else { K::RMk as usize };
        }
        let k: K = unsafe { std::mem::transmute(i as u8) };
        if k == K::Mk && g.subjects.is_empty() {
            continue;
        }
        if threads == 1 && matches!(k, K::Send | K::Recv) {
            continue;
        }
        if let Some(mut o) = g.op(t, k) {
            if faulty && g.r.chance(pr.fault, 100) {
                g.fault(&mut o);
            }
            ops.push(o);
            made += 1;
        }
    }
    Plan { threads, heap, policy, ops }
}
