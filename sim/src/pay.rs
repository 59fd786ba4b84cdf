//! Payload types: values that know who they are, count their clones, comparisons and drops, and can be
//! made to panic or fail in the middle of each.
use simrt::hook::{outside, user_code, user_fmt, Fault};
use simrt::ledger;
use simrt::rng::{mix, Rng};
use simrt::state::ZNET;
use std::cmp::Ordering;
use std::fmt;

pub const SHADOW: u32 = u32::MAX;
const SHADOW_KEY: u64 = 0x5AAD_0F5A_AD0F_5AAD;

/// Deterministic source of field contents. Seeds below 64 draw from a tiny domain, so that
/// comparisons meet equal and nearly equal values.
pub struct Gen {
    rng: Rng,
    pub tiny: bool,
    pub shadow: bool,
}
impl Gen {
    pub fn new(variant: usize, seed: u64, shadow: bool) -> Self {
        Gen { rng: Rng::new(mix(seed) ^ ((variant as u64) << 40)), tiny: seed < 64, shadow }
    }
    pub fn bits(&mut self) -> u64 {
        let r = self.rng.next();
        if self.tiny {
            return (r >> 7) & 1;
        }
        match r % 11 {
            0 => 0,
            1 => u64::MAX,
            2 => 1,
            3 => u64::MAX - 1,
            4 => 1 << (r >> 32 & 63),
            5 => (1u64 << (r >> 32 & 63)).wrapping_sub(1),
            6 => 0xFFFF_0000_0000_0000 | (r >> 16),
            _ => self.rng.next(),
        }
    }
}

/// Everything observable about a value.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Look {
    pub variant: u32,
    pub words: Vec<u64>,
    /// Ledger ids of the tracked values inside.
    pub toks: Vec<u32>,
    /// The handles without a destructor inside (empty: not known).
    pub hnds: Vec<u32>,
    /// Zero-sized tracked values inside.
    pub zs: u32,
    /// Heap blocks the value itself owns in the simulated heap.
    pub zone_blocks: u32,
    /// Heap blocks a clone of the value needs besides its box.
    pub clone_blocks: u32,
}
impl Look {
    pub fn same(&self, o: &Look) -> bool {
        self.variant == o.variant && self.words == o.words && self.zs == o.zs
    }
    pub fn w(&mut self, x: u64) {
        self.words.push(x)
    }
    pub fn brief(&self) -> String {
        let mut s = format!("v{}[", self.variant);
        for (i, w) in self.words.iter().take(6).enumerate() {
            if i > 0 {
                s.push(' ');
            }
            s.push_str(&format!("{:x}", w));
        }
        if self.words.len() > 6 {
            let h = self.words.iter().fold(0u64, |h, w| mix(h ^ w));
            s.push_str(&format!(" ..{} #{:x}", self.words.len(), h));
        }
        s.push(']');
        s
    }
    pub fn hash(&self) -> u64 {
        self.words.iter().fold(self.variant as u64, |h, w| mix(h ^ w))
    }
}

pub trait Pay: Sized + 'static {
    fn make(g: &mut Gen) -> Self;
    fn look(&self, o: &mut Look);
}

// ---------------------------------------------------------------- tracked values

/// A tracked value with a destructor.
pub struct Tok {
    cookie: u64,
    id: u32,
    content: u64,
}
fn shadow_cookie(c: u64) -> u64 {
    mix(c ^ SHADOW_KEY)
}
impl Tok {
    pub fn new(content: u64, shadow: bool) -> Tok {
        if shadow {
            return Tok { cookie: shadow_cookie(content), id: SHADOW, content };
        }
        let id = ledger::new_tok(content);
        Tok { cookie: ledger::cookie(id, content), id, content }
    }
    fn ok(&self) -> bool {
        if self.id == SHADOW {
            self.cookie == shadow_cookie(self.content)
        } else {
            self.cookie == ledger::cookie(self.id, self.content)
        }
    }
    pub fn seen(&self) {
        if self.id != SHADOW || !self.ok() {
            ledger::observed(self.id, self.ok());
        }
    }
    pub fn content(&self) -> u64 {
        self.content
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        if self.id != SHADOW || !self.ok() {
            let ok = self.ok();
            ledger::dropped(self.id, ok);
            if ok {
                self.cookie = !0;
            }
        }
    }
}
impl Clone for Tok {
    fn clone(&self) -> Tok {
        self.seen();
        user_code(Fault::ClonePanic);
        Tok::new(self.content, self.id == SHADOW)
    }
}
impl PartialEq for Tok {
    fn eq(&self, o: &Tok) -> bool {
        self.seen();
        o.seen();
        user_code(Fault::CmpPanic);
        self.content == o.content
    }
}
impl Eq for Tok {}
impl PartialOrd for Tok {
    fn partial_cmp(&self, o: &Tok) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tok {
    fn cmp(&self, o: &Tok) -> Ordering {
        self.seen();
        o.seen();
        user_code(Fault::CmpPanic);
        self.content.cmp(&o.content)
    }
}
impl fmt::Debug for Tok {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.seen();
        if user_fmt() {
            return Err(fmt::Error);
        }
        f.debug_struct("Tok").field("c", &self.content).finish()
    }
}
impl fmt::Display for Tok {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.seen();
        if user_fmt() {
            return Err(fmt::Error);
        }
        fmt::Display::fmt(&self.content, f)
    }
}
impl Pay for Tok {
    fn make(g: &mut Gen) -> Tok {
        let c = g.bits();
        Tok::new(c, g.shadow)
    }
    fn look(&self, o: &mut Look) {
        self.seen();
        o.w(self.content);
        if self.id != SHADOW {
            o.toks.push(self.id);
        }
    }
}

/// A tracked value of 8 bytes, 4-byte aligned; its content lives in the ledger.
pub struct TokS {
    id: u32,
    chk: u32,
}
impl TokS {
    pub fn new(content: u64, shadow: bool) -> TokS {
        if shadow {
            let c = content as u32 & 0x3FFF_FFFF;
            return TokS { id: 0x8000_0000 | c, chk: mix(c as u64 ^ SHADOW_KEY) as u32 };
        }
        let content = content & 0x3FFF_FFFF;
        let id = ledger::new_tok(content);
        TokS { id, chk: ledger::cookie(id, content) as u32 }
    }
    fn shadow(&self) -> bool {
        self.id & 0x8000_0000 != 0
    }
    fn ok(&self) -> bool {
        if self.shadow() {
            self.chk == mix((self.id & 0x3FFF_FFFF) as u64 ^ SHADOW_KEY) as u32
        } else {
            match ledger::get(self.id) {
                Some(i) => self.chk == ledger::cookie(self.id, i.content) as u32,
                None => false,
            }
        }
    }
    fn content(&self) -> u64 {
        if self.shadow() {
            (self.id & 0x3FFF_FFFF) as u64
        } else {
            ledger::get(self.id).map_or(!0, |i| i.content)
        }
    }
    fn seen(&self) {
        if !self.shadow() || !self.ok() {
            ledger::observed(self.id, self.ok());
        }
    }
}
impl Drop for TokS {
    fn drop(&mut self) {
        if !self.shadow() || !self.ok() {
            let ok = self.ok();
            ledger::dropped(self.id, ok);
        }
    }
}
impl Clone for TokS {
    fn clone(&self) -> TokS {
        self.seen();
        user_code(Fault::ClonePanic);
        TokS::new(self.content(), self.shadow())
    }
}
impl PartialEq for TokS {
    fn eq(&self, o: &TokS) -> bool {
        self.seen();
        o.seen();
        user_code(Fault::CmpPanic);
        self.content() == o.content()
    }
}
impl Eq for TokS {}
impl PartialOrd for TokS {
    fn partial_cmp(&self, o: &TokS) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for TokS {
    fn cmp(&self, o: &TokS) -> Ordering {
        self.seen();
        o.seen();
        user_code(Fault::CmpPanic);
        self.content().cmp(&o.content())
    }
}
impl fmt::Debug for TokS {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.seen();
        if user_fmt() {
            return Err(fmt::Error);
        }
        f.write_str("s")?;
        fmt::Debug::fmt(&self.content(), f)
    }
}
impl fmt::Display for TokS {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}
impl Pay for TokS {
    fn make(g: &mut Gen) -> TokS {
        let c = g.bits();
        TokS::new(c, g.shadow)
    }
    fn look(&self, o: &mut Look) {
        self.seen();
        o.w(self.content());
        if !self.shadow() {
            o.toks.push(self.id);
        }
    }
}

/// A tracked value without a destructor: the enum that holds it has one, which calls `end`.
#[derive(Copy, Clone)]
pub struct TokC {
    cookie: u64,
    id: u32,
    content: u64,
}
impl TokC {
    fn ok(&self) -> bool {
        if self.id == SHADOW {
            self.cookie == shadow_cookie(self.content)
        } else {
            self.cookie == ledger::cookie(self.id, self.content)
        }
    }
    fn seen(&self) {
        if self.id != SHADOW || !self.ok() {
            ledger::observed(self.id, self.ok());
        }
    }
    pub fn again(&self) -> TokC {
        self.seen();
        user_code(Fault::ClonePanic);
        TokC::new(self.content, self.id == SHADOW)
    }
    pub fn new(content: u64, shadow: bool) -> TokC {
        if shadow {
            return TokC { cookie: shadow_cookie(content), id: SHADOW, content };
        }
        let id = ledger::new_tok(content);
        TokC { cookie: ledger::cookie(id, content), id, content }
    }
    pub fn end(&mut self) {
        if self.id != SHADOW || !self.ok() {
            let ok = self.ok();
            ledger::dropped(self.id, ok);
            if ok {
                self.cookie = !0;
            }
        }
    }
}
impl PartialEq for TokC {
    fn eq(&self, o: &TokC) -> bool {
        self.seen();
        o.seen();
        user_code(Fault::CmpPanic);
        self.content == o.content
    }
}
impl Eq for TokC {}
impl PartialOrd for TokC {
    fn partial_cmp(&self, o: &TokC) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for TokC {
    fn cmp(&self, o: &TokC) -> Ordering {
        self.seen();
        o.seen();
        user_code(Fault::CmpPanic);
        self.content.cmp(&o.content)
    }
}
impl fmt::Debug for TokC {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.seen();
        if user_fmt() {
            return Err(fmt::Error);
        }
        fmt::Debug::fmt(&self.content, f)
    }
}
impl Pay for TokC {
    fn make(g: &mut Gen) -> TokC {
        let c = g.bits();
        TokC::new(c, g.shadow)
    }
    fn look(&self, o: &mut Look) {
        self.seen();
        o.w(self.content);
        if self.id != SHADOW {
            o.toks.push(self.id);
        }
    }
}
/// A handle without a destructor: a clone has to be another handle, so its `Clone` matters although
/// the value is plain bytes.
pub struct Hnd {
    id: u32,
    chk: u32,
}
impl Hnd {
    fn new(content: u64, shadow: bool) -> Hnd {
        let content = content & 0x3FFF_FFFF;
        let id = if shadow { 0x8000_0000 | content as u32 } else { ledger::new_hnd(content) };
        Hnd { id, chk: Hnd::mark(id, content) }
    }
    fn mark(id: u32, content: u64) -> u32 {
        ledger::cookie(id ^ 0x5555, content) as u32
    }
    fn shadow(&self) -> bool {
        self.id & 0x8000_0000 != 0
    }
    fn content(&self) -> u64 {
        if self.shadow() {
            (self.id & 0x3FFF_FFFF) as u64
        } else {
            ledger::hnd(self.id).unwrap_or(!0)
        }
    }
    fn seen(&self) {
        if self.chk != Hnd::mark(self.id, self.content()) {
            ledger::garbage_seen();
        }
    }
}
impl Clone for Hnd {
    fn clone(&self) -> Hnd {
        self.seen();
        user_code(Fault::ClonePanic);
        Hnd::new(self.content(), self.shadow())
    }
}
impl PartialEq for Hnd {
    fn eq(&self, o: &Hnd) -> bool {
        self.seen();
        o.seen();
        user_code(Fault::CmpPanic);
        self.content() == o.content()
    }
}
impl Eq for Hnd {}
impl PartialOrd for Hnd {
    fn partial_cmp(&self, o: &Hnd) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Hnd {
    fn cmp(&self, o: &Hnd) -> Ordering {
        self.seen();
        o.seen();
        user_code(Fault::CmpPanic);
        self.content().cmp(&o.content())
    }
}
impl fmt::Debug for Hnd {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.seen();
        if user_fmt() {
            return Err(fmt::Error);
        }
        f.debug_tuple("Hnd").field(&self.content()).finish()
    }
}
impl fmt::Display for Hnd {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}
impl Pay for Hnd {
    fn make(g: &mut Gen) -> Hnd {
        let c = g.bits();
        Hnd::new(c, g.shadow)
    }
    fn look(&self, o: &mut Look) {
        self.seen();
        o.w(self.content());
        if !self.shadow() {
            o.hnds.push(self.id);
        }
    }
}
/// Counts a unit variant, which its enum's destructor discounts.
pub fn unit_made() {
    ZNET.with(|z| z.set(z.get() + 1));
}
pub fn unit_ended() {
    ZNET.with(|z| z.set(z.get() - 1));
}

/// A zero-sized value with a destructor.
pub struct ZTok(());
impl ZTok {
    pub fn new() -> ZTok {
        ZNET.with(|z| z.set(z.get() + 1));
        ZTok(())
    }
}
impl Drop for ZTok {
    fn drop(&mut self) {
        ZNET.with(|z| z.set(z.get() - 1));
    }
}
impl Clone for ZTok {
    fn clone(&self) -> ZTok {
        user_code(Fault::ClonePanic);
        ZTok::new()
    }
}
impl PartialEq for ZTok {
    fn eq(&self, _: &ZTok) -> bool {
        user_code(Fault::CmpPanic);
        true
    }
}
impl Eq for ZTok {}
impl PartialOrd for ZTok {
    fn partial_cmp(&self, o: &ZTok) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for ZTok {
    fn cmp(&self, _: &ZTok) -> Ordering {
        user_code(Fault::CmpPanic);
        Ordering::Equal
    }
}
impl fmt::Debug for ZTok {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if user_fmt() {
            return Err(fmt::Error);
        }
        f.write_str("Z")
    }
}
impl Pay for ZTok {
    fn make(_: &mut Gen) -> ZTok {
        ZTok::new()
    }
    fn look(&self, o: &mut Look) {
        o.zs += 1;
        o.w(0x2E);
    }
}

/// A value owning heap memory of its own.
#[derive(PartialEq, Eq, PartialOrd, Ord)]
pub struct Str(pub String);
impl Clone for Str {
    fn clone(&self) -> Str {
        user_code(Fault::ClonePanic);
        Str(self.0.clone())
    }
}
impl fmt::Debug for Str {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&self.0, f)
    }
}
impl fmt::Display for Str {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&self.0, f)
    }
}
impl Pay for Str {
    fn make(g: &mut Gen) -> Str {
        let c = g.bits();
        let n = if g.tiny { c } else { c % 23 };
        let mut s = String::new();
        let mut r = Rng::new(c);
        for _ in 0..n {
            s.push(if g.tiny { 'a' } else { (32 + r.below(95) as u8) as char });
        }
        s.shrink_to_fit();
        Str(s)
    }
    fn look(&self, o: &mut Look) {
        let mut h = self.0.len() as u64;
        for b in self.0.bytes() {
            h = mix(h ^ b as u64);
        }
        o.w(h);
        if !self.0.is_empty() {
            o.clone_blocks += 1;
            if simrt::heap::zone_of(self.0.as_ptr() as usize).is_some() {
                o.zone_blocks += 1;
            }
        }
    }
}

// ---------------------------------------------------------------- plain data

/// A byte array of any size.
#[derive(Copy, Clone)]
pub struct By<const N: usize>(pub [u8; N]);
// Its comparisons and printing are single steps of the simulation.
impl<const N: usize> PartialEq for By<N> {
    fn eq(&self, o: &Self) -> bool {
        outside(|| self.0 == o.0)
    }
}
impl<const N: usize> Eq for By<N> {}
impl<const N: usize> PartialOrd for By<N> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl<const N: usize> Ord for By<N> {
    fn cmp(&self, o: &Self) -> Ordering {
        outside(|| self.0.cmp(&o.0))
    }
}
impl<const N: usize> fmt::Debug for By<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let h = outside(|| simrt::rng::digest(&self.0));
        write!(f, "By{}({:x})", N, h)
    }
}
impl<const N: usize> Pay for By<N> {
    fn make(g: &mut Gen) -> Self {
        let s = g.bits();
        let mut a = [0u8; N];
        if g.tiny {
            if N > 0 {
                a[N - 1] = s as u8;
            }
        } else {
            simrt::rng::fill(&mut a, s);
        }
        By(a)
    }
    fn look(&self, o: &mut Look) {
        o.w(simrt::rng::digest(&self.0));
    }
}

macro_rules! aligned {
    ($($t:ident $z:ident $n:literal)*) => { $(
        /// A value with its own alignment, whose comparisons and clones are user code.
        #[repr(align($n))]
        pub struct $t(pub u16);
        impl Clone for $t {
            fn clone(&self) -> Self { user_code(Fault::ClonePanic); $t(self.0) }
        }
        impl PartialEq for $t {
            fn eq(&self, o: &Self) -> bool { user_code(Fault::CmpPanic); self.0 == o.0 }
        }
        impl Eq for $t {}
        impl PartialOrd for $t {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) }
        }
        impl Ord for $t {
            fn cmp(&self, o: &Self) -> Ordering { user_code(Fault::CmpPanic); self.0.cmp(&o.0) }
        }
        impl fmt::Debug for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                if user_fmt() { return Err(fmt::Error); }
                write!(f, concat!(stringify!($t), "<{}>"), self.0)
            }
        }
        impl Pay for $t {
            fn make(g: &mut Gen) -> Self { $t(g.bits() as u16) }
            fn look(&self, o: &mut Look) { check_align::<$t>(self); o.w(self.0 as u64) }
        }
        #[repr(align($n))]
        #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
        pub struct $z;
        impl Pay for $z {
            fn make(_: &mut Gen) -> Self { $z }
            fn look(&self, o: &mut Look) { check_align::<$z>(self); o.w($n) }
        }
    )* };
}
aligned! { A2 Z2 2  A4 Z4 4  A8 Z8 8  A16 Z16 16  A32 Z32 32  A64 Z64 64  A128 Z128 128  A256 Z256 256
    A512 Z512 512  A1024 Z1024 1024  A2048 Z2048 2048  A4096 Z4096 4096
    A8192 Z8192 8192  A65536 Z65536 65536  A1048576 Z1048576 1048576 }

#[inline(never)]
fn check_align<T>(p: *const T) {
    let a = p as usize;
    if std::hint::black_box(a) % std::mem::align_of::<T>() != 0 {
        simrt::report("misaligned", format!("a value needing {} bytes alignment was shown misaligned", std::mem::align_of::<T>()));
    }
}

macro_rules! plain {
    ($($t:ty),*) => { $(
        impl Pay for $t {
            fn make(g: &mut Gen) -> Self { g.bits() as $t }
            fn look(&self, o: &mut Look) { o.w(*self as u64) }
        }
    )* };
}
plain!(u8, i8, u16, i16, u32, i32, u64, i64, usize, isize);
impl Pay for u128 {
    fn make(g: &mut Gen) -> Self {
        let a = g.bits() as u128;
        if g.tiny { a << 100 } else { a << 64 | g.bits() as u128 }
    }
    fn look(&self, o: &mut Look) {
        o.w(*self as u64);
        o.w((*self >> 64) as u64);
    }
}
impl Pay for i128 {
    fn make(g: &mut Gen) -> Self {
        u128::make(g) as i128
    }
    fn look(&self, o: &mut Look) {
        (*self as u128).look(o)
    }
}
impl Pay for bool {
    fn make(g: &mut Gen) -> Self {
        g.bits() & 1 == 1
    }
    fn look(&self, o: &mut Look) {
        // Through memory: an invalid bool must not confuse the harness.
        o.w(unsafe { *(self as *const bool as *const u8) } as u64)
    }
}
impl Pay for char {
    fn make(g: &mut Gen) -> Self {
        let b = g.bits();
        if g.tiny {
            return if b == 0 { 'x' } else { 'y' };
        }
        match b % 5 {
            0 => '\0',
            1 => char::MAX,
            2 => '\u{D7FF}',
            3 => '\u{E000}',
            _ => char::from_u32((b >> 20) as u32 % 0xD800).unwrap(),
        }
    }
    fn look(&self, o: &mut Look) {
        o.w(*self as u32 as u64)
    }
}
impl Pay for f64 {
    fn make(g: &mut Gen) -> Self {
        let b = g.bits();
        if g.tiny {
            return [0.0, 1.0][b as usize];
        }
        match b % 8 {
            0 => f64::NAN,
            1 => -0.0,
            2 => f64::INFINITY,
            3 => f64::from_bits(0x7FF8_0000_0000_0000 | (b >> 13)),
            _ => f64::from_bits(b),
        }
    }
    fn look(&self, o: &mut Look) {
        o.w(self.to_bits())
    }
}
impl Pay for f32 {
    fn make(g: &mut Gen) -> Self {
        let b = g.bits();
        if g.tiny {
            return [f32::NAN, 1.0][b as usize];
        }
        match b % 8 {
            0 => f32::NAN,
            1 => -0.0,
            2 => f32::INFINITY,
            _ => f32::from_bits((b >> 16) as u32 & !0x0040_0000),
        }
    }
    fn look(&self, o: &mut Look) {
        o.w(self.to_bits() as u64)
    }
}
impl Pay for () {
    fn make(_: &mut Gen) -> Self {}
    fn look(&self, _: &mut Look) {}
}
impl<T: Pay, const N: usize> Pay for [T; N] {
    fn make(g: &mut Gen) -> Self {
        std::array::from_fn(|_| T::make(g))
    }
    fn look(&self, o: &mut Look) {
        for x in self {
            x.look(o)
        }
    }
}
impl<A: Pay, B: Pay> Pay for (A, B) {
    fn make(g: &mut Gen) -> Self {
        (A::make(g), B::make(g))
    }
    fn look(&self, o: &mut Look) {
        self.0.look(o);
        self.1.look(o);
    }
}
impl<T: Pay> Pay for Option<T> {
    fn make(g: &mut Gen) -> Self {
        if g.bits() & 1 == 0 { None } else { Some(T::make(g)) }
    }
    fn look(&self, o: &mut Look) {
        match self {
            None => o.w(0),
            Some(x) => {
                o.w(1);
                x.look(o)
            }
        }
    }
}
