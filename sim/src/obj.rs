//! Object-safe faces of the containers, enums and raw boxes under test. Each method makes exactly one
//! call into the library (through `simrt::call`), everything around it is harness code.
use crate::pay::{Gen, Look, Pay};
use simrt::hook::{outside, try_fire, user_code, Fault};
use simrt::{call, Outcome};
use std::any::Any;
use std::fmt;
use tagged_box::{TaggableContainer, TaggableInner, TaggedBox, TaggedPointer};

pub type Disc = tagged_box::Discriminant;

/// Storage a variant needs.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Shape {
    pub min: usize,
    pub max: usize,
    pub align: usize,
}
pub fn shape(fields: &[(usize, usize)]) -> Shape {
    let (mut off, mut al, mut sum) = (0, 1, 0);
    for (s, a) in fields {
        off = (off + a - 1) / a * a + s;
        al = al.max(*a);
        sum += s;
    }
    Shape { min: (sum + al - 1) / al * al, max: (off + al - 1) / al * al, align: al }
}

pub const CLONE: u32 = 1;
pub const EQ: u32 = 2;
pub const PORD: u32 = 4;
pub const ORD: u32 = 8;
pub const DBG: u32 = 16;
pub const DISP: u32 = 32;
pub const COPY: u32 = 64;
/// The container itself derives what its enum has (else only the inner TaggedBox does).
pub const DERIVED: u32 = 128;
/// Clones allocate through std: allocation failure would abort.
pub const STD_ALLOC: u32 = 256;

pub trait Enu: Sized + TaggableInner + 'static {
    const NAME: &'static str;
    const NVAR: usize;
    fn make(v: usize, g: &mut Gen) -> Self;
    fn look_into(&self, o: &mut Look);
    fn shape(v: usize) -> Shape;
    fn look(&self) -> Look {
        let mut l = Look::default();
        self.look_into(&mut l);
        l
    }
}
pub unsafe fn exchange<A, B>(a: A) -> B {
    assert!(std::mem::size_of::<A>() == std::mem::size_of::<B>());
    let a = std::mem::ManuallyDrop::new(a);
    std::mem::transmute_copy(&*a)
}
pub trait Con: Sized + TaggableContainer<Inner = <Self as Con>::E> + From<<Self as Con>::E> + 'static {
    type E: Enu;
    // A container is its box and nothing else; its field is private to it.
    fn wrap(tb: TaggedBox<Self::E>) -> Self {
        unsafe { exchange(tb) }
    }
    fn unwrap(self) -> TaggedBox<Self::E> {
        unsafe { exchange(self) }
    }
    fn tb(&self) -> &TaggedBox<Self::E> {
        unsafe { &*(self as *const Self as *const TaggedBox<Self::E>) }
    }
    fn tb_mut(&mut self) -> &mut TaggedBox<Self::E> {
        unsafe { &mut *(self as *mut Self as *mut TaggedBox<Self::E>) }
    }
    fn by_fields(e: Self::E) -> Outcome<Self>;
    /// Overwrites the field of a one-field tuple variant through a typed view.
    fn poke(tb: &mut TaggedBox<Self::E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>>;
}
pub trait Caps: Con {
    const CAPS: u32;
    fn c_clone(&self, _via: u8) -> Self {
        unreachable!()
    }
    fn c_clone_from(&mut self, _o: &Self, _via: u8) {
        unreachable!()
    }
    fn c_cmp(&self, _o: &Self, _op: u8, _via: u8) -> i8 {
        unreachable!()
    }
    fn e_cmp(_a: &Self::E, _b: &Self::E, _op: u8) -> i8 {
        unreachable!()
    }
    fn c_fmt(&self, _s: &mut Sink, _style: usize, _via: u8) -> fmt::Result {
        unreachable!()
    }
    fn e_fmt(_e: &Self::E, _s: &mut Sink, _style: usize) -> fmt::Result {
        unreachable!()
    }
    fn c_alias(&self) -> Self {
        unreachable!()
    }
}

pub const CMP_NAMES: [&str; 8] = ["eq", "ne", "lt", "le", "gt", "ge", "partial_cmp", "cmp"];
pub fn ord_code(o: std::cmp::Ordering) -> i8 {
    o as i8
}
pub fn pord_code(o: Option<std::cmp::Ordering>) -> i8 {
    o.map_or(2, |o| o as i8)
}

#[macro_export]
macro_rules! cmp_body {
    ($a:expr, $b:expr, $op:expr; eq) => {
        match $op { 0 => ($a == $b) as i8, 1 => ($a != $b) as i8, _ => unreachable!() }
    };
    ($a:expr, $b:expr, $op:expr; pord) => {
        match $op {
            0 => ($a == $b) as i8,
            1 => ($a != $b) as i8,
            2 => ($a < $b) as i8,
            3 => ($a <= $b) as i8,
            4 => ($a > $b) as i8,
            5 => ($a >= $b) as i8,
            6 => $crate::obj::pord_code(PartialOrd::partial_cmp($a, $b)),
            _ => unreachable!(),
        }
    };
    ($a:expr, $b:expr, $op:expr; ord) => {
        match $op {
            0 => ($a == $b) as i8,
            1 => ($a != $b) as i8,
            2 => ($a < $b) as i8,
            3 => ($a <= $b) as i8,
            4 => ($a > $b) as i8,
            5 => ($a >= $b) as i8,
            6 => $crate::obj::pord_code(PartialOrd::partial_cmp($a, $b)),
            7 => $crate::obj::ord_code(Ord::cmp($a, $b)),
            _ => unreachable!(),
        }
    };
}
#[macro_export]
macro_rules! fmt_body {
    ($x:expr, $s:expr, $style:expr; dbg) => {
        match $style {
            0 => write!($s, "{:?}", $x),
            1 => write!($s, "{:#?}", $x),
            2 => write!($s, "{:12?}", $x),
            3 => write!($s, "{:<+9.3?}", $x),
            4 => write!($s, "{:02x?}", $x),
            5 => write!($s, "{:#06X?}", $x),
            6 => write!($s, "[{:?}|{0:?}]", $x),
            7 => write!($s, "{:#.1?}", $x),
            8 => write!($s, "{:#x?}", $x),
            9 => write!($s, "{:-^60?}", $x),
            10 => write!($s, "{:+#015.2?}", $x),
            _ => unreachable!(),
        }
    };
    ($x:expr, $s:expr, $style:expr; disp) => {
        match $style {
            0..=10 => $crate::fmt_body!($x, $s, $style; dbg),
            11 => write!($s, "{}", $x),
            12 => write!($s, "{:#}", $x),
            13 => write!($s, "{:>30}", $x),
            14 => write!($s, "{:*^40.7}", $x),
            15 => write!($s, "{:+012.2}", $x),
            16 => write!($s, "<{}|{0:.3}>", $x),
            17 => write!($s, "{:.0}", $x),
            18 => write!($s, "{:<3}", $x),
            19 => write!($s, "{:\u{3b1}^+#50}", $x),
            _ => unreachable!(),
        }
    };
}
pub const DBG_STYLES: u64 = 11;
pub const DISP_STYLES: u64 = 20;

/// caps!(C, E; derived? ; clone, ord, dbg, copy)
#[macro_export]
macro_rules! caps {
    ($c:ident, $e:ident; $base:expr; $($cap:ident),*) => {
        impl Caps for $c {
            const CAPS: u32 = $base $( | caps!(@bit $cap) )*;
            $( caps!{@m $c $e $cap} )*
        }
    };
    // Only the inner box has the traits.
    ($c:ident, $e:ident; inner $base:expr; $($cap:ident),*) => {
        impl Caps for $c {
            const CAPS: u32 = $base $( | caps!(@bit $cap) )*;
            $( caps!{@i $c $e $cap} )*
        }
    };
    (@bit clone) => { CLONE }; (@bit eq) => { EQ }; (@bit pord) => { EQ | PORD };
    (@bit ord) => { EQ | PORD | ORD }; (@bit dbg) => { DBG }; (@bit disp) => { DBG | DISP };
    (@bit copy) => { COPY };
    (@m $c:ident $e:ident clone) => {
        fn c_clone(&self, via: u8) -> Self {
            if via == 0 { self.clone() } else { $c::wrap(self.tb().clone()) }
        }
        fn c_clone_from(&mut self, o: &Self, via: u8) {
            if via == 0 { self.clone_from(o) } else { self.tb_mut().clone_from(o.tb()) }
        }
    };
    (@m $c:ident $e:ident copy) => { fn c_alias(&self) -> Self { *self } };
    (@m $c:ident $e:ident dbg) => { caps!{@mf $c $e dbg} };
    (@m $c:ident $e:ident disp) => { caps!{@mf $c $e disp} };
    (@m $c:ident $e:ident $k:ident) => {
        fn c_cmp(&self, o: &Self, op: u8, via: u8) -> i8 {
            if via == 0 { cmp_body!(self, o, op; $k) } else { cmp_body!(self.tb(), o.tb(), op; $k) }
        }
        fn e_cmp(a: &$e, b: &$e, op: u8) -> i8 { cmp_body!(a, b, op; $k) }
    };
    (@mf $c:ident $e:ident $k:ident) => {
        // A derived container prints as `C { value: <box> }`; the box is what is compared.
        fn c_fmt(&self, s: &mut Sink, style: usize, _via: u8) -> fmt::Result {
            fmt_body!(self.tb(), s, style; $k)
        }
        fn e_fmt(e: &$e, s: &mut Sink, style: usize) -> fmt::Result { fmt_body!(e, s, style; $k) }
    };
    (@i $c:ident $e:ident clone) => {
        fn c_clone(&self, _via: u8) -> Self { $c::wrap(self.tb().clone()) }
        fn c_clone_from(&mut self, o: &Self, _via: u8) { self.tb_mut().clone_from(o.tb()) }
    };
    (@i $c:ident $e:ident copy) => { fn c_alias(&self) -> Self { $c::wrap(*self.tb()) } };
    (@i $c:ident $e:ident dbg) => { caps!{@mf $c $e dbg} };
    (@i $c:ident $e:ident disp) => { caps!{@mf $c $e disp} };
    (@i $c:ident $e:ident $k:ident) => {
        fn c_cmp(&self, o: &Self, op: u8, _via: u8) -> i8 { cmp_body!(self.tb(), o.tb(), op; $k) }
        fn e_cmp(a: &$e, b: &$e, op: u8) -> i8 { cmp_body!(a, b, op; $k) }
    };
}

/// A writer that may fail or panic at any call.
#[derive(Default)]
pub struct Sink {
    pub buf: String,
    pub writes: u64,
    pub failed: bool,
    /// Bytes accepted after the writer had failed.
    pub after: bool,
}
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let r = outside(|| {
            simrt::hook::yield_here();
            self.writes += 1;
            if std::thread::panicking() {
                return 0;
            }
            if try_fire(Fault::SinkErr) {
                self.failed = true;
                return 1;
            }
            if try_fire(Fault::SinkPanic) {
                self.failed = true;
                return 2;
            }
            if self.failed && !s.is_empty() {
                self.after = true;
            }
            self.buf.push_str(s);
            0
        });
        match r {
            0 => Ok(()),
            1 => Err(fmt::Error),
            _ => simrt::hook::sim_panic(Fault::SinkPanic),
        }
    }
}

/// A value outside any box.
pub trait VObj {
    fn look(&self) -> Look;
    fn put(self: Box<Self>, how: u8) -> Outcome<Box<dyn CObj>>;
    fn cmp_ref(&self, o: &dyn VObj, op: u8) -> i8;
    fn fmt_ref(&self, s: &mut Sink, style: usize) -> fmt::Result;
    fn any(&self) -> &dyn Any;
}
pub struct V<C: Caps>(pub C::E);

impl<C: Caps> VObj for V<C> {
    fn look(&self) -> Look {
        self.0.look()
    }
    fn put(self: Box<Self>, how: u8) -> Outcome<Box<dyn CObj>> {
        let e = self.0;
        let r = match how {
            0 => call(move || C::from(e)),
            1 => C::by_fields(e),
            2 => call(move || C::wrap(e.into_tagged_box())),
            _ => call(move || -> C { e.into() }),
        };
        r.map(|c| Box::new(H(c)) as Box<dyn CObj>)
    }
    fn cmp_ref(&self, o: &dyn VObj, op: u8) -> i8 {
        C::e_cmp(&self.0, &o.any().downcast_ref::<V<C>>().unwrap().0, op)
    }
    fn fmt_ref(&self, s: &mut Sink, style: usize) -> fmt::Result {
        C::e_fmt(&self.0, s, style)
    }
    fn any(&self) -> &dyn Any {
        self
    }
}

/// A container.
pub trait CObj {
    fn disc(&self) -> Outcome<u64>;
    fn addr(&self) -> Outcome<usize>;
    fn observe(&self, cb: &mut dyn FnMut(&Look)) -> Outcome<()>;
    fn observe2(&self, o: &dyn CObj, cb: &mut dyn FnMut(&Look, &Look)) -> Outcome<()>;
    fn take(self: Box<Self>, how: u8) -> Outcome<Box<dyn VObj>>;
    fn rewrap(self: Box<Self>, how: u8) -> Outcome<Box<dyn CObj>>;
    /// Rebuilds the container with another discriminant over the same storage.
    fn retag(self: Box<Self>, d: u64) -> Outcome<Box<dyn CObj>>;
    fn clone_obj(&self, via: u8) -> Outcome<Box<dyn CObj>>;
    fn clone_from_obj(&mut self, o: &dyn CObj, via: u8) -> Outcome<()>;
    fn cmp(&self, o: &dyn CObj, op: u8, via: u8) -> Outcome<i8>;
    fn fmt(&self, s: &mut Sink, style: usize, via: u8) -> Outcome<fmt::Result>;
    fn hex(&self, s: &mut Sink, style: usize) -> Outcome<fmt::Result>;
    fn alias(&self) -> Box<dyn CObj>;
    fn poke(&mut self, v: usize, seed: u64, how: u8) -> Option<Outcome<()>>;
    fn drop_obj(self: Box<Self>) -> Outcome<()>;
    /// Forgets the container and its storage.
    fn abandon(self: Box<Self>);
    fn any(&self) -> &dyn Any;
}
pub struct H<C: Caps>(pub C);
impl<C: Caps> H<C> {
    fn same(o: &dyn CObj) -> &C {
        &o.any().downcast_ref::<H<C>>().unwrap().0
    }
}

macro_rules! hex_body {
    ($x:expr, $s:expr, $style:expr) => {{
        use std::fmt::Write;
        match $style {
            0 => write!($s, "{:x}", $x),
            1 => write!($s, "{:#X}", $x),
            2 => write!($s, "{:b}", $x),
            3 => write!($s, "{:#o}", $x),
            4 => write!($s, "{:#020x}", $x),
            5 => write!($s, "{:>25X}", $x),
            6 => write!($s, "{:#070b}", $x),
            7 => write!($s, "{:*<30o}", $x),
            8 => write!($s, "{:#x}", $x),
            9 => write!($s, "{:o}", $x),
            10 => write!($s, "{:X}", $x),
            11 => write!($s, "{:#b}", $x),
            12 => write!($s, "{:+.3x}", $x),
            13 => write!($s, "{:^+#41o}", $x),
            14 => write!($s, "{:3X}", $x),
            _ => write!($s, "{:\u{e9}^+90b}", $x),
        }
    }};
}
pub const HEX_STYLES: u64 = 16;
pub fn hex_ref(addr: usize, style: usize) -> String {
    let mut s = String::new();
    let a = addr as u64;
    let _ = hex_body!(&a, &mut s, style);
    s
}

impl<C: Caps> CObj for H<C> {
    fn disc(&self) -> Outcome<u64> {
        call(|| self.0.tb().discriminant() as u64)
    }
    fn addr(&self) -> Outcome<usize> {
        call(|| self.0.tb().as_ptr::<u8>() as usize)
    }
    fn observe(&self, cb: &mut dyn FnMut(&Look)) -> Outcome<()> {
        call(|| unsafe {
            C::E::ref_from_tagged_box(self.0.tb(), |e| {
                user_code(Fault::CallbackPanic);
                outside(|| cb(&e.look()));
                user_code(Fault::CallbackPanic);
            })
        })
    }
    fn observe2(&self, o: &dyn CObj, cb: &mut dyn FnMut(&Look, &Look)) -> Outcome<()> {
        let o = Self::same(o);
        call(|| unsafe {
            C::E::ref_from_tagged_box(self.0.tb(), |a| {
                user_code(Fault::CallbackPanic);
                C::E::ref_from_tagged_box(o.tb(), |b| {
                    user_code(Fault::CallbackPanic);
                    outside(|| cb(&a.look(), &b.look()));
                });
                user_code(Fault::CallbackPanic);
            })
        })
    }
    fn take(self: Box<Self>, how: u8) -> Outcome<Box<dyn VObj>> {
        let c = self.0;
        let r = match how {
            0 => call(move || c.into_inner()),
            _ => call(move || C::E::from_tagged_box(c.unwrap())),
        };
        r.map(|e| Box::new(V::<C>(e)) as Box<dyn VObj>)
    }
    fn rewrap(self: Box<Self>, how: u8) -> Outcome<Box<dyn CObj>> {
        let c = self.0;
        let r = match how {
            0 => call(move || C::wrap(c.unwrap())),
            1 => call(move || {
                let tb = c.unwrap();
                let d = tb.discriminant();
                let raw = TaggedBox::into_raw::<u8>(tb);
                C::wrap(unsafe { TaggedBox::from_raw(raw, d) })
            }),
            _ => call(move || {
                let mut tb = c.unwrap();
                let d = tb.discriminant();
                let raw = tb.as_mut_ptr::<u8>();
                std::mem::forget(tb);
                C::wrap(unsafe { TaggedBox::from_raw(raw, d) })
            }),
        };
        r.map(|c| Box::new(H(c)) as Box<dyn CObj>)
    }
    fn retag(self: Box<Self>, d: u64) -> Outcome<Box<dyn CObj>> {
        let c = self.0;
        let r = call(move || {
            let raw = TaggedBox::into_raw::<u8>(c.unwrap());
            C::wrap(unsafe { TaggedBox::from_raw(raw, d as Disc) })
        });
        r.map(|c| Box::new(H(c)) as Box<dyn CObj>)
    }
    fn clone_obj(&self, via: u8) -> Outcome<Box<dyn CObj>> {
        call(|| self.0.c_clone(via)).map(|c| Box::new(H(c)) as Box<dyn CObj>)
    }
    fn clone_from_obj(&mut self, o: &dyn CObj, via: u8) -> Outcome<()> {
        let o = Self::same(o);
        call(|| self.0.c_clone_from(o, via))
    }
    fn cmp(&self, o: &dyn CObj, op: u8, via: u8) -> Outcome<i8> {
        let o = Self::same(o);
        call(|| self.0.c_cmp(o, op, via))
    }
    fn fmt(&self, s: &mut Sink, style: usize, via: u8) -> Outcome<fmt::Result> {
        call(|| self.0.c_fmt(s, style, via))
    }
    fn hex(&self, s: &mut Sink, style: usize) -> Outcome<fmt::Result> {
        call(|| hex_body!(self.0.tb(), s, style))
    }
    fn alias(&self) -> Box<dyn CObj> {
        Box::new(H(self.0.c_alias()))
    }
    fn poke(&mut self, v: usize, seed: u64, how: u8) -> Option<Outcome<()>> {
        let mut g = Gen::new(v, seed, false);
        C::poke(self.0.tb_mut(), v, &mut g, how)
    }
    fn drop_obj(self: Box<Self>) -> Outcome<()> {
        let c = self.0;
        call(move || drop(c))
    }
    fn abandon(self: Box<Self>) {
        std::mem::forget(self.0);
    }
    fn any(&self) -> &dyn Any {
        self
    }
}

// ---------------------------------------------------------------- raw boxes

/// Type parameter of raw boxes; never instantiated.
pub enum Mk {}
impl TaggableInner for Mk {
    fn into_tagged_box(self) -> TaggedBox<Self> {
        match self {}
    }
    fn from_tagged_box(_: TaggedBox<Self>) -> Self {
        panic!()
    }
    unsafe fn ref_from_tagged_box<F>(_: &TaggedBox<Self>, _: F)
    where
        F: FnOnce(&Self),
    {
        panic!()
    }
}

pub trait RObj {
    fn disc(&self) -> Outcome<u64>;
    fn addr(&self, how: u8) -> Outcome<usize>;
    fn look(&mut self, how: u8) -> Outcome<Look>;
    fn look_shared(&self) -> Outcome<Look>;
    /// Replaces the value through a mutable view.
    fn write(&mut self, how: u8, seed: u64) -> Outcome<()>;
    fn take(self: Box<Self>) -> Outcome<Box<dyn RVal>>;
    fn via_raw(self: Box<Self>, d: u64, how: u8) -> Outcome<(Box<dyn RObj>, usize)>;
    /// Into a standard box and, if `back`, into a tagged box again.
    fn via_box(self: Box<Self>, d: u64, cb: &mut dyn FnMut(&Look, usize)) -> Outcome<Box<dyn RObj>>;
    fn box_drop(self: Box<Self>, cb: &mut dyn FnMut(&Look, usize)) -> Outcome<()>;
    fn hex(&self, s: &mut Sink, style: usize) -> Outcome<fmt::Result>;
    fn alias(&self) -> Box<dyn RObj>;
    fn drop_obj(self: Box<Self>) -> Outcome<()>;
    fn any(&self) -> &dyn Any;
}
pub trait RVal {
    fn look(&self) -> Look;
    fn into_any(self: Box<Self>) -> Box<dyn Any>;
}
pub struct RV<U: Pay>(pub U);
impl<U: Pay> RVal for RV<U> {
    fn look(&self) -> Look {
        let mut o = Look::default();
        self.0.look(&mut o);
        o
    }
    fn into_any(self: Box<Self>) -> Box<dyn Any> {
        self
    }
}
pub struct R<U: Pay> {
    tb: TaggedBox<Mk>,
    _u: std::marker::PhantomData<U>,
}
fn look_of<U: Pay>(u: &U) -> Look {
    let mut o = Look::default();
    u.look(&mut o);
    o
}

/// What is known about a payload type.
#[derive(Clone, Copy)]
pub struct RType {
    pub name: &'static str,
    pub size: usize,
    pub align: usize,
    pub copy: bool,
    pub std_alloc: bool,
    pub make: fn(u64) -> Box<dyn RVal>,
    pub mk: fn(Box<dyn RVal>, u64, u8, u64) -> Outcome<Box<dyn RObj>>,
    pub reject_ptr: fn(u64, u64, u8) -> Outcome<()>,
}

fn wrap<U: Pay>(tb: TaggedBox<Mk>) -> Box<dyn RObj> {
    Box::new(R::<U> { tb, _u: std::marker::PhantomData })
}

pub fn rmake<U: Pay>(seed: u64) -> Box<dyn RVal> {
    Box::new(RV(U::make(&mut Gen::new(0, seed, false))))
}
/// how: 0 new, 1 new_unchecked, 2 std Box -> from_raw, 3 dangling, 4 from_raw of any aligned address near
/// `at` (the last two for zero-sized values only)
pub fn rmk<U: Pay>(v: Box<dyn RVal>, d: u64, how: u8, at: u64) -> Outcome<Box<dyn RObj>> {
    let u = v.into_any().downcast::<RV<U>>().ok().unwrap().0;
    let d = d as Disc;
    let r = match how {
        0 => call(move || TaggedBox::new::<U>(u, d)),
        1 => call(move || unsafe { TaggedBox::new_unchecked::<U>(u, d) }),
        2 => call(move || unsafe { TaggedBox::from_raw::<U>(Box::into_raw(Box::new(u)), d) }),
        4 => call(move || unsafe {
            let tb = TaggedBox::from_raw::<U>(zst_addr(at, std::mem::align_of::<U>()) as *mut U, d);
            std::mem::forget(u);
            tb
        }),
        _ => call(move || {
            let tb = TaggedBox::dangling::<U>(d);
            std::mem::forget(u);
            tb
        }),
    };
    r.map(wrap::<U>)
}
/// An aligned address below 2^47, often near a power of two.
pub fn zst_addr(at: u64, align: usize) -> usize {
    let x = at.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    let top = 1u64 << (x >> 8) % 48;
    let a = if x & 1 == 0 { top.wrapping_add((x >> 16) % 9000).wrapping_sub(4500) } else { x >> 20 };
    ((a & ((1 << 47) - 1)) as usize & !(align - 1)).max(align)
}
/// Offers a pointer or discriminant that does not fit; must be refused.
pub fn rreject_ptr<U: Pay>(p: u64, d: u64, how: u8) -> Outcome<()> {
    match how {
        0 => call(|| unsafe {
            let _ = TaggedBox::<Mk>::from_raw::<U>(p as *mut U, d as Disc);
        }),
        1 => call(|| {
            let _ = TaggedPointer::new(p, d as Disc);
        }),
        2 => call(|| {
            let _ = TaggedBox::<Mk>::dangling::<U>(d as Disc);
        }),
        _ => call(|| {
            let _ = TaggedPointer::dangling::<U>(d as Disc);
        }),
    }
}

pub const ADDR_VIEWS: u8 = 4;
pub const LOOKS: u8 = 7;
pub const WRITES: u8 = 5;

impl<U: Pay> RObj for R<U> {
    fn disc(&self) -> Outcome<u64> {
        call(|| self.tb.discriminant() as u64)
    }
    fn addr(&self, how: u8) -> Outcome<usize> {
        match how {
            0 => call(|| self.tb.as_ptr::<U>() as usize),
            1 => call(|| unsafe { self.tb.as_ref::<U>() as *const U as usize }),
            2 => call(|| self.tb.as_ptr::<u8>() as usize),
            _ => call(|| {
                let p = TaggedPointer::new(self.tb.as_ptr::<U>() as u64, self.tb.discriminant());
                p.as_u64() as usize
            }),
        }
    }
    fn look_shared(&self) -> Outcome<Look> {
        call(|| unsafe {
            let r = self.tb.as_ref::<U>();
            simrt::hook::yield_here();
            outside(|| look_of(r))
        })
    }
    fn look(&mut self, how: u8) -> Outcome<Look> {
        match how {
            0 => self.look_shared(),
            1 => call(|| unsafe { &*self.tb.as_ptr::<U>() }).map(look_of),
            2 => call(|| unsafe { &*self.tb.as_mut_ref::<U>() }).map(look_of),
            3 => call(|| unsafe { &*self.tb.as_mut_ptr::<U>() }).map(look_of),
            4 => call(|| unsafe {
                let p = TaggedPointer::new(self.tb.as_ptr::<U>() as u64, self.tb.discriminant());
                outside(|| look_of(p.as_ref::<U>()))
            }),
            5 => call(|| unsafe {
                let mut p = TaggedPointer::new(self.tb.as_ptr::<U>() as u64, self.tb.discriminant());
                let a = &*p.as_ptr::<U>();
                outside(|| look_of(a));
                outside(|| look_of(p.as_mut_ref::<U>()))
            }),
            _ => call(|| unsafe {
                let p = TaggedPointer::new(self.tb.as_ptr::<U>() as u64, self.tb.discriminant());
                outside(|| look_of(&*p.as_mut_ptr::<U>()))
            }),
        }
    }
    fn write(&mut self, how: u8, seed: u64) -> Outcome<()> {
        let u = U::make(&mut Gen::new(0, seed, false));
        let r = match how {
            0 => call(|| unsafe { self.tb.as_mut_ref::<U>() as *mut U }),
            1 => call(|| self.tb.as_mut_ptr::<U>()),
            2 => call(|| unsafe {
                let mut p = TaggedPointer::new(self.tb.as_mut_ptr::<U>() as u64, self.tb.discriminant());
                p.as_mut_ref::<U>() as *mut U
            }),
            3 => call(|| {
                let p = TaggedPointer::new(self.tb.as_mut_ptr::<U>() as u64, self.tb.discriminant());
                p.as_mut_ptr::<U>()
            }),
            _ => call(|| unsafe {
                // Swap through the mutable reference.
                let r = self.tb.as_mut_ref::<U>();
                simrt::hook::yield_here();
                r as *mut U
            }),
        };
        r.map(|p| unsafe {
            if how == 4 {
                let old = std::mem::replace(&mut *p, u);
                drop(old);
            } else {
                *p = u;
            }
        })
    }
    fn take(self: Box<Self>) -> Outcome<Box<dyn RVal>> {
        let tb = self.tb;
        call(move || unsafe { TaggedBox::into_inner::<U>(tb) }).map(|u| Box::new(RV(u)) as Box<dyn RVal>)
    }
    fn via_raw(self: Box<Self>, d: u64, how: u8) -> Outcome<(Box<dyn RObj>, usize)> {
        let mut tb = self.tb;
        let r = call(move || unsafe {
            let raw = if how == 0 {
                TaggedBox::into_raw::<U>(tb)
            } else {
                let raw = tb.as_mut_ptr::<U>();
                std::mem::forget(tb);
                raw
            };
            simrt::hook::yield_here();
            (TaggedBox::from_raw::<U>(raw, d as Disc), raw as usize)
        });
        r.map(|(tb, a)| (wrap::<U>(tb), a))
    }
    fn via_box(self: Box<Self>, d: u64, cb: &mut dyn FnMut(&Look, usize)) -> Outcome<Box<dyn RObj>> {
        let tb = self.tb;
        let r = call(move || unsafe {
            let b: Box<U> = TaggedBox::into_box::<U>(tb);
            outside(|| cb(&look_of(&*b), &*b as *const U as usize));
            simrt::hook::yield_here();
            TaggedBox::from_raw::<U>(Box::into_raw(b), d as Disc)
        });
        r.map(wrap::<U>)
    }
    fn box_drop(self: Box<Self>, cb: &mut dyn FnMut(&Look, usize)) -> Outcome<()> {
        let tb = self.tb;
        call(move || unsafe {
            let b: Box<U> = TaggedBox::into_box::<U>(tb);
            outside(|| cb(&look_of(&*b), &*b as *const U as usize));
            simrt::hook::yield_here();
            drop(b);
        })
    }
    fn hex(&self, s: &mut Sink, style: usize) -> Outcome<fmt::Result> {
        call(|| hex_body!(&self.tb, s, style))
    }
    fn alias(&self) -> Box<dyn RObj> {
        // TaggedBox is Copy only when its type parameter is; a second handle is made as a user would.
        wrap::<U>(unsafe { TaggedBox::from_raw(self.tb.as_ptr::<U>() as *mut U, self.tb.discriminant()) })
    }
    fn drop_obj(self: Box<Self>) -> Outcome<()> {
        let tb = self.tb;
        call(move || drop(tb))
    }
    fn any(&self) -> &dyn Any {
        self
    }
}

/// The packed pointer type on its own: everything it reports about (address, discriminant).
/// Any address, often at or next to a power of two.
pub fn wild_addr(x: u64) -> u64 {
    let x = x.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    let top = 1u64 << (x >> 8) % 64;
    match x & 7 {
        0 => top,
        1 => top - 1,
        2 => top + 1,
        3 => top.wrapping_neg(),
        4 => top.wrapping_neg() ^ (1 << (x >> 16) % 64),
        5 => 0,
        _ => x.rotate_left(29),
    }
}
/// What the parts of a packed pointer are; the other address and discriminant differ.
pub fn tp_report(addr: u64, d: u64, addr2: u64, d2: u64, real: bool) -> Outcome<Vec<(&'static str, u64)>> {
    use std::collections::hash_map::DefaultHasher;
    use std::hash::{Hash, Hasher};
    call(|| {
        let mut p = TaggedPointer::new(addr, d as Disc);
        let raw = p.as_raw_u64();
        let again = p;
        let other = TaggedPointer::new(addr2, d as Disc);
        let tag = TaggedPointer::new(addr, d2 as Disc);
        let hash = |p: &TaggedPointer| {
            let mut h = DefaultHasher::new();
            p.hash(&mut h);
            h.finish()
        };
        let v = [
            ("discriminant", p.discriminant() as u64, d),
            ("as_u64", p.as_u64(), addr),
            ("as_ptr", p.as_ptr::<u8>() as u64, addr),
            ("as_mut_ptr", p.as_mut_ptr::<u8>() as u64, addr),
            ("as_ref", if real { unsafe { p.as_ref::<u8>() as *const u8 as u64 } } else { addr }, addr),
            ("as_mut_ref", if real { unsafe { p.as_mut_ref::<u8>() as *mut u8 as u64 } } else { addr }, addr),
            ("as_raw_u64", p.as_raw_u64(), raw),
            ("strip_discriminant", TaggedPointer::strip_discriminant(raw), addr),
            ("fetch_discriminant", TaggedPointer::fetch_discriminant(raw) as u64, d),
            ("store_discriminant", TaggedPointer::store_discriminant(addr, d as Disc), raw),
            ("== on equal parts", (p == again && !(p != again)) as u64, 1),
            ("== on other addresses", (p == other) as u64, 0),
            ("== on other discriminants", (p == tag) as u64, (d == d2) as u64),
            ("cmp on equal parts", p.cmp(&again) as i8 as u64, 0),
            ("cmp on other addresses", (p.cmp(&other) == std::cmp::Ordering::Equal) as u64, 0),
            ("cmp reversed", (p.cmp(&other) == other.cmp(&p).reverse() && p.cmp(&tag) == tag.cmp(&p).reverse()) as u64, 1),
            ("hash", (hash(&p) == hash(&again)) as u64, 1),
        ];
        outside(|| v.iter().filter(|x| x.1 != x.2).map(|x| (x.0, x.1)).collect())
    })
}
pub fn tp_fmt(addr: u64, d: u64, s: &mut Sink, style: usize) -> Outcome<fmt::Result> {
    use std::fmt::Write;
    call(|| {
        let p = TaggedPointer::new(addr, d as Disc);
        match style {
            0..=7 => hex_body!(&p, s, style),
            8 => write!(s, "{:p}", p),
            _ => write!(s, "{:?}", p),
        }
    })
}
pub fn tp_fmt_ref(addr: u64, d: u64, width: u64, style: usize) -> String {
    match style {
        0..=7 => hex_ref(addr as usize, style),
        8 => format!("{:p}", addr as *const ()),
        _ => {
            // Every part must be named in the text; their arrangement is free.
            let raw = (addr as u128 | (d as u128) << width) as u64;
            format!("{:p}|{:p}|{}", raw as *const (), addr as *const (), d)
        }
    }
}
