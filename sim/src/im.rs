//! Values that change through shared references (counters, cells): the change must reach the value.
use crate::obj::Mk;
use crate::world::*;
use simrt::hook::{in_lib, outside, yield_here};
use simrt::ledger;
use simrt::state::*;
use simrt::{call, report, Outcome};
use std::cell::{Cell, UnsafeCell};
use std::fmt::{self, Write};
use std::sync::atomic::{AtomicU16, AtomicU32, AtomicU64, AtomicU8, Ordering};
use tagged_box::{TaggableContainer, TaggableInner, TaggedBox};

pub const NIM: usize = 16;
pub const IM_SHARED: usize = 12;
pub const IM_PER_THREAD: usize = 3;
pub const ROUTES: u64 = 16;
/// Routes from here on change the value through a library-made copy (see the known findings).
const LOSSY: usize = 11;
pub const KINDS: u64 = 22;
/// Kinds from here on are of an enum with hand-written conversions, stored as a whole.
const HAND: u64 = 19;

/// The variant a container of this kind has; none for boxes made directly.
pub fn variant(kind: u64) -> Option<u64> {
    [0, 1, 2, 3, 0, 4, 5, 6, 7, 8, 9].get(kind as usize).copied().or(if kind >= HAND { Some((kind - HAND) % 2) } else { None })
}
pub fn counts(kind: u64) -> bool {
    !matches!(kind, 3 | 10 | 17 | 18 | 21)
}
fn direct(kind: u64) -> bool {
    !matches!(kind, 1 | 2)
}

thread_local! {
    /// What user code called by the library does: nothing, count itself, or count in the box again.
    static MODE: Cell<u8> = const { Cell::new(0) };
    static NEST: Cell<*mut ImSlot> = const { Cell::new(std::ptr::null_mut()) };
}
fn with_mode<R>(m: u8, s: *mut ImSlot, f: impl FnOnce() -> R) -> R {
    MODE.with(|x| x.set(m));
    NEST.with(|x| x.set(s));
    let r = f();
    MODE.with(|x| x.set(0));
    r
}
/// Called by user code that the library runs.
fn user(own: impl FnOnce()) {
    if !in_lib() {
        return;
    }
    yield_here();
    match MODE.with(|x| x.get()) {
        1 => outside(own),
        2 => bump_direct(NEST.with(|x| x.get()), 0),
        _ => {}
    }
    yield_here();
}

/// Counts how often it was touched.
pub trait Ctr {
    fn new(x: u64) -> Self;
    fn add(&self);
    fn get(&self) -> u64;
}
macro_rules! ctr {
    ($n:ident, $a:ty, $($attr:meta)?) => {
        $(#[$attr])?
        pub struct $n($a);
        impl Ctr for $n {
            fn new(_: u64) -> Self { $n(<$a>::new(0)) }
            fn add(&self) { self.0.fetch_add(1, Ordering::SeqCst); }
            fn get(&self) -> u64 { self.0.load(Ordering::SeqCst) as u64 }
        }
        user_impls!($n);
    };
}
macro_rules! user_impls {
    ($n:ident) => {
        impl Clone for $n {
            fn clone(&self) -> $n { user(|| self.add()); $n::new(0) }
        }
        impl PartialEq for $n {
            fn eq(&self, _: &$n) -> bool { user(|| self.add()); true }
        }
        impl fmt::Debug for $n {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { user(|| self.add()); f.write_str("count") }
        }
    };
}
ctr!(C8, AtomicU64,);
ctr!(C4, AtomicU32,);
ctr!(C2, AtomicU16,);
ctr!(C1, AtomicU8,);
ctr!(Al, AtomicU8, repr(align(128)));
/// A counter in the middle of other data, kept in two cells that must agree.
pub struct Big {
    a: [u8; 77],
    n: Cell<u64>,
    b: [u8; 300],
    m: Cell<u32>,
}
impl Ctr for Big {
    fn new(x: u64) -> Big {
        Big { a: [x as u8; 77], n: Cell::new(0), b: [(x >> 8) as u8; 300], m: Cell::new(0) }
    }
    fn add(&self) {
        self.n.set(self.n.get() + 1);
        self.m.set(self.m.get() + 1);
    }
    fn get(&self) -> u64 {
        if self.n.get() != self.m.get() as u64 || self.a.iter().any(|x| *x != self.a[0]) || self.b.iter().any(|x| *x != self.b[0]) {
            return 1 << 40;
        }
        self.n.get()
    }
}
user_impls!(Big);

/// Gives its value away once.
pub trait Give {
    fn new(id: Option<u32>) -> Self;
    fn grab(&self) -> Option<u32>;
}
macro_rules! give {
    ($n:ident, $before:ty, $x:expr) => {
        pub struct $n($before, UnsafeCell<Option<u32>>);
        impl Give for $n {
            fn new(id: Option<u32>) -> Self { $n($x, UnsafeCell::new(id)) }
            fn grab(&self) -> Option<u32> { unsafe { (*self.1.get()).take() } }
        }
        impl Clone for $n {
            fn clone(&self) -> $n { user(|| ()); $n::new(None) }
        }
        impl PartialEq for $n {
            fn eq(&self, _: &$n) -> bool { user(|| ()); true }
        }
        impl fmt::Debug for $n {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { user(|| ()); f.write_str("once") }
        }
    };
}
give!(Once, (), ());
give!(OnceB, [u8; 133], [7; 133]);

mod e {
    use super::*;
    tagged_box::tagged_box! {
        #[derive(Clone, PartialEq, Debug)]
        pub struct Box_, pub enum Im {
            Plain(C8),
            Pair(u8, C8),
            Rec { a: u16, c: C8 },
            Gift(Once),
            One(C1),
            Two(C2),
            Four(C4),
            Large(Big),
            Aligned(Al),
            GiftB(OnceB),
        }
    }
    impl Box_ {
        pub fn tb(&self) -> &TaggedBox<Im> {
            unsafe { &*(self as *const Self as *const TaggedBox<Im>) }
        }
        pub fn unwrap(self) -> TaggedBox<Im> {
            unsafe { crate::obj::exchange(self) }
        }
    }
}
use e::{Box_, Im};

impl Im {
    fn count(&self) -> Option<&dyn Ctr_> {
        Some(match self {
            Im::Plain(c) => c,
            Im::Pair(_, c) => c,
            Im::Rec { c, .. } => c,
            Im::One(c) => c,
            Im::Two(c) => c,
            Im::Four(c) => c,
            Im::Large(c) => c,
            Im::Aligned(c) => c,
            Im::Gift(_) | Im::GiftB(_) => return None,
        })
    }
    fn grab(&self) -> Option<u32> {
        match self {
            Im::Gift(o) => o.grab(),
            Im::GiftB(o) => o.grab(),
            _ => None,
        }
    }
}
/// An enum whose conversions are written by hand: it is stored as it is, so a look gives the stored value.
pub enum Hd {
    Num(C8),
    Large(u16, Big),
    Gift(Once),
}
impl TaggableInner for Hd {
    fn into_tagged_box(self) -> TaggedBox<Hd> {
        let d = match self {
            Hd::Num(_) | Hd::Gift(_) => 0,
            Hd::Large(..) => 1,
        };
        TaggedBox::new(self, d)
    }
    fn from_tagged_box(tagged: TaggedBox<Hd>) -> Hd {
        unsafe { TaggedBox::into_inner(tagged) }
    }
    unsafe fn ref_from_tagged_box<F: FnOnce(&Hd)>(tagged: &TaggedBox<Hd>, callback: F) {
        callback(tagged.as_ref::<Hd>())
    }
}
impl Ctr for Hd {
    fn new(_: u64) -> Hd {
        unreachable!()
    }
    fn add(&self) {
        match self {
            Hd::Num(c) => c.add(),
            Hd::Large(_, c) => c.add(),
            Hd::Gift(_) => (),
        }
    }
    fn get(&self) -> u64 {
        match self {
            Hd::Num(c) => c.get(),
            Hd::Large(_, c) => c.get(),
            Hd::Gift(_) => 0,
        }
    }
}
impl Give for Hd {
    fn new(id: Option<u32>) -> Hd {
        Hd::Gift(Once::new(id))
    }
    fn grab(&self) -> Option<u32> {
        match self {
            Hd::Gift(o) => o.grab(),
            _ => None,
        }
    }
}
impl Clone for Hd {
    fn clone(&self) -> Hd {
        match self {
            Hd::Num(c) => Hd::Num(c.clone()),
            Hd::Large(x, c) => Hd::Large(*x, c.clone()),
            Hd::Gift(c) => Hd::Gift(c.clone()),
        }
    }
}
impl PartialEq for Hd {
    fn eq(&self, o: &Hd) -> bool {
        match (self, o) {
            (Hd::Num(a), Hd::Num(b)) => a == b,
            (Hd::Large(x, a), Hd::Large(y, b)) => x == y && a == b,
            (Hd::Gift(a), Hd::Gift(b)) => a == b,
            _ => false,
        }
    }
}
impl fmt::Debug for Hd {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Hd::Num(c) => c.fmt(f),
            Hd::Large(_, c) => c.fmt(f),
            Hd::Gift(c) => c.fmt(f),
        }
    }
}
/// The object-safe part.
pub trait Ctr_ {
    fn add_(&self);
    fn get_(&self) -> u64;
}
impl<T: Ctr> Ctr_ for T {
    fn add_(&self) {
        self.add()
    }
    fn get_(&self) -> u64 {
        self.get()
    }
}

enum ImObj {
    C(Box_),
    Hand(TaggedBox<Hd>),
    Raw(TaggedBox<Mk>),
    Gone,
}
pub struct ImSlot {
    obj: ImObj,
    kind: u64,
    n: u64,
    id: Option<u32>,
    /// The value was taken by callback at some point.
    cb_taken: bool,
}
impl ImSlot {
    fn counts(&self) -> bool {
        counts(self.kind)
    }
}

fn may(t: usize, s: usize, write: bool) -> bool {
    if s >= NIM {
        return false;
    }
    t == SETUP || if s >= IM_SHARED { !write } else { s / IM_PER_THREAD == t }
}

/// The stored type of a slot of this kind.
macro_rules! stored {
    ($kind:expr, $t:ident => $e:expr, $o:ident => $f:expr) => {
        match $kind {
            0 | 4 | 11 => { type $t = C8; $e }
            5 | 12 => { type $t = C1; $e }
            6 | 13 => { type $t = C2; $e }
            7 | 14 => { type $t = C4; $e }
            8 | 15 => { type $t = Big; $e }
            9 | 16 => { type $t = Al; $e }
            19 | 20 => { type $t = Hd; $e }
            21 => { type $o = Hd; $f }
            3 | 17 => { type $o = Once; $f }
            _ => { type $o = OnceB; $f }
        }
    };
}
macro_rules! on_box {
    ($obj:expr, $b:ident => $e:expr) => {
        match $obj {
            ImObj::C(c) => { let $b = c.tb(); $e }
            ImObj::Hand($b) => $e,
            ImObj::Raw($b) => $e,
            ImObj::Gone => unreachable!(),
        }
    };
}
/// One change through a typed view, made inside library code.
fn bump_direct(s: *mut ImSlot, route: usize) {
    let kind = unsafe { (*s).kind };
    // The change itself is atomic, so is its count.
    let inc = |c: &dyn Ctr_| {
        yield_here();
        outside(|| {
            c.add_();
            unsafe { (*s).n += 1 }
        });
        yield_here();
    };
    unsafe {
        on_box!(&(*s).obj, b => stored!(kind, T => match route {
            1 => inc(&*b.as_ptr::<T>()),
            _ => inc(b.as_ref::<T>()),
        }, O => { let _: Option<O> = None; }))
    }
}

/// Reads the counter through a typed view if there is one, else by callback; with it, what it should
/// be at that moment.
fn read(s: &ImSlot) -> Outcome<(u64, u64)> {
    let n: *const u64 = &s.n;
    let both = |c: &dyn Ctr_| outside(|| (c.get_(), unsafe { std::ptr::read_volatile(n) }));
    if direct(s.kind) {
        return call(|| unsafe {
            on_box!(&s.obj, b => stored!(s.kind, T => both(b.as_ref::<T>()), O => { let _: Option<O> = None; (0, 0) }))
        });
    }
    let mut r = (0, 1);
    on_box!(&s.obj, b => call(|| unsafe {
        Im::ref_from_tagged_box(std::mem::transmute::<&TaggedBox<_>, &TaggedBox<Im>>(b), |e| {
            if let Some(c) = e.count() {
                r = both(c)
            }
        })
    }))
    .map(|_| r)
}

fn lost(route: usize) -> &'static str {
    match route {
        11 => "callback-update-lost",
        12 => "clone-update-lost",
        13 => "eq-update-lost",
        14 => "fmt-update-lost",
        15 => "as-mut-update-lost",
        6..=10 => "update-undone-by-look",
        _ => "as-ref-update-lost",
    }
}
fn verify(s: &mut ImSlot, route: usize) {
    let lost = |r| if s.kind >= HAND && r >= 6 { "hand-update-lost" } else { lost(r) };
    if !s.counts() {
        return;
    }
    match read(s) {
        Outcome::Ok((n, want)) => settle_count(s, n, want, lost(route)),
        Outcome::Panic(_, e) => report("unexpected-panic@im", e),
    }
}
fn settle_count(s: &mut ImSlot, n: u64, want: u64, key: &'static str) {
    if n > 1 << 32 {
        report("torn@im", "a stored value is neither the old one nor the changed one".into());
    } else if n + 1 == want {
        note_known(key, &format!("{}@im", key), format!("a counter changed through a shared view {} times reads {}", want, n));
        s.n = n;
    } else if n < want {
        report("updates-lost@im", format!("a counter changed {} times reads {}", want, n));
    } else if n > want {
        report("update-repeated@im", format!("a counter changed {} times reads {}", want, n));
    }
}
fn settle_once(s: &ImSlot, want: Option<u32>, got: Option<u32>) {
    if got == want {
        return;
    }
    if want.is_none() {
        let key = if s.cb_taken { "callback-taken-twice" } else { "as-ref-taken-twice" };
        note_known(key, &format!("{}@im", key), "a value moved out through a shared view was produced again".into());
    } else {
        report("value@im", format!("took {:?} instead of {:?}", got, want));
    }
}

fn make(kind: u64, x: u64, d: u64) -> Option<ImSlot> {
    let id = if counts(kind) { None } else { Some(ledger::new_tok(x)) };
    let d = d.min(MAXD) as crate::obj::Disc;
    let r = lib(|| match kind {
        0 => call(|| ImObj::C(Box_::from(C8::new(x)))),
        1 => call(|| ImObj::C(Box_::from((x as u8, C8::new(x))))),
        2 => call(|| ImObj::C(Box_::from(Im::Rec { a: x as u16, c: C8::new(x) }))),
        3 => call(|| ImObj::C(Box_::from(Once::new(id)))),
        4 => call(|| ImObj::C(Box_::from(Im::Plain(C8::new(x))))),
        5 => call(|| ImObj::C(Box_::from(C1::new(x)))),
        6 => call(|| ImObj::C(Box_::from(Im::Two(C2::new(x))))),
        7 => call(|| ImObj::C(Box_::from(C4::new(x)))),
        8 => call(|| ImObj::C(Box_::from(Im::Large(Big::new(x))))),
        9 => call(|| ImObj::C(Box_::from(Al::new(x)))),
        10 => call(|| ImObj::C(Box_::from(Im::GiftB(OnceB::new(id))))),
        19 => call(|| ImObj::Hand(Hd::Num(C8::new(x)).into_tagged_box())),
        20 => call(|| ImObj::Hand(Hd::Large(x as u16, Big::new(x)).into_tagged_box())),
        21 => call(|| ImObj::Hand(Hd::Gift(Once::new(id)).into_tagged_box())),
        _ => stored!(kind, T => call(|| ImObj::Raw(TaggedBox::new(<T as Ctr>::new(x), d))), O => call(|| ImObj::Raw(TaggedBox::new(<O as Give>::new(id), d)))),
    });
    // Variants that do not fit the discriminant bits are refused.
    let refused = variant(kind).map_or(false, |v| v > MAXD);
    let (obj, ..) = settle("im", r, refused);
    obj.map(|obj| ImSlot { obj, kind, n: 0, id, cb_taken: false })
}

pub fn exec(op: &Op) {
    let a = &op.a;
    let s = a[0] as usize;
    if !may(op.t, s, matches!(op.k, K::ImMk | K::ImEnd)) || w().ims[s].is_some() == matches!(op.k, K::ImMk) {
        w().skipped += 1;
        return;
    }
    match op.k {
        K::ImMk => {
            let kind = a[1] % KINDS;
            w().ims[s] = make(kind, a[2], a[3]);
            log(|| format!("immk {}", kind));
        }
        K::ImBump => {
            bump(w().ims[s].as_mut().unwrap(), a[1] as usize % ROUTES as usize, s >= IM_SHARED);
            log(|| "imbump".to_string());
        }
        K::ImRead => {
            verify(w().ims[s].as_mut().unwrap(), 0);
            log(|| "imread".to_string());
        }
        K::ImTake => {
            take(w().ims[s].as_mut().unwrap(), a[1] as usize, s >= IM_SHARED);
            log(|| "imtake".to_string());
        }
        _ => {
            let m = w().ims[s].take().unwrap();
            end(m, a[1]);
            log(|| "imend".to_string());
        }
    }
}

/// Lets the library look at (clone, compare, print) the value while user code does what `mode` says.
fn looks(m: *mut ImSlot, how: usize, mode: u8) {
    macro_rules! via {
        ($e:ty, $c:expr, $tb:expr, $touch:expr) => {
            lib(|| {
                with_mode(mode, m, || match how {
                    0 => call(|| unsafe { <$e>::ref_from_tagged_box($tb, |e| user(|| $touch(e))) }),
                    1 => call(|| $c.clone()).map(std::mem::forget),
                    2 => call(|| *$c == *$c).map(|_| ()),
                    3 => {
                        let mut s = crate::obj::Sink::default();
                        call(|| write!(s, "{:?}", $tb)).map(|_| ())
                    }
                    _ => call(|| unsafe {
                        <$e>::ref_from_tagged_box($tb, |_| {
                            user(|| ());
                            <$e>::ref_from_tagged_box($tb, |_| user(|| ()))
                        })
                    }),
                })
            })
        };
    }
    let r = match unsafe { &(*m).obj } {
        ImObj::C(c) => via!(Im, c, c.tb(), |e: &Im| if let Some(c) = e.count() { c.add_() }),
        ImObj::Hand(b) => via!(Hd, b, b, |e: &Hd| Ctr::add(e)),
        _ => return,
    };
    settle("im", r, false);
}

fn bump(m: &mut ImSlot, mut route: usize, shared: bool) {
    if !m.counts() {
        w().skipped += 1;
        return;
    }
    let p: *mut ImSlot = m;
    match &mut m.obj {
        ImObj::Raw(b) if route == 15 && !shared => {
            let n: *mut u64 = &mut m.n;
            let r = stored!(m.kind, T => lib(|| call(|| unsafe {
                let c: &dyn Ctr_ = &*b.as_mut_ref::<T>();
                outside(|| { c.add_(); *n += 1 })
            })), O => { let _: Option<O> = None; return });
            settle("im", r, false);
        }
        ImObj::Raw(_) => {
            route &= 1;
            let r = lib(|| call(|| bump_direct(p, route)));
            settle("im", r, false);
        }
        _ => {
            if route == 15 {
                route = 0;
            }
            if shared && route >= LOSSY {
                route -= LOSSY - 6;
            }
            if !direct(m.kind) && (route < 6) {
                route = LOSSY + route % 4;
            }
            match route {
                0 | 1 => {
                    let r = lib(|| call(|| bump_direct(p, route)));
                    settle("im", r, false);
                }
                // User code changes the value through another view.
                2..=5 => looks(p, route - 2, 2),
                6..=10 => looks(p, route - 6, 0),
                _ => {
                    m.n += 1;
                    looks(p, route - LOSSY, 1)
                }
            }
        }
    }
    verify(m, route);
}

fn take(m: &mut ImSlot, route: usize, shared: bool) {
    if m.counts() {
        w().skipped += 1;
        return;
    }
    let mut got = None;
    let mut want = None;
    let id: *mut Option<u32> = &mut m.id;
    let p: *mut ImSlot = m;
    let by_cb = !shared && route % 8 == 1 && !matches!(m.obj, ImObj::Raw(_));
    let r = if by_cb && m.kind >= HAND {
        match &m.obj {
            ImObj::Hand(b) => lib(|| {
                call(|| unsafe {
                    Hd::ref_from_tagged_box(b, |e| {
                        yield_here();
                        outside(|| {
                            got = e.grab();
                            want = (*id).take();
                        })
                    })
                })
            }),
            _ => unreachable!(),
        }
    } else if by_cb {
        on_box!(&m.obj, b => lib(|| {
            call(|| unsafe {
                Im::ref_from_tagged_box(std::mem::transmute::<&TaggedBox<_>, &TaggedBox<Im>>(b), |e| {
                    yield_here();
                    outside(|| {
                        got = e.grab();
                        want = (*id).take();
                    })
                })
            })
        }))
    } else if route % 8 > 3 && !matches!(m.obj, ImObj::Raw(_)) {
        // Looks take nothing.
        looks(p, route % 8 - 3, 0);
        return;
    } else {
        on_box!(&m.obj, b => stored!(m.kind, T => { let _: Option<T> = None; return }, O => lib(|| {
            call(|| unsafe {
                let o = if route % 2 == 0 { b.as_ref::<O>() } else { &*b.as_ptr::<O>() };
                yield_here();
                outside(|| {
                    got = o.grab();
                    want = (*id).take();
                });
            })
        })))
    };
    settle("im", r, false);
    settle_once(m, want, got);
    m.cb_taken |= by_cb && m.kind < HAND;
}

/// Takes the value out and compares.
fn end(mut m: ImSlot, how: u64) {
    let want = m.n;
    let obj = std::mem::replace(&mut m.obj, ImObj::Gone);
    match obj {
        ImObj::C(c) => {
            let r = lib(|| if how & 1 == 0 { call(|| c.into_inner()) } else { call(|| Im::from_tagged_box(c.unwrap())) });
            if let (Some(e), ..) = settle("im", r, false) {
                match e.count() {
                    Some(c) => {
                        let n = c.get_();
                        settle_count(&mut m, n, want, "extracted-update-lost")
                    }
                    None => settle_once(&m, m.id, e.grab()),
                }
            }
        }
        ImObj::Hand(t) => {
            let r = lib(|| call(|| Hd::from_tagged_box(t)));
            if let (Some(e), ..) = settle("im", r, false) {
                if counts(m.kind) {
                    settle_count(&mut m, Ctr::get(&e), want, "extracted-update-lost")
                } else {
                    settle_once(&m, m.id, e.grab())
                }
            }
        }
        ImObj::Raw(t) => {
            let d = t.discriminant();
            fn out<U>(t: TaggedBox<Mk>, d: crate::obj::Disc, how: u64) -> Res<U> {
                lib(|| call(|| unsafe {
                    match how % 3 {
                        0 => TaggedBox::into_inner::<U>(t),
                        1 => *TaggedBox::into_box::<U>(t),
                        _ => {
                            let p = TaggedBox::into_raw::<U>(t);
                            TaggedBox::into_inner::<U>(TaggedBox::<Mk>::from_raw(p, d))
                        }
                    }
                }))
            }
            stored!(m.kind, T => {
                if let (Some(c), ..) = settle("im", out::<T>(t, d, how), false) {
                    settle_count(&mut m, c.get(), want, "extracted-update-lost");
                }
            }, O => {
                if let (Some(o), ..) = settle("im", out::<O>(t, d, how), false) {
                    settle_once(&m, m.id, o.grab());
                }
            })
        }
        ImObj::Gone => {}
    }
}

pub fn audit() {
    for i in 0..NIM {
        if violated() {
            return;
        }
        if let Some(mut m) = w().ims[i].take() {
            verify(&mut m, 0);
            end(m, i as u64);
        }
    }
}
