//! The table of enums under test.
pub use crate::obj::*;
pub use crate::pay::*;
pub use crate::{caps, cmp_body, fmt_body};
pub use simrt::hook::{user_code, user_fmt, Fault};
pub use simrt::{call, Outcome};
pub use std::fmt::{self, Write};
pub use tagged_box::TaggedBox;

#[path = "subjects.rs"]
mod subjects;
pub use subjects::SUBJECTS;

macro_rules! sa {
    ($t:ty) => {
        (std::mem::size_of::<$t>(), std::mem::align_of::<$t>())
    };
}
pub(crate) use sa;

/// What is known about an enum under test.
#[derive(Clone, Copy)]
pub struct Subject {
    pub name: &'static str,
    pub nvar: usize,
    pub caps: u32,
    pub make: fn(usize, u64, bool) -> Box<dyn VObj>,
    pub shape: fn(usize) -> Shape,
    pub con_size: usize,
    /// Rebuilds a container over storage given up before.
    pub adopt: fn(usize, u64) -> Outcome<Box<dyn CObj>>,
}
fn vmake<C: Caps>(v: usize, seed: u64, shadow: bool) -> Box<dyn VObj> {
    Box::new(V::<C>(<C::E as Enu>::make(v, &mut Gen::new(v, seed, shadow))))
}
fn adopt<C: Caps>(addr: usize, d: u64) -> Outcome<Box<dyn CObj>> {
    call(|| C::wrap(unsafe { TaggedBox::from_raw(addr as *mut u8, d as Disc) }))
        .map(|c| Box::new(H(c)) as Box<dyn CObj>)
}
pub const fn subj<C: Caps>() -> Subject {
    Subject {
        name: <C::E as Enu>::NAME,
        nvar: <C::E as Enu>::NVAR,
        caps: C::CAPS,
        make: vmake::<C>,
        shape: <C::E as Enu>::shape,
        con_size: std::mem::size_of::<C>(),
        adopt: adopt::<C>,
    }
}
/// Overwrites the only field of the stored variant through a typed mutable view.
pub fn poke_as<E: Enu, U: Pay>(tb: &mut TaggedBox<E>, g: &mut Gen, how: u8) -> Outcome<()> {
    let u = U::make(g);
    let r = match how {
        0 => call(|| unsafe { tb.as_mut_ref::<U>() as *mut U }),
        _ => call(|| tb.as_mut_ptr::<U>()),
    };
    r.map(|p| unsafe { *p = u })
}

const fn rt<U: Pay>(name: &'static str, copy: bool, std_alloc: bool) -> RType {
    RType {
        name,
        size: std::mem::size_of::<U>(),
        align: std::mem::align_of::<U>(),
        copy,
        std_alloc,
        make: rmake::<U>,
        mk: rmk::<U>,
        reject_ptr: rreject_ptr::<U>,
    }
}
pub const RTYPES: &[RType] = &[
    rt::<Tok>("Tok", false, false),
    rt::<TokS>("TokS", false, false),
    rt::<ZTok>("ZTok", false, false),
    #[cfg(feature = "full")]
    rt::<[ZTok; 2]>("ZTok2", false, false),
    rt::<Str>("Str", false, true),
    rt::<u8>("u8", true, false),
    #[cfg(feature = "full")]
    rt::<u16>("u16", true, false),
    #[cfg(feature = "full")]
    rt::<u32>("u32", true, false),
    rt::<u64>("u64", true, false),
    rt::<u128>("u128", true, false),
    #[cfg(feature = "full")]
    rt::<bool>("bool", true, false),
    #[cfg(feature = "full")]
    rt::<char>("char", true, false),
    #[cfg(feature = "full")]
    rt::<f64>("f64", true, false),
    rt::<()>("unit", true, false),
    rt::<By<3>>("By3", true, false),
    #[cfg(feature = "full")]
    rt::<By<17>>("By17", true, false),
    #[cfg(feature = "full")]
    rt::<By<255>>("By255", true, false),
    rt::<By<4096>>("By4096", true, false),
    rt::<By<65536>>("By65536", true, false),
    rt::<By<140003>>("By140003", true, false),
    #[cfg(feature = "full")]
    rt::<By<1179651>>("By1179651", true, false),
    #[cfg(feature = "full")]
    rt::<A2>("A2", false, false),
    #[cfg(feature = "full")]
    rt::<A16>("A16", false, false),
    #[cfg(feature = "full")]
    rt::<A64>("A64", false, false),
    #[cfg(feature = "full")]
    rt::<A512>("A512", false, false),
    rt::<A4096>("A4096", false, false),
    #[cfg(feature = "full")]
    rt::<Z2>("Z2", true, false),
    #[cfg(feature = "full")]
    rt::<Z64>("Z64", true, false),
    rt::<Z4096>("Z4096", true, false),
    #[cfg(feature = "full")]
    rt::<A8192>("A8192", false, false),
    #[cfg(feature = "full")]
    rt::<Z65536>("Z65536", true, false),
    #[cfg(feature = "full")]
    rt::<A65536>("A65536", false, false),
    #[cfg(feature = "full")]
    rt::<Z1048576>("Z1048576", true, false),
    #[cfg(feature = "full")]
    rt::<(Tok, u8)>("TokU8", false, false),
    #[cfg(feature = "full")]
    rt::<[Tok; 5]>("Tok5", false, false),
    #[cfg(feature = "full")]
    rt::<Option<Tok>>("OptTok", false, false),
    rt::<(A32, TokS)>("A32TokS", false, false),
];
