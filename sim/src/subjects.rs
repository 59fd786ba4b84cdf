// Generated by tools/mksubjects.py. Do not edit.
use super::*;

pub mod ar0 {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        Odd(Tok),
        Even(u8, Tok),
        Nothing,
        Void(),
    }
}
impl Enu for E {
    const NAME: &'static str = "ar0";
    const NVAR: usize = 4;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::Odd(<Tok>::make(g)),
        1 => E::Even(<u8>::make(g), <Tok>::make(g)),
        2 => E::Nothing,
        _ => E::Void(),
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::Odd(a0) => { o.variant = 0; a0.look(o); }
        E::Even(a0, a1) => { o.variant = 1; a0.look(o); a1.look(o); }
        E::Nothing => { o.variant = 2;  }
        E::Void() => { o.variant = 3;  }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(Tok)]),
        1 => shape(&[sa!(u8), sa!(Tok)]),
        2 => shape(&[]),
        _ => shape(&[]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::Odd(a0) => call(move || C::from(a0)),
        E::Even(a0, a1) => call(move || C::from((a0, a1))),
        E::Void() => call(move || C::from(())),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        0 => Some(poke_as::<E, Tok>(tb, g, how)),
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, ord, dbg);
}
#[cfg(feature = "full")]
pub mod ar1 {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        Even(By<3>, TokS, isize, TokS),
        Nothing,
        Void(),
        Odd(TokS, u128, usize),
    }
}
impl Enu for E {
    const NAME: &'static str = "ar1";
    const NVAR: usize = 4;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::Even(<By<3>>::make(g), <TokS>::make(g), <isize>::make(g), <TokS>::make(g)),
        1 => E::Nothing,
        2 => E::Void(),
        _ => E::Odd(<TokS>::make(g), <u128>::make(g), <usize>::make(g)),
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::Even(a0, a1, a2, a3) => { o.variant = 0; a0.look(o); a1.look(o); a2.look(o); a3.look(o); }
        E::Nothing => { o.variant = 1;  }
        E::Void() => { o.variant = 2;  }
        E::Odd(a0, a1, a2) => { o.variant = 3; a0.look(o); a1.look(o); a2.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(By<3>), sa!(TokS), sa!(isize), sa!(TokS)]),
        1 => shape(&[]),
        2 => shape(&[]),
        _ => shape(&[sa!(TokS), sa!(u128), sa!(usize)]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::Even(a0, a1, a2, a3) => call(move || C::from((a0, a1, a2, a3))),
        E::Void() => call(move || C::from(())),
        E::Odd(a0, a1, a2) => call(move || C::from((a0, a1, a2))),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, ord, dbg);
}
#[cfg(feature = "full")]
pub mod ar2 {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        Nothing,
        Void(),
        Odd(By<3>, TokS, isize, TokS, By<17>),
        Even(u128, i16, TokS, A16, Tok, u64),
    }
}
impl Enu for E {
    const NAME: &'static str = "ar2";
    const NVAR: usize = 4;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::Nothing,
        1 => E::Void(),
        2 => E::Odd(<By<3>>::make(g), <TokS>::make(g), <isize>::make(g), <TokS>::make(g), <By<17>>::make(g)),
        _ => E::Even(<u128>::make(g), <i16>::make(g), <TokS>::make(g), <A16>::make(g), <Tok>::make(g), <u64>::make(g)),
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::Nothing => { o.variant = 0;  }
        E::Void() => { o.variant = 1;  }
        E::Odd(a0, a1, a2, a3, a4) => { o.variant = 2; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); }
        E::Even(a0, a1, a2, a3, a4, a5) => { o.variant = 3; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[]),
        1 => shape(&[]),
        2 => shape(&[sa!(By<3>), sa!(TokS), sa!(isize), sa!(TokS), sa!(By<17>)]),
        _ => shape(&[sa!(u128), sa!(i16), sa!(TokS), sa!(A16), sa!(Tok), sa!(u64)]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::Void() => call(move || C::from(())),
        E::Odd(a0, a1, a2, a3, a4) => call(move || C::from((a0, a1, a2, a3, a4))),
        E::Even(a0, a1, a2, a3, a4, a5) => call(move || C::from((a0, a1, a2, a3, a4, a5))),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, ord, dbg);
}
pub mod ar3 {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        Void(),
        Odd(char, By<17>, A64, By<3>, A32, TokS, usize),
        Even(Str, isize, Tok, i8, A64, Tok, By<9>, i64),
        Nothing,
    }
}
impl Enu for E {
    const NAME: &'static str = "ar3";
    const NVAR: usize = 4;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::Void(),
        1 => E::Odd(<char>::make(g), <By<17>>::make(g), <A64>::make(g), <By<3>>::make(g), <A32>::make(g), <TokS>::make(g), <usize>::make(g)),
        2 => E::Even(<Str>::make(g), <isize>::make(g), <Tok>::make(g), <i8>::make(g), <A64>::make(g), <Tok>::make(g), <By<9>>::make(g), <i64>::make(g)),
        _ => E::Nothing,
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::Void() => { o.variant = 0;  }
        E::Odd(a0, a1, a2, a3, a4, a5, a6) => { o.variant = 1; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); }
        E::Even(a0, a1, a2, a3, a4, a5, a6, a7) => { o.variant = 2; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); }
        E::Nothing => { o.variant = 3;  }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[]),
        1 => shape(&[sa!(char), sa!(By<17>), sa!(A64), sa!(By<3>), sa!(A32), sa!(TokS), sa!(usize)]),
        2 => shape(&[sa!(Str), sa!(isize), sa!(Tok), sa!(i8), sa!(A64), sa!(Tok), sa!(By<9>), sa!(i64)]),
        _ => shape(&[]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::Void() => call(move || C::from(())),
        E::Odd(a0, a1, a2, a3, a4, a5, a6) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6))),
        E::Even(a0, a1, a2, a3, a4, a5, a6, a7) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7))),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        _ => None,
    } }
}
caps!(C, E; DERIVED | STD_ALLOC; clone, ord, dbg);
}
#[cfg(feature = "full")]
pub mod ar4 {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        Odd(By<5>, A32, i128, Tok, By<1>, By<3>, isize, u128, u8),
        Even(usize, TokS, By<3>, ZTok, By<33>, i64, u8, A32, char, u8),
        Nothing,
        Void(),
    }
}
impl Enu for E {
    const NAME: &'static str = "ar4";
    const NVAR: usize = 4;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::Odd(<By<5>>::make(g), <A32>::make(g), <i128>::make(g), <Tok>::make(g), <By<1>>::make(g), <By<3>>::make(g), <isize>::make(g), <u128>::make(g), <u8>::make(g)),
        1 => E::Even(<usize>::make(g), <TokS>::make(g), <By<3>>::make(g), <ZTok>::make(g), <By<33>>::make(g), <i64>::make(g), <u8>::make(g), <A32>::make(g), <char>::make(g), <u8>::make(g)),
        2 => E::Nothing,
        _ => E::Void(),
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::Odd(a0, a1, a2, a3, a4, a5, a6, a7, a8) => { o.variant = 0; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); }
        E::Even(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9) => { o.variant = 1; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); }
        E::Nothing => { o.variant = 2;  }
        E::Void() => { o.variant = 3;  }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(By<5>), sa!(A32), sa!(i128), sa!(Tok), sa!(By<1>), sa!(By<3>), sa!(isize), sa!(u128), sa!(u8)]),
        1 => shape(&[sa!(usize), sa!(TokS), sa!(By<3>), sa!(ZTok), sa!(By<33>), sa!(i64), sa!(u8), sa!(A32), sa!(char), sa!(u8)]),
        2 => shape(&[]),
        _ => shape(&[]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::Odd(a0, a1, a2, a3, a4, a5, a6, a7, a8) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8))),
        E::Even(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9))),
        E::Void() => call(move || C::from(())),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, ord, dbg);
}
#[cfg(feature = "full")]
pub mod ar5 {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        Even(i32, Tok, u128, By<1>, u32, A32, u64, By<7>, TokS, u64, (), i32),
        Nothing,
        Void(),
        Odd(i64, By<1>, u8, By<5>, i32, char, A64, TokS, TokS, A64, A32),
    }
}
impl Enu for E {
    const NAME: &'static str = "ar5";
    const NVAR: usize = 4;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::Even(<i32>::make(g), <Tok>::make(g), <u128>::make(g), <By<1>>::make(g), <u32>::make(g), <A32>::make(g), <u64>::make(g), <By<7>>::make(g), <TokS>::make(g), <u64>::make(g), <()>::make(g), <i32>::make(g)),
        1 => E::Nothing,
        2 => E::Void(),
        _ => E::Odd(<i64>::make(g), <By<1>>::make(g), <u8>::make(g), <By<5>>::make(g), <i32>::make(g), <char>::make(g), <A64>::make(g), <TokS>::make(g), <TokS>::make(g), <A64>::make(g), <A32>::make(g)),
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::Even(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11) => { o.variant = 0; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); a10.look(o); a11.look(o); }
        E::Nothing => { o.variant = 1;  }
        E::Void() => { o.variant = 2;  }
        E::Odd(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10) => { o.variant = 3; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); a10.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(i32), sa!(Tok), sa!(u128), sa!(By<1>), sa!(u32), sa!(A32), sa!(u64), sa!(By<7>), sa!(TokS), sa!(u64), sa!(()), sa!(i32)]),
        1 => shape(&[]),
        2 => shape(&[]),
        _ => shape(&[sa!(i64), sa!(By<1>), sa!(u8), sa!(By<5>), sa!(i32), sa!(char), sa!(A64), sa!(TokS), sa!(TokS), sa!(A64), sa!(A32)]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::Even(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11))),
        E::Void() => call(move || C::from(())),
        E::Odd(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10))),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, ord, dbg);
}
#[cfg(feature = "full")]
pub mod ar6 {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        Nothing,
        Void(),
        Odd(ZTok, i32, TokS, i64, TokS, By<5>, i128, By<17>, By<3>, i128, By<1>, ZTok, i64),
        Even((), By<3>, Str, By<9>, char, By<7>, Tok, i128, i16, Tok, TokS, (), By<9>, A64),
    }
}
impl Enu for E {
    const NAME: &'static str = "ar6";
    const NVAR: usize = 4;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::Nothing,
        1 => E::Void(),
        2 => E::Odd(<ZTok>::make(g), <i32>::make(g), <TokS>::make(g), <i64>::make(g), <TokS>::make(g), <By<5>>::make(g), <i128>::make(g), <By<17>>::make(g), <By<3>>::make(g), <i128>::make(g), <By<1>>::make(g), <ZTok>::make(g), <i64>::make(g)),
        _ => E::Even(<()>::make(g), <By<3>>::make(g), <Str>::make(g), <By<9>>::make(g), <char>::make(g), <By<7>>::make(g), <Tok>::make(g), <i128>::make(g), <i16>::make(g), <Tok>::make(g), <TokS>::make(g), <()>::make(g), <By<9>>::make(g), <A64>::make(g)),
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::Nothing => { o.variant = 0;  }
        E::Void() => { o.variant = 1;  }
        E::Odd(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12) => { o.variant = 2; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); a10.look(o); a11.look(o); a12.look(o); }
        E::Even(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13) => { o.variant = 3; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); a10.look(o); a11.look(o); a12.look(o); a13.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[]),
        1 => shape(&[]),
        2 => shape(&[sa!(ZTok), sa!(i32), sa!(TokS), sa!(i64), sa!(TokS), sa!(By<5>), sa!(i128), sa!(By<17>), sa!(By<3>), sa!(i128), sa!(By<1>), sa!(ZTok), sa!(i64)]),
        _ => shape(&[sa!(()), sa!(By<3>), sa!(Str), sa!(By<9>), sa!(char), sa!(By<7>), sa!(Tok), sa!(i128), sa!(i16), sa!(Tok), sa!(TokS), sa!(()), sa!(By<9>), sa!(A64)]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::Void() => call(move || C::from(())),
        E::Odd(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12))),
        E::Even(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13))),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        _ => None,
    } }
}
caps!(C, E; DERIVED | STD_ALLOC; clone, ord, dbg);
}
#[cfg(feature = "full")]
pub mod ar7 {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        Void(),
        Odd(usize, TokS, By<3>, ZTok, By<33>, i64, u8, A32, char, u8, i32, usize, ZTok, By<17>, ZTok),
        Even(TokS, u128, usize, u8, TokS, i128, i64, u16, isize, i64, A16, TokS, u8, By<33>, u8, TokS),
        Nothing,
    }
}
impl Enu for E {
    const NAME: &'static str = "ar7";
    const NVAR: usize = 4;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::Void(),
        1 => E::Odd(<usize>::make(g), <TokS>::make(g), <By<3>>::make(g), <ZTok>::make(g), <By<33>>::make(g), <i64>::make(g), <u8>::make(g), <A32>::make(g), <char>::make(g), <u8>::make(g), <i32>::make(g), <usize>::make(g), <ZTok>::make(g), <By<17>>::make(g), <ZTok>::make(g)),
        2 => E::Even(<TokS>::make(g), <u128>::make(g), <usize>::make(g), <u8>::make(g), <TokS>::make(g), <i128>::make(g), <i64>::make(g), <u16>::make(g), <isize>::make(g), <i64>::make(g), <A16>::make(g), <TokS>::make(g), <u8>::make(g), <By<33>>::make(g), <u8>::make(g), <TokS>::make(g)),
        _ => E::Nothing,
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::Void() => { o.variant = 0;  }
        E::Odd(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14) => { o.variant = 1; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); a10.look(o); a11.look(o); a12.look(o); a13.look(o); a14.look(o); }
        E::Even(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15) => { o.variant = 2; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); a10.look(o); a11.look(o); a12.look(o); a13.look(o); a14.look(o); a15.look(o); }
        E::Nothing => { o.variant = 3;  }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[]),
        1 => shape(&[sa!(usize), sa!(TokS), sa!(By<3>), sa!(ZTok), sa!(By<33>), sa!(i64), sa!(u8), sa!(A32), sa!(char), sa!(u8), sa!(i32), sa!(usize), sa!(ZTok), sa!(By<17>), sa!(ZTok)]),
        2 => shape(&[sa!(TokS), sa!(u128), sa!(usize), sa!(u8), sa!(TokS), sa!(i128), sa!(i64), sa!(u16), sa!(isize), sa!(i64), sa!(A16), sa!(TokS), sa!(u8), sa!(By<33>), sa!(u8), sa!(TokS)]),
        _ => shape(&[]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::Void() => call(move || C::from(())),
        E::Odd(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14))),
        E::Even(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15))),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, ord, dbg);
}
#[cfg(feature = "full")]
pub mod ar8 {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        Odd(isize, By<33>, char, usize, u16, ZTok, TokS, By<1>, By<5>, TokS, TokS, isize, usize, A32, usize, isize, TokS),
        Even(A16, Str, i32, u64, i16, u16, A32, bool, TokS, A32, i8, A16, u64, u32, u64, A16, i8, A32),
        Nothing,
        Void(),
    }
}
impl Enu for E {
    const NAME: &'static str = "ar8";
    const NVAR: usize = 4;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::Odd(<isize>::make(g), <By<33>>::make(g), <char>::make(g), <usize>::make(g), <u16>::make(g), <ZTok>::make(g), <TokS>::make(g), <By<1>>::make(g), <By<5>>::make(g), <TokS>::make(g), <TokS>::make(g), <isize>::make(g), <usize>::make(g), <A32>::make(g), <usize>::make(g), <isize>::make(g), <TokS>::make(g)),
        1 => E::Even(<A16>::make(g), <Str>::make(g), <i32>::make(g), <u64>::make(g), <i16>::make(g), <u16>::make(g), <A32>::make(g), <bool>::make(g), <TokS>::make(g), <A32>::make(g), <i8>::make(g), <A16>::make(g), <u64>::make(g), <u32>::make(g), <u64>::make(g), <A16>::make(g), <i8>::make(g), <A32>::make(g)),
        2 => E::Nothing,
        _ => E::Void(),
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::Odd(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16) => { o.variant = 0; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); a10.look(o); a11.look(o); a12.look(o); a13.look(o); a14.look(o); a15.look(o); a16.look(o); }
        E::Even(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17) => { o.variant = 1; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); a10.look(o); a11.look(o); a12.look(o); a13.look(o); a14.look(o); a15.look(o); a16.look(o); a17.look(o); }
        E::Nothing => { o.variant = 2;  }
        E::Void() => { o.variant = 3;  }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(isize), sa!(By<33>), sa!(char), sa!(usize), sa!(u16), sa!(ZTok), sa!(TokS), sa!(By<1>), sa!(By<5>), sa!(TokS), sa!(TokS), sa!(isize), sa!(usize), sa!(A32), sa!(usize), sa!(isize), sa!(TokS)]),
        1 => shape(&[sa!(A16), sa!(Str), sa!(i32), sa!(u64), sa!(i16), sa!(u16), sa!(A32), sa!(bool), sa!(TokS), sa!(A32), sa!(i8), sa!(A16), sa!(u64), sa!(u32), sa!(u64), sa!(A16), sa!(i8), sa!(A32)]),
        2 => shape(&[]),
        _ => shape(&[]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::Odd(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16))),
        E::Even(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17))),
        E::Void() => call(move || C::from(())),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        _ => None,
    } }
}
caps!(C, E; DERIVED | STD_ALLOC; clone, ord, dbg);
}
#[cfg(feature = "full")]
pub mod ar9 {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        Even(i8, usize, (), Tok, isize, bool, By<7>, By<5>, Tok, By<7>, ZTok, i8, Tok, char, Tok, i8, ZTok, By<7>, Tok, By<5>),
        Nothing,
        Void(),
        Odd(A64, u16, By<5>, isize, u64, usize, By<3>, i32, Tok, By<3>, By<33>, A64, isize, By<1>, isize, A64, By<33>, By<3>, i64),
    }
}
impl Enu for E {
    const NAME: &'static str = "ar9";
    const NVAR: usize = 4;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::Even(<i8>::make(g), <usize>::make(g), <()>::make(g), <Tok>::make(g), <isize>::make(g), <bool>::make(g), <By<7>>::make(g), <By<5>>::make(g), <Tok>::make(g), <By<7>>::make(g), <ZTok>::make(g), <i8>::make(g), <Tok>::make(g), <char>::make(g), <Tok>::make(g), <i8>::make(g), <ZTok>::make(g), <By<7>>::make(g), <Tok>::make(g), <By<5>>::make(g)),
        1 => E::Nothing,
        2 => E::Void(),
        _ => E::Odd(<A64>::make(g), <u16>::make(g), <By<5>>::make(g), <isize>::make(g), <u64>::make(g), <usize>::make(g), <By<3>>::make(g), <i32>::make(g), <Tok>::make(g), <By<3>>::make(g), <By<33>>::make(g), <A64>::make(g), <isize>::make(g), <By<1>>::make(g), <isize>::make(g), <A64>::make(g), <By<33>>::make(g), <By<3>>::make(g), <i64>::make(g)),
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::Even(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19) => { o.variant = 0; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); a10.look(o); a11.look(o); a12.look(o); a13.look(o); a14.look(o); a15.look(o); a16.look(o); a17.look(o); a18.look(o); a19.look(o); }
        E::Nothing => { o.variant = 1;  }
        E::Void() => { o.variant = 2;  }
        E::Odd(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18) => { o.variant = 3; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); a10.look(o); a11.look(o); a12.look(o); a13.look(o); a14.look(o); a15.look(o); a16.look(o); a17.look(o); a18.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(i8), sa!(usize), sa!(()), sa!(Tok), sa!(isize), sa!(bool), sa!(By<7>), sa!(By<5>), sa!(Tok), sa!(By<7>), sa!(ZTok), sa!(i8), sa!(Tok), sa!(char), sa!(Tok), sa!(i8), sa!(ZTok), sa!(By<7>), sa!(Tok), sa!(By<5>)]),
        1 => shape(&[]),
        2 => shape(&[]),
        _ => shape(&[sa!(A64), sa!(u16), sa!(By<5>), sa!(isize), sa!(u64), sa!(usize), sa!(By<3>), sa!(i32), sa!(Tok), sa!(By<3>), sa!(By<33>), sa!(A64), sa!(isize), sa!(By<1>), sa!(isize), sa!(A64), sa!(By<33>), sa!(By<3>), sa!(i64)]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::Even(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19))),
        E::Void() => call(move || C::from(())),
        E::Odd(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18))),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, ord, dbg);
}
pub mod ar10 {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        Nothing,
        Void(),
        Odd(i128, u64, i64, A64, A16, isize, char, TokS, ZTok, char, u16, i128, A64, i32, A64, i128, u16, char, ZTok, TokS, char),
        Even(ZTok, i32, TokS, i64, TokS, By<5>, i128, By<17>, By<3>, i128, By<1>, ZTok, i64, TokS, i64, ZTok, By<1>, i128, By<3>, By<17>, i128, By<5>),
    }
}
impl Enu for E {
    const NAME: &'static str = "ar10";
    const NVAR: usize = 4;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::Nothing,
        1 => E::Void(),
        2 => E::Odd(<i128>::make(g), <u64>::make(g), <i64>::make(g), <A64>::make(g), <A16>::make(g), <isize>::make(g), <char>::make(g), <TokS>::make(g), <ZTok>::make(g), <char>::make(g), <u16>::make(g), <i128>::make(g), <A64>::make(g), <i32>::make(g), <A64>::make(g), <i128>::make(g), <u16>::make(g), <char>::make(g), <ZTok>::make(g), <TokS>::make(g), <char>::make(g)),
        _ => E::Even(<ZTok>::make(g), <i32>::make(g), <TokS>::make(g), <i64>::make(g), <TokS>::make(g), <By<5>>::make(g), <i128>::make(g), <By<17>>::make(g), <By<3>>::make(g), <i128>::make(g), <By<1>>::make(g), <ZTok>::make(g), <i64>::make(g), <TokS>::make(g), <i64>::make(g), <ZTok>::make(g), <By<1>>::make(g), <i128>::make(g), <By<3>>::make(g), <By<17>>::make(g), <i128>::make(g), <By<5>>::make(g)),
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::Nothing => { o.variant = 0;  }
        E::Void() => { o.variant = 1;  }
        E::Odd(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20) => { o.variant = 2; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); a10.look(o); a11.look(o); a12.look(o); a13.look(o); a14.look(o); a15.look(o); a16.look(o); a17.look(o); a18.look(o); a19.look(o); a20.look(o); }
        E::Even(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21) => { o.variant = 3; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); a10.look(o); a11.look(o); a12.look(o); a13.look(o); a14.look(o); a15.look(o); a16.look(o); a17.look(o); a18.look(o); a19.look(o); a20.look(o); a21.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[]),
        1 => shape(&[]),
        2 => shape(&[sa!(i128), sa!(u64), sa!(i64), sa!(A64), sa!(A16), sa!(isize), sa!(char), sa!(TokS), sa!(ZTok), sa!(char), sa!(u16), sa!(i128), sa!(A64), sa!(i32), sa!(A64), sa!(i128), sa!(u16), sa!(char), sa!(ZTok), sa!(TokS), sa!(char)]),
        _ => shape(&[sa!(ZTok), sa!(i32), sa!(TokS), sa!(i64), sa!(TokS), sa!(By<5>), sa!(i128), sa!(By<17>), sa!(By<3>), sa!(i128), sa!(By<1>), sa!(ZTok), sa!(i64), sa!(TokS), sa!(i64), sa!(ZTok), sa!(By<1>), sa!(i128), sa!(By<3>), sa!(By<17>), sa!(i128), sa!(By<5>)]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::Void() => call(move || C::from(())),
        E::Odd(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20))),
        E::Even(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21))),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, ord, dbg);
}
#[cfg(feature = "full")]
pub mod ar11 {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        Void(),
        Odd(u8, A16, ZTok, i128, u128, A64, By<5>, By<33>, usize, By<5>, u64, u8, i128, TokS, i128, u8, u64, By<5>, usize, By<33>, By<5>, A64, u128),
        Even(By<1>, (), A16, A32, Tok, By<17>, u16, Tok, u128, u16, By<9>, By<1>, A32, i16, A32, By<1>, By<9>, u16, u128, Tok, u16, By<17>, Tok, A32),
        Nothing,
    }
}
impl Enu for E {
    const NAME: &'static str = "ar11";
    const NVAR: usize = 4;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::Void(),
        1 => E::Odd(<u8>::make(g), <A16>::make(g), <ZTok>::make(g), <i128>::make(g), <u128>::make(g), <A64>::make(g), <By<5>>::make(g), <By<33>>::make(g), <usize>::make(g), <By<5>>::make(g), <u64>::make(g), <u8>::make(g), <i128>::make(g), <TokS>::make(g), <i128>::make(g), <u8>::make(g), <u64>::make(g), <By<5>>::make(g), <usize>::make(g), <By<33>>::make(g), <By<5>>::make(g), <A64>::make(g), <u128>::make(g)),
        2 => E::Even(<By<1>>::make(g), <()>::make(g), <A16>::make(g), <A32>::make(g), <Tok>::make(g), <By<17>>::make(g), <u16>::make(g), <Tok>::make(g), <u128>::make(g), <u16>::make(g), <By<9>>::make(g), <By<1>>::make(g), <A32>::make(g), <i16>::make(g), <A32>::make(g), <By<1>>::make(g), <By<9>>::make(g), <u16>::make(g), <u128>::make(g), <Tok>::make(g), <u16>::make(g), <By<17>>::make(g), <Tok>::make(g), <A32>::make(g)),
        _ => E::Nothing,
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::Void() => { o.variant = 0;  }
        E::Odd(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22) => { o.variant = 1; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); a10.look(o); a11.look(o); a12.look(o); a13.look(o); a14.look(o); a15.look(o); a16.look(o); a17.look(o); a18.look(o); a19.look(o); a20.look(o); a21.look(o); a22.look(o); }
        E::Even(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23) => { o.variant = 2; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); a10.look(o); a11.look(o); a12.look(o); a13.look(o); a14.look(o); a15.look(o); a16.look(o); a17.look(o); a18.look(o); a19.look(o); a20.look(o); a21.look(o); a22.look(o); a23.look(o); }
        E::Nothing => { o.variant = 3;  }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[]),
        1 => shape(&[sa!(u8), sa!(A16), sa!(ZTok), sa!(i128), sa!(u128), sa!(A64), sa!(By<5>), sa!(By<33>), sa!(usize), sa!(By<5>), sa!(u64), sa!(u8), sa!(i128), sa!(TokS), sa!(i128), sa!(u8), sa!(u64), sa!(By<5>), sa!(usize), sa!(By<33>), sa!(By<5>), sa!(A64), sa!(u128)]),
        2 => shape(&[sa!(By<1>), sa!(()), sa!(A16), sa!(A32), sa!(Tok), sa!(By<17>), sa!(u16), sa!(Tok), sa!(u128), sa!(u16), sa!(By<9>), sa!(By<1>), sa!(A32), sa!(i16), sa!(A32), sa!(By<1>), sa!(By<9>), sa!(u16), sa!(u128), sa!(Tok), sa!(u16), sa!(By<17>), sa!(Tok), sa!(A32)]),
        _ => shape(&[]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::Void() => call(move || C::from(())),
        E::Odd(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22))),
        E::Even(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23))),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, ord, dbg);
}
#[cfg(feature = "full")]
pub mod ar12 {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        Odd(TokS, u128, usize, u8, TokS, i128, i64, u16, isize, i64, A16, TokS, u8, By<33>, u8, TokS, A16, i64, isize, u16, i64, i128, TokS, u8, usize),
        Even(By<9>, TokS, i8, By<7>, By<3>, Tok, bool, A64, Str, bool, u8, By<9>, By<7>, isize, By<7>, By<9>, u8, bool, Str, A64, bool, Tok, By<3>, By<7>, i8, TokS),
        Nothing,
        Void(),
    }
}
impl Enu for E {
    const NAME: &'static str = "ar12";
    const NVAR: usize = 4;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::Odd(<TokS>::make(g), <u128>::make(g), <usize>::make(g), <u8>::make(g), <TokS>::make(g), <i128>::make(g), <i64>::make(g), <u16>::make(g), <isize>::make(g), <i64>::make(g), <A16>::make(g), <TokS>::make(g), <u8>::make(g), <By<33>>::make(g), <u8>::make(g), <TokS>::make(g), <A16>::make(g), <i64>::make(g), <isize>::make(g), <u16>::make(g), <i64>::make(g), <i128>::make(g), <TokS>::make(g), <u8>::make(g), <usize>::make(g)),
        1 => E::Even(<By<9>>::make(g), <TokS>::make(g), <i8>::make(g), <By<7>>::make(g), <By<3>>::make(g), <Tok>::make(g), <bool>::make(g), <A64>::make(g), <Str>::make(g), <bool>::make(g), <u8>::make(g), <By<9>>::make(g), <By<7>>::make(g), <isize>::make(g), <By<7>>::make(g), <By<9>>::make(g), <u8>::make(g), <bool>::make(g), <Str>::make(g), <A64>::make(g), <bool>::make(g), <Tok>::make(g), <By<3>>::make(g), <By<7>>::make(g), <i8>::make(g), <TokS>::make(g)),
        2 => E::Nothing,
        _ => E::Void(),
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::Odd(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24) => { o.variant = 0; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); a10.look(o); a11.look(o); a12.look(o); a13.look(o); a14.look(o); a15.look(o); a16.look(o); a17.look(o); a18.look(o); a19.look(o); a20.look(o); a21.look(o); a22.look(o); a23.look(o); a24.look(o); }
        E::Even(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25) => { o.variant = 1; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); a10.look(o); a11.look(o); a12.look(o); a13.look(o); a14.look(o); a15.look(o); a16.look(o); a17.look(o); a18.look(o); a19.look(o); a20.look(o); a21.look(o); a22.look(o); a23.look(o); a24.look(o); a25.look(o); }
        E::Nothing => { o.variant = 2;  }
        E::Void() => { o.variant = 3;  }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(TokS), sa!(u128), sa!(usize), sa!(u8), sa!(TokS), sa!(i128), sa!(i64), sa!(u16), sa!(isize), sa!(i64), sa!(A16), sa!(TokS), sa!(u8), sa!(By<33>), sa!(u8), sa!(TokS), sa!(A16), sa!(i64), sa!(isize), sa!(u16), sa!(i64), sa!(i128), sa!(TokS), sa!(u8), sa!(usize)]),
        1 => shape(&[sa!(By<9>), sa!(TokS), sa!(i8), sa!(By<7>), sa!(By<3>), sa!(Tok), sa!(bool), sa!(A64), sa!(Str), sa!(bool), sa!(u8), sa!(By<9>), sa!(By<7>), sa!(isize), sa!(By<7>), sa!(By<9>), sa!(u8), sa!(bool), sa!(Str), sa!(A64), sa!(bool), sa!(Tok), sa!(By<3>), sa!(By<7>), sa!(i8), sa!(TokS)]),
        2 => shape(&[]),
        _ => shape(&[]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::Odd(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24))),
        E::Even(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25))),
        E::Void() => call(move || C::from(())),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        _ => None,
    } }
}
caps!(C, E; DERIVED | STD_ALLOC; clone, ord, dbg);
}
#[cfg(feature = "full")]
pub mod ar13 {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        Even(u8, A16, ZTok, i128, u128, A64, By<5>, By<33>, usize, By<5>, u64, u8, i128, TokS, i128, u8, u64, By<5>, usize, By<33>, By<5>, A64, u128, i128, ZTok, A16, u8, A64),
        Nothing,
        Void(),
        Odd(By<3>, TokS, isize, TokS, By<17>, u8, ZTok, u64, A64, ZTok, u128, By<3>, TokS, u16, TokS, By<3>, u128, ZTok, A64, u64, ZTok, u8, By<17>, TokS, isize, TokS, By<3>),
    }
}
impl Enu for E {
    const NAME: &'static str = "ar13";
    const NVAR: usize = 4;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::Even(<u8>::make(g), <A16>::make(g), <ZTok>::make(g), <i128>::make(g), <u128>::make(g), <A64>::make(g), <By<5>>::make(g), <By<33>>::make(g), <usize>::make(g), <By<5>>::make(g), <u64>::make(g), <u8>::make(g), <i128>::make(g), <TokS>::make(g), <i128>::make(g), <u8>::make(g), <u64>::make(g), <By<5>>::make(g), <usize>::make(g), <By<33>>::make(g), <By<5>>::make(g), <A64>::make(g), <u128>::make(g), <i128>::make(g), <ZTok>::make(g), <A16>::make(g), <u8>::make(g), <A64>::make(g)),
        1 => E::Nothing,
        2 => E::Void(),
        _ => E::Odd(<By<3>>::make(g), <TokS>::make(g), <isize>::make(g), <TokS>::make(g), <By<17>>::make(g), <u8>::make(g), <ZTok>::make(g), <u64>::make(g), <A64>::make(g), <ZTok>::make(g), <u128>::make(g), <By<3>>::make(g), <TokS>::make(g), <u16>::make(g), <TokS>::make(g), <By<3>>::make(g), <u128>::make(g), <ZTok>::make(g), <A64>::make(g), <u64>::make(g), <ZTok>::make(g), <u8>::make(g), <By<17>>::make(g), <TokS>::make(g), <isize>::make(g), <TokS>::make(g), <By<3>>::make(g)),
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::Even(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27) => { o.variant = 0; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); a10.look(o); a11.look(o); a12.look(o); a13.look(o); a14.look(o); a15.look(o); a16.look(o); a17.look(o); a18.look(o); a19.look(o); a20.look(o); a21.look(o); a22.look(o); a23.look(o); a24.look(o); a25.look(o); a26.look(o); a27.look(o); }
        E::Nothing => { o.variant = 1;  }
        E::Void() => { o.variant = 2;  }
        E::Odd(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26) => { o.variant = 3; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); a10.look(o); a11.look(o); a12.look(o); a13.look(o); a14.look(o); a15.look(o); a16.look(o); a17.look(o); a18.look(o); a19.look(o); a20.look(o); a21.look(o); a22.look(o); a23.look(o); a24.look(o); a25.look(o); a26.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(u8), sa!(A16), sa!(ZTok), sa!(i128), sa!(u128), sa!(A64), sa!(By<5>), sa!(By<33>), sa!(usize), sa!(By<5>), sa!(u64), sa!(u8), sa!(i128), sa!(TokS), sa!(i128), sa!(u8), sa!(u64), sa!(By<5>), sa!(usize), sa!(By<33>), sa!(By<5>), sa!(A64), sa!(u128), sa!(i128), sa!(ZTok), sa!(A16), sa!(u8), sa!(A64)]),
        1 => shape(&[]),
        2 => shape(&[]),
        _ => shape(&[sa!(By<3>), sa!(TokS), sa!(isize), sa!(TokS), sa!(By<17>), sa!(u8), sa!(ZTok), sa!(u64), sa!(A64), sa!(ZTok), sa!(u128), sa!(By<3>), sa!(TokS), sa!(u16), sa!(TokS), sa!(By<3>), sa!(u128), sa!(ZTok), sa!(A64), sa!(u64), sa!(ZTok), sa!(u8), sa!(By<17>), sa!(TokS), sa!(isize), sa!(TokS), sa!(By<3>)]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::Even(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27))),
        E::Void() => call(move || C::from(())),
        E::Odd(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26))),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, ord, dbg);
}
#[cfg(feature = "full")]
pub mod ar14 {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        Nothing,
        Void(),
        Odd(char, By<17>, A64, By<3>, A32, TokS, usize, A16, i128, usize, TokS, char, By<3>, u64, By<3>, char, TokS, usize, i128, A16, usize, TokS, A32, By<3>, A64, By<17>, char, TokS, By<33>),
        Even(u64, i8, By<1>, u16, Str, By<33>, By<17>, u32, i32, By<17>, Tok, u64, u16, Tok, u16, u64, Tok, By<17>, i32, u32, By<17>, By<33>, Str, u16, By<1>, i8, u64, By<33>, By<9>, i32),
    }
}
impl Enu for E {
    const NAME: &'static str = "ar14";
    const NVAR: usize = 4;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::Nothing,
        1 => E::Void(),
        2 => E::Odd(<char>::make(g), <By<17>>::make(g), <A64>::make(g), <By<3>>::make(g), <A32>::make(g), <TokS>::make(g), <usize>::make(g), <A16>::make(g), <i128>::make(g), <usize>::make(g), <TokS>::make(g), <char>::make(g), <By<3>>::make(g), <u64>::make(g), <By<3>>::make(g), <char>::make(g), <TokS>::make(g), <usize>::make(g), <i128>::make(g), <A16>::make(g), <usize>::make(g), <TokS>::make(g), <A32>::make(g), <By<3>>::make(g), <A64>::make(g), <By<17>>::make(g), <char>::make(g), <TokS>::make(g), <By<33>>::make(g)),
        _ => E::Even(<u64>::make(g), <i8>::make(g), <By<1>>::make(g), <u16>::make(g), <Str>::make(g), <By<33>>::make(g), <By<17>>::make(g), <u32>::make(g), <i32>::make(g), <By<17>>::make(g), <Tok>::make(g), <u64>::make(g), <u16>::make(g), <Tok>::make(g), <u16>::make(g), <u64>::make(g), <Tok>::make(g), <By<17>>::make(g), <i32>::make(g), <u32>::make(g), <By<17>>::make(g), <By<33>>::make(g), <Str>::make(g), <u16>::make(g), <By<1>>::make(g), <i8>::make(g), <u64>::make(g), <By<33>>::make(g), <By<9>>::make(g), <i32>::make(g)),
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::Nothing => { o.variant = 0;  }
        E::Void() => { o.variant = 1;  }
        E::Odd(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28) => { o.variant = 2; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); a10.look(o); a11.look(o); a12.look(o); a13.look(o); a14.look(o); a15.look(o); a16.look(o); a17.look(o); a18.look(o); a19.look(o); a20.look(o); a21.look(o); a22.look(o); a23.look(o); a24.look(o); a25.look(o); a26.look(o); a27.look(o); a28.look(o); }
        E::Even(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29) => { o.variant = 3; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); a10.look(o); a11.look(o); a12.look(o); a13.look(o); a14.look(o); a15.look(o); a16.look(o); a17.look(o); a18.look(o); a19.look(o); a20.look(o); a21.look(o); a22.look(o); a23.look(o); a24.look(o); a25.look(o); a26.look(o); a27.look(o); a28.look(o); a29.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[]),
        1 => shape(&[]),
        2 => shape(&[sa!(char), sa!(By<17>), sa!(A64), sa!(By<3>), sa!(A32), sa!(TokS), sa!(usize), sa!(A16), sa!(i128), sa!(usize), sa!(TokS), sa!(char), sa!(By<3>), sa!(u64), sa!(By<3>), sa!(char), sa!(TokS), sa!(usize), sa!(i128), sa!(A16), sa!(usize), sa!(TokS), sa!(A32), sa!(By<3>), sa!(A64), sa!(By<17>), sa!(char), sa!(TokS), sa!(By<33>)]),
        _ => shape(&[sa!(u64), sa!(i8), sa!(By<1>), sa!(u16), sa!(Str), sa!(By<33>), sa!(By<17>), sa!(u32), sa!(i32), sa!(By<17>), sa!(Tok), sa!(u64), sa!(u16), sa!(Tok), sa!(u16), sa!(u64), sa!(Tok), sa!(By<17>), sa!(i32), sa!(u32), sa!(By<17>), sa!(By<33>), sa!(Str), sa!(u16), sa!(By<1>), sa!(i8), sa!(u64), sa!(By<33>), sa!(By<9>), sa!(i32)]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::Void() => call(move || C::from(())),
        E::Odd(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28))),
        E::Even(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29))),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        _ => None,
    } }
}
caps!(C, E; DERIVED | STD_ALLOC; clone, ord, dbg);
}
pub mod ar15 {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        Void(),
        Odd(By<5>, A32, i128, char, By<1>, By<3>, isize, u128, u8, isize, By<17>, By<5>, char, A16, Tok, By<5>, By<17>, isize, u8, u128, isize, By<3>, By<1>, char, i128, A32, By<5>, By<3>, u16, u8, u8),
        Even(Tok, ZTok, By<9>, bool, usize, u32, Tok, char, (), Tok, i64, Tok, bool, By<3>, bool, Tok, i64, Tok, (), char, Tok, u32, usize, bool, By<9>, ZTok, Tok, u32, u8, (), (), u8),
        Nothing,
    }
}
impl Enu for E {
    const NAME: &'static str = "ar15";
    const NVAR: usize = 4;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::Void(),
        1 => E::Odd(<By<5>>::make(g), <A32>::make(g), <i128>::make(g), <char>::make(g), <By<1>>::make(g), <By<3>>::make(g), <isize>::make(g), <u128>::make(g), <u8>::make(g), <isize>::make(g), <By<17>>::make(g), <By<5>>::make(g), <char>::make(g), <A16>::make(g), <Tok>::make(g), <By<5>>::make(g), <By<17>>::make(g), <isize>::make(g), <u8>::make(g), <u128>::make(g), <isize>::make(g), <By<3>>::make(g), <By<1>>::make(g), <char>::make(g), <i128>::make(g), <A32>::make(g), <By<5>>::make(g), <By<3>>::make(g), <u16>::make(g), <u8>::make(g), <u8>::make(g)),
        2 => E::Even(<Tok>::make(g), <ZTok>::make(g), <By<9>>::make(g), <bool>::make(g), <usize>::make(g), <u32>::make(g), <Tok>::make(g), <char>::make(g), <()>::make(g), <Tok>::make(g), <i64>::make(g), <Tok>::make(g), <bool>::make(g), <By<3>>::make(g), <bool>::make(g), <Tok>::make(g), <i64>::make(g), <Tok>::make(g), <()>::make(g), <char>::make(g), <Tok>::make(g), <u32>::make(g), <usize>::make(g), <bool>::make(g), <By<9>>::make(g), <ZTok>::make(g), <Tok>::make(g), <u32>::make(g), <u8>::make(g), <()>::make(g), <()>::make(g), <u8>::make(g)),
        _ => E::Nothing,
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::Void() => { o.variant = 0;  }
        E::Odd(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30) => { o.variant = 1; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); a10.look(o); a11.look(o); a12.look(o); a13.look(o); a14.look(o); a15.look(o); a16.look(o); a17.look(o); a18.look(o); a19.look(o); a20.look(o); a21.look(o); a22.look(o); a23.look(o); a24.look(o); a25.look(o); a26.look(o); a27.look(o); a28.look(o); a29.look(o); a30.look(o); }
        E::Even(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31) => { o.variant = 2; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); a10.look(o); a11.look(o); a12.look(o); a13.look(o); a14.look(o); a15.look(o); a16.look(o); a17.look(o); a18.look(o); a19.look(o); a20.look(o); a21.look(o); a22.look(o); a23.look(o); a24.look(o); a25.look(o); a26.look(o); a27.look(o); a28.look(o); a29.look(o); a30.look(o); a31.look(o); }
        E::Nothing => { o.variant = 3;  }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[]),
        1 => shape(&[sa!(By<5>), sa!(A32), sa!(i128), sa!(char), sa!(By<1>), sa!(By<3>), sa!(isize), sa!(u128), sa!(u8), sa!(isize), sa!(By<17>), sa!(By<5>), sa!(char), sa!(A16), sa!(Tok), sa!(By<5>), sa!(By<17>), sa!(isize), sa!(u8), sa!(u128), sa!(isize), sa!(By<3>), sa!(By<1>), sa!(char), sa!(i128), sa!(A32), sa!(By<5>), sa!(By<3>), sa!(u16), sa!(u8), sa!(u8)]),
        2 => shape(&[sa!(Tok), sa!(ZTok), sa!(By<9>), sa!(bool), sa!(usize), sa!(u32), sa!(Tok), sa!(char), sa!(()), sa!(Tok), sa!(i64), sa!(Tok), sa!(bool), sa!(By<3>), sa!(bool), sa!(Tok), sa!(i64), sa!(Tok), sa!(()), sa!(char), sa!(Tok), sa!(u32), sa!(usize), sa!(bool), sa!(By<9>), sa!(ZTok), sa!(Tok), sa!(u32), sa!(u8), sa!(()), sa!(()), sa!(u8)]),
        _ => shape(&[]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::Void() => call(move || C::from(())),
        E::Odd(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30))),
        E::Even(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31))),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, ord, dbg);
}
#[cfg(feature = "full")]
pub mod same0 {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        V1(Tok),
        V2(Tok, Tok),
        V3(Tok, Tok, Tok),
        V4(Tok, Tok, Tok, Tok),
        V5(Tok, Tok, Tok, Tok, Tok),
        V6(Tok, Tok, Tok, Tok, Tok, Tok),
        V7(Tok, Tok, Tok, Tok, Tok, Tok, Tok),
        V8(Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok),
        V9(Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok),
        V10(Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok),
        V11(Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok),
    }
}
impl Enu for E {
    const NAME: &'static str = "same0";
    const NVAR: usize = 11;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::V1(<Tok>::make(g)),
        1 => E::V2(<Tok>::make(g), <Tok>::make(g)),
        2 => E::V3(<Tok>::make(g), <Tok>::make(g), <Tok>::make(g)),
        3 => E::V4(<Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g)),
        4 => E::V5(<Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g)),
        5 => E::V6(<Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g)),
        6 => E::V7(<Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g)),
        7 => E::V8(<Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g)),
        8 => E::V9(<Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g)),
        9 => E::V10(<Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g)),
        _ => E::V11(<Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g)),
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::V1(a0) => { o.variant = 0; a0.look(o); }
        E::V2(a0, a1) => { o.variant = 1; a0.look(o); a1.look(o); }
        E::V3(a0, a1, a2) => { o.variant = 2; a0.look(o); a1.look(o); a2.look(o); }
        E::V4(a0, a1, a2, a3) => { o.variant = 3; a0.look(o); a1.look(o); a2.look(o); a3.look(o); }
        E::V5(a0, a1, a2, a3, a4) => { o.variant = 4; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); }
        E::V6(a0, a1, a2, a3, a4, a5) => { o.variant = 5; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); }
        E::V7(a0, a1, a2, a3, a4, a5, a6) => { o.variant = 6; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); }
        E::V8(a0, a1, a2, a3, a4, a5, a6, a7) => { o.variant = 7; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); }
        E::V9(a0, a1, a2, a3, a4, a5, a6, a7, a8) => { o.variant = 8; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); }
        E::V10(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9) => { o.variant = 9; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); }
        E::V11(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10) => { o.variant = 10; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); a10.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(Tok)]),
        1 => shape(&[sa!(Tok), sa!(Tok)]),
        2 => shape(&[sa!(Tok), sa!(Tok), sa!(Tok)]),
        3 => shape(&[sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok)]),
        4 => shape(&[sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok)]),
        5 => shape(&[sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok)]),
        6 => shape(&[sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok)]),
        7 => shape(&[sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok)]),
        8 => shape(&[sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok)]),
        9 => shape(&[sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok)]),
        _ => shape(&[sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok)]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::V1(a0) => call(move || C::from(a0)),
        E::V2(a0, a1) => call(move || C::from((a0, a1))),
        E::V3(a0, a1, a2) => call(move || C::from((a0, a1, a2))),
        E::V4(a0, a1, a2, a3) => call(move || C::from((a0, a1, a2, a3))),
        E::V5(a0, a1, a2, a3, a4) => call(move || C::from((a0, a1, a2, a3, a4))),
        E::V6(a0, a1, a2, a3, a4, a5) => call(move || C::from((a0, a1, a2, a3, a4, a5))),
        E::V7(a0, a1, a2, a3, a4, a5, a6) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6))),
        E::V8(a0, a1, a2, a3, a4, a5, a6, a7) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7))),
        E::V9(a0, a1, a2, a3, a4, a5, a6, a7, a8) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8))),
        E::V10(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9))),
        E::V11(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10))),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        0 => Some(poke_as::<E, Tok>(tb, g, how)),
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, ord, dbg);
}
#[cfg(feature = "full")]
pub mod same1 {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        V12(Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok),
        V13(Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok),
        V14(Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok),
        V15(Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok),
        V16(Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok),
        V17(Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok),
        V18(Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok),
        V19(Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok),
        V20(Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok),
        V21(Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok),
        V22(Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok),
    }
}
impl Enu for E {
    const NAME: &'static str = "same1";
    const NVAR: usize = 11;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::V12(<Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g)),
        1 => E::V13(<Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g)),
        2 => E::V14(<Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g)),
        3 => E::V15(<Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g)),
        4 => E::V16(<Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g)),
        5 => E::V17(<Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g)),
        6 => E::V18(<Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g)),
        7 => E::V19(<Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g)),
        8 => E::V20(<Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g)),
        9 => E::V21(<Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g)),
        _ => E::V22(<Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g)),
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::V12(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11) => { o.variant = 0; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); a10.look(o); a11.look(o); }
        E::V13(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12) => { o.variant = 1; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); a10.look(o); a11.look(o); a12.look(o); }
        E::V14(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13) => { o.variant = 2; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); a10.look(o); a11.look(o); a12.look(o); a13.look(o); }
        E::V15(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14) => { o.variant = 3; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); a10.look(o); a11.look(o); a12.look(o); a13.look(o); a14.look(o); }
        E::V16(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15) => { o.variant = 4; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); a10.look(o); a11.look(o); a12.look(o); a13.look(o); a14.look(o); a15.look(o); }
        E::V17(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16) => { o.variant = 5; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); a10.look(o); a11.look(o); a12.look(o); a13.look(o); a14.look(o); a15.look(o); a16.look(o); }
        E::V18(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17) => { o.variant = 6; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); a10.look(o); a11.look(o); a12.look(o); a13.look(o); a14.look(o); a15.look(o); a16.look(o); a17.look(o); }
        E::V19(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18) => { o.variant = 7; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); a10.look(o); a11.look(o); a12.look(o); a13.look(o); a14.look(o); a15.look(o); a16.look(o); a17.look(o); a18.look(o); }
        E::V20(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19) => { o.variant = 8; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); a10.look(o); a11.look(o); a12.look(o); a13.look(o); a14.look(o); a15.look(o); a16.look(o); a17.look(o); a18.look(o); a19.look(o); }
        E::V21(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20) => { o.variant = 9; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); a10.look(o); a11.look(o); a12.look(o); a13.look(o); a14.look(o); a15.look(o); a16.look(o); a17.look(o); a18.look(o); a19.look(o); a20.look(o); }
        E::V22(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21) => { o.variant = 10; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); a10.look(o); a11.look(o); a12.look(o); a13.look(o); a14.look(o); a15.look(o); a16.look(o); a17.look(o); a18.look(o); a19.look(o); a20.look(o); a21.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok)]),
        1 => shape(&[sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok)]),
        2 => shape(&[sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok)]),
        3 => shape(&[sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok)]),
        4 => shape(&[sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok)]),
        5 => shape(&[sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok)]),
        6 => shape(&[sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok)]),
        7 => shape(&[sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok)]),
        8 => shape(&[sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok)]),
        9 => shape(&[sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok)]),
        _ => shape(&[sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok)]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::V12(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11))),
        E::V13(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12))),
        E::V14(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13))),
        E::V15(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14))),
        E::V16(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15))),
        E::V17(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16))),
        E::V18(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17))),
        E::V19(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18))),
        E::V20(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19))),
        E::V21(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20))),
        E::V22(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21))),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, ord, dbg);
}
#[cfg(feature = "full")]
pub mod same2 {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        V23(Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok),
        V24(Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok),
        V25(Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok),
        V26(Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok),
        V27(Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok),
        V28(Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok),
        V29(Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok),
        V30(Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok),
        V31(Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok),
        V32(Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok),
    }
}
impl Enu for E {
    const NAME: &'static str = "same2";
    const NVAR: usize = 10;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::V23(<Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g)),
        1 => E::V24(<Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g)),
        2 => E::V25(<Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g)),
        3 => E::V26(<Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g)),
        4 => E::V27(<Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g)),
        5 => E::V28(<Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g)),
        6 => E::V29(<Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g)),
        7 => E::V30(<Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g)),
        8 => E::V31(<Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g)),
        _ => E::V32(<Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g), <Tok>::make(g)),
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::V23(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22) => { o.variant = 0; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); a10.look(o); a11.look(o); a12.look(o); a13.look(o); a14.look(o); a15.look(o); a16.look(o); a17.look(o); a18.look(o); a19.look(o); a20.look(o); a21.look(o); a22.look(o); }
        E::V24(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23) => { o.variant = 1; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); a10.look(o); a11.look(o); a12.look(o); a13.look(o); a14.look(o); a15.look(o); a16.look(o); a17.look(o); a18.look(o); a19.look(o); a20.look(o); a21.look(o); a22.look(o); a23.look(o); }
        E::V25(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24) => { o.variant = 2; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); a10.look(o); a11.look(o); a12.look(o); a13.look(o); a14.look(o); a15.look(o); a16.look(o); a17.look(o); a18.look(o); a19.look(o); a20.look(o); a21.look(o); a22.look(o); a23.look(o); a24.look(o); }
        E::V26(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25) => { o.variant = 3; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); a10.look(o); a11.look(o); a12.look(o); a13.look(o); a14.look(o); a15.look(o); a16.look(o); a17.look(o); a18.look(o); a19.look(o); a20.look(o); a21.look(o); a22.look(o); a23.look(o); a24.look(o); a25.look(o); }
        E::V27(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26) => { o.variant = 4; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); a10.look(o); a11.look(o); a12.look(o); a13.look(o); a14.look(o); a15.look(o); a16.look(o); a17.look(o); a18.look(o); a19.look(o); a20.look(o); a21.look(o); a22.look(o); a23.look(o); a24.look(o); a25.look(o); a26.look(o); }
        E::V28(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27) => { o.variant = 5; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); a10.look(o); a11.look(o); a12.look(o); a13.look(o); a14.look(o); a15.look(o); a16.look(o); a17.look(o); a18.look(o); a19.look(o); a20.look(o); a21.look(o); a22.look(o); a23.look(o); a24.look(o); a25.look(o); a26.look(o); a27.look(o); }
        E::V29(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28) => { o.variant = 6; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); a10.look(o); a11.look(o); a12.look(o); a13.look(o); a14.look(o); a15.look(o); a16.look(o); a17.look(o); a18.look(o); a19.look(o); a20.look(o); a21.look(o); a22.look(o); a23.look(o); a24.look(o); a25.look(o); a26.look(o); a27.look(o); a28.look(o); }
        E::V30(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29) => { o.variant = 7; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); a10.look(o); a11.look(o); a12.look(o); a13.look(o); a14.look(o); a15.look(o); a16.look(o); a17.look(o); a18.look(o); a19.look(o); a20.look(o); a21.look(o); a22.look(o); a23.look(o); a24.look(o); a25.look(o); a26.look(o); a27.look(o); a28.look(o); a29.look(o); }
        E::V31(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30) => { o.variant = 8; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); a10.look(o); a11.look(o); a12.look(o); a13.look(o); a14.look(o); a15.look(o); a16.look(o); a17.look(o); a18.look(o); a19.look(o); a20.look(o); a21.look(o); a22.look(o); a23.look(o); a24.look(o); a25.look(o); a26.look(o); a27.look(o); a28.look(o); a29.look(o); a30.look(o); }
        E::V32(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31) => { o.variant = 9; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); a6.look(o); a7.look(o); a8.look(o); a9.look(o); a10.look(o); a11.look(o); a12.look(o); a13.look(o); a14.look(o); a15.look(o); a16.look(o); a17.look(o); a18.look(o); a19.look(o); a20.look(o); a21.look(o); a22.look(o); a23.look(o); a24.look(o); a25.look(o); a26.look(o); a27.look(o); a28.look(o); a29.look(o); a30.look(o); a31.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok)]),
        1 => shape(&[sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok)]),
        2 => shape(&[sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok)]),
        3 => shape(&[sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok)]),
        4 => shape(&[sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok)]),
        5 => shape(&[sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok)]),
        6 => shape(&[sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok)]),
        7 => shape(&[sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok)]),
        8 => shape(&[sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok)]),
        _ => shape(&[sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok)]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::V23(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22))),
        E::V24(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23))),
        E::V25(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24))),
        E::V26(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25))),
        E::V27(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26))),
        E::V28(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27))),
        E::V29(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28))),
        E::V30(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29))),
        E::V31(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30))),
        E::V32(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31) => call(move || C::from((a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31))),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, ord, dbg);
}
#[cfg(feature = "full")]
pub mod sames {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        V1 { f0: TokS },
        V2 { f0: TokS, f1: TokS, },
        V3 { f0: Tok, f1: Tok, f2: Tok },
        V4 { f0: TokS, f1: TokS, f2: TokS, f3: TokS, },
        V5 { f0: TokS, f1: TokS, f2: TokS, f3: TokS, f4: TokS },
        V6 { f0: Tok, f1: Tok, f2: Tok, f3: Tok, f4: Tok, f5: Tok, },
        V7 { f0: TokS, f1: TokS, f2: TokS, f3: TokS, f4: TokS, f5: TokS, f6: TokS },
        V8 { f0: TokS, f1: TokS, f2: TokS, f3: TokS, f4: TokS, f5: TokS, f6: TokS, f7: TokS, },
        V12 { f0: Tok, f1: Tok, f2: Tok, f3: Tok, f4: Tok, f5: Tok, f6: Tok, f7: Tok, f8: Tok, f9: Tok, f10: Tok, f11: Tok, },
        V20 { f0: TokS, f1: TokS, f2: TokS, f3: TokS, f4: TokS, f5: TokS, f6: TokS, f7: TokS, f8: TokS, f9: TokS, f10: TokS, f11: TokS, f12: TokS, f13: TokS, f14: TokS, f15: TokS, f16: TokS, f17: TokS, f18: TokS, f19: TokS, },
        V32 { f0: TokS, f1: TokS, f2: TokS, f3: TokS, f4: TokS, f5: TokS, f6: TokS, f7: TokS, f8: TokS, f9: TokS, f10: TokS, f11: TokS, f12: TokS, f13: TokS, f14: TokS, f15: TokS, f16: TokS, f17: TokS, f18: TokS, f19: TokS, f20: TokS, f21: TokS, f22: TokS, f23: TokS, f24: TokS, f25: TokS, f26: TokS, f27: TokS, f28: TokS, f29: TokS, f30: TokS, f31: TokS, },
        V33 { f0: Tok, f1: Tok, f2: Tok, f3: Tok, f4: Tok, f5: Tok, f6: Tok, f7: Tok, f8: Tok, f9: Tok, f10: Tok, f11: Tok, f12: Tok, f13: Tok, f14: Tok, f15: Tok, f16: Tok, f17: Tok, f18: Tok, f19: Tok, f20: Tok, f21: Tok, f22: Tok, f23: Tok, f24: Tok, f25: Tok, f26: Tok, f27: Tok, f28: Tok, f29: Tok, f30: Tok, f31: Tok, f32: Tok },
        V48 { f0: Tok, f1: Tok, f2: Tok, f3: Tok, f4: Tok, f5: Tok, f6: Tok, f7: Tok, f8: Tok, f9: Tok, f10: Tok, f11: Tok, f12: Tok, f13: Tok, f14: Tok, f15: Tok, f16: Tok, f17: Tok, f18: Tok, f19: Tok, f20: Tok, f21: Tok, f22: Tok, f23: Tok, f24: Tok, f25: Tok, f26: Tok, f27: Tok, f28: Tok, f29: Tok, f30: Tok, f31: Tok, f32: Tok, f33: Tok, f34: Tok, f35: Tok, f36: Tok, f37: Tok, f38: Tok, f39: Tok, f40: Tok, f41: Tok, f42: Tok, f43: Tok, f44: Tok, f45: Tok, f46: Tok, f47: Tok, },
    }
}
impl Enu for E {
    const NAME: &'static str = "sames";
    const NVAR: usize = 13;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::V1 { f0: <TokS>::make(g) },
        1 => E::V2 { f0: <TokS>::make(g), f1: <TokS>::make(g) },
        2 => E::V3 { f0: <Tok>::make(g), f1: <Tok>::make(g), f2: <Tok>::make(g) },
        3 => E::V4 { f0: <TokS>::make(g), f1: <TokS>::make(g), f2: <TokS>::make(g), f3: <TokS>::make(g) },
        4 => E::V5 { f0: <TokS>::make(g), f1: <TokS>::make(g), f2: <TokS>::make(g), f3: <TokS>::make(g), f4: <TokS>::make(g) },
        5 => E::V6 { f0: <Tok>::make(g), f1: <Tok>::make(g), f2: <Tok>::make(g), f3: <Tok>::make(g), f4: <Tok>::make(g), f5: <Tok>::make(g) },
        6 => E::V7 { f0: <TokS>::make(g), f1: <TokS>::make(g), f2: <TokS>::make(g), f3: <TokS>::make(g), f4: <TokS>::make(g), f5: <TokS>::make(g), f6: <TokS>::make(g) },
        7 => E::V8 { f0: <TokS>::make(g), f1: <TokS>::make(g), f2: <TokS>::make(g), f3: <TokS>::make(g), f4: <TokS>::make(g), f5: <TokS>::make(g), f6: <TokS>::make(g), f7: <TokS>::make(g) },
        8 => E::V12 { f0: <Tok>::make(g), f1: <Tok>::make(g), f2: <Tok>::make(g), f3: <Tok>::make(g), f4: <Tok>::make(g), f5: <Tok>::make(g), f6: <Tok>::make(g), f7: <Tok>::make(g), f8: <Tok>::make(g), f9: <Tok>::make(g), f10: <Tok>::make(g), f11: <Tok>::make(g) },
        9 => E::V20 { f0: <TokS>::make(g), f1: <TokS>::make(g), f2: <TokS>::make(g), f3: <TokS>::make(g), f4: <TokS>::make(g), f5: <TokS>::make(g), f6: <TokS>::make(g), f7: <TokS>::make(g), f8: <TokS>::make(g), f9: <TokS>::make(g), f10: <TokS>::make(g), f11: <TokS>::make(g), f12: <TokS>::make(g), f13: <TokS>::make(g), f14: <TokS>::make(g), f15: <TokS>::make(g), f16: <TokS>::make(g), f17: <TokS>::make(g), f18: <TokS>::make(g), f19: <TokS>::make(g) },
        10 => E::V32 { f0: <TokS>::make(g), f1: <TokS>::make(g), f2: <TokS>::make(g), f3: <TokS>::make(g), f4: <TokS>::make(g), f5: <TokS>::make(g), f6: <TokS>::make(g), f7: <TokS>::make(g), f8: <TokS>::make(g), f9: <TokS>::make(g), f10: <TokS>::make(g), f11: <TokS>::make(g), f12: <TokS>::make(g), f13: <TokS>::make(g), f14: <TokS>::make(g), f15: <TokS>::make(g), f16: <TokS>::make(g), f17: <TokS>::make(g), f18: <TokS>::make(g), f19: <TokS>::make(g), f20: <TokS>::make(g), f21: <TokS>::make(g), f22: <TokS>::make(g), f23: <TokS>::make(g), f24: <TokS>::make(g), f25: <TokS>::make(g), f26: <TokS>::make(g), f27: <TokS>::make(g), f28: <TokS>::make(g), f29: <TokS>::make(g), f30: <TokS>::make(g), f31: <TokS>::make(g) },
        11 => E::V33 { f0: <Tok>::make(g), f1: <Tok>::make(g), f2: <Tok>::make(g), f3: <Tok>::make(g), f4: <Tok>::make(g), f5: <Tok>::make(g), f6: <Tok>::make(g), f7: <Tok>::make(g), f8: <Tok>::make(g), f9: <Tok>::make(g), f10: <Tok>::make(g), f11: <Tok>::make(g), f12: <Tok>::make(g), f13: <Tok>::make(g), f14: <Tok>::make(g), f15: <Tok>::make(g), f16: <Tok>::make(g), f17: <Tok>::make(g), f18: <Tok>::make(g), f19: <Tok>::make(g), f20: <Tok>::make(g), f21: <Tok>::make(g), f22: <Tok>::make(g), f23: <Tok>::make(g), f24: <Tok>::make(g), f25: <Tok>::make(g), f26: <Tok>::make(g), f27: <Tok>::make(g), f28: <Tok>::make(g), f29: <Tok>::make(g), f30: <Tok>::make(g), f31: <Tok>::make(g), f32: <Tok>::make(g) },
        _ => E::V48 { f0: <Tok>::make(g), f1: <Tok>::make(g), f2: <Tok>::make(g), f3: <Tok>::make(g), f4: <Tok>::make(g), f5: <Tok>::make(g), f6: <Tok>::make(g), f7: <Tok>::make(g), f8: <Tok>::make(g), f9: <Tok>::make(g), f10: <Tok>::make(g), f11: <Tok>::make(g), f12: <Tok>::make(g), f13: <Tok>::make(g), f14: <Tok>::make(g), f15: <Tok>::make(g), f16: <Tok>::make(g), f17: <Tok>::make(g), f18: <Tok>::make(g), f19: <Tok>::make(g), f20: <Tok>::make(g), f21: <Tok>::make(g), f22: <Tok>::make(g), f23: <Tok>::make(g), f24: <Tok>::make(g), f25: <Tok>::make(g), f26: <Tok>::make(g), f27: <Tok>::make(g), f28: <Tok>::make(g), f29: <Tok>::make(g), f30: <Tok>::make(g), f31: <Tok>::make(g), f32: <Tok>::make(g), f33: <Tok>::make(g), f34: <Tok>::make(g), f35: <Tok>::make(g), f36: <Tok>::make(g), f37: <Tok>::make(g), f38: <Tok>::make(g), f39: <Tok>::make(g), f40: <Tok>::make(g), f41: <Tok>::make(g), f42: <Tok>::make(g), f43: <Tok>::make(g), f44: <Tok>::make(g), f45: <Tok>::make(g), f46: <Tok>::make(g), f47: <Tok>::make(g) },
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::V1 { f0 } => { o.variant = 0; f0.look(o); }
        E::V2 { f0, f1 } => { o.variant = 1; f0.look(o); f1.look(o); }
        E::V3 { f0, f1, f2 } => { o.variant = 2; f0.look(o); f1.look(o); f2.look(o); }
        E::V4 { f0, f1, f2, f3 } => { o.variant = 3; f0.look(o); f1.look(o); f2.look(o); f3.look(o); }
        E::V5 { f0, f1, f2, f3, f4 } => { o.variant = 4; f0.look(o); f1.look(o); f2.look(o); f3.look(o); f4.look(o); }
        E::V6 { f0, f1, f2, f3, f4, f5 } => { o.variant = 5; f0.look(o); f1.look(o); f2.look(o); f3.look(o); f4.look(o); f5.look(o); }
        E::V7 { f0, f1, f2, f3, f4, f5, f6 } => { o.variant = 6; f0.look(o); f1.look(o); f2.look(o); f3.look(o); f4.look(o); f5.look(o); f6.look(o); }
        E::V8 { f0, f1, f2, f3, f4, f5, f6, f7 } => { o.variant = 7; f0.look(o); f1.look(o); f2.look(o); f3.look(o); f4.look(o); f5.look(o); f6.look(o); f7.look(o); }
        E::V12 { f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11 } => { o.variant = 8; f0.look(o); f1.look(o); f2.look(o); f3.look(o); f4.look(o); f5.look(o); f6.look(o); f7.look(o); f8.look(o); f9.look(o); f10.look(o); f11.look(o); }
        E::V20 { f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19 } => { o.variant = 9; f0.look(o); f1.look(o); f2.look(o); f3.look(o); f4.look(o); f5.look(o); f6.look(o); f7.look(o); f8.look(o); f9.look(o); f10.look(o); f11.look(o); f12.look(o); f13.look(o); f14.look(o); f15.look(o); f16.look(o); f17.look(o); f18.look(o); f19.look(o); }
        E::V32 { f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31 } => { o.variant = 10; f0.look(o); f1.look(o); f2.look(o); f3.look(o); f4.look(o); f5.look(o); f6.look(o); f7.look(o); f8.look(o); f9.look(o); f10.look(o); f11.look(o); f12.look(o); f13.look(o); f14.look(o); f15.look(o); f16.look(o); f17.look(o); f18.look(o); f19.look(o); f20.look(o); f21.look(o); f22.look(o); f23.look(o); f24.look(o); f25.look(o); f26.look(o); f27.look(o); f28.look(o); f29.look(o); f30.look(o); f31.look(o); }
        E::V33 { f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32 } => { o.variant = 11; f0.look(o); f1.look(o); f2.look(o); f3.look(o); f4.look(o); f5.look(o); f6.look(o); f7.look(o); f8.look(o); f9.look(o); f10.look(o); f11.look(o); f12.look(o); f13.look(o); f14.look(o); f15.look(o); f16.look(o); f17.look(o); f18.look(o); f19.look(o); f20.look(o); f21.look(o); f22.look(o); f23.look(o); f24.look(o); f25.look(o); f26.look(o); f27.look(o); f28.look(o); f29.look(o); f30.look(o); f31.look(o); f32.look(o); }
        E::V48 { f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47 } => { o.variant = 12; f0.look(o); f1.look(o); f2.look(o); f3.look(o); f4.look(o); f5.look(o); f6.look(o); f7.look(o); f8.look(o); f9.look(o); f10.look(o); f11.look(o); f12.look(o); f13.look(o); f14.look(o); f15.look(o); f16.look(o); f17.look(o); f18.look(o); f19.look(o); f20.look(o); f21.look(o); f22.look(o); f23.look(o); f24.look(o); f25.look(o); f26.look(o); f27.look(o); f28.look(o); f29.look(o); f30.look(o); f31.look(o); f32.look(o); f33.look(o); f34.look(o); f35.look(o); f36.look(o); f37.look(o); f38.look(o); f39.look(o); f40.look(o); f41.look(o); f42.look(o); f43.look(o); f44.look(o); f45.look(o); f46.look(o); f47.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(TokS)]),
        1 => shape(&[sa!(TokS), sa!(TokS)]),
        2 => shape(&[sa!(Tok), sa!(Tok), sa!(Tok)]),
        3 => shape(&[sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS)]),
        4 => shape(&[sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS)]),
        5 => shape(&[sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok)]),
        6 => shape(&[sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS)]),
        7 => shape(&[sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS)]),
        8 => shape(&[sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok)]),
        9 => shape(&[sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS)]),
        10 => shape(&[sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS), sa!(TokS)]),
        11 => shape(&[sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok)]),
        _ => shape(&[sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok), sa!(Tok)]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, ord, dbg);
}
pub mod mix {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        Byte(u8),
        Value(Tok),
        Text(Str),
        Pair(u8, u64),
        Nothing,
        Void(),
        Rec { f0: u8, f1: Tok, f2: u16 },
        RecT { f0: Tok, f1: By<3>, },
        Big(By<300>),
        Small(TokS),
        Trio(TokS, u8, Tok),
        Wide(A64, u8),
        Flag(bool),
        Letter(char),
        Huge(u128),
        One { f0: u32 },
    }
}
impl Enu for E {
    const NAME: &'static str = "mix";
    const NVAR: usize = 16;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::Byte(<u8>::make(g)),
        1 => E::Value(<Tok>::make(g)),
        2 => E::Text(<Str>::make(g)),
        3 => E::Pair(<u8>::make(g), <u64>::make(g)),
        4 => E::Nothing,
        5 => E::Void(),
        6 => E::Rec { f0: <u8>::make(g), f1: <Tok>::make(g), f2: <u16>::make(g) },
        7 => E::RecT { f0: <Tok>::make(g), f1: <By<3>>::make(g) },
        8 => E::Big(<By<300>>::make(g)),
        9 => E::Small(<TokS>::make(g)),
        10 => E::Trio(<TokS>::make(g), <u8>::make(g), <Tok>::make(g)),
        11 => E::Wide(<A64>::make(g), <u8>::make(g)),
        12 => E::Flag(<bool>::make(g)),
        13 => E::Letter(<char>::make(g)),
        14 => E::Huge(<u128>::make(g)),
        _ => E::One { f0: <u32>::make(g) },
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::Byte(a0) => { o.variant = 0; a0.look(o); }
        E::Value(a0) => { o.variant = 1; a0.look(o); }
        E::Text(a0) => { o.variant = 2; a0.look(o); }
        E::Pair(a0, a1) => { o.variant = 3; a0.look(o); a1.look(o); }
        E::Nothing => { o.variant = 4;  }
        E::Void() => { o.variant = 5;  }
        E::Rec { f0, f1, f2 } => { o.variant = 6; f0.look(o); f1.look(o); f2.look(o); }
        E::RecT { f0, f1 } => { o.variant = 7; f0.look(o); f1.look(o); }
        E::Big(a0) => { o.variant = 8; a0.look(o); }
        E::Small(a0) => { o.variant = 9; a0.look(o); }
        E::Trio(a0, a1, a2) => { o.variant = 10; a0.look(o); a1.look(o); a2.look(o); }
        E::Wide(a0, a1) => { o.variant = 11; a0.look(o); a1.look(o); }
        E::Flag(a0) => { o.variant = 12; a0.look(o); }
        E::Letter(a0) => { o.variant = 13; a0.look(o); }
        E::Huge(a0) => { o.variant = 14; a0.look(o); }
        E::One { f0 } => { o.variant = 15; f0.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(u8)]),
        1 => shape(&[sa!(Tok)]),
        2 => shape(&[sa!(Str)]),
        3 => shape(&[sa!(u8), sa!(u64)]),
        4 => shape(&[]),
        5 => shape(&[]),
        6 => shape(&[sa!(u8), sa!(Tok), sa!(u16)]),
        7 => shape(&[sa!(Tok), sa!(By<3>)]),
        8 => shape(&[sa!(By<300>)]),
        9 => shape(&[sa!(TokS)]),
        10 => shape(&[sa!(TokS), sa!(u8), sa!(Tok)]),
        11 => shape(&[sa!(A64), sa!(u8)]),
        12 => shape(&[sa!(bool)]),
        13 => shape(&[sa!(char)]),
        14 => shape(&[sa!(u128)]),
        _ => shape(&[sa!(u32)]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::Byte(a0) => call(move || C::from(a0)),
        E::Value(a0) => call(move || C::from(a0)),
        E::Text(a0) => call(move || C::from(a0)),
        E::Pair(a0, a1) => call(move || C::from((a0, a1))),
        E::Void() => call(move || C::from(())),
        E::Big(a0) => call(move || C::from(a0)),
        E::Small(a0) => call(move || C::from(a0)),
        E::Trio(a0, a1, a2) => call(move || C::from((a0, a1, a2))),
        E::Wide(a0, a1) => call(move || C::from((a0, a1))),
        E::Flag(a0) => call(move || C::from(a0)),
        E::Letter(a0) => call(move || C::from(a0)),
        E::Huge(a0) => call(move || C::from(a0)),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        0 => Some(poke_as::<E, u8>(tb, g, how)),
        1 => Some(poke_as::<E, Tok>(tb, g, how)),
        2 => Some(poke_as::<E, Str>(tb, g, how)),
        8 => Some(poke_as::<E, By<300>>(tb, g, how)),
        9 => Some(poke_as::<E, TokS>(tb, g, how)),
        12 => Some(poke_as::<E, bool>(tb, g, how)),
        13 => Some(poke_as::<E, char>(tb, g, how)),
        14 => Some(poke_as::<E, u128>(tb, g, how)),
        _ => None,
    } }
}
caps!(C, E; DERIVED | STD_ALLOC; clone, ord, dbg);
}
#[cfg(feature = "full")]
pub mod recs {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        S1 { f0: Tok, },
        S2 { f0: Tok, f1: Str },
        S3 { f0: Tok, f1: A32, f2: i128, },
        S4 { f0: Str, f1: isize, f2: Tok, f3: i8 },
        S5 { f0: Tok, f1: By<9>, f2: u64, f3: By<17>, f4: (), },
        S6 { f0: Tok, f1: By<33>, f2: char, f3: usize, f4: u16, f5: ZTok },
        S7 { f0: By<9>, f1: TokS, f2: i8, f3: By<7>, f4: By<3>, f5: Tok, f6: bool, },
        S8 { f0: By<33>, f1: bool, f2: By<17>, f3: TokS, f4: Tok, f5: i32, f6: u128, f7: () },
        T1 { f0: Tok },
        T2 { f0: Tok, f1: ZTok, },
        T3 { f0: TokS, f1: Tok, f2: By<33> },
        T4 { f0: ZTok, f1: i32, f2: TokS, f3: i64, },
        T5 { f0: Tok, f1: i128, f2: bool, f3: i16, f4: u8 },
        T6 { f0: i32, f1: Tok, f2: u128, f3: By<1>, f4: u32, f5: A32, },
        T7 { f0: i128, f1: u64, f2: Tok, f3: A64, f4: A16, f5: isize, f6: char },
        T8 { f0: Tok, f1: char, f2: i16, f3: (), f4: By<5>, f5: By<9>, f6: i8, f7: u8, },
    }
}
impl Enu for E {
    const NAME: &'static str = "recs";
    const NVAR: usize = 16;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::S1 { f0: <Tok>::make(g) },
        1 => E::S2 { f0: <Tok>::make(g), f1: <Str>::make(g) },
        2 => E::S3 { f0: <Tok>::make(g), f1: <A32>::make(g), f2: <i128>::make(g) },
        3 => E::S4 { f0: <Str>::make(g), f1: <isize>::make(g), f2: <Tok>::make(g), f3: <i8>::make(g) },
        4 => E::S5 { f0: <Tok>::make(g), f1: <By<9>>::make(g), f2: <u64>::make(g), f3: <By<17>>::make(g), f4: <()>::make(g) },
        5 => E::S6 { f0: <Tok>::make(g), f1: <By<33>>::make(g), f2: <char>::make(g), f3: <usize>::make(g), f4: <u16>::make(g), f5: <ZTok>::make(g) },
        6 => E::S7 { f0: <By<9>>::make(g), f1: <TokS>::make(g), f2: <i8>::make(g), f3: <By<7>>::make(g), f4: <By<3>>::make(g), f5: <Tok>::make(g), f6: <bool>::make(g) },
        7 => E::S8 { f0: <By<33>>::make(g), f1: <bool>::make(g), f2: <By<17>>::make(g), f3: <TokS>::make(g), f4: <Tok>::make(g), f5: <i32>::make(g), f6: <u128>::make(g), f7: <()>::make(g) },
        8 => E::T1 { f0: <Tok>::make(g) },
        9 => E::T2 { f0: <Tok>::make(g), f1: <ZTok>::make(g) },
        10 => E::T3 { f0: <TokS>::make(g), f1: <Tok>::make(g), f2: <By<33>>::make(g) },
        11 => E::T4 { f0: <ZTok>::make(g), f1: <i32>::make(g), f2: <TokS>::make(g), f3: <i64>::make(g) },
        12 => E::T5 { f0: <Tok>::make(g), f1: <i128>::make(g), f2: <bool>::make(g), f3: <i16>::make(g), f4: <u8>::make(g) },
        13 => E::T6 { f0: <i32>::make(g), f1: <Tok>::make(g), f2: <u128>::make(g), f3: <By<1>>::make(g), f4: <u32>::make(g), f5: <A32>::make(g) },
        14 => E::T7 { f0: <i128>::make(g), f1: <u64>::make(g), f2: <Tok>::make(g), f3: <A64>::make(g), f4: <A16>::make(g), f5: <isize>::make(g), f6: <char>::make(g) },
        _ => E::T8 { f0: <Tok>::make(g), f1: <char>::make(g), f2: <i16>::make(g), f3: <()>::make(g), f4: <By<5>>::make(g), f5: <By<9>>::make(g), f6: <i8>::make(g), f7: <u8>::make(g) },
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::S1 { f0 } => { o.variant = 0; f0.look(o); }
        E::S2 { f0, f1 } => { o.variant = 1; f0.look(o); f1.look(o); }
        E::S3 { f0, f1, f2 } => { o.variant = 2; f0.look(o); f1.look(o); f2.look(o); }
        E::S4 { f0, f1, f2, f3 } => { o.variant = 3; f0.look(o); f1.look(o); f2.look(o); f3.look(o); }
        E::S5 { f0, f1, f2, f3, f4 } => { o.variant = 4; f0.look(o); f1.look(o); f2.look(o); f3.look(o); f4.look(o); }
        E::S6 { f0, f1, f2, f3, f4, f5 } => { o.variant = 5; f0.look(o); f1.look(o); f2.look(o); f3.look(o); f4.look(o); f5.look(o); }
        E::S7 { f0, f1, f2, f3, f4, f5, f6 } => { o.variant = 6; f0.look(o); f1.look(o); f2.look(o); f3.look(o); f4.look(o); f5.look(o); f6.look(o); }
        E::S8 { f0, f1, f2, f3, f4, f5, f6, f7 } => { o.variant = 7; f0.look(o); f1.look(o); f2.look(o); f3.look(o); f4.look(o); f5.look(o); f6.look(o); f7.look(o); }
        E::T1 { f0 } => { o.variant = 8; f0.look(o); }
        E::T2 { f0, f1 } => { o.variant = 9; f0.look(o); f1.look(o); }
        E::T3 { f0, f1, f2 } => { o.variant = 10; f0.look(o); f1.look(o); f2.look(o); }
        E::T4 { f0, f1, f2, f3 } => { o.variant = 11; f0.look(o); f1.look(o); f2.look(o); f3.look(o); }
        E::T5 { f0, f1, f2, f3, f4 } => { o.variant = 12; f0.look(o); f1.look(o); f2.look(o); f3.look(o); f4.look(o); }
        E::T6 { f0, f1, f2, f3, f4, f5 } => { o.variant = 13; f0.look(o); f1.look(o); f2.look(o); f3.look(o); f4.look(o); f5.look(o); }
        E::T7 { f0, f1, f2, f3, f4, f5, f6 } => { o.variant = 14; f0.look(o); f1.look(o); f2.look(o); f3.look(o); f4.look(o); f5.look(o); f6.look(o); }
        E::T8 { f0, f1, f2, f3, f4, f5, f6, f7 } => { o.variant = 15; f0.look(o); f1.look(o); f2.look(o); f3.look(o); f4.look(o); f5.look(o); f6.look(o); f7.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(Tok)]),
        1 => shape(&[sa!(Tok), sa!(Str)]),
        2 => shape(&[sa!(Tok), sa!(A32), sa!(i128)]),
        3 => shape(&[sa!(Str), sa!(isize), sa!(Tok), sa!(i8)]),
        4 => shape(&[sa!(Tok), sa!(By<9>), sa!(u64), sa!(By<17>), sa!(())]),
        5 => shape(&[sa!(Tok), sa!(By<33>), sa!(char), sa!(usize), sa!(u16), sa!(ZTok)]),
        6 => shape(&[sa!(By<9>), sa!(TokS), sa!(i8), sa!(By<7>), sa!(By<3>), sa!(Tok), sa!(bool)]),
        7 => shape(&[sa!(By<33>), sa!(bool), sa!(By<17>), sa!(TokS), sa!(Tok), sa!(i32), sa!(u128), sa!(())]),
        8 => shape(&[sa!(Tok)]),
        9 => shape(&[sa!(Tok), sa!(ZTok)]),
        10 => shape(&[sa!(TokS), sa!(Tok), sa!(By<33>)]),
        11 => shape(&[sa!(ZTok), sa!(i32), sa!(TokS), sa!(i64)]),
        12 => shape(&[sa!(Tok), sa!(i128), sa!(bool), sa!(i16), sa!(u8)]),
        13 => shape(&[sa!(i32), sa!(Tok), sa!(u128), sa!(By<1>), sa!(u32), sa!(A32)]),
        14 => shape(&[sa!(i128), sa!(u64), sa!(Tok), sa!(A64), sa!(A16), sa!(isize), sa!(char)]),
        _ => shape(&[sa!(Tok), sa!(char), sa!(i16), sa!(()), sa!(By<5>), sa!(By<9>), sa!(i8), sa!(u8)]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        _ => None,
    } }
}
caps!(C, E; DERIVED | STD_ALLOC; clone, ord, dbg);
}
pub mod names {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        Locals { value: Tok, tagged: u8, variant: TokS },
        More { discriminant: u16, callback: Tok, tuple: u8, },
        Still { discrim: Tok, layout: u32 },
        Plain(Tok, u8),
    }
}
impl Enu for E {
    const NAME: &'static str = "names";
    const NVAR: usize = 4;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::Locals { value: <Tok>::make(g), tagged: <u8>::make(g), variant: <TokS>::make(g) },
        1 => E::More { discriminant: <u16>::make(g), callback: <Tok>::make(g), tuple: <u8>::make(g) },
        2 => E::Still { discrim: <Tok>::make(g), layout: <u32>::make(g) },
        _ => E::Plain(<Tok>::make(g), <u8>::make(g)),
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::Locals { value, tagged, variant } => { o.variant = 0; value.look(o); tagged.look(o); variant.look(o); }
        E::More { discriminant, callback, tuple } => { o.variant = 1; discriminant.look(o); callback.look(o); tuple.look(o); }
        E::Still { discrim, layout } => { o.variant = 2; discrim.look(o); layout.look(o); }
        E::Plain(a0, a1) => { o.variant = 3; a0.look(o); a1.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(Tok), sa!(u8), sa!(TokS)]),
        1 => shape(&[sa!(u16), sa!(Tok), sa!(u8)]),
        2 => shape(&[sa!(Tok), sa!(u32)]),
        _ => shape(&[sa!(Tok), sa!(u8)]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::Plain(a0, a1) => call(move || C::from((a0, a1))),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, ord, dbg);
}
pub mod small2 {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        Yes(Tok),
        No(TokS, u32),
    }
}
impl Enu for E {
    const NAME: &'static str = "small2";
    const NVAR: usize = 2;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::Yes(<Tok>::make(g)),
        _ => E::No(<TokS>::make(g), <u32>::make(g)),
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::Yes(a0) => { o.variant = 0; a0.look(o); }
        E::No(a0, a1) => { o.variant = 1; a0.look(o); a1.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(Tok)]),
        _ => shape(&[sa!(TokS), sa!(u32)]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::Yes(a0) => call(move || C::from(a0)),
        E::No(a0, a1) => call(move || C::from((a0, a1))),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        0 => Some(poke_as::<E, Tok>(tb, g, how)),
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, ord, dbg);
}
pub mod tiny1 {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        Only(Tok),
    }
}
impl Enu for E {
    const NAME: &'static str = "tiny1";
    const NVAR: usize = 1;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        _ => E::Only(<Tok>::make(g)),
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::Only(a0) => { o.variant = 0; a0.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        _ => shape(&[sa!(Tok)]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::Only(a0) => call(move || C::from(a0)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        0 => Some(poke_as::<E, Tok>(tb, g, how)),
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, ord, dbg);
}
pub mod plain {
use super::*;
tagged_box::tagged_box! {
    pub struct C, pub enum E {
        Number(u64),
        Value(Tok),
        Pair(TokS, Tok),
        Nothing,
    }
}
impl Enu for E {
    const NAME: &'static str = "plain";
    const NVAR: usize = 4;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::Number(<u64>::make(g)),
        1 => E::Value(<Tok>::make(g)),
        2 => E::Pair(<TokS>::make(g), <Tok>::make(g)),
        _ => E::Nothing,
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::Number(a0) => { o.variant = 0; a0.look(o); }
        E::Value(a0) => { o.variant = 1; a0.look(o); }
        E::Pair(a0, a1) => { o.variant = 2; a0.look(o); a1.look(o); }
        E::Nothing => { o.variant = 3;  }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(u64)]),
        1 => shape(&[sa!(Tok)]),
        2 => shape(&[sa!(TokS), sa!(Tok)]),
        _ => shape(&[]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::Number(a0) => call(move || C::from(a0)),
        E::Value(a0) => call(move || C::from(a0)),
        E::Pair(a0, a1) => call(move || C::from((a0, a1))),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        0 => Some(poke_as::<E, u64>(tb, g, how)),
        1 => Some(poke_as::<E, Tok>(tb, g, how)),
        _ => None,
    } }
}
caps!(C, E; 0; );
}
pub mod cpy {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
    pub struct C, pub enum E {
        A(u8),
        B(u8, u64),
        C3(By<24>, u16),
        Nil,
        R { f0: char, f1: bool },
        F(f64),
        Z(Z64),
        Void(),
    }
}
impl Enu for E {
    const NAME: &'static str = "cpy";
    const NVAR: usize = 8;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::A(<u8>::make(g)),
        1 => E::B(<u8>::make(g), <u64>::make(g)),
        2 => E::C3(<By<24>>::make(g), <u16>::make(g)),
        3 => E::Nil,
        4 => E::R { f0: <char>::make(g), f1: <bool>::make(g) },
        5 => E::F(<f64>::make(g)),
        6 => E::Z(<Z64>::make(g)),
        _ => E::Void(),
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::A(a0) => { o.variant = 0; a0.look(o); }
        E::B(a0, a1) => { o.variant = 1; a0.look(o); a1.look(o); }
        E::C3(a0, a1) => { o.variant = 2; a0.look(o); a1.look(o); }
        E::Nil => { o.variant = 3;  }
        E::R { f0, f1 } => { o.variant = 4; f0.look(o); f1.look(o); }
        E::F(a0) => { o.variant = 5; a0.look(o); }
        E::Z(a0) => { o.variant = 6; a0.look(o); }
        E::Void() => { o.variant = 7;  }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(u8)]),
        1 => shape(&[sa!(u8), sa!(u64)]),
        2 => shape(&[sa!(By<24>), sa!(u16)]),
        3 => shape(&[]),
        4 => shape(&[sa!(char), sa!(bool)]),
        5 => shape(&[sa!(f64)]),
        6 => shape(&[sa!(Z64)]),
        _ => shape(&[]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::A(a0) => call(move || C::from(a0)),
        E::B(a0, a1) => call(move || C::from((a0, a1))),
        E::C3(a0, a1) => call(move || C::from((a0, a1))),
        E::F(a0) => call(move || C::from(a0)),
        E::Z(a0) => call(move || C::from(a0)),
        E::Void() => call(move || C::from(())),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        0 => Some(poke_as::<E, u8>(tb, g, how)),
        5 => Some(poke_as::<E, f64>(tb, g, how)),
        6 => Some(poke_as::<E, Z64>(tb, g, how)),
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, pord, dbg, copy);
}
pub mod flt {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd)]
    pub struct C, pub enum E {
        D(f64),
        S(f32),
        Dd(f64, f64),
        Ds(f32, u8, f64),
        Fs { f0: f32, f1: f32 },
        Nan,
        Arr([f64; 3]),
        Tup((f32, Tok)),
    }
}
impl Enu for E {
    const NAME: &'static str = "flt";
    const NVAR: usize = 8;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::D(<f64>::make(g)),
        1 => E::S(<f32>::make(g)),
        2 => E::Dd(<f64>::make(g), <f64>::make(g)),
        3 => E::Ds(<f32>::make(g), <u8>::make(g), <f64>::make(g)),
        4 => E::Fs { f0: <f32>::make(g), f1: <f32>::make(g) },
        5 => E::Nan,
        6 => E::Arr(<[f64; 3]>::make(g)),
        _ => E::Tup(<(f32, Tok)>::make(g)),
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::D(a0) => { o.variant = 0; a0.look(o); }
        E::S(a0) => { o.variant = 1; a0.look(o); }
        E::Dd(a0, a1) => { o.variant = 2; a0.look(o); a1.look(o); }
        E::Ds(a0, a1, a2) => { o.variant = 3; a0.look(o); a1.look(o); a2.look(o); }
        E::Fs { f0, f1 } => { o.variant = 4; f0.look(o); f1.look(o); }
        E::Nan => { o.variant = 5;  }
        E::Arr(a0) => { o.variant = 6; a0.look(o); }
        E::Tup(a0) => { o.variant = 7; a0.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(f64)]),
        1 => shape(&[sa!(f32)]),
        2 => shape(&[sa!(f64), sa!(f64)]),
        3 => shape(&[sa!(f32), sa!(u8), sa!(f64)]),
        4 => shape(&[sa!(f32), sa!(f32)]),
        5 => shape(&[]),
        6 => shape(&[sa!([f64; 3])]),
        _ => shape(&[sa!((f32, Tok))]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::D(a0) => call(move || C::from(a0)),
        E::S(a0) => call(move || C::from(a0)),
        E::Dd(a0, a1) => call(move || C::from((a0, a1))),
        E::Ds(a0, a1, a2) => call(move || C::from((a0, a1, a2))),
        E::Arr(a0) => call(move || C::from(a0)),
        E::Tup(a0) => call(move || C::from(a0)),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        0 => Some(poke_as::<E, f64>(tb, g, how)),
        1 => Some(poke_as::<E, f32>(tb, g, how)),
        6 => Some(poke_as::<E, [f64; 3]>(tb, g, how)),
        7 => Some(poke_as::<E, (f32, Tok)>(tb, g, how)),
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, pord, dbg);
}
#[cfg(feature = "full")]
pub mod siza {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        Y1(By<1>),
        Y2(By<2>),
        Y3(By<3>),
        Y4(By<4>),
        Y5(By<5>),
        Y6(By<6>),
        Y7(By<7>),
        Y8(By<8>),
        Y9(By<9>),
        Y10(By<10>),
        Y11(By<11>),
        Y12(By<12>),
        Y13(By<13>),
        Y15(By<15>),
        Y16(By<16>),
        Y17(By<17>),
    }
}
impl Enu for E {
    const NAME: &'static str = "siza";
    const NVAR: usize = 16;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::Y1(<By<1>>::make(g)),
        1 => E::Y2(<By<2>>::make(g)),
        2 => E::Y3(<By<3>>::make(g)),
        3 => E::Y4(<By<4>>::make(g)),
        4 => E::Y5(<By<5>>::make(g)),
        5 => E::Y6(<By<6>>::make(g)),
        6 => E::Y7(<By<7>>::make(g)),
        7 => E::Y8(<By<8>>::make(g)),
        8 => E::Y9(<By<9>>::make(g)),
        9 => E::Y10(<By<10>>::make(g)),
        10 => E::Y11(<By<11>>::make(g)),
        11 => E::Y12(<By<12>>::make(g)),
        12 => E::Y13(<By<13>>::make(g)),
        13 => E::Y15(<By<15>>::make(g)),
        14 => E::Y16(<By<16>>::make(g)),
        _ => E::Y17(<By<17>>::make(g)),
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::Y1(a0) => { o.variant = 0; a0.look(o); }
        E::Y2(a0) => { o.variant = 1; a0.look(o); }
        E::Y3(a0) => { o.variant = 2; a0.look(o); }
        E::Y4(a0) => { o.variant = 3; a0.look(o); }
        E::Y5(a0) => { o.variant = 4; a0.look(o); }
        E::Y6(a0) => { o.variant = 5; a0.look(o); }
        E::Y7(a0) => { o.variant = 6; a0.look(o); }
        E::Y8(a0) => { o.variant = 7; a0.look(o); }
        E::Y9(a0) => { o.variant = 8; a0.look(o); }
        E::Y10(a0) => { o.variant = 9; a0.look(o); }
        E::Y11(a0) => { o.variant = 10; a0.look(o); }
        E::Y12(a0) => { o.variant = 11; a0.look(o); }
        E::Y13(a0) => { o.variant = 12; a0.look(o); }
        E::Y15(a0) => { o.variant = 13; a0.look(o); }
        E::Y16(a0) => { o.variant = 14; a0.look(o); }
        E::Y17(a0) => { o.variant = 15; a0.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(By<1>)]),
        1 => shape(&[sa!(By<2>)]),
        2 => shape(&[sa!(By<3>)]),
        3 => shape(&[sa!(By<4>)]),
        4 => shape(&[sa!(By<5>)]),
        5 => shape(&[sa!(By<6>)]),
        6 => shape(&[sa!(By<7>)]),
        7 => shape(&[sa!(By<8>)]),
        8 => shape(&[sa!(By<9>)]),
        9 => shape(&[sa!(By<10>)]),
        10 => shape(&[sa!(By<11>)]),
        11 => shape(&[sa!(By<12>)]),
        12 => shape(&[sa!(By<13>)]),
        13 => shape(&[sa!(By<15>)]),
        14 => shape(&[sa!(By<16>)]),
        _ => shape(&[sa!(By<17>)]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::Y1(a0) => call(move || C::from(a0)),
        E::Y2(a0) => call(move || C::from(a0)),
        E::Y3(a0) => call(move || C::from(a0)),
        E::Y4(a0) => call(move || C::from(a0)),
        E::Y5(a0) => call(move || C::from(a0)),
        E::Y6(a0) => call(move || C::from(a0)),
        E::Y7(a0) => call(move || C::from(a0)),
        E::Y8(a0) => call(move || C::from(a0)),
        E::Y9(a0) => call(move || C::from(a0)),
        E::Y10(a0) => call(move || C::from(a0)),
        E::Y11(a0) => call(move || C::from(a0)),
        E::Y12(a0) => call(move || C::from(a0)),
        E::Y13(a0) => call(move || C::from(a0)),
        E::Y15(a0) => call(move || C::from(a0)),
        E::Y16(a0) => call(move || C::from(a0)),
        E::Y17(a0) => call(move || C::from(a0)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        0 => Some(poke_as::<E, By<1>>(tb, g, how)),
        1 => Some(poke_as::<E, By<2>>(tb, g, how)),
        2 => Some(poke_as::<E, By<3>>(tb, g, how)),
        3 => Some(poke_as::<E, By<4>>(tb, g, how)),
        4 => Some(poke_as::<E, By<5>>(tb, g, how)),
        5 => Some(poke_as::<E, By<6>>(tb, g, how)),
        6 => Some(poke_as::<E, By<7>>(tb, g, how)),
        7 => Some(poke_as::<E, By<8>>(tb, g, how)),
        8 => Some(poke_as::<E, By<9>>(tb, g, how)),
        9 => Some(poke_as::<E, By<10>>(tb, g, how)),
        10 => Some(poke_as::<E, By<11>>(tb, g, how)),
        11 => Some(poke_as::<E, By<12>>(tb, g, how)),
        12 => Some(poke_as::<E, By<13>>(tb, g, how)),
        13 => Some(poke_as::<E, By<15>>(tb, g, how)),
        14 => Some(poke_as::<E, By<16>>(tb, g, how)),
        15 => Some(poke_as::<E, By<17>>(tb, g, how)),
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, ord, dbg);
}
#[cfg(feature = "full")]
pub mod sizb {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        Y23(By<23>),
        Y24(By<24>),
        Y25(By<25>),
        Y31(By<31>),
        Y32(By<32>),
        Y33(By<33>),
        Y47(By<47>),
        Y48(By<48>),
        Y49(By<49>),
        Y63(By<63>),
        Y64(By<64>),
        Y65(By<65>),
        Y100(By<100>),
        Y127(By<127>),
        Y128(By<128>),
        Y129(By<129>),
    }
}
impl Enu for E {
    const NAME: &'static str = "sizb";
    const NVAR: usize = 16;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::Y23(<By<23>>::make(g)),
        1 => E::Y24(<By<24>>::make(g)),
        2 => E::Y25(<By<25>>::make(g)),
        3 => E::Y31(<By<31>>::make(g)),
        4 => E::Y32(<By<32>>::make(g)),
        5 => E::Y33(<By<33>>::make(g)),
        6 => E::Y47(<By<47>>::make(g)),
        7 => E::Y48(<By<48>>::make(g)),
        8 => E::Y49(<By<49>>::make(g)),
        9 => E::Y63(<By<63>>::make(g)),
        10 => E::Y64(<By<64>>::make(g)),
        11 => E::Y65(<By<65>>::make(g)),
        12 => E::Y100(<By<100>>::make(g)),
        13 => E::Y127(<By<127>>::make(g)),
        14 => E::Y128(<By<128>>::make(g)),
        _ => E::Y129(<By<129>>::make(g)),
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::Y23(a0) => { o.variant = 0; a0.look(o); }
        E::Y24(a0) => { o.variant = 1; a0.look(o); }
        E::Y25(a0) => { o.variant = 2; a0.look(o); }
        E::Y31(a0) => { o.variant = 3; a0.look(o); }
        E::Y32(a0) => { o.variant = 4; a0.look(o); }
        E::Y33(a0) => { o.variant = 5; a0.look(o); }
        E::Y47(a0) => { o.variant = 6; a0.look(o); }
        E::Y48(a0) => { o.variant = 7; a0.look(o); }
        E::Y49(a0) => { o.variant = 8; a0.look(o); }
        E::Y63(a0) => { o.variant = 9; a0.look(o); }
        E::Y64(a0) => { o.variant = 10; a0.look(o); }
        E::Y65(a0) => { o.variant = 11; a0.look(o); }
        E::Y100(a0) => { o.variant = 12; a0.look(o); }
        E::Y127(a0) => { o.variant = 13; a0.look(o); }
        E::Y128(a0) => { o.variant = 14; a0.look(o); }
        E::Y129(a0) => { o.variant = 15; a0.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(By<23>)]),
        1 => shape(&[sa!(By<24>)]),
        2 => shape(&[sa!(By<25>)]),
        3 => shape(&[sa!(By<31>)]),
        4 => shape(&[sa!(By<32>)]),
        5 => shape(&[sa!(By<33>)]),
        6 => shape(&[sa!(By<47>)]),
        7 => shape(&[sa!(By<48>)]),
        8 => shape(&[sa!(By<49>)]),
        9 => shape(&[sa!(By<63>)]),
        10 => shape(&[sa!(By<64>)]),
        11 => shape(&[sa!(By<65>)]),
        12 => shape(&[sa!(By<100>)]),
        13 => shape(&[sa!(By<127>)]),
        14 => shape(&[sa!(By<128>)]),
        _ => shape(&[sa!(By<129>)]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::Y23(a0) => call(move || C::from(a0)),
        E::Y24(a0) => call(move || C::from(a0)),
        E::Y25(a0) => call(move || C::from(a0)),
        E::Y31(a0) => call(move || C::from(a0)),
        E::Y32(a0) => call(move || C::from(a0)),
        E::Y33(a0) => call(move || C::from(a0)),
        E::Y47(a0) => call(move || C::from(a0)),
        E::Y48(a0) => call(move || C::from(a0)),
        E::Y49(a0) => call(move || C::from(a0)),
        E::Y63(a0) => call(move || C::from(a0)),
        E::Y64(a0) => call(move || C::from(a0)),
        E::Y65(a0) => call(move || C::from(a0)),
        E::Y100(a0) => call(move || C::from(a0)),
        E::Y127(a0) => call(move || C::from(a0)),
        E::Y128(a0) => call(move || C::from(a0)),
        E::Y129(a0) => call(move || C::from(a0)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        0 => Some(poke_as::<E, By<23>>(tb, g, how)),
        1 => Some(poke_as::<E, By<24>>(tb, g, how)),
        2 => Some(poke_as::<E, By<25>>(tb, g, how)),
        3 => Some(poke_as::<E, By<31>>(tb, g, how)),
        4 => Some(poke_as::<E, By<32>>(tb, g, how)),
        5 => Some(poke_as::<E, By<33>>(tb, g, how)),
        6 => Some(poke_as::<E, By<47>>(tb, g, how)),
        7 => Some(poke_as::<E, By<48>>(tb, g, how)),
        8 => Some(poke_as::<E, By<49>>(tb, g, how)),
        9 => Some(poke_as::<E, By<63>>(tb, g, how)),
        10 => Some(poke_as::<E, By<64>>(tb, g, how)),
        11 => Some(poke_as::<E, By<65>>(tb, g, how)),
        12 => Some(poke_as::<E, By<100>>(tb, g, how)),
        13 => Some(poke_as::<E, By<127>>(tb, g, how)),
        14 => Some(poke_as::<E, By<128>>(tb, g, how)),
        15 => Some(poke_as::<E, By<129>>(tb, g, how)),
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, ord, dbg);
}
pub mod sizc {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        Y255(By<255>),
        Y256(By<256>),
        Y257(By<257>),
        Y1000(By<1000>),
        Y1024(By<1024>),
        Y4095(By<4095>),
        Y4096(By<4096>),
        Y4097(By<4097>),
        Y65536(By<65536>),
        Y140003(By<140003>),
        Mixed(u8, By<777>, Tok),
        Rec { f0: By<1023>, f1: u8, f2: Tok, f3: u64 },
    }
}
impl Enu for E {
    const NAME: &'static str = "sizc";
    const NVAR: usize = 12;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::Y255(<By<255>>::make(g)),
        1 => E::Y256(<By<256>>::make(g)),
        2 => E::Y257(<By<257>>::make(g)),
        3 => E::Y1000(<By<1000>>::make(g)),
        4 => E::Y1024(<By<1024>>::make(g)),
        5 => E::Y4095(<By<4095>>::make(g)),
        6 => E::Y4096(<By<4096>>::make(g)),
        7 => E::Y4097(<By<4097>>::make(g)),
        8 => E::Y65536(<By<65536>>::make(g)),
        9 => E::Y140003(<By<140003>>::make(g)),
        10 => E::Mixed(<u8>::make(g), <By<777>>::make(g), <Tok>::make(g)),
        _ => E::Rec { f0: <By<1023>>::make(g), f1: <u8>::make(g), f2: <Tok>::make(g), f3: <u64>::make(g) },
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::Y255(a0) => { o.variant = 0; a0.look(o); }
        E::Y256(a0) => { o.variant = 1; a0.look(o); }
        E::Y257(a0) => { o.variant = 2; a0.look(o); }
        E::Y1000(a0) => { o.variant = 3; a0.look(o); }
        E::Y1024(a0) => { o.variant = 4; a0.look(o); }
        E::Y4095(a0) => { o.variant = 5; a0.look(o); }
        E::Y4096(a0) => { o.variant = 6; a0.look(o); }
        E::Y4097(a0) => { o.variant = 7; a0.look(o); }
        E::Y65536(a0) => { o.variant = 8; a0.look(o); }
        E::Y140003(a0) => { o.variant = 9; a0.look(o); }
        E::Mixed(a0, a1, a2) => { o.variant = 10; a0.look(o); a1.look(o); a2.look(o); }
        E::Rec { f0, f1, f2, f3 } => { o.variant = 11; f0.look(o); f1.look(o); f2.look(o); f3.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(By<255>)]),
        1 => shape(&[sa!(By<256>)]),
        2 => shape(&[sa!(By<257>)]),
        3 => shape(&[sa!(By<1000>)]),
        4 => shape(&[sa!(By<1024>)]),
        5 => shape(&[sa!(By<4095>)]),
        6 => shape(&[sa!(By<4096>)]),
        7 => shape(&[sa!(By<4097>)]),
        8 => shape(&[sa!(By<65536>)]),
        9 => shape(&[sa!(By<140003>)]),
        10 => shape(&[sa!(u8), sa!(By<777>), sa!(Tok)]),
        _ => shape(&[sa!(By<1023>), sa!(u8), sa!(Tok), sa!(u64)]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::Y255(a0) => call(move || C::from(a0)),
        E::Y256(a0) => call(move || C::from(a0)),
        E::Y257(a0) => call(move || C::from(a0)),
        E::Y1000(a0) => call(move || C::from(a0)),
        E::Y1024(a0) => call(move || C::from(a0)),
        E::Y4095(a0) => call(move || C::from(a0)),
        E::Y4096(a0) => call(move || C::from(a0)),
        E::Y4097(a0) => call(move || C::from(a0)),
        E::Y65536(a0) => call(move || C::from(a0)),
        E::Y140003(a0) => call(move || C::from(a0)),
        E::Mixed(a0, a1, a2) => call(move || C::from((a0, a1, a2))),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        0 => Some(poke_as::<E, By<255>>(tb, g, how)),
        1 => Some(poke_as::<E, By<256>>(tb, g, how)),
        2 => Some(poke_as::<E, By<257>>(tb, g, how)),
        3 => Some(poke_as::<E, By<1000>>(tb, g, how)),
        4 => Some(poke_as::<E, By<1024>>(tb, g, how)),
        5 => Some(poke_as::<E, By<4095>>(tb, g, how)),
        6 => Some(poke_as::<E, By<4096>>(tb, g, how)),
        7 => Some(poke_as::<E, By<4097>>(tb, g, how)),
        8 => Some(poke_as::<E, By<65536>>(tb, g, how)),
        9 => Some(poke_as::<E, By<140003>>(tb, g, how)),
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, ord, dbg);
}
#[cfg(feature = "full")]
pub mod huge {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq)]
    pub struct C, pub enum E {
        Vast(By<1179651>),
        Small(u8),
    }
}
impl Enu for E {
    const NAME: &'static str = "huge";
    const NVAR: usize = 2;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::Vast(<By<1179651>>::make(g)),
        _ => E::Small(<u8>::make(g)),
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::Vast(a0) => { o.variant = 0; a0.look(o); }
        E::Small(a0) => { o.variant = 1; a0.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(By<1179651>)]),
        _ => shape(&[sa!(u8)]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::Vast(a0) => call(move || C::from(a0)),
        E::Small(a0) => call(move || C::from(a0)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        0 => Some(poke_as::<E, By<1179651>>(tb, g, how)),
        1 => Some(poke_as::<E, u8>(tb, g, how)),
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, eq, dbg);
}
#[cfg(feature = "full")]
pub mod alia {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        N2(A2),
        N4(A4),
        N8(A8),
        N16(A16),
        N32(A32),
        N64(A64),
        N128(A128),
        N256(A256),
        N512(A512),
        N1024(A1024),
        N2048(A2048),
        N4096(A4096),
        P1(u8, A16),
        P2(A4096, u8),
        P3 { f0: u8, f1: A256, f2: u8 },
        P4(By<3>, A2, Tok),
    }
}
impl Enu for E {
    const NAME: &'static str = "alia";
    const NVAR: usize = 16;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::N2(<A2>::make(g)),
        1 => E::N4(<A4>::make(g)),
        2 => E::N8(<A8>::make(g)),
        3 => E::N16(<A16>::make(g)),
        4 => E::N32(<A32>::make(g)),
        5 => E::N64(<A64>::make(g)),
        6 => E::N128(<A128>::make(g)),
        7 => E::N256(<A256>::make(g)),
        8 => E::N512(<A512>::make(g)),
        9 => E::N1024(<A1024>::make(g)),
        10 => E::N2048(<A2048>::make(g)),
        11 => E::N4096(<A4096>::make(g)),
        12 => E::P1(<u8>::make(g), <A16>::make(g)),
        13 => E::P2(<A4096>::make(g), <u8>::make(g)),
        14 => E::P3 { f0: <u8>::make(g), f1: <A256>::make(g), f2: <u8>::make(g) },
        _ => E::P4(<By<3>>::make(g), <A2>::make(g), <Tok>::make(g)),
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::N2(a0) => { o.variant = 0; a0.look(o); }
        E::N4(a0) => { o.variant = 1; a0.look(o); }
        E::N8(a0) => { o.variant = 2; a0.look(o); }
        E::N16(a0) => { o.variant = 3; a0.look(o); }
        E::N32(a0) => { o.variant = 4; a0.look(o); }
        E::N64(a0) => { o.variant = 5; a0.look(o); }
        E::N128(a0) => { o.variant = 6; a0.look(o); }
        E::N256(a0) => { o.variant = 7; a0.look(o); }
        E::N512(a0) => { o.variant = 8; a0.look(o); }
        E::N1024(a0) => { o.variant = 9; a0.look(o); }
        E::N2048(a0) => { o.variant = 10; a0.look(o); }
        E::N4096(a0) => { o.variant = 11; a0.look(o); }
        E::P1(a0, a1) => { o.variant = 12; a0.look(o); a1.look(o); }
        E::P2(a0, a1) => { o.variant = 13; a0.look(o); a1.look(o); }
        E::P3 { f0, f1, f2 } => { o.variant = 14; f0.look(o); f1.look(o); f2.look(o); }
        E::P4(a0, a1, a2) => { o.variant = 15; a0.look(o); a1.look(o); a2.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(A2)]),
        1 => shape(&[sa!(A4)]),
        2 => shape(&[sa!(A8)]),
        3 => shape(&[sa!(A16)]),
        4 => shape(&[sa!(A32)]),
        5 => shape(&[sa!(A64)]),
        6 => shape(&[sa!(A128)]),
        7 => shape(&[sa!(A256)]),
        8 => shape(&[sa!(A512)]),
        9 => shape(&[sa!(A1024)]),
        10 => shape(&[sa!(A2048)]),
        11 => shape(&[sa!(A4096)]),
        12 => shape(&[sa!(u8), sa!(A16)]),
        13 => shape(&[sa!(A4096), sa!(u8)]),
        14 => shape(&[sa!(u8), sa!(A256), sa!(u8)]),
        _ => shape(&[sa!(By<3>), sa!(A2), sa!(Tok)]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::N2(a0) => call(move || C::from(a0)),
        E::N4(a0) => call(move || C::from(a0)),
        E::N8(a0) => call(move || C::from(a0)),
        E::N16(a0) => call(move || C::from(a0)),
        E::N32(a0) => call(move || C::from(a0)),
        E::N64(a0) => call(move || C::from(a0)),
        E::N128(a0) => call(move || C::from(a0)),
        E::N256(a0) => call(move || C::from(a0)),
        E::N512(a0) => call(move || C::from(a0)),
        E::N1024(a0) => call(move || C::from(a0)),
        E::N2048(a0) => call(move || C::from(a0)),
        E::N4096(a0) => call(move || C::from(a0)),
        E::P1(a0, a1) => call(move || C::from((a0, a1))),
        E::P2(a0, a1) => call(move || C::from((a0, a1))),
        E::P4(a0, a1, a2) => call(move || C::from((a0, a1, a2))),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        0 => Some(poke_as::<E, A2>(tb, g, how)),
        1 => Some(poke_as::<E, A4>(tb, g, how)),
        2 => Some(poke_as::<E, A8>(tb, g, how)),
        3 => Some(poke_as::<E, A16>(tb, g, how)),
        4 => Some(poke_as::<E, A32>(tb, g, how)),
        5 => Some(poke_as::<E, A64>(tb, g, how)),
        6 => Some(poke_as::<E, A128>(tb, g, how)),
        7 => Some(poke_as::<E, A256>(tb, g, how)),
        8 => Some(poke_as::<E, A512>(tb, g, how)),
        9 => Some(poke_as::<E, A1024>(tb, g, how)),
        10 => Some(poke_as::<E, A2048>(tb, g, how)),
        11 => Some(poke_as::<E, A4096>(tb, g, how)),
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, ord, dbg);
}
pub mod alib {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        N2(Z2),
        N4(Z4),
        N8(Z8),
        N16(Z16),
        N32(Z32),
        N64(Z64),
        N128(Z128),
        N256(Z256),
        N512(Z512),
        N1024(Z1024),
        N2048(Z2048),
        N4096(Z4096),
        P1(u8, Z16),
        P2(Z4096, Tok),
        P3 { f0: u8, f1: Z256, f2: u8 },
        P4(Z64, Z128),
    }
}
impl Enu for E {
    const NAME: &'static str = "alib";
    const NVAR: usize = 16;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::N2(<Z2>::make(g)),
        1 => E::N4(<Z4>::make(g)),
        2 => E::N8(<Z8>::make(g)),
        3 => E::N16(<Z16>::make(g)),
        4 => E::N32(<Z32>::make(g)),
        5 => E::N64(<Z64>::make(g)),
        6 => E::N128(<Z128>::make(g)),
        7 => E::N256(<Z256>::make(g)),
        8 => E::N512(<Z512>::make(g)),
        9 => E::N1024(<Z1024>::make(g)),
        10 => E::N2048(<Z2048>::make(g)),
        11 => E::N4096(<Z4096>::make(g)),
        12 => E::P1(<u8>::make(g), <Z16>::make(g)),
        13 => E::P2(<Z4096>::make(g), <Tok>::make(g)),
        14 => E::P3 { f0: <u8>::make(g), f1: <Z256>::make(g), f2: <u8>::make(g) },
        _ => E::P4(<Z64>::make(g), <Z128>::make(g)),
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::N2(a0) => { o.variant = 0; a0.look(o); }
        E::N4(a0) => { o.variant = 1; a0.look(o); }
        E::N8(a0) => { o.variant = 2; a0.look(o); }
        E::N16(a0) => { o.variant = 3; a0.look(o); }
        E::N32(a0) => { o.variant = 4; a0.look(o); }
        E::N64(a0) => { o.variant = 5; a0.look(o); }
        E::N128(a0) => { o.variant = 6; a0.look(o); }
        E::N256(a0) => { o.variant = 7; a0.look(o); }
        E::N512(a0) => { o.variant = 8; a0.look(o); }
        E::N1024(a0) => { o.variant = 9; a0.look(o); }
        E::N2048(a0) => { o.variant = 10; a0.look(o); }
        E::N4096(a0) => { o.variant = 11; a0.look(o); }
        E::P1(a0, a1) => { o.variant = 12; a0.look(o); a1.look(o); }
        E::P2(a0, a1) => { o.variant = 13; a0.look(o); a1.look(o); }
        E::P3 { f0, f1, f2 } => { o.variant = 14; f0.look(o); f1.look(o); f2.look(o); }
        E::P4(a0, a1) => { o.variant = 15; a0.look(o); a1.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(Z2)]),
        1 => shape(&[sa!(Z4)]),
        2 => shape(&[sa!(Z8)]),
        3 => shape(&[sa!(Z16)]),
        4 => shape(&[sa!(Z32)]),
        5 => shape(&[sa!(Z64)]),
        6 => shape(&[sa!(Z128)]),
        7 => shape(&[sa!(Z256)]),
        8 => shape(&[sa!(Z512)]),
        9 => shape(&[sa!(Z1024)]),
        10 => shape(&[sa!(Z2048)]),
        11 => shape(&[sa!(Z4096)]),
        12 => shape(&[sa!(u8), sa!(Z16)]),
        13 => shape(&[sa!(Z4096), sa!(Tok)]),
        14 => shape(&[sa!(u8), sa!(Z256), sa!(u8)]),
        _ => shape(&[sa!(Z64), sa!(Z128)]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::N2(a0) => call(move || C::from(a0)),
        E::N4(a0) => call(move || C::from(a0)),
        E::N8(a0) => call(move || C::from(a0)),
        E::N16(a0) => call(move || C::from(a0)),
        E::N32(a0) => call(move || C::from(a0)),
        E::N64(a0) => call(move || C::from(a0)),
        E::N128(a0) => call(move || C::from(a0)),
        E::N256(a0) => call(move || C::from(a0)),
        E::N512(a0) => call(move || C::from(a0)),
        E::N1024(a0) => call(move || C::from(a0)),
        E::N2048(a0) => call(move || C::from(a0)),
        E::N4096(a0) => call(move || C::from(a0)),
        E::P1(a0, a1) => call(move || C::from((a0, a1))),
        E::P2(a0, a1) => call(move || C::from((a0, a1))),
        E::P4(a0, a1) => call(move || C::from((a0, a1))),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        0 => Some(poke_as::<E, Z2>(tb, g, how)),
        1 => Some(poke_as::<E, Z4>(tb, g, how)),
        2 => Some(poke_as::<E, Z8>(tb, g, how)),
        3 => Some(poke_as::<E, Z16>(tb, g, how)),
        4 => Some(poke_as::<E, Z32>(tb, g, how)),
        5 => Some(poke_as::<E, Z64>(tb, g, how)),
        6 => Some(poke_as::<E, Z128>(tb, g, how)),
        7 => Some(poke_as::<E, Z256>(tb, g, how)),
        8 => Some(poke_as::<E, Z512>(tb, g, how)),
        9 => Some(poke_as::<E, Z1024>(tb, g, how)),
        10 => Some(poke_as::<E, Z2048>(tb, g, how)),
        11 => Some(poke_as::<E, Z4096>(tb, g, how)),
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, ord, dbg);
}
#[cfg(feature = "full")]
pub mod alic {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq)]
    pub struct C, pub enum E {
        A(A8192),
        B(u8, A65536, Tok),
        Za(Z65536),
        Zb(Z65536, u8),
        R { f0: TokS, f1: Z8192, },
    }
}
impl Enu for E {
    const NAME: &'static str = "alic";
    const NVAR: usize = 5;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::A(<A8192>::make(g)),
        1 => E::B(<u8>::make(g), <A65536>::make(g), <Tok>::make(g)),
        2 => E::Za(<Z65536>::make(g)),
        3 => E::Zb(<Z65536>::make(g), <u8>::make(g)),
        _ => E::R { f0: <TokS>::make(g), f1: <Z8192>::make(g) },
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::A(a0) => { o.variant = 0; a0.look(o); }
        E::B(a0, a1, a2) => { o.variant = 1; a0.look(o); a1.look(o); a2.look(o); }
        E::Za(a0) => { o.variant = 2; a0.look(o); }
        E::Zb(a0, a1) => { o.variant = 3; a0.look(o); a1.look(o); }
        E::R { f0, f1 } => { o.variant = 4; f0.look(o); f1.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(A8192)]),
        1 => shape(&[sa!(u8), sa!(A65536), sa!(Tok)]),
        2 => shape(&[sa!(Z65536)]),
        3 => shape(&[sa!(Z65536), sa!(u8)]),
        _ => shape(&[sa!(TokS), sa!(Z8192)]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::A(a0) => call(move || C::from(a0)),
        E::B(a0, a1, a2) => call(move || C::from((a0, a1, a2))),
        E::Za(a0) => call(move || C::from(a0)),
        E::Zb(a0, a1) => call(move || C::from((a0, a1))),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        0 => Some(poke_as::<E, A8192>(tb, g, how)),
        2 => Some(poke_as::<E, Z65536>(tb, g, how)),
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, eq, dbg);
}
pub mod zst {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        Z(ZTok),
        Zz(ZTok, ZTok),
        U(()),
        Za(ZTok, Z64),
        Zb(ZTok, u8),
        Zs { f0: ZTok },
        Zt { f0: ZTok, f1: ZTok, f2: ZTok, },
        Arr([ZTok; 3]),
        Empty([u64; 0]),
        Zt2(ZTok, Tok),
        Nil,
    }
}
impl Enu for E {
    const NAME: &'static str = "zst";
    const NVAR: usize = 11;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::Z(<ZTok>::make(g)),
        1 => E::Zz(<ZTok>::make(g), <ZTok>::make(g)),
        2 => E::U(<()>::make(g)),
        3 => E::Za(<ZTok>::make(g), <Z64>::make(g)),
        4 => E::Zb(<ZTok>::make(g), <u8>::make(g)),
        5 => E::Zs { f0: <ZTok>::make(g) },
        6 => E::Zt { f0: <ZTok>::make(g), f1: <ZTok>::make(g), f2: <ZTok>::make(g) },
        7 => E::Arr(<[ZTok; 3]>::make(g)),
        8 => E::Empty(<[u64; 0]>::make(g)),
        9 => E::Zt2(<ZTok>::make(g), <Tok>::make(g)),
        _ => E::Nil,
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::Z(a0) => { o.variant = 0; a0.look(o); }
        E::Zz(a0, a1) => { o.variant = 1; a0.look(o); a1.look(o); }
        E::U(a0) => { o.variant = 2; a0.look(o); }
        E::Za(a0, a1) => { o.variant = 3; a0.look(o); a1.look(o); }
        E::Zb(a0, a1) => { o.variant = 4; a0.look(o); a1.look(o); }
        E::Zs { f0 } => { o.variant = 5; f0.look(o); }
        E::Zt { f0, f1, f2 } => { o.variant = 6; f0.look(o); f1.look(o); f2.look(o); }
        E::Arr(a0) => { o.variant = 7; a0.look(o); }
        E::Empty(a0) => { o.variant = 8; a0.look(o); }
        E::Zt2(a0, a1) => { o.variant = 9; a0.look(o); a1.look(o); }
        E::Nil => { o.variant = 10;  }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(ZTok)]),
        1 => shape(&[sa!(ZTok), sa!(ZTok)]),
        2 => shape(&[sa!(())]),
        3 => shape(&[sa!(ZTok), sa!(Z64)]),
        4 => shape(&[sa!(ZTok), sa!(u8)]),
        5 => shape(&[sa!(ZTok)]),
        6 => shape(&[sa!(ZTok), sa!(ZTok), sa!(ZTok)]),
        7 => shape(&[sa!([ZTok; 3])]),
        8 => shape(&[sa!([u64; 0])]),
        9 => shape(&[sa!(ZTok), sa!(Tok)]),
        _ => shape(&[]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::Z(a0) => call(move || C::from(a0)),
        E::Zz(a0, a1) => call(move || C::from((a0, a1))),
        E::U(a0) => call(move || C::from(a0)),
        E::Za(a0, a1) => call(move || C::from((a0, a1))),
        E::Zb(a0, a1) => call(move || C::from((a0, a1))),
        E::Arr(a0) => call(move || C::from(a0)),
        E::Empty(a0) => call(move || C::from(a0)),
        E::Zt2(a0, a1) => call(move || C::from((a0, a1))),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        0 => Some(poke_as::<E, ZTok>(tb, g, how)),
        2 => Some(poke_as::<E, ()>(tb, g, how)),
        7 => Some(poke_as::<E, [ZTok; 3]>(tb, g, how)),
        8 => Some(poke_as::<E, [u64; 0]>(tb, g, how)),
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, ord, dbg);
}
pub mod deep {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        Opt(Option<Tok>),
        Arr([Tok; 4]),
        Two((Tok, u8)),
        Big([TokS; 31]),
        Rec { f0: Option<TokS>, f1: [Tok; 2] },
        Tt((TokS, Tok), u8),
        Ob(Option<bool>),
        Oc(Option<char>, Option<u8>),
    }
}
impl Enu for E {
    const NAME: &'static str = "deep";
    const NVAR: usize = 8;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::Opt(<Option<Tok>>::make(g)),
        1 => E::Arr(<[Tok; 4]>::make(g)),
        2 => E::Two(<(Tok, u8)>::make(g)),
        3 => E::Big(<[TokS; 31]>::make(g)),
        4 => E::Rec { f0: <Option<TokS>>::make(g), f1: <[Tok; 2]>::make(g) },
        5 => E::Tt(<(TokS, Tok)>::make(g), <u8>::make(g)),
        6 => E::Ob(<Option<bool>>::make(g)),
        _ => E::Oc(<Option<char>>::make(g), <Option<u8>>::make(g)),
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::Opt(a0) => { o.variant = 0; a0.look(o); }
        E::Arr(a0) => { o.variant = 1; a0.look(o); }
        E::Two(a0) => { o.variant = 2; a0.look(o); }
        E::Big(a0) => { o.variant = 3; a0.look(o); }
        E::Rec { f0, f1 } => { o.variant = 4; f0.look(o); f1.look(o); }
        E::Tt(a0, a1) => { o.variant = 5; a0.look(o); a1.look(o); }
        E::Ob(a0) => { o.variant = 6; a0.look(o); }
        E::Oc(a0, a1) => { o.variant = 7; a0.look(o); a1.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(Option<Tok>)]),
        1 => shape(&[sa!([Tok; 4])]),
        2 => shape(&[sa!((Tok, u8))]),
        3 => shape(&[sa!([TokS; 31])]),
        4 => shape(&[sa!(Option<TokS>), sa!([Tok; 2])]),
        5 => shape(&[sa!((TokS, Tok)), sa!(u8)]),
        6 => shape(&[sa!(Option<bool>)]),
        _ => shape(&[sa!(Option<char>), sa!(Option<u8>)]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::Opt(a0) => call(move || C::from(a0)),
        E::Arr(a0) => call(move || C::from(a0)),
        E::Two(a0) => call(move || C::from(a0)),
        E::Big(a0) => call(move || C::from(a0)),
        E::Tt(a0, a1) => call(move || C::from((a0, a1))),
        E::Ob(a0) => call(move || C::from(a0)),
        E::Oc(a0, a1) => call(move || C::from((a0, a1))),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        0 => Some(poke_as::<E, Option<Tok>>(tb, g, how)),
        1 => Some(poke_as::<E, [Tok; 4]>(tb, g, how)),
        2 => Some(poke_as::<E, (Tok, u8)>(tb, g, how)),
        3 => Some(poke_as::<E, [TokS; 31]>(tb, g, how)),
        6 => Some(poke_as::<E, Option<bool>>(tb, g, how)),
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, ord, dbg);
}
pub mod w20 {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        V0(By<1>, u8),
        V1((By<2>, Tok)),
        V2((By<3>, Tok)),
        V3(By<4>, u8),
        V4((By<5>, Tok)),
        V5((By<6>, Tok)),
        V6(By<7>, u8),
        V7((By<8>, Tok)),
        V8((By<9>, Tok)),
        V9(By<10>, u8),
        V10((By<11>, Tok)),
        V11((By<12>, Tok)),
        V12(By<13>, u8),
        V13((By<14>, Tok)),
        V14((By<15>, Tok)),
        V15(By<16>, u8),
        V16((By<17>, Tok)),
        V17((By<18>, Tok)),
        V18,
        V19(u64),
    }
}
impl Enu for E {
    const NAME: &'static str = "w20";
    const NVAR: usize = 20;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::V0(<By<1>>::make(g), <u8>::make(g)),
        1 => E::V1(<(By<2>, Tok)>::make(g)),
        2 => E::V2(<(By<3>, Tok)>::make(g)),
        3 => E::V3(<By<4>>::make(g), <u8>::make(g)),
        4 => E::V4(<(By<5>, Tok)>::make(g)),
        5 => E::V5(<(By<6>, Tok)>::make(g)),
        6 => E::V6(<By<7>>::make(g), <u8>::make(g)),
        7 => E::V7(<(By<8>, Tok)>::make(g)),
        8 => E::V8(<(By<9>, Tok)>::make(g)),
        9 => E::V9(<By<10>>::make(g), <u8>::make(g)),
        10 => E::V10(<(By<11>, Tok)>::make(g)),
        11 => E::V11(<(By<12>, Tok)>::make(g)),
        12 => E::V12(<By<13>>::make(g), <u8>::make(g)),
        13 => E::V13(<(By<14>, Tok)>::make(g)),
        14 => E::V14(<(By<15>, Tok)>::make(g)),
        15 => E::V15(<By<16>>::make(g), <u8>::make(g)),
        16 => E::V16(<(By<17>, Tok)>::make(g)),
        17 => E::V17(<(By<18>, Tok)>::make(g)),
        18 => E::V18,
        _ => E::V19(<u64>::make(g)),
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::V0(a0, a1) => { o.variant = 0; a0.look(o); a1.look(o); }
        E::V1(a0) => { o.variant = 1; a0.look(o); }
        E::V2(a0) => { o.variant = 2; a0.look(o); }
        E::V3(a0, a1) => { o.variant = 3; a0.look(o); a1.look(o); }
        E::V4(a0) => { o.variant = 4; a0.look(o); }
        E::V5(a0) => { o.variant = 5; a0.look(o); }
        E::V6(a0, a1) => { o.variant = 6; a0.look(o); a1.look(o); }
        E::V7(a0) => { o.variant = 7; a0.look(o); }
        E::V8(a0) => { o.variant = 8; a0.look(o); }
        E::V9(a0, a1) => { o.variant = 9; a0.look(o); a1.look(o); }
        E::V10(a0) => { o.variant = 10; a0.look(o); }
        E::V11(a0) => { o.variant = 11; a0.look(o); }
        E::V12(a0, a1) => { o.variant = 12; a0.look(o); a1.look(o); }
        E::V13(a0) => { o.variant = 13; a0.look(o); }
        E::V14(a0) => { o.variant = 14; a0.look(o); }
        E::V15(a0, a1) => { o.variant = 15; a0.look(o); a1.look(o); }
        E::V16(a0) => { o.variant = 16; a0.look(o); }
        E::V17(a0) => { o.variant = 17; a0.look(o); }
        E::V18 => { o.variant = 18;  }
        E::V19(a0) => { o.variant = 19; a0.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(By<1>), sa!(u8)]),
        1 => shape(&[sa!((By<2>, Tok))]),
        2 => shape(&[sa!((By<3>, Tok))]),
        3 => shape(&[sa!(By<4>), sa!(u8)]),
        4 => shape(&[sa!((By<5>, Tok))]),
        5 => shape(&[sa!((By<6>, Tok))]),
        6 => shape(&[sa!(By<7>), sa!(u8)]),
        7 => shape(&[sa!((By<8>, Tok))]),
        8 => shape(&[sa!((By<9>, Tok))]),
        9 => shape(&[sa!(By<10>), sa!(u8)]),
        10 => shape(&[sa!((By<11>, Tok))]),
        11 => shape(&[sa!((By<12>, Tok))]),
        12 => shape(&[sa!(By<13>), sa!(u8)]),
        13 => shape(&[sa!((By<14>, Tok))]),
        14 => shape(&[sa!((By<15>, Tok))]),
        15 => shape(&[sa!(By<16>), sa!(u8)]),
        16 => shape(&[sa!((By<17>, Tok))]),
        17 => shape(&[sa!((By<18>, Tok))]),
        18 => shape(&[]),
        _ => shape(&[sa!(u64)]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::V0(a0, a1) => call(move || C::from((a0, a1))),
        E::V1(a0) => call(move || C::from(a0)),
        E::V2(a0) => call(move || C::from(a0)),
        E::V3(a0, a1) => call(move || C::from((a0, a1))),
        E::V4(a0) => call(move || C::from(a0)),
        E::V5(a0) => call(move || C::from(a0)),
        E::V6(a0, a1) => call(move || C::from((a0, a1))),
        E::V7(a0) => call(move || C::from(a0)),
        E::V8(a0) => call(move || C::from(a0)),
        E::V9(a0, a1) => call(move || C::from((a0, a1))),
        E::V10(a0) => call(move || C::from(a0)),
        E::V11(a0) => call(move || C::from(a0)),
        E::V12(a0, a1) => call(move || C::from((a0, a1))),
        E::V13(a0) => call(move || C::from(a0)),
        E::V14(a0) => call(move || C::from(a0)),
        E::V15(a0, a1) => call(move || C::from((a0, a1))),
        E::V16(a0) => call(move || C::from(a0)),
        E::V17(a0) => call(move || C::from(a0)),
        E::V19(a0) => call(move || C::from(a0)),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        1 => Some(poke_as::<E, (By<2>, Tok)>(tb, g, how)),
        2 => Some(poke_as::<E, (By<3>, Tok)>(tb, g, how)),
        4 => Some(poke_as::<E, (By<5>, Tok)>(tb, g, how)),
        5 => Some(poke_as::<E, (By<6>, Tok)>(tb, g, how)),
        7 => Some(poke_as::<E, (By<8>, Tok)>(tb, g, how)),
        8 => Some(poke_as::<E, (By<9>, Tok)>(tb, g, how)),
        10 => Some(poke_as::<E, (By<11>, Tok)>(tb, g, how)),
        11 => Some(poke_as::<E, (By<12>, Tok)>(tb, g, how)),
        13 => Some(poke_as::<E, (By<14>, Tok)>(tb, g, how)),
        14 => Some(poke_as::<E, (By<15>, Tok)>(tb, g, how)),
        16 => Some(poke_as::<E, (By<17>, Tok)>(tb, g, how)),
        17 => Some(poke_as::<E, (By<18>, Tok)>(tb, g, how)),
        19 => Some(poke_as::<E, u64>(tb, g, how)),
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, ord, dbg);
}
pub mod w40 {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq)]
    pub struct C, pub enum E {
        V0 { f0: By<1>, f1: TokS },
        V1(By<2>),
        V2 { f0: By<3>, f1: TokS },
        V3(By<4>),
        V4 { f0: By<5>, f1: TokS },
        V5(By<6>),
        V6 { f0: By<7>, f1: TokS },
        V7(By<8>),
        V8 { f0: By<9>, f1: TokS },
        V9(By<10>),
        V10 { f0: By<11>, f1: TokS },
        V11(By<12>),
        V12 { f0: By<13>, f1: TokS },
        V13(By<14>),
        V14 { f0: By<15>, f1: TokS },
        V15(By<16>),
        V16 { f0: By<17>, f1: TokS },
        V17(By<18>),
        V18 { f0: By<19>, f1: TokS },
        V19(By<20>),
        V20 { f0: By<21>, f1: TokS },
        V21(By<22>),
        V22 { f0: By<23>, f1: TokS },
        V23(By<24>),
        V24 { f0: By<25>, f1: TokS },
        V25(By<26>),
        V26 { f0: By<27>, f1: TokS },
        V27(By<28>),
        V28 { f0: By<29>, f1: TokS },
        V29(By<30>),
        V30 { f0: By<31>, f1: TokS },
        V31(By<32>),
        V32 { f0: By<33>, f1: TokS },
        V33(By<34>),
        V34 { f0: By<35>, f1: TokS },
        V35(By<36>),
        V36 { f0: By<37>, f1: TokS },
        V37(By<38>),
        V38,
        V39(Tok),
    }
}
impl Enu for E {
    const NAME: &'static str = "w40";
    const NVAR: usize = 40;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::V0 { f0: <By<1>>::make(g), f1: <TokS>::make(g) },
        1 => E::V1(<By<2>>::make(g)),
        2 => E::V2 { f0: <By<3>>::make(g), f1: <TokS>::make(g) },
        3 => E::V3(<By<4>>::make(g)),
        4 => E::V4 { f0: <By<5>>::make(g), f1: <TokS>::make(g) },
        5 => E::V5(<By<6>>::make(g)),
        6 => E::V6 { f0: <By<7>>::make(g), f1: <TokS>::make(g) },
        7 => E::V7(<By<8>>::make(g)),
        8 => E::V8 { f0: <By<9>>::make(g), f1: <TokS>::make(g) },
        9 => E::V9(<By<10>>::make(g)),
        10 => E::V10 { f0: <By<11>>::make(g), f1: <TokS>::make(g) },
        11 => E::V11(<By<12>>::make(g)),
        12 => E::V12 { f0: <By<13>>::make(g), f1: <TokS>::make(g) },
        13 => E::V13(<By<14>>::make(g)),
        14 => E::V14 { f0: <By<15>>::make(g), f1: <TokS>::make(g) },
        15 => E::V15(<By<16>>::make(g)),
        16 => E::V16 { f0: <By<17>>::make(g), f1: <TokS>::make(g) },
        17 => E::V17(<By<18>>::make(g)),
        18 => E::V18 { f0: <By<19>>::make(g), f1: <TokS>::make(g) },
        19 => E::V19(<By<20>>::make(g)),
        20 => E::V20 { f0: <By<21>>::make(g), f1: <TokS>::make(g) },
        21 => E::V21(<By<22>>::make(g)),
        22 => E::V22 { f0: <By<23>>::make(g), f1: <TokS>::make(g) },
        23 => E::V23(<By<24>>::make(g)),
        24 => E::V24 { f0: <By<25>>::make(g), f1: <TokS>::make(g) },
        25 => E::V25(<By<26>>::make(g)),
        26 => E::V26 { f0: <By<27>>::make(g), f1: <TokS>::make(g) },
        27 => E::V27(<By<28>>::make(g)),
        28 => E::V28 { f0: <By<29>>::make(g), f1: <TokS>::make(g) },
        29 => E::V29(<By<30>>::make(g)),
        30 => E::V30 { f0: <By<31>>::make(g), f1: <TokS>::make(g) },
        31 => E::V31(<By<32>>::make(g)),
        32 => E::V32 { f0: <By<33>>::make(g), f1: <TokS>::make(g) },
        33 => E::V33(<By<34>>::make(g)),
        34 => E::V34 { f0: <By<35>>::make(g), f1: <TokS>::make(g) },
        35 => E::V35(<By<36>>::make(g)),
        36 => E::V36 { f0: <By<37>>::make(g), f1: <TokS>::make(g) },
        37 => E::V37(<By<38>>::make(g)),
        38 => E::V38,
        _ => E::V39(<Tok>::make(g)),
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::V0 { f0, f1 } => { o.variant = 0; f0.look(o); f1.look(o); }
        E::V1(a0) => { o.variant = 1; a0.look(o); }
        E::V2 { f0, f1 } => { o.variant = 2; f0.look(o); f1.look(o); }
        E::V3(a0) => { o.variant = 3; a0.look(o); }
        E::V4 { f0, f1 } => { o.variant = 4; f0.look(o); f1.look(o); }
        E::V5(a0) => { o.variant = 5; a0.look(o); }
        E::V6 { f0, f1 } => { o.variant = 6; f0.look(o); f1.look(o); }
        E::V7(a0) => { o.variant = 7; a0.look(o); }
        E::V8 { f0, f1 } => { o.variant = 8; f0.look(o); f1.look(o); }
        E::V9(a0) => { o.variant = 9; a0.look(o); }
        E::V10 { f0, f1 } => { o.variant = 10; f0.look(o); f1.look(o); }
        E::V11(a0) => { o.variant = 11; a0.look(o); }
        E::V12 { f0, f1 } => { o.variant = 12; f0.look(o); f1.look(o); }
        E::V13(a0) => { o.variant = 13; a0.look(o); }
        E::V14 { f0, f1 } => { o.variant = 14; f0.look(o); f1.look(o); }
        E::V15(a0) => { o.variant = 15; a0.look(o); }
        E::V16 { f0, f1 } => { o.variant = 16; f0.look(o); f1.look(o); }
        E::V17(a0) => { o.variant = 17; a0.look(o); }
        E::V18 { f0, f1 } => { o.variant = 18; f0.look(o); f1.look(o); }
        E::V19(a0) => { o.variant = 19; a0.look(o); }
        E::V20 { f0, f1 } => { o.variant = 20; f0.look(o); f1.look(o); }
        E::V21(a0) => { o.variant = 21; a0.look(o); }
        E::V22 { f0, f1 } => { o.variant = 22; f0.look(o); f1.look(o); }
        E::V23(a0) => { o.variant = 23; a0.look(o); }
        E::V24 { f0, f1 } => { o.variant = 24; f0.look(o); f1.look(o); }
        E::V25(a0) => { o.variant = 25; a0.look(o); }
        E::V26 { f0, f1 } => { o.variant = 26; f0.look(o); f1.look(o); }
        E::V27(a0) => { o.variant = 27; a0.look(o); }
        E::V28 { f0, f1 } => { o.variant = 28; f0.look(o); f1.look(o); }
        E::V29(a0) => { o.variant = 29; a0.look(o); }
        E::V30 { f0, f1 } => { o.variant = 30; f0.look(o); f1.look(o); }
        E::V31(a0) => { o.variant = 31; a0.look(o); }
        E::V32 { f0, f1 } => { o.variant = 32; f0.look(o); f1.look(o); }
        E::V33(a0) => { o.variant = 33; a0.look(o); }
        E::V34 { f0, f1 } => { o.variant = 34; f0.look(o); f1.look(o); }
        E::V35(a0) => { o.variant = 35; a0.look(o); }
        E::V36 { f0, f1 } => { o.variant = 36; f0.look(o); f1.look(o); }
        E::V37(a0) => { o.variant = 37; a0.look(o); }
        E::V38 => { o.variant = 38;  }
        E::V39(a0) => { o.variant = 39; a0.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(By<1>), sa!(TokS)]),
        1 => shape(&[sa!(By<2>)]),
        2 => shape(&[sa!(By<3>), sa!(TokS)]),
        3 => shape(&[sa!(By<4>)]),
        4 => shape(&[sa!(By<5>), sa!(TokS)]),
        5 => shape(&[sa!(By<6>)]),
        6 => shape(&[sa!(By<7>), sa!(TokS)]),
        7 => shape(&[sa!(By<8>)]),
        8 => shape(&[sa!(By<9>), sa!(TokS)]),
        9 => shape(&[sa!(By<10>)]),
        10 => shape(&[sa!(By<11>), sa!(TokS)]),
        11 => shape(&[sa!(By<12>)]),
        12 => shape(&[sa!(By<13>), sa!(TokS)]),
        13 => shape(&[sa!(By<14>)]),
        14 => shape(&[sa!(By<15>), sa!(TokS)]),
        15 => shape(&[sa!(By<16>)]),
        16 => shape(&[sa!(By<17>), sa!(TokS)]),
        17 => shape(&[sa!(By<18>)]),
        18 => shape(&[sa!(By<19>), sa!(TokS)]),
        19 => shape(&[sa!(By<20>)]),
        20 => shape(&[sa!(By<21>), sa!(TokS)]),
        21 => shape(&[sa!(By<22>)]),
        22 => shape(&[sa!(By<23>), sa!(TokS)]),
        23 => shape(&[sa!(By<24>)]),
        24 => shape(&[sa!(By<25>), sa!(TokS)]),
        25 => shape(&[sa!(By<26>)]),
        26 => shape(&[sa!(By<27>), sa!(TokS)]),
        27 => shape(&[sa!(By<28>)]),
        28 => shape(&[sa!(By<29>), sa!(TokS)]),
        29 => shape(&[sa!(By<30>)]),
        30 => shape(&[sa!(By<31>), sa!(TokS)]),
        31 => shape(&[sa!(By<32>)]),
        32 => shape(&[sa!(By<33>), sa!(TokS)]),
        33 => shape(&[sa!(By<34>)]),
        34 => shape(&[sa!(By<35>), sa!(TokS)]),
        35 => shape(&[sa!(By<36>)]),
        36 => shape(&[sa!(By<37>), sa!(TokS)]),
        37 => shape(&[sa!(By<38>)]),
        38 => shape(&[]),
        _ => shape(&[sa!(Tok)]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::V1(a0) => call(move || C::from(a0)),
        E::V3(a0) => call(move || C::from(a0)),
        E::V5(a0) => call(move || C::from(a0)),
        E::V7(a0) => call(move || C::from(a0)),
        E::V9(a0) => call(move || C::from(a0)),
        E::V11(a0) => call(move || C::from(a0)),
        E::V13(a0) => call(move || C::from(a0)),
        E::V15(a0) => call(move || C::from(a0)),
        E::V17(a0) => call(move || C::from(a0)),
        E::V19(a0) => call(move || C::from(a0)),
        E::V21(a0) => call(move || C::from(a0)),
        E::V23(a0) => call(move || C::from(a0)),
        E::V25(a0) => call(move || C::from(a0)),
        E::V27(a0) => call(move || C::from(a0)),
        E::V29(a0) => call(move || C::from(a0)),
        E::V31(a0) => call(move || C::from(a0)),
        E::V33(a0) => call(move || C::from(a0)),
        E::V35(a0) => call(move || C::from(a0)),
        E::V37(a0) => call(move || C::from(a0)),
        E::V39(a0) => call(move || C::from(a0)),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        1 => Some(poke_as::<E, By<2>>(tb, g, how)),
        3 => Some(poke_as::<E, By<4>>(tb, g, how)),
        5 => Some(poke_as::<E, By<6>>(tb, g, how)),
        7 => Some(poke_as::<E, By<8>>(tb, g, how)),
        9 => Some(poke_as::<E, By<10>>(tb, g, how)),
        11 => Some(poke_as::<E, By<12>>(tb, g, how)),
        13 => Some(poke_as::<E, By<14>>(tb, g, how)),
        15 => Some(poke_as::<E, By<16>>(tb, g, how)),
        17 => Some(poke_as::<E, By<18>>(tb, g, how)),
        19 => Some(poke_as::<E, By<20>>(tb, g, how)),
        21 => Some(poke_as::<E, By<22>>(tb, g, how)),
        23 => Some(poke_as::<E, By<24>>(tb, g, how)),
        25 => Some(poke_as::<E, By<26>>(tb, g, how)),
        27 => Some(poke_as::<E, By<28>>(tb, g, how)),
        29 => Some(poke_as::<E, By<30>>(tb, g, how)),
        31 => Some(poke_as::<E, By<32>>(tb, g, how)),
        33 => Some(poke_as::<E, By<34>>(tb, g, how)),
        35 => Some(poke_as::<E, By<36>>(tb, g, how)),
        37 => Some(poke_as::<E, By<38>>(tb, g, how)),
        39 => Some(poke_as::<E, Tok>(tb, g, how)),
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, eq, dbg);
}
#[cfg(feature = "w256")]
pub mod w256 {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq)]
    pub struct C, pub enum E {
        V0(By<1>, TokS),
        V1,
        V2,
        V3(By<4>),
        V4,
        V5,
        V6,
        V7,
        V8,
        V9,
        V10,
        V11,
        V12,
        V13,
        V14,
        V15(By<16>, TokS),
        V16(By<17>, TokS),
        V17,
        V18,
        V19(By<20>),
        V20,
        V21,
        V22,
        V23,
        V24,
        V25,
        V26,
        V27,
        V28,
        V29,
        V30,
        V31,
        V32,
        V33,
        V34,
        V35(By<36>),
        V36,
        V37,
        V38,
        V39,
        V40,
        V41,
        V42,
        V43,
        V44,
        V45,
        V46,
        V47,
        V48,
        V49,
        V50,
        V51(By<52>),
        V52,
        V53,
        V54,
        V55,
        V56,
        V57,
        V58,
        V59,
        V60,
        V61,
        V62,
        V63,
        V64,
        V65,
        V66,
        V67(By<68>),
        V68,
        V69,
        V70,
        V71,
        V72,
        V73,
        V74,
        V75,
        V76,
        V77,
        V78,
        V79,
        V80,
        V81,
        V82,
        V83(By<84>),
        V84,
        V85,
        V86,
        V87,
        V88,
        V89,
        V90,
        V91,
        V92,
        V93,
        V94,
        V95,
        V96,
        V97,
        V98,
        V99(By<100>),
        V100,
        V101,
        V102,
        V103,
        V104,
        V105,
        V106,
        V107,
        V108,
        V109,
        V110,
        V111,
        V112,
        V113,
        V114,
        V115(By<116>),
        V116,
        V117,
        V118,
        V119,
        V120,
        V121,
        V122,
        V123,
        V124,
        V125,
        V126,
        V127(By<128>, TokS),
        V128(By<129>, TokS),
        V129,
        V130,
        V131(By<132>),
        V132,
        V133,
        V134,
        V135,
        V136,
        V137,
        V138,
        V139,
        V140,
        V141,
        V142,
        V143,
        V144,
        V145,
        V146,
        V147(By<148>),
        V148,
        V149,
        V150,
        V151,
        V152,
        V153,
        V154,
        V155,
        V156,
        V157,
        V158,
        V159,
        V160,
        V161,
        V162,
        V163(By<164>),
        V164,
        V165,
        V166,
        V167,
        V168,
        V169,
        V170,
        V171,
        V172,
        V173,
        V174,
        V175,
        V176,
        V177,
        V178,
        V179(By<180>),
        V180,
        V181,
        V182,
        V183,
        V184,
        V185,
        V186,
        V187,
        V188,
        V189,
        V190,
        V191,
        V192,
        V193,
        V194,
        V195(By<196>),
        V196,
        V197,
        V198,
        V199,
        V200,
        V201,
        V202,
        V203,
        V204,
        V205,
        V206,
        V207,
        V208,
        V209,
        V210,
        V211(By<212>),
        V212,
        V213,
        V214,
        V215,
        V216,
        V217,
        V218,
        V219,
        V220,
        V221,
        V222,
        V223,
        V224,
        V225,
        V226,
        V227(By<228>),
        V228,
        V229,
        V230,
        V231,
        V232,
        V233,
        V234,
        V235,
        V236,
        V237,
        V238,
        V239,
        V240,
        V241,
        V242,
        V243(By<244>),
        V244,
        V245,
        V246,
        V247,
        V248,
        V249,
        V250,
        V251,
        V252,
        V253,
        V254,
        V255(By<256>, TokS),
    }
}
impl Enu for E {
    const NAME: &'static str = "w256";
    const NVAR: usize = 256;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::V0(<By<1>>::make(g), <TokS>::make(g)),
        1 => E::V1,
        2 => E::V2,
        3 => E::V3(<By<4>>::make(g)),
        4 => E::V4,
        5 => E::V5,
        6 => E::V6,
        7 => E::V7,
        8 => E::V8,
        9 => E::V9,
        10 => E::V10,
        11 => E::V11,
        12 => E::V12,
        13 => E::V13,
        14 => E::V14,
        15 => E::V15(<By<16>>::make(g), <TokS>::make(g)),
        16 => E::V16(<By<17>>::make(g), <TokS>::make(g)),
        17 => E::V17,
        18 => E::V18,
        19 => E::V19(<By<20>>::make(g)),
        20 => E::V20,
        21 => E::V21,
        22 => E::V22,
        23 => E::V23,
        24 => E::V24,
        25 => E::V25,
        26 => E::V26,
        27 => E::V27,
        28 => E::V28,
        29 => E::V29,
        30 => E::V30,
        31 => E::V31,
        32 => E::V32,
        33 => E::V33,
        34 => E::V34,
        35 => E::V35(<By<36>>::make(g)),
        36 => E::V36,
        37 => E::V37,
        38 => E::V38,
        39 => E::V39,
        40 => E::V40,
        41 => E::V41,
        42 => E::V42,
        43 => E::V43,
        44 => E::V44,
        45 => E::V45,
        46 => E::V46,
        47 => E::V47,
        48 => E::V48,
        49 => E::V49,
        50 => E::V50,
        51 => E::V51(<By<52>>::make(g)),
        52 => E::V52,
        53 => E::V53,
        54 => E::V54,
        55 => E::V55,
        56 => E::V56,
        57 => E::V57,
        58 => E::V58,
        59 => E::V59,
        60 => E::V60,
        61 => E::V61,
        62 => E::V62,
        63 => E::V63,
        64 => E::V64,
        65 => E::V65,
        66 => E::V66,
        67 => E::V67(<By<68>>::make(g)),
        68 => E::V68,
        69 => E::V69,
        70 => E::V70,
        71 => E::V71,
        72 => E::V72,
        73 => E::V73,
        74 => E::V74,
        75 => E::V75,
        76 => E::V76,
        77 => E::V77,
        78 => E::V78,
        79 => E::V79,
        80 => E::V80,
        81 => E::V81,
        82 => E::V82,
        83 => E::V83(<By<84>>::make(g)),
        84 => E::V84,
        85 => E::V85,
        86 => E::V86,
        87 => E::V87,
        88 => E::V88,
        89 => E::V89,
        90 => E::V90,
        91 => E::V91,
        92 => E::V92,
        93 => E::V93,
        94 => E::V94,
        95 => E::V95,
        96 => E::V96,
        97 => E::V97,
        98 => E::V98,
        99 => E::V99(<By<100>>::make(g)),
        100 => E::V100,
        101 => E::V101,
        102 => E::V102,
        103 => E::V103,
        104 => E::V104,
        105 => E::V105,
        106 => E::V106,
        107 => E::V107,
        108 => E::V108,
        109 => E::V109,
        110 => E::V110,
        111 => E::V111,
        112 => E::V112,
        113 => E::V113,
        114 => E::V114,
        115 => E::V115(<By<116>>::make(g)),
        116 => E::V116,
        117 => E::V117,
        118 => E::V118,
        119 => E::V119,
        120 => E::V120,
        121 => E::V121,
        122 => E::V122,
        123 => E::V123,
        124 => E::V124,
        125 => E::V125,
        126 => E::V126,
        127 => E::V127(<By<128>>::make(g), <TokS>::make(g)),
        128 => E::V128(<By<129>>::make(g), <TokS>::make(g)),
        129 => E::V129,
        130 => E::V130,
        131 => E::V131(<By<132>>::make(g)),
        132 => E::V132,
        133 => E::V133,
        134 => E::V134,
        135 => E::V135,
        136 => E::V136,
        137 => E::V137,
        138 => E::V138,
        139 => E::V139,
        140 => E::V140,
        141 => E::V141,
        142 => E::V142,
        143 => E::V143,
        144 => E::V144,
        145 => E::V145,
        146 => E::V146,
        147 => E::V147(<By<148>>::make(g)),
        148 => E::V148,
        149 => E::V149,
        150 => E::V150,
        151 => E::V151,
        152 => E::V152,
        153 => E::V153,
        154 => E::V154,
        155 => E::V155,
        156 => E::V156,
        157 => E::V157,
        158 => E::V158,
        159 => E::V159,
        160 => E::V160,
        161 => E::V161,
        162 => E::V162,
        163 => E::V163(<By<164>>::make(g)),
        164 => E::V164,
        165 => E::V165,
        166 => E::V166,
        167 => E::V167,
        168 => E::V168,
        169 => E::V169,
        170 => E::V170,
        171 => E::V171,
        172 => E::V172,
        173 => E::V173,
        174 => E::V174,
        175 => E::V175,
        176 => E::V176,
        177 => E::V177,
        178 => E::V178,
        179 => E::V179(<By<180>>::make(g)),
        180 => E::V180,
        181 => E::V181,
        182 => E::V182,
        183 => E::V183,
        184 => E::V184,
        185 => E::V185,
        186 => E::V186,
        187 => E::V187,
        188 => E::V188,
        189 => E::V189,
        190 => E::V190,
        191 => E::V191,
        192 => E::V192,
        193 => E::V193,
        194 => E::V194,
        195 => E::V195(<By<196>>::make(g)),
        196 => E::V196,
        197 => E::V197,
        198 => E::V198,
        199 => E::V199,
        200 => E::V200,
        201 => E::V201,
        202 => E::V202,
        203 => E::V203,
        204 => E::V204,
        205 => E::V205,
        206 => E::V206,
        207 => E::V207,
        208 => E::V208,
        209 => E::V209,
        210 => E::V210,
        211 => E::V211(<By<212>>::make(g)),
        212 => E::V212,
        213 => E::V213,
        214 => E::V214,
        215 => E::V215,
        216 => E::V216,
        217 => E::V217,
        218 => E::V218,
        219 => E::V219,
        220 => E::V220,
        221 => E::V221,
        222 => E::V222,
        223 => E::V223,
        224 => E::V224,
        225 => E::V225,
        226 => E::V226,
        227 => E::V227(<By<228>>::make(g)),
        228 => E::V228,
        229 => E::V229,
        230 => E::V230,
        231 => E::V231,
        232 => E::V232,
        233 => E::V233,
        234 => E::V234,
        235 => E::V235,
        236 => E::V236,
        237 => E::V237,
        238 => E::V238,
        239 => E::V239,
        240 => E::V240,
        241 => E::V241,
        242 => E::V242,
        243 => E::V243(<By<244>>::make(g)),
        244 => E::V244,
        245 => E::V245,
        246 => E::V246,
        247 => E::V247,
        248 => E::V248,
        249 => E::V249,
        250 => E::V250,
        251 => E::V251,
        252 => E::V252,
        253 => E::V253,
        254 => E::V254,
        _ => E::V255(<By<256>>::make(g), <TokS>::make(g)),
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::V0(a0, a1) => { o.variant = 0; a0.look(o); a1.look(o); }
        E::V1 => { o.variant = 1;  }
        E::V2 => { o.variant = 2;  }
        E::V3(a0) => { o.variant = 3; a0.look(o); }
        E::V4 => { o.variant = 4;  }
        E::V5 => { o.variant = 5;  }
        E::V6 => { o.variant = 6;  }
        E::V7 => { o.variant = 7;  }
        E::V8 => { o.variant = 8;  }
        E::V9 => { o.variant = 9;  }
        E::V10 => { o.variant = 10;  }
        E::V11 => { o.variant = 11;  }
        E::V12 => { o.variant = 12;  }
        E::V13 => { o.variant = 13;  }
        E::V14 => { o.variant = 14;  }
        E::V15(a0, a1) => { o.variant = 15; a0.look(o); a1.look(o); }
        E::V16(a0, a1) => { o.variant = 16; a0.look(o); a1.look(o); }
        E::V17 => { o.variant = 17;  }
        E::V18 => { o.variant = 18;  }
        E::V19(a0) => { o.variant = 19; a0.look(o); }
        E::V20 => { o.variant = 20;  }
        E::V21 => { o.variant = 21;  }
        E::V22 => { o.variant = 22;  }
        E::V23 => { o.variant = 23;  }
        E::V24 => { o.variant = 24;  }
        E::V25 => { o.variant = 25;  }
        E::V26 => { o.variant = 26;  }
        E::V27 => { o.variant = 27;  }
        E::V28 => { o.variant = 28;  }
        E::V29 => { o.variant = 29;  }
        E::V30 => { o.variant = 30;  }
        E::V31 => { o.variant = 31;  }
        E::V32 => { o.variant = 32;  }
        E::V33 => { o.variant = 33;  }
        E::V34 => { o.variant = 34;  }
        E::V35(a0) => { o.variant = 35; a0.look(o); }
        E::V36 => { o.variant = 36;  }
        E::V37 => { o.variant = 37;  }
        E::V38 => { o.variant = 38;  }
        E::V39 => { o.variant = 39;  }
        E::V40 => { o.variant = 40;  }
        E::V41 => { o.variant = 41;  }
        E::V42 => { o.variant = 42;  }
        E::V43 => { o.variant = 43;  }
        E::V44 => { o.variant = 44;  }
        E::V45 => { o.variant = 45;  }
        E::V46 => { o.variant = 46;  }
        E::V47 => { o.variant = 47;  }
        E::V48 => { o.variant = 48;  }
        E::V49 => { o.variant = 49;  }
        E::V50 => { o.variant = 50;  }
        E::V51(a0) => { o.variant = 51; a0.look(o); }
        E::V52 => { o.variant = 52;  }
        E::V53 => { o.variant = 53;  }
        E::V54 => { o.variant = 54;  }
        E::V55 => { o.variant = 55;  }
        E::V56 => { o.variant = 56;  }
        E::V57 => { o.variant = 57;  }
        E::V58 => { o.variant = 58;  }
        E::V59 => { o.variant = 59;  }
        E::V60 => { o.variant = 60;  }
        E::V61 => { o.variant = 61;  }
        E::V62 => { o.variant = 62;  }
        E::V63 => { o.variant = 63;  }
        E::V64 => { o.variant = 64;  }
        E::V65 => { o.variant = 65;  }
        E::V66 => { o.variant = 66;  }
        E::V67(a0) => { o.variant = 67; a0.look(o); }
        E::V68 => { o.variant = 68;  }
        E::V69 => { o.variant = 69;  }
        E::V70 => { o.variant = 70;  }
        E::V71 => { o.variant = 71;  }
        E::V72 => { o.variant = 72;  }
        E::V73 => { o.variant = 73;  }
        E::V74 => { o.variant = 74;  }
        E::V75 => { o.variant = 75;  }
        E::V76 => { o.variant = 76;  }
        E::V77 => { o.variant = 77;  }
        E::V78 => { o.variant = 78;  }
        E::V79 => { o.variant = 79;  }
        E::V80 => { o.variant = 80;  }
        E::V81 => { o.variant = 81;  }
        E::V82 => { o.variant = 82;  }
        E::V83(a0) => { o.variant = 83; a0.look(o); }
        E::V84 => { o.variant = 84;  }
        E::V85 => { o.variant = 85;  }
        E::V86 => { o.variant = 86;  }
        E::V87 => { o.variant = 87;  }
        E::V88 => { o.variant = 88;  }
        E::V89 => { o.variant = 89;  }
        E::V90 => { o.variant = 90;  }
        E::V91 => { o.variant = 91;  }
        E::V92 => { o.variant = 92;  }
        E::V93 => { o.variant = 93;  }
        E::V94 => { o.variant = 94;  }
        E::V95 => { o.variant = 95;  }
        E::V96 => { o.variant = 96;  }
        E::V97 => { o.variant = 97;  }
        E::V98 => { o.variant = 98;  }
        E::V99(a0) => { o.variant = 99; a0.look(o); }
        E::V100 => { o.variant = 100;  }
        E::V101 => { o.variant = 101;  }
        E::V102 => { o.variant = 102;  }
        E::V103 => { o.variant = 103;  }
        E::V104 => { o.variant = 104;  }
        E::V105 => { o.variant = 105;  }
        E::V106 => { o.variant = 106;  }
        E::V107 => { o.variant = 107;  }
        E::V108 => { o.variant = 108;  }
        E::V109 => { o.variant = 109;  }
        E::V110 => { o.variant = 110;  }
        E::V111 => { o.variant = 111;  }
        E::V112 => { o.variant = 112;  }
        E::V113 => { o.variant = 113;  }
        E::V114 => { o.variant = 114;  }
        E::V115(a0) => { o.variant = 115; a0.look(o); }
        E::V116 => { o.variant = 116;  }
        E::V117 => { o.variant = 117;  }
        E::V118 => { o.variant = 118;  }
        E::V119 => { o.variant = 119;  }
        E::V120 => { o.variant = 120;  }
        E::V121 => { o.variant = 121;  }
        E::V122 => { o.variant = 122;  }
        E::V123 => { o.variant = 123;  }
        E::V124 => { o.variant = 124;  }
        E::V125 => { o.variant = 125;  }
        E::V126 => { o.variant = 126;  }
        E::V127(a0, a1) => { o.variant = 127; a0.look(o); a1.look(o); }
        E::V128(a0, a1) => { o.variant = 128; a0.look(o); a1.look(o); }
        E::V129 => { o.variant = 129;  }
        E::V130 => { o.variant = 130;  }
        E::V131(a0) => { o.variant = 131; a0.look(o); }
        E::V132 => { o.variant = 132;  }
        E::V133 => { o.variant = 133;  }
        E::V134 => { o.variant = 134;  }
        E::V135 => { o.variant = 135;  }
        E::V136 => { o.variant = 136;  }
        E::V137 => { o.variant = 137;  }
        E::V138 => { o.variant = 138;  }
        E::V139 => { o.variant = 139;  }
        E::V140 => { o.variant = 140;  }
        E::V141 => { o.variant = 141;  }
        E::V142 => { o.variant = 142;  }
        E::V143 => { o.variant = 143;  }
        E::V144 => { o.variant = 144;  }
        E::V145 => { o.variant = 145;  }
        E::V146 => { o.variant = 146;  }
        E::V147(a0) => { o.variant = 147; a0.look(o); }
        E::V148 => { o.variant = 148;  }
        E::V149 => { o.variant = 149;  }
        E::V150 => { o.variant = 150;  }
        E::V151 => { o.variant = 151;  }
        E::V152 => { o.variant = 152;  }
        E::V153 => { o.variant = 153;  }
        E::V154 => { o.variant = 154;  }
        E::V155 => { o.variant = 155;  }
        E::V156 => { o.variant = 156;  }
        E::V157 => { o.variant = 157;  }
        E::V158 => { o.variant = 158;  }
        E::V159 => { o.variant = 159;  }
        E::V160 => { o.variant = 160;  }
        E::V161 => { o.variant = 161;  }
        E::V162 => { o.variant = 162;  }
        E::V163(a0) => { o.variant = 163; a0.look(o); }
        E::V164 => { o.variant = 164;  }
        E::V165 => { o.variant = 165;  }
        E::V166 => { o.variant = 166;  }
        E::V167 => { o.variant = 167;  }
        E::V168 => { o.variant = 168;  }
        E::V169 => { o.variant = 169;  }
        E::V170 => { o.variant = 170;  }
        E::V171 => { o.variant = 171;  }
        E::V172 => { o.variant = 172;  }
        E::V173 => { o.variant = 173;  }
        E::V174 => { o.variant = 174;  }
        E::V175 => { o.variant = 175;  }
        E::V176 => { o.variant = 176;  }
        E::V177 => { o.variant = 177;  }
        E::V178 => { o.variant = 178;  }
        E::V179(a0) => { o.variant = 179; a0.look(o); }
        E::V180 => { o.variant = 180;  }
        E::V181 => { o.variant = 181;  }
        E::V182 => { o.variant = 182;  }
        E::V183 => { o.variant = 183;  }
        E::V184 => { o.variant = 184;  }
        E::V185 => { o.variant = 185;  }
        E::V186 => { o.variant = 186;  }
        E::V187 => { o.variant = 187;  }
        E::V188 => { o.variant = 188;  }
        E::V189 => { o.variant = 189;  }
        E::V190 => { o.variant = 190;  }
        E::V191 => { o.variant = 191;  }
        E::V192 => { o.variant = 192;  }
        E::V193 => { o.variant = 193;  }
        E::V194 => { o.variant = 194;  }
        E::V195(a0) => { o.variant = 195; a0.look(o); }
        E::V196 => { o.variant = 196;  }
        E::V197 => { o.variant = 197;  }
        E::V198 => { o.variant = 198;  }
        E::V199 => { o.variant = 199;  }
        E::V200 => { o.variant = 200;  }
        E::V201 => { o.variant = 201;  }
        E::V202 => { o.variant = 202;  }
        E::V203 => { o.variant = 203;  }
        E::V204 => { o.variant = 204;  }
        E::V205 => { o.variant = 205;  }
        E::V206 => { o.variant = 206;  }
        E::V207 => { o.variant = 207;  }
        E::V208 => { o.variant = 208;  }
        E::V209 => { o.variant = 209;  }
        E::V210 => { o.variant = 210;  }
        E::V211(a0) => { o.variant = 211; a0.look(o); }
        E::V212 => { o.variant = 212;  }
        E::V213 => { o.variant = 213;  }
        E::V214 => { o.variant = 214;  }
        E::V215 => { o.variant = 215;  }
        E::V216 => { o.variant = 216;  }
        E::V217 => { o.variant = 217;  }
        E::V218 => { o.variant = 218;  }
        E::V219 => { o.variant = 219;  }
        E::V220 => { o.variant = 220;  }
        E::V221 => { o.variant = 221;  }
        E::V222 => { o.variant = 222;  }
        E::V223 => { o.variant = 223;  }
        E::V224 => { o.variant = 224;  }
        E::V225 => { o.variant = 225;  }
        E::V226 => { o.variant = 226;  }
        E::V227(a0) => { o.variant = 227; a0.look(o); }
        E::V228 => { o.variant = 228;  }
        E::V229 => { o.variant = 229;  }
        E::V230 => { o.variant = 230;  }
        E::V231 => { o.variant = 231;  }
        E::V232 => { o.variant = 232;  }
        E::V233 => { o.variant = 233;  }
        E::V234 => { o.variant = 234;  }
        E::V235 => { o.variant = 235;  }
        E::V236 => { o.variant = 236;  }
        E::V237 => { o.variant = 237;  }
        E::V238 => { o.variant = 238;  }
        E::V239 => { o.variant = 239;  }
        E::V240 => { o.variant = 240;  }
        E::V241 => { o.variant = 241;  }
        E::V242 => { o.variant = 242;  }
        E::V243(a0) => { o.variant = 243; a0.look(o); }
        E::V244 => { o.variant = 244;  }
        E::V245 => { o.variant = 245;  }
        E::V246 => { o.variant = 246;  }
        E::V247 => { o.variant = 247;  }
        E::V248 => { o.variant = 248;  }
        E::V249 => { o.variant = 249;  }
        E::V250 => { o.variant = 250;  }
        E::V251 => { o.variant = 251;  }
        E::V252 => { o.variant = 252;  }
        E::V253 => { o.variant = 253;  }
        E::V254 => { o.variant = 254;  }
        E::V255(a0, a1) => { o.variant = 255; a0.look(o); a1.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(By<1>), sa!(TokS)]),
        1 => shape(&[]),
        2 => shape(&[]),
        3 => shape(&[sa!(By<4>)]),
        4 => shape(&[]),
        5 => shape(&[]),
        6 => shape(&[]),
        7 => shape(&[]),
        8 => shape(&[]),
        9 => shape(&[]),
        10 => shape(&[]),
        11 => shape(&[]),
        12 => shape(&[]),
        13 => shape(&[]),
        14 => shape(&[]),
        15 => shape(&[sa!(By<16>), sa!(TokS)]),
        16 => shape(&[sa!(By<17>), sa!(TokS)]),
        17 => shape(&[]),
        18 => shape(&[]),
        19 => shape(&[sa!(By<20>)]),
        20 => shape(&[]),
        21 => shape(&[]),
        22 => shape(&[]),
        23 => shape(&[]),
        24 => shape(&[]),
        25 => shape(&[]),
        26 => shape(&[]),
        27 => shape(&[]),
        28 => shape(&[]),
        29 => shape(&[]),
        30 => shape(&[]),
        31 => shape(&[]),
        32 => shape(&[]),
        33 => shape(&[]),
        34 => shape(&[]),
        35 => shape(&[sa!(By<36>)]),
        36 => shape(&[]),
        37 => shape(&[]),
        38 => shape(&[]),
        39 => shape(&[]),
        40 => shape(&[]),
        41 => shape(&[]),
        42 => shape(&[]),
        43 => shape(&[]),
        44 => shape(&[]),
        45 => shape(&[]),
        46 => shape(&[]),
        47 => shape(&[]),
        48 => shape(&[]),
        49 => shape(&[]),
        50 => shape(&[]),
        51 => shape(&[sa!(By<52>)]),
        52 => shape(&[]),
        53 => shape(&[]),
        54 => shape(&[]),
        55 => shape(&[]),
        56 => shape(&[]),
        57 => shape(&[]),
        58 => shape(&[]),
        59 => shape(&[]),
        60 => shape(&[]),
        61 => shape(&[]),
        62 => shape(&[]),
        63 => shape(&[]),
        64 => shape(&[]),
        65 => shape(&[]),
        66 => shape(&[]),
        67 => shape(&[sa!(By<68>)]),
        68 => shape(&[]),
        69 => shape(&[]),
        70 => shape(&[]),
        71 => shape(&[]),
        72 => shape(&[]),
        73 => shape(&[]),
        74 => shape(&[]),
        75 => shape(&[]),
        76 => shape(&[]),
        77 => shape(&[]),
        78 => shape(&[]),
        79 => shape(&[]),
        80 => shape(&[]),
        81 => shape(&[]),
        82 => shape(&[]),
        83 => shape(&[sa!(By<84>)]),
        84 => shape(&[]),
        85 => shape(&[]),
        86 => shape(&[]),
        87 => shape(&[]),
        88 => shape(&[]),
        89 => shape(&[]),
        90 => shape(&[]),
        91 => shape(&[]),
        92 => shape(&[]),
        93 => shape(&[]),
        94 => shape(&[]),
        95 => shape(&[]),
        96 => shape(&[]),
        97 => shape(&[]),
        98 => shape(&[]),
        99 => shape(&[sa!(By<100>)]),
        100 => shape(&[]),
        101 => shape(&[]),
        102 => shape(&[]),
        103 => shape(&[]),
        104 => shape(&[]),
        105 => shape(&[]),
        106 => shape(&[]),
        107 => shape(&[]),
        108 => shape(&[]),
        109 => shape(&[]),
        110 => shape(&[]),
        111 => shape(&[]),
        112 => shape(&[]),
        113 => shape(&[]),
        114 => shape(&[]),
        115 => shape(&[sa!(By<116>)]),
        116 => shape(&[]),
        117 => shape(&[]),
        118 => shape(&[]),
        119 => shape(&[]),
        120 => shape(&[]),
        121 => shape(&[]),
        122 => shape(&[]),
        123 => shape(&[]),
        124 => shape(&[]),
        125 => shape(&[]),
        126 => shape(&[]),
        127 => shape(&[sa!(By<128>), sa!(TokS)]),
        128 => shape(&[sa!(By<129>), sa!(TokS)]),
        129 => shape(&[]),
        130 => shape(&[]),
        131 => shape(&[sa!(By<132>)]),
        132 => shape(&[]),
        133 => shape(&[]),
        134 => shape(&[]),
        135 => shape(&[]),
        136 => shape(&[]),
        137 => shape(&[]),
        138 => shape(&[]),
        139 => shape(&[]),
        140 => shape(&[]),
        141 => shape(&[]),
        142 => shape(&[]),
        143 => shape(&[]),
        144 => shape(&[]),
        145 => shape(&[]),
        146 => shape(&[]),
        147 => shape(&[sa!(By<148>)]),
        148 => shape(&[]),
        149 => shape(&[]),
        150 => shape(&[]),
        151 => shape(&[]),
        152 => shape(&[]),
        153 => shape(&[]),
        154 => shape(&[]),
        155 => shape(&[]),
        156 => shape(&[]),
        157 => shape(&[]),
        158 => shape(&[]),
        159 => shape(&[]),
        160 => shape(&[]),
        161 => shape(&[]),
        162 => shape(&[]),
        163 => shape(&[sa!(By<164>)]),
        164 => shape(&[]),
        165 => shape(&[]),
        166 => shape(&[]),
        167 => shape(&[]),
        168 => shape(&[]),
        169 => shape(&[]),
        170 => shape(&[]),
        171 => shape(&[]),
        172 => shape(&[]),
        173 => shape(&[]),
        174 => shape(&[]),
        175 => shape(&[]),
        176 => shape(&[]),
        177 => shape(&[]),
        178 => shape(&[]),
        179 => shape(&[sa!(By<180>)]),
        180 => shape(&[]),
        181 => shape(&[]),
        182 => shape(&[]),
        183 => shape(&[]),
        184 => shape(&[]),
        185 => shape(&[]),
        186 => shape(&[]),
        187 => shape(&[]),
        188 => shape(&[]),
        189 => shape(&[]),
        190 => shape(&[]),
        191 => shape(&[]),
        192 => shape(&[]),
        193 => shape(&[]),
        194 => shape(&[]),
        195 => shape(&[sa!(By<196>)]),
        196 => shape(&[]),
        197 => shape(&[]),
        198 => shape(&[]),
        199 => shape(&[]),
        200 => shape(&[]),
        201 => shape(&[]),
        202 => shape(&[]),
        203 => shape(&[]),
        204 => shape(&[]),
        205 => shape(&[]),
        206 => shape(&[]),
        207 => shape(&[]),
        208 => shape(&[]),
        209 => shape(&[]),
        210 => shape(&[]),
        211 => shape(&[sa!(By<212>)]),
        212 => shape(&[]),
        213 => shape(&[]),
        214 => shape(&[]),
        215 => shape(&[]),
        216 => shape(&[]),
        217 => shape(&[]),
        218 => shape(&[]),
        219 => shape(&[]),
        220 => shape(&[]),
        221 => shape(&[]),
        222 => shape(&[]),
        223 => shape(&[]),
        224 => shape(&[]),
        225 => shape(&[]),
        226 => shape(&[]),
        227 => shape(&[sa!(By<228>)]),
        228 => shape(&[]),
        229 => shape(&[]),
        230 => shape(&[]),
        231 => shape(&[]),
        232 => shape(&[]),
        233 => shape(&[]),
        234 => shape(&[]),
        235 => shape(&[]),
        236 => shape(&[]),
        237 => shape(&[]),
        238 => shape(&[]),
        239 => shape(&[]),
        240 => shape(&[]),
        241 => shape(&[]),
        242 => shape(&[]),
        243 => shape(&[sa!(By<244>)]),
        244 => shape(&[]),
        245 => shape(&[]),
        246 => shape(&[]),
        247 => shape(&[]),
        248 => shape(&[]),
        249 => shape(&[]),
        250 => shape(&[]),
        251 => shape(&[]),
        252 => shape(&[]),
        253 => shape(&[]),
        254 => shape(&[]),
        _ => shape(&[sa!(By<256>), sa!(TokS)]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::V0(a0, a1) => call(move || C::from((a0, a1))),
        E::V3(a0) => call(move || C::from(a0)),
        E::V15(a0, a1) => call(move || C::from((a0, a1))),
        E::V16(a0, a1) => call(move || C::from((a0, a1))),
        E::V19(a0) => call(move || C::from(a0)),
        E::V35(a0) => call(move || C::from(a0)),
        E::V51(a0) => call(move || C::from(a0)),
        E::V67(a0) => call(move || C::from(a0)),
        E::V83(a0) => call(move || C::from(a0)),
        E::V99(a0) => call(move || C::from(a0)),
        E::V115(a0) => call(move || C::from(a0)),
        E::V127(a0, a1) => call(move || C::from((a0, a1))),
        E::V128(a0, a1) => call(move || C::from((a0, a1))),
        E::V131(a0) => call(move || C::from(a0)),
        E::V147(a0) => call(move || C::from(a0)),
        E::V163(a0) => call(move || C::from(a0)),
        E::V179(a0) => call(move || C::from(a0)),
        E::V195(a0) => call(move || C::from(a0)),
        E::V211(a0) => call(move || C::from(a0)),
        E::V227(a0) => call(move || C::from(a0)),
        E::V243(a0) => call(move || C::from(a0)),
        E::V255(a0, a1) => call(move || C::from((a0, a1))),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        3 => Some(poke_as::<E, By<4>>(tb, g, how)),
        19 => Some(poke_as::<E, By<20>>(tb, g, how)),
        35 => Some(poke_as::<E, By<36>>(tb, g, how)),
        51 => Some(poke_as::<E, By<52>>(tb, g, how)),
        67 => Some(poke_as::<E, By<68>>(tb, g, how)),
        83 => Some(poke_as::<E, By<84>>(tb, g, how)),
        99 => Some(poke_as::<E, By<100>>(tb, g, how)),
        115 => Some(poke_as::<E, By<116>>(tb, g, how)),
        131 => Some(poke_as::<E, By<132>>(tb, g, how)),
        147 => Some(poke_as::<E, By<148>>(tb, g, how)),
        163 => Some(poke_as::<E, By<164>>(tb, g, how)),
        179 => Some(poke_as::<E, By<180>>(tb, g, how)),
        195 => Some(poke_as::<E, By<196>>(tb, g, how)),
        211 => Some(poke_as::<E, By<212>>(tb, g, how)),
        227 => Some(poke_as::<E, By<228>>(tb, g, how)),
        243 => Some(poke_as::<E, By<244>>(tb, g, how)),
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, eq, dbg);
}
#[cfg(feature = "w300")]
pub mod w300 {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq)]
    pub struct C, pub enum E {
        V0(By<1>, TokS),
        V1,
        V2,
        V3(By<4>),
        V4,
        V5,
        V6,
        V7,
        V8,
        V9,
        V10,
        V11,
        V12,
        V13,
        V14,
        V15(By<16>, TokS),
        V16(By<17>, TokS),
        V17,
        V18,
        V19(By<20>),
        V20,
        V21,
        V22,
        V23,
        V24,
        V25,
        V26,
        V27,
        V28,
        V29,
        V30,
        V31,
        V32,
        V33,
        V34,
        V35(By<36>),
        V36,
        V37,
        V38,
        V39,
        V40,
        V41,
        V42,
        V43,
        V44,
        V45,
        V46,
        V47,
        V48,
        V49,
        V50,
        V51(By<52>),
        V52,
        V53,
        V54,
        V55,
        V56,
        V57,
        V58,
        V59,
        V60,
        V61,
        V62,
        V63,
        V64,
        V65,
        V66,
        V67(By<68>),
        V68,
        V69,
        V70,
        V71,
        V72,
        V73,
        V74,
        V75,
        V76,
        V77,
        V78,
        V79,
        V80,
        V81,
        V82,
        V83(By<84>),
        V84,
        V85,
        V86,
        V87,
        V88,
        V89,
        V90,
        V91,
        V92,
        V93,
        V94,
        V95,
        V96,
        V97,
        V98,
        V99(By<100>),
        V100,
        V101,
        V102,
        V103,
        V104,
        V105,
        V106,
        V107,
        V108,
        V109,
        V110,
        V111,
        V112,
        V113,
        V114,
        V115(By<116>),
        V116,
        V117,
        V118,
        V119,
        V120,
        V121,
        V122,
        V123,
        V124,
        V125,
        V126,
        V127(By<128>, TokS),
        V128(By<129>, TokS),
        V129,
        V130,
        V131(By<132>),
        V132,
        V133,
        V134,
        V135,
        V136,
        V137,
        V138,
        V139,
        V140,
        V141,
        V142,
        V143,
        V144,
        V145,
        V146,
        V147(By<148>),
        V148,
        V149,
        V150,
        V151,
        V152,
        V153,
        V154,
        V155,
        V156,
        V157,
        V158,
        V159,
        V160,
        V161,
        V162,
        V163(By<164>),
        V164,
        V165,
        V166,
        V167,
        V168,
        V169,
        V170,
        V171,
        V172,
        V173,
        V174,
        V175,
        V176,
        V177,
        V178,
        V179(By<180>),
        V180,
        V181,
        V182,
        V183,
        V184,
        V185,
        V186,
        V187,
        V188,
        V189,
        V190,
        V191,
        V192,
        V193,
        V194,
        V195(By<196>),
        V196,
        V197,
        V198,
        V199,
        V200,
        V201,
        V202,
        V203,
        V204,
        V205,
        V206,
        V207,
        V208,
        V209,
        V210,
        V211(By<212>),
        V212,
        V213,
        V214,
        V215,
        V216,
        V217,
        V218,
        V219,
        V220,
        V221,
        V222,
        V223,
        V224,
        V225,
        V226,
        V227(By<228>),
        V228,
        V229,
        V230,
        V231,
        V232,
        V233,
        V234,
        V235,
        V236,
        V237,
        V238,
        V239,
        V240,
        V241,
        V242,
        V243(By<244>),
        V244,
        V245,
        V246,
        V247,
        V248,
        V249,
        V250,
        V251,
        V252,
        V253,
        V254,
        V255(By<256>, TokS),
        V256(By<257>, TokS),
        V257,
        V258,
        V259(By<260>),
        V260,
        V261,
        V262,
        V263,
        V264,
        V265,
        V266,
        V267,
        V268,
        V269,
        V270,
        V271,
        V272,
        V273,
        V274,
        V275(By<276>),
        V276,
        V277,
        V278,
        V279,
        V280,
        V281,
        V282,
        V283,
        V284,
        V285,
        V286,
        V287,
        V288,
        V289,
        V290,
        V291(By<292>),
        V292,
        V293,
        V294,
        V295,
        V296,
        V297,
        V298,
        V299(By<300>, TokS),
    }
}
impl Enu for E {
    const NAME: &'static str = "w300";
    const NVAR: usize = 300;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::V0(<By<1>>::make(g), <TokS>::make(g)),
        1 => E::V1,
        2 => E::V2,
        3 => E::V3(<By<4>>::make(g)),
        4 => E::V4,
        5 => E::V5,
        6 => E::V6,
        7 => E::V7,
        8 => E::V8,
        9 => E::V9,
        10 => E::V10,
        11 => E::V11,
        12 => E::V12,
        13 => E::V13,
        14 => E::V14,
        15 => E::V15(<By<16>>::make(g), <TokS>::make(g)),
        16 => E::V16(<By<17>>::make(g), <TokS>::make(g)),
        17 => E::V17,
        18 => E::V18,
        19 => E::V19(<By<20>>::make(g)),
        20 => E::V20,
        21 => E::V21,
        22 => E::V22,
        23 => E::V23,
        24 => E::V24,
        25 => E::V25,
        26 => E::V26,
        27 => E::V27,
        28 => E::V28,
        29 => E::V29,
        30 => E::V30,
        31 => E::V31,
        32 => E::V32,
        33 => E::V33,
        34 => E::V34,
        35 => E::V35(<By<36>>::make(g)),
        36 => E::V36,
        37 => E::V37,
        38 => E::V38,
        39 => E::V39,
        40 => E::V40,
        41 => E::V41,
        42 => E::V42,
        43 => E::V43,
        44 => E::V44,
        45 => E::V45,
        46 => E::V46,
        47 => E::V47,
        48 => E::V48,
        49 => E::V49,
        50 => E::V50,
        51 => E::V51(<By<52>>::make(g)),
        52 => E::V52,
        53 => E::V53,
        54 => E::V54,
        55 => E::V55,
        56 => E::V56,
        57 => E::V57,
        58 => E::V58,
        59 => E::V59,
        60 => E::V60,
        61 => E::V61,
        62 => E::V62,
        63 => E::V63,
        64 => E::V64,
        65 => E::V65,
        66 => E::V66,
        67 => E::V67(<By<68>>::make(g)),
        68 => E::V68,
        69 => E::V69,
        70 => E::V70,
        71 => E::V71,
        72 => E::V72,
        73 => E::V73,
        74 => E::V74,
        75 => E::V75,
        76 => E::V76,
        77 => E::V77,
        78 => E::V78,
        79 => E::V79,
        80 => E::V80,
        81 => E::V81,
        82 => E::V82,
        83 => E::V83(<By<84>>::make(g)),
        84 => E::V84,
        85 => E::V85,
        86 => E::V86,
        87 => E::V87,
        88 => E::V88,
        89 => E::V89,
        90 => E::V90,
        91 => E::V91,
        92 => E::V92,
        93 => E::V93,
        94 => E::V94,
        95 => E::V95,
        96 => E::V96,
        97 => E::V97,
        98 => E::V98,
        99 => E::V99(<By<100>>::make(g)),
        100 => E::V100,
        101 => E::V101,
        102 => E::V102,
        103 => E::V103,
        104 => E::V104,
        105 => E::V105,
        106 => E::V106,
        107 => E::V107,
        108 => E::V108,
        109 => E::V109,
        110 => E::V110,
        111 => E::V111,
        112 => E::V112,
        113 => E::V113,
        114 => E::V114,
        115 => E::V115(<By<116>>::make(g)),
        116 => E::V116,
        117 => E::V117,
        118 => E::V118,
        119 => E::V119,
        120 => E::V120,
        121 => E::V121,
        122 => E::V122,
        123 => E::V123,
        124 => E::V124,
        125 => E::V125,
        126 => E::V126,
        127 => E::V127(<By<128>>::make(g), <TokS>::make(g)),
        128 => E::V128(<By<129>>::make(g), <TokS>::make(g)),
        129 => E::V129,
        130 => E::V130,
        131 => E::V131(<By<132>>::make(g)),
        132 => E::V132,
        133 => E::V133,
        134 => E::V134,
        135 => E::V135,
        136 => E::V136,
        137 => E::V137,
        138 => E::V138,
        139 => E::V139,
        140 => E::V140,
        141 => E::V141,
        142 => E::V142,
        143 => E::V143,
        144 => E::V144,
        145 => E::V145,
        146 => E::V146,
        147 => E::V147(<By<148>>::make(g)),
        148 => E::V148,
        149 => E::V149,
        150 => E::V150,
        151 => E::V151,
        152 => E::V152,
        153 => E::V153,
        154 => E::V154,
        155 => E::V155,
        156 => E::V156,
        157 => E::V157,
        158 => E::V158,
        159 => E::V159,
        160 => E::V160,
        161 => E::V161,
        162 => E::V162,
        163 => E::V163(<By<164>>::make(g)),
        164 => E::V164,
        165 => E::V165,
        166 => E::V166,
        167 => E::V167,
        168 => E::V168,
        169 => E::V169,
        170 => E::V170,
        171 => E::V171,
        172 => E::V172,
        173 => E::V173,
        174 => E::V174,
        175 => E::V175,
        176 => E::V176,
        177 => E::V177,
        178 => E::V178,
        179 => E::V179(<By<180>>::make(g)),
        180 => E::V180,
        181 => E::V181,
        182 => E::V182,
        183 => E::V183,
        184 => E::V184,
        185 => E::V185,
        186 => E::V186,
        187 => E::V187,
        188 => E::V188,
        189 => E::V189,
        190 => E::V190,
        191 => E::V191,
        192 => E::V192,
        193 => E::V193,
        194 => E::V194,
        195 => E::V195(<By<196>>::make(g)),
        196 => E::V196,
        197 => E::V197,
        198 => E::V198,
        199 => E::V199,
        200 => E::V200,
        201 => E::V201,
        202 => E::V202,
        203 => E::V203,
        204 => E::V204,
        205 => E::V205,
        206 => E::V206,
        207 => E::V207,
        208 => E::V208,
        209 => E::V209,
        210 => E::V210,
        211 => E::V211(<By<212>>::make(g)),
        212 => E::V212,
        213 => E::V213,
        214 => E::V214,
        215 => E::V215,
        216 => E::V216,
        217 => E::V217,
        218 => E::V218,
        219 => E::V219,
        220 => E::V220,
        221 => E::V221,
        222 => E::V222,
        223 => E::V223,
        224 => E::V224,
        225 => E::V225,
        226 => E::V226,
        227 => E::V227(<By<228>>::make(g)),
        228 => E::V228,
        229 => E::V229,
        230 => E::V230,
        231 => E::V231,
        232 => E::V232,
        233 => E::V233,
        234 => E::V234,
        235 => E::V235,
        236 => E::V236,
        237 => E::V237,
        238 => E::V238,
        239 => E::V239,
        240 => E::V240,
        241 => E::V241,
        242 => E::V242,
        243 => E::V243(<By<244>>::make(g)),
        244 => E::V244,
        245 => E::V245,
        246 => E::V246,
        247 => E::V247,
        248 => E::V248,
        249 => E::V249,
        250 => E::V250,
        251 => E::V251,
        252 => E::V252,
        253 => E::V253,
        254 => E::V254,
        255 => E::V255(<By<256>>::make(g), <TokS>::make(g)),
        256 => E::V256(<By<257>>::make(g), <TokS>::make(g)),
        257 => E::V257,
        258 => E::V258,
        259 => E::V259(<By<260>>::make(g)),
        260 => E::V260,
        261 => E::V261,
        262 => E::V262,
        263 => E::V263,
        264 => E::V264,
        265 => E::V265,
        266 => E::V266,
        267 => E::V267,
        268 => E::V268,
        269 => E::V269,
        270 => E::V270,
        271 => E::V271,
        272 => E::V272,
        273 => E::V273,
        274 => E::V274,
        275 => E::V275(<By<276>>::make(g)),
        276 => E::V276,
        277 => E::V277,
        278 => E::V278,
        279 => E::V279,
        280 => E::V280,
        281 => E::V281,
        282 => E::V282,
        283 => E::V283,
        284 => E::V284,
        285 => E::V285,
        286 => E::V286,
        287 => E::V287,
        288 => E::V288,
        289 => E::V289,
        290 => E::V290,
        291 => E::V291(<By<292>>::make(g)),
        292 => E::V292,
        293 => E::V293,
        294 => E::V294,
        295 => E::V295,
        296 => E::V296,
        297 => E::V297,
        298 => E::V298,
        _ => E::V299(<By<300>>::make(g), <TokS>::make(g)),
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::V0(a0, a1) => { o.variant = 0; a0.look(o); a1.look(o); }
        E::V1 => { o.variant = 1;  }
        E::V2 => { o.variant = 2;  }
        E::V3(a0) => { o.variant = 3; a0.look(o); }
        E::V4 => { o.variant = 4;  }
        E::V5 => { o.variant = 5;  }
        E::V6 => { o.variant = 6;  }
        E::V7 => { o.variant = 7;  }
        E::V8 => { o.variant = 8;  }
        E::V9 => { o.variant = 9;  }
        E::V10 => { o.variant = 10;  }
        E::V11 => { o.variant = 11;  }
        E::V12 => { o.variant = 12;  }
        E::V13 => { o.variant = 13;  }
        E::V14 => { o.variant = 14;  }
        E::V15(a0, a1) => { o.variant = 15; a0.look(o); a1.look(o); }
        E::V16(a0, a1) => { o.variant = 16; a0.look(o); a1.look(o); }
        E::V17 => { o.variant = 17;  }
        E::V18 => { o.variant = 18;  }
        E::V19(a0) => { o.variant = 19; a0.look(o); }
        E::V20 => { o.variant = 20;  }
        E::V21 => { o.variant = 21;  }
        E::V22 => { o.variant = 22;  }
        E::V23 => { o.variant = 23;  }
        E::V24 => { o.variant = 24;  }
        E::V25 => { o.variant = 25;  }
        E::V26 => { o.variant = 26;  }
        E::V27 => { o.variant = 27;  }
        E::V28 => { o.variant = 28;  }
        E::V29 => { o.variant = 29;  }
        E::V30 => { o.variant = 30;  }
        E::V31 => { o.variant = 31;  }
        E::V32 => { o.variant = 32;  }
        E::V33 => { o.variant = 33;  }
        E::V34 => { o.variant = 34;  }
        E::V35(a0) => { o.variant = 35; a0.look(o); }
        E::V36 => { o.variant = 36;  }
        E::V37 => { o.variant = 37;  }
        E::V38 => { o.variant = 38;  }
        E::V39 => { o.variant = 39;  }
        E::V40 => { o.variant = 40;  }
        E::V41 => { o.variant = 41;  }
        E::V42 => { o.variant = 42;  }
        E::V43 => { o.variant = 43;  }
        E::V44 => { o.variant = 44;  }
        E::V45 => { o.variant = 45;  }
        E::V46 => { o.variant = 46;  }
        E::V47 => { o.variant = 47;  }
        E::V48 => { o.variant = 48;  }
        E::V49 => { o.variant = 49;  }
        E::V50 => { o.variant = 50;  }
        E::V51(a0) => { o.variant = 51; a0.look(o); }
        E::V52 => { o.variant = 52;  }
        E::V53 => { o.variant = 53;  }
        E::V54 => { o.variant = 54;  }
        E::V55 => { o.variant = 55;  }
        E::V56 => { o.variant = 56;  }
        E::V57 => { o.variant = 57;  }
        E::V58 => { o.variant = 58;  }
        E::V59 => { o.variant = 59;  }
        E::V60 => { o.variant = 60;  }
        E::V61 => { o.variant = 61;  }
        E::V62 => { o.variant = 62;  }
        E::V63 => { o.variant = 63;  }
        E::V64 => { o.variant = 64;  }
        E::V65 => { o.variant = 65;  }
        E::V66 => { o.variant = 66;  }
        E::V67(a0) => { o.variant = 67; a0.look(o); }
        E::V68 => { o.variant = 68;  }
        E::V69 => { o.variant = 69;  }
        E::V70 => { o.variant = 70;  }
        E::V71 => { o.variant = 71;  }
        E::V72 => { o.variant = 72;  }
        E::V73 => { o.variant = 73;  }
        E::V74 => { o.variant = 74;  }
        E::V75 => { o.variant = 75;  }
        E::V76 => { o.variant = 76;  }
        E::V77 => { o.variant = 77;  }
        E::V78 => { o.variant = 78;  }
        E::V79 => { o.variant = 79;  }
        E::V80 => { o.variant = 80;  }
        E::V81 => { o.variant = 81;  }
        E::V82 => { o.variant = 82;  }
        E::V83(a0) => { o.variant = 83; a0.look(o); }
        E::V84 => { o.variant = 84;  }
        E::V85 => { o.variant = 85;  }
        E::V86 => { o.variant = 86;  }
        E::V87 => { o.variant = 87;  }
        E::V88 => { o.variant = 88;  }
        E::V89 => { o.variant = 89;  }
        E::V90 => { o.variant = 90;  }
        E::V91 => { o.variant = 91;  }
        E::V92 => { o.variant = 92;  }
        E::V93 => { o.variant = 93;  }
        E::V94 => { o.variant = 94;  }
        E::V95 => { o.variant = 95;  }
        E::V96 => { o.variant = 96;  }
        E::V97 => { o.variant = 97;  }
        E::V98 => { o.variant = 98;  }
        E::V99(a0) => { o.variant = 99; a0.look(o); }
        E::V100 => { o.variant = 100;  }
        E::V101 => { o.variant = 101;  }
        E::V102 => { o.variant = 102;  }
        E::V103 => { o.variant = 103;  }
        E::V104 => { o.variant = 104;  }
        E::V105 => { o.variant = 105;  }
        E::V106 => { o.variant = 106;  }
        E::V107 => { o.variant = 107;  }
        E::V108 => { o.variant = 108;  }
        E::V109 => { o.variant = 109;  }
        E::V110 => { o.variant = 110;  }
        E::V111 => { o.variant = 111;  }
        E::V112 => { o.variant = 112;  }
        E::V113 => { o.variant = 113;  }
        E::V114 => { o.variant = 114;  }
        E::V115(a0) => { o.variant = 115; a0.look(o); }
        E::V116 => { o.variant = 116;  }
        E::V117 => { o.variant = 117;  }
        E::V118 => { o.variant = 118;  }
        E::V119 => { o.variant = 119;  }
        E::V120 => { o.variant = 120;  }
        E::V121 => { o.variant = 121;  }
        E::V122 => { o.variant = 122;  }
        E::V123 => { o.variant = 123;  }
        E::V124 => { o.variant = 124;  }
        E::V125 => { o.variant = 125;  }
        E::V126 => { o.variant = 126;  }
        E::V127(a0, a1) => { o.variant = 127; a0.look(o); a1.look(o); }
        E::V128(a0, a1) => { o.variant = 128; a0.look(o); a1.look(o); }
        E::V129 => { o.variant = 129;  }
        E::V130 => { o.variant = 130;  }
        E::V131(a0) => { o.variant = 131; a0.look(o); }
        E::V132 => { o.variant = 132;  }
        E::V133 => { o.variant = 133;  }
        E::V134 => { o.variant = 134;  }
        E::V135 => { o.variant = 135;  }
        E::V136 => { o.variant = 136;  }
        E::V137 => { o.variant = 137;  }
        E::V138 => { o.variant = 138;  }
        E::V139 => { o.variant = 139;  }
        E::V140 => { o.variant = 140;  }
        E::V141 => { o.variant = 141;  }
        E::V142 => { o.variant = 142;  }
        E::V143 => { o.variant = 143;  }
        E::V144 => { o.variant = 144;  }
        E::V145 => { o.variant = 145;  }
        E::V146 => { o.variant = 146;  }
        E::V147(a0) => { o.variant = 147; a0.look(o); }
        E::V148 => { o.variant = 148;  }
        E::V149 => { o.variant = 149;  }
        E::V150 => { o.variant = 150;  }
        E::V151 => { o.variant = 151;  }
        E::V152 => { o.variant = 152;  }
        E::V153 => { o.variant = 153;  }
        E::V154 => { o.variant = 154;  }
        E::V155 => { o.variant = 155;  }
        E::V156 => { o.variant = 156;  }
        E::V157 => { o.variant = 157;  }
        E::V158 => { o.variant = 158;  }
        E::V159 => { o.variant = 159;  }
        E::V160 => { o.variant = 160;  }
        E::V161 => { o.variant = 161;  }
        E::V162 => { o.variant = 162;  }
        E::V163(a0) => { o.variant = 163; a0.look(o); }
        E::V164 => { o.variant = 164;  }
        E::V165 => { o.variant = 165;  }
        E::V166 => { o.variant = 166;  }
        E::V167 => { o.variant = 167;  }
        E::V168 => { o.variant = 168;  }
        E::V169 => { o.variant = 169;  }
        E::V170 => { o.variant = 170;  }
        E::V171 => { o.variant = 171;  }
        E::V172 => { o.variant = 172;  }
        E::V173 => { o.variant = 173;  }
        E::V174 => { o.variant = 174;  }
        E::V175 => { o.variant = 175;  }
        E::V176 => { o.variant = 176;  }
        E::V177 => { o.variant = 177;  }
        E::V178 => { o.variant = 178;  }
        E::V179(a0) => { o.variant = 179; a0.look(o); }
        E::V180 => { o.variant = 180;  }
        E::V181 => { o.variant = 181;  }
        E::V182 => { o.variant = 182;  }
        E::V183 => { o.variant = 183;  }
        E::V184 => { o.variant = 184;  }
        E::V185 => { o.variant = 185;  }
        E::V186 => { o.variant = 186;  }
        E::V187 => { o.variant = 187;  }
        E::V188 => { o.variant = 188;  }
        E::V189 => { o.variant = 189;  }
        E::V190 => { o.variant = 190;  }
        E::V191 => { o.variant = 191;  }
        E::V192 => { o.variant = 192;  }
        E::V193 => { o.variant = 193;  }
        E::V194 => { o.variant = 194;  }
        E::V195(a0) => { o.variant = 195; a0.look(o); }
        E::V196 => { o.variant = 196;  }
        E::V197 => { o.variant = 197;  }
        E::V198 => { o.variant = 198;  }
        E::V199 => { o.variant = 199;  }
        E::V200 => { o.variant = 200;  }
        E::V201 => { o.variant = 201;  }
        E::V202 => { o.variant = 202;  }
        E::V203 => { o.variant = 203;  }
        E::V204 => { o.variant = 204;  }
        E::V205 => { o.variant = 205;  }
        E::V206 => { o.variant = 206;  }
        E::V207 => { o.variant = 207;  }
        E::V208 => { o.variant = 208;  }
        E::V209 => { o.variant = 209;  }
        E::V210 => { o.variant = 210;  }
        E::V211(a0) => { o.variant = 211; a0.look(o); }
        E::V212 => { o.variant = 212;  }
        E::V213 => { o.variant = 213;  }
        E::V214 => { o.variant = 214;  }
        E::V215 => { o.variant = 215;  }
        E::V216 => { o.variant = 216;  }
        E::V217 => { o.variant = 217;  }
        E::V218 => { o.variant = 218;  }
        E::V219 => { o.variant = 219;  }
        E::V220 => { o.variant = 220;  }
        E::V221 => { o.variant = 221;  }
        E::V222 => { o.variant = 222;  }
        E::V223 => { o.variant = 223;  }
        E::V224 => { o.variant = 224;  }
        E::V225 => { o.variant = 225;  }
        E::V226 => { o.variant = 226;  }
        E::V227(a0) => { o.variant = 227; a0.look(o); }
        E::V228 => { o.variant = 228;  }
        E::V229 => { o.variant = 229;  }
        E::V230 => { o.variant = 230;  }
        E::V231 => { o.variant = 231;  }
        E::V232 => { o.variant = 232;  }
        E::V233 => { o.variant = 233;  }
        E::V234 => { o.variant = 234;  }
        E::V235 => { o.variant = 235;  }
        E::V236 => { o.variant = 236;  }
        E::V237 => { o.variant = 237;  }
        E::V238 => { o.variant = 238;  }
        E::V239 => { o.variant = 239;  }
        E::V240 => { o.variant = 240;  }
        E::V241 => { o.variant = 241;  }
        E::V242 => { o.variant = 242;  }
        E::V243(a0) => { o.variant = 243; a0.look(o); }
        E::V244 => { o.variant = 244;  }
        E::V245 => { o.variant = 245;  }
        E::V246 => { o.variant = 246;  }
        E::V247 => { o.variant = 247;  }
        E::V248 => { o.variant = 248;  }
        E::V249 => { o.variant = 249;  }
        E::V250 => { o.variant = 250;  }
        E::V251 => { o.variant = 251;  }
        E::V252 => { o.variant = 252;  }
        E::V253 => { o.variant = 253;  }
        E::V254 => { o.variant = 254;  }
        E::V255(a0, a1) => { o.variant = 255; a0.look(o); a1.look(o); }
        E::V256(a0, a1) => { o.variant = 256; a0.look(o); a1.look(o); }
        E::V257 => { o.variant = 257;  }
        E::V258 => { o.variant = 258;  }
        E::V259(a0) => { o.variant = 259; a0.look(o); }
        E::V260 => { o.variant = 260;  }
        E::V261 => { o.variant = 261;  }
        E::V262 => { o.variant = 262;  }
        E::V263 => { o.variant = 263;  }
        E::V264 => { o.variant = 264;  }
        E::V265 => { o.variant = 265;  }
        E::V266 => { o.variant = 266;  }
        E::V267 => { o.variant = 267;  }
        E::V268 => { o.variant = 268;  }
        E::V269 => { o.variant = 269;  }
        E::V270 => { o.variant = 270;  }
        E::V271 => { o.variant = 271;  }
        E::V272 => { o.variant = 272;  }
        E::V273 => { o.variant = 273;  }
        E::V274 => { o.variant = 274;  }
        E::V275(a0) => { o.variant = 275; a0.look(o); }
        E::V276 => { o.variant = 276;  }
        E::V277 => { o.variant = 277;  }
        E::V278 => { o.variant = 278;  }
        E::V279 => { o.variant = 279;  }
        E::V280 => { o.variant = 280;  }
        E::V281 => { o.variant = 281;  }
        E::V282 => { o.variant = 282;  }
        E::V283 => { o.variant = 283;  }
        E::V284 => { o.variant = 284;  }
        E::V285 => { o.variant = 285;  }
        E::V286 => { o.variant = 286;  }
        E::V287 => { o.variant = 287;  }
        E::V288 => { o.variant = 288;  }
        E::V289 => { o.variant = 289;  }
        E::V290 => { o.variant = 290;  }
        E::V291(a0) => { o.variant = 291; a0.look(o); }
        E::V292 => { o.variant = 292;  }
        E::V293 => { o.variant = 293;  }
        E::V294 => { o.variant = 294;  }
        E::V295 => { o.variant = 295;  }
        E::V296 => { o.variant = 296;  }
        E::V297 => { o.variant = 297;  }
        E::V298 => { o.variant = 298;  }
        E::V299(a0, a1) => { o.variant = 299; a0.look(o); a1.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(By<1>), sa!(TokS)]),
        1 => shape(&[]),
        2 => shape(&[]),
        3 => shape(&[sa!(By<4>)]),
        4 => shape(&[]),
        5 => shape(&[]),
        6 => shape(&[]),
        7 => shape(&[]),
        8 => shape(&[]),
        9 => shape(&[]),
        10 => shape(&[]),
        11 => shape(&[]),
        12 => shape(&[]),
        13 => shape(&[]),
        14 => shape(&[]),
        15 => shape(&[sa!(By<16>), sa!(TokS)]),
        16 => shape(&[sa!(By<17>), sa!(TokS)]),
        17 => shape(&[]),
        18 => shape(&[]),
        19 => shape(&[sa!(By<20>)]),
        20 => shape(&[]),
        21 => shape(&[]),
        22 => shape(&[]),
        23 => shape(&[]),
        24 => shape(&[]),
        25 => shape(&[]),
        26 => shape(&[]),
        27 => shape(&[]),
        28 => shape(&[]),
        29 => shape(&[]),
        30 => shape(&[]),
        31 => shape(&[]),
        32 => shape(&[]),
        33 => shape(&[]),
        34 => shape(&[]),
        35 => shape(&[sa!(By<36>)]),
        36 => shape(&[]),
        37 => shape(&[]),
        38 => shape(&[]),
        39 => shape(&[]),
        40 => shape(&[]),
        41 => shape(&[]),
        42 => shape(&[]),
        43 => shape(&[]),
        44 => shape(&[]),
        45 => shape(&[]),
        46 => shape(&[]),
        47 => shape(&[]),
        48 => shape(&[]),
        49 => shape(&[]),
        50 => shape(&[]),
        51 => shape(&[sa!(By<52>)]),
        52 => shape(&[]),
        53 => shape(&[]),
        54 => shape(&[]),
        55 => shape(&[]),
        56 => shape(&[]),
        57 => shape(&[]),
        58 => shape(&[]),
        59 => shape(&[]),
        60 => shape(&[]),
        61 => shape(&[]),
        62 => shape(&[]),
        63 => shape(&[]),
        64 => shape(&[]),
        65 => shape(&[]),
        66 => shape(&[]),
        67 => shape(&[sa!(By<68>)]),
        68 => shape(&[]),
        69 => shape(&[]),
        70 => shape(&[]),
        71 => shape(&[]),
        72 => shape(&[]),
        73 => shape(&[]),
        74 => shape(&[]),
        75 => shape(&[]),
        76 => shape(&[]),
        77 => shape(&[]),
        78 => shape(&[]),
        79 => shape(&[]),
        80 => shape(&[]),
        81 => shape(&[]),
        82 => shape(&[]),
        83 => shape(&[sa!(By<84>)]),
        84 => shape(&[]),
        85 => shape(&[]),
        86 => shape(&[]),
        87 => shape(&[]),
        88 => shape(&[]),
        89 => shape(&[]),
        90 => shape(&[]),
        91 => shape(&[]),
        92 => shape(&[]),
        93 => shape(&[]),
        94 => shape(&[]),
        95 => shape(&[]),
        96 => shape(&[]),
        97 => shape(&[]),
        98 => shape(&[]),
        99 => shape(&[sa!(By<100>)]),
        100 => shape(&[]),
        101 => shape(&[]),
        102 => shape(&[]),
        103 => shape(&[]),
        104 => shape(&[]),
        105 => shape(&[]),
        106 => shape(&[]),
        107 => shape(&[]),
        108 => shape(&[]),
        109 => shape(&[]),
        110 => shape(&[]),
        111 => shape(&[]),
        112 => shape(&[]),
        113 => shape(&[]),
        114 => shape(&[]),
        115 => shape(&[sa!(By<116>)]),
        116 => shape(&[]),
        117 => shape(&[]),
        118 => shape(&[]),
        119 => shape(&[]),
        120 => shape(&[]),
        121 => shape(&[]),
        122 => shape(&[]),
        123 => shape(&[]),
        124 => shape(&[]),
        125 => shape(&[]),
        126 => shape(&[]),
        127 => shape(&[sa!(By<128>), sa!(TokS)]),
        128 => shape(&[sa!(By<129>), sa!(TokS)]),
        129 => shape(&[]),
        130 => shape(&[]),
        131 => shape(&[sa!(By<132>)]),
        132 => shape(&[]),
        133 => shape(&[]),
        134 => shape(&[]),
        135 => shape(&[]),
        136 => shape(&[]),
        137 => shape(&[]),
        138 => shape(&[]),
        139 => shape(&[]),
        140 => shape(&[]),
        141 => shape(&[]),
        142 => shape(&[]),
        143 => shape(&[]),
        144 => shape(&[]),
        145 => shape(&[]),
        146 => shape(&[]),
        147 => shape(&[sa!(By<148>)]),
        148 => shape(&[]),
        149 => shape(&[]),
        150 => shape(&[]),
        151 => shape(&[]),
        152 => shape(&[]),
        153 => shape(&[]),
        154 => shape(&[]),
        155 => shape(&[]),
        156 => shape(&[]),
        157 => shape(&[]),
        158 => shape(&[]),
        159 => shape(&[]),
        160 => shape(&[]),
        161 => shape(&[]),
        162 => shape(&[]),
        163 => shape(&[sa!(By<164>)]),
        164 => shape(&[]),
        165 => shape(&[]),
        166 => shape(&[]),
        167 => shape(&[]),
        168 => shape(&[]),
        169 => shape(&[]),
        170 => shape(&[]),
        171 => shape(&[]),
        172 => shape(&[]),
        173 => shape(&[]),
        174 => shape(&[]),
        175 => shape(&[]),
        176 => shape(&[]),
        177 => shape(&[]),
        178 => shape(&[]),
        179 => shape(&[sa!(By<180>)]),
        180 => shape(&[]),
        181 => shape(&[]),
        182 => shape(&[]),
        183 => shape(&[]),
        184 => shape(&[]),
        185 => shape(&[]),
        186 => shape(&[]),
        187 => shape(&[]),
        188 => shape(&[]),
        189 => shape(&[]),
        190 => shape(&[]),
        191 => shape(&[]),
        192 => shape(&[]),
        193 => shape(&[]),
        194 => shape(&[]),
        195 => shape(&[sa!(By<196>)]),
        196 => shape(&[]),
        197 => shape(&[]),
        198 => shape(&[]),
        199 => shape(&[]),
        200 => shape(&[]),
        201 => shape(&[]),
        202 => shape(&[]),
        203 => shape(&[]),
        204 => shape(&[]),
        205 => shape(&[]),
        206 => shape(&[]),
        207 => shape(&[]),
        208 => shape(&[]),
        209 => shape(&[]),
        210 => shape(&[]),
        211 => shape(&[sa!(By<212>)]),
        212 => shape(&[]),
        213 => shape(&[]),
        214 => shape(&[]),
        215 => shape(&[]),
        216 => shape(&[]),
        217 => shape(&[]),
        218 => shape(&[]),
        219 => shape(&[]),
        220 => shape(&[]),
        221 => shape(&[]),
        222 => shape(&[]),
        223 => shape(&[]),
        224 => shape(&[]),
        225 => shape(&[]),
        226 => shape(&[]),
        227 => shape(&[sa!(By<228>)]),
        228 => shape(&[]),
        229 => shape(&[]),
        230 => shape(&[]),
        231 => shape(&[]),
        232 => shape(&[]),
        233 => shape(&[]),
        234 => shape(&[]),
        235 => shape(&[]),
        236 => shape(&[]),
        237 => shape(&[]),
        238 => shape(&[]),
        239 => shape(&[]),
        240 => shape(&[]),
        241 => shape(&[]),
        242 => shape(&[]),
        243 => shape(&[sa!(By<244>)]),
        244 => shape(&[]),
        245 => shape(&[]),
        246 => shape(&[]),
        247 => shape(&[]),
        248 => shape(&[]),
        249 => shape(&[]),
        250 => shape(&[]),
        251 => shape(&[]),
        252 => shape(&[]),
        253 => shape(&[]),
        254 => shape(&[]),
        255 => shape(&[sa!(By<256>), sa!(TokS)]),
        256 => shape(&[sa!(By<257>), sa!(TokS)]),
        257 => shape(&[]),
        258 => shape(&[]),
        259 => shape(&[sa!(By<260>)]),
        260 => shape(&[]),
        261 => shape(&[]),
        262 => shape(&[]),
        263 => shape(&[]),
        264 => shape(&[]),
        265 => shape(&[]),
        266 => shape(&[]),
        267 => shape(&[]),
        268 => shape(&[]),
        269 => shape(&[]),
        270 => shape(&[]),
        271 => shape(&[]),
        272 => shape(&[]),
        273 => shape(&[]),
        274 => shape(&[]),
        275 => shape(&[sa!(By<276>)]),
        276 => shape(&[]),
        277 => shape(&[]),
        278 => shape(&[]),
        279 => shape(&[]),
        280 => shape(&[]),
        281 => shape(&[]),
        282 => shape(&[]),
        283 => shape(&[]),
        284 => shape(&[]),
        285 => shape(&[]),
        286 => shape(&[]),
        287 => shape(&[]),
        288 => shape(&[]),
        289 => shape(&[]),
        290 => shape(&[]),
        291 => shape(&[sa!(By<292>)]),
        292 => shape(&[]),
        293 => shape(&[]),
        294 => shape(&[]),
        295 => shape(&[]),
        296 => shape(&[]),
        297 => shape(&[]),
        298 => shape(&[]),
        _ => shape(&[sa!(By<300>), sa!(TokS)]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::V0(a0, a1) => call(move || C::from((a0, a1))),
        E::V3(a0) => call(move || C::from(a0)),
        E::V15(a0, a1) => call(move || C::from((a0, a1))),
        E::V16(a0, a1) => call(move || C::from((a0, a1))),
        E::V19(a0) => call(move || C::from(a0)),
        E::V35(a0) => call(move || C::from(a0)),
        E::V51(a0) => call(move || C::from(a0)),
        E::V67(a0) => call(move || C::from(a0)),
        E::V83(a0) => call(move || C::from(a0)),
        E::V99(a0) => call(move || C::from(a0)),
        E::V115(a0) => call(move || C::from(a0)),
        E::V127(a0, a1) => call(move || C::from((a0, a1))),
        E::V128(a0, a1) => call(move || C::from((a0, a1))),
        E::V131(a0) => call(move || C::from(a0)),
        E::V147(a0) => call(move || C::from(a0)),
        E::V163(a0) => call(move || C::from(a0)),
        E::V179(a0) => call(move || C::from(a0)),
        E::V195(a0) => call(move || C::from(a0)),
        E::V211(a0) => call(move || C::from(a0)),
        E::V227(a0) => call(move || C::from(a0)),
        E::V243(a0) => call(move || C::from(a0)),
        E::V255(a0, a1) => call(move || C::from((a0, a1))),
        E::V256(a0, a1) => call(move || C::from((a0, a1))),
        E::V259(a0) => call(move || C::from(a0)),
        E::V275(a0) => call(move || C::from(a0)),
        E::V291(a0) => call(move || C::from(a0)),
        E::V299(a0, a1) => call(move || C::from((a0, a1))),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        3 => Some(poke_as::<E, By<4>>(tb, g, how)),
        19 => Some(poke_as::<E, By<20>>(tb, g, how)),
        35 => Some(poke_as::<E, By<36>>(tb, g, how)),
        51 => Some(poke_as::<E, By<52>>(tb, g, how)),
        67 => Some(poke_as::<E, By<68>>(tb, g, how)),
        83 => Some(poke_as::<E, By<84>>(tb, g, how)),
        99 => Some(poke_as::<E, By<100>>(tb, g, how)),
        115 => Some(poke_as::<E, By<116>>(tb, g, how)),
        131 => Some(poke_as::<E, By<132>>(tb, g, how)),
        147 => Some(poke_as::<E, By<148>>(tb, g, how)),
        163 => Some(poke_as::<E, By<164>>(tb, g, how)),
        179 => Some(poke_as::<E, By<180>>(tb, g, how)),
        195 => Some(poke_as::<E, By<196>>(tb, g, how)),
        211 => Some(poke_as::<E, By<212>>(tb, g, how)),
        227 => Some(poke_as::<E, By<228>>(tb, g, how)),
        243 => Some(poke_as::<E, By<244>>(tb, g, how)),
        259 => Some(poke_as::<E, By<260>>(tb, g, how)),
        275 => Some(poke_as::<E, By<276>>(tb, g, how)),
        291 => Some(poke_as::<E, By<292>>(tb, g, how)),
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, eq, dbg);
}
pub mod cust {
use super::*;
tagged_box::tagged_box! {
    pub struct C, pub enum E {
        Num(Tok),
        Txt(u16, Tok),
        Never(TokS),
        Nil,
        Rec { lo: TokS, hi: Tok },
    }
}
impl Enu for E {
    const NAME: &'static str = "cust";
    const NVAR: usize = 5;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::Num(<Tok>::make(g)),
        1 => E::Txt(<u16>::make(g), <Tok>::make(g)),
        2 => E::Never(<TokS>::make(g)),
        3 => E::Nil,
        _ => E::Rec { lo: <TokS>::make(g), hi: <Tok>::make(g) },
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::Num(a0) => { o.variant = 0; a0.look(o); }
        E::Txt(a0, a1) => { o.variant = 1; a0.look(o); a1.look(o); }
        E::Never(a0) => { o.variant = 2; a0.look(o); }
        E::Nil => { o.variant = 3;  }
        E::Rec { lo, hi } => { o.variant = 4; lo.look(o); hi.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(Tok)]),
        1 => shape(&[sa!(u16), sa!(Tok)]),
        2 => shape(&[sa!(TokS)]),
        3 => shape(&[]),
        _ => shape(&[sa!(TokS), sa!(Tok)]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::Num(a0) => call(move || C::from(a0)),
        E::Txt(a0, a1) => call(move || C::from((a0, a1))),
        E::Never(a0) => call(move || C::from(a0)),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        0 => Some(poke_as::<E, Tok>(tb, g, how)),
        2 => Some(poke_as::<E, TokS>(tb, g, how)),
        _ => None,
    } }
}
caps!(C, E; inner 0; clone, ord, disp);

impl Clone for E {
    fn clone(&self) -> E {
        match self {
            E::Num(t) => E::Num(t.clone()),
            E::Txt(a, t) => { let t = t.clone(); user_code(Fault::ClonePanic); E::Txt(*a, t) }
            E::Never(t) => E::Never(t.clone()),
            E::Nil => { user_code(Fault::ClonePanic); E::Nil }
            E::Rec { lo, hi } => { let hi = hi.clone(); E::Rec { lo: lo.clone(), hi } }
        }
    }
}
impl E {
    fn key(&self) -> Option<u64> {
        user_code(Fault::CmpPanic);
        match self {
            E::Num(t) => { t.seen(); Some(t.content()) }
            E::Txt(a, t) => { t.seen(); Some(t.content() ^ (*a as u64 & 1)) }
            E::Never(_) => None,
            E::Nil => Some(0),
            E::Rec { hi, .. } => { hi.seen(); Some(hi.content()) }
        }
    }
}
impl PartialEq for E {
    fn eq(&self, o: &E) -> bool {
        match (self.key(), o.key()) { (Some(a), Some(b)) => a == b, _ => false }
    }
}
impl Eq for E {}
impl PartialOrd for E {
    fn partial_cmp(&self, o: &E) -> Option<std::cmp::Ordering> {
        match (self.key(), o.key()) { (Some(a), Some(b)) => Some(b.cmp(&a)), _ => None }
    }
}
impl Ord for E {
    fn cmp(&self, o: &E) -> std::cmp::Ordering {
        // Not what partial_cmp says.
        match (self.key(), o.key()) {
            (Some(a), Some(b)) => a.cmp(&b),
            (Some(_), None) => std::cmp::Ordering::Less,
            (None, Some(_)) => std::cmp::Ordering::Greater,
            _ => std::cmp::Ordering::Greater,
        }
    }
}
impl fmt::Debug for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if user_fmt() { return Err(fmt::Error); }
        match self {
            E::Num(t) => f.debug_tuple("Num").field(t).finish(),
            E::Txt(a, t) => f.debug_list().entry(a).entry(t).finish(),
            E::Never(_) => f.pad("never, never, never"),
            E::Nil => Ok(()),
            E::Rec { lo, hi } => f.debug_map().entry(&1, lo).entry(&"hi", hi).finish(),
        }
    }
}
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if user_fmt() { return Err(fmt::Error); }
        match self {
            E::Num(t) => fmt::Display::fmt(t, f),
            E::Txt(a, t) => { f.write_str("(")?; fmt::Display::fmt(a, f)?; f.write_str("/")?; fmt::Display::fmt(t, f)?; f.write_str(")") }
            E::Never(_) => f.pad("never"),
            E::Nil => Ok(()),
            E::Rec { lo, hi } => {
                if f.alternate() { write!(f, "{:#?}", lo)?; }
                for _ in 0..5 { f.write_str("-")?; }
                fmt::Display::fmt(hi, f)
            }
        }
    }
}

}
pub mod ownd {
use super::*;
tagged_box::tagged_box! {
    #[derive(Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        Fd(TokC),
        Two(TokC, u32, TokC),
        Nil,
        Rec { t: TokC, k: u8 },
    }
}
impl Enu for E {
    const NAME: &'static str = "ownd";
    const NVAR: usize = 4;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::Fd(<TokC>::make(g)),
        1 => E::Two(<TokC>::make(g), <u32>::make(g), <TokC>::make(g)),
        2 => { unit_made(); E::Nil },
        _ => E::Rec { t: <TokC>::make(g), k: <u8>::make(g) },
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::Fd(a0) => { o.variant = 0; a0.look(o); }
        E::Two(a0, a1, a2) => { o.variant = 1; a0.look(o); a1.look(o); a2.look(o); }
        E::Nil => { o.variant = 2; o.zs += 1; o.w(0x2F); }
        E::Rec { t, k } => { o.variant = 3; t.look(o); k.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(TokC)]),
        1 => shape(&[sa!(TokC), sa!(u32), sa!(TokC)]),
        2 => shape(&[]),
        _ => shape(&[sa!(TokC), sa!(u8)]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { let e = std::mem::ManuallyDrop::new(e); match *e {
        E::Fd(a0) => call(move || C::from(a0)),
        E::Two(a0, a1, a2) => call(move || C::from((a0, a1, a2))),
        _ => call(move || C::from(std::mem::ManuallyDrop::into_inner(e))),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        _ => None,
    } }
}
caps!(C, E; inner 0; clone, ord, dbg);

impl Drop for E {
    fn drop(&mut self) {
        match self {
            E::Fd(t) => t.end(),
            E::Two(a, _, b) => { a.end(); b.end(); }
            E::Rec { t, .. } => t.end(),
            E::Nil => unit_ended(),
        }
    }
}
impl Clone for E {
    fn clone(&self) -> E {
        match self {
            E::Fd(t) => E::Fd(t.again()),
            // Held by the enum only when both are there.
            E::Two(a, n, b) => { let a = E::Fd(a.again()); let b = b.again(); let x = match &a { E::Fd(x) => *x, _ => unreachable!() }; std::mem::forget(a); E::Two(x, *n, b) }
            E::Rec { t, k } => E::Rec { t: t.again(), k: *k },
            E::Nil => { user_code(Fault::ClonePanic); unit_made(); E::Nil }
        }
    }
}

}
pub mod nest {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq)]
    pub struct C, pub enum E {
        In(Nest),
        Both(Nest, Tok),
        Rec { f0: u8, f1: Nest },
        Nil,
    }
}
impl Enu for E {
    const NAME: &'static str = "nest";
    const NVAR: usize = 4;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::In(<Nest>::make(g)),
        1 => E::Both(<Nest>::make(g), <Tok>::make(g)),
        2 => E::Rec { f0: <u8>::make(g), f1: <Nest>::make(g) },
        _ => E::Nil,
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::In(a0) => { o.variant = 0; a0.look(o); }
        E::Both(a0, a1) => { o.variant = 1; a0.look(o); a1.look(o); }
        E::Rec { f0, f1 } => { o.variant = 2; f0.look(o); f1.look(o); }
        E::Nil => { o.variant = 3;  }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(Nest)]),
        1 => shape(&[sa!(Nest), sa!(Tok)]),
        2 => shape(&[sa!(u8), sa!(Nest)]),
        _ => shape(&[]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::In(a0) => call(move || C::from(a0)),
        E::Both(a0, a1) => call(move || C::from((a0, a1))),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        0 => Some(poke_as::<E, Nest>(tb, g, how)),
        _ => None,
    } }
}
caps!(C, E; DERIVED | STD_ALLOC; clone, eq, dbg);

/// Owns a container and releases what it can reach when dropped.
pub struct Nest(std::mem::ManuallyDrop<super::small2::C>);
impl Drop for Nest {
    fn drop(&mut self) {
        use tagged_box::TaggableContainer;
        let c = unsafe { std::mem::ManuallyDrop::take(&mut self.0) };
        // Taking a value out leaves its block behind; that is judged where it is taken, not here.
        let here = simrt::heap::zone_of(c.tb().as_ptr::<u8>() as usize).is_some();
        let n = simrt::state::NET.with(|n| n.get());
        drop(c.into_inner());
        simrt::state::NET.with(|x| if here && x.get() == n { x.set(n - 1) });
    }
}
impl Clone for Nest { fn clone(&self) -> Nest { Nest(self.0.clone()) } }
impl PartialEq for Nest { fn eq(&self, o: &Nest) -> bool { *self.0 == *o.0 } }
impl fmt::Debug for Nest {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&*self.0, f) }
}
impl Pay for Nest {
    fn make(g: &mut Gen) -> Nest {
        use super::small2::{C, E};
        let v = g.bits() as usize & 1;
        Nest(std::mem::ManuallyDrop::new(C::from(E::make(v, g))))
    }
    fn look(&self, o: &mut Look) {
        use tagged_box::TaggableInner;
        let v = o.variant;
        unsafe { super::small2::E::ref_from_tagged_box(self.0.tb(), |e| e.look_into(o)) };
        let w = o.variant;
        o.w(w as u64);
        o.variant = v;
        o.clone_blocks += 1;
        if simrt::heap::zone_of(self.0.tb().as_ptr::<u8>() as usize).is_some() { o.zone_blocks += 1; }
    }
}

}
pub mod sm8 {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        B(u8),
        W(u32),
        Nil,
    }
}
impl Enu for E {
    const NAME: &'static str = "sm8";
    const NVAR: usize = 3;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::B(<u8>::make(g)),
        1 => E::W(<u32>::make(g)),
        _ => E::Nil,
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::B(a0) => { o.variant = 0; a0.look(o); }
        E::W(a0) => { o.variant = 1; a0.look(o); }
        E::Nil => { o.variant = 2;  }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(u8)]),
        1 => shape(&[sa!(u32)]),
        _ => shape(&[]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::B(a0) => call(move || C::from(a0)),
        E::W(a0) => call(move || C::from(a0)),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        0 => Some(poke_as::<E, u8>(tb, g, how)),
        1 => Some(poke_as::<E, u32>(tb, g, how)),
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, ord, dbg);
}
pub mod smc {
use super::*;
tagged_box::tagged_box! {
    #[derive(Copy, Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        A(i8),
        B(u16),
        Bb(u8, u8),
        N,
    }
}
impl Enu for E {
    const NAME: &'static str = "smc";
    const NVAR: usize = 4;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::A(<i8>::make(g)),
        1 => E::B(<u16>::make(g)),
        2 => E::Bb(<u8>::make(g), <u8>::make(g)),
        _ => E::N,
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::A(a0) => { o.variant = 0; a0.look(o); }
        E::B(a0) => { o.variant = 1; a0.look(o); }
        E::Bb(a0, a1) => { o.variant = 2; a0.look(o); a1.look(o); }
        E::N => { o.variant = 3;  }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(i8)]),
        1 => shape(&[sa!(u16)]),
        2 => shape(&[sa!(u8), sa!(u8)]),
        _ => shape(&[]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::A(a0) => call(move || C::from(a0)),
        E::B(a0) => call(move || C::from(a0)),
        E::Bb(a0, a1) => call(move || C::from((a0, a1))),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        0 => Some(poke_as::<E, i8>(tb, g, how)),
        1 => Some(poke_as::<E, u16>(tb, g, how)),
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, ord, dbg, copy);
}
#[cfg(feature = "full")]
pub mod units {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        A,
        B,
        D,
    }
}
impl Enu for E {
    const NAME: &'static str = "units";
    const NVAR: usize = 3;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::A,
        1 => E::B,
        _ => E::D,
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::A => { o.variant = 0;  }
        E::B => { o.variant = 1;  }
        E::D => { o.variant = 2;  }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[]),
        1 => shape(&[]),
        _ => shape(&[]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, ord, dbg);
}
pub mod unit1 {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        Only,
    }
}
impl Enu for E {
    const NAME: &'static str = "unit1";
    const NVAR: usize = 1;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        _ => E::Only,
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::Only => { o.variant = 0;  }
    } }
    fn shape(v: usize) -> Shape { match v {
        _ => shape(&[]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, ord, dbg);
}
#[cfg(feature = "full")]
pub mod flags {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        On(bool),
        Off(Option<bool>),
    }
}
impl Enu for E {
    const NAME: &'static str = "flags";
    const NVAR: usize = 2;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::On(<bool>::make(g)),
        _ => E::Off(<Option<bool>>::make(g)),
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::On(a0) => { o.variant = 0; a0.look(o); }
        E::Off(a0) => { o.variant = 1; a0.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(bool)]),
        _ => shape(&[sa!(Option<bool>)]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::On(a0) => call(move || C::from(a0)),
        E::Off(a0) => call(move || C::from(a0)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        0 => Some(poke_as::<E, bool>(tb, g, how)),
        1 => Some(poke_as::<E, Option<bool>>(tb, g, how)),
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, ord, dbg);
}
pub mod odd1 {
use super::*;
tagged_box::tagged_box! {
    pub struct C, pub enum E {
        A(Tok),
        B(u32),
        N,
    }
}
impl Enu for E {
    const NAME: &'static str = "odd1";
    const NVAR: usize = 3;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::A(<Tok>::make(g)),
        1 => E::B(<u32>::make(g)),
        _ => E::N,
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::A(a0) => { o.variant = 0; a0.look(o); }
        E::B(a0) => { o.variant = 1; a0.look(o); }
        E::N => { o.variant = 2;  }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(Tok)]),
        1 => shape(&[sa!(u32)]),
        _ => shape(&[]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::A(a0) => call(move || C::from(a0)),
        E::B(a0) => call(move || C::from(a0)),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        0 => Some(poke_as::<E, Tok>(tb, g, how)),
        1 => Some(poke_as::<E, u32>(tb, g, how)),
        _ => None,
    } }
}
caps!(C, E; inner 0; clone, pord, disp);

impl Clone for E {
    fn clone(&self) -> E { match self { E::A(t) => E::A(t.clone()), E::B(x) => { user_code(Fault::ClonePanic); E::B(*x) } E::N => E::N } }
}
impl PartialEq for E {
    fn eq(&self, o: &E) -> bool { user_code(Fault::CmpPanic); match (self, o) { (E::A(a), E::A(b)) => { a.seen(); b.seen(); } _ => {} } let _ = o; true }
}
impl PartialOrd for E {
    fn partial_cmp(&self, o: &E) -> Option<std::cmp::Ordering> {
        user_code(Fault::CmpPanic);
        match (self, o) { (E::A(a), E::A(b)) => { a.seen(); b.seen(); } _ => {} }
        let _ = o; None
    }
}
impl fmt::Debug for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if user_fmt() { return Err(fmt::Error); }
        f.pad(match self { E::A(_) => "a", E::B(_) => "", E::N => "nnnn" })
    }
}
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if user_fmt() { return Err(fmt::Error); }
        match self { E::A(t) => { f.write_str("<")?; fmt::Display::fmt(t, f) } E::B(x) => fmt::Binary::fmt(x, f), E::N => f.write_fmt(format_args!("{:5}|", 7)) }
    }
}

}
pub mod odd2 {
use super::*;
tagged_box::tagged_box! {
    pub struct C, pub enum E {
        A(Tok),
        B(u32),
        N,
    }
}
impl Enu for E {
    const NAME: &'static str = "odd2";
    const NVAR: usize = 3;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::A(<Tok>::make(g)),
        1 => E::B(<u32>::make(g)),
        _ => E::N,
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::A(a0) => { o.variant = 0; a0.look(o); }
        E::B(a0) => { o.variant = 1; a0.look(o); }
        E::N => { o.variant = 2;  }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(Tok)]),
        1 => shape(&[sa!(u32)]),
        _ => shape(&[]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::A(a0) => call(move || C::from(a0)),
        E::B(a0) => call(move || C::from(a0)),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        0 => Some(poke_as::<E, Tok>(tb, g, how)),
        1 => Some(poke_as::<E, u32>(tb, g, how)),
        _ => None,
    } }
}
caps!(C, E; inner 0; clone, pord, disp);

impl Clone for E {
    fn clone(&self) -> E { match self { E::A(t) => E::A(t.clone()), E::B(x) => { user_code(Fault::ClonePanic); E::B(*x) } E::N => E::N } }
}
impl PartialEq for E {
    fn eq(&self, o: &E) -> bool { user_code(Fault::CmpPanic); match (self, o) { (E::A(a), E::A(b)) => { a.seen(); b.seen(); } _ => {} } let _ = o; false }
}
impl PartialOrd for E {
    fn partial_cmp(&self, o: &E) -> Option<std::cmp::Ordering> {
        user_code(Fault::CmpPanic);
        match (self, o) { (E::A(a), E::A(b)) => { a.seen(); b.seen(); } _ => {} }
        let _ = o; Some(std::cmp::Ordering::Equal)
    }
}
impl fmt::Debug for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if user_fmt() { return Err(fmt::Error); }
        f.pad(match self { E::A(_) => "a", E::B(_) => "", E::N => "nnnn" })
    }
}
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if user_fmt() { return Err(fmt::Error); }
        match self { E::A(t) => { f.write_str("<")?; fmt::Display::fmt(t, f) } E::B(x) => fmt::Binary::fmt(x, f), E::N => f.write_fmt(format_args!("{:5}|", 7)) }
    }
}

}
#[cfg(feature = "full")]
pub mod odd3 {
use super::*;
tagged_box::tagged_box! {
    pub struct C, pub enum E {
        A(Tok),
        B(u32),
        N,
    }
}
impl Enu for E {
    const NAME: &'static str = "odd3";
    const NVAR: usize = 3;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::A(<Tok>::make(g)),
        1 => E::B(<u32>::make(g)),
        _ => E::N,
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::A(a0) => { o.variant = 0; a0.look(o); }
        E::B(a0) => { o.variant = 1; a0.look(o); }
        E::N => { o.variant = 2;  }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(Tok)]),
        1 => shape(&[sa!(u32)]),
        _ => shape(&[]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::A(a0) => call(move || C::from(a0)),
        E::B(a0) => call(move || C::from(a0)),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        0 => Some(poke_as::<E, Tok>(tb, g, how)),
        1 => Some(poke_as::<E, u32>(tb, g, how)),
        _ => None,
    } }
}
caps!(C, E; inner 0; clone, pord, disp);

impl Clone for E {
    fn clone(&self) -> E { match self { E::A(t) => E::A(t.clone()), E::B(x) => { user_code(Fault::ClonePanic); E::B(*x) } E::N => E::N } }
}
impl PartialEq for E {
    fn eq(&self, o: &E) -> bool { user_code(Fault::CmpPanic); match (self, o) { (E::A(a), E::A(b)) => { a.seen(); b.seen(); } _ => {} } (match self { E::A(_) => 2u8, E::B(_) => 0, E::N => 1 }) != (match o { E::A(_) => 2u8, E::B(_) => 0, E::N => 1 }) }
}
impl PartialOrd for E {
    fn partial_cmp(&self, o: &E) -> Option<std::cmp::Ordering> {
        user_code(Fault::CmpPanic);
        match (self, o) { (E::A(a), E::A(b)) => { a.seen(); b.seen(); } _ => {} }
        Some(if (match self { E::A(_) => 2u8, E::B(_) => 0, E::N => 1 }) <= (match o { E::A(_) => 2u8, E::B(_) => 0, E::N => 1 }) { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Less })
    }
}
impl fmt::Debug for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if user_fmt() { return Err(fmt::Error); }
        f.pad(match self { E::A(_) => "a", E::B(_) => "", E::N => "nnnn" })
    }
}
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if user_fmt() { return Err(fmt::Error); }
        match self { E::A(t) => { f.write_str("<")?; fmt::Display::fmt(t, f) } E::B(x) => fmt::Binary::fmt(x, f), E::N => f.write_fmt(format_args!("{:5}|", 7)) }
    }
}

}
pub mod guide {
use super::*;

use tagged_box::{TaggableContainer, TaggableInner};
#[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
#[repr(transparent)]
pub struct C { value: TaggedBox<E> }
impl TaggableContainer for C {
    type Inner = E;
    fn into_inner(self) -> E { E::from_tagged_box(self.value) }
}
impl From<E> for C {
    fn from(e: E) -> C { C { value: e.into_tagged_box() } }
}

#[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
pub enum E { Value(Tok), Flag(bool), Text(Str), Pair((TokS, u16)) }
enum Counter { Value, Flag, Text, Pair }
impl TaggableInner for E {
    fn into_tagged_box(self) -> TaggedBox<E> {
        match self {
            E::Value(x) => TaggedBox::new(x, Counter::Value as _),
            E::Flag(x) => TaggedBox::new(x, Counter::Flag as _),
            E::Text(x) => TaggedBox::new(x, Counter::Text as _),
            E::Pair(x) => TaggedBox::new(x, Counter::Pair as _),
        }
    }
    fn from_tagged_box(tagged: TaggedBox<E>) -> E {
        unsafe {
            match tagged.discriminant() {
                d if d == Counter::Value as Disc => E::Value(TaggedBox::into_inner(tagged)),
                d if d == Counter::Flag as Disc => E::Flag(TaggedBox::into_inner(tagged)),
                d if d == Counter::Text as Disc => E::Text(TaggedBox::into_inner(tagged)),
                d if d == Counter::Pair as Disc => E::Pair(TaggedBox::into_inner(tagged)),
                _ => panic!(),
            }
        }
    }
    unsafe fn ref_from_tagged_box<F: FnOnce(&E)>(tagged: &TaggedBox<E>, callback: F) {
        let e = std::mem::ManuallyDrop::new(match tagged.discriminant() {
            d if d == Counter::Value as Disc => E::Value(tagged.as_ptr::<Tok>().read()),
            d if d == Counter::Flag as Disc => E::Flag(tagged.as_ptr::<bool>().read()),
            d if d == Counter::Text as Disc => E::Text(tagged.as_ptr::<Str>().read()),
            d if d == Counter::Pair as Disc => E::Pair(tagged.as_ptr::<(TokS, u16)>().read()),
            _ => panic!(),
        });
        callback(&e)
    }
}

impl Enu for E {
    const NAME: &'static str = "guide";
    const NVAR: usize = 4;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::Value(<Tok>::make(g)),
        1 => E::Flag(<bool>::make(g)),
        2 => E::Text(<Str>::make(g)),
        _ => E::Pair(<(TokS, u16)>::make(g)),
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::Value(a0) => { o.variant = 0; a0.look(o); }
        E::Flag(a0) => { o.variant = 1; a0.look(o); }
        E::Text(a0) => { o.variant = 2; a0.look(o); }
        E::Pair(a0) => { o.variant = 3; a0.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(Tok)]),
        1 => shape(&[sa!(bool)]),
        2 => shape(&[sa!(Str)]),
        _ => shape(&[sa!((TokS, u16))]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        0 => Some(poke_as::<E, Tok>(tb, g, how)),
        1 => Some(poke_as::<E, bool>(tb, g, how)),
        2 => Some(poke_as::<E, Str>(tb, g, how)),
        3 => Some(poke_as::<E, (TokS, u16)>(tb, g, how)),
        _ => None,
    } }
}
caps!(C, E; DERIVED | STD_ALLOC; clone, ord, dbg);
}
pub mod whole {
use super::*;

use tagged_box::{TaggableContainer, TaggableInner};
#[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
#[repr(transparent)]
pub struct C { value: TaggedBox<E> }
impl TaggableContainer for C {
    type Inner = E;
    fn into_inner(self) -> E { E::from_tagged_box(self.value) }
}
impl From<E> for C {
    fn from(e: E) -> C { C { value: e.into_tagged_box() } }
}

#[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
pub enum E { Value(Tok), Two(u8, Tok), Nil, Rec { t: TokS, k: [u16; 3] }, Wide(A64) }
impl TaggableInner for E {
    fn into_tagged_box(self) -> TaggedBox<E> {
        let d = match self { E::Value(..) => 0, E::Two(..) => 1, E::Nil => 2, E::Rec { .. } => 3, E::Wide(..) => 4 };
        TaggedBox::new(self, d)
    }
    fn from_tagged_box(tagged: TaggedBox<E>) -> E {
        assert!(tagged.discriminant() < 5);
        unsafe { TaggedBox::into_inner(tagged) }
    }
    unsafe fn ref_from_tagged_box<F: FnOnce(&E)>(tagged: &TaggedBox<E>, callback: F) {
        assert!(tagged.discriminant() < 5);
        callback(tagged.as_ref::<E>())
    }
}

impl Enu for E {
    const NAME: &'static str = "whole";
    const NVAR: usize = 5;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::Value(<Tok>::make(g)),
        1 => E::Two(<u8>::make(g), <Tok>::make(g)),
        2 => E::Nil,
        3 => E::Rec { t: <TokS>::make(g), k: <[u16; 3]>::make(g) },
        _ => E::Wide(<A64>::make(g)),
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::Value(a0) => { o.variant = 0; a0.look(o); }
        E::Two(a0, a1) => { o.variant = 1; a0.look(o); a1.look(o); }
        E::Nil => { o.variant = 2;  }
        E::Rec { t, k } => { o.variant = 3; t.look(o); k.look(o); }
        E::Wide(a0) => { o.variant = 4; a0.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(E)]),
        1 => shape(&[sa!(E)]),
        2 => shape(&[sa!(E)]),
        3 => shape(&[sa!(E)]),
        _ => shape(&[sa!(E)]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, ord, dbg);
}
#[cfg(feature = "full")]
pub mod rnd0 {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        V0 { f0: Tok, f1: Str, f2: By<100> },
        V1(TokS, By<17>, By<1500>),
        V2([Tok; 2]),
        V3(By<1500>),
        V4(usize, i16, ZTok, By<31>, By<31>, i8),
        V5(TokS),
        V6(TokS, Tok, A32, isize, u8),
        V7 { f0: A16 },
        V8(i8, By<100>),
    }
}
impl Enu for E {
    const NAME: &'static str = "rnd0";
    const NVAR: usize = 9;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::V0 { f0: <Tok>::make(g), f1: <Str>::make(g), f2: <By<100>>::make(g) },
        1 => E::V1(<TokS>::make(g), <By<17>>::make(g), <By<1500>>::make(g)),
        2 => E::V2(<[Tok; 2]>::make(g)),
        3 => E::V3(<By<1500>>::make(g)),
        4 => E::V4(<usize>::make(g), <i16>::make(g), <ZTok>::make(g), <By<31>>::make(g), <By<31>>::make(g), <i8>::make(g)),
        5 => E::V5(<TokS>::make(g)),
        6 => E::V6(<TokS>::make(g), <Tok>::make(g), <A32>::make(g), <isize>::make(g), <u8>::make(g)),
        7 => E::V7 { f0: <A16>::make(g) },
        _ => E::V8(<i8>::make(g), <By<100>>::make(g)),
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::V0 { f0, f1, f2 } => { o.variant = 0; f0.look(o); f1.look(o); f2.look(o); }
        E::V1(a0, a1, a2) => { o.variant = 1; a0.look(o); a1.look(o); a2.look(o); }
        E::V2(a0) => { o.variant = 2; a0.look(o); }
        E::V3(a0) => { o.variant = 3; a0.look(o); }
        E::V4(a0, a1, a2, a3, a4, a5) => { o.variant = 4; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); }
        E::V5(a0) => { o.variant = 5; a0.look(o); }
        E::V6(a0, a1, a2, a3, a4) => { o.variant = 6; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); }
        E::V7 { f0 } => { o.variant = 7; f0.look(o); }
        E::V8(a0, a1) => { o.variant = 8; a0.look(o); a1.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(Tok), sa!(Str), sa!(By<100>)]),
        1 => shape(&[sa!(TokS), sa!(By<17>), sa!(By<1500>)]),
        2 => shape(&[sa!([Tok; 2])]),
        3 => shape(&[sa!(By<1500>)]),
        4 => shape(&[sa!(usize), sa!(i16), sa!(ZTok), sa!(By<31>), sa!(By<31>), sa!(i8)]),
        5 => shape(&[sa!(TokS)]),
        6 => shape(&[sa!(TokS), sa!(Tok), sa!(A32), sa!(isize), sa!(u8)]),
        7 => shape(&[sa!(A16)]),
        _ => shape(&[sa!(i8), sa!(By<100>)]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::V1(a0, a1, a2) => call(move || C::from((a0, a1, a2))),
        E::V2(a0) => call(move || C::from(a0)),
        E::V3(a0) => call(move || C::from(a0)),
        E::V4(a0, a1, a2, a3, a4, a5) => call(move || C::from((a0, a1, a2, a3, a4, a5))),
        E::V5(a0) => call(move || C::from(a0)),
        E::V6(a0, a1, a2, a3, a4) => call(move || C::from((a0, a1, a2, a3, a4))),
        E::V8(a0, a1) => call(move || C::from((a0, a1))),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        2 => Some(poke_as::<E, [Tok; 2]>(tb, g, how)),
        3 => Some(poke_as::<E, By<1500>>(tb, g, how)),
        5 => Some(poke_as::<E, TokS>(tb, g, how)),
        _ => None,
    } }
}
caps!(C, E; DERIVED | STD_ALLOC; clone, ord, dbg);
}
#[cfg(feature = "full")]
pub mod rnd1 {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        V0([u16; 3], TokS, By<9>, A2),
        V1(i16, u16, [Tok; 2], A128, A2, (u8, A16)),
        V2,
        V3(u128, i32, A4, By<7>, TokS),
        V4(u32, By<200>),
        V5(Z2),
    }
}
impl Enu for E {
    const NAME: &'static str = "rnd1";
    const NVAR: usize = 6;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::V0(<[u16; 3]>::make(g), <TokS>::make(g), <By<9>>::make(g), <A2>::make(g)),
        1 => E::V1(<i16>::make(g), <u16>::make(g), <[Tok; 2]>::make(g), <A128>::make(g), <A2>::make(g), <(u8, A16)>::make(g)),
        2 => E::V2,
        3 => E::V3(<u128>::make(g), <i32>::make(g), <A4>::make(g), <By<7>>::make(g), <TokS>::make(g)),
        4 => E::V4(<u32>::make(g), <By<200>>::make(g)),
        _ => E::V5(<Z2>::make(g)),
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::V0(a0, a1, a2, a3) => { o.variant = 0; a0.look(o); a1.look(o); a2.look(o); a3.look(o); }
        E::V1(a0, a1, a2, a3, a4, a5) => { o.variant = 1; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); }
        E::V2 => { o.variant = 2;  }
        E::V3(a0, a1, a2, a3, a4) => { o.variant = 3; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); }
        E::V4(a0, a1) => { o.variant = 4; a0.look(o); a1.look(o); }
        E::V5(a0) => { o.variant = 5; a0.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!([u16; 3]), sa!(TokS), sa!(By<9>), sa!(A2)]),
        1 => shape(&[sa!(i16), sa!(u16), sa!([Tok; 2]), sa!(A128), sa!(A2), sa!((u8, A16))]),
        2 => shape(&[]),
        3 => shape(&[sa!(u128), sa!(i32), sa!(A4), sa!(By<7>), sa!(TokS)]),
        4 => shape(&[sa!(u32), sa!(By<200>)]),
        _ => shape(&[sa!(Z2)]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::V0(a0, a1, a2, a3) => call(move || C::from((a0, a1, a2, a3))),
        E::V1(a0, a1, a2, a3, a4, a5) => call(move || C::from((a0, a1, a2, a3, a4, a5))),
        E::V3(a0, a1, a2, a3, a4) => call(move || C::from((a0, a1, a2, a3, a4))),
        E::V4(a0, a1) => call(move || C::from((a0, a1))),
        E::V5(a0) => call(move || C::from(a0)),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        5 => Some(poke_as::<E, Z2>(tb, g, how)),
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, ord, dbg);
}
#[cfg(feature = "full")]
pub mod rnd2 {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        V0(TokS, A64, (), Tok),
        V1,
        V2 { f0: char, f1: ZTok, f2: A2, f3: TokS, f4: By<2>, f5: By<1500>, },
        V3 { f0: i32, f1: Str, f2: By<9>, f3: i128, f4: Option<u64>, f5: Option<Tok> },
        V4,
        V5 { f0: (u8, A16), f1: TokS, f2: By<7>, },
        V6 { f0: TokS, f1: u16, f2: (), f3: i16, },
        V7 { f0: Z2, },
        V8 { f0: Tok, f1: u64, f2: ZTok, f3: Str, f4: isize, f5: By<33>, },
    }
}
impl Enu for E {
    const NAME: &'static str = "rnd2";
    const NVAR: usize = 9;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::V0(<TokS>::make(g), <A64>::make(g), <()>::make(g), <Tok>::make(g)),
        1 => E::V1,
        2 => E::V2 { f0: <char>::make(g), f1: <ZTok>::make(g), f2: <A2>::make(g), f3: <TokS>::make(g), f4: <By<2>>::make(g), f5: <By<1500>>::make(g) },
        3 => E::V3 { f0: <i32>::make(g), f1: <Str>::make(g), f2: <By<9>>::make(g), f3: <i128>::make(g), f4: <Option<u64>>::make(g), f5: <Option<Tok>>::make(g) },
        4 => E::V4,
        5 => E::V5 { f0: <(u8, A16)>::make(g), f1: <TokS>::make(g), f2: <By<7>>::make(g) },
        6 => E::V6 { f0: <TokS>::make(g), f1: <u16>::make(g), f2: <()>::make(g), f3: <i16>::make(g) },
        7 => E::V7 { f0: <Z2>::make(g) },
        _ => E::V8 { f0: <Tok>::make(g), f1: <u64>::make(g), f2: <ZTok>::make(g), f3: <Str>::make(g), f4: <isize>::make(g), f5: <By<33>>::make(g) },
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::V0(a0, a1, a2, a3) => { o.variant = 0; a0.look(o); a1.look(o); a2.look(o); a3.look(o); }
        E::V1 => { o.variant = 1;  }
        E::V2 { f0, f1, f2, f3, f4, f5 } => { o.variant = 2; f0.look(o); f1.look(o); f2.look(o); f3.look(o); f4.look(o); f5.look(o); }
        E::V3 { f0, f1, f2, f3, f4, f5 } => { o.variant = 3; f0.look(o); f1.look(o); f2.look(o); f3.look(o); f4.look(o); f5.look(o); }
        E::V4 => { o.variant = 4;  }
        E::V5 { f0, f1, f2 } => { o.variant = 5; f0.look(o); f1.look(o); f2.look(o); }
        E::V6 { f0, f1, f2, f3 } => { o.variant = 6; f0.look(o); f1.look(o); f2.look(o); f3.look(o); }
        E::V7 { f0 } => { o.variant = 7; f0.look(o); }
        E::V8 { f0, f1, f2, f3, f4, f5 } => { o.variant = 8; f0.look(o); f1.look(o); f2.look(o); f3.look(o); f4.look(o); f5.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(TokS), sa!(A64), sa!(()), sa!(Tok)]),
        1 => shape(&[]),
        2 => shape(&[sa!(char), sa!(ZTok), sa!(A2), sa!(TokS), sa!(By<2>), sa!(By<1500>)]),
        3 => shape(&[sa!(i32), sa!(Str), sa!(By<9>), sa!(i128), sa!(Option<u64>), sa!(Option<Tok>)]),
        4 => shape(&[]),
        5 => shape(&[sa!((u8, A16)), sa!(TokS), sa!(By<7>)]),
        6 => shape(&[sa!(TokS), sa!(u16), sa!(()), sa!(i16)]),
        7 => shape(&[sa!(Z2)]),
        _ => shape(&[sa!(Tok), sa!(u64), sa!(ZTok), sa!(Str), sa!(isize), sa!(By<33>)]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::V0(a0, a1, a2, a3) => call(move || C::from((a0, a1, a2, a3))),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        _ => None,
    } }
}
caps!(C, E; DERIVED | STD_ALLOC; clone, ord, dbg);
}
#[cfg(feature = "full")]
pub mod rnd3 {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        V0(u8, i64, By<3>, u32),
        V1(By<100>),
        V2(Z2, u128, isize, By<7>, By<2>, By<1500>),
        V3(i8),
        V4(By<3>),
        V5([Tok; 2]),
        V6(isize, A4, By<2>, [u16; 3], u8),
        V7 { f0: i128 },
        V8 { f0: A128, f1: Z8, f2: (Tok, u8) },
    }
}
impl Enu for E {
    const NAME: &'static str = "rnd3";
    const NVAR: usize = 9;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::V0(<u8>::make(g), <i64>::make(g), <By<3>>::make(g), <u32>::make(g)),
        1 => E::V1(<By<100>>::make(g)),
        2 => E::V2(<Z2>::make(g), <u128>::make(g), <isize>::make(g), <By<7>>::make(g), <By<2>>::make(g), <By<1500>>::make(g)),
        3 => E::V3(<i8>::make(g)),
        4 => E::V4(<By<3>>::make(g)),
        5 => E::V5(<[Tok; 2]>::make(g)),
        6 => E::V6(<isize>::make(g), <A4>::make(g), <By<2>>::make(g), <[u16; 3]>::make(g), <u8>::make(g)),
        7 => E::V7 { f0: <i128>::make(g) },
        _ => E::V8 { f0: <A128>::make(g), f1: <Z8>::make(g), f2: <(Tok, u8)>::make(g) },
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::V0(a0, a1, a2, a3) => { o.variant = 0; a0.look(o); a1.look(o); a2.look(o); a3.look(o); }
        E::V1(a0) => { o.variant = 1; a0.look(o); }
        E::V2(a0, a1, a2, a3, a4, a5) => { o.variant = 2; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); }
        E::V3(a0) => { o.variant = 3; a0.look(o); }
        E::V4(a0) => { o.variant = 4; a0.look(o); }
        E::V5(a0) => { o.variant = 5; a0.look(o); }
        E::V6(a0, a1, a2, a3, a4) => { o.variant = 6; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); }
        E::V7 { f0 } => { o.variant = 7; f0.look(o); }
        E::V8 { f0, f1, f2 } => { o.variant = 8; f0.look(o); f1.look(o); f2.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(u8), sa!(i64), sa!(By<3>), sa!(u32)]),
        1 => shape(&[sa!(By<100>)]),
        2 => shape(&[sa!(Z2), sa!(u128), sa!(isize), sa!(By<7>), sa!(By<2>), sa!(By<1500>)]),
        3 => shape(&[sa!(i8)]),
        4 => shape(&[sa!(By<3>)]),
        5 => shape(&[sa!([Tok; 2])]),
        6 => shape(&[sa!(isize), sa!(A4), sa!(By<2>), sa!([u16; 3]), sa!(u8)]),
        7 => shape(&[sa!(i128)]),
        _ => shape(&[sa!(A128), sa!(Z8), sa!((Tok, u8))]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::V0(a0, a1, a2, a3) => call(move || C::from((a0, a1, a2, a3))),
        E::V1(a0) => call(move || C::from(a0)),
        E::V2(a0, a1, a2, a3, a4, a5) => call(move || C::from((a0, a1, a2, a3, a4, a5))),
        E::V3(a0) => call(move || C::from(a0)),
        E::V4(a0) => call(move || C::from(a0)),
        E::V5(a0) => call(move || C::from(a0)),
        E::V6(a0, a1, a2, a3, a4) => call(move || C::from((a0, a1, a2, a3, a4))),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        1 => Some(poke_as::<E, By<100>>(tb, g, how)),
        3 => Some(poke_as::<E, i8>(tb, g, how)),
        4 => Some(poke_as::<E, By<3>>(tb, g, how)),
        5 => Some(poke_as::<E, [Tok; 2]>(tb, g, how)),
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, ord, dbg);
}
#[cfg(feature = "full")]
pub mod rnd4 {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        V0,
        V1(u16, By<100>),
    }
}
impl Enu for E {
    const NAME: &'static str = "rnd4";
    const NVAR: usize = 2;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::V0,
        _ => E::V1(<u16>::make(g), <By<100>>::make(g)),
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::V0 => { o.variant = 0;  }
        E::V1(a0, a1) => { o.variant = 1; a0.look(o); a1.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[]),
        _ => shape(&[sa!(u16), sa!(By<100>)]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::V1(a0, a1) => call(move || C::from((a0, a1))),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, ord, dbg);
}
#[cfg(feature = "full")]
pub mod rnd5 {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        V0 { f0: By<1>, f1: ZTok, f2: (u8, A16), f3: u16, f4: A128, f5: By<1> },
        V1((), A16, TokS, TokS),
    }
}
impl Enu for E {
    const NAME: &'static str = "rnd5";
    const NVAR: usize = 2;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::V0 { f0: <By<1>>::make(g), f1: <ZTok>::make(g), f2: <(u8, A16)>::make(g), f3: <u16>::make(g), f4: <A128>::make(g), f5: <By<1>>::make(g) },
        _ => E::V1(<()>::make(g), <A16>::make(g), <TokS>::make(g), <TokS>::make(g)),
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::V0 { f0, f1, f2, f3, f4, f5 } => { o.variant = 0; f0.look(o); f1.look(o); f2.look(o); f3.look(o); f4.look(o); f5.look(o); }
        E::V1(a0, a1, a2, a3) => { o.variant = 1; a0.look(o); a1.look(o); a2.look(o); a3.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(By<1>), sa!(ZTok), sa!((u8, A16)), sa!(u16), sa!(A128), sa!(By<1>)]),
        _ => shape(&[sa!(()), sa!(A16), sa!(TokS), sa!(TokS)]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::V1(a0, a1, a2, a3) => call(move || C::from((a0, a1, a2, a3))),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, ord, dbg);
}
#[cfg(feature = "full")]
pub mod rnd6 {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        V0(By<9>, A2, Option<u64>, isize, By<5>, TokS),
        V1(Str, Tok),
        V2 { f0: By<200>, f1: By<200>, f2: Option<u64> },
        V3 { f0: (), f1: [Tok; 2], f2: i8, },
        V4(ZTok, isize, char),
    }
}
impl Enu for E {
    const NAME: &'static str = "rnd6";
    const NVAR: usize = 5;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::V0(<By<9>>::make(g), <A2>::make(g), <Option<u64>>::make(g), <isize>::make(g), <By<5>>::make(g), <TokS>::make(g)),
        1 => E::V1(<Str>::make(g), <Tok>::make(g)),
        2 => E::V2 { f0: <By<200>>::make(g), f1: <By<200>>::make(g), f2: <Option<u64>>::make(g) },
        3 => E::V3 { f0: <()>::make(g), f1: <[Tok; 2]>::make(g), f2: <i8>::make(g) },
        _ => E::V4(<ZTok>::make(g), <isize>::make(g), <char>::make(g)),
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::V0(a0, a1, a2, a3, a4, a5) => { o.variant = 0; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); }
        E::V1(a0, a1) => { o.variant = 1; a0.look(o); a1.look(o); }
        E::V2 { f0, f1, f2 } => { o.variant = 2; f0.look(o); f1.look(o); f2.look(o); }
        E::V3 { f0, f1, f2 } => { o.variant = 3; f0.look(o); f1.look(o); f2.look(o); }
        E::V4(a0, a1, a2) => { o.variant = 4; a0.look(o); a1.look(o); a2.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(By<9>), sa!(A2), sa!(Option<u64>), sa!(isize), sa!(By<5>), sa!(TokS)]),
        1 => shape(&[sa!(Str), sa!(Tok)]),
        2 => shape(&[sa!(By<200>), sa!(By<200>), sa!(Option<u64>)]),
        3 => shape(&[sa!(()), sa!([Tok; 2]), sa!(i8)]),
        _ => shape(&[sa!(ZTok), sa!(isize), sa!(char)]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::V0(a0, a1, a2, a3, a4, a5) => call(move || C::from((a0, a1, a2, a3, a4, a5))),
        E::V1(a0, a1) => call(move || C::from((a0, a1))),
        E::V4(a0, a1, a2) => call(move || C::from((a0, a1, a2))),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        _ => None,
    } }
}
caps!(C, E; DERIVED | STD_ALLOC; clone, ord, dbg);
}
#[cfg(feature = "full")]
pub mod rnd7 {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        V0,
        V1(By<100>),
        V2(i64, A128),
    }
}
impl Enu for E {
    const NAME: &'static str = "rnd7";
    const NVAR: usize = 3;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::V0,
        1 => E::V1(<By<100>>::make(g)),
        _ => E::V2(<i64>::make(g), <A128>::make(g)),
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::V0 => { o.variant = 0;  }
        E::V1(a0) => { o.variant = 1; a0.look(o); }
        E::V2(a0, a1) => { o.variant = 2; a0.look(o); a1.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[]),
        1 => shape(&[sa!(By<100>)]),
        _ => shape(&[sa!(i64), sa!(A128)]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::V1(a0) => call(move || C::from(a0)),
        E::V2(a0, a1) => call(move || C::from((a0, a1))),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        1 => Some(poke_as::<E, By<100>>(tb, g, how)),
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, ord, dbg);
}
#[cfg(feature = "full")]
pub mod rnd8 {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        V0(Tok, By<9>),
        V1 { f0: i128, f1: By<200>, f2: TokS, f3: Option<Tok>, f4: By<12>, f5: Tok },
        V2([u16; 3], [u16; 3]),
    }
}
impl Enu for E {
    const NAME: &'static str = "rnd8";
    const NVAR: usize = 3;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::V0(<Tok>::make(g), <By<9>>::make(g)),
        1 => E::V1 { f0: <i128>::make(g), f1: <By<200>>::make(g), f2: <TokS>::make(g), f3: <Option<Tok>>::make(g), f4: <By<12>>::make(g), f5: <Tok>::make(g) },
        _ => E::V2(<[u16; 3]>::make(g), <[u16; 3]>::make(g)),
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::V0(a0, a1) => { o.variant = 0; a0.look(o); a1.look(o); }
        E::V1 { f0, f1, f2, f3, f4, f5 } => { o.variant = 1; f0.look(o); f1.look(o); f2.look(o); f3.look(o); f4.look(o); f5.look(o); }
        E::V2(a0, a1) => { o.variant = 2; a0.look(o); a1.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(Tok), sa!(By<9>)]),
        1 => shape(&[sa!(i128), sa!(By<200>), sa!(TokS), sa!(Option<Tok>), sa!(By<12>), sa!(Tok)]),
        _ => shape(&[sa!([u16; 3]), sa!([u16; 3])]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::V0(a0, a1) => call(move || C::from((a0, a1))),
        E::V2(a0, a1) => call(move || C::from((a0, a1))),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, ord, dbg);
}
#[cfg(feature = "full")]
pub mod rnd9 {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        V0,
        V1(Z2, TokS, By<12>, TokS, i16, Str),
        V2(u128),
        V3,
        V4([u16; 3], A32, By<9>, isize, By<1>),
        V5(A4),
        V6 { f0: (Tok, u8), f1: A32 },
        V7,
    }
}
impl Enu for E {
    const NAME: &'static str = "rnd9";
    const NVAR: usize = 8;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::V0,
        1 => E::V1(<Z2>::make(g), <TokS>::make(g), <By<12>>::make(g), <TokS>::make(g), <i16>::make(g), <Str>::make(g)),
        2 => E::V2(<u128>::make(g)),
        3 => E::V3,
        4 => E::V4(<[u16; 3]>::make(g), <A32>::make(g), <By<9>>::make(g), <isize>::make(g), <By<1>>::make(g)),
        5 => E::V5(<A4>::make(g)),
        6 => E::V6 { f0: <(Tok, u8)>::make(g), f1: <A32>::make(g) },
        _ => E::V7,
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::V0 => { o.variant = 0;  }
        E::V1(a0, a1, a2, a3, a4, a5) => { o.variant = 1; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); }
        E::V2(a0) => { o.variant = 2; a0.look(o); }
        E::V3 => { o.variant = 3;  }
        E::V4(a0, a1, a2, a3, a4) => { o.variant = 4; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); }
        E::V5(a0) => { o.variant = 5; a0.look(o); }
        E::V6 { f0, f1 } => { o.variant = 6; f0.look(o); f1.look(o); }
        E::V7 => { o.variant = 7;  }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[]),
        1 => shape(&[sa!(Z2), sa!(TokS), sa!(By<12>), sa!(TokS), sa!(i16), sa!(Str)]),
        2 => shape(&[sa!(u128)]),
        3 => shape(&[]),
        4 => shape(&[sa!([u16; 3]), sa!(A32), sa!(By<9>), sa!(isize), sa!(By<1>)]),
        5 => shape(&[sa!(A4)]),
        6 => shape(&[sa!((Tok, u8)), sa!(A32)]),
        _ => shape(&[]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::V1(a0, a1, a2, a3, a4, a5) => call(move || C::from((a0, a1, a2, a3, a4, a5))),
        E::V2(a0) => call(move || C::from(a0)),
        E::V4(a0, a1, a2, a3, a4) => call(move || C::from((a0, a1, a2, a3, a4))),
        E::V5(a0) => call(move || C::from(a0)),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        2 => Some(poke_as::<E, u128>(tb, g, how)),
        5 => Some(poke_as::<E, A4>(tb, g, how)),
        _ => None,
    } }
}
caps!(C, E; DERIVED | STD_ALLOC; clone, ord, dbg);
}
#[cfg(feature = "full")]
pub mod rnd10 {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        V0(By<9>),
        V1(u128, Str),
        V2(u128),
        V3 { f0: isize, f1: By<31>, f2: By<5>, f3: By<3>, f4: A32, },
        V4 { f0: By<200>, f1: Tok, f2: (Tok, u8), f3: By<1500>, f4: By<31>, f5: (Tok, u8), },
        V5 { f0: A2, f1: Option<Tok>, f2: [Tok; 2], f3: Option<Tok>, },
        V6(By<1500>, u128, A2, Tok),
        V7(By<7>),
        V8 { f0: u64, f1: (Tok, u8), },
    }
}
impl Enu for E {
    const NAME: &'static str = "rnd10";
    const NVAR: usize = 9;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::V0(<By<9>>::make(g)),
        1 => E::V1(<u128>::make(g), <Str>::make(g)),
        2 => E::V2(<u128>::make(g)),
        3 => E::V3 { f0: <isize>::make(g), f1: <By<31>>::make(g), f2: <By<5>>::make(g), f3: <By<3>>::make(g), f4: <A32>::make(g) },
        4 => E::V4 { f0: <By<200>>::make(g), f1: <Tok>::make(g), f2: <(Tok, u8)>::make(g), f3: <By<1500>>::make(g), f4: <By<31>>::make(g), f5: <(Tok, u8)>::make(g) },
        5 => E::V5 { f0: <A2>::make(g), f1: <Option<Tok>>::make(g), f2: <[Tok; 2]>::make(g), f3: <Option<Tok>>::make(g) },
        6 => E::V6(<By<1500>>::make(g), <u128>::make(g), <A2>::make(g), <Tok>::make(g)),
        7 => E::V7(<By<7>>::make(g)),
        _ => E::V8 { f0: <u64>::make(g), f1: <(Tok, u8)>::make(g) },
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::V0(a0) => { o.variant = 0; a0.look(o); }
        E::V1(a0, a1) => { o.variant = 1; a0.look(o); a1.look(o); }
        E::V2(a0) => { o.variant = 2; a0.look(o); }
        E::V3 { f0, f1, f2, f3, f4 } => { o.variant = 3; f0.look(o); f1.look(o); f2.look(o); f3.look(o); f4.look(o); }
        E::V4 { f0, f1, f2, f3, f4, f5 } => { o.variant = 4; f0.look(o); f1.look(o); f2.look(o); f3.look(o); f4.look(o); f5.look(o); }
        E::V5 { f0, f1, f2, f3 } => { o.variant = 5; f0.look(o); f1.look(o); f2.look(o); f3.look(o); }
        E::V6(a0, a1, a2, a3) => { o.variant = 6; a0.look(o); a1.look(o); a2.look(o); a3.look(o); }
        E::V7(a0) => { o.variant = 7; a0.look(o); }
        E::V8 { f0, f1 } => { o.variant = 8; f0.look(o); f1.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(By<9>)]),
        1 => shape(&[sa!(u128), sa!(Str)]),
        2 => shape(&[sa!(u128)]),
        3 => shape(&[sa!(isize), sa!(By<31>), sa!(By<5>), sa!(By<3>), sa!(A32)]),
        4 => shape(&[sa!(By<200>), sa!(Tok), sa!((Tok, u8)), sa!(By<1500>), sa!(By<31>), sa!((Tok, u8))]),
        5 => shape(&[sa!(A2), sa!(Option<Tok>), sa!([Tok; 2]), sa!(Option<Tok>)]),
        6 => shape(&[sa!(By<1500>), sa!(u128), sa!(A2), sa!(Tok)]),
        7 => shape(&[sa!(By<7>)]),
        _ => shape(&[sa!(u64), sa!((Tok, u8))]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::V0(a0) => call(move || C::from(a0)),
        E::V1(a0, a1) => call(move || C::from((a0, a1))),
        E::V2(a0) => call(move || C::from(a0)),
        E::V6(a0, a1, a2, a3) => call(move || C::from((a0, a1, a2, a3))),
        E::V7(a0) => call(move || C::from(a0)),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        0 => Some(poke_as::<E, By<9>>(tb, g, how)),
        2 => Some(poke_as::<E, u128>(tb, g, how)),
        7 => Some(poke_as::<E, By<7>>(tb, g, how)),
        _ => None,
    } }
}
caps!(C, E; DERIVED | STD_ALLOC; clone, ord, dbg);
}
#[cfg(feature = "full")]
pub mod rnd11 {
use super::*;
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
    pub struct C, pub enum E {
        V0 { f0: TokS, f1: By<12>, f2: A16, f3: By<1>, f4: By<9> },
        V1((u8, A16), By<9>, usize, u8, A4, By<7>),
        V2,
        V3 { f0: By<100>, f1: u128, f2: i64, },
    }
}
impl Enu for E {
    const NAME: &'static str = "rnd11";
    const NVAR: usize = 4;
    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {
        0 => E::V0 { f0: <TokS>::make(g), f1: <By<12>>::make(g), f2: <A16>::make(g), f3: <By<1>>::make(g), f4: <By<9>>::make(g) },
        1 => E::V1(<(u8, A16)>::make(g), <By<9>>::make(g), <usize>::make(g), <u8>::make(g), <A4>::make(g), <By<7>>::make(g)),
        2 => E::V2,
        _ => E::V3 { f0: <By<100>>::make(g), f1: <u128>::make(g), f2: <i64>::make(g) },
    } }
    fn look_into(&self, o: &mut Look) { match self {
        E::V0 { f0, f1, f2, f3, f4 } => { o.variant = 0; f0.look(o); f1.look(o); f2.look(o); f3.look(o); f4.look(o); }
        E::V1(a0, a1, a2, a3, a4, a5) => { o.variant = 1; a0.look(o); a1.look(o); a2.look(o); a3.look(o); a4.look(o); a5.look(o); }
        E::V2 => { o.variant = 2;  }
        E::V3 { f0, f1, f2 } => { o.variant = 3; f0.look(o); f1.look(o); f2.look(o); }
    } }
    fn shape(v: usize) -> Shape { match v {
        0 => shape(&[sa!(TokS), sa!(By<12>), sa!(A16), sa!(By<1>), sa!(By<9>)]),
        1 => shape(&[sa!((u8, A16)), sa!(By<9>), sa!(usize), sa!(u8), sa!(A4), sa!(By<7>)]),
        2 => shape(&[]),
        _ => shape(&[sa!(By<100>), sa!(u128), sa!(i64)]),
    } }
}
impl Con for C {
    type E = E;
    fn by_fields(e: E) -> Outcome<Self> { match e {
        E::V1(a0, a1, a2, a3, a4, a5) => call(move || C::from((a0, a1, a2, a3, a4, a5))),
        e => call(move || C::from(e)),
    } }
    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {
        _ => None,
    } }
}
caps!(C, E; DERIVED; clone, ord, dbg);
}
pub const SUBJECTS: &[Subject] = &[
    subj::<ar0::C>(),
    #[cfg(feature = "full")]
    subj::<ar1::C>(),
    #[cfg(feature = "full")]
    subj::<ar2::C>(),
    subj::<ar3::C>(),
    #[cfg(feature = "full")]
    subj::<ar4::C>(),
    #[cfg(feature = "full")]
    subj::<ar5::C>(),
    #[cfg(feature = "full")]
    subj::<ar6::C>(),
    #[cfg(feature = "full")]
    subj::<ar7::C>(),
    #[cfg(feature = "full")]
    subj::<ar8::C>(),
    #[cfg(feature = "full")]
    subj::<ar9::C>(),
    subj::<ar10::C>(),
    #[cfg(feature = "full")]
    subj::<ar11::C>(),
    #[cfg(feature = "full")]
    subj::<ar12::C>(),
    #[cfg(feature = "full")]
    subj::<ar13::C>(),
    #[cfg(feature = "full")]
    subj::<ar14::C>(),
    subj::<ar15::C>(),
    #[cfg(feature = "full")]
    subj::<same0::C>(),
    #[cfg(feature = "full")]
    subj::<same1::C>(),
    #[cfg(feature = "full")]
    subj::<same2::C>(),
    #[cfg(feature = "full")]
    subj::<sames::C>(),
    subj::<mix::C>(),
    #[cfg(feature = "full")]
    subj::<recs::C>(),
    subj::<names::C>(),
    subj::<small2::C>(),
    subj::<tiny1::C>(),
    subj::<plain::C>(),
    subj::<cpy::C>(),
    subj::<flt::C>(),
    #[cfg(feature = "full")]
    subj::<siza::C>(),
    #[cfg(feature = "full")]
    subj::<sizb::C>(),
    subj::<sizc::C>(),
    #[cfg(feature = "full")]
    subj::<huge::C>(),
    #[cfg(feature = "full")]
    subj::<alia::C>(),
    subj::<alib::C>(),
    #[cfg(feature = "full")]
    subj::<alic::C>(),
    subj::<zst::C>(),
    subj::<deep::C>(),
    subj::<w20::C>(),
    subj::<w40::C>(),
    #[cfg(feature = "w256")]
    subj::<w256::C>(),
    #[cfg(feature = "w300")]
    subj::<w300::C>(),
    subj::<cust::C>(),
    subj::<ownd::C>(),
    subj::<nest::C>(),
    subj::<sm8::C>(),
    subj::<smc::C>(),
    #[cfg(feature = "full")]
    subj::<units::C>(),
    subj::<unit1::C>(),
    #[cfg(feature = "full")]
    subj::<flags::C>(),
    subj::<odd1::C>(),
    subj::<odd2::C>(),
    #[cfg(feature = "full")]
    subj::<odd3::C>(),
    subj::<guide::C>(),
    subj::<whole::C>(),
    #[cfg(feature = "full")]
    subj::<rnd0::C>(),
    #[cfg(feature = "full")]
    subj::<rnd1::C>(),
    #[cfg(feature = "full")]
    subj::<rnd2::C>(),
    #[cfg(feature = "full")]
    subj::<rnd3::C>(),
    #[cfg(feature = "full")]
    subj::<rnd4::C>(),
    #[cfg(feature = "full")]
    subj::<rnd5::C>(),
    #[cfg(feature = "full")]
    subj::<rnd6::C>(),
    #[cfg(feature = "full")]
    subj::<rnd7::C>(),
    #[cfg(feature = "full")]
    subj::<rnd8::C>(),
    #[cfg(feature = "full")]
    subj::<rnd9::C>(),
    #[cfg(feature = "full")]
    subj::<rnd10::C>(),
    #[cfg(feature = "full")]
    subj::<rnd11::C>(),
];
