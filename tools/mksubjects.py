#!/usr/bin/env python3
"""Writes sim/src/subjects.rs: the macro-defined enums the simulation exercises."""
import sys

POOL = ["u8", "Tok", "u16", "TokS", "u32", "u64", "By<3>", "bool", "A16", "char", "Tok", "u128", "By<5>",
        "i8", "TokS", "i64", "Str", "By<17>", "ZTok", "i16", "A32", "usize", "Tok", "By<1>", "isize", "By<7>",
        "i32", "A64", "By<9>", "TokS", "i128", "()", "By<33>"]

out = ["// Generated by tools/mksubjects.py. Do not edit.",
       "use super::*;", ""]
table = []


def field_types(start, n):
    tys = [POOL[(start + 7 * i + i * i) % len(POOL)] for i in range(n)]
    # Something to lose in each.
    if not {"Tok", "TokS"} & set(tys):
        tys[start % n] = "Tok"
    return tys


class Var:
    def __init__(self, name, kind, tys, trailing=False, names=None):
        self.name, self.kind, self.tys, self.trailing = name, kind, tys, trailing
        self.names = names or ["f%d" % i for i in range(len(tys))]


def T(name, *tys):
    return Var(name, "tuple", list(tys))


def S(name, *tys, trailing=False, names=None):
    return Var(name, "struct", list(tys), trailing, names)


def U(name):
    return Var(name, "unit", [])


def subject(mod, variants, derives, caps, base="DERIVED", inner=False, extra="", feature=None, own_drop=False, manual=None, whole=False):
    has_std = any("Str" in t for v in variants for t in v.tys)
    b = [base] if base else ["0"]
    if has_std:
        b.append("STD_ALLOC")
    if feature:
        out.append('#[cfg(feature = "%s")]' % feature)
    out.append("pub mod %s {" % mod)
    out.append("use super::*;")
    if manual:
        out.append(manual)
    else:
        out.append("tagged_box::tagged_box! {")
        if derives:
            out.append("    #[derive(%s)]" % ", ".join(derives))
        out.append("    pub struct C, pub enum E {")
        for v in variants:
            if v.kind == "tuple":
                out.append("        %s(%s)," % (v.name, ", ".join(v.tys)))
            elif v.kind == "unit":
                out.append("        %s," % v.name)
            else:
                fs = ", ".join("%s: %s" % (n, t) for n, t in zip(v.names, v.tys))
                out.append("        %s { %s%s }," % (v.name, fs, "," if v.trailing else ""))
        out.append("    }")
        out.append("}")
    out.append("impl Enu for E {")
    out.append('    const NAME: &\'static str = "%s";' % mod)
    out.append("    const NVAR: usize = %d;" % len(variants))
    out.append("    fn make(v: usize, g: &mut Gen) -> Self { let _ = &g; match v {")
    for i, v in enumerate(variants):
        pat = "_" if i == len(variants) - 1 else str(i)
        if v.kind == "tuple":
            out.append("        %s => E::%s(%s)," % (pat, v.name, ", ".join("<%s>::make(g)" % t for t in v.tys)))
        elif v.kind == "unit":
            out.append("        %s => %sE::%s%s," % (pat, "{ unit_made(); " if own_drop else "", v.name, " }" if own_drop else ""))
        else:
            out.append("        %s => E::%s { %s }," % (pat, v.name, ", ".join("%s: <%s>::make(g)" % x for x in zip(v.names, v.tys))))
    out.append("    } }")
    out.append("    fn look_into(&self, o: &mut Look) { match self {")
    for i, v in enumerate(variants):
        if v.kind == "tuple":
            bs = ["a%d" % k for k in range(len(v.tys))]
            out.append("        E::%s(%s) => { o.variant = %d; %s }" % (v.name, ", ".join(bs), i, " ".join("%s.look(o);" % b for b in bs)))
        elif v.kind == "unit":
            out.append("        E::%s => { o.variant = %d; %s }" % (v.name, i, "o.zs += 1; o.w(0x2F);" if own_drop else ""))
        else:
            out.append("        E::%s { %s } => { o.variant = %d; %s }" % (v.name, ", ".join(v.names), i, " ".join("%s.look(o);" % b for b in v.names)))
    out.append("    } }")
    out.append("    fn shape(v: usize) -> Shape { match v {")
    for i, v in enumerate(variants):
        pat = "_" if i == len(variants) - 1 else str(i)
        out.append("        %s => shape(&[%s])," % (pat, "sa!(E)" if whole else ", ".join("sa!(%s)" % t for t in v.tys)))
    out.append("    } }")
    out.append("}")
    out.append("impl Con for C {")
    out.append("    type E = E;")
    out.append("    fn by_fields(e: E) -> Outcome<Self> { %s {" % ("let e = std::mem::ManuallyDrop::new(e); match *e" if own_drop else "match e"))
    rest = False
    for v in variants:
        if v.kind == "tuple" and not manual:
            bs = ["a%d" % k for k in range(len(v.tys))]
            arg = bs[0] if len(bs) == 1 else "(%s)" % ", ".join(bs)
            out.append("        E::%s(%s) => call(move || C::from(%s))," % (v.name, ", ".join(bs), arg))
        else:
            rest = True
    if rest:
        out.append("        %s" % ("_ => call(move || C::from(std::mem::ManuallyDrop::into_inner(e)))," if own_drop else "e => call(move || C::from(e)),"))
    out.append("    } }")
    out.append("    fn poke(tb: &mut TaggedBox<E>, v: usize, g: &mut Gen, how: u8) -> Option<Outcome<()>> { let _ = (&tb, &g); match v {")
    for i, v in enumerate(variants):
        if v.kind == "tuple" and len(v.tys) == 1 and not own_drop and not whole:
            out.append("        %d => Some(poke_as::<E, %s>(tb, g, how))," % (i, v.tys[0]))
    out.append("        _ => None,")
    out.append("    } }")
    out.append("}")
    out.append("caps!(C, E; %s%s; %s);" % ("inner " if inner else "", " | ".join(b), ", ".join(caps)))
    if extra:
        out.append(extra)
    out.append("}")
    table.append((mod, feature))


ALL = ["Clone", "Debug", "PartialEq", "PartialOrd"]
ORD = ALL + ["Eq", "Ord"]
FULL = ["clone", "ord", "dbg"]
PART = ["clone", "pord", "dbg"]

# Every tuple arity from 1 to 32, two per enum, with a unit, an empty tuple and different field mixes.
for k in range(16):
    a, b = 2 * k + 1, 2 * k + 2
    vs = [T("Odd", *field_types(3 * k, a)), T("Even", *field_types(5 * k + 1, b)), U("Nothing"), T("Void")]
    if a == 1:
        vs[0] = T("Odd", "Tok")
        vs[1] = T("Even", "u8", "Tok")
    vs = vs[k % 4:] + vs[:k % 4]
    subject("ar%d" % k, vs, ORD, FULL, feature=None if k in (0, 3, 10, 15) else "full")

# The same again with fields of one type only: nothing but the values tells them apart.
for k, r in enumerate((range(1, 12), range(12, 23), range(23, 33))):
    subject("same%d" % k, [T("V%d" % n, *["Tok"] * n) for n in r], ORD, FULL, feature="full")
subject("sames", [S("V%d" % n, *["TokS" if n % 3 else "Tok"] * n, trailing=n % 2 == 0) for n in (1, 2, 3, 4, 5, 6, 7, 8, 12, 20, 32, 33, 48)],
        ORD, FULL, feature="full")

# One enum of every kind of variant.
subject("mix", [
    T("Byte", "u8"), T("Value", "Tok"), T("Text", "Str"), T("Pair", "u8", "u64"), U("Nothing"), T("Void"),
    S("Rec", "u8", "Tok", "u16"), S("RecT", "Tok", "By<3>", trailing=True), T("Big", "By<300>"), T("Small", "TokS"),
    T("Trio", "TokS", "u8", "Tok"), T("Wide", "A64", "u8"), T("Flag", "bool"), T("Letter", "char"),
    T("Huge", "u128"), S("One", "u32"),
], ORD, FULL)
# Struct variants of 1 to 8 fields, with and without a trailing comma.
subject("recs", [S("S%d" % i, *field_types(i * 4, i), trailing=bool(i % 2)) for i in range(1, 9)]
        + [S("T%d" % i, *field_types(i * 4 + 2, i), trailing=not i % 2) for i in range(1, 9)], ORD, FULL, feature="full")
# Struct variants whose fields are named like the macro's own locals.
subject("names", [
    S("Locals", "Tok", "u8", "TokS", names=["value", "tagged", "variant"]),
    S("More", "u16", "Tok", "u8", names=["discriminant", "callback", "tuple"], trailing=True),
    S("Still", "Tok", "u32", names=["discrim", "layout"]),
    T("Plain", "Tok", "u8"),
], ORD, FULL)
subject("small2", [T("Yes", "Tok"), T("No", "TokS", "u32")], ORD, FULL)
subject("tiny1", [T("Only", "Tok")], ORD, FULL)
subject("plain", [T("Number", "u64"), T("Value", "Tok"), T("Pair", "TokS", "Tok"), U("Nothing")], [], [], base="")
subject("cpy", [T("A", "u8"), T("B", "u8", "u64"), T("C3", "By<24>", "u16"), U("Nil"), S("R", "char", "bool"),
                T("F", "f64"), T("Z", "Z64"), T("Void")],
        ["Clone", "Copy", "Debug", "PartialEq", "PartialOrd"], ["clone", "pord", "dbg", "copy"])
subject("flt", [T("D", "f64"), T("S", "f32"), T("Dd", "f64", "f64"), T("Ds", "f32", "u8", "f64"), S("Fs", "f32", "f32"),
                U("Nan"), T("Arr", "[f64; 3]"), T("Tup", "(f32, Tok)")], ALL, PART)
SZ = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 23, 24, 25, 31, 32, 33, 47, 48, 49, 63, 64, 65, 100, 127, 128, 129]
subject("siza", [T("Y%d" % n, "By<%d>" % n) for n in SZ[:16]], ORD, FULL, feature="full")
subject("sizb", [T("Y%d" % n, "By<%d>" % n) for n in SZ[16:]], ORD, FULL, feature="full")
subject("sizc", [T("Y%d" % n, "By<%d>" % n) for n in (255, 256, 257, 1000, 1024, 4095, 4096, 4097, 65536, 140003)]
        + [T("Mixed", "u8", "By<777>", "Tok"), S("Rec", "By<1023>", "u8", "Tok", "u64")], ORD, FULL)
subject("huge", [T("Vast", "By<1179651>"), T("Small", "u8")], ["Clone", "Debug", "PartialEq"], ["clone", "eq", "dbg"], feature="full")
AL = [2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096]
subject("alia", [T("N%d" % n, "A%d" % n) for n in AL] + [T("P1", "u8", "A16"), T("P2", "A4096", "u8"), S("P3", "u8", "A256", "u8"),
                                                        T("P4", "By<3>", "A2", "Tok")], ORD, FULL, feature="full")
subject("alib", [T("N%d" % n, "Z%d" % n) for n in AL] + [T("P1", "u8", "Z16"), T("P2", "Z4096", "Tok"), S("P3", "u8", "Z256", "u8"),
                                                        T("P4", "Z64", "Z128")], ORD, FULL)
subject("alic", [T("A", "A8192"), T("B", "u8", "A65536", "Tok"), T("Za", "Z65536"), T("Zb", "Z65536", "u8"), S("R", "TokS", "Z8192", trailing=True)],
        ["Clone", "Debug", "PartialEq"], ["clone", "eq", "dbg"], feature="full")
subject("zst", [T("Z", "ZTok"), T("Zz", "ZTok", "ZTok"), T("U", "()"), T("Za", "ZTok", "Z64"), T("Zb", "ZTok", "u8"),
                S("Zs", "ZTok"), S("Zt", "ZTok", "ZTok", "ZTok", trailing=True), T("Arr", "[ZTok; 3]"), T("Empty", "[u64; 0]"),
                T("Zt2", "ZTok", "Tok"), U("Nil")], ORD, FULL)
subject("deep", [T("Opt", "Option<Tok>"), T("Arr", "[Tok; 4]"), T("Two", "(Tok, u8)"), T("Big", "[TokS; 31]"),
                 S("Rec", "Option<TokS>", "[Tok; 2]"), T("Tt", "(TokS, Tok)", "u8"), T("Ob", "Option<bool>"), T("Oc", "Option<char>", "Option<u8>")],
        ORD, FULL)
subject("w20", [T("V%d" % i, "(By<%d>, Tok)" % (i + 1)) if i % 3 else T("V%d" % i, "By<%d>" % (i + 1), "u8") for i in range(18)]
        + [U("V18"), T("V19", "u64")], ORD, FULL)
subject("w40", [T("V%d" % i, "By<%d>" % (i + 1)) if i % 2 else S("V%d" % i, "By<%d>" % (i + 1), "TokS") for i in range(38)]
        + [U("V38"), T("V39", "Tok")], ["Clone", "Debug", "PartialEq"], ["clone", "eq", "dbg"])
for n in (256, 300):
    vs = []
    for i in range(n):
        if i in (0, 15, 16, 127, 128, 255, 256, n - 1):
            vs.append(T("V%d" % i, "By<%d>" % (i + 1), "TokS"))
        elif i % 16 == 3:
            vs.append(T("V%d" % i, "By<%d>" % (i + 1)))
        else:
            vs.append(U("V%d" % i))
    subject("w%d" % n, vs, ["Clone", "Debug", "PartialEq"], ["clone", "eq", "dbg"], feature="w%d" % n)

# User-written implementations: equality across variants and not reflexive, orders that disagree with
# the declaration order, printing that honours the formatter.
CUST = r'''
impl Clone for E {
    fn clone(&self) -> E {
        match self {
            E::Num(t) => E::Num(t.clone()),
            E::Txt(a, t) => { let t = t.clone(); user_code(Fault::ClonePanic); E::Txt(*a, t) }
            E::Never(t) => E::Never(t.clone()),
            E::Nil => { user_code(Fault::ClonePanic); E::Nil }
            E::Rec { lo, hi } => { let hi = hi.clone(); E::Rec { lo: lo.clone(), hi } }
        }
    }
}
impl E {
    fn key(&self) -> Option<u64> {
        user_code(Fault::CmpPanic);
        match self {
            E::Num(t) => { t.seen(); Some(t.content()) }
            E::Txt(a, t) => { t.seen(); Some(t.content() ^ (*a as u64 & 1)) }
            E::Never(_) => None,
            E::Nil => Some(0),
            E::Rec { hi, .. } => { hi.seen(); Some(hi.content()) }
        }
    }
}
impl PartialEq for E {
    fn eq(&self, o: &E) -> bool {
        match (self.key(), o.key()) { (Some(a), Some(b)) => a == b, _ => false }
    }
}
impl Eq for E {}
impl PartialOrd for E {
    fn partial_cmp(&self, o: &E) -> Option<std::cmp::Ordering> {
        match (self.key(), o.key()) { (Some(a), Some(b)) => Some(b.cmp(&a)), _ => None }
    }
}
impl Ord for E {
    fn cmp(&self, o: &E) -> std::cmp::Ordering {
        // Not what partial_cmp says.
        match (self.key(), o.key()) {
            (Some(a), Some(b)) => a.cmp(&b),
            (Some(_), None) => std::cmp::Ordering::Less,
            (None, Some(_)) => std::cmp::Ordering::Greater,
            _ => std::cmp::Ordering::Greater,
        }
    }
}
impl fmt::Debug for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if user_fmt() { return Err(fmt::Error); }
        match self {
            E::Num(t) => f.debug_tuple("Num").field(t).finish(),
            E::Txt(a, t) => f.debug_list().entry(a).entry(t).finish(),
            E::Never(_) => f.pad("never, never, never"),
            E::Nil => Ok(()),
            E::Rec { lo, hi } => f.debug_map().entry(&1, lo).entry(&"hi", hi).finish(),
        }
    }
}
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if user_fmt() { return Err(fmt::Error); }
        match self {
            E::Num(t) => fmt::Display::fmt(t, f),
            E::Txt(a, t) => { f.write_str("(")?; fmt::Display::fmt(a, f)?; f.write_str("/")?; fmt::Display::fmt(t, f)?; f.write_str(")") }
            E::Never(_) => f.pad("never"),
            E::Nil => Ok(()),
            E::Rec { lo, hi } => {
                if f.alternate() { write!(f, "{:#?}", lo)?; }
                for _ in 0..5 { f.write_str("-")?; }
                fmt::Display::fmt(hi, f)
            }
        }
    }
}
'''
for name, inner in (("cust", True),):
    subject(name, [T("Num", "Tok"), T("Txt", "u16", "Tok"), T("Never", "TokS"), U("Nil"), S("Rec", "TokS", "Tok", names=["lo", "hi"])],
            [], ["clone", "ord", "disp"], base="0", inner=True, extra=CUST)

# An enum with a destructor of its own over fields that have none.
OWND = r'''
impl Drop for E {
    fn drop(&mut self) {
        match self {
            E::Fd(t) => t.end(),
            E::Two(a, _, b) => { a.end(); b.end(); }
            E::Rec { t, .. } => t.end(),
            E::Nil => unit_ended(),
        }
    }
}
impl Clone for E {
    fn clone(&self) -> E {
        match self {
            E::Fd(t) => E::Fd(t.again()),
            // Held by the enum only when both are there.
            E::Two(a, n, b) => { let a = E::Fd(a.again()); let b = b.again(); let x = match &a { E::Fd(x) => *x, _ => unreachable!() }; std::mem::forget(a); E::Two(x, *n, b) }
            E::Rec { t, k } => E::Rec { t: t.again(), k: *k },
            E::Nil => { user_code(Fault::ClonePanic); unit_made(); E::Nil }
        }
    }
}
'''
subject("ownd", [T("Fd", "TokC"), T("Two", "TokC", "u32", "TokC"), U("Nil"), S("Rec", "TokC", "u8", names=["t", "k"])],
        ["Debug", "PartialEq", "PartialOrd", "Eq", "Ord"], FULL, base="0", inner=True, extra=OWND, own_drop=True)

# A container inside a container.
NEST = r'''
/// Owns a container and releases what it can reach when dropped.
pub struct Nest(std::mem::ManuallyDrop<super::small2::C>);
impl Drop for Nest {
    fn drop(&mut self) {
        use tagged_box::TaggableContainer;
        let c = unsafe { std::mem::ManuallyDrop::take(&mut self.0) };
        // Taking a value out leaves its block behind; that is judged where it is taken, not here.
        let here = simrt::heap::zone_of(c.tb().as_ptr::<u8>() as usize).is_some();
        let n = simrt::state::NET.with(|n| n.get());
        drop(c.into_inner());
        simrt::state::NET.with(|x| if here && x.get() == n { x.set(n - 1) });
    }
}
impl Clone for Nest { fn clone(&self) -> Nest { Nest(self.0.clone()) } }
impl PartialEq for Nest { fn eq(&self, o: &Nest) -> bool { *self.0 == *o.0 } }
impl fmt::Debug for Nest {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&*self.0, f) }
}
impl Pay for Nest {
    fn make(g: &mut Gen) -> Nest {
        use super::small2::{C, E};
        let v = g.bits() as usize & 1;
        Nest(std::mem::ManuallyDrop::new(C::from(E::make(v, g))))
    }
    fn look(&self, o: &mut Look) {
        use tagged_box::TaggableInner;
        let v = o.variant;
        unsafe { super::small2::E::ref_from_tagged_box(self.0.tb(), |e| e.look_into(o)) };
        let w = o.variant;
        o.w(w as u64);
        o.variant = v;
        o.clone_blocks += 1;
        if simrt::heap::zone_of(self.0.tb().as_ptr::<u8>() as usize).is_some() { o.zone_blocks += 1; }
    }
}
'''
subject("nest", [T("In", "Nest"), T("Both", "Nest", "Tok"), S("Rec", "u8", "Nest"), U("Nil")],
        ["Clone", "Debug", "PartialEq"], ["clone", "eq", "dbg"], base="DERIVED | STD_ALLOC", extra=NEST)

# Small enums without destructors: everything fits a machine word.
subject("sm8", [T("B", "u8"), T("W", "u32"), U("Nil")], ORD, FULL)
subject("smc", [T("A", "i8"), T("B", "u16"), T("Bb", "u8", "u8"), U("N")], ["Copy"] + ORD, ["clone", "ord", "dbg", "copy"])
subject("units", [U("A"), U("B"), U("D")], ORD, FULL, feature="full")
subject("unit1", [U("Only")], ORD, FULL)
subject("flags", [T("On", "bool"), T("Off", "Option<bool>")], ORD, FULL, feature="full")

# Orders and equalities at odds with one another, and with identity.
ODD = r"""
impl Clone for E {
    fn clone(&self) -> E { match self { E::A(t) => E::A(t.clone()), E::B(x) => { user_code(Fault::ClonePanic); E::B(*x) } E::N => E::N } }
}
impl PartialEq for E {
    fn eq(&self, o: &E) -> bool { user_code(Fault::CmpPanic); match (self, o) { (E::A(a), E::A(b)) => { a.seen(); b.seen(); } _ => {} } %s }
}
impl PartialOrd for E {
    fn partial_cmp(&self, o: &E) -> Option<std::cmp::Ordering> {
        user_code(Fault::CmpPanic);
        match (self, o) { (E::A(a), E::A(b)) => { a.seen(); b.seen(); } _ => {} }
        %s
    }
}
impl fmt::Debug for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if user_fmt() { return Err(fmt::Error); }
        f.pad(match self { E::A(_) => "a", E::B(_) => "", E::N => "nnnn" })
    }
}
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if user_fmt() { return Err(fmt::Error); }
        match self { E::A(t) => { f.write_str("<")?; fmt::Display::fmt(t, f) } E::B(x) => fmt::Binary::fmt(x, f), E::N => f.write_fmt(format_args!("{:5}|", 7)) }
    }
}
"""
V = [T("A", "Tok"), T("B", "u32"), U("N")]
RANK = "match %s { E::A(_) => 2u8, E::B(_) => 0, E::N => 1 }"
subject("odd1", V, [], ["clone", "pord", "disp"], base="0", inner=True,
        extra=ODD % ("let _ = o; true", "let _ = o; None"))
subject("odd2", V, [], ["clone", "pord", "disp"], base="0", inner=True,
        extra=ODD % ("let _ = o; false", "let _ = o; Some(std::cmp::Ordering::Equal)"))
subject("odd3", V, [], ["clone", "pord", "disp"], base="0", inner=True, feature="full",
        extra=ODD % ("(%s) != (%s)" % (RANK % "self", RANK % "o"), "Some(if (%s) <= (%s) { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Less })" % (RANK % "self", RANK % "o")))

# Conversions written by hand: as the guide describes, and storing the enum as it is.
HEAD = r"""
use tagged_box::{TaggableContainer, TaggableInner};
#[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
#[repr(transparent)]
pub struct C { value: TaggedBox<E> }
impl TaggableContainer for C {
    type Inner = E;
    fn into_inner(self) -> E { E::from_tagged_box(self.value) }
}
impl From<E> for C {
    fn from(e: E) -> C { C { value: e.into_tagged_box() } }
}
"""
GUIDE = HEAD + r"""
#[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
pub enum E { Value(Tok), Flag(bool), Text(Str), Pair((TokS, u16)) }
enum Counter { Value, Flag, Text, Pair }
impl TaggableInner for E {
    fn into_tagged_box(self) -> TaggedBox<E> {
        match self {
            E::Value(x) => TaggedBox::new(x, Counter::Value as _),
            E::Flag(x) => TaggedBox::new(x, Counter::Flag as _),
            E::Text(x) => TaggedBox::new(x, Counter::Text as _),
            E::Pair(x) => TaggedBox::new(x, Counter::Pair as _),
        }
    }
    fn from_tagged_box(tagged: TaggedBox<E>) -> E {
        unsafe {
            match tagged.discriminant() {
                d if d == Counter::Value as Disc => E::Value(TaggedBox::into_inner(tagged)),
                d if d == Counter::Flag as Disc => E::Flag(TaggedBox::into_inner(tagged)),
                d if d == Counter::Text as Disc => E::Text(TaggedBox::into_inner(tagged)),
                d if d == Counter::Pair as Disc => E::Pair(TaggedBox::into_inner(tagged)),
                _ => panic!(),
            }
        }
    }
    unsafe fn ref_from_tagged_box<F: FnOnce(&E)>(tagged: &TaggedBox<E>, callback: F) {
        let e = std::mem::ManuallyDrop::new(match tagged.discriminant() {
            d if d == Counter::Value as Disc => E::Value(tagged.as_ptr::<Tok>().read()),
            d if d == Counter::Flag as Disc => E::Flag(tagged.as_ptr::<bool>().read()),
            d if d == Counter::Text as Disc => E::Text(tagged.as_ptr::<Str>().read()),
            d if d == Counter::Pair as Disc => E::Pair(tagged.as_ptr::<(TokS, u16)>().read()),
            _ => panic!(),
        });
        callback(&e)
    }
}
"""
subject("guide", [T("Value", "Tok"), T("Flag", "bool"), T("Text", "Str"), T("Pair", "(TokS, u16)")], ORD, FULL, manual=GUIDE)
WHOLE = HEAD + r"""
#[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
pub enum E { Value(Tok), Two(u8, Tok), Nil, Rec { t: TokS, k: [u16; 3] }, Wide(A64) }
impl TaggableInner for E {
    fn into_tagged_box(self) -> TaggedBox<E> {
        let d = match self { E::Value(..) => 0, E::Two(..) => 1, E::Nil => 2, E::Rec { .. } => 3, E::Wide(..) => 4 };
        TaggedBox::new(self, d)
    }
    fn from_tagged_box(tagged: TaggedBox<E>) -> E {
        assert!(tagged.discriminant() < 5);
        unsafe { TaggedBox::into_inner(tagged) }
    }
    unsafe fn ref_from_tagged_box<F: FnOnce(&E)>(tagged: &TaggedBox<E>, callback: F) {
        assert!(tagged.discriminant() < 5);
        callback(tagged.as_ref::<E>())
    }
}
"""
subject("whole", [T("Value", "Tok"), T("Two", "u8", "Tok"), U("Nil"), S("Rec", "TokS", "[u16; 3]", names=["t", "k"]), T("Wide", "A64")],
        ORD, FULL, manual=WHOLE, whole=True)

# Enums drawn at random (always the same ones).
import random
R = random.Random(20261119)
TYS = POOL + ["By<%d>" % n for n in (2, 12, 31, 100, 200, 1500)] + ["A2", "A4", "A8", "A128", "Z2", "Z8", "Option<Tok>", "[Tok; 2]", "(Tok, u8)",
                                                                     "(u8, A16)", "Option<u64>", "[u16; 3]", "ZTok", "Str", "TokS"]
ORDLESS = {"f32", "f64"}
for k in range(12):
    vs, seen = [], set()
    for i in range(R.randint(2, 9)):
        kind = R.choice("TTTTSSU")
        n = R.choice([1, 1, 1, 2, 2, 3, 4, 5, 6]) if kind == "T" else R.choice([1, 2, 2, 3, 3, 4, 5, 6])
        tys = tuple(R.choice(TYS) for _ in range(n))
        if kind == "U":
            vs.append(U("V%d" % i))
        elif kind == "S":
            vs.append(S("V%d" % i, *tys, trailing=R.random() < .5))
        elif tys not in seen:
            seen.add(tys)
            vs.append(T("V%d" % i, *tys))
    if not vs:
        continue
    subject("rnd%d" % k, vs, ORD, FULL, feature="full")

out.append("pub const SUBJECTS: &[Subject] = &[")
for m, f in table:
    if f:
        out.append('    #[cfg(feature = "%s")]' % f)
    out.append("    subj::<%s::C>()," % m)
out.append("];")
open(sys.argv[1] if len(sys.argv) > 1 else "/verif/sim/src/subjects.rs", "w").write("\n".join(out) + "\n")
