//! C19: typed and dynamic encodings of the same data are identical.
//! bound: values as in C04 (sequences and maps of at most 2 entries, strings of at most 2 bytes; 3 in the
//!   larger runs); strings, byte strings, sequences, maps and tuples of up to 4097 members, strings and byte strings of up to 1 MiB + 3;
//!   variants of each kind at every 32-bit index; an enum of 140 variants.
use crate::anyenum::Any;
use crate::hb::*;
use crate::model::*;
use crate::sym;
use crate::util::*;
use crate::wide::K140;
use dlhn::{Body, Header};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_bytes::ByteBuf;
use std::collections::BTreeMap;

/// The same data as a dynamic body, and the header it conforms to.
trait Dy {
    fn body(&self) -> Body;
    fn h() -> Header;
}
macro_rules! dy {
    ($($t:ty, $v:ident, $h:ident;)*) => {$(
        impl Dy for $t {
            fn body(&self) -> Body { Body::$v(self.clone()) }
            fn h() -> Header { Header::$h }
        }
    )*};
}
dy! {
    bool, Boolean, Boolean; u8, UInt8, UInt8; u16, UInt16, UInt16; u32, UInt32, UInt32; u64, UInt64, UInt64;
    i8, Int8, Int8; i16, Int16, Int16; i32, Int32, Int32; i64, Int64, Int64; f32, Float32, Float32; f64, Float64, Float64;
    String, String, String; ByteBuf, Binary, Binary; dlhn::BigUint, BigUInt, BigUInt; dlhn::BigInt, BigInt, BigInt;
    dlhn::BigDecimal, BigDecimal, BigDecimal; dlhn::Date, Date, Date; dlhn::DateTime, DateTime, DateTime;
}
impl Dy for char {
    fn body(&self) -> Body {
        Body::String(self.to_string())
    }
    fn h() -> Header {
        Header::String
    }
}
impl Dy for () {
    fn body(&self) -> Body {
        Body::Unit
    }
    fn h() -> Header {
        Header::Unit
    }
}
impl<T: Dy> Dy for Option<T> {
    fn body(&self) -> Body {
        Body::Optional(self.as_ref().map(|v| Box::new(v.body())))
    }
    fn h() -> Header {
        Header::Optional(Box::new(T::h()))
    }
}
impl<T: Dy> Dy for Box<T> {
    fn body(&self) -> Body {
        (**self).body()
    }
    fn h() -> Header {
        T::h()
    }
}
impl<T: Dy> Dy for Vec<T> {
    fn body(&self) -> Body {
        Body::Array(self.iter().map(|v| v.body()).collect())
    }
    fn h() -> Header {
        Header::Array(Box::new(T::h()))
    }
}
impl<T: Dy> Dy for BTreeMap<String, T> {
    fn body(&self) -> Body {
        Body::Map(self.iter().map(|(k, v)| (k.clone(), v.body())).collect())
    }
    fn h() -> Header {
        Header::Map(Box::new(T::h()))
    }
}
impl<T: Dy> Dy for [T; 3] {
    fn body(&self) -> Body {
        Body::Tuple(self.iter().map(|v| v.body()).collect())
    }
    fn h() -> Header {
        Header::Tuple((0..3).map(|_| T::h()).collect())
    }
}
macro_rules! tuple {
    ($(($($t:ident $i:tt)*))*) => {$(
        impl<$($t: Dy),*> Dy for ($($t,)*) {
            fn body(&self) -> Body { Body::Tuple(vec![$(self.$i.body()),*]) }
            fn h() -> Header { Header::Tuple(vec![$($t::h()),*]) }
        }
    )*};
}
tuple! { (A 0) (A 0 B 1) (A 0 B 1 C 2) (A 0 B 1 C 2 D 3) (A 0 B 1 C 2 D 3 E 4) (A 0 B 1 C 2 D 3 E 4 F 5 G 6 HH 7 I 8 J 9 K 10 L 11) }
macro_rules! strukt {
    ($($n:ident { $($f:tt $t:ty),* })*) => {$(
        impl Dy for $n {
            fn body(&self) -> Body { Body::Tuple(vec![$(self.$f.body()),*]) }
            fn h() -> Header { Header::Tuple(vec![$(<$t as Dy>::h()),*]) }
        }
    )*};
}
strukt! {
    S1 { a bool, b u16, c String, d Option<i32> }
    S2 { z u8, inner S3, a Vec<S3> }
    S3 { y i16, x Option<u8> }
    Empty {  }
    One { only u32 }
    Wide { f0 u8, f1 u8, f2 i8, f3 bool, f4 u8, f5 f32, f6 u8, f7 i8, f8 (), f9 u8 }
    Blob { k u8, data ByteBuf, s String }
    Floats { f f32, d f64, c char }
    WithMap { m BTreeMap<String, i16>, t (u8, bool) }
    T3 { 0 u8, 1 i64, 2 Option<String> }
    T2 { 0 i32, 1 u32 }
}
impl Dy for New {
    fn body(&self) -> Body {
        self.0.body()
    }
    fn h() -> Header {
        u32::h()
    }
}
impl Dy for UnitS {
    fn body(&self) -> Body {
        Body::Unit
    }
    fn h() -> Header {
        Header::Unit
    }
}
fn en(i: u32, b: Body) -> Body {
    Body::Enum(i, Box::new(b))
}
impl Dy for E1 {
    fn body(&self) -> Body {
        match self {
            E1::A => en(0, Body::Unit),
            E1::B(a) => en(1, a.body()),
            E1::C(a, b) => en(2, Body::Tuple(vec![a.body(), b.body()])),
            E1::D { x, y } => en(3, Body::Tuple(vec![x.body(), y.body()])),
            E1::G { v } => en(4, v.body()),
            E1::H => en(5, Body::Unit),
        }
    }
    fn h() -> Header {
        Header::Enum(vec![<()>::h(), u16::h(), <(u8, i32)>::h(), <(u8, Option<bool>)>::h(), String::h(), <()>::h()])
    }
}
impl Dy for E2 {
    fn body(&self) -> Body {
        match self {
            E2::P(a) => en(0, a.body()),
            E2::Q { e, k } => en(1, Body::Tuple(vec![e.body(), k.body()])),
        }
    }
    fn h() -> Header {
        Header::Enum(vec![S3::h(), <(E3, u8)>::h()])
    }
}
impl Dy for E3 {
    fn body(&self) -> Body {
        let i = match self {
            E3::X => 0,
            E3::Y => 1,
            E3::Z => 2,
        };
        en(i, Body::Unit)
    }
    fn h() -> Header {
        Header::Enum(vec![<()>::h(), <()>::h(), <()>::h()])
    }
}
impl<T: Dy, E: Dy> Dy for Result<T, E> {
    fn body(&self) -> Body {
        match self {
            Ok(v) => en(0, v.body()),
            Err(v) => en(1, v.body()),
        }
    }
    fn h() -> Header {
        Header::Enum(vec![T::h(), E::h()])
    }
}

#[inline(never)]
fn both<T: M + Dy>() {
    cross(T::gen(), |a, b| a.same(b))
}
fn cross<T: Dy + Serialize + DeserializeOwned>(v: T, same: impl Fn(&T, &T) -> bool) {
    let (h, d) = (T::h(), v.body());
    check!(d.validate(&h), "the body holding the data conforms");
    match (enc(&v), enc(&d)) {
        (Ok(a), Ok(b)) => {
            sym::obs_bytes(&a);
            check!(a == b, "typed and dynamic encodings are the same bytes");
            match dec_body(&h, &a) {
                (Ok(x), n) => check!(n == a.len() && same_body(&x, &d), "typed bytes read dynamically give the same data"),
                _ => check!(false, "typed bytes are readable dynamically"),
            }
            match dec::<T>(&b) {
                (Ok(x), n) => check!(n == b.len() && same(&x, &v), "dynamic bytes read as the type give the same data"),
                _ => check!(false, "dynamic bytes are readable as the type"),
            }
            reach!("crossed");
        }
        _ => check!(false, "both interfaces write the data"),
    }
}
/// Through the serde `with` modules.
#[derive(Serialize, Deserialize)]
struct Fmt {
    #[serde(with = "dlhn::format::big_uint")]
    u: num_bigint::BigUint,
    #[serde(with = "dlhn::format::date")]
    d: time::Date,
    #[serde(with = "dlhn::format::big_int")]
    i: num_bigint::BigInt,
    #[serde(with = "dlhn::format::date_time")]
    t: time::OffsetDateTime,
    #[serde(with = "dlhn::format::big_decimal")]
    n: bigdecimal::BigDecimal,
}
fn with_modules() {
    let k = sym::pick(5);
    let v = Fmt {
        u: num_bigint::BigUint::from(if k == 0 { sym::u32() } else { 0 }),
        d: if k == 1 { any_date() } else { time::Date::from_ordinal_date(1999, 365).unwrap() },
        i: num_bigint::BigInt::from(if k == 2 { sym::i16() } else { 128 }),
        t: time::OffsetDateTime::from_unix_timestamp([0, -1, 951_782_300][sym::pick(3) as usize]).unwrap(),
        n: bigdecimal::BigDecimal::new(num_bigint::BigInt::from(if k == 4 { 120 } else { -7 }), if k == 3 { sym::i8() as i64 } else { 2 }),
    };
    let d = Body::Tuple(vec![
        Body::BigUInt(v.u.clone().into()),
        Body::Date(v.d.into()),
        Body::BigInt(v.i.clone().into()),
        Body::DateTime(v.t.into()),
        Body::BigDecimal(v.n.clone().into()),
    ]);
    let h = Header::Tuple(vec![Header::BigUInt, Header::Date, Header::BigInt, Header::DateTime, Header::BigDecimal]);
    match (enc(&v), enc(&d)) {
        (Ok(a), Ok(b)) => {
            sym::obs_bytes(&a);
            check!(a == b, "`with` modules and bodies write the same bytes");
            match dec_body(&h, &a) {
                (Ok(x), n) => check!(n == a.len() && same_body(&x, &d), "bytes of the `with` modules are readable dynamically"),
                _ => check!(false, "a body reads what the `with` modules wrote"),
            }
            match dec::<Fmt>(&b) {
                (Ok(x), n) => {
                    check!(n == b.len() && x.u == v.u && x.d == v.d && x.i == v.i && x.t == v.t && x.n == v.n,
                           "a body's bytes are readable through the `with` modules")
                }
                _ => check!(false, "the `with` modules read what a body wrote"),
            }
        }
        _ => check!(false, "`with` modules and bodies write the data"),
    }
}

entries! {
    //@ quick=0-56,100-156 thorough=0-56,100-156,200-256
    fn c19_type(p) {
        set_max(2 + (p / 100) as usize);
        macro_rules! t { ($($i:literal $t:ty),*) => { match p % 100 { $($i => both::<$t>(),)* _ => unreachable!() } } }
        t!(0 bool, 1 u8, 2 u16, 3 u32, 4 u64, 5 i8, 6 i16, 7 i32, 8 i64, 9 f32, 10 f64, 11 char, 12 (), 13 String, 14 ByteBuf,
           15 Option<u16>, 16 Option<Option<bool>>, 17 Option<String>, 18 Vec<u16>, 19 Vec<Option<bool>>, 20 Vec<Vec<u8>>,
           21 Vec<String>, 22 (u8,), 23 (u16, i32), 24 (bool, u64, i8, char), 25 [u16; 3], 26 Box<i16>, 27 Option<Vec<u8>>,
           28 BTreeMap<String, u8>, 29 BTreeMap<String, Option<u16>>, 30 S1, 31 S2, 32 S3, 33 Empty, 34 One, 35 Wide, 36 Blob,
           37 Floats, 38 WithMap, 39 T3, 40 T2, 41 New, 42 UnitS, 43 E1, 44 E2, 45 E3, 46 Vec<E1>, 47 Option<E1>,
           48 BTreeMap<String, E3>, 49 Result<u8, i16>, 50 (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, i8),
           51 (E3, S3, (), Vec<u8>, bool), 52 dlhn::BigUint, 53 dlhn::BigInt, 54 dlhn::BigDecimal, 55 dlhn::Date, 56 dlhn::DateTime)
    }
    //@ quick=0
    fn c19_with(p) { with_modules() }
    /// Long contents.
    //@ quick=127,128,130,300,4096,4097,16384,65537,1048579
    fn c19_long(p) {
        let n = p as usize;
        let mut v: Vec<u8> = (0..n).map(|i| 33 + (i * 7 % 89) as u8).collect();
        v[n - 1] = sym::u8() & 0x7f;
        v[0] = sym::u8() & 0x7f;
        let s = unsafe { String::from_utf8_unchecked(v.clone()) };
        cross(s, |a, b| a == b);
        cross(ByteBuf::from(v.clone()), |a, b| a == b);
        if n < 1000 {
            cross(v.clone(), |a, b| a == b);
            cross(v.iter().enumerate().map(|(i, x)| (i.to_string(), *x)).collect::<BTreeMap<String, u8>>(), |a, b| a == b);
            cross(v.iter().map(|x| (Some(*x), E3::Y)).collect::<Vec<_>>(), |a, b| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0 && x.1.same(&y.1)));
        }
    }
    /// Variants of the four kinds at every index; `p` is the kind.
    //@ quick=0-3
    fn c19_variant(p) {
        let kind = p as u8;
        let v = Any { kind, index: sym::u32(), a: if kind > 0 { sym::u16() } else { 0 }, b: kind > 1 && sym::boolean() };
        let d = Body::Enum(v.index, Box::new(match kind {
            0 => Body::Unit,
            1 => Body::UInt16(v.a),
            _ => Body::Tuple(vec![Body::UInt16(v.a), Body::Boolean(v.b)]),
        }));
        match (enc(&v), enc(&d)) {
            (Ok(a), Ok(b)) => {
                sym::obs_bytes(&a);
                check!(a == b, "a variant of any index is written the same through both interfaces");
                let mut r = &b[..];
                match Any::read(kind, &mut dlhn::Deserializer::new(&mut r)) {
                    Ok(w) => check!(w == v && r.is_empty(), "a dynamic variant of any index is readable as the type"),
                    Err(_) => check!(false, "a dynamic variant is readable as the type"),
                }
                reach!("variant crossed");
            }
            _ => check!(false, "both interfaces write a variant"),
        }
    }
    //@ quick=0
    fn c19_wide_enum(p) {
        let i = sym::pick(140);
        let v = K140::of(i as u32, sym::u16(), sym::boolean());
        let of = |i: u64| match i % 4 { 0 => Header::Unit, 1 => Header::UInt16, _ => Header::Tuple(vec![Header::UInt16, Header::Boolean]) };
        let h = Header::Enum((0..140).map(of).collect());
        let d = Body::Enum(i as u32, Box::new(match (v.first(), v.second()) {
            (Some(a), Some(b)) => Body::Tuple(vec![Body::UInt16(a), Body::Boolean(b)]),
            (Some(a), None) => Body::UInt16(a),
            _ => Body::Unit,
        }));
        match (enc(&v), enc(&d)) {
            (Ok(a), Ok(b)) => {
                check!(a == b, "a variant of a large enum is written the same through both interfaces");
                match dec_body(&h, &a) {
                    (Ok(x), n) => check!(n == a.len() && same_body(&x, &d), "a variant of a large enum is readable dynamically"),
                    _ => check!(false, "a typed variant of a large enum is readable dynamically"),
                }
                match dec::<K140>(&b) {
                    (Ok(x), n) => check!(n == b.len() && x == v, "a dynamic variant of a large enum is readable as the type"),
                    _ => check!(false, "a dynamic variant of a large enum is readable"),
                }
                reach!("large enum crossed");
            }
            _ => check!(false, "both interfaces write a variant of a large enum"),
        }
    }
}
