//! C10: a type's header describes exactly the bytes its values serialize to.
//! bound: contents as in C04 (sequences and maps of at most 2 entries, strings of at most 2 bytes); the
//!   listed built-in and derived types, derived structs of 127, 128 and 300 fields, enums of 127, 128,
//!   131 and 300 variants, variants of 12 to 300 fields; the derive macro's count encoding for every 16-bit count.
use crate::hb::*;
use crate::model::*;
use crate::refm::*;
use crate::sym;
use crate::util::*;
use crate::wide::*;
use dlhn::{Body, Header, SerializeHeader};
use serde::{Deserialize, Serialize};
use serde_bytes::{ByteBuf, Bytes};
use std::collections::{BTreeMap, HashMap};

fn header_of<T: SerializeHeader + ?Sized>() -> Vec<u8> {
    let mut o = Vec::new();
    let _ = T::serialize_header(&mut o);
    o
}
/// Independent statement of a type's header.
trait H {
    fn h() -> Header;
}
macro_rules! h {
    ($($t:ty => $h:expr;)*) => { $(impl H for $t { fn h() -> Header { $h } })* };
}
h! {
    bool => Header::Boolean; u8 => Header::UInt8; u16 => Header::UInt16; u32 => Header::UInt32; u64 => Header::UInt64;
    i8 => Header::Int8; i16 => Header::Int16; i32 => Header::Int32; i64 => Header::Int64;
    f32 => Header::Float32; f64 => Header::Float64; () => Header::Unit;
    String => Header::String; ByteBuf => Header::Binary;
    dlhn::BigUint => Header::BigUInt; dlhn::BigInt => Header::BigInt; dlhn::BigDecimal => Header::BigDecimal;
    dlhn::Date => Header::Date; dlhn::DateTime => Header::DateTime;
    S1 => tup([bool::h(), u16::h(), String::h(), Option::<i32>::h()]);
    S3 => tup([i16::h(), Option::<u8>::h()]);
    S2 => tup([u8::h(), S3::h(), Vec::<S3>::h()]);
    Empty => tup([]);
    One => tup([u32::h()]);
    Wide => tup([u8::h(), u8::h(), i8::h(), bool::h(), u8::h(), f32::h(), u8::h(), i8::h(), <()>::h(), u8::h()]);
    Blob => tup([u8::h(), ByteBuf::h(), String::h()]);
    WithMap => tup([BTreeMap::<String, i16>::h(), <(u8, bool)>::h()]);
    T3 => tup([u8::h(), i64::h(), Option::<String>::h()]);
    T2 => tup([i32::h(), u32::h()]);
    E1 => enu([Header::Unit, u16::h(), tup([u8::h(), i32::h()]), tup([u8::h(), Option::<bool>::h()]), String::h(), Header::Unit]);
    E3 => enu([Header::Unit, Header::Unit, Header::Unit]);
    E2 => enu([S3::h(), tup([E3::h(), u8::h()])]);
}
fn tup<const N: usize>(v: [Header; N]) -> Header {
    Header::Tuple(Vec::from(v))
}
fn enu<const N: usize>(v: [Header; N]) -> Header {
    Header::Enum(Vec::from(v))
}
impl<T: H> H for Option<T> {
    fn h() -> Header {
        Header::Optional(Box::new(T::h()))
    }
}
impl<T: H> H for Vec<T> {
    fn h() -> Header {
        Header::Array(Box::new(T::h()))
    }
}
impl<T: H> H for BTreeMap<String, T> {
    fn h() -> Header {
        Header::Map(Box::new(T::h()))
    }
}
macro_rules! h_tuple {
    ($(($($t:ident)*))*) => {$( impl<$($t: H),*> H for ($($t,)*) { fn h() -> Header { Header::Tuple(vec![$($t::h()),*]) } } )*};
}
h_tuple!((A) (A B) (A B C) (A B C D) (A B C D E) (A B C D E F G H0 I J K L));

/// The bytes of a value, read through the header and written again.
fn through(hb: &[u8], want: &Header, bytes: Vec<u8>) {
    let h = match dec_header(hb) {
        (Ok(h), n) => {
            check!(n == hb.len(), "a type's header is exactly one header");
            h
        }
        _ => {
            check!(false, "a type's header parses");
            return;
        }
    };
    check!(same_header(&h, want), "a type's header is the documented one");
    let mut e = bytes.clone();
    e.push(7);
    let mut r = Rd::new(&e);
    match (dec_body(&h, &e), parse_body(want, &mut r)) {
        ((Ok(b), n), Some(m)) => {
            check!(n == bytes.len(), "reading a value through its header consumes it completely");
            check!(is(want, &b, &m), "reading a value through its header gives the data it holds");
            check!(b.validate(&h), "the body read conforms to the header");
            match enc(&b) {
                Ok(w) => check!(w == bytes, "the body is written back unchanged"),
                Err(_) => check!(false, "the body can be written back"),
            }
            reach!("read through the header");
        }
        _ => check!(false, "a value is readable through its type's header"),
    }
}
#[inline(never)]
fn conform<T: M + H + SerializeHeader>() {
    let v = T::gen();
    match enc(&v) {
        Ok(b) => through(&header_of::<T>(), &T::h(), b),
        Err(_) => check!(false, "values of a type with a header are written"),
    }
}
fn value<T: Serialize + SerializeHeader>(v: &T, want: Header) {
    match enc(v) {
        Ok(b) => {
            sym::obs_bytes(&b);
            through(&header_of::<T>(), &want, b)
        }
        Err(_) => check!(false, "values of a derived type are written"),
    }
}
fn just_header<T: SerializeHeader + ?Sized>(want: Header) {
    let mut w = Vec::new();
    put_header(&want, &mut w);
    check!(header_of::<T>() == w, "header without values");
}

#[derive(Serialize, Deserialize, SerializeHeader)]
struct Skips {
    #[serde(skip)]
    a: u64,
    b: u8,
    #[serde(skip_serializing, default)]
    c: u32,
    #[serde(rename = "dd")]
    d: u16,
    #[serde(default, skip)]
    e: String,
    #[serde(skip_deserializing)]
    f: bool,
    /// documented
    #[serde(skip)]
    #[allow(dead_code)]
    g: Option<Vec<u8>>,
    #[serde(rename = "skip")]
    h: i8,
}
#[derive(Serialize, Deserialize, SerializeHeader)]
struct SkipT(#[serde(skip)] u64, u8, #[serde(skip_serializing)] u32, bool);
#[derive(Serialize, Deserialize, SerializeHeader)]
struct NewT(i32);
/// serde writes the field of a newtype struct whatever its attributes say.
#[derive(Serialize, Deserialize, SerializeHeader)]
struct NewSkip(#[serde(skip)] u16);
#[derive(Serialize, SerializeHeader)]
struct NewSkipS(#[serde(skip_serializing)] Option<bool>);
#[derive(Serialize, SerializeHeader)]
enum NewSkipE {
    A(#[serde(skip)] u16),
    B(#[serde(skip_serializing)] u8),
    C(u8),
}
#[derive(Serialize, Deserialize, SerializeHeader)]
struct UnitT;
#[derive(Serialize, Deserialize, SerializeHeader)]
struct EmptyT();
#[derive(Serialize, SerializeHeader)]
enum SkipE {
    A(u8, #[serde(skip)] u64, bool),
    B { x: u16, #[serde(skip)] y: u64 },
    C { #[serde(skip_serializing)] p: u8, q: u8, r: u8, #[serde(skip)] s: u8 },
    D {},
    E(),
    F(i64),
    G { only: bool },
    H { #[serde(skip)] z: u8 },
}
#[derive(Serialize, SerializeHeader)]
struct With {
    #[serde(with = "dlhn::format::date")]
    d: time::Date,
    #[serde(with = "dlhn::format::date_time")]
    t: time::OffsetDateTime,
    #[serde(with = "dlhn::format::big_int")]
    i: num_bigint::BigInt,
    #[serde(with = "dlhn::format::big_uint")]
    u: num_bigint::BigUint,
    #[serde(with = "dlhn::format::big_decimal")]
    n: bigdecimal::BigDecimal,
    s: &'static str,
}
#[derive(Serialize, Deserialize, SerializeHeader)]
#[serde(transparent)]
struct Transparent {
    v: Vec<u8>,
}
#[derive(Serialize, Deserialize, SerializeHeader)]
#[serde(rename_all = "camelCase")]
enum Nested {
    List(Vec<Option<Nested2>>),
    Pair((u8, Nested2), Option<()>),
}
#[derive(Serialize, Deserialize, SerializeHeader)]
struct Nested2 {
    m: BTreeMap<String, Option<bool>>,
}
#[derive(Serialize, SerializeHeader)]
enum SkippedVariant {
    A,
    #[serde(skip)]
    #[allow(dead_code)]
    B(u8),
    C(u16),
}
/// A skipped variant at the end changes no index.
#[derive(Serialize, SerializeHeader)]
enum SkippedLast {
    A,
    C(u16),
    #[serde(skip)]
    #[allow(dead_code)]
    Z(u8),
}

entries! {
    //@ quick=0-46,100-146
    fn c10_type(p) {
        set_max(1 + (p / 100) as usize);
        macro_rules! t { ($($i:literal $t:ty),*) => { match p % 100 { $($i => conform::<$t>(),)* _ => unreachable!() } } }
        t!(0 bool, 1 u8, 2 u16, 3 u32, 4 u64, 5 i8, 6 i16, 7 i32, 8 i64, 9 f32, 10 f64, 11 (), 12 String, 13 ByteBuf,
           14 Option<u16>, 15 Option<Option<bool>>, 16 Option<String>, 17 Vec<u16>, 18 Vec<Option<bool>>, 19 Vec<Vec<u8>>,
           20 Vec<String>, 21 (u8,), 22 (u16, i32), 23 (bool, u64, i8, i16), 24 Option<Vec<u8>>, 25 BTreeMap<String, u8>,
           26 BTreeMap<String, Option<u16>>, 27 S1, 28 S2, 29 S3, 30 Empty, 31 One, 32 Wide, 33 Blob, 34 WithMap, 35 T3,
           36 T2, 37 E1, 38 E2, 39 E3, 40 dlhn::BigUint, 41 dlhn::BigInt, 42 dlhn::BigDecimal, 43 dlhn::Date,
           44 dlhn::DateTime, 45 (E3, S3, (), Vec<u8>, bool), 46 Vec<E1>)
    }
    //@ quick=0-14
    fn c10_derived(p) {
        set_max(1);
        use Header::*;
        match p {
            0 => value(&Skips { a: sym::u64(), b: sym::u8(), c: sym::u32(), d: sym::u16(), e: Default::default(), f: sym::boolean(), g: None, h: sym::i8() },
                       tup([UInt8, UInt16, Boolean, Int8])),
            1 => value(&SkipT(sym::u64(), sym::u8(), sym::u32(), sym::boolean()), tup([UInt8, Boolean])),
            2 => value(&NewT(sym::i32()), tup([Int32])),
            3 => value(&UnitT, tup([])),
            4 => value(&EmptyT(), tup([])),
            5 => {
                let v = match sym::pick(8) {
                    0 => SkipE::A(sym::u8(), sym::u64(), sym::boolean()),
                    1 => SkipE::B { x: sym::u16(), y: sym::u64() },
                    2 => SkipE::C { p: sym::u8(), q: sym::u8(), r: sym::u8(), s: sym::u8() },
                    3 => SkipE::D {},
                    4 => SkipE::E(),
                    5 => SkipE::F(sym::i64()),
                    6 => SkipE::G { only: sym::boolean() },
                    _ => SkipE::H { z: sym::u8() },
                };
                value(&v, enu([tup([UInt8, Boolean]), UInt16, tup([UInt8, UInt8]), Unit, Unit, Int64, Boolean, Unit]))
            }
            6 => {
                // one field varies at a time
                let k = sym::pick(5);
                let v = With {
                    d: if k == 0 { any_date() } else { time::Date::from_ordinal_date(1999, 365).unwrap() },
                    t: if k == 1 { any_instant() } else { time::OffsetDateTime::from_unix_timestamp(-1).unwrap() },
                    i: num_bigint::BigInt::from(if k == 2 { sym::i16() as i64 } else { -129 }),
                    u: num_bigint::BigUint::from(if k == 3 { sym::u16() } else { 0 }),
                    n: bigdecimal::BigDecimal::new(num_bigint::BigInt::from(3), if k == 4 { sym::i8() as i64 } else { 1 }),
                    s: "ab",
                };
                value(&v, tup([Date, DateTime, BigInt, BigUInt, BigDecimal, String]))
            }
            7 => value(&Transparent { v: sym::vec(2) }, tup([Array(Box::new(UInt8))])),
            8 => {
                let n2 = || Nested2 { m: M::gen() };
                let h2 = || tup([Map(Box::new(Optional(Box::new(Boolean))))]);
                let v = if sym::flip() {
                    Nested::List((0..sym::pick(3)).map(|_| if sym::flip() { Some(n2()) } else { None }).collect())
                } else {
                    Nested::Pair((sym::u8(), n2()), if sym::flip() { Some(()) } else { None })
                };
                value(&v, enu([Array(Box::new(Optional(Box::new(h2())))), tup([tup([UInt8, h2()]), Optional(Box::new(Unit))])]))
            }
            9 => value(&if sym::flip() { SkippedLast::A } else { SkippedLast::C(sym::u16()) }, enu([Unit, UInt16])),
            12 => value(&NewSkip(sym::u16()), tup([UInt16])),
            13 => value(&NewSkipS(if sym::flip() { Some(sym::boolean()) } else { None }), tup([Optional(Box::new(Boolean))])),
            14 => value(&match sym::pick(3) { 0 => NewSkipE::A(sym::u16()), 1 => NewSkipE::B(sym::u8()), _ => NewSkipE::C(sym::u8()) },
                        enu([Unit, Unit, UInt8])),
            10 => value(&(sym::u8(), sym::i8(), sym::u16(), sym::i16(), sym::u32(), sym::i32()), tup([UInt8, Int8, UInt16, Int16, UInt32, Int32])),
            _ => {
                just_header::<Bytes>(Binary);
                just_header::<&str>(String);
                just_header::<num_bigint::BigInt>(BigInt);
                just_header::<num_bigint::BigUint>(BigUInt);
                just_header::<bigdecimal::BigDecimal>(BigDecimal);
                just_header::<time::Date>(Date);
                just_header::<time::OffsetDateTime>(DateTime);
                just_header::<HashMap<std::string::String, Vec<u8>>>(Map(Box::new(Array(Box::new(UInt8)))));
                just_header::<BTreeMap<&str, bool>>(Map(Box::new(Boolean)));
                just_header::<HashMap<&str, ()>>(Map(Box::new(Unit)));
            }
        }
    }
    /// Tuples of every arity with distinct kinds at every position.
    //@ quick=0
    fn c10_tuples(p) {
        use Header::*;
        macro_rules! tuples { ($($n:literal: $($t:ident $h:ident)*;)*) => {$({
            let v = ($($t::gen(),)*);
            let mut w = Vec::new();
            for x in [$($h),*] { w.push(x) }
            value(&v, Tuple(w));
        })*} }
        tuples! {
            1: u8 UInt8;
            2: u8 UInt8 i8 Int8;
            3: u8 UInt8 i8 Int8 f32 Float32;
            4: u8 UInt8 i8 Int8 f32 Float32 f64 Float64;
            5: i8 Int8 u8 UInt8 f32 Float32 f64 Float64 u8 UInt8;
            6: i8 Int8 u8 UInt8 f32 Float32 f64 Float64 u8 UInt8 i8 Int8;
            7: i8 Int8 u8 UInt8 f32 Float32 f64 Float64 u8 UInt8 i8 Int8 f32 Float32;
            8: i8 Int8 u8 UInt8 f32 Float32 f64 Float64 u8 UInt8 i8 Int8 f32 Float32 u8 UInt8;
            9: u8 UInt8 u8 UInt8 f32 Float32 f64 Float64 u8 UInt8 i8 Int8 f32 Float32 u8 UInt8 i8 Int8;
            10: u8 UInt8 i8 Int8 f32 Float32 f64 Float64 u8 UInt8 i8 Int8 f32 Float32 u8 UInt8 i8 Int8 f64 Float64;
            11: i8 Int8 i8 Int8 f32 Float32 f64 Float64 u8 UInt8 i8 Int8 f32 Float32 u8 UInt8 i8 Int8 f64 Float64 u8 UInt8;
            12: u8 UInt8 i8 Int8 f32 Float32 f64 Float64 u8 UInt8 i8 Int8 f32 Float32 u8 UInt8 i8 Int8 f64 Float64 u8 UInt8 f32 Float32;
            13: u8 UInt8 i8 Int8 f32 Float32 f64 Float64 u8 UInt8 i8 Int8 f32 Float32 u8 UInt8 i8 Int8 f64 Float64 u8 UInt8 f32 Float32 i8 Int8;
            14: u8 UInt8 i8 Int8 f32 Float32 f64 Float64 u8 UInt8 i8 Int8 f32 Float32 u8 UInt8 i8 Int8 f64 Float64 u8 UInt8 f32 Float32 i8 Int8 u8 UInt8;
            15: u8 UInt8 i8 Int8 f32 Float32 f64 Float64 u8 UInt8 i8 Int8 f32 Float32 u8 UInt8 i8 Int8 f64 Float64 u8 UInt8 f32 Float32 i8 Int8 u8 UInt8 f64 Float64;
            16: u8 UInt8 i8 Int8 f32 Float32 f64 Float64 u8 UInt8 i8 Int8 f32 Float32 u8 UInt8 i8 Int8 f64 Float64 u8 UInt8 f32 Float32 i8 Int8 u8 UInt8 f64 Float64 i8 Int8;
        }
    }
    //@ quick=0-8
    fn c10_wide(p) {
        let k = |n| Header::Tuple((0..n).map(|_| Header::UInt8).collect());
        let e = |n| Header::Enum((0..n).map(|i| if i % 3 == 1 { Header::UInt8 } else { Header::Unit }).collect());
        let u = |n| Header::Enum((0..n).map(|_| Header::Unit).collect());
        match p {
            0 => value(&W127::of(sym::u8), k(127)),
            1 => value(&W128::of(sym::u8), k(128)),
            2 => value(&W300::of(sym::u8), k(300)),
            3 => value(&N127::of(sym::pick(127), sym::u8()), e(127)),
            4 => value(&N128::of(sym::pick(128), sym::u8()), e(128)),
            5 => value(&N131::of(sym::pick(131), sym::u8()), e(131)),
            6 => value(&F130::of(sym::pick(3), sym::u8), enu([Header::Unit, k(12), k(130)])),
            7 => just_header::<X300>(u(300)),
            _ => just_header::<F300>(enu([k(300), k(128), k(127), k(256)])),
        }
    }
    /// The count encoding compiled into the derive macro.
    //@ quick=0
    fn c10_count(p) {
        reach!("count encoding");
        #[cfg(derive_varint)]
        {
            use crate::derive_varint::PrefixVarint;
            let n = sym::u16();
            let mut w = Vec::new();
            put_u16(n, &mut w);
            if n.encode_prefix_varint_vec() != w {
                check!(false, "the derive macro writes member counts as prefix varints")
            }
        }
    }
    /// Known finding: a skipped variant shifts the header's indices.
    //@ quick=0
    fn c10_kf_variant(p) {
        let v = SkippedVariant::C(sym::u16());
        let b = match enc(&v) {
            Ok(b) => b,
            Err(_) => return,
        };
        let (h, _) = dec_header(&header_of::<SkippedVariant>());
        if let Ok(h) = h {
            let (r, n) = dec_body(&h, &b);
            check!(r.is_ok() && n == b.len(), "kf: a variant after a skipped one is readable through the header");
        }
    }
}
