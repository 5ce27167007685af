//! C07: typed decoding of arbitrary bytes.
//! bound: every byte string of at most 5 bytes (numbers, dates and timestamps: of their maximum length;
//!   thorough: of 7) for each of the 66 types of model.rs; at most 4 bytes for the serde `with` modules
//!   and for types the format does not support.
//!   24 types behind every announced length above 1000 in its longest forms; 8 types of 124 to 65536 bytes with any 3 bytes
//!   in front, in the middle or at the end, cut, exact or followed by 1 or 2 bytes; any value of 25 types
//!   after 3000 refusals of any 3 bytes.
//! assume: sequences of elements that occupy no bytes are outside (c07_kf_zero), as is recursion deeper
//!   than the stack (c07_kf_deep).
//! opts: --alloc-limit 1000000
use crate::model::*;
use crate::refm::*;
use crate::sym;
use crate::util::*;
use crate::with_type;
use serde::de::{DeserializeOwned, IgnoredAny, Visitor};
use serde::{Deserialize, Deserializer as _, Serialize};
use serde_bytes::ByteBuf;
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet};
use std::net::{IpAddr, SocketAddr};
use std::num::NonZeroU16;
use std::time::{Duration, SystemTime};

static mut LEN: usize = 0;

#[inline(never)]
fn any<T: M>() {
    decides::<T>(sym::vec(unsafe { LEN }))
}
/// Input that announces far more than there is.
#[inline(never)]
fn huge<T: M>() {
    let b = sym::vec_of(9 + unsafe { LEN });
    sym::assume(b[0] >= 0xf8);
    let mut r = Rd::new(&b);
    match r.u64() {
        Some(n) => sym::assume(n > 1000),
        None => return,
    }
    decides::<T>(b)
}
#[inline(never)]
fn decides<T: M>(b: Vec<u8>) {
    let mut r = Rd::new(&b);
    let want = T::parse(&mut r);
    match (dec::<T>(&b), want) {
        ((Ok(v), n), Some(w)) => {
            check!(v.agrees(&w), "the value is the one the bytes spell");
            check!(n == r.pos, "exactly the bytes that spell it are consumed");
            reach!("decoded");
        }
        ((Err(_), _), None) => reach!("refused"),
        ((Ok(_), _), None) => check!(false, "bytes that spell no value are refused"),
        ((Err(_), _), Some(_)) => check!(false, "bytes that spell a value are accepted"),
    }
}
/// Refusals leave nothing behind.
const AGAIN: usize = 3000;
#[inline(never)]
fn after<T: M>() {
    set_max(1);
    let bad = sym::vec(3);
    sym::assume(T::parse(&mut Rd::new(&bad)).is_none());
    for _ in 0..AGAIN {
        check!(dec::<T>(&bad).0.is_err(), "bytes that spell no value are refused again and again");
    }
    let mut e = Vec::new();
    T::gen().put(&mut e);
    decides::<T>(e)
}
/// No reference: only totality, and at most the input is consumed.
#[inline(never)]
fn total<T: DeserializeOwned>(max: usize) {
    let b = sym::vec(max);
    let (r, n) = dec::<T>(&b);
    check!(n <= b.len(), "no more than the input is consumed");
    sym::obs(r.is_ok() as u64);
    if r.is_ok() {
        reach!("unsupported-shape type decoded");
    } else {
        reach!("unsupported-shape type refused");
    }
}
#[inline(never)]
fn never<T: DeserializeOwned>() {
    let b = sym::vec(3);
    check!(dec::<T>(&b).0.is_err(), "a type that needs self-description is refused");
}
#[derive(Deserialize)]
struct FU(#[serde(with = "dlhn::format::big_uint")] num_bigint::BigUint);
#[derive(Deserialize)]
struct FI(#[serde(with = "dlhn::format::big_int")] num_bigint::BigInt);
#[derive(Deserialize)]
struct FC(#[serde(with = "dlhn::format::big_decimal")] bigdecimal::BigDecimal);
#[derive(Deserialize)]
struct FD(#[serde(with = "dlhn::format::date")] time::Date);
#[derive(Deserialize)]
struct FT(#[serde(with = "dlhn::format::date_time")] time::OffsetDateTime);
#[derive(Deserialize)]
#[serde(untagged)]
enum Untagged {
    A(u8),
    B(String),
}
#[derive(Deserialize)]
#[serde(tag = "t")]
enum Tagged {
    A { x: u8 },
    B { y: bool },
}
#[derive(Deserialize)]
struct Def {
    a: u8,
    #[serde(default)]
    b: u16,
    #[serde(skip)]
    c: u32,
    #[serde(rename = "x")]
    d: bool,
}
#[derive(Deserialize)]
#[serde(deny_unknown_fields)]
struct Strict {
    a: u8,
    b: bool,
}
/// Occupies memory, but no bytes.
#[derive(Deserialize)]
struct Nothing {
    #[serde(skip)]
    _c: u64,
}
struct AnyV;
impl<'de> Visitor<'de> for AnyV {
    type Value = ();
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("x")
    }
    // no message quotes the input: formatting arbitrary text is std's business
    fn visit_bool<E: serde::de::Error>(self, _: bool) -> Result<(), E> { Err(E::custom("no")) }
    fn visit_i64<E: serde::de::Error>(self, _: i64) -> Result<(), E> { Err(E::custom("no")) }
    fn visit_u64<E: serde::de::Error>(self, _: u64) -> Result<(), E> { Err(E::custom("no")) }
    fn visit_f64<E: serde::de::Error>(self, _: f64) -> Result<(), E> { Err(E::custom("no")) }
    fn visit_char<E: serde::de::Error>(self, _: char) -> Result<(), E> { Err(E::custom("no")) }
    fn visit_str<E: serde::de::Error>(self, _: &str) -> Result<(), E> { Err(E::custom("no")) }
    fn visit_bytes<E: serde::de::Error>(self, _: &[u8]) -> Result<(), E> { Err(E::custom("no")) }
}
/// A type whose visitor accepts nothing, asked for through every method.
struct Hostile<const K: u8>;
impl<'de, const K: u8> Deserialize<'de> for Hostile<K> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        match K {
            0 => d.deserialize_any(AnyV),
            1 => d.deserialize_bool(AnyV),
            2 => d.deserialize_i64(AnyV),
            3 => d.deserialize_u16(AnyV),
            4 => d.deserialize_f32(AnyV),
            5 => d.deserialize_char(AnyV),
            6 => d.deserialize_str(AnyV),
            7 => d.deserialize_string(AnyV),
            8 => d.deserialize_bytes(AnyV),
            9 => d.deserialize_byte_buf(AnyV),
            10 => d.deserialize_option(AnyV),
            11 => d.deserialize_unit(AnyV),
            12 => d.deserialize_unit_struct("", AnyV),
            13 => d.deserialize_newtype_struct("", AnyV),
            14 => d.deserialize_seq(AnyV),
            15 => d.deserialize_tuple(2, AnyV),
            16 => d.deserialize_tuple_struct("", 2, AnyV),
            17 => d.deserialize_map(AnyV),
            18 => d.deserialize_struct("", &["a"], AnyV),
            19 => d.deserialize_enum("", &["A"], AnyV),
            20 => d.deserialize_identifier(AnyV),
            21 => d.deserialize_ignored_any(AnyV),
            22 => d.deserialize_i128(AnyV),
            _ => d.deserialize_u128(AnyV),
        }
        .map(|_| Hostile)
    }
}

entries! {
    //@ quick=0-65 thorough=0-65,200-265
    fn c07_any(p) {
        let n = match p % 100 {
            11 => 6,
            0..=12 => 10,
            31 | 36 | 44 | 54 => 6,
            55 => 12,
            58..=60 | 63 | 64 => 4,
            61 | 65 => 8,
            62 => 14,
            _ => 5,
        };
        unsafe { LEN = if p >= 200 { n + if n < 6 { 2 } else { 0 } } else { n } }
        with_type!(p % 100, any)
    }
    //@ quick=13,14,18-21,28-30,33,41,47,49,50,52,57-60,63,64
    fn c07_huge(p) {
        unsafe { LEN = 1 }
        with_type!(p, huge)
    }
    /// Long contents: any 3 bytes in front, in the middle and at the end, one more or less than announced, and 2
    /// bytes behind.
    //@ quick=0-79
    fn c07_long(p) {
        let n = [124, 128, 129, 300, 1025, 4096, 4097, 8193, 16384, 65536][p as usize % 10];
        let mut v: Vec<u8> = vec![b'x'; n];
        let at = [0, n / 2, n - 3][sym::pick(3) as usize];
        v[at..at + 3].copy_from_slice(&sym::vec_of(3));
        let mut b = Vec::new();
        match p / 10 {
            // announced by an option, by a map of one entry, by a tuple around it
            2 | 6 => b.push(1),
            7 => b.push(sym::u8()),
            _ => {}
        }
        put_u64(n as u64, &mut b);
        match sym::pick(3) {
            0 => {
                v.pop();
            }
            1 => v.push(sym::u8()),
            _ => v.extend_from_slice(&sym::vec_of(2)),
        }
        b.extend_from_slice(&v);
        match p / 10 {
            0 => decides::<String>(b),
            1 => decides::<ByteBuf>(b),
            2 => decides::<Option<String>>(b),
            3 => decides::<Vec<u8>>(b),
            4 => decides::<char>(b),
            5 => decides::<dlhn::BigInt>(b),
            6 => decides::<BTreeMap<String, u8>>(b),
            _ => decides::<Option<Vec<u8>>>(b),
        }
    }
    /// After 3000 refusals of any bytes.
    //@ quick=0,3,10,11,13-18,21,28,30,34,39,41,46-50,53,58,60,61
    fn c07_after(p) { with_type!(p, after) }
    //@ quick=0-4
    fn c07_with(p) {
        match p {
            0 => total::<FU>(4),
            1 => total::<FI>(4),
            2 => total::<FC>(4),
            3 => total::<FD>(8),
            _ => total::<FT>(2),
        }
    }
    //@ quick=0-15
    fn c07_other(p) {
        match p {
            0 => total::<Cow<'static, str>>(5),
            1 => total::<Box<str>>(5),
            2 => total::<Box<[u8]>>(5),
            3 => total::<IpAddr>(6),
            4 => total::<SocketAddr>(8),
            5 => total::<SystemTime>(5),
            6 => total::<std::ops::Range<u16>>(5),
            7 => total::<Def>(6),
            8 => total::<Strict>(4),
            9 => total::<Option<()>>(2),
            10 => total::<BTreeMap<u8, u8>>(5),
            11 => total::<BTreeMap<char, Vec<bool>>>(5),
            12 => total::<std::path::PathBuf>(5),
            13 => total::<std::ops::Bound<u8>>(5),
            14 => total::<(Option<Box<[u16]>>, std::cell::Cell<u8>)>(5),
            _ => total::<std::collections::VecDeque<std::sync::atomic::AtomicU8>>(4),
        }
    }
    //@ quick=0-5
    fn c07_never(p) {
        match p {
            0 => never::<IgnoredAny>(),
            1 => never::<Untagged>(),
            2 => never::<Tagged>(),
            3 => never::<u128>(),
            4 => never::<i128>(),
            _ => never::<Hostile<0>>(),
        }
    }
    //@ quick=0-23
    fn c07_hostile(p) {
        let b = sym::vec(4);
        macro_rules! one { ($($k:literal)*) => { match p { $($k => dec::<Hostile<$k>>(&b).0.is_err(),)* _ => true } } }
        let e = one!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23);
        check!(e, "a visitor that accepts nothing gets an error");
    }
    /// Known finding: elements that occupy no bytes are materialized without limit.
    //@ quick=0
    fn c07_kf_zero(p) {
        let mut e = Vec::new();
        put_u64(1 << 60, &mut e);
        let (r, n) = dec::<Vec<Nothing>>(&e);
        check!(r.is_err() || n == e.len(), "kf: a huge sequence of nothing is decoded or refused");
    }
    /// Known finding: recursive types deeper than the stack.
    //@ quick=0
    fn c07_kf_deep(p) {
        let b = vec![1u8; 400_000];
        let (r, _) = dec::<Node>(&b);
        check!(r.is_err(), "kf: a deep recursive value is decoded or refused");
    }
}
