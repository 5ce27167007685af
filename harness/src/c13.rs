//! C13: truncated input is always reported, never decoded.
//! bound: values as in C04 (sequences of at most 2 elements, maps of at most 2 entries, strings of at most 2
//!   bytes; 3 in the larger runs), dynamic bodies under every leaf kind and under headers of one nesting
//!   level over every leaf and two levels over bool, u16, string; headers of up to 5 bytes and
//!   of 130 and 16400 members; every cut point of each; strings and byte strings of up to 1 MiB + 3 bytes cut at
//!   both ends and around every internal buffer boundary; sequences and maps of 130 entries at every cut;
//!   at most 3 elements behind every announced count above 8.
//!   53 large shapes (hb.rs BIG: texts up to 1 MiB + 3 bytes, integers of 70001 bytes, up to 70001 elements, 5000
//!   entries, 16500 variants, nesting of 1100) with two arbitrary bytes each, cut at
//!   both ends and at internal buffer boundaries.
use crate::hb::*;
use crate::model::*;
use crate::refm::*;
use crate::sym;
use crate::util::*;
use crate::with_type;
use dlhn::{Body, DeserializeHeader, Header, SerializeHeader};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_bytes::{ByteBuf, Bytes};
use std::collections::BTreeMap;

#[inline(never)]
fn cut<T: M>() {
    let v = T::gen();
    all::<T>(enc(&v))
}
fn all<T: DeserializeOwned>(e: Result<Vec<u8>, dlhn::ser::Error>) {
    match e {
        Err(_) => check!(false, "values are written"),
        Ok(b) => {
            sym::obs_bytes(&b);
            for n in 0..b.len() {
                check!(dec::<T>(&b[..n]).0.is_err(), "a truncated value is an error");
            }
            check!(dec::<T>(&b).0.is_ok(), "the whole value is decoded");
            reach!("value cut everywhere");
        }
    }
}
fn body(h: &Header) {
    if let Some(v) = gen_body(h) {
        match enc(&v) {
            Err(_) => check!(false, "bodies are written"),
            Ok(b) => {
                sym::obs_bytes(&b);
                for n in 0..b.len() {
                    check!(dec_body(h, &b[..n]).0.is_err(), "a truncated body is an error");
                }
                check!(dec_body(h, &b).0.is_ok(), "the whole body is decoded");
                reach!("body cut everywhere");
            }
        }
    }
}
fn header(b: &[u8], from: usize) {
    sym::obs_bytes(b);
    for n in from..b.len() {
        check!(dec_header(&b[..n]).0.is_err(), "a truncated header is an error");
    }
    check!(dec_header(b).0.is_ok(), "the whole header is parsed");
}

#[derive(Serialize, Deserialize)]
struct Fmt {
    #[serde(with = "dlhn::format::big_uint")]
    u: num_bigint::BigUint,
    #[serde(with = "dlhn::format::date")]
    d: time::Date,
    #[serde(with = "dlhn::format::big_int")]
    i: num_bigint::BigInt,
    #[serde(with = "dlhn::format::date_time")]
    t: time::OffsetDateTime,
    #[serde(with = "dlhn::format::big_decimal")]
    n: bigdecimal::BigDecimal,
}
#[derive(Serialize, Deserialize)]
struct FD(#[serde(with = "dlhn::format::big_decimal")] bigdecimal::BigDecimal);
#[derive(Serialize, Deserialize)]
struct FI(#[serde(with = "dlhn::format::big_int")] num_bigint::BigInt);
#[derive(Serialize, Deserialize)]
struct FU(#[serde(with = "dlhn::format::big_uint")] num_bigint::BigUint);
#[derive(Serialize, Deserialize)]
struct FDate(#[serde(with = "dlhn::format::date")] time::Date);
#[derive(Serialize, Deserialize)]
struct FTime(#[serde(with = "dlhn::format::date_time")] time::OffsetDateTime);

fn signed(n: usize) -> num_bigint::BigInt {
    let s = if sym::flip() { num_bigint::Sign::Minus } else { num_bigint::Sign::Plus };
    num_bigint::BigInt::from_bytes_le(s, &sym::vec_of(n))
}

const LONG: [usize; 16] = [126, 127, 128, 129, 255, 256, 4095, 4096, 4097, 8191, 8192, 8193, 12289, 16400, 65537, 1048579];

entries! {
    /// Long sequences and maps of typed values, cut at both ends and in between.
    //@ quick=300,5000,16500,70001
    fn c13_far(p) {
        let n = p as usize;
        let x = sym::u8();
        let at = |n: usize| [0, 1, 2, 3, 4, 127, 128, 130, 255, 257, 260, n / 2, n / 2 + 1, 4097, 16386]
            .into_iter().chain(n.saturating_sub(4)..n).filter(move |c| *c < n);
        let mut v = vec![7u8; n];
        v[n - 1] = x;
        let b = enc(&v).unwrap_or_default();
        check!(b.len() > n, "long sequences are written");
        for c in at(b.len()) {
            check!(dec::<Vec<u8>>(&b[..c]).0.is_err(), "a truncated long sequence is an error");
        }
        let v: Vec<(Option<u8>, ())> = (0..n / 4).map(|i| (if i % 2 == 0 { Some(x) } else { None }, ())).collect();
        let b = enc(&v).unwrap_or_default();
        for c in at(b.len()) {
            check!(dec::<Vec<(Option<u8>, ())>>(&b[..c]).0.is_err(), "a truncated sequence of pairs is an error");
        }
        if n < 10000 {
            let m: BTreeMap<String, u8> = (0..n).map(|i| (i.to_string(), x)).collect();
            let b = enc(&m).unwrap_or_default();
            check!(b.len() > n, "long maps are written");
            for c in at(b.len()) {
                check!(dec::<BTreeMap<String, u8>>(&b[..c]).0.is_err(), "a truncated long map is an error");
            }
        }
        reach!("long sequence cut");
    }
    //@ quick=0-65,100-165 thorough=0-65,100-165,200-265
    fn c13_typed(p) { with_type!(p, cut) }
    /// The serde `with` modules.
    //@ quick=0-5
    fn c13_format(p) {
        use bigdecimal::BigDecimal;
        match p {
            0 => all::<FU>(enc(&FU(num_bigint::BigUint::from_bytes_le(&sym::vec(6))))),
            1 => {
                let n = sym::pick(6) as usize;
                all::<FI>(enc(&FI(signed(n))))
            }
            2 => all::<FDate>(enc(&FDate(any_date()))),
            3 => {
                let s = [0i64, -1, 63, 64, 1_700_000_000, -62_135_596_800, 253_402_300_799][sym::pick(7) as usize];
                let n = sym::u32();
                sym::assume(n < 1_000_000_000);
                let t = time::OffsetDateTime::from_unix_timestamp(s).unwrap().replace_nanosecond(n);
                if let Ok(t) = t {
                    all::<FTime>(enc(&FTime(t)))
                }
            }
            4 => all::<FD>(enc(&FD(BigDecimal::new(num_bigint::BigInt::from(7), sym::i64())))),
            _ => {
                let v = Fmt {
                    u: num_bigint::BigUint::from(sym::u8()),
                    d: time::Date::from_ordinal_date(1990, 3).unwrap(),
                    i: num_bigint::BigInt::from(sym::i8()),
                    t: time::OffsetDateTime::from_unix_timestamp(-70000).unwrap(),
                    n: BigDecimal::new(num_bigint::BigInt::from(-3), -40),
                };
                all::<Fmt>(enc(&v))
            }
        }
    }
    //@ quick=0,2-6,8-11,13-19,25,26
    fn c13_leaf(p) {
        set_max(4);
        body(&leaf(p as u8))
    }
    //@ quick=1,20,21,23,24
    fn c13_over(p) {
        set_max(1);
        let l = leaf(LEAVES[sym::pick(LEAVES.len() as u64) as usize]);
        let kids = match p {
            21 => vec![l, Header::UInt8],
            24 => vec![Header::Unit, l],
            _ => vec![l],
        };
        body(&node(p as u8, kids))
    }
    //@ quick=1,20,21,23,24 thorough=1,20,21,23,24,101,120,121,123,124
    fn c13_nest(p) {
        set_max(if p < 100 { 1 } else { 2 });
        body(&gen_node((p % 100) as u8, if p < 100 { &[3, 18] } else { &[2, 4, 18] }, 2, if p < 100 { 1 } else { 2 }))
    }
    //@ quick=1-4 thorough=1-5
    fn c13_header(p) {
        let h = gen_sized(&LEAVES, p as usize);
        match enc_header(&h) {
            Ok(b) => {
                header(&b, 0);
                reach!("header cut everywhere");
            }
            Err(_) => check!(false, "headers are written"),
        }
    }
    /// Headers with many members, over-long counts included.
    //@ quick=130,16400,16513
    fn c13_members(p) {
        for c in [21u8, 24] {
            let kind = LEAVES[sym::pick(2) as usize + 1];
            let mut b = vec![c];
            put_u16(p as u16, &mut b);
            for _ in 0..p {
                b.push(kind)
            }
            let from = if p < 1000 { 0 } else { b.len() - 3 };
            header(&b, from);
        }
    }
    /// A cut inside a long string or byte string.
    //@ quick=0-15
    fn c13_long(p) {
        let n = LONG[p as usize];
        let mut v: Vec<u8> = (0..n).map(|i| 33 + (i * 7 % 89) as u8).collect();
        let k: [u8; 2] = sym::arr();
        v[n - 1] = k[0] & 0x7f;
        v[0] = k[1] & 0x7f;
        let s = String::from_utf8(v.clone()).unwrap();
        let (a, b) = (enc(&s).unwrap_or_default(), enc(Bytes::new(&v)).unwrap_or_default());
        let at = |n: usize| [0, 1, 2, 3, 4, 127, 128, 4095, 4096, 4097, 4098, 4099, 4100, 8192, 8195, 12290, 12291, 12292]
            .into_iter().chain(n.saturating_sub(4)..n).filter(move |c| *c < n);
        for c in at(a.len()) {
            check!(dec::<String>(&a[..c]).0.is_err(), "a truncated string is an error");
            check!(dec_body(&Header::String, &a[..c]).0.is_err(), "a truncated string body is an error");
        }
        for c in at(b.len()) {
            check!(dec::<ByteBuf>(&b[..c]).0.is_err(), "a truncated byte string is an error");
            check!(dec_body(&Header::Binary, &b[..c]).0.is_err(), "a truncated binary body is an error");
            check!(dec::<dlhn::BigUint>(&b[..c]).0.is_err(), "a truncated big integer is an error");
        }
        check!(a.len() > n && b.len() > n, "long strings are written");
    }
    /// Fewer bytes or elements than announced, by any 64-bit amount.
    //@ quick=0-9
    fn c13_short(p) {
        let k = sym::pick(4);
        let n = sym::u64();
        sym::assume(n > 8);
        let mut b = Vec::new();
        put_u64(n, &mut b);
        // as text, numbers, entries
        for i in 0..k {
            match p {
                3 | 6 => b.extend([1, b'a' + i as u8, sym::u8()]),
                8 => b.extend([0, 1]),
                _ => b.push(b'a' + i as u8),
            }
        }
        let a = |h| Box::new(h);
        let e = match p {
            0 => dec::<String>(&b).0.is_err(),
            1 => dec::<ByteBuf>(&b).0.is_err(),
            2 => dec::<Vec<u8>>(&b).0.is_err(),
            3 => dec::<BTreeMap<String, u8>>(&b).0.is_err(),
            4 => dec::<dlhn::BigInt>(&b).0.is_err(),
            5 => dec_body(&Header::Array(a(Header::UInt8)), &b).0.is_err(),
            6 => dec_body(&Header::Map(a(Header::Int8)), &b).0.is_err(),
            7 => dec_body(&Header::Binary, &b).0.is_err(),
            8 => dec::<Vec<Option<bool>>>(&b).0.is_err(),
            _ => dec_body(&Header::Array(a(Header::Optional(a(Header::Boolean)))), &b).0.is_err(),
        };
        check!(e, "fewer elements than announced are an error");
        reach!("fewer than announced");
    }
    /// Sequences and maps of many entries.
    //@ quick=127,128,130
    fn c13_many(p) {
        let v: Vec<u8> = sym::vec_of(p as usize);
        all::<Vec<u8>>(enc(&v));
        let m: BTreeMap<String, i8> = (0..p).map(|i| (i.to_string(), i as i8)).collect();
        all::<BTreeMap<String, i8>>(enc(&m));
        let h = Header::Array(Box::new(Header::Int8));
        let b = enc(&Body::Array(v.iter().map(|x| Body::Int8(*x as i8)).collect())).unwrap_or_default();
        for c in 0..b.len() {
            check!(dec_body(&h, &b[..c]).0.is_err(), "a truncated array body is an error");
        }
    }
    /// Large bodies.
    //@ quick=0-52
    fn c13_big(p) {
        let (h, b) = big(p);
        match enc(&b) {
            Err(_) => check!(false, "large bodies are written"),
            Ok(e) => {
                let n = e.len();
                for c in [0, 1, 2, 3, n / 3, n / 2, 4096, 4098, 4099, 8195, n - n.min(4), n - n.min(3), n - n.min(2), n - 1] {
                    if c < n {
                        check!(dec_body(&h, &e[..c]).0.is_err(), "a truncated large body is an error");
                    }
                }
                check!(dec_body(&h, &e).0.is_ok(), "the whole large body is decoded");
                reach!("large body cut");
            }
        }
    }
}
