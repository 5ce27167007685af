//! C05: big integers and decimals.
//! bound: all magnitudes of up to 9 bytes and of 12, 16, 17 bytes; sizes up to 65537 bytes with the
//!   top 2 and the bottom byte arbitrary; decimals with all 8-bit digits (16-bit in the
//!   thorough run) and every 64-bit scale, all 16-bit (24-bit) digits at 4 scales, 6 digit values times
//!   10^3..10^24 at every scale; on the wire all digit
//!   strings of up to 4 bytes with every scale.
//!   Decimals of 18 digit strings from 2^31 to 3^700 with either sign at every scale.
use crate::refm::*;
use crate::sym;
use crate::util::*;
use bigdecimal::BigDecimal;
use num_bigint::{BigInt, BigUint, Sign};
use num_traits::Zero;
use serde::{Deserialize, Serialize};
use std::ops::Neg;

#[derive(Serialize, Deserialize)]
struct FU(#[serde(with = "dlhn::format::big_uint")] BigUint);
#[derive(Serialize, Deserialize)]
struct FI(#[serde(with = "dlhn::format::big_int")] BigInt);
#[derive(Serialize, Deserialize)]
struct FD(#[serde(with = "dlhn::format::big_decimal")] BigDecimal);

const SIZES: [usize; 20] = [0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 127, 128, 129, 255, 4097, 256, 65535, 65537];

/// Little-endian magnitude; long ones have filler in the middle.
fn magnitude(n: usize) -> Vec<u8> {
    if n <= 17 {
        return sym::vec_of(n);
    }
    let mut v: Vec<u8> = (0..n).map(|i| (i * 11 % 251) as u8).collect();
    let k: [u8; 3] = sym::arr();
    v[0] = k[0];
    v[n - 2] = k[1];
    v[n - 1] = k[2];
    v
}
fn strip(mut v: Vec<u8>) -> Vec<u8> {
    while let Some(0) = v.last() {
        v.pop();
    }
    v
}
/// Shortest two's complement of a stripped magnitude.
fn twos(neg: bool, mag: &[u8]) -> Vec<u8> {
    if mag.is_empty() {
        return vec![];
    }
    let mut o = Vec::new();
    if !neg {
        o.extend_from_slice(mag);
        if mag[mag.len() - 1] & 0x80 != 0 {
            o.push(0);
        }
        return o;
    }
    let mut carry = 1u16;
    for b in mag {
        let s = (!*b) as u16 + carry;
        o.push(s as u8);
        carry = s >> 8;
    }
    // the magnitude is not zero, so no carry leaves; the sign byte is redundant iff the top bit is set
    if o[o.len() - 1] & 0x80 == 0 {
        o.push(0xff);
    } else {
        while o.len() > 1 && o[o.len() - 1] == 0xff && o[o.len() - 2] & 0x80 != 0 {
            o.pop();
        }
    }
    o
}
fn framed(b: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    put_bytes(b, &mut o);
    o
}

fn uint(v: BigUint, want: Vec<u8>) {
    let w = dlhn::BigUint::from(v.clone());
    let (a, b) = (enc(&w), enc(&FU(v.clone())));
    check!(a.is_ok() && b.is_ok(), "writing a big unsigned integer succeeds");
    let (a, b) = (a.unwrap_or_default(), b.unwrap_or_default());
    sym::obs_bytes(&a);
    check!(a == want, "BigUint is its minimal little-endian magnitude");
    check!(b == want, "format::big_uint writes the same bytes");
    let mut e = want.clone();
    e.push(7);
    match (dec::<dlhn::BigUint>(&e), dec::<FU>(&e)) {
        ((Ok(x), n), (Ok(y), m)) => {
            check!(n == want.len() && m == want.len(), "a big unsigned integer consumes its bytes");
            let x: BigUint = x.into();
            check!(x == v, "BigUint decodes to the same number");
            check!(y.0 == v, "format::big_uint decodes to the same number");
            reach!("big unsigned integer round trip");
        }
        _ => check!(false, "a written big unsigned integer is readable"),
    }
}
fn int(v: BigInt, want: Vec<u8>) {
    let w = dlhn::BigInt::from(v.clone());
    let (a, b) = (enc(&w), enc(&FI(v.clone())));
    check!(a.is_ok() && b.is_ok(), "writing a big integer succeeds");
    let (a, b) = (a.unwrap_or_default(), b.unwrap_or_default());
    sym::obs_bytes(&a);
    check!(a == want, "BigInt is its minimal two's complement");
    check!(b == want, "format::big_int writes the same bytes");
    let mut e = want.clone();
    e.push(7);
    match (dec::<dlhn::BigInt>(&e), dec::<FI>(&e)) {
        ((Ok(x), n), (Ok(y), m)) => {
            check!(n == want.len() && m == want.len(), "a big integer consumes its bytes");
            let x: BigInt = x.into();
            check!(x == v, "BigInt decodes to the same number");
            check!(y.0 == v, "format::big_int decodes to the same number");
            reach!("big integer round trip");
        }
        _ => check!(false, "a written big integer is readable"),
    }
}
/// Digits and scale, zero having no scale.
fn parts(v: BigDecimal) -> (BigInt, i64) {
    let (d, s) = v.into_bigint_and_exponent();
    if d.is_zero() {
        (d, 0)
    } else {
        (d, s)
    }
}
/// `norm`: the digits without trailing zeros and the scale that goes with them.
fn decimal(v: BigDecimal, norm: Option<(i64, i64)>) {
    let mut want = Vec::new();
    match norm {
        None => put_bytes(&[], &mut want),
        Some((d, s)) => {
            let mag = strip(d.unsigned_abs().to_le_bytes().to_vec());
            put_bytes(&twos(d < 0, &mag), &mut want);
            put_i64(s, &mut want);
        }
    }
    decimal_is(v, want, norm.map_or((BigInt::zero(), 0), |(d, s)| (BigInt::from(d), s)))
}
fn decimal_is(v: BigDecimal, want: Vec<u8>, norm: (BigInt, i64)) {
    let w = dlhn::BigDecimal::from(v.clone());
    let (a, b) = (enc(&w), enc(&FD(v)));
    check!(a.is_ok() && b.is_ok(), "writing a decimal succeeds");
    let (a, b) = (a.unwrap_or_default(), b.unwrap_or_default());
    sym::obs_bytes(&a);
    check!(a == want, "BigDecimal is its normalized digits and scale");
    check!(b == want, "format::big_decimal writes the same bytes");
    let mut e = want.clone();
    e.push(7);
    match (dec::<dlhn::BigDecimal>(&e), dec::<FD>(&e)) {
        ((Ok(x), n), (Ok(y), m)) => {
            check!(n == want.len() && m == want.len(), "a decimal consumes its bytes");
            let x: BigDecimal = x.into();
            check!(parts(x) == norm, "BigDecimal decodes to the same number");
            check!(parts(y.0) == norm, "format::big_decimal decodes to the same number");
            reach!("decimal round trip");
        }
        _ => check!(false, "a written decimal is readable"),
    }
}

entries! {
    //@ quick=0-19
    fn c05_uint(p) {
        let m = magnitude(SIZES[p as usize]);
        let v = BigUint::from_bytes_le(&m);
        uint(v, framed(&strip(m)))
    }
    //@ quick=0-19
    fn c05_int(p) {
        let m = magnitude(SIZES[p as usize]);
        let neg = sym::flip();
        let v = BigInt::from_bytes_le(if neg { Sign::Minus } else { Sign::Plus }, &m);
        let m = strip(m);
        int(v, framed(&twos(neg, &m)))
    }
    /// Any digits on the wire, minimal or not, both ways of decoding.
    //@ quick=0-5 thorough=0-9
    fn c05_wire_int(p) {
        let c = sym::vec_of(p as usize);
        let e = framed(&c);
        match (dec::<dlhn::BigUint>(&e), dec::<FU>(&e)) {
            ((Ok(x), n), (Ok(y), m)) => {
                check!(n == e.len() && m == e.len(), "wire digits are consumed");
                let want = BigUint::from_bytes_le(&c);
                let x: BigUint = x.into();
                check!(x == want, "BigUint is the number the wire digits spell");
                check!(y.0 == want, "format::big_uint is the number the wire digits spell");
                reach!("wire unsigned");
            }
            _ => check!(false, "any digits are an unsigned number"),
        }
        match (dec::<dlhn::BigInt>(&e), dec::<FI>(&e)) {
            ((Ok(x), n), (Ok(y), m)) => {
                check!(n == e.len() && m == e.len(), "signed wire digits are consumed");
                let neg = c.last().map_or(false, |b| b & 0x80 != 0);
                let want = if neg {
                    // value + 2^(8n), subtracted
                    let low = BigInt::from_bytes_le(Sign::Plus, &c);
                    let mut top = vec![0u8; c.len()];
                    top.push(1);
                    low - BigInt::from_bytes_le(Sign::Plus, &top)
                } else {
                    BigInt::from_bytes_le(Sign::Plus, &c)
                };
                let x: BigInt = x.into();
                check!(x == want, "BigInt is the number the wire digits spell");
                check!(y.0 == want, "format::big_int is the number the wire digits spell");
                reach!("wire signed");
            }
            _ => check!(false, "any digits are a signed number"),
        }
    }
    //@ quick=0-4 thorough=0-7
    fn c05_wire_decimal(p) {
        let c = sym::vec_of(p as usize);
        let scale = sym::i64();
        let mut e = framed(&c);
        if p > 0 {
            put_i64(scale, &mut e);
        }
        let n0 = e.len();
        e.push(9);
        match (dec::<dlhn::BigDecimal>(&e), dec::<FD>(&e)) {
            ((Ok(x), n), (Ok(y), m)) => {
                check!(n == n0, "BigDecimal consumes digits and scale");
                check!(m == n0, "format::big_decimal consumes digits and scale");
                let d = BigInt::from_signed_bytes_le(&c);
                let s = if d.is_zero() { 0 } else { scale };
                let x: BigDecimal = x.into();
                check!(parts(x) == (d.clone(), s), "BigDecimal is the number on the wire");
                check!(parts(y.0) == (d, s), "format::big_decimal is the number on the wire");
                reach!("wire decimal");
            }
            _ => check!(false, "any digits and scale are a decimal"),
        }
    }
    /// Every scale, digits of one or two bytes (three in the thorough run).
    //@ quick=1-2 thorough=1-4
    fn c05_decimal(p) {
        let d = match p {
            1 => sym::i8() as i64,
            2 | 3 => sym::i16() as i64,
            _ => (sym::i32() >> 8) as i64,
        };
        let scale = if p % 2 == 1 { sym::i64() } else { [0, -1, 300, i64::MIN + 1][sym::pick(4) as usize] };
        let v = BigDecimal::new(BigInt::from(d), scale);
        let (mut d, mut s) = (d, scale);
        if d == 0 {
            return decimal(v, None);
        }
        while d % 10 == 0 && s > i64::MIN {
            d /= 10;
            s -= 1;
        }
        decimal(v, Some((d, s)))
    }
    /// Equal decimals have equal encodings: d * 10^k at scale s + k is d at scale s.
    //@ quick=1-6,9,12,19,20,24
    fn c05_zeros(p) {
        let d = if p <= 2 { sym::i8() as i64 } else { [1, -1, 7, -99, 127, -8][sym::pick(6) as usize] };
        sym::assume(d % 10 != 0);
        let s = sym::i64();
        sym::assume(s < i64::MAX - 100);
        let mut big = BigInt::from(d);
        for _ in 0..p {
            big = big * BigInt::from(10u8);
        }
        decimal(BigDecimal::new(big, s + p as i64), Some((d, s)))
    }
    /// Digits around and beyond the machine words, with trailing zeros or without, at every scale.
    //@ quick=0-17,100-117
    fn c05_wide_decimal(p) {
        let one = BigInt::from(1u8);
        let pow = |b: u32, n: u32| num_traits::pow(BigInt::from(b), n as usize);
        let d = match p % 100 {
            0 => pow(2, 31),
            1 => pow(2, 32) - &one,
            2 => pow(2, 63),
            3 => pow(2, 63) - &one,
            4 => pow(2, 64),
            5 => pow(2, 64) - &one,
            6 => pow(2, 127),
            7 => pow(2, 128) - &one,
            8 => pow(2, 128),
            9 => pow(10, 18),
            10 => pow(10, 19) + &one,
            11 => pow(10, 40),
            12 => pow(3, 200),
            13 => pow(3, 200) * pow(10, 30),
            14 => pow(3, 700) * pow(10, 3),
            15 => pow(7, 30) * pow(10, 19),
            16 => pow(10, 64) + pow(10, 20),
            _ => pow(2, 1030),
        };
        let d = if p < 100 { d } else { d.neg() };
        let s = sym::i64();
        let text = d.to_string();
        let zeros = text.bytes().rev().take_while(|c| *c == b'0').count();
        sym::assume(s >= i64::MIN + zeros as i64);
        let norm = &d / pow(10, zeros as u32);
        let (sign, mag) = norm.to_bytes_le();
        let mut want = Vec::new();
        put_bytes(&twos(sign == Sign::Minus, &mag), &mut want);
        put_i64(s - zeros as i64, &mut want);
        decimal_is(BigDecimal::new(d, s), want, (norm, s - zeros as i64))
    }
}
