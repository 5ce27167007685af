//! Reference model of headers and dynamic bodies, written from the format
//! description: generators, encoders, parsers and the conformance relation.
use crate::model::*;
use crate::refm::*;
use crate::sym;
use crate::util::*;
use dlhn::{Body, Header};
use serde::Serialize;
use serde_bytes::ByteBuf;
use std::collections::BTreeMap;

pub const LEAVES: [u8; 19] = [0, 2, 3, 4, 5, 6, 8, 9, 10, 11, 13, 14, 15, 16, 17, 18, 19, 25, 26];
pub const SMALL: [u8; 3] = [2, 4, 18];
pub const NODES: [u8; 5] = [1, 20, 21, 23, 24];

pub fn leaf(code: u8) -> Header {
    match code {
        0 => Header::Unit,
        2 => Header::Boolean,
        3 => Header::UInt8,
        4 => Header::UInt16,
        5 => Header::UInt32,
        6 => Header::UInt64,
        8 => Header::Int8,
        9 => Header::Int16,
        10 => Header::Int32,
        11 => Header::Int64,
        13 => Header::Float32,
        14 => Header::Float64,
        15 => Header::BigUInt,
        16 => Header::BigInt,
        17 => Header::BigDecimal,
        18 => Header::String,
        19 => Header::Binary,
        25 => Header::Date,
        _ => Header::DateTime,
    }
}
pub fn node(code: u8, mut kids: Vec<Header>) -> Header {
    match code {
        1 => Header::Optional(Box::new(kids.remove(0))),
        20 => Header::Array(Box::new(kids.remove(0))),
        23 => Header::Map(Box::new(kids.remove(0))),
        21 => Header::Tuple(kids),
        _ => Header::Enum(kids),
    }
}
pub fn code(h: &Header) -> u8 {
    match h {
        Header::Unit => 0,
        Header::Optional(_) => 1,
        Header::Boolean => 2,
        Header::UInt8 => 3,
        Header::UInt16 => 4,
        Header::UInt32 => 5,
        Header::UInt64 => 6,
        Header::Int8 => 8,
        Header::Int16 => 9,
        Header::Int32 => 10,
        Header::Int64 => 11,
        Header::Float32 => 13,
        Header::Float64 => 14,
        Header::BigUInt => 15,
        Header::BigInt => 16,
        Header::BigDecimal => 17,
        Header::String => 18,
        Header::Binary => 19,
        Header::Array(_) => 20,
        Header::Tuple(_) => 21,
        Header::Map(_) => 23,
        Header::Enum(_) => 24,
        Header::Date => 25,
        Header::DateTime => 26,
    }
}
pub fn kids(h: &Header) -> Vec<&Header> {
    match h {
        Header::Optional(x) | Header::Array(x) | Header::Map(x) => vec![&**x],
        Header::Tuple(v) | Header::Enum(v) => v.iter().collect(),
        _ => Vec::new(),
    }
}
pub fn put_header(h: &Header, out: &mut Vec<u8>) {
    out.push(code(h));
    let k = kids(h);
    if let Header::Tuple(_) | Header::Enum(_) = h {
        put_u16(k.len() as u16, out);
    }
    for x in k {
        put_header(x, out)
    }
}
pub fn same_header(a: &Header, b: &Header) -> bool {
    let (x, y) = (kids(a), kids(b));
    code(a) == code(b) && x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same_header(p, q))
}
/// What the bytes spell, if they spell a header.
pub fn parse_header(r: &mut Rd) -> Option<Header> {
    let c = r.byte()?;
    // settle the code on this path
    let mut is = 255;
    for l in LEAVES.iter().chain(NODES.iter()) {
        if sym::fork(c == *l) {
            is = *l;
            break;
        }
    }
    Some(match is {
        255 => return None,
        1 | 20 | 23 => {
            let k = parse_header(r)?;
            node(is, vec![k])
        }
        21 | 24 => {
            let n = r.u16()?;
            let mut v = Vec::new();
            let mut i = 0;
            while i < n {
                v.push(parse_header(r)?);
                i += 1;
            }
            node(is, v)
        }
        l => leaf(l),
    })
}
/// Any header with at most `depth` levels of nesting: leaves from `leaves`,
/// nodes with at most `width` children.
pub fn gen_header(leaves: &[u8], depth: u32, width: u64) -> Header {
    let n = leaves.len() as u64 + if depth > 0 { NODES.len() as u64 } else { 0 };
    let k = sym::pick(n) as usize;
    if k < leaves.len() {
        leaf(leaves[k])
    } else {
        gen_node(NODES[k - leaves.len()], leaves, depth, width)
    }
}
pub fn gen_node(code: u8, leaves: &[u8], depth: u32, width: u64) -> Header {
    let n = match code {
        1 | 20 | 23 => 1,
        _ => sym::pick(width + 1),
    };
    node(code, (0..n).map(|_| gen_header(leaves, depth - 1, width)).collect())
}

/// Does an encoding of this header's values take no bytes at all?
pub fn zero_width(h: &Header) -> bool {
    match h {
        Header::Unit => true,
        Header::Tuple(v) => v.iter().all(zero_width),
        _ => false,
    }
}

/// Any body of that shape; `None` when there is none (an empty enum).
pub fn gen_body(h: &Header) -> Option<Body> {
    Some(match h {
        Header::Unit => Body::Unit,
        Header::Optional(x) => Body::Optional(if sym::flip() { Some(Box::new(gen_body(x)?)) } else { None }),
        Header::Boolean => Body::Boolean(M::gen()),
        Header::UInt8 => Body::UInt8(M::gen()),
        Header::UInt16 => Body::UInt16(M::gen()),
        Header::UInt32 => Body::UInt32(M::gen()),
        Header::UInt64 => Body::UInt64(M::gen()),
        Header::Int8 => Body::Int8(M::gen()),
        Header::Int16 => Body::Int16(M::gen()),
        Header::Int32 => Body::Int32(M::gen()),
        Header::Int64 => Body::Int64(M::gen()),
        Header::Float32 => Body::Float32(M::gen()),
        Header::Float64 => Body::Float64(M::gen()),
        Header::BigUInt => Body::BigUInt(M::gen()),
        Header::BigInt => Body::BigInt(M::gen()),
        Header::BigDecimal => Body::BigDecimal(M::gen()),
        Header::String => Body::String(M::gen()),
        Header::Binary => Body::Binary(M::gen()),
        Header::Array(x) => {
            let mut v = Vec::new();
            for _ in 0..sym::pick(max() as u64 + 1) {
                v.push(gen_body(x)?)
            }
            Body::Array(v)
        }
        Header::Tuple(x) => {
            let mut v = Vec::new();
            for k in x {
                v.push(gen_body(k)?)
            }
            Body::Tuple(v)
        }
        Header::Map(x) => {
            let mut m = BTreeMap::new();
            for _ in 0..sym::pick(max().min(2) as u64 + 1) {
                m.insert(sym::ascii(1), gen_body(x)?);
            }
            Body::Map(m)
        }
        Header::Enum(x) => {
            if x.is_empty() {
                return None;
            }
            let i = sym::pick16(x.len() as u64);
            Body::Enum(i as u32, Box::new(gen_body(&x[i as usize])?))
        }
        Header::Date => Body::Date(M::gen()),
        Header::DateTime => Body::DateTime(M::gen()),
    })
}
/// Documented encoding.
pub fn put_body(b: &Body, out: &mut Vec<u8>) {
    match b {
        Body::Unit => (),
        Body::Optional(None) => out.push(0),
        Body::Optional(Some(v)) => {
            out.push(1);
            put_body(v, out)
        }
        Body::Boolean(v) => v.put(out),
        Body::UInt8(v) => v.put(out),
        Body::UInt16(v) => v.put(out),
        Body::UInt32(v) => v.put(out),
        Body::UInt64(v) => v.put(out),
        Body::Int8(v) => v.put(out),
        Body::Int16(v) => v.put(out),
        Body::Int32(v) => v.put(out),
        Body::Int64(v) => v.put(out),
        Body::Float32(v) => v.put(out),
        Body::Float64(v) => v.put(out),
        Body::BigUInt(v) => v.put(out),
        Body::BigInt(v) => v.put(out),
        Body::BigDecimal(v) => v.put(out),
        Body::String(v) => v.put(out),
        Body::Binary(v) => v.put(out),
        Body::Array(v) => {
            put_u64(v.len() as u64, out);
            for x in v {
                put_body(x, out)
            }
        }
        Body::Tuple(v) => {
            for x in v {
                put_body(x, out)
            }
        }
        Body::Map(m) => {
            put_u64(m.len() as u64, out);
            for (k, v) in m {
                put_bytes(k.as_bytes(), out);
                put_body(v, out)
            }
        }
        Body::Enum(i, v) => {
            put_u32(*i, out);
            put_body(v, out)
        }
        Body::Date(v) => v.put(out),
        Body::DateTime(v) => v.put(out),
    }
}
/// Equality, floats by bit pattern.
pub fn same_body(a: &Body, b: &Body) -> bool {
    match (a, b) {
        (Body::Unit, Body::Unit) => true,
        (Body::Optional(None), Body::Optional(None)) => true,
        (Body::Optional(Some(x)), Body::Optional(Some(y))) => same_body(x, y),
        (Body::Boolean(x), Body::Boolean(y)) => x == y,
        (Body::UInt8(x), Body::UInt8(y)) => x == y,
        (Body::UInt16(x), Body::UInt16(y)) => x == y,
        (Body::UInt32(x), Body::UInt32(y)) => x == y,
        (Body::UInt64(x), Body::UInt64(y)) => x == y,
        (Body::Int8(x), Body::Int8(y)) => x == y,
        (Body::Int16(x), Body::Int16(y)) => x == y,
        (Body::Int32(x), Body::Int32(y)) => x == y,
        (Body::Int64(x), Body::Int64(y)) => x == y,
        (Body::Float32(x), Body::Float32(y)) => x.to_bits() == y.to_bits(),
        (Body::Float64(x), Body::Float64(y)) => x.to_bits() == y.to_bits(),
        (Body::BigUInt(x), Body::BigUInt(y)) => x == y,
        (Body::BigInt(x), Body::BigInt(y)) => x == y,
        (Body::BigDecimal(x), Body::BigDecimal(y)) => x == y,
        (Body::String(x), Body::String(y)) => x.as_bytes() == y.as_bytes(),
        (Body::Binary(x), Body::Binary(y)) => x[..] == y[..],
        (Body::Array(x), Body::Array(y)) | (Body::Tuple(x), Body::Tuple(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same_body(p, q))
        }
        (Body::Map(x), Body::Map(y)) => {
            x.len() == y.len()
                && x.iter()
                    .zip(y)
                    .all(|((a, p), (b, q))| a.as_bytes() == b.as_bytes() && same_body(p, q))
        }
        (Body::Enum(i, x), Body::Enum(j, y)) => i == j && same_body(x, y),
        (Body::Date(x), Body::Date(y)) => x == y,
        (Body::DateTime(x), Body::DateTime(y)) => x == y,
        _ => false,
    }
}
/// Does the body have the header's shape?
pub fn conforms(h: &Header, b: &Body) -> bool {
    match (h, b) {
        (Header::Unit, Body::Unit)
        | (Header::Boolean, Body::Boolean(_))
        | (Header::UInt8, Body::UInt8(_))
        | (Header::UInt16, Body::UInt16(_))
        | (Header::UInt32, Body::UInt32(_))
        | (Header::UInt64, Body::UInt64(_))
        | (Header::Int8, Body::Int8(_))
        | (Header::Int16, Body::Int16(_))
        | (Header::Int32, Body::Int32(_))
        | (Header::Int64, Body::Int64(_))
        | (Header::Float32, Body::Float32(_))
        | (Header::Float64, Body::Float64(_))
        | (Header::BigUInt, Body::BigUInt(_))
        | (Header::BigInt, Body::BigInt(_))
        | (Header::BigDecimal, Body::BigDecimal(_))
        | (Header::String, Body::String(_))
        | (Header::Binary, Body::Binary(_))
        | (Header::Date, Body::Date(_))
        | (Header::DateTime, Body::DateTime(_)) => true,
        (Header::Optional(_), Body::Optional(None)) => true,
        (Header::Optional(x), Body::Optional(Some(y))) => conforms(x, y),
        (Header::Array(x), Body::Array(v)) => {
            let mut i = 0;
            while i < v.len() {
                if !conforms(x, &v[i]) {
                    return false;
                }
                i += 1;
            }
            true
        }
        (Header::Tuple(x), Body::Tuple(v)) => {
            if x.len() != v.len() {
                return false;
            }
            let mut i = 0;
            while i < v.len() {
                if !conforms(&x[i], &v[i]) {
                    return false;
                }
                i += 1;
            }
            true
        }
        (Header::Map(x), Body::Map(m)) => {
            for (_, v) in m {
                if !conforms(x, v) {
                    return false;
                }
            }
            true
        }
        (Header::Enum(x), Body::Enum(i, v)) => (*i as usize) < x.len() && conforms(&x[*i as usize], v),
        _ => false,
    }
}

/// What bytes spell under a header.
pub enum Mo {
    Leaf(bool),
    Opt(Option<Box<Mo>>),
    Bits(u64),
    Big(Vec<u8>),
    Text(Vec<u8>),
    Seq(Vec<Mo>),
    Map(Vec<(Vec<u8>, Mo)>),
    Enum(u32, Box<Mo>),
    Date((i32, u16)),
    Time((i64, u32)),
}
pub fn parse_body(h: &Header, r: &mut Rd) -> Option<Mo> {
    Some(match h {
        Header::Unit => Mo::Leaf(true),
        Header::Optional(x) => Mo::Opt(if sym::fork(r.tag()?) { Some(Box::new(parse_body(x, r)?)) } else { None }),
        Header::Boolean => Mo::Leaf(r.tag()?),
        Header::UInt8 | Header::Int8 => Mo::Bits(r.byte()? as u64),
        Header::UInt16 => Mo::Bits(r.u16()? as u64),
        Header::UInt32 => Mo::Bits(r.u32()? as u64),
        Header::UInt64 => Mo::Bits(r.u64()?),
        Header::Int16 => Mo::Bits(r.i16()? as i64 as u64),
        Header::Int32 => Mo::Bits(r.i32()? as i64 as u64),
        Header::Int64 => Mo::Bits(r.i64()? as u64),
        Header::Float32 => Mo::Bits(r.fixed(4)?),
        Header::Float64 => Mo::Bits(r.fixed(8)?),
        Header::BigUInt => Mo::Big(<dlhn::BigUint as M>::parse(r)?),
        Header::BigInt => Mo::Big(<dlhn::BigInt as M>::parse(r)?),
        Header::BigDecimal => Mo::Big(<dlhn::BigDecimal as M>::parse(r)?),
        Header::String => Mo::Text(r.text()?.to_vec()),
        Header::Binary => Mo::Text(r.bytes()?.to_vec()),
        Header::Array(x) => {
            let n = r.u64()?;
            // elements that occupy no bytes: see the C08 findings
            if zero_width(x) {
                sym::assume(n <= SEQ_BOUND);
            }
            let mut v = Vec::new();
            let mut i = 0;
            while i < n {
                v.push(parse_body(x, r)?);
                i += 1;
            }
            Mo::Seq(v)
        }
        Header::Tuple(x) => {
            let mut v = Vec::new();
            for k in x {
                v.push(parse_body(k, r)?)
            }
            Mo::Seq(v)
        }
        Header::Map(x) => {
            let n = r.u64()?;
            let mut v = Vec::new();
            let mut i = 0;
            while i < n {
                let k = r.text()?.to_vec();
                v.push((k, parse_body(x, r)?));
                i += 1;
            }
            Mo::Map(v)
        }
        Header::Enum(x) => {
            let i = r.u32()?;
            if i as usize >= x.len() {
                return None;
            }
            let i = sym::concrete(i as u64) as u32;
            Mo::Enum(i, Box::new(parse_body(&x[i as usize], r)?))
        }
        Header::Date => Mo::Date(<dlhn::Date as M>::parse(r)?),
        Header::DateTime => Mo::Time(<dlhn::DateTime as M>::parse(r)?),
    })
}
/// Is the body the value the bytes spell? (of the header's kind, too)
pub fn is(h: &Header, b: &Body, m: &Mo) -> bool {
    match (h, b, m) {
        (Header::Unit, Body::Unit, _) => true,
        (Header::Boolean, Body::Boolean(v), Mo::Leaf(w)) => v == w,
        (Header::Optional(_), Body::Optional(None), Mo::Opt(None)) => true,
        (Header::Optional(x), Body::Optional(Some(v)), Mo::Opt(Some(w))) => is(x, v, w),
        (Header::UInt8, Body::UInt8(v), Mo::Bits(w)) => *v as u64 == *w,
        (Header::Int8, Body::Int8(v), Mo::Bits(w)) => *v as u8 as u64 == *w,
        (Header::UInt16, Body::UInt16(v), Mo::Bits(w)) => *v as u64 == *w,
        (Header::UInt32, Body::UInt32(v), Mo::Bits(w)) => *v as u64 == *w,
        (Header::UInt64, Body::UInt64(v), Mo::Bits(w)) => *v == *w,
        (Header::Int16, Body::Int16(v), Mo::Bits(w)) => *v as i64 as u64 == *w,
        (Header::Int32, Body::Int32(v), Mo::Bits(w)) => *v as i64 as u64 == *w,
        (Header::Int64, Body::Int64(v), Mo::Bits(w)) => *v as u64 == *w,
        (Header::Float32, Body::Float32(v), Mo::Bits(w)) => v.to_bits() as u64 == *w,
        (Header::Float64, Body::Float64(v), Mo::Bits(w)) => v.to_bits() == *w,
        (Header::BigUInt, Body::BigUInt(v), Mo::Big(w)) => big_is(v, w, false),
        (Header::BigInt, Body::BigInt(v), Mo::Big(w)) => big_is(v, w, true),
        (Header::BigDecimal, Body::BigDecimal(v), Mo::Big(w)) => v.agrees(w),
        (Header::String, Body::String(v), Mo::Text(w)) => v.as_bytes() == &w[..],
        (Header::Binary, Body::Binary(v), Mo::Text(w)) => v[..] == w[..],
        (Header::Array(x), Body::Array(v), Mo::Seq(w)) => {
            v.len() == w.len() && v.iter().zip(w).all(|(a, b)| is(x, a, b))
        }
        (Header::Tuple(x), Body::Tuple(v), Mo::Seq(w)) => {
            v.len() == w.len() && v.iter().zip(w).zip(x).all(|((a, b), x)| is(x, a, b))
        }
        (Header::Map(x), Body::Map(v), Mo::Map(w)) => {
            let mut distinct = 0;
            for i in 0..w.len() {
                // the last value written for a key counts
                if w[i + 1..].iter().any(|y| y.0 == w[i].0) {
                    continue;
                }
                distinct += 1;
                match v.iter().find(|(k, _)| k.as_bytes() == &w[i].0[..]) {
                    Some((_, b)) if is(x, b, &w[i].1) => (),
                    _ => return false,
                }
            }
            distinct == v.len()
        }
        (Header::Enum(x), Body::Enum(i, v), Mo::Enum(j, w)) => i == j && is(&x[*j as usize], v, w),
        (Header::Date, Body::Date(v), Mo::Date(w)) => v.agrees(w),
        (Header::DateTime, Body::DateTime(v), Mo::Time(w)) => v.agrees(w),
        _ => false,
    }
}
fn big_is<T: Serialize>(v: &T, w: &[u8], _signed: bool) -> bool {
    match enc(v) {
        Ok(b) => b == w,
        Err(_) => false,
    }
}
pub fn dec_body(h: &Header, b: &[u8]) -> (Result<Body, dlhn::de::Error>, usize) {
    let mut r = b;
    let v = Body::deserialize(h, &mut dlhn::Deserializer::new(&mut r));
    (v, b.len() - r.len())
}
pub fn dec_header(b: &[u8]) -> (std::io::Result<Header>, usize) {
    use dlhn::DeserializeHeader;
    let mut r = b;
    let v = r.deserialize_header();
    (v, b.len() - r.len())
}
pub fn enc_header(h: &Header) -> std::io::Result<Vec<u8>> {
    let mut o = Vec::new();
    h.serialize(&mut o)?;
    Ok(o)
}
/// Any header whose encoding has exactly `n` bytes.
pub fn gen_sized(leaves: &[u8], n: usize) -> Header {
    if n == 1 {
        return leaf(leaves[sym::pick(leaves.len() as u64) as usize]);
    }
    gen_sized_node(NODES[sym::pick(NODES.len() as u64) as usize], leaves, n)
}
pub fn gen_sized_node(code: u8, leaves: &[u8], n: usize) -> Header {
    match code {
        1 | 20 | 23 => node(code, vec![gen_sized(leaves, n - 1)]),
        _ => {
            // how the remaining bytes are divided among the children
            let mut left = n - 2;
            let mut v = Vec::new();
            while left > 0 {
                let k = 1 + sym::pick(left as u64) as usize;
                v.push(gen_sized(leaves, k));
                left -= k;
            }
            node(code, v)
        }
    }
}

/// Headers and bodies beyond the sizes the exhaustive entries reach: long contents, many members,
/// deep nesting. A few bytes of each are arbitrary, the rest is filler.
pub const BIG: [(u8, usize); 53] = [
    // string, binary
    (0, 128), (0, 4095), (0, 4096), (0, 4097), (0, 8193), (0, 16384), (0, 65536), (0, 70001),
    (1, 128), (1, 4096), (1, 4097), (1, 8193), (1, 16384), (1, 65537),
    // big unsigned, big signed, decimal digits
    (2, 127), (2, 128), (2, 300), (2, 4097), (3, 127), (3, 128), (3, 300), (3, 4097), (4, 16), (4, 128),
    // arrays of bytes, of units, of strings
    (5, 255), (5, 256), (5, 300), (5, 4100), (6, 16384), (7, 130),
    // maps
    (8, 128), (8, 256), (8, 300),
    // tuples, enums
    (9, 128), (9, 256), (9, 300), (10, 128), (10, 256), (10, 16500),
    // nesting, starting with each kind
    (20, 40), (21, 130), (22, 300), (23, 30), (24, 64),
    // further out
    (0, (1 << 20) + 3), (1, (1 << 20) + 3), (5, 70001), (8, 5000), (9, 16500), (2, 70001), (3, 70001), (20, 1100), (7, 5000),
];
fn filler(n: usize) -> Vec<u8> {
    (0..n).map(|i| 33 + (i * 7 % 89) as u8).collect()
}
fn nest(k: usize, deep: usize, x: u16) -> (Header, Body) {
    if deep == 0 {
        return (Header::UInt16, Body::UInt16(x));
    }
    let (h, b) = nest((k + 1) % 5, deep - 1, x);
    match NODES[k] {
        1 => (node(1, vec![h]), Body::Optional(Some(Box::new(b)))),
        20 => (node(20, vec![h]), Body::Array(vec![b])),
        21 => (node(21, vec![Header::Unit, h]), Body::Tuple(vec![Body::Unit, b])),
        23 => (node(23, vec![h]), Body::Map([("k".to_string(), b)].into_iter().collect())),
        _ => (node(24, vec![Header::UInt8, h]), Body::Enum(1, Box::new(b))),
    }
}
pub fn big(p: u64) -> (Header, Body) {
    let (k, n) = BIG[p as usize];
    let e: [u8; 2] = sym::arr();
    let mut v = filler(n);
    v[0] = e[0];
    v[n - 1] = e[1];
    let byte = |x: u8| (Header::UInt8, Body::UInt8(x));
    match k {
        0 => {
            v[0] &= 0x7f;
            v[n - 1] &= 0x7f;
            (Header::String, Body::String(String::from_utf8(v).unwrap_or_default()))
        }
        1 => (Header::Binary, Body::Binary(ByteBuf::from(v))),
        2 => {
            sym::assume(e[1] != 0);
            (Header::BigUInt, Body::BigUInt(num_bigint::BigUint::from_bytes_le(&v).into()))
        }
        3 | 4 => {
            sym::assume(e[1] != 0);
            let sign = if sym::flip() { num_bigint::Sign::Minus } else { num_bigint::Sign::Plus };
            if k == 3 {
                return (Header::BigInt, Body::BigInt(num_bigint::BigInt::from_bytes_le(sign, &v).into()));
            }
            // an odd number has no trailing zero to strip; its digits are fixed
            let v = vec![0x77; n];
            let d = num_bigint::BigInt::from_bytes_le(sign, &v);
            let s = sym::i16() as i64;
            sym::assume(s != 0);
            (Header::BigDecimal, Body::BigDecimal(bigdecimal::BigDecimal::new(d, s).into()))
        }
        5 => (Header::Array(Box::new(Header::UInt8)), Body::Array(v.into_iter().map(Body::UInt8).collect())),
        6 => (Header::Array(Box::new(Header::Tuple(vec![Header::Unit, Header::UInt8]))),
              Body::Array((0..n / 50).map(|i| Body::Tuple(vec![Body::Unit, Body::UInt8(v[i])])).collect())),
        7 => (Header::Array(Box::new(Header::String)),
              Body::Array((0..n).map(|i| Body::String(String::from_utf8(vec![v[i] & 0x7f; i % 3]).unwrap_or_default())).collect())),
        8 => (Header::Map(Box::new(Header::UInt8)),
              Body::Map((0..n).map(|i| (i.to_string(), Body::UInt8(v[i]))).collect())),
        9 => {
            let (h, b): (Vec<_>, Vec<_>) = v.into_iter().enumerate().map(|(i, x)| match i % 3 {
                0 => byte(x),
                1 => (Header::Int8, Body::Int8(x as i8)),
                _ => (Header::Unit, Body::Unit),
            }).unzip();
            (Header::Tuple(h), Body::Tuple(b))
        }
        10 => {
            let h = (0..n).map(|i| if i + 2 > n { Header::UInt16 } else { Header::Unit }).collect();
            (Header::Enum(h), Body::Enum(n as u32 - 1, Box::new(Body::UInt16(u16::from_le_bytes(e)))))
        }
        _ => nest(k as usize - 20, n, u16::from_le_bytes(e)),
    }
}
