//! C12: validation accepts a body exactly when its shape matches the header.
//! bound: every pair of the 24 kinds at the top; headers nested at most twice with at most 2 children
//!   against every body obtained by replacing any set of sub-bodies by one of another kind, changing
//!   any tuple's arity by one and giving any 32-bit enum index; enums of 300 and 65536+ variants.
//!   The large shapes of hb.rs under their own and under changed headers; a single mismatch at 24 places among
//!   5000 and 70001 members.
use crate::hb::*;
use crate::model::*;
use crate::sym;
use dlhn::{Body, Header};
use serde_bytes::ByteBuf;
use std::collections::BTreeMap;

fn value(code: u8) -> Body {
    match code {
        0 => Body::Unit,
        1 => Body::Optional(if sym::flip() { Some(Box::new(Body::UInt8(sym::u8()))) } else { None }),
        20 => Body::Array((0..sym::pick(2)).map(|_| Body::UInt8(sym::u8())).collect()),
        21 => Body::Tuple((0..sym::pick(3)).map(|_| Body::UInt8(sym::u8())).collect()),
        23 => {
            let mut m = BTreeMap::new();
            if sym::flip() {
                m.insert(String::new(), Body::UInt8(sym::u8()));
            }
            Body::Map(m)
        }
        24 => Body::Enum(sym::u32(), Box::new(Body::UInt8(sym::u8()))),
        18 => Body::String(sym::ascii(1)),
        19 => Body::Binary(ByteBuf::from(sym::vec(1))),
        c => match gen_body(&leaf(c)) {
            Some(b) => b,
            None => Body::Unit,
        },
    }
}
const KINDS: [u8; 24] = [0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 13, 14, 15, 16, 17, 18, 19, 20, 21, 23, 24, 25, 26];
const OTHER: [u8; 4] = [4, 20, 21, 1];

/// A body that matches the header except wherever it does not.
fn near(h: &Header, w: u64) -> Body {
    if sym::flip() {
        let c = OTHER[sym::pick(2) as usize];
        return if c == code(h) { Body::UInt32(sym::u32()) } else { other(c) };
    }
    match h {
        Header::Optional(x) => Body::Optional(if sym::flip() { Some(Box::new(near(x, w))) } else { None }),
        Header::Array(x) => Body::Array((0..sym::pick(w + 1)).map(|_| near(x, w)).collect()),
        Header::Map(x) => Body::Map((0..sym::pick(w + 1)).map(|i| (i.to_string(), near(x, w))).collect()),
        Header::Tuple(x) => {
            // one element too few, the right number, one too many
            let n = (x.len() as u64 + sym::pick(3)).saturating_sub(1) as usize;
            Body::Tuple((0..n).map(|i| if i < x.len() { near(&x[i], w) } else { Body::Boolean(true) }).collect())
        }
        Header::Enum(x) => {
            let k = sym::pick(x.len() as u64 + 1) as usize;
            let v = if k < x.len() { near(&x[k], w) } else { Body::Unit };
            Body::Enum(sym::u32(), Box::new(v))
        }
        l => match gen_body(l) {
            Some(b) => b,
            None => Body::Unit,
        },
    }
}
fn other(c: u8) -> Body {
    match c {
        1 => Body::Optional(None),
        20 => Body::Array(Vec::new()),
        21 => Body::Tuple(Vec::new()),
        _ => Body::UInt16(sym::u16()),
    }
}
fn decide(h: &Header, b: &Body) {
    let want = conforms(h, b);
    check!(b.validate(h) == want, "validation decides the shape");
    if sym::fork(want) {
        reach!("matches");
    } else {
        reach!("does not match");
    }
}

entries! {
    /// One mismatch at any of many places of an array, a tuple or a map of thousands.
    //@ quick=0-5
    fn c12_far(p) {
        let n = if p < 3 { 5000 } else { 70001 };
        const AT: [usize; 22] = [0, 1, 15, 16, 31, 32, 63, 64, 99, 100, 127, 128, 255, 256, 999, 1000, 1023, 1024, 4095, 4096, 2500, 4998];
        let i = sym::pick(24) as usize;
        let k = if i == 23 { n } else if i == 22 { n - 1 } else { AT[i] };
        let x = sym::u8();
        let el = |i: usize| if i == k { Body::Int8(x as i8) } else { Body::UInt8(x) };
        let (h, b) = match p % 3 {
            0 => (Header::Array(Box::new(Header::UInt8)), Body::Array((0..n).map(el).collect())),
            1 => (Header::Tuple(vec![Header::UInt8; n]), Body::Tuple((0..n).map(el).collect())),
            _ => (Header::Map(Box::new(Header::UInt8)), Body::Map((0..5000).map(|i| (format!("{:04}", i), el(i))).collect())),
        };
        check!(b.validate(&h) == (k >= n || (p == 5 && k >= 5000)), "one mismatch among thousands is noticed");
        reach!("far mismatch");
    }
    /// Every header kind against every body kind.
    //@ quick=0-23
    fn c12_kinds(p) {
        let c = KINDS[p as usize];
        let h = match c {
            1 | 20 | 23 => node(c, vec![Header::UInt8]),
            21 | 24 => {
                let n = sym::pick(3);
                node(c, (0..n).map(|_| Header::UInt8).collect())
            }
            c => leaf(c),
        };
        set_max(1);
        let b = value(KINDS[sym::pick(24) as usize]);
        decide(&h, &b)
    }
    //@ quick=1,20,21,23,24
    fn c12_near1(p) {
        set_max(1);
        let h = gen_node(p as u8, &[2, 4, 18], 1, 2);
        let b = near(&h, 3);
        decide(&h, &b)
    }
    //@ quick=1,20,21,23,24 thorough=1,20,21,23,24,101,120,121,123,124
    fn c12_near2(p) {
        set_max(1);
        let h = gen_node((p % 100) as u8, if p < 100 { &[2] } else { &[2, 18] }, 2, 2);
        let b = near(&h, if p < 100 { 1 } else { 2 });
        decide(&h, &b)
    }
    /// Indices around the number of variants, including ones that are equal modulo 2^8 and 2^16.
    //@ quick=1,256,300,65537
    fn c12_index(p) {
        let h = Header::Enum((0..p).map(|_| Header::Boolean).collect());
        let i = if p <= 300 {
            sym::u32()
        } else {
            // near every index that is equal to a valid one modulo a power of two
            let near = [0, p as u32 - 2, 0x10000, 0x20000, 0x80000000, p as u32 + 0xfffe, u32::MAX - 3];
            near[sym::pick(7) as usize] + sym::pick(4) as u32
        };
        let b = Body::Enum(i, Box::new(if sym::flip() { Body::Boolean(sym::boolean()) } else { Body::Unit }));
        let ok = (i as u64) < p && matches!(b, Body::Enum(_, ref v) if matches!(**v, Body::Boolean(_)));
        check!(b.validate(&h) == ok, "an index is valid exactly below the number of variants");
    }
    /// The mismatch may sit at any position of a long tuple, array or map.
    //@ quick=0-3
    fn c12_long(p) {
        let k = sym::pick(40) as usize;
        let el = |i: usize| if i == k { Body::UInt16(1) } else { Body::UInt8(sym::u8()) };
        let (h, b) = match p {
            0 => (Header::Array(Box::new(Header::UInt8)), Body::Array((0..39).map(el).collect())),
            1 => (Header::Tuple((0..39).map(|_| Header::UInt8).collect()), Body::Tuple((0..39).map(el).collect())),
            2 => (Header::Map(Box::new(Header::UInt8)), Body::Map((0..39).map(|i| (i.to_string(), el(i))).collect())),
            _ => (Header::Tuple((0..39).map(|i| if i == k { Header::UInt16 } else { Header::UInt8 }).collect()),
                  Body::Tuple((0..39).map(|_| Body::UInt8(sym::u8())).collect())),
        };
        decide(&h, &b)
    }
    /// Large bodies under their header, and with one thing changed.
    //@ quick=0,8,14,18,22,24,29-43,46-52
    fn c12_big(p) {
        let (h, b) = big(p);
        check!(b.validate(&h), "a large body conforms to its header");
        let other = match sym::pick(3) {
            0 => Header::Array(Box::new(h.clone())),
            1 => Header::Optional(Box::new(h.clone())),
            _ => Header::Tuple(vec![h.clone()]),
        };
        decide(&other, &b);
        let around = Body::Tuple(vec![b.clone(), Body::Unit]);
        decide(&Header::Tuple(vec![h.clone(), Header::Unit]), &around);
        decide(&Header::Tuple(vec![h.clone(), Header::Boolean]), &around);
        decide(&Header::Tuple(vec![h]), &around);
    }
}
