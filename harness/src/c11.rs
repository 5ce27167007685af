//! C11: dynamic bodies round-trip under every header they conform to.
//! bound: every leaf kind with its full value range (strings and byte strings of at most 6 bytes; big
//!   numbers, dates and timestamps as in C04); headers nested at most twice with at most 2 children
//!   (inner leaves bool, u16, string), arrays and maps of at most 2 entries; one nesting level over every
//!   leaf kind; enums and tuples of 130 members.
//!   53 large shapes (hb.rs BIG: texts up to 1 MiB + 3 bytes, integers of 70001 bytes, up to 70001 elements, 5000
//!   entries, 16500 variants, nesting of 1100) with two arbitrary bytes each.
use crate::hb::*;
use crate::model::*;
use crate::sym;
use crate::util::*;
use dlhn::{Body, Header};

fn round(h: &Header) {
    let b = match gen_body(h) {
        Some(b) => b,
        None => return,
    };
    round2(h, b)
}
fn round2(h: &Header, b: Body) {
    check!(b.validate(h), "a conforming body validates");
    let mut want = Vec::new();
    put_body(&b, &mut want);
    match enc(&b) {
        Err(_) => check!(false, "a conforming body is written"),
        Ok(e) => {
            sym::obs_bytes(&e);
            check!(e == want, "a body has the documented bytes");
            let mut t = e.clone();
            t.push(1);
            t.push(0);
            match dec_body(h, &t) {
                (Ok(c), n) => {
                    check!(same_body(&b, &c), "the body is decoded back");
                    check!(n == e.len(), "exactly the body's bytes are consumed");
                    reach!("body round trip");
                }
                _ => check!(false, "a written body is readable"),
            }
        }
    }
}

entries! {
    //@ quick=0,2-6,8-11,13-19,25,26
    fn c11_leaf(p) {
        set_max(6);
        round(&leaf(p as u8))
    }
    /// One level over every leaf.
    //@ quick=1,20,21,23,24
    fn c11_over(p) {
        set_max(1);
        let l = leaf(LEAVES[sym::pick(LEAVES.len() as u64) as usize]);
        let kids = match p {
            21 => vec![l, Header::UInt8],
            24 => vec![Header::Unit, l],
            _ => vec![l],
        };
        round(&node(p as u8, kids))
    }
    //@ quick=1,20,23 thorough=1,20,21,23,24,101,120,121,123,124
    fn c11_nest(p) {
        set_max(if p < 100 { 1 } else { 2 });
        let h = gen_node((p % 100) as u8, &[2, 4, 18], 2, if p < 100 { 1 } else { 2 });
        round(&h)
    }
    /// Two levels, two children each, smaller contents.
    //@ quick=20,21,23,24
    fn c11_wide(p) {
        set_max(1);
        let h = gen_node(p as u8, &[0, 3], 2, 2);
        round(&h)
    }
    //@ quick=0,1
    fn c11_many(p) {
        let h: Vec<Header> = (0..130).map(|i| if i % 2 == 0 { Header::UInt8 } else { Header::Int8 }).collect();
        if p == 0 {
            round(&Header::Tuple(h))
        } else {
            round(&Header::Enum(h))
        }
    }
    /// Long arrays and maps.
    //@ quick=127,128,300
    fn c11_long(p) {
        let h = Header::Array(Box::new(Header::UInt8));
        round2(&h, Body::Array((0..p).map(|_| Body::UInt8(sym::u8())).collect()));
        let h = Header::Map(Box::new(Header::Int8));
        round2(&h, Body::Map((0..p).map(|i| (i.to_string(), Body::Int8(sym::i8()))).collect()));
    }
    /// Long contents, many members, deep nesting.
    //@ quick=0-52
    fn c11_big(p) {
        let (h, b) = big(p);
        round2(&h, b)
    }
}
