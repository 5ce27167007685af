//! C08: header-directed decoding of arbitrary bytes.
//! bound: every leaf header with every body of at most 10 bytes (thorough: 14); every header of 2 bytes
//!   with bodies of at most 5 bytes, of 3 bytes with bodies of at most 4, of 4 bytes (inner leaves bool,
//!   u16, string, unit) with bodies of at most 3; any 3 header bytes followed by any 3 body bytes.
//!   47 large shapes (hb.rs BIG: texts up to 70001 bytes, integers of 70001 bytes, up to 4100 elements, 300
//!   entries, 16500 variants, nesting of 1100) with two arbitrary bytes each and one byte replaced
//!   by any other (in front, in the middle or at the end).
//!   Any body under 6 nested headers after 3000 refusals of any 3 bytes.
//! opts: --alloc-limit 1000000
//! assume: arrays of elements that occupy no bytes have at most 12 elements (c08_kf_zero covers the
//!   known failure above that).
use crate::hb::*;
use crate::model::*;
use crate::refm::*;
use crate::sym;
use crate::util::*;
use dlhn::{Body, Header};

fn any(h: &Header, b: &[u8]) {
    let mut r = Rd::new(b);
    let want = parse_body(h, &mut r);
    match (dec_body(h, b), want) {
        ((Ok(v), n), Some(w)) => {
            check!(is(h, &v, &w), "the body is the one the bytes spell");
            check!(n == r.pos, "exactly the bytes that spell it are consumed");
            check!(v.validate(h), "a decoded body conforms to its header");
            reach!("decoded");
        }
        ((Err(_), _), None) => reach!("refused"),
        ((Ok(_), _), None) => check!(false, "bytes that spell no body are refused"),
        ((Err(_), _), Some(_)) => check!(false, "bytes that spell a body are accepted"),
    }
}
/// Refusals leave nothing behind.
fn after(h: &Header) {
    let bad = sym::vec(3);
    sym::assume(parse_body(h, &mut Rd::new(&bad)).is_none());
    for _ in 0..3000 {
        check!(dec_body(h, &bad).0.is_err(), "bytes that spell no body are refused again and again");
    }
    set_max(1);
    if let Some(b) = gen_body(h) {
        let mut e = Vec::new();
        put_body(&b, &mut e);
        any(h, &e)
    }
}
const LIGHT: [u8; 4] = [0, 2, 4, 18];

entries! {
    //@ quick=0,2-6,8-11,13-14,25,26,115-119,215-219
    fn c08_leaf(p) {
        // dates and timestamps take two integers
        let n = match p { 26 => 14, 25 => 8, 0..=99 => 10, 100..=199 => 4, _ => 6 };
        let b = sym::vec(n);
        any(&leaf((p % 100) as u8), &b)
    }
    //@ quick=1,20,21,23,24
    fn c08_two(p) {
        let h = gen_sized_node(p as u8, &LEAVES, 2);
        let b = sym::vec(5);
        any(&h, &b)
    }
    //@ quick=1,20,21,23,24
    fn c08_three(p) {
        let h = gen_sized_node(p as u8, &LEAVES, 3);
        let b = sym::vec(4);
        any(&h, &b)
    }
    //@ quick=1,20,21,23,24 thorough=1,20,21,23,24,101,120,121,123,124
    fn c08_four(p) {
        let h = gen_sized_node((p % 100) as u8, &LIGHT, 4);
        let b = sym::vec(if p < 100 { 3 } else { 5 });
        any(&h, &b)
    }
    /// After 3000 refusals of any bytes.
    //@ quick=0-5
    fn c08_after(p) {
        let b = |h: Header| Box::new(h);
        after(&match p {
            0 => Header::Optional(b(Header::Optional(b(Header::Boolean)))),
            1 => Header::Array(b(Header::Array(b(Header::String)))),
            2 => Header::Map(b(Header::Tuple(vec![Header::UInt16, Header::Boolean]))),
            3 => Header::Enum(vec![Header::Enum(vec![Header::Boolean]), Header::Date]),
            4 => Header::Tuple(vec![Header::Tuple(vec![Header::Binary]), Header::Array(b(Header::Boolean))]),
            _ => Header::BigDecimal,
        })
    }
    /// Tuples and enums of three children (5 header bytes).
    //@ quick=21,24
    fn c08_five(p) {
        let h = gen_node(p as u8, &[2, 4, 18], 1, 3);
        let b = sym::vec(4);
        any(&h, &b)
    }
    /// Header and body both arbitrary bytes of one message.
    //@ quick=4 thorough=4-6
    fn c08_raw(p) {
        let b = sym::vec_of(p as usize);
        match dec_header(&b) {
            (Ok(h), n) => any(&h, &b[n..]),
            _ => reach!("no header"),
        }
    }
    /// A tuple header announcing many empty arrays.
    //@ quick=200
    fn c08_many(p) {
        let h = Header::Enum((0..p).map(|i| if i % 2 == 0 { Header::Unit } else { Header::UInt8 }).collect());
        let b = sym::vec(6);
        any(&h, &b)
    }
    /// Known finding: elements that occupy no bytes are materialized without limit.
    //@ quick=0-1
    fn c08_kf_zero(p) {
        let el = if p == 0 { Header::Unit } else { Header::Tuple(Vec::new()) };
        let h = Header::Array(Box::new(el));
        let mut e = Vec::new();
        put_u64(1 << 40, &mut e);
        let r = dec_body(&h, &e);
        check!(r.0.is_err() || r.1 == e.len(), "kf: a huge array of nothing is decoded or refused");
    }
    /// Known finding: nesting deeper than the stack.
    //@ quick=0-1
    fn c08_kf_deep(p) {
        let n = 400_000;
        let mut b = vec![if p == 0 { 1u8 } else { 20 }; n];
        b.push(0);
        let r = dec_header(&b);
        check!(r.0.is_err() || r.1 == n + 1, "kf: a deeply nested header is parsed or refused");
    }
    /// The bytes of a large body with one of them replaced by an arbitrary one.
    //@ quick=0-43,49-51
    fn c08_big(p) {
        let (h, b) = big(p);
        let mut e = Vec::new();
        put_body(&b, &mut e);
        let n = e.len();
        // an arbitrary count or length in front would be followed through all its values
        let at = match (p, sym::pick(3)) {
            (_, 0) => n - 1,
            (29..=32 | 39..=43 | 46..=48 | 51.., _) => n,
            (_, 1) => n / 2,
            (0..=3 | 8..=10 | 14..=17 | 22..=23 | 33..=37, _) => 0,
            _ => n,
        };
        if at < n {
            e[at] = sym::u8();
        }
        any(&h, &e)
    }
}
