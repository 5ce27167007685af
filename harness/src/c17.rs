//! C17: decoding reserves memory only in proportion to the bytes received.
//! bound: peak heap use at most 64 KiB plus 1 KiB per input byte (32 bytes per byte for long inputs), for: every
//!   byte string of at most 5 bytes as each of the 66 types of model.rs, as a header, and as a body under every leaf and
//!   one nesting level over every leaf; every 64-bit length or count above 1000 (first, or behind the byte 1, or behind the
//!   bytes 1 1) followed by 2 more bytes; every announced length of a string, byte string, sequence, map or
//!   header behind which 300 or 5000 bytes arrive.
//! assume: sequences of elements that occupy no bytes are the findings recorded for C07 and C08.
//! opts: --alloc-limit 8000000
use crate::hb::*;
use crate::model::*;
use crate::refm::*;
use crate::sym;
use crate::util::*;
use crate::with_type;
use dlhn::{Body, DeserializeHeader, Deserializer, Header};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_bytes::ByteBuf;
use std::collections::{BTreeMap, VecDeque};

const FLOOR: u64 = 64 << 10;

fn frugal(n: usize, per: u64, f: impl FnOnce() -> bool) {
    sym::heap_reset();
    let base = sym::heap_live();
    let ok = f();
    let peak = sym::heap_peak();
    check!(peak <= base + FLOOR + per * n as u64, "memory use is in proportion to the input");
    sym::obs(ok as u64);
    if ok {
        reach!("decoded within the budget");
    } else {
        reach!("refused within the budget");
    }
}
fn run_typed<T: DeserializeOwned>(b: &[u8]) {
    // the decoded value stays alive until the peak is read
    let mut v = None;
    frugal(b.len(), 1024, || {
        v = dec::<T>(b).0.ok();
        v.is_some()
    });
}
fn run_body(h: &Header, b: &[u8]) {
    let mut v = None;
    frugal(b.len(), 1024, || {
        v = dec_body(h, b).0.ok();
        v.is_some()
    });
}
fn run_header(b: &[u8]) {
    let mut v = None;
    frugal(b.len(), 1024, || {
        v = dec_header(b).0.ok();
        v.is_some()
    });
}
#[inline(never)]
fn any<T: M>() {
    run_typed::<T>(&sym::vec(5))
}
/// A hostile 64-bit length at the front, or behind a tag, outer count or index 1.
fn hostile(lead: u64) -> Vec<u8> {
    let mut b = Vec::new();
    match lead {
        0 => (),
        1 => b.push(1),
        _ => b.extend_from_slice(&[1, 1]),
    }
    b.push(0xff);
    let len = sym::u64();
    sym::assume(len > 1000);
    b.extend_from_slice(&len.to_le_bytes());
    b.extend_from_slice(&[sym::u8(), 1]);
    b
}
#[inline(never)]
fn count<T: M>() {
    run_typed::<T>(&hostile(sym::pick(2)))
}
/// An announced length with a long but shorter delivery behind it.
fn partial<T: DeserializeOwned>(h: Option<&Header>, n: usize, fill: u8) {
    let len = sym::u64();
    sym::assume(len > n as u64);
    let mut b = vec![0xff];
    b.extend_from_slice(&len.to_le_bytes());
    b.resize(9 + n, fill);
    let mut v = None;
    frugal(b.len(), 160, || {
        v = dec::<T>(&b).0.ok();
        v.is_some()
    });
    check!(v.is_none(), "less than announced is no value");
    if let Some(h) = h {
        let mut v = None;
        frugal(b.len(), 160, || {
            v = dec_body(h, &b).0.ok();
            v.is_some()
        });
        check!(v.is_none(), "less than announced is no body");
    }
}
#[derive(Deserialize)]
struct FU(#[serde(with = "dlhn::format::big_uint")] #[allow(dead_code)] num_bigint::BigUint);
#[derive(Deserialize)]
struct FI(#[serde(with = "dlhn::format::big_int")] #[allow(dead_code)] num_bigint::BigInt);
#[derive(Deserialize)]
struct FC(#[serde(with = "dlhn::format::big_decimal")] #[allow(dead_code)] bigdecimal::BigDecimal);

fn with_kids(p: u64, l: Header) -> Header {
    let kids = match p {
        21 => vec![l, Header::UInt8],
        24 => vec![Header::Unit, l],
        _ => vec![l],
    };
    node(p as u8, kids)
}

entries! {
    //@ quick=0-65
    fn c17_typed(p) { with_type!(p, any) }
    //@ quick=13-21,27-30,33,38,41,47,49-52,57-60,63,64
    fn c17_count(p) { with_type!(p, count) }
    /// Other containers, and the serde `with` modules.
    //@ quick=0-8
    fn c17_other(p) {
        let l = sym::pick(2);
        macro_rules! t { ($($i:literal $t:ty),*) => { match p { $($i => run_typed::<$t>(&if sym::flip() { hostile(l) } else { sym::vec(4) }),)* _ => unreachable!() } } }
        t!(0 FU, 1 FI, 2 FC, 3 VecDeque<u64>, 4 Vec<[u64; 8]>, 5 BTreeMap<u8, u8>, 6 Box<[u32]>, 7 Vec<(u8, String)>, 8 std::collections::BinaryHeap<u16>)
    }
    //@ quick=2-6,8-11,13-19,25,26
    fn c17_leaf(p) {
        let h = leaf(p as u8);
        run_body(&h, &if sym::flip() { hostile(0) } else { sym::vec(5) })
    }
    //@ quick=1,20,21,23,24
    fn c17_over(p) {
        // elements without bytes are another matter
        let l = leaf(LEAVES[1 + sym::pick(LEAVES.len() as u64 - 1) as usize]);
        let h = with_kids(p, l);
        run_body(&h, &if sym::flip() { hostile(sym::pick(3)) } else { sym::vec(4) })
    }
    //@ quick=1,20,21,23,24
    fn c17_nest(p) {
        let k = NODES[sym::pick(5) as usize];
        let l = leaf([18, 3][sym::pick(2) as usize]);
        let h = with_kids(p, with_kids(k as u64, l));
        run_body(&h, &hostile(sym::pick(3)))
    }
    //@ quick=0,1
    fn c17_header(p) {
        if p == 0 {
            run_header(&sym::vec(5))
        } else {
            // a count in its longest form, at two levels
            let mut b = vec![[21, 24][sym::pick(2) as usize]];
            if sym::flip() {
                b.extend_from_slice(&[1, [21, 24][sym::pick(2) as usize]]);
            }
            b.push(0xc0);
            b.extend_from_slice(&sym::arr::<3>());
            run_header(&b)
        }
    }
    //@ quick=300,5000
    fn c17_partial(p) {
        let n = p as usize;
        partial::<String>(Some(&Header::String), n, 65);
        partial::<ByteBuf>(Some(&Header::Binary), n, 65);
        partial::<dlhn::BigInt>(Some(&Header::BigInt), n, 65);
        partial::<dlhn::BigUint>(Some(&Header::BigUInt), n, 65);
        partial::<dlhn::BigDecimal>(Some(&Header::BigDecimal), n, 65);
        partial::<Vec<u8>>(Some(&Header::Array(Box::new(Header::UInt8))), n, 65);
        partial::<Vec<u64>>(Some(&Header::Array(Box::new(Header::UInt64))), n, 65);
        // every entry is the same
        partial::<BTreeMap<String, u8>>(Some(&Header::Map(Box::new(Header::UInt8))), n, 1);
        partial::<Vec<String>>(Some(&Header::Array(Box::new(Header::String))), n, 0);
    }
    /// A header whose announced members only partly arrive.
    //@ quick=300,5000
    fn c17_members(p) {
        let n = p as usize;
        let len = sym::u16();
        sym::assume(len as usize > n);
        let mut b = vec![[21, 24][sym::pick(2) as usize], 0xc0];
        b.extend_from_slice(&len.to_le_bytes());
        b.resize(4 + n, [2, 3, 18][sym::pick(3) as usize]);
        let mut v = None;
        frugal(b.len(), 256, || {
            v = dec_header(&b).0.ok();
            v.is_some()
        });
        check!(v.is_none(), "fewer members than announced are no header");
    }
}
