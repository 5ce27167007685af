//! C20: whatever decodes re-encodes stably and no longer than it was.
//! bound: every byte string of at most 5 bytes (numbers and dates: of their maximum length; timestamps: 9, thorough 14) as
//!   each of the 66 types of model.rs; of at most 4 (date 6) bytes through the serde `with` modules, 7 timestamps with all
//!   nanosecond bytes; of at most 4
//!   (thorough: 5) bytes as a header; of at most 4 bytes (leaves 5) as a body under every leaf, one level over every leaf and two levels over
//!   u8; long strings and byte strings behind every over-long length.
//!   53 large shapes (hb.rs BIG: texts up to 1 MiB + 3 bytes, integers of 70001 bytes, up to 70001 elements, 5000
//!   entries, 16500 variants, nesting of 1100) with two arbitrary bytes each.
//! assume: sequences of elements that occupy no bytes are the findings recorded for C07 and C08.
use crate::hb::*;
use crate::model::*;
use crate::refm::*;
use crate::sym;
use crate::util::*;
use crate::with_type;
use dlhn::{Body, Header};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_bytes::ByteBuf;

fn stable<T: Serialize>(b: &[u8], dec: impl Fn(&[u8]) -> (Option<T>, usize), same: impl Fn(&T, &T) -> bool, shrinks: bool) {
    if let (Some(v), n) = dec(b) {
        match enc(&v) {
            Err(_) => check!(false, "what was decoded can be written"),
            Ok(e) => {
                sym::obs_bytes(&e);
                if shrinks {
                    check!(e.len() <= n, "writing it again takes no more bytes");
                }
                match dec(&e) {
                    (Some(w), m) => {
                        check!(m == e.len(), "what was written again is read completely");
                        check!(same(&v, &w), "what was written again is the same value");
                        if let Ok(f) = enc(&w) {
                            check!(f == e, "writing is stable from then on");
                        }
                        reach!("re-encoded");
                    }
                    _ => check!(false, "what was written again is readable"),
                }
            }
        }
    } else {
        reach!("refused bytes");
    }
}
static mut LEN: usize = 0;
static mut SHRINKS: bool = true;
#[inline(never)]
fn typed<T: M>() {
    let b = sym::vec(unsafe { LEN });
    stable(&b, |b| { let (r, n) = dec::<T>(b); (r.ok(), n) }, |a, b| a.same(b), unsafe { SHRINKS })
}
fn body(h: &Header, max: usize) {
    let b = sym::vec(max);
    let decimal = matches!(h, Header::BigDecimal) || kids(h).iter().any(|k| matches!(k, Header::BigDecimal));
    stable(&b, |b| { let (r, n) = dec_body(h, b); (r.ok(), n) }, same_body, !decimal)
}
fn field<T: DeserializeOwned + Serialize>(max: usize, same: impl Fn(&T, &T) -> bool, shrinks: bool) {
    let b = sym::vec(max);
    stable(&b, |b| { let (r, n) = dec::<T>(b); (r.ok(), n) }, same, shrinks)
}
#[derive(Serialize, Deserialize)]
struct FU(#[serde(with = "dlhn::format::big_uint")] num_bigint::BigUint);
#[derive(Serialize, Deserialize)]
struct FI(#[serde(with = "dlhn::format::big_int")] num_bigint::BigInt);
#[derive(Serialize, Deserialize)]
struct FC(#[serde(with = "dlhn::format::big_decimal")] bigdecimal::BigDecimal);
#[derive(Serialize, Deserialize)]
struct FD(#[serde(with = "dlhn::format::date")] time::Date);
#[derive(Serialize, Deserialize)]
struct FT(#[serde(with = "dlhn::format::date_time")] time::OffsetDateTime);

entries! {
    //@ quick=0-65 thorough=0-65,162
    fn c20_typed(p) {
        let n = match p {
            162 => 14,
            11 => 6,
            0..=12 => 10,
            31 | 36 | 44 | 54 => 6,
            55 => 12,
            58..=60 | 63 | 64 => 4,
            61 | 65 => 8,
            62 => 9,
            _ => 5,
        };
        unsafe {
            LEN = n;
            // normalizing a decimal moves zeros from the digits to the scale, a duration moves whole seconds
            SHRINKS = p != 60 && p != 64 && p != 55;
        }
        with_type!(p % 100, typed)
    }
    //@ quick=0-4
    fn c20_with(p) {
        match p {
            0 => field::<FU>(4, |a, b| a.0 == b.0, true),
            1 => field::<FI>(4, |a, b| a.0 == b.0, true),
            2 => field::<FC>(4, |a, b| a.0 == b.0, false),
            3 => field::<FD>(6, |a, b| a.0 == b.0, true),
            _ => {
                // some seconds, in the shortest or the longest form, and any nanosecond bytes
                let s = [0i64, -1, 64, 1_700_000_000, -62_135_596_800, 253_402_300_799, 253_402_300_800][sym::pick(7) as usize];
                let mut b = Vec::new();
                if sym::flip() {
                    put_u64(zz64(s), &mut b)
                } else {
                    b.push(0xff);
                    b.extend_from_slice(&zz64(s).to_le_bytes());
                }
                b.extend_from_slice(&sym::arr::<5>());
                stable(&b, |b| { let (r, n) = dec::<FT>(b); (r.ok(), n) }, |a, b| a.0 == b.0, true)
            }
        }
    }
    //@ quick=0,2-6,8-11,13-19,25,26
    fn c20_leaf(p) { body(&leaf(p as u8), if p == 17 { 4 } else { 5 }) }
    //@ quick=1,20,21,23,24
    fn c20_over(p) {
        let l = leaf(LEAVES[1 + sym::pick(LEAVES.len() as u64 - 1) as usize]);
        let kids = match p {
            21 => vec![l, Header::UInt8],
            24 => vec![Header::Unit, l],
            _ => vec![l],
        };
        body(&node(p as u8, kids), 4)
    }
    //@ quick=1,20,21,23,24
    fn c20_nest(p) {
        let h = gen_node(p as u8, &[3], 2, 1);
        // an array of empty tuples has no bytes to bound it
        if !empty_elements(&h) {
            body(&h, 4)
        }
    }
    //@ quick=0 thorough=1
    fn c20_header(p) {
        let b = sym::vec(if p == 0 { 4 } else { 5 });
        if let (Ok(h), n) = dec_header(&b) {
            match enc_header(&h) {
                Err(_) => check!(false, "a parsed header can be written"),
                Ok(e) => {
                    check!(e.len() <= n, "writing a header again takes no more bytes");
                    match dec_header(&e) {
                        (Ok(g), m) => check!(m == e.len() && same_header(&g, &h), "a header written again is the same"),
                        _ => check!(false, "a header written again parses"),
                    }
                }
            }
        }
    }
    /// Long contents behind an over-long length.
    //@ quick=100,127,128,300,4096,4097
    fn c20_long(p) {
        let mut v: Vec<u8> = (0..p).map(|i| 33 + (i * 7 % 89) as u8).collect();
        v[0] = sym::u8();
        v[p as usize - 1] = sym::u8() & 0x7f;
        // every form that can spell the length
        let mut b = Vec::new();
        let k = sym::pick(8);
        for f in 0..8u64 {
            if f != k || (f == 0 && p > 127) {
                continue;
            }
            // f payload bytes follow the first one
            let bits = 7 - f.min(7);
            let lead = if f == 7 { 0xfe } else { !(0xffu64 >> f) & 0xff };
            b.push((lead | if f < 7 { p & ((1 << bits) - 1) } else { 0 }) as u8);
            let rest = if f < 7 { p >> bits } else { p };
            b.extend_from_slice(&rest.to_le_bytes()[..f as usize]);
            sym::assume(f == 0 || rest >> (8 * f) == 0);
        }
        if b.is_empty() {
            b.push(0xff);
            b.extend_from_slice(&p.to_le_bytes());
        }
        b.extend_from_slice(&v);
        let ok = dec::<ByteBuf>(&b).1 == b.len();
        check!(ok, "an over-long length is read");
        stable(&b, |b| { let (r, n) = dec::<ByteBuf>(b); (r.ok(), n) }, |x, y| x == y, true);
        stable(&b, |b| { let (r, n) = dec::<String>(b); (r.ok(), n) }, |x, y| x == y, true);
        stable(&b, |b| { let (r, n) = dec_body(&Header::Binary, b); (r.ok(), n) }, same_body, true);
    }
    /// Large bodies.
    //@ quick=0-52
    fn c20_big(p) {
        let (h, b) = big(p);
        let mut e = Vec::new();
        put_body(&b, &mut e);
        stable(&e, |b| { let (r, n) = dec_body(&h, b); (r.ok(), n) }, same_body, h != Header::BigDecimal);
    }
}
fn empty_elements(h: &Header) -> bool {
    match h {
        Header::Array(x) => zero_width(x) || empty_elements(x),
        _ => kids(h).iter().any(|k| empty_elements(k)),
    }
}
