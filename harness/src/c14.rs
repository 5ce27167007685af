//! C14: values are self-delimiting.
//! bound: every type of C04 (contents as there, at most 1 element per sequence in pairs) between other values,
//!   with any 3 bytes behind it; headers of one nesting level over every leaf, each followed by its body,
//!   and pairs of header/body records; streams of up to 70000 values of mixed types.
//!   Texts of up to 65537 bytes between other values; 53 large shapes (hb.rs BIG: texts up to 1 MiB + 3 bytes, integers of 70001 bytes, up to 70001 elements, 5000
//!   entries, 16500 variants, nesting of 1100) with two arbitrary bytes each, twice in a row.
use crate::hb::*;
use crate::model::*;
use crate::refm::*;
use crate::sym;
use crate::util::*;
use crate::with_type;
use dlhn::{Body, DeserializeHeader, Deserializer, Header, SerializeHeader, Serializer};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_bytes::ByteBuf;
use std::collections::BTreeMap;

/// Consumption does not depend on what follows.
#[inline(never)]
fn tail<T: M>() {
    let v = T::gen();
    let b = match enc(&v) {
        Ok(b) => b,
        Err(_) => {
            check!(false, "values are written");
            return;
        }
    };
    sym::obs_bytes(&b);
    let mut e = b.clone();
    e.extend_from_slice(&sym::arr::<3>());
    match dec::<T>(&e) {
        (Ok(w), n) => {
            check!(n == b.len(), "exactly the value's bytes are read");
            check!(w.same(&v), "what follows does not change the value");
            reach!("value before a tail");
        }
        _ => check!(false, "what follows does not make a value unreadable"),
    }
    match dec::<T>(&[]).0 {
        Ok(_) => check!(b.is_empty(), "nothing is decoded from an ended stream"),
        Err(e) => check!(e == dlhn::de::Error::Read, "the end of the stream is a read error"),
    }
}
/// Between two other values, one serializer and one deserializer for all.
#[inline(never)]
fn between<T: M>() {
    set_max(1);
    let a = sym::u8();
    let v = T::gen();
    let c = sym::ascii(1);
    let mut out = Vec::new();
    {
        let mut s = Serializer::new(&mut out);
        let ok = a.serialize(&mut s).is_ok() && v.serialize(&mut s).is_ok() && c.serialize(&mut s).is_ok() && a.serialize(&mut s).is_ok();
        check!(ok, "a stream is written");
    }
    sym::obs_bytes(&out);
    let mut want = vec![a];
    v.put(&mut want);
    c.put(&mut want);
    want.push(a);
    check!(out == want, "a stream is the values' encodings one after another");
    let mut r = &out[..];
    {
        let mut d = Deserializer::new(&mut r);
        check!(u8::deserialize(&mut d).ok() == Some(a), "the first value comes back");
        check!(T::deserialize(&mut d).map_or(false, |w| w.same(&v)), "the second value comes back");
        check!(String::deserialize(&mut d).ok().as_ref() == Some(&c), "the third value comes back");
        check!(u8::deserialize(&mut d).ok() == Some(a), "the last value comes back");
        check!(u8::deserialize(&mut d) == Err(dlhn::de::Error::Read), "then the stream has ended");
        check!(String::deserialize(&mut d) == Err(dlhn::de::Error::Read), "and stays ended");
    }
    // a fresh decoder per value
    let mut r = &out[..];
    check!(u8::deserialize(&mut Deserializer::new(&mut r)).ok() == Some(a), "the first value comes back fresh");
    check!(T::deserialize(&mut Deserializer::new(&mut r)).map_or(false, |w| w.same(&v)), "the second value comes back fresh");
    check!(String::deserialize(&mut Deserializer::new(&mut r)).ok() == Some(c), "the third value comes back fresh");
    check!(r.len() == 1 && r[0] == a, "nothing is taken from the value that follows");
    reach!("stream read back");
}
/// Header, body, header, body.
fn records(h: &[Header]) {
    let mut bodies = Vec::new();
    for x in h {
        match gen_body(x) {
            Some(b) => bodies.push(b),
            None => return,
        }
    }
    let mut out = Vec::new();
    for (x, b) in h.iter().zip(&bodies) {
        check!(x.serialize(&mut out).is_ok(), "the header is written");
        check!(b.serialize(&mut Serializer::new(&mut out)).is_ok(), "the body is written");
    }
    sym::obs_bytes(&out);
    out.push(sym::u8());
    let mut r = &out[..];
    for (x, b) in h.iter().zip(&bodies) {
        match r.deserialize_header() {
            Ok(y) => {
                check!(same_header(x, &y), "the record's header comes back");
                match Body::deserialize(&y, &mut Deserializer::new(&mut r)) {
                    Ok(c) => check!(same_body(b, &c), "the record's body comes back"),
                    Err(_) => {
                        check!(false, "the record's body is readable");
                        return;
                    }
                }
            }
            Err(_) => {
                check!(false, "the record's header is readable");
                return;
            }
        }
    }
    check!(r.len() == 1, "exactly the records are consumed");
    reach!("records read back");
}
/// All bodies of a stream under one header, one decoder.
fn many(h: &Header, n: usize) {
    let v: Vec<Body> = (0..n).filter_map(|_| gen_body(h)).collect();
    let mut out = Vec::new();
    check!(h.serialize(&mut out).is_ok(), "the header is written once");
    {
        let mut s = Serializer::new(&mut out);
        for b in &v {
            check!(b.serialize(&mut s).is_ok(), "each body is written");
        }
    }
    sym::obs_bytes(&out);
    let mut r = &out[..];
    match r.deserialize_header() {
        Ok(y) => {
            let mut d = Deserializer::new(&mut r);
            for b in &v {
                match Body::deserialize(&y, &mut d) {
                    Ok(c) => check!(same_body(b, &c), "each body comes back in order"),
                    Err(_) => check!(false, "each body is readable"),
                }
            }
            let e = Body::deserialize(&y, &mut d);
            if zero_width(h) {
                check!(e.is_ok(), "a body without bytes can be read at the end");
            } else {
                check!(e == Err(dlhn::de::Error::Read), "after the last body there is a read error");
            }
        }
        Err(_) => check!(false, "the stream's header is readable"),
    }
    check!(r.is_empty(), "the stream is consumed");
}

entries! {
    /// Streams of many small values of different kinds, one encoder and one decoder for all.
    //@ quick=300,1000,20000,70000
    fn c14_stream(p) {
        let (x, y) = (sym::u8(), sym::u16());
        let mut out = Vec::new();
        {
            let mut s = Serializer::new(&mut out);
            for i in 0..p {
                let ok = match i % 7 {
                    0 => x.serialize(&mut s),
                    1 => (i as u16).serialize(&mut s),
                    2 => Some(i as u8).serialize(&mut s),
                    3 => "ab".serialize(&mut s),
                    4 => [i as u8, x].as_slice().serialize(&mut s),
                    5 => Body::Boolean(i % 2 == 0).serialize(&mut s),
                    _ => (i as i64).serialize(&mut s),
                };
                check!(ok.is_ok(), "every value of a long stream is written");
            }
            check!(y.serialize(&mut s).is_ok(), "the last value of a long stream is written");
        }
        let mut r = &out[..];
        let mut d = Deserializer::new(&mut r);
        for i in 0..p {
            let ok = match i % 7 {
                0 => u8::deserialize(&mut d) == Ok(x),
                1 => u16::deserialize(&mut d) == Ok(i as u16),
                2 => Option::<u8>::deserialize(&mut d) == Ok(Some(i as u8)),
                3 => String::deserialize(&mut d).map_or(false, |t| t == "ab"),
                4 => Vec::<u8>::deserialize(&mut d).map_or(false, |t| t == [i as u8, x]),
                5 => Body::deserialize(&Header::Boolean, &mut d) == Ok(Body::Boolean(i % 2 == 0)),
                _ => i64::deserialize(&mut d) == Ok(i as i64),
            };
            check!(ok, "every value of a long stream comes back");
        }
        check!(u16::deserialize(&mut d) == Ok(y), "the last value of a long mixed stream comes back");
        check!(bool::deserialize(&mut d) == Err(dlhn::de::Error::Read), "a long mixed stream ends");
        reach!("long mixed stream");
    }
    //@ quick=0-65 thorough=0-65,100-165
    fn c14_tail(p) { with_type!(p, tail) }
    //@ quick=0-65
    fn c14_between(p) { with_type!(p, between) }
    /// Every leaf twice, with different contents.
    //@ quick=0,2-6,8-11,13-19,25,26
    fn c14_leaf(p) {
        set_max(1);
        many(&leaf(p as u8), if p == 26 { 1 } else { 2 });
    }
    //@ quick=1,20,21,23,24
    fn c14_over(p) {
        set_max(1);
        let l = leaf(LEAVES[sym::pick(LEAVES.len() as u64) as usize]);
        let kids = match p {
            21 => vec![l, Header::UInt8],
            24 => vec![Header::Unit, l],
            _ => vec![l],
        };
        records(&[node(p as u8, kids), Header::UInt8])
    }
    //@ quick=0-4
    fn c14_records(p) {
        set_max(1);
        let k = NODES[p as usize];
        let h = gen_node(k, &[3, 18], 1, 2);
        records(&[h, Header::Unit, gen_node(NODES[((p + 1) % 5) as usize], &[8], 1, 1), Header::Tuple(vec![])])
    }
    //@ quick=0
    fn c14_end(p) {
        check!(matches!(dec_header(&[]), (Err(_), 0)), "an ended stream has no header");
        for l in LEAVES {
            let h = leaf(l);
            let (b, _) = dec_body(&h, &[]);
            if l == 0 {
                check!(b.is_ok(), "unit takes no bytes");
            } else {
                check!(b == Err(dlhn::de::Error::Read), "an ended stream has no body");
            }
        }
        for n in NODES {
            let h = node(n, vec![Header::UInt8]);
            check!(dec_body(&h, &[]).0 == Err(dlhn::de::Error::Read), "an ended stream has no composite body");
        }
    }
    /// A long stream of small values, a few of them arbitrary 32-bit ones.
    //@ quick=0
    fn c14_long(p) {
        let v: Vec<u8> = sym::vec_of(200);
        let w: [u32; 3] = [sym::u32(), sym::u32(), sym::u32()];
        let mut out = Vec::new();
        {
            let mut s = Serializer::new(&mut out);
            for (i, x) in v.iter().enumerate() {
                let ok = match i {
                    50 => w[0].serialize(&mut s),
                    100 => w[1].serialize(&mut s),
                    199 => w[2].serialize(&mut s),
                    _ => x.serialize(&mut s),
                };
                check!(ok.is_ok(), "every value is written");
            }
        }
        let mut r = &out[..];
        let mut d = Deserializer::new(&mut r);
        for (i, x) in v.iter().enumerate() {
            match i {
                50 => check!(u32::deserialize(&mut d).ok() == Some(w[0]), "a number in a long stream comes back"),
                100 => check!(u32::deserialize(&mut d).ok() == Some(w[1]), "a later number in a long stream comes back"),
                199 => check!(u32::deserialize(&mut d).ok() == Some(w[2]), "the last number in a long stream comes back"),
                _ => check!(u8::deserialize(&mut d).ok() == Some(*x), "a byte in a long stream comes back"),
            }
        }
        check!(u8::deserialize(&mut d) == Err(dlhn::de::Error::Read), "a long stream ends");
    }
    /// Long texts between small values, typed and dynamic; fresh decoder per value from 100000 on.
    //@ quick=16,31,32,33,64,65,127,128,129,300,4095,4096,4097,8192,8193,65537,100033,100128,100300,104097
    fn c14_texts(p) {
        let n = (p % 100_000) as usize;
        let mut t = vec![b'x'; n];
        t[n / 2] = sym::u8() & 0x7f;
        t[n - 1] = sym::u8() & 0x7f;
        let text = String::from_utf8(t.clone()).unwrap_or_default();
        let raw = ByteBuf::from(t.clone());
        let x = sym::u32();
        let mut out = Vec::new();
        let ok = {
            let mut s = Serializer::new(&mut out);
            (&text, x).serialize(&mut s).is_ok()
                && (&raw, !x, &text).serialize(&mut s).is_ok()
                && Body::String(text.clone()).serialize(&mut s).is_ok()
                && Body::UInt32(x).serialize(&mut s).is_ok()
                && Body::Binary(raw.clone()).serialize(&mut s).is_ok()
                && 9u8.serialize(&mut s).is_ok()
        };
        check!(ok, "texts are written");
        let mut r = &out[..];
        let a;
        let b;
        let c;
        let e;
        let f;
        if p < 100_000 {
            let mut d = Deserializer::new(&mut r);
            a = <(String, u32)>::deserialize(&mut d);
            b = <(ByteBuf, u32, String)>::deserialize(&mut d);
            c = Body::deserialize(&Header::String, &mut d);
            e = Body::deserialize(&Header::UInt32, &mut d);
            f = Body::deserialize(&Header::Binary, &mut d);
        } else {
            a = <(String, u32)>::deserialize(&mut Deserializer::new(&mut r));
            b = <(ByteBuf, u32, String)>::deserialize(&mut Deserializer::new(&mut r));
            c = Body::deserialize(&Header::String, &mut Deserializer::new(&mut r));
            e = Body::deserialize(&Header::UInt32, &mut Deserializer::new(&mut r));
            f = Body::deserialize(&Header::Binary, &mut Deserializer::new(&mut r));
        }
        check!(matches!(&a, Ok((t, y)) if *t == text && *y == x), "text and number come back");
        check!(matches!(&b, Ok((v, y, t)) if *v == raw && *y == !x && *t == text), "bytes, number and text come back");
        check!(matches!(&c, Ok(Body::String(t)) if *t == text), "dynamic text comes back");
        check!(matches!(&e, Ok(Body::UInt32(y)) if *y == x), "dynamic number comes back");
        check!(matches!(&f, Ok(Body::Binary(v)) if *v == raw), "dynamic bytes come back");
        check!(r.len() == 1 && r[0] == 9, "nothing after the texts is consumed");
        reach!("texts read");
    }
    /// Large bodies between small values, and twice under one header.
    //@ quick=0-52
    fn c14_big(p) {
        let (h, b) = big(p);
        let x = sym::u16();
        let mut out = Vec::new();
        let ok = {
            let mut s = Serializer::new(&mut out);
            x.serialize(&mut s).is_ok() && b.serialize(&mut s).is_ok() && b.serialize(&mut s).is_ok() && x.serialize(&mut s).is_ok()
        };
        check!(ok, "large bodies are written one after another");
        let mut r = &out[..];
        {
            let mut d = Deserializer::new(&mut r);
            check!(u16::deserialize(&mut d).ok() == Some(x), "the value before large bodies comes back");
            check!(Body::deserialize(&h, &mut d).ok().map_or(false, |c| same_body(&b, &c)), "a large body comes back");
        }
        let mut d = Deserializer::new(&mut r);
        check!(Body::deserialize(&h, &mut d).ok().map_or(false, |c| same_body(&b, &c)), "a second large body comes back");
        check!(u16::deserialize(&mut d).ok() == Some(x), "the value behind large bodies comes back");
        check!(r.is_empty(), "large bodies are consumed");
        reach!("large bodies read");
    }
}
