//! C02: the integer wire format.
//! bound: none on the integer values; decoding looks at inputs of at most 10 bytes (the longest
//!   form is 9); element counts on decode are observed up to 6 elements.
use crate::model::*;
use crate::refm::*;
use crate::sym;
use crate::util::*;
use dlhn::{Deserializer, Serializer};
use serde::de::{self, DeserializeSeed, EnumAccess, MapAccess, SeqAccess, Visitor};
use serde::ser::{
    SerializeMap, SerializeSeq, SerializeStructVariant, SerializeTupleVariant, Serializer as _,
};
use serde::{Deserialize, Serialize};
use std::fmt;

macro_rules! with_int {
    ($p:expr, $f:ident) => {
        match $p {
            0 => $f::<u16>(),
            1 => $f::<u32>(),
            2 => $f::<u64>(),
            3 => $f::<i16>(),
            4 => $f::<i32>(),
            5 => $f::<i64>(),
            6 => $f::<u8>(),
            _ => $f::<i8>(),
        }
    };
}

#[inline(never)]
fn encode<T: M>() {
    let v = T::gen();
    match enc(&v) {
        Ok(b) => {
            sym::obs_bytes(&b);
            check!(b == put_of(&v), "integers are written in the documented form");
            reach!("integer written");
        }
        Err(_) => check!(false, "writing an integer succeeds"),
    }
}
/// Arbitrary bytes decode to what they spell and consume what they announce.
#[inline(never)]
fn decode<T: M>() {
    let b = sym::vec(10);
    let (got, used) = dec::<T>(&b);
    let mut r = Rd::new(&b);
    match (got, T::parse(&mut r)) {
        (Ok(v), Some(m)) => {
            check!(v.agrees(&m), "decoded integer is the one the bytes spell");
            check!(used == r.pos, "decoding reads as many bytes as the first one announces");
            reach!("integer read");
        }
        (Err(_), None) => reach!("short input refused"),
        (Ok(_), None) => check!(false, "short input is not decoded"),
        (Err(_), Some(_)) => check!(false, "every integer form is accepted"),
    }
}

fn starts(out: &[u8], want: Vec<u8>) -> bool {
    out.len() == want.len() && out == &want[..]
}

struct Count {
    max: u64,
    seen: u64,
}
impl<'de, 'a> Visitor<'de> for &'a mut Count {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("elements")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        while self.seen < self.max {
            match a.next_element::<()>()? {
                Some(()) => self.seen += 1,
                None => break,
            }
        }
        Ok(())
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        while self.seen < self.max {
            match a.next_key::<()>()? {
                Some(()) => {
                    a.next_value::<()>()?;
                    self.seen += 1
                }
                None => break,
            }
        }
        Ok(())
    }
}

/// Records the variant index the decoder hands to an enum's visitor.
struct Index(Option<u64>);
impl<'de> Visitor<'de> for Index {
    type Value = Index;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("variant index")
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<Index, E> {
        Ok(Index(Some(v)))
    }
}
impl<'de> DeserializeSeed<'de> for Index {
    type Value = Index;
    fn deserialize<D: de::Deserializer<'de>>(self, d: D) -> Result<Index, D::Error> {
        d.deserialize_identifier(self)
    }
}
struct AnyEnum;
impl<'de> Visitor<'de> for AnyEnum {
    type Value = Option<u64>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("enum")
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Option<u64>, A::Error> {
        let (i, _) = a.variant_seed(Index(None))?;
        Ok(i.0)
    }
}

entries! {
    //@ quick=0-7
    fn c02_encode(p) { with_int!(p, encode) }
    //@ quick=0-7
    fn c02_decode(p) { with_int!(p, decode) }

    /// Sequence and map counts, for every count.
    //@ quick=0-1
    fn c02_count(p) {
        let n = sym::u64();
        let mut out = Vec::new();
        let mut s = Serializer::new(&mut out);
        let ok = if p == 0 { s.serialize_seq(Some(n as usize)).map(|x| SerializeSeq::end(x)).is_ok() }
                 else { s.serialize_map(Some(n as usize)).map(|x| SerializeMap::end(x)).is_ok() };
        check!(ok, "writing a count succeeds");
        let mut want = Vec::new();
        put_u64(n, &mut want);
        sym::obs_bytes(&out);
        check!(starts(&out, want), "counts are 64-bit prefix varints");
        reach!("count written");
    }
    /// Variant indices of the four variant kinds and of dynamic enums, for every index.
    //@ quick=0-4
    fn c02_variant(p) {
        let i = sym::u32();
        let mut out = Vec::new();
        let mut s = Serializer::new(&mut out);
        let ok = match p {
            0 => s.serialize_unit_variant("E", i, "V").is_ok(),
            1 => s.serialize_newtype_variant("E", i, "V", &()).is_ok(),
            2 => match s.serialize_tuple_variant("E", i, "V", 2) {
                Ok(x) => SerializeTupleVariant::end(x).is_ok(),
                Err(_) => false,
            },
            3 => match s.serialize_struct_variant("E", i, "V", 2) {
                Ok(x) => SerializeStructVariant::end(x).is_ok(),
                Err(_) => false,
            },
            _ => dlhn::Body::Enum(i, Box::new(dlhn::Body::Unit)).serialize(&mut s).is_ok(),
        };
        check!(ok, "writing a variant succeeds");
        let mut want = Vec::new();
        put_u32(i, &mut want);
        sym::obs_bytes(&out);
        check!(starts(&out, want), "variant indices are 32-bit prefix varints");
        reach!("variant written");
    }
    /// Lengths of strings and byte strings as written, on both sides of every change of form a value can reach.
    //@ quick=0,1,127,128,300,16383,16384,65535,65536,70001,100000,100001,100127,100128,100300,116383,116384,165535,165536,170001
    fn c02_length_write(p) {
        let n = (p % 100_000) as usize;
        let mut v = vec![b'a'; n];
        if n > 0 {
            v[n - 1] = sym::u8() & 0x7f;
        }
        let out = if p < 100_000 {
            enc(std::str::from_utf8(&v).unwrap_or(""))
        } else {
            enc(serde_bytes::Bytes::new(&v))
        };
        let mut want = Vec::new();
        put_u64(n as u64, &mut want);
        want.extend_from_slice(&v);
        match out {
            Ok(o) => {
                check!(o.len() == want.len() && o == want, "lengths are 64-bit prefix varints as written");
                reach!("length written");
            }
            Err(_) => check!(false, "writing text succeeds"),
        }
    }
    /// Lengths of strings and byte strings on decode: the bytes announce at most 3 bytes or too many.
    //@ quick=0-1
    fn c02_length_read(p) {
        let b = sym::vec(12);
        if p == 0 {
            // text that is ASCII: C03 and C07 cover the rest
            let mut r = Rd::new(&b);
            if r.u64().is_some() {
                for c in &b[r.pos..] {
                    sym::assume(*c < 0x80);
                }
            }
        }
        let mut r = Rd::new(&b);
        let want = if p == 0 { r.text() } else { r.bytes() };
        let (ok, used) = if p == 0 {
            let (v, n) = dec::<String>(&b);
            (v.ok().map(|v| v.into_bytes()), n)
        } else {
            let (v, n) = dec::<serde_bytes::ByteBuf>(&b);
            (v.ok().map(|v| v.into_vec()), n)
        };
        match (ok, want) {
            (Some(v), Some(w)) => {
                check!(&v[..] == w, "content is what the length announces");
                check!(used == r.pos, "length and content are consumed");
                reach!("text read");
            }
            (None, None) => reach!("bad text refused"),
            _ => check!(false, "lengths are 64-bit prefix varints"),
        }
    }
    /// Counts on decode, observed through the number of elements handed out.
    //@ quick=0-1
    fn c02_count_read(p) {
        let b = sym::vec(10);
        let mut r = Rd::new(&b);
        let want = r.u64();
        let mut c = Count { max: 6, seen: 0 };
        let mut rest = &b[..];
        let mut d = Deserializer::new(&mut rest);
        let got = if p == 0 { de::Deserializer::deserialize_seq(&mut d, &mut c) }
                  else { de::Deserializer::deserialize_map(&mut d, &mut c) };
        match (got, want) {
            (Ok(()), Some(n)) => {
                check!(c.seen == n.min(6), "as many elements as the count says");
                check!(b.len() - rest.len() == r.pos, "only the count is consumed");
                reach!("count read");
            }
            (Err(_), None) => reach!("short count refused"),
            _ => check!(false, "counts are 64-bit prefix varints when read"),
        }
    }
    /// Variant indices on decode, for every index, typed and dynamic.
    //@ quick=0-1
    fn c02_variant_read(p) {
        let b = sym::vec(6);
        let mut r = Rd::new(&b);
        let want = r.u32();
        let mut rest = &b[..];
        let mut d = Deserializer::new(&mut rest);
        if p == 0 {
            let got = de::Deserializer::deserialize_enum(&mut d, "E", &[], AnyEnum);
            match (got, want) {
                (Ok(Some(i)), Some(n)) => {
                    check!(i == n as u64, "index read is the one written");
                    check!(b.len() - rest.len() == r.pos, "only the index is consumed");
                    reach!("index read");
                }
                (Err(_), None) => reach!("short index refused"),
                _ => check!(false, "variant indices are 32-bit prefix varints when read"),
            }
        } else {
            let h = dlhn::Header::Enum(vec![dlhn::Header::Unit; 200]);
            let got = dlhn::Body::deserialize(&h, &mut d);
            match (got, want) {
                (Ok(dlhn::Body::Enum(i, _)), Some(n)) => {
                    check!(i == n && n < 200, "dynamic index read is the one written");
                    check!(b.len() - rest.len() == r.pos, "only the dynamic index is consumed");
                    reach!("dynamic index read");
                }
                (Err(_), None) => reach!("short dynamic index refused"),
                (Err(_), Some(n)) => check!(n >= 200, "an index the header has is accepted"),
                _ => check!(false, "dynamic indices are 32-bit prefix varints when read"),
            }
        }
    }
}
