//! C18: only strings are accepted as map keys.
//! bound: every shape of key serde can express with arbitrary contents (strings inside of at most 2 bytes), alone or
//!   as the second entry, at 8 nesting places; string-keyed maps of at most 3 entries with keys of at most 2
//!   bytes (4 for a single entry), keys of up to 1 MiB, maps of up to 16384 entries; the serializer after a refusal;
//!   maps of unknown length (at most 3 entries) at 6 places.
//! assume: 128-bit integers are outside (the format has none).
use crate::hb::*;
use crate::model::*;
use crate::refm::*;
use crate::sym;
use crate::util::*;
use serde::ser::{SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant};
use serde::{de::DeserializeOwned, Deserialize, Serialize, Serializer as S};
use serde_bytes::{ByteBuf, Bytes};
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};

/// A key serialized through the k-th method of serde's data model.
struct Key(u64, u64, String);
const SHAPES: u64 = 36;
impl Serialize for Key {
    fn serialize<T: S>(&self, s: T) -> Result<T::Ok, T::Error> {
        let v = self.1;
        let t: &str = &self.2;
        match self.0 {
            0 => s.serialize_bool(v & 1 == 1),
            1 => s.serialize_i8(v as i8),
            2 => s.serialize_i16(v as i16),
            3 => s.serialize_i32(v as i32),
            4 => s.serialize_i64(v as i64),
            5 => s.serialize_u8(v as u8),
            6 => s.serialize_u16(v as u16),
            7 => s.serialize_u32(v as u32),
            8 => s.serialize_u64(v),
            9 => s.serialize_f32(f32::from_bits(v as u32)),
            10 => s.serialize_f64(f64::from_bits(v)),
            11 => s.serialize_char(if v & 1 == 1 { 'a' } else { '\u{3042}' }),
            12 => s.serialize_bytes(t.as_bytes()),
            13 => s.serialize_none(),
            14 => s.serialize_some(t),
            15 => s.serialize_some(&v),
            16 => s.serialize_unit(),
            17 => s.serialize_unit_struct("U"),
            18 => s.serialize_unit_variant("E", v as u32, "V"),
            19 => s.serialize_newtype_struct("N", t),
            20 => s.serialize_newtype_struct("N", &v),
            21 => s.serialize_newtype_variant("E", v as u32, "V", t),
            22 => {
                let mut q = s.serialize_seq(Some(1))?;
                q.serialize_element(t)?;
                q.end()
            }
            23 => s.serialize_seq(None)?.end(),
            24 => {
                let mut q = s.serialize_tuple(1)?;
                q.serialize_element(t)?;
                q.end()
            }
            25 => s.serialize_tuple(0)?.end(),
            26 => {
                let mut q = s.serialize_tuple_struct("T", 1)?;
                q.serialize_field(t)?;
                q.end()
            }
            27 => {
                let mut q = s.serialize_tuple_variant("T", v as u32, "V", 1)?;
                q.serialize_field(t)?;
                q.end()
            }
            28 => {
                let mut q = s.serialize_map(Some(1))?;
                q.serialize_entry(t, t)?;
                q.end()
            }
            29 => s.serialize_map(Some(0))?.end(),
            30 => {
                let mut q = s.serialize_struct("T", 1)?;
                q.serialize_field("f", t)?;
                q.end()
            }
            31 => {
                let mut q = s.serialize_struct_variant("T", v as u32, "V", 1)?;
                q.serialize_field("f", t)?;
                q.end()
            }
            32 => s.serialize_struct("T", 0)?.end(),
            33 => s.serialize_tuple_struct("T", 0)?.end(),
            34 => s.serialize_unit_variant("E", 0, "aa"),
            _ => s.serialize_newtype_struct("N", &Key(19, v, self.2.clone())),
        }
    }
}
/// A map of which the last key is the given one.
struct Map<'a, K: ?Sized>(u64, &'a K);
impl<'a, K: Serialize + ?Sized> Serialize for Map<'a, K> {
    fn serialize<T: S>(&self, s: T) -> Result<T::Ok, T::Error> {
        match self.0 {
            0 => {
                let mut m = s.serialize_map(Some(1))?;
                m.serialize_entry(self.1, &7u8)?;
                m.end()
            }
            1 => {
                let mut m = s.serialize_map(Some(1))?;
                m.serialize_key(self.1)?;
                m.serialize_value("x")?;
                m.end()
            }
            _ => {
                let mut m = s.serialize_map(Some(2))?;
                m.serialize_entry("first", &1u8)?;
                m.serialize_entry(self.1, &2u8)?;
                m.end()
            }
        }
    }
}
#[derive(Serialize)]
struct Holder<T> {
    a: u8,
    m: T,
}
#[derive(Serialize)]
enum Choice<T> {
    A(T),
    B(u8, T),
    C { m: T },
}
fn refused<T: Serialize + ?Sized>(v: &T) {
    check!(enc(v) == Err(dlhn::ser::Error::UnsupportedKeyType), "a key that is no string is refused as such");
}
#[derive(Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord, Clone)]
struct NewS(String);
#[derive(Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord, Clone)]
#[serde(transparent)]
struct Clear(String);
#[derive(Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord, Clone)]
#[serde(into = "String", from = "String")]
struct Conv(String);
impl From<String> for Conv {
    fn from(s: String) -> Self {
        Conv(s)
    }
}
impl From<Conv> for String {
    fn from(s: Conv) -> Self {
        s.0
    }
}
#[derive(Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord, Clone)]
enum UnitE {
    A,
    B,
}
fn one<K: Ord + Serialize>(k: K) {
    let mut m = BTreeMap::new();
    m.insert(k, sym::u8());
    refused(&m)
}
/// String-like keys round-trip with the documented layout.
fn kept<K: Ord + Serialize + serde::de::DeserializeOwned + AsStr, V: M>(m: BTreeMap<K, V>) {
    let mut want = Vec::new();
    put_u64(m.len() as u64, &mut want);
    for (k, v) in &m {
        put_bytes(k.text().as_bytes(), &mut want);
        v.put(&mut want);
    }
    match enc(&m) {
        Ok(b) => {
            sym::obs_bytes(&b);
            check!(b == want, "a string-keyed map has the documented layout");
            match dec::<BTreeMap<K, V>>(&b) {
                (Ok(w), n) => {
                    check!(n == b.len(), "the map's bytes are consumed");
                    let mut same = w.len() == m.len();
                    for ((a, x), (b, y)) in w.iter().zip(&m) {
                        same &= a.text() == b.text() && x.same(y);
                    }
                    check!(same, "the map is decoded back");
                    reach!("map round trip");
                }
                _ => check!(false, "a map that was written is readable"),
            }
        }
        Err(_) => check!(false, "a string-keyed map is written"),
    }
}
trait AsStr {
    fn text(&self) -> &str;
}
impl AsStr for String {
    fn text(&self) -> &str {
        self
    }
}
impl AsStr for Box<str> {
    fn text(&self) -> &str {
        self
    }
}
impl AsStr for Cow<'static, str> {
    fn text(&self) -> &str {
        self
    }
}
impl AsStr for Clear {
    fn text(&self) -> &str {
        &self.0
    }
}
impl AsStr for Conv {
    fn text(&self) -> &str {
        &self.0
    }
}
fn map<K: Ord, V: M>(n: u64, len: usize, f: impl Fn(String) -> K) -> BTreeMap<K, V> {
    (0..sym::pick(n + 1)).map(|_| (f(sym::string(len)), V::gen())).collect()
}
/// What serializes is readable as the same type, whatever the key type.
fn honest<K: Ord + Serialize + serde::de::DeserializeOwned>(k: K) {
    let mut m = BTreeMap::new();
    if sym::flip() {
        m.insert(k, sym::u8());
    }
    match enc(&m) {
        Ok(b) => match dec::<BTreeMap<K, u8>>(&b) {
            (Ok(w), n) => {
                check!(w == m && n == b.len(), "a map that serializes decodes to itself");
                reach!("honest map");
            }
            _ => check!(false, "a map that serializes can be decoded"),
        },
        Err(e) => check!(e == dlhn::ser::Error::UnsupportedKeyType && !m.is_empty(), "a refused map names its key type"),
    }
}

#[derive(Deserialize, PartialEq)]
struct Unsized(BTreeMap<String, u8>);
impl Serialize for Unsized {
    fn serialize<T: S>(&self, s: T) -> Result<T::Ok, T::Error> {
        let mut m = s.serialize_map(None)?;
        for (k, v) in &self.0 {
            m.serialize_entry(k, v)?;
        }
        m.end()
    }
}
#[derive(Serialize, Deserialize, PartialEq)]
struct Flat {
    a: u8,
    #[serde(flatten)]
    rest: BTreeMap<String, u8>,
}
#[inline(never)]
fn unannounced<T: Serialize + DeserializeOwned + PartialEq>(v: T) {
    let fine = match enc(&v) {
        Ok(b) => dec::<T>(&b) == (Ok(v), b.len()),
        Err(_) => true,
    };
    check!(fine, "a map of unknown length is refused or decodes to itself");
}
entries! {
    /// Maps of many entries, and refusals that must not disturb what the same serializer writes next.
    //@ quick=255,256,300,5000,16384
    fn c18_count(p) {
        let x = sym::u8();
        kept((0..p).map(|i| (i.to_string(), x)).collect::<BTreeMap<String, u8>>())
    }
    //@ quick=0
    fn c18_after(p) {
        let k = Key(sym::pick(SHAPES), sym::u64(), sym::ascii(2));
        let good = BTreeMap::from([(sym::ascii(1), sym::u8()), ("kk".to_string(), 1)]);
        let want = enc(&good).unwrap_or_default();
        let mut out = Vec::new();
        let (a, b);
        {
            let mut s = dlhn::Serializer::new(&mut out);
            a = Map(sym::pick(3), &k).serialize(&mut s).is_err();
            b = good.serialize(&mut s).is_ok();
        }
        if a {
            check!(b && out.ends_with(&want) && !want.is_empty(), "a refusal leaves the serializer usable");
            reach!("map after a refusal");
        }
    }
    /// Maps written without announcing how many entries they have; `p`: where.
    //@ quick=0-5
    fn c18_unsized(p) {
        let k = sym::pick(4);
        let m: BTreeMap<String, u8> = (0..k).map(|i| (i.to_string(), sym::u8())).collect();
        match p {
            0 => unannounced(Unsized(m)),
            1 => unannounced(vec![Unsized(m), Unsized(BTreeMap::new())]),
            2 => unannounced((sym::u8(), Unsized(m), 9u8)),
            3 => unannounced(Some(Unsized(m))),
            4 => unannounced(Flat { a: sym::u8(), rest: m }),
            _ => unannounced(BTreeMap::from([("k".to_string(), Unsized(m))])),
        }
    }
    /// Every shape, at every place.
    //@ quick=0-8
    fn c18_refuse(p) {
        let k = Key(sym::pick(SHAPES), sym::u64(), sym::ascii(2));
        let m = Map(sym::pick(3), &k);
        match p {
            0 => refused(&m),
            1 => refused(&Holder { a: 1, m }),
            2 => refused(&Some(m)),
            3 => refused(&vec![m]),
            4 => refused(&Choice::A(m)),
            5 => refused(&Choice::B(2, m)),
            6 => refused(&Choice::C { m }),
            7 => refused(&(sym::u8(), m)),
            _ => {
                let mut o = BTreeMap::new();
                o.insert("outer", m);
                refused(&o)
            }
        }
    }
    /// Ordinary Rust key types.
    //@ quick=0
    fn c18_types(p) {
        match sym::pick(36) {
            0 => one(sym::boolean()),
            1 => one(sym::u8()),
            2 => one(sym::u16()),
            3 => one(sym::u32()),
            4 => one(sym::u64()),
            5 => one(sym::i8()),
            6 => one(sym::i16()),
            7 => one(sym::i32()),
            8 => one(sym::i64()),
            9 => one(sym::char()),
            10 => one(()),
            11 => one(if sym::flip() { Some(sym::ascii(1)) } else { None }),
            12 => one(sym::vec(2)),
            13 => one(ByteBuf::from(sym::vec(2))),
            14 => one((sym::ascii(1),)),
            15 => one((sym::u8(), sym::ascii(1))),
            16 => one([sym::u8(); 2]),
            17 => one(NewS(sym::ascii(2))),
            18 => one(if sym::flip() { UnitE::A } else { UnitE::B }),
            19 => one(dlhn::BigUint::from(num_bigint::BigUint::from(sym::u8()))),
            20 => one(dlhn::BigInt::from(num_bigint::BigInt::from(sym::i8()))),
            21 => one(dlhn::Date::from(time::Date::from_ordinal_date(2001, 1).unwrap())),
            22 => one(std::time::Duration::new(5, 6)),
            23 => one(std::num::NonZeroU8::new(3)),
            24 => one(IpAddr::V4(Ipv4Addr::from(sym::u32()))),
            25 => one(Ipv4Addr::from(sym::u32())),
            26 => one(Ipv6Addr::from(sym::arr::<16>())),
            27 => one(SocketAddr::from((sym::arr::<4>(), sym::u16()))),
            28 => one(IpAddr::V6(Ipv6Addr::from(sym::arr::<16>()))),
            29 => one(vec![sym::ascii(1)]),
            30 => one(Box::new(sym::u8())),
            31 => one(std::cmp::Reverse(sym::u8())),
            32 => one(Bytes::new(b"ab")),
            33 => one(std::num::Wrapping(sym::u8())),
            34 => one(BTreeMap::from([(sym::ascii(1), 1u8)])),
            _ => one(Ok::<String, u8>(sym::ascii(1))),
        }
        reach!("key types");
    }
    //@ quick=0-9
    fn c18_kept(p) {
        set_max(1);
        match p {
            0 => kept(map::<String, u8>(3, 1, |s| s)),
            1 => kept(map::<Box<str>, u8>(2, 1, |s| s.into_boxed_str())),
            2 => kept(map::<Cow<'static, str>, u8>(2, 1, |s| Cow::Owned(s))),
            3 => kept(map::<Clear, u8>(2, 1, Clear)),
            4 => kept(map::<Conv, u8>(2, 1, Conv)),
            5 => kept(map::<String, Option<u8>>(2, 2, |s| s)),
            6 => kept(map::<String, Vec<u8>>(2, 1, |s| s)),
            7 => kept(map::<String, BTreeMap<String, u8>>(1, 1, |s| s)),
            8 => kept(map::<String, i16>(1, 4, |s| s)),
            _ => kept(map::<String, E1>(1, 1, |s| s)),
        }
    }
    //@ quick=127,128,300,5000,16400,65537,1048579
    fn c18_long(p) {
        let mut m = BTreeMap::new();
        let mut s: String = (0..p).map(|i| (b'a' + (i % 26) as u8) as char).collect();
        m.insert(s.clone(), sym::u8());
        s.push('z');
        m.insert(s, sym::u8());
        kept(m);
        kept((0..130u8).map(|i| (i.to_string(), sym::u8())).collect::<BTreeMap<String, u8>>());
    }
    //@ quick=0-13
    fn c18_honest(p) {
        match p {
            0 => honest(sym::u8()),
            1 => honest(sym::char()),
            2 => honest(IpAddr::V4(Ipv4Addr::from(sym::u32()))),
            3 => honest(Ipv4Addr::from(sym::u32())),
            4 => honest(NewS(sym::ascii(1))),
            5 => honest(UnitE::B),
            6 => honest(()),
            7 => honest(if sym::flip() { Some(sym::ascii(1)) } else { None }),
            8 => honest(sym::vec(2)),
            9 => honest(Clear(sym::string(2))),
            10 => honest(SocketAddr::from((sym::arr::<4>(), sym::u16()))),
            11 => honest(dlhn::BigInt::from(num_bigint::BigInt::from(sym::i8()))),
            12 => honest((sym::ascii(1), sym::u8())),
            _ => honest(sym::boolean()),
        }
    }
}
