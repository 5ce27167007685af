//! C04: composite values round-trip with the documented layout.
//! bound: sequences of at most 2 elements, maps of at most 2 entries with keys of at most 1 byte,
//!   strings of at most 2 bytes, recursive types to depth 3; every leaf ranges over its full type.
//!   Variants of each kind with every 32-bit index; containers of the listed lengths up to 70000.
//!   Sequences of 1 MiB + 3 bytes and 270000 numbers, maps of 20000 entries. Derived enums of 140 variants, derived structs of 127, 128 and 300 fields; recursive values of the listed depths up to 1100.
use crate::model::*;
use crate::refm::*;
use crate::sym;
use crate::util::*;
use crate::wide::{K140, W127, W128, W300};
use crate::with_type;
use crate::anyenum::Any;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_bytes::ByteBuf;
use std::collections::{BTreeMap, BTreeSet};
use std::num::NonZeroU16;
use std::time::Duration;

#[inline(never)]
fn rt<T: M>() {
    let v = T::gen();
    let want = put_of(&v);
    match enc(&v) {
        Err(_) => check!(false, "serializing succeeds"),
        Ok(b) => {
            sym::obs_bytes(&b);
            check!(b == want, "layout is the documented one");
            let (w, used) = dec::<T>(&b);
            match w {
                Err(_) => check!(false, "decoding what was serialized succeeds"),
                Ok(w) => {
                    check!(w.same(&v), "value survives the round trip");
                    check!(used == b.len(), "every byte is consumed");
                    reach!("round trip done");
                }
            }
        }
    }
}

#[derive(Serialize, Deserialize, PartialEq)]
struct Aliased {
    #[serde(alias = "other")]
    a: u8,
    b: u8,
}
/// `collect_seq` over an iterator that does not know its length.
#[derive(Deserialize, PartialEq)]
struct Unsized(Vec<u8>);
impl Serialize for Unsized {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_seq(self.0.iter().filter(|x| **x != 0))
    }
}
/// Containers of more elements than one byte, or two, can count.
#[inline(never)]
fn many<T: Serialize + DeserializeOwned + PartialEq>(v: &T, want: Vec<u8>) {
    match enc(v) {
        Err(_) => check!(false, "serializing a long container succeeds"),
        Ok(b) => {
            check!(b.len() == want.len() && b == want, "layout of a long container is the documented one");
            let (w, used) = dec::<T>(&b);
            match w {
                Err(_) => check!(false, "decoding a long container succeeds"),
                Ok(w) => {
                    check!(w == *v, "a long container survives the round trip");
                    check!(used == b.len(), "every byte of a long container is consumed");
                    reach!("long container done");
                }
            }
        }
    }
}
#[inline(never)]
fn deep<T: M>(v: &T, want: Vec<u8>) {
    match enc(v) {
        Err(_) => check!(false, "serializing a deep value succeeds"),
        Ok(b) => {
            check!(b.len() == want.len() && b == want, "layout of a deep value is the documented one");
            let (w, used) = dec::<T>(&b);
            match w {
                Err(_) => check!(false, "decoding a deep value succeeds"),
                Ok(w) => {
                    check!(w.same(v), "a deep value survives the round trip");
                    check!(used == b.len(), "every byte of a deep value is consumed");
                    reach!("deep value done");
                }
            }
        }
    }
}
/// Field by field, in order, with no count in front.
#[inline(never)]
fn wide<T: Serialize + DeserializeOwned>(n: usize, of: fn(&mut dyn FnMut() -> u8) -> T) {
    let b = sym::vec_of(n);
    let mut i = 0;
    let v = of(&mut || {
        i += 1;
        b[i - 1]
    });
    let mut want = b.clone();
    match enc(&v) {
        Err(_) => check!(false, "serializing a wide struct succeeds"),
        Ok(e) => check!(e == want, "a wide struct is its fields in order"),
    }
    want.push(7);
    match dec::<(T, u8)>(&want) {
        (Ok((w, x)), used) => {
            check!(enc(&w).ok() == Some(b), "a wide struct survives the round trip");
            check!(x == 7 && used == n + 1, "a wide struct consumes its bytes");
            reach!("wide struct done");
        }
        _ => check!(false, "decoding a wide struct succeeds"),
    }
    check!(dec::<(T, u8)>(&want[..n]).0.is_err(), "a wide struct consumes all its bytes");
}
fn key(i: usize) -> String {
    // ascending, three letters each
    String::from_utf8(vec![b'a' + (i / 676) as u8, b'a' + (i / 26 % 26) as u8, b'a' + (i % 26) as u8]).unwrap_or_default()
}

entries! {
    //@ quick=0-65,100-165 thorough=0-65,100-165,200-265
    fn c04_rt(p) { with_type!(p, rt) }
    /// Variants of the four kinds at every index; `p` is the kind.
    //@ quick=0-3
    fn c04_variant(p) {
        let kind = p as u8;
        let v = Any { kind, index: sym::u32(), a: if kind > 0 { sym::u16() } else { 0 }, b: kind > 1 && sym::boolean() };
        let mut want = Vec::new();
        put_u32(v.index, &mut want);
        if kind > 0 { put_u16(v.a, &mut want) }
        if kind > 1 { want.push(v.b as u8) }
        // something after the value
        match enc(&(&v, 77u8)) {
            Err(_) => check!(false, "serializing a variant succeeds"),
            Ok(b) => {
                want.push(77);
                check!(b.len() == want.len() && b == want, "a variant is its index and its fields");
                let mut rest = &b[..];
                let mut d = dlhn::Deserializer::new(&mut rest);
                match Any::read(kind, &mut d) {
                    Err(_) => check!(false, "decoding a variant succeeds"),
                    Ok(w) => {
                        check!(w == v, "a variant survives the round trip");
                        check!(rest.len() == 1, "a variant consumes its bytes");
                        reach!("variant done");
                    }
                }
            }
        }
    }
    /// Derived enums with more variants than one byte of index can tell apart.
    //@ quick=0
    fn c04_wide_enum(p) {
        let i = sym::pick(140);
        let v = K140::of(i as u32, sym::u16(), sym::boolean());
        let mut want = Vec::new();
        put_u32(i as u32, &mut want);
        if let Some(a) = v.first() { put_u16(a, &mut want) }
        if let Some(b) = v.second() { want.push(b as u8) }
        many(&v, want)
    }
    /// Structs of 127, 128 and 300 fields, alone and inside other values.
    //@ quick=0-2
    fn c04_wide_struct(p) {
        match p {
            0 => wide::<W127>(127, |g| W127::of(g)),
            1 => wide::<W128>(128, |g| W128::of(g)),
            _ => wide::<W300>(300, |g| W300::of(g)),
        }
    }
    /// Long sequences, sets and maps.
    //@ quick=0-12
    fn c04_many(p) {
        let x = sym::u8();
        let n = [128, 300, 16384, 16500, 65536, 70000][(p % 6) as usize];
        let mut want = Vec::new();
        match p {
            0 | 1 => {
                let mut v = vec![7u8; n];
                v[n - 1] = x;
                put_u64(n as u64, &mut want);
                want.extend_from_slice(&v);
                many(&v, want)
            }
            2..=5 => {
                put_u64(n as u64, &mut want);
                many(&vec![(); n], want)
            }
            10 => {
                let n = (1 << 20) + 3;
                let mut v = vec![7u8; n];
                v[n - 1] = x;
                v[n / 2] = !x;
                put_u64(n as u64, &mut want);
                want.extend_from_slice(&v);
                many(&v, want)
            }
            11 => {
                let n = 270_000;
                let mut v = vec![7u16; n];
                v[n - 1] = x as u16;
                v[n / 2] = 300 + x as u16;
                put_u64(n as u64, &mut want);
                for y in &v {
                    put_u16(*y, &mut want);
                }
                many(&v, want)
            }
            12 => {
                let mut m = BTreeMap::new();
                put_u64(20000, &mut want);
                for i in 0..20000 {
                    let k = format!("{:05}", i);
                    let y = if i == 19999 { x } else { i as u8 };
                    put_bytes(k.as_bytes(), &mut want);
                    want.push(y);
                    m.insert(k, y);
                }
                many(&m, want)
            }
            6 | 7 => {
                let mut m = BTreeMap::new();
                put_u64(n as u64, &mut want);
                for i in 0..n {
                    let y = if i == n - 1 { x } else { i as u8 };
                    put_bytes(key(i).as_bytes(), &mut want);
                    want.push(y);
                    m.insert(key(i), y);
                }
                many(&m, want)
            }
            8 => {
                let mut v: Vec<Option<Vec<u8>>> = vec![None; 300];
                v[299] = Some(vec![x; 200]);
                put_u64(300, &mut want);
                want.resize(want.len() + 299, 0);
                want.push(1);
                put_u64(200, &mut want);
                want.resize(want.len() + 200, x);
                many(&v, want)
            }
            _ => {
                // one level inside another
                let v: Vec<(Vec<()>, u8)> = vec![(vec![(); 16384], x), (vec![(); 200], !x)];
                put_u64(2, &mut want);
                put_u64(16384, &mut want);
                want.push(x);
                put_u64(200, &mut want);
                want.push(!x);
                many(&v, want)
            }
        }
    }
    /// Known finding: a field alias.
    //@ quick=0
    fn c04_kf_alias(p) {
        let v = Aliased { a: sym::u8(), b: sym::u8() };
        match enc(&v) {
            Err(_) => check!(false, "a struct with an alias is written"),
            Ok(b) => check!(dec::<Aliased>(&b).0.ok().map_or(false, |w| w == v), "kf: a struct with an alias is read back"),
        }
    }
    /// Known finding: a sequence of unknown length.
    //@ quick=0
    fn c04_kf_unsized(p) {
        let v = Unsized(vec![1 + sym::u8() % 100; 2]);
        if let Ok(b) = enc(&v) {
            check!(dec::<Unsized>(&b) == (Ok(v), b.len()), "kf: a sequence of unknown length is read back or refused");
        }
    }
    /// Deep values of recursive types; `p` is the depth.
    //@ quick=10,64,128,129,300,1100
    fn c04_deep(p) {
        let x = sym::u8();
        let mut l = Node { v: x, next: None };
        let mut t = Rec::Leaf(x);
        let mut want_l = vec![x, 0];
        let mut want_t = Vec::new();
        put_u32(0, &mut want_t);
        want_t.push(x);
        for i in 0..p {
            l = Node { v: i as u8, next: Some(Box::new(l)) };
            want_l.splice(0..0, [i as u8, 1]);
            t = Rec::Pair(Box::new(t), Box::new(Rec::Leaf(i as u8)));
            want_t.insert(0, 1);
            put_u32(0, &mut want_t);
            want_t.push(i as u8);
        }
        deep(&l, want_l);
        deep(&t, want_t);
    }
    /// Every option of a tower of them, and sequences in sequences.
    //@ quick=0
    fn c04_towers(p) {
        type O = Option<Option<Option<Option<Option<Option<u8>>>>>>;
        let k = sym::pick(7) as usize;
        let x = sym::u8();
        let v: O = match k {
            0 => None,
            1 => Some(None),
            2 => Some(Some(None)),
            3 => Some(Some(Some(None))),
            4 => Some(Some(Some(Some(None)))),
            5 => Some(Some(Some(Some(Some(None))))),
            _ => Some(Some(Some(Some(Some(Some(x)))))),
        };
        let mut want = vec![1; k];
        want.push(if k == 6 { x } else { 0 });
        many(&v, want);
        let v: Vec<Vec<Vec<Vec<Vec<u8>>>>> = vec![vec![], vec![vec![vec![vec![], vec![x; k]]]], vec![vec![], vec![vec![]]]];
        let mut want = vec![3, 0, 1, 1, 2, 0, k as u8];
        want.extend(vec![x; k]);
        want.extend([2, 0, 1, 0]);
        many(&v, want)
    }
}
