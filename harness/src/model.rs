//! The family of types the typed-interface properties are stated over.
//! For each type: an arbitrary value (`gen`), the documented encoding (`put`),
//! and a reference decoder (`parse`), none of which uses the code under test.
use crate::refm::*;
use crate::sym;
use crate::util::*;
use dlhn::{Body, SerializeHeader};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_bytes::ByteBuf;
use std::collections::{BTreeMap, BTreeSet};
use std::num::NonZeroU16;
use std::time::Duration;

static mut MAX: usize = 2;
/// Largest generated sequence, map and string length.
pub fn set_max(n: usize) {
    unsafe { MAX = n }
}
pub fn max() -> usize {
    unsafe { MAX }
}

pub trait M: Sized + Serialize + DeserializeOwned {
    /// What the reference decoder produces.
    type Mo;
    fn gen() -> Self;
    fn put(&self, out: &mut Vec<u8>);
    fn parse(r: &mut Rd) -> Option<Self::Mo>;
    fn agrees(&self, m: &Self::Mo) -> bool;
    fn same(&self, o: &Self) -> bool;
}

pub fn put_of<T: M>(v: &T) -> Vec<u8> {
    let mut o = Vec::new();
    v.put(&mut o);
    o
}

macro_rules! m_int {
    ($($t:ident $put:ident $get:ident)*) => {$(
        impl M for $t {
            type Mo = $t;
            fn gen() -> Self { sym::$t() }
            fn put(&self, out: &mut Vec<u8>) { $put(*self, out) }
            fn parse(r: &mut Rd) -> Option<$t> { r.$get() }
            fn agrees(&self, m: &$t) -> bool { *self == *m }
            fn same(&self, o: &Self) -> bool { *self == *o }
        }
    )*};
}
m_int!(u16 put_u16 u16 u32 put_u32 u32 u64 put_u64 u64 i16 put_i16 i16 i32 put_i32 i32 i64 put_i64 i64);

macro_rules! m_fixed {
    ($($t:ty, $n:literal, $gen:expr, $bits:expr, $from:expr;)*) => {$(
        impl M for $t {
            type Mo = u64;
            fn gen() -> Self { ($gen)() }
            fn put(&self, out: &mut Vec<u8>) {
                let b: u64 = ($bits)(*self);
                for i in 0..$n { out.push((b >> (8 * i)) as u8); }
            }
            fn parse(r: &mut Rd) -> Option<u64> { r.fixed($n) }
            fn agrees(&self, m: &u64) -> bool { ($bits)(*self) == *m }
            fn same(&self, o: &Self) -> bool { ($bits)(*self) == ($bits)(*o) }
        }
    )*};
}
m_fixed! {
    u8, 1, sym::u8, |x: u8| x as u64, 0;
    i8, 1, sym::i8, |x: i8| x as u8 as u64, 0;
    f32, 4, || f32::from_bits(sym::u32()), |x: f32| x.to_bits() as u64, 0;
    f64, 8, || f64::from_bits(sym::u64()), |x: f64| x.to_bits(), 0;
}

impl M for bool {
    type Mo = bool;
    fn gen() -> Self {
        sym::boolean()
    }
    fn put(&self, out: &mut Vec<u8>) {
        out.push(*self as u8)
    }
    fn parse(r: &mut Rd) -> Option<bool> {
        r.tag()
    }
    fn agrees(&self, m: &bool) -> bool {
        *self == *m
    }
    fn same(&self, o: &Self) -> bool {
        *self == *o
    }
}
impl M for () {
    type Mo = ();
    fn gen() -> Self {}
    fn put(&self, _: &mut Vec<u8>) {}
    fn parse(_: &mut Rd) -> Option<()> {
        Some(())
    }
    fn agrees(&self, _: &()) -> bool {
        true
    }
    fn same(&self, _: &Self) -> bool {
        true
    }
}
/// Code point of a well-formed UTF-8 text that is exactly one character.
pub fn one_char(b: &[u8]) -> Option<u32> {
    let n = b.len();
    if n == 0 {
        return None;
    }
    let c = b[0] as u32;
    let (want, mut v) = if c < 0x80 {
        (1, c)
    } else if c < 0xe0 {
        (2, c & 0x1f)
    } else if c < 0xf0 {
        (3, c & 0xf)
    } else {
        (4, c & 7)
    };
    if want != n {
        return None;
    }
    for x in &b[1..] {
        v = v << 6 | (*x as u32 & 0x3f);
    }
    Some(v)
}
impl M for char {
    type Mo = u32;
    fn gen() -> Self {
        sym::char()
    }
    fn put(&self, out: &mut Vec<u8>) {
        let c = *self as u32;
        let t = |s: u32| (0x80 | (c >> s & 0x3f)) as u8;
        if c < 0x80 {
            out.extend_from_slice(&[1, c as u8])
        } else if c < 0x800 {
            out.extend_from_slice(&[2, (0xc0 | c >> 6) as u8, t(0)])
        } else if c < 0x10000 {
            out.extend_from_slice(&[3, (0xe0 | c >> 12) as u8, t(6), t(0)])
        } else {
            out.extend_from_slice(&[4, (0xf0 | c >> 18) as u8, t(12), t(6), t(0)])
        }
    }
    fn parse(r: &mut Rd) -> Option<u32> {
        one_char(r.text()?)
    }
    fn agrees(&self, m: &u32) -> bool {
        *self as u32 == *m
    }
    fn same(&self, o: &Self) -> bool {
        *self == *o
    }
}
impl M for String {
    type Mo = Vec<u8>;
    fn gen() -> Self {
        sym::string(max())
    }
    fn put(&self, out: &mut Vec<u8>) {
        put_bytes(self.as_bytes(), out)
    }
    fn parse(r: &mut Rd) -> Option<Vec<u8>> {
        r.text().map(|b| b.to_vec())
    }
    fn agrees(&self, m: &Vec<u8>) -> bool {
        self.as_bytes() == &m[..]
    }
    fn same(&self, o: &Self) -> bool {
        self.as_bytes() == o.as_bytes()
    }
}
impl M for ByteBuf {
    type Mo = Vec<u8>;
    fn gen() -> Self {
        ByteBuf::from(sym::vec(max()))
    }
    fn put(&self, out: &mut Vec<u8>) {
        put_bytes(&self[..], out)
    }
    fn parse(r: &mut Rd) -> Option<Vec<u8>> {
        r.bytes().map(|b| b.to_vec())
    }
    fn agrees(&self, m: &Vec<u8>) -> bool {
        &self[..] == &m[..]
    }
    fn same(&self, o: &Self) -> bool {
        &self[..] == &o[..]
    }
}
impl<T: M> M for Option<T> {
    type Mo = Option<T::Mo>;
    fn gen() -> Self {
        if sym::flip() {
            Some(T::gen())
        } else {
            None
        }
    }
    fn put(&self, out: &mut Vec<u8>) {
        match self {
            None => out.push(0),
            Some(v) => {
                out.push(1);
                v.put(out)
            }
        }
    }
    fn parse(r: &mut Rd) -> Option<Self::Mo> {
        if r.tag()? {
            Some(Some(T::parse(r)?))
        } else {
            Some(None)
        }
    }
    fn agrees(&self, m: &Self::Mo) -> bool {
        match (self, m) {
            (None, None) => true,
            (Some(a), Some(b)) => a.agrees(b),
            _ => false,
        }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (None, None) => true,
            (Some(a), Some(b)) => a.same(b),
            _ => false,
        }
    }
}
impl<T: M> M for Box<T> {
    type Mo = T::Mo;
    fn gen() -> Self {
        Box::new(T::gen())
    }
    fn put(&self, out: &mut Vec<u8>) {
        (**self).put(out)
    }
    fn parse(r: &mut Rd) -> Option<Self::Mo> {
        T::parse(r)
    }
    fn agrees(&self, m: &Self::Mo) -> bool {
        (**self).agrees(m)
    }
    fn same(&self, o: &Self) -> bool {
        (**self).same(&**o)
    }
}
/// Sequences longer than this many elements are outside the explored bounds
/// (relevant for elements that occupy no bytes).
pub const SEQ_BOUND: u64 = 12;
pub fn count(r: &mut Rd) -> Option<u64> {
    r.u64()
}
impl<T: M> M for Vec<T> {
    type Mo = Vec<T::Mo>;
    fn gen() -> Self {
        let n = sym::pick(max() as u64 + 1);
        (0..n).map(|_| T::gen()).collect()
    }
    fn put(&self, out: &mut Vec<u8>) {
        put_u64(self.len() as u64, out);
        for v in self {
            v.put(out)
        }
    }
    fn parse(r: &mut Rd) -> Option<Self::Mo> {
        let n = r.u64()?;
        let mut o = Vec::new();
        let mut i = 0;
        while i < n {
            o.push(T::parse(r)?);
            i += 1;
        }
        Some(o)
    }
    fn agrees(&self, m: &Self::Mo) -> bool {
        self.len() == m.len() && self.iter().zip(m).all(|(a, b)| a.agrees(b))
    }
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a.same(b))
    }
}
impl<V: M> M for BTreeMap<String, V> {
    type Mo = Vec<(Vec<u8>, V::Mo)>;
    fn gen() -> Self {
        let n = sym::pick(max().min(3) as u64 + 1);
        (0..n).map(|_| (sym::string(max() - 1), V::gen())).collect()
    }
    fn put(&self, out: &mut Vec<u8>) {
        put_u64(self.len() as u64, out);
        for (k, v) in self {
            put_bytes(k.as_bytes(), out);
            v.put(out)
        }
    }
    fn parse(r: &mut Rd) -> Option<Self::Mo> {
        let n = r.u64()?;
        let mut o = Vec::new();
        let mut i = 0;
        while i < n {
            o.push((r.text()?.to_vec(), V::parse(r)?));
            i += 1;
        }
        Some(o)
    }
    /// Each key carries the last value written for it.
    fn agrees(&self, m: &Self::Mo) -> bool {
        let mut distinct = 0;
        for i in 0..m.len() {
            if m[i + 1..].iter().any(|x| x.0 == m[i].0) {
                continue;
            }
            distinct += 1;
            match self.iter().find(|(k, _)| k.as_bytes() == &m[i].0[..]) {
                Some((_, v)) => {
                    if !v.agrees(&m[i].1) {
                        return false;
                    }
                }
                None => return false,
            }
        }
        distinct == self.len()
    }
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len()
            && self
                .iter()
                .zip(o)
                .all(|((a, b), (c, d))| a.as_bytes() == c.as_bytes() && b.same(d))
    }
}
impl M for BTreeSet<u8> {
    type Mo = Vec<u8>;
    fn gen() -> Self {
        sym::vec(max().min(2)).into_iter().collect()
    }
    fn put(&self, out: &mut Vec<u8>) {
        put_u64(self.len() as u64, out);
        out.extend(self.iter());
    }
    fn parse(r: &mut Rd) -> Option<Vec<u8>> {
        r.bytes().map(|b| b.to_vec())
    }
    fn agrees(&self, m: &Vec<u8>) -> bool {
        let distinct = (0..m.len()).filter(|i| !m[i + 1..].contains(&m[*i])).count();
        self.len() == distinct && m.iter().all(|x| self.iter().any(|y| x == y))
    }
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a == b)
    }
}

macro_rules! m_tuple {
    ($(($($t:ident $i:tt)*))*) => {$(
        impl<$($t: M),*> M for ($($t,)*) {
            type Mo = ($($t::Mo,)*);
            fn gen() -> Self { ($($t::gen(),)*) }
            fn put(&self, out: &mut Vec<u8>) { $(self.$i.put(out);)* }
            fn parse(r: &mut Rd) -> Option<Self::Mo> { Some(($($t::parse(r)?,)*)) }
            fn agrees(&self, m: &Self::Mo) -> bool { true $(&& self.$i.agrees(&m.$i))* }
            fn same(&self, o: &Self) -> bool { true $(&& self.$i.same(&o.$i))* }
        }
    )*};
}
m_tuple!((A 0) (A 0 B 1) (A 0 B 1 C 2) (A 0 B 1 C 2 D 3) (A 0 B 1 C 2 D 3 E 4)
    (A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 K 10 L 11));

impl<T: M, const N: usize> M for [T; N]
where
    [T; N]: Serialize + DeserializeOwned,
{
    type Mo = Vec<T::Mo>;
    fn gen() -> Self {
        std::array::from_fn(|_| T::gen())
    }
    fn put(&self, out: &mut Vec<u8>) {
        for v in self {
            v.put(out)
        }
    }
    fn parse(r: &mut Rd) -> Option<Self::Mo> {
        let mut o = Vec::new();
        for _ in 0..N {
            o.push(T::parse(r)?);
        }
        Some(o)
    }
    fn agrees(&self, m: &Self::Mo) -> bool {
        self.iter().zip(m).all(|(a, b)| a.agrees(b))
    }
    fn same(&self, o: &Self) -> bool {
        self.iter().zip(o).all(|(a, b)| a.same(b))
    }
}

macro_rules! m_struct {
    ($($(#[$a:meta])* $n:ident { $($f:ident: $t:ty,)* })*) => {$(
        $(#[$a])*
        #[derive(Serialize, Deserialize)]
        pub struct $n { $(pub $f: $t),* }
        impl M for $n {
            type Mo = ($(<$t as M>::Mo,)*);
            fn gen() -> Self { $n { $($f: <$t as M>::gen()),* } }
            fn put(&self, out: &mut Vec<u8>) { let _ = &out; $(self.$f.put(out);)* }
            fn parse(r: &mut Rd) -> Option<Self::Mo> { let _ = &r; Some(($(<$t as M>::parse(r)?,)*)) }
            fn agrees(&self, m: &Self::Mo) -> bool { let ($($f,)*) = m; true $(&& self.$f.agrees($f))* }
            fn same(&self, o: &Self) -> bool { let _ = o; true $(&& self.$f.same(&o.$f))* }
        }
    )*};
}
macro_rules! m_tstruct {
    ($($(#[$a:meta])* $n:ident ( $($i:tt $f:ident: $t:ty,)* ))*) => {$(
        $(#[$a])*
        #[derive(Serialize, Deserialize)]
        pub struct $n ( $(pub $t),* );
        impl M for $n {
            type Mo = ($(<$t as M>::Mo,)*);
            fn gen() -> Self { $n ( $(<$t as M>::gen()),* ) }
            fn put(&self, out: &mut Vec<u8>) { $(self.$i.put(out);)* }
            fn parse(r: &mut Rd) -> Option<Self::Mo> { Some(($(<$t as M>::parse(r)?,)*)) }
            fn agrees(&self, m: &Self::Mo) -> bool { let ($($f,)*) = m; true $(&& self.$i.agrees($f))* }
            fn same(&self, o: &Self) -> bool { true $(&& self.$i.same(&o.$i))* }
        }
    )*};
}
/// Enums: variants are numbered in declaration order.
macro_rules! m_enum {
    ($($(#[$a:meta])* $n:ident $mo:ident {
        $($i:literal $v:ident $(($($tf:ident: $tt:ty),*))? $({$($sf:ident: $st:ty),*})?,)*
    })*) => {$(
        $(#[$a])*
        #[derive(Serialize, Deserialize)]
        pub enum $n { $($v $(($($tt),*))? $({$($sf: $st),*})?,)* }
        pub enum $mo { $($v $(($(<$tt as M>::Mo),*))? $({$($sf: <$st as M>::Mo),*})?,)* }
        impl M for $n {
            type Mo = $mo;
            fn gen() -> Self {
                const N: u64 = [$($i),*].len() as u64;
                match sym::pick(N) {
                    $($i => $n::$v $(($(<$tt as M>::gen()),*))? $({$($sf: <$st as M>::gen()),*})?,)*
                    _ => unreachable!(),
                }
            }
            fn put(&self, out: &mut Vec<u8>) {
                match self {
                    $($n::$v $(($($tf),*))? $({$($sf),*})? => {
                        put_u32($i, out);
                        $($($tf.put(out);)*)?
                        $($($sf.put(out);)*)?
                    })*
                }
            }
            fn parse(r: &mut Rd) -> Option<$mo> {
                match r.u32()? {
                    $($i => Some($mo::$v $(($(<$tt as M>::parse(r)?),*))? $({$($sf: <$st as M>::parse(r)?),*})?),)*
                    _ => None,
                }
            }
            #[allow(unreachable_patterns)]
            fn agrees(&self, m: &$mo) -> bool {
                match self {
                    $($n::$v $(($($tf),*))? $({$($sf),*})? => {
                        $($(let $tf = ($tf,);)*)?
                        $($(let $sf = ($sf,);)*)?
                        m_enum!(@cmp agrees, m, $mo, $v $(($($tf),*))? $({$($sf),*})?)
                    })*
                }
            }
            #[allow(unreachable_patterns)]
            fn same(&self, o: &Self) -> bool {
                match self {
                    $($n::$v $(($($tf),*))? $({$($sf),*})? => {
                        $($(let $tf = ($tf,);)*)?
                        $($(let $sf = ($sf,);)*)?
                        m_enum!(@cmp same, o, $n, $v $(($($tf),*))? $({$($sf),*})?)
                    })*
                }
            }
        }
    )*};
    (@cmp $m:ident, $o:ident, $e:ident, $v:ident $(($($tf:ident),*))? $({$($sf:ident),*})?) => {{
        $($(let $tf = $tf.0;)*)?
        $($(let $sf = $sf.0;)*)?
        let mine = ($($($tf,)*)? $($($sf,)*)?);
        match $o {
            $e::$v $(($($tf),*))? $({$($sf),*})? => {
                let _other = ($($($tf,)*)? $($($sf,)*)?);
                let ($($($tf,)*)? $($($sf,)*)?) = mine;
                let _ = ($($(&$tf,)*)? $($(&$sf,)*)?);
                m_enum!(@all $m, mine, _other, $($($tf)*)? $($($sf)*)?)
            }
            _ => false,
        }
    }};
    (@all $m:ident, $a:ident, $b:ident,) => { { let _ = (&$a, &$b); true } };
    (@all $m:ident, $a:ident, $b:ident, $x:ident) => { $a.0.$m($b.0) };
    (@all $m:ident, $a:ident, $b:ident, $x:ident $y:ident) => { $a.0.$m($b.0) && $a.1.$m($b.1) };
    (@all $m:ident, $a:ident, $b:ident, $x:ident $y:ident $z:ident) => { $a.0.$m($b.0) && $a.1.$m($b.1) && $a.2.$m($b.2) };
}

m_struct! {
    #[derive(SerializeHeader)]
    S1 { a: bool, b: u16, c: String, d: Option<i32>, }
    #[derive(SerializeHeader)]
    S2 { z: u8, inner: S3, a: Vec<S3>, }
    #[derive(SerializeHeader)]
    S3 { y: i16, x: Option<u8>, }
    #[derive(SerializeHeader)]
    Empty { }
    #[derive(SerializeHeader)]
    One { only: u32, }
    #[derive(SerializeHeader)]
    Wide { f0: u8, f1: u8, f2: i8, f3: bool, f4: u8, f5: f32, f6: u8, f7: i8, f8: (), f9: u8, }
    #[derive(SerializeHeader)]
    Blob { k: u8, data: ByteBuf, s: String, }
    Floats { f: f32, d: f64, c: char, }
    #[derive(SerializeHeader)]
    WithMap { m: BTreeMap<String, i16>, t: (u8, bool), }
}
m_tstruct! {
    #[derive(SerializeHeader)]
    T3 (0 a: u8, 1 b: i64, 2 c: Option<String>,)
    #[derive(SerializeHeader)]
    T2 (0 a: i32, 1 b: u32,)
}
m_enum! {
    #[derive(SerializeHeader)]
    E1 E1m { 0 A, 1 B(a: u16), 2 C(a: u8, b: i32), 3 D{x: u8, y: Option<bool>}, 4 G{v: String}, 5 H, }
    #[derive(SerializeHeader)]
    E2 E2m { 0 P(a: S3), 1 Q{e: E3, k: u8}, }
    #[derive(SerializeHeader)]
    E3 E3m { 0 X, 1 Y, 2 Z, }
}

/// Recursive types: a list and a tree, at most 3 deep when generated.
#[derive(Serialize, Deserialize)]
pub struct Node {
    pub v: u8,
    pub next: Option<Box<Node>>,
}
fn gen_node(d: u32) -> Node {
    Node { v: sym::u8(), next: if d > 0 && sym::flip() { Some(Box::new(gen_node(d - 1))) } else { None } }
}
impl M for Node {
    type Mo = Vec<u8>;
    fn gen() -> Self {
        gen_node(2)
    }
    fn put(&self, out: &mut Vec<u8>) {
        out.push(self.v);
        match &self.next {
            None => out.push(0),
            Some(n) => {
                out.push(1);
                n.put(out)
            }
        }
    }
    fn parse(r: &mut Rd) -> Option<Vec<u8>> {
        let mut o = vec![r.byte()?];
        while r.tag()? {
            o.push(r.byte()?);
        }
        Some(o)
    }
    fn agrees(&self, m: &Vec<u8>) -> bool {
        let mut n = self;
        let mut i = 0;
        loop {
            if i >= m.len() || m[i] != n.v {
                return false;
            }
            i += 1;
            match &n.next {
                None => return i == m.len(),
                Some(x) => n = x,
            }
        }
    }
    fn same(&self, o: &Self) -> bool {
        self.v == o.v
            && match (&self.next, &o.next) {
                (None, None) => true,
                (Some(a), Some(b)) => a.same(b),
                _ => false,
            }
    }
}
#[derive(Serialize, Deserialize)]
pub enum Rec {
    Leaf(u8),
    Pair(Box<Rec>, Box<Rec>),
}
fn gen_rec(d: u32) -> Rec {
    if d > 0 && sym::flip() {
        Rec::Pair(Box::new(gen_rec(d - 1)), Box::new(gen_rec(d - 1)))
    } else {
        Rec::Leaf(sym::u8())
    }
}
fn flat(r: &Rec, o: &mut Vec<Option<u8>>) {
    match r {
        Rec::Leaf(v) => o.push(Some(*v)),
        Rec::Pair(a, b) => {
            o.push(None);
            flat(a, o);
            flat(b, o)
        }
    }
}
impl M for Rec {
    /// Preorder; `None` is a pair.
    type Mo = Vec<Option<u8>>;
    fn gen() -> Self {
        gen_rec(2)
    }
    fn put(&self, out: &mut Vec<u8>) {
        match self {
            Rec::Leaf(v) => {
                put_u32(0, out);
                out.push(*v)
            }
            Rec::Pair(a, b) => {
                put_u32(1, out);
                a.put(out);
                b.put(out)
            }
        }
    }
    fn parse(r: &mut Rd) -> Option<Self::Mo> {
        let mut o = Vec::new();
        let mut open = 1;
        while open > 0 {
            match r.u32()? {
                0 => {
                    o.push(Some(r.byte()?));
                    open -= 1
                }
                1 => {
                    o.push(None);
                    open += 1
                }
                _ => return None,
            }
        }
        Some(o)
    }
    fn agrees(&self, m: &Self::Mo) -> bool {
        let mut o = Vec::new();
        flat(self, &mut o);
        o == *m
    }
    fn same(&self, o: &Self) -> bool {
        let mut a = Vec::new();
        flat(o, &mut a);
        self.agrees(&a)
    }
}

/// Newtype and unit structs occupy exactly the bytes of their content.
#[derive(Serialize, Deserialize)]
pub struct New(pub u32);
impl M for New {
    type Mo = u32;
    fn gen() -> Self {
        New(u32::gen())
    }
    fn put(&self, out: &mut Vec<u8>) {
        self.0.put(out)
    }
    fn parse(r: &mut Rd) -> Option<u32> {
        u32::parse(r)
    }
    fn agrees(&self, m: &u32) -> bool {
        self.0 == *m
    }
    fn same(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
#[derive(Serialize, Deserialize)]
pub struct UnitS;
impl M for UnitS {
    type Mo = ();
    fn gen() -> Self {
        UnitS
    }
    fn put(&self, _: &mut Vec<u8>) {}
    fn parse(_: &mut Rd) -> Option<()> {
        Some(())
    }
    fn agrees(&self, _: &()) -> bool {
        true
    }
    fn same(&self, _: &Self) -> bool {
        true
    }
}
impl M for Result<u8, i16> {
    type Mo = Result<u8, i16>;
    fn gen() -> Self {
        if sym::flip() {
            Ok(sym::u8())
        } else {
            Err(sym::i16())
        }
    }
    fn put(&self, out: &mut Vec<u8>) {
        match self {
            Ok(v) => {
                put_u32(0, out);
                out.push(*v)
            }
            Err(v) => {
                put_u32(1, out);
                put_i16(*v, out)
            }
        }
    }
    fn parse(r: &mut Rd) -> Option<Self> {
        match r.u32()? {
            0 => Some(Ok(r.byte()?)),
            1 => Some(Err(r.i16()?)),
            _ => None,
        }
    }
    fn agrees(&self, m: &Self) -> bool {
        self == m
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
impl M for NonZeroU16 {
    type Mo = u16;
    fn gen() -> Self {
        let v = sym::u16();
        sym::assume(v != 0);
        NonZeroU16::new(v).unwrap()
    }
    fn put(&self, out: &mut Vec<u8>) {
        put_u16(self.get(), out)
    }
    fn parse(r: &mut Rd) -> Option<u16> {
        r.u16().filter(|v| *v != 0)
    }
    fn agrees(&self, m: &u16) -> bool {
        self.get() == *m
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
impl M for Duration {
    type Mo = (u64, u32);
    fn gen() -> Self {
        let (s, n) = (sym::u64(), sym::u32());
        sym::assume(n < 1_000_000_000);
        Duration::new(s, n)
    }
    fn put(&self, out: &mut Vec<u8>) {
        put_u64(self.as_secs(), out);
        put_u32(self.subsec_nanos(), out)
    }
    fn parse(r: &mut Rd) -> Option<(u64, u32)> {
        let (s, n) = (r.u64()?, r.u32()?);
        // serde normalizes the nanoseconds and refuses what does not fit
        let s = s.checked_add((n / 1_000_000_000) as u64)?;
        Some((s, n % 1_000_000_000))
    }
    fn agrees(&self, m: &(u64, u32)) -> bool {
        self.as_secs() == m.0 && self.subsec_nanos() == m.1
    }
    fn same(&self, o: &Self) -> bool {
        self.as_secs() == o.as_secs() && self.subsec_nanos() == o.subsec_nanos()
    }
}

// ---- the library's wrapper types: stored parts, no access but the encoding ----

fn same_bytes<T: Serialize>(v: &T, want: &[u8]) -> bool {
    match enc(v) {
        Ok(b) => b == want,
        Err(_) => false,
    }
}
/// Shortest little-endian two's complement, empty for zero.
pub fn min_signed(v: i64) -> Vec<u8> {
    let mut o = Vec::new();
    if v == 0 {
        return o;
    }
    let mut n = 1;
    while n < 8 && !(v >= -(1i64 << (8 * n - 1)) && v < 1i64 << (8 * n - 1)) {
        n += 1;
    }
    for i in 0..n {
        o.push((v >> (8 * i)) as u8);
    }
    o
}
/// Shortest little-endian magnitude, empty for zero.
pub fn min_unsigned(v: u64) -> Vec<u8> {
    let mut o = Vec::new();
    let mut v = v;
    while v != 0 {
        o.push(v as u8);
        v >>= 8;
    }
    o
}
macro_rules! m_big {
    ($t:ty, $gen:expr) => {
        impl M for $t {
            type Mo = Vec<u8>;
            fn gen() -> Self {
                ($gen)()
            }
            fn put(&self, out: &mut Vec<u8>) {
                out.extend(enc(self).unwrap())
            }
            fn parse(r: &mut Rd) -> Option<Vec<u8>> {
                r.bytes().map(|b| {
                    let mut o = Vec::new();
                    put_bytes(b, &mut o);
                    o
                })
            }
            fn agrees(&self, m: &Vec<u8>) -> bool {
                same_bytes(self, m)
            }
            fn same(&self, o: &Self) -> bool {
                self == o
            }
        }
    };
}
m_big!(dlhn::BigUint, || dlhn::BigUint::from(num_bigint::BigUint::from(sym::u16())));
m_big!(dlhn::BigInt, || dlhn::BigInt::from(num_bigint::BigInt::from(sym::i16())));
impl M for dlhn::BigDecimal {
    type Mo = Vec<u8>;
    fn gen() -> Self {
        // digits that need no normalization; C05 covers the others
        let d = [0i32, 1, -1, 127, 129, -32769][sym::pick(6) as usize];
        dlhn::BigDecimal::from(bigdecimal::BigDecimal::new(num_bigint::BigInt::from(d), sym::i16() as i64))
    }
    fn put(&self, out: &mut Vec<u8>) {
        out.extend(enc(self).unwrap())
    }
    fn parse(r: &mut Rd) -> Option<Vec<u8>> {
        let b = r.bytes()?;
        let mut o = Vec::new();
        put_bytes(b, &mut o);
        if !b.is_empty() {
            put_i64(r.i64()?, &mut o)
        }
        Some(o)
    }
    fn agrees(&self, m: &Vec<u8>) -> bool {
        same_bytes(self, m)
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
/// Any date of the years 1900-2155, all ordinals the year has.
pub fn any_date() -> time::Date {
    let y = 1900 + sym::u8() as i32;
    let o = sym::u16();
    sym::assume(o >= 1 && o <= 365);
    let o = if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) && o >= 60 { o + 1 } else { o };
    match time::Date::from_ordinal_date(y, o) {
        Ok(d) => d,
        Err(_) => {
            sym::assume(false);
            loop {}
        }
    }
}
impl M for dlhn::Date {
    type Mo = (i32, u16);
    fn gen() -> Self {
        dlhn::Date::from(any_date())
    }
    fn put(&self, out: &mut Vec<u8>) {
        out.extend(enc(self).unwrap())
    }
    fn parse(r: &mut Rd) -> Option<(i32, u16)> {
        let (y, o) = (r.i32()?, r.u16()?);
        // the stored year and ordinal must exist
        y.checked_add(2000)?;
        o.checked_add(1)?;
        Some((y, o))
    }
    fn agrees(&self, m: &(i32, u16)) -> bool {
        let mut o = Vec::new();
        put_i32(m.0, &mut o);
        put_u16(m.1, &mut o);
        same_bytes(self, &o)
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
/// Instants within the first 256 seconds of a few interesting minutes.
pub fn any_instant() -> time::OffsetDateTime {
    let base = [0i64, -200, 951782300, -62135596800][sym::pick(4) as usize];
    let n = sym::u32();
    sym::assume(n < 1_000_000_000);
    let d = match time::OffsetDateTime::from_unix_timestamp(base + sym::u8() as i64) {
        Ok(d) => d,
        Err(_) => {
            sym::assume(false);
            loop {}
        }
    };
    match d.replace_nanosecond(n) {
        Ok(d) => d,
        Err(_) => {
            sym::assume(false);
            loop {}
        }
    }
}
impl M for dlhn::DateTime {
    type Mo = (i64, u32);
    fn gen() -> Self {
        dlhn::DateTime::from(any_instant())
    }
    fn put(&self, out: &mut Vec<u8>) {
        out.extend(enc(self).unwrap())
    }
    fn parse(r: &mut Rd) -> Option<(i64, u32)> {
        Some((r.i64()?, r.u32()?))
    }
    fn agrees(&self, m: &(i64, u32)) -> bool {
        let mut o = Vec::new();
        put_i64(m.0, &mut o);
        put_u32(m.1, &mut o);
        same_bytes(self, &o)
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}

/// Applies a generic function to the type with number `p`.
#[macro_export]
macro_rules! with_type {
    ($p:expr, $f:ident) => {
        $crate::with_type!(@ $p, $f,
            0 bool, 1 u8, 2 u16, 3 u32, 4 u64, 5 i8, 6 i16, 7 i32, 8 i64, 9 f32, 10 f64, 11 char, 12 (),
            13 String, 14 serde_bytes::ByteBuf, 15 Option<u16>, 16 Option<Option<bool>>, 17 Option<String>,
            18 Vec<u16>, 19 Vec<Option<bool>>, 20 Vec<Vec<u8>>, 21 Vec<String>, 22 (u8,), 23 (u16, i32),
            24 (bool, u64, i8, char), 25 [u16; 3], 26 [(u8, bool); 2], 27 Option<Vec<u8>>,
            28 std::collections::BTreeMap<String, u8>, 29 std::collections::BTreeMap<String, Option<u16>>, 30 std::collections::BTreeSet<u8>, 31 Box<i16>,
            32 S1, 33 S2, 34 S3, 35 Empty, 36 One, 37 Wide, 38 Blob, 39 Node, 40 Floats, 41 WithMap,
            42 T3, 43 T2, 44 New, 45 UnitS, 46 E1, 47 E2, 48 E3, 49 Rec, 50 Vec<E1>, 51 Option<E1>,
            52 std::collections::BTreeMap<String, E3>, 53 Result<u8, i16>, 54 std::num::NonZeroU16, 55 std::time::Duration,
            56 (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, i8), 57 (E3, S3, (), Vec<u8>, bool),
            58 dlhn::BigUint, 59 dlhn::BigInt, 60 dlhn::BigDecimal, 61 dlhn::Date, 62 dlhn::DateTime,
            63 Vec<dlhn::BigInt>, 64 (dlhn::BigDecimal, u8), 65 Option<dlhn::Date>)
    };
    (@ $p:expr, $f:ident, $($i:literal $t:ty),*) => {{
        // parameters from 100 on select larger values
        $crate::model::set_max(2 + ($p / 100) as usize);
        match $p % 100 { $($i => $f::<$t>(),)* _ => unreachable!() }
    }};
}
pub const LAST_TYPE: u64 = 65;
