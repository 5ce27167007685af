//! C16: serialization delivers every byte or reports the write error.
//! bound: every type of C04 (contents as there, at most 1 element per sequence), dynamic bodies under every leaf
//!   and one nesting level over every leaf, headers of up to 4 bytes, the headers of built-in and derived types;
//!   a writer that splits the first 64 bytes at any subset of positions, that takes one byte at a time and
//!   interrupts any 2 of the first 250 calls, or that fails once at any position (error or nothing accepted);
//!   strings, byte strings and sequences of up to 8193 bytes with single stops and failures around 0, 128, 4096 and the end.
//!   17 of the large shapes of hb.rs; 36 kinds of error at any position of encodings of 15 types, of headers and of bodies; 300 failures in a row.
use crate::hb::*;
use crate::model::*;
use crate::refm::*;
use crate::sym;
use crate::util::*;
use crate::with_type;
use dlhn::{Body, Header, SerializeHeader, Serializer};
use serde::{Deserialize, Serialize};
use serde_bytes::{ByteBuf, Bytes};
use std::collections::{BTreeMap, HashMap};
use std::io::{Error, ErrorKind, Result as Io, Write};

struct Tight {
    out: Vec<u8>,
    calls: u8,
    most: usize,
    /// bit i: a call never accepts past position i
    stops: u64,
    interrupt: [u8; 2],
    /// fails once at this position: 0 with an error, 1 by accepting nothing
    fail: Option<(usize, u64)>,
    /// a further position where a call stops
    at: usize,
    failed: bool,
}
fn tight() -> Tight {
    Tight { out: Vec::new(), calls: 0, most: usize::MAX, stops: 0, interrupt: [255; 2], fail: None, at: 0, failed: false }
}
impl Write for Tight {
    fn write(&mut self, buf: &[u8]) -> Io<usize> {
        if self.calls < 250 {
            let c = self.calls;
            self.calls += 1;
            if sym::fork((self.interrupt[0] == c) | (self.interrupt[1] == c)) {
                return Err(Error::from(ErrorKind::Interrupted));
            }
        }
        let pos = self.out.len();
        let mut n = buf.len().min(self.most);
        if let Some((p, k)) = self.fail {
            if !self.failed && n > 0 && sym::fork(p == pos) {
                self.failed = true;
                return match k {
                    0 => Err(Error::from(ErrorKind::Other)),
                    1 => Ok(0),
                    _ => Err(Error::from(ErrorKind::BrokenPipe)),
                };
            }
        }
        if self.at > pos {
            n = n.min(self.at - pos);
        }
        for i in 1..n {
            let p = pos + i;
            if p >= 64 {
                break;
            }
            if sym::fork(self.stops >> p & 1 == 1) || self.fail.map_or(false, |(f, _)| !self.failed && sym::fork(f == p)) {
                n = i;
                break;
            }
        }
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> Io<()> {
        Ok(())
    }
}

/// Something that is written.
trait W {
    fn w<X: Write>(&self, x: &mut X) -> bool;
}
struct V<'a, T: ?Sized>(&'a T);
impl<'a, T: Serialize + ?Sized> W for V<'a, T> {
    fn w<X: Write>(&self, x: &mut X) -> bool {
        self.0.serialize(&mut Serializer::new(x)).is_ok()
    }
}
impl W for Header {
    fn w<X: Write>(&self, x: &mut X) -> bool {
        self.serialize(x).is_ok()
    }
}
struct HeaderOf<T: ?Sized>(std::marker::PhantomData<T>);
impl<T: SerializeHeader + ?Sized> W for HeaderOf<T> {
    fn w<X: Write>(&self, x: &mut X) -> bool {
        T::serialize_header(x).is_ok()
    }
}
fn head<T: SerializeHeader + ?Sized>() {
    all(&HeaderOf::<T>(std::marker::PhantomData))
}

fn whole<D: W>(d: &D) -> Vec<u8> {
    let mut o = Vec::new();
    check!(d.w(&mut o), "writing to memory succeeds");
    o
}
fn judge<D: W>(d: &D, want: &[u8], mut t: Tight) {
    let ok = d.w(&mut t);
    if ok {
        check!(!t.failed, "a write failure is never swallowed");
        check!(t.out == want, "success means the complete encoding was written");
        reach!("written");
    } else {
        check!(t.failed, "without a failing write there is no error");
        check!(want.starts_with(&t.out), "on an error a prefix was written");
        reach!("write error reported");
    }
}
#[inline(never)]
fn all<D: W>(d: &D) {
    let want = whole(d);
    sym::obs_bytes(&want);
    let mut t = tight();
    match sym::pick(5) {
        0 => t.stops = sym::u64(),
        1 => {
            t.most = 1;
            t.interrupt = sym::arr();
        }
        k => {
            let p = sym::u16() as usize;
            sym::assume(p < 64);
            t.fail = Some((p, k - 2));
        }
    }
    judge(d, &want, t)
}
#[inline(never)]
fn typed<T: M>() {
    set_max(1);
    let v = T::gen();
    all(&V(&v))
}
fn body(h: &Header) {
    if let Some(b) = gen_body(h) {
        all(&V(&b))
    }
}
/// Accepts `at` bytes and then fails once.
struct Broken {
    out: Vec<u8>,
    at: usize,
    e: Option<Error>,
}
impl Write for Broken {
    fn write(&mut self, buf: &[u8]) -> Io<usize> {
        let mut n = buf.len();
        if self.e.is_some() && n > 0 {
            if self.out.len() == self.at {
                return Err(self.e.take().unwrap());
            }
            n = n.min(self.at - self.out.len());
        }
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> Io<()> {
        Ok(())
    }
}
const KINDS: [ErrorKind; 30] = [
    ErrorKind::NotFound, ErrorKind::PermissionDenied, ErrorKind::ConnectionRefused, ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted, ErrorKind::NotConnected, ErrorKind::AddrInUse, ErrorKind::AddrNotAvailable,
    ErrorKind::BrokenPipe, ErrorKind::AlreadyExists, ErrorKind::WouldBlock, ErrorKind::InvalidInput,
    ErrorKind::InvalidData, ErrorKind::TimedOut, ErrorKind::WriteZero, ErrorKind::Unsupported,
    ErrorKind::UnexpectedEof, ErrorKind::OutOfMemory, ErrorKind::Other, ErrorKind::HostUnreachable,
    ErrorKind::NetworkUnreachable, ErrorKind::NetworkDown, ErrorKind::NotADirectory, ErrorKind::IsADirectory,
    ErrorKind::StorageFull, ErrorKind::NotSeekable, ErrorKind::FileTooLarge, ErrorKind::ResourceBusy,
    ErrorKind::StaleNetworkFileHandle, ErrorKind::Deadlock,
];
fn broken<D: W>(d: &D) {
    let want = whole(d);
    sym::obs_bytes(&want);
    if want.is_empty() {
        return;
    }
    let k = sym::pick(KINDS.len() as u64 + 6) as usize;
    let e = match k.checked_sub(KINDS.len()) {
        None => Error::from(KINDS[k]),
        Some(0) => Error::new(ErrorKind::Other, "other"),
        Some(1) => Error::new(ErrorKind::WouldBlock, "block"),
        Some(2) => Error::new(ErrorKind::WriteZero, "zero"),
        // EIO, EAGAIN, EPIPE
        Some(3) => Error::from_raw_os_error(5),
        Some(4) => Error::from_raw_os_error(11),
        _ => Error::from_raw_os_error(32),
    };
    let mut x = Broken { out: Vec::new(), at: sym::pick(want.len() as u64) as usize, e: Some(e) };
    check!(!d.w(&mut x), "every kind of write error is reported");
    check!(x.e.is_none() && want.starts_with(&x.out), "with every kind of error a prefix was written");
    reach!("error of some kind");
}
#[inline(never)]
fn t_broken<T: M>() {
    set_max(1);
    let v = T::gen();
    broken(&V(&v))
}
#[inline(never)]
fn t_after<T: M>() {
    set_max(1);
    let v = T::gen();
    let want = put_of(&v);
    for i in 0..300 {
        let mut x = Broken { out: Vec::new(), at: i % want.len().max(1), e: Some(Error::from(ErrorKind::Other)) };
        check!(want.is_empty() || !V(&v).w(&mut x), "failures are reported again and again");
    }
    check!(whole(&V(&v)) == want, "after failures values are written as before");
    reach!("after failures");
}
#[derive(Serialize)]
struct Fmt {
    #[serde(with = "dlhn::format::big_uint")]
    u: num_bigint::BigUint,
    #[serde(with = "dlhn::format::date")]
    d: time::Date,
    #[serde(with = "dlhn::format::big_int")]
    i: num_bigint::BigInt,
    #[serde(with = "dlhn::format::date_time")]
    t: time::OffsetDateTime,
    #[serde(with = "dlhn::format::big_decimal")]
    n: bigdecimal::BigDecimal,
}
#[derive(SerializeHeader)]
#[allow(dead_code)]
struct D1 {
    a: u8,
    b: Vec<Option<bool>>,
    c: String,
}
#[derive(SerializeHeader)]
#[allow(dead_code)]
enum D2 {
    A,
    B(u16),
    C(u8, D1),
    D { x: i64, y: () },
}
#[derive(SerializeHeader)]
#[allow(dead_code)]
struct D3;

fn long<D: W>(d: &D) {
    let want = whole(d);
    let n = want.len();
    for a in [1, 2, 3, 127, 128, 129, 4095, 4096, 4097, 4099, n - 1] {
        if a >= n {
            continue;
        }
        let mut t = tight();
        t.at = a;
        judge(d, &want, t);
        for k in 0..2 {
            let mut t = tight();
            t.at = a;
            t.fail = Some((a, k));
            judge(d, &want, t);
        }
        let mut t = tight();
        t.at = a;
        t.interrupt = [1, 2];
        judge(d, &want, t);
    }
}

entries! {
    //@ quick=0-65
    fn c16_typed(p) { with_type!(p, typed) }
    //@ quick=0,2-6,8-11,13-19,25,26
    fn c16_leaf(p) {
        set_max(1);
        body(&leaf(p as u8))
    }
    //@ quick=1,20,21,23,24
    fn c16_over(p) {
        set_max(1);
        let l = leaf(LEAVES[sym::pick(LEAVES.len() as u64) as usize]);
        let kids = match p {
            21 => vec![l, Header::UInt8],
            24 => vec![Header::Unit, l],
            _ => vec![l],
        };
        body(&node(p as u8, kids))
    }
    //@ quick=0
    fn c16_format(p) {
        all(&V(&Fmt {
            u: num_bigint::BigUint::from(sym::u8()),
            d: time::Date::from_ordinal_date(1990, 3).unwrap(),
            i: num_bigint::BigInt::from(sym::i8()),
            t: time::OffsetDateTime::from_unix_timestamp(-70000).unwrap(),
            n: bigdecimal::BigDecimal::new(num_bigint::BigInt::from(-3), -40),
        }))
    }
    //@ quick=1-4
    fn c16_header(p) {
        all(&gen_sized(if p < 3 { &LEAVES } else { &[0, 3, 26] }, p as usize))
    }
    /// Headers of types.
    //@ quick=0-29
    fn c16_type_header(p) {
        macro_rules! t { ($($i:literal $t:ty),*) => { match p { $($i => head::<$t>(),)* _ => unreachable!() } } }
        t!(0 bool, 1 u8, 2 u64, 3 i8, 4 i32, 5 f32, 6 (), 7 String, 8 ByteBuf, 9 Option<u16>, 10 Vec<Vec<u8>>, 11 (u8, i64),
           12 BTreeMap<String, u8>, 13 HashMap<String, (u8, u8)>, 14 D1, 15 D2, 16 D3, 17 dlhn::BigUint, 18 dlhn::BigInt,
           19 dlhn::BigDecimal, 20 dlhn::Date, 21 dlhn::DateTime, 22 (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8),
           23 Bytes, 24 (u8,), 25 BTreeMap<&str, Option<D2>>, 26 f64, 27 HashMap<&str, bool>, 28 i16, 29 u32)
    }
    //@ quick=127,128,4096,8193
    fn c16_long(p) {
        let mut v: Vec<u8> = (0..p).map(|i| 33 + (i * 7 % 89) as u8).collect();
        v[0] = sym::u8() & 0x7f;
        v[p as usize - 1] = sym::u8() & 0x7f;
        long(&V(Bytes::new(&v)));
        long(&V(&Body::Binary(ByteBuf::from(v.clone()))));
        let s = unsafe { String::from_utf8_unchecked(v.clone()) };
        long(&V(&s));
        if p < 4096 {
            long(&V(&v));
            long(&Header::Tuple((0..p).map(|_| Header::Date).collect()));
        }
    }
    /// Every kind of error.
    //@ quick=0,3,10,11,13-15,18,21,23,28,38,46,58,60
    fn c16_kinds(p) { with_type!(p, t_broken) }
    //@ quick=0-2
    fn c16_kinds_dyn(p) {
        set_max(1);
        match p {
            0 => broken(&gen_sized(&[0, 3], 3)),
            1 => broken(&HeaderOf::<(D2, BTreeMap<String, Option<D1>>)>(std::marker::PhantomData)),
            _ => {
                let h = Header::Tuple(vec![
                    Header::Map(Box::new(Header::Enum(vec![Header::Array(Box::new(Header::Boolean))]))),
                    Header::Optional(Box::new(Header::Float32)),
                ]);
                if let Some(b) = gen_body(&h) {
                    broken(&V(&b));
                }
            }
        }
    }
    /// After 300 failures.
    //@ quick=13,14,15,18,21,28,34,39,41,46,48,50,58,60
    fn c16_after(p) { with_type!(p, t_after) }
    /// Large bodies.
    //@ quick=14,17,18,22,26,29,30,33,36,39-41,43-45,51
    fn c16_big(p) {
        let (h, b) = big(p);
        let _ = &h;
        long(&V(&b));
        if p > 28 {
            long(&h);
        }
    }
}
