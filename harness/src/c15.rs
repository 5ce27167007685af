//! C15: decoding does not depend on how the reader delivers the bytes.
//! bound: every byte string of 4 bytes (numbers: of their maximum length) decoded as each of the 66 types of
//!   model.rs, as a body under every leaf and under one nesting level over 5 leaves, and as a header, from a reader
//!   that splits the bytes at any subset of positions; single-byte delivery with up to 2 interruptions at any
//!   of the first 250 calls; encodings of any values (as in C04, at most 1 element) from a reader that fails
//!   once at any position with 4 kinds of error; strings and byte strings of up to 12289 bytes with two stops
//!   around the internal buffer sizes, an interruption or a failure there; 38 kinds of error at any position of
//!   encodings of 15 types, of headers and of bodies.
use crate::hb::*;
use crate::model::*;
use crate::refm::*;
use crate::sym;
use crate::util::*;
use crate::with_type;
use dlhn::{Body, DeserializeHeader, Deserializer, Header};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_bytes::{ByteBuf, Bytes};
use std::io::{Error, ErrorKind, Read, Result as Io};

/// Delivers `data` in pieces.
struct Slow<'a> {
    data: &'a [u8],
    pos: usize,
    calls: u8,
    /// at most this many bytes at a time
    most: usize,
    /// bit i: a call never delivers past position i (positions below 64)
    stops: u64,
    /// a call never delivers past these
    at: [usize; 2],
    /// numbers of the calls that are interrupted
    interrupt: [u8; 2],
    /// fails once, on reaching this position
    fail: Option<(usize, ErrorKind)>,
    failed: bool,
}
fn slow(data: &[u8]) -> Slow {
    Slow { data, pos: 0, calls: 0, most: usize::MAX, stops: 0, at: [0; 2], interrupt: [255; 2], fail: None, failed: false }
}
impl<'a> Read for Slow<'a> {
    fn read(&mut self, buf: &mut [u8]) -> Io<usize> {
        if self.calls < 250 {
            let c = self.calls;
            self.calls += 1;
            if sym::fork((self.interrupt[0] == c) | (self.interrupt[1] == c)) {
                return Err(Error::from(ErrorKind::Interrupted));
            }
        }
        let mut n = buf.len().min(self.data.len() - self.pos).min(self.most);
        if let Some((p, k)) = self.fail {
            // settled one position at a time
            if !self.failed && n > 0 && sym::fork(p == self.pos) {
                self.failed = true;
                return Err(Error::from(k));
            }
        }
        for a in self.at {
            if a > self.pos {
                n = n.min(a - self.pos);
            }
        }
        for i in 1..n {
            let p = self.pos + i;
            if p >= 64 {
                break;
            }
            if sym::fork(self.stops >> p & 1 == 1) || self.fail.map_or(false, |(f, _)| !self.failed && sym::fork(f == p)) {
                n = i;
                break;
            }
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// One way of decoding, from any reader.
trait Dec {
    type V;
    fn dec<R: Read>(&self, r: &mut R) -> Option<Self::V>;
    fn same(&self, a: &Self::V, b: &Self::V) -> bool;
}
struct Typed<T>(std::marker::PhantomData<T>);
impl<T: M> Dec for Typed<T> {
    type V = T;
    fn dec<R: Read>(&self, r: &mut R) -> Option<T> {
        T::deserialize(&mut Deserializer::new(r)).ok()
    }
    fn same(&self, a: &T, b: &T) -> bool {
        a.same(b)
    }
}
impl Dec for Header {
    type V = Body;
    fn dec<R: Read>(&self, r: &mut R) -> Option<Body> {
        Body::deserialize(self, &mut Deserializer::new(r)).ok()
    }
    fn same(&self, a: &Body, b: &Body) -> bool {
        same_body(a, b)
    }
}
struct Head;
impl Dec for Head {
    type V = Header;
    fn dec<R: Read>(&self, r: &mut R) -> Option<Header> {
        r.deserialize_header().ok()
    }
    fn same(&self, a: &Header, b: &Header) -> bool {
        same_header(a, b)
    }
}
/// A `with` module's field.
struct Plain<T>(std::marker::PhantomData<T>);
impl<T: DeserializeOwned + PartialEq> Dec for Plain<T> {
    type V = T;
    fn dec<R: Read>(&self, r: &mut R) -> Option<T> {
        T::deserialize(&mut Deserializer::new(r)).ok()
    }
    fn same(&self, a: &T, b: &T) -> bool {
        a == b
    }
}
fn agree<D: Dec>(d: &D, b: &[u8], mut s: Slow) {
    let mut r = b;
    let v = d.dec(&mut r);
    let w = d.dec(&mut s);
    sym::obs(v.is_some() as u64);
    match (v, w) {
        (Some(v), Some(w)) => {
            check!(d.same(&v, &w), "the same value is decoded from pieces");
            check!(s.pos == b.len() - r.len(), "the same bytes are consumed from pieces");
            reach!("decoded from pieces");
        }
        (None, None) => reach!("refused in pieces"),
        (Some(_), None) => check!(false, "bytes readable in one piece are readable in pieces"),
        (None, Some(_)) => check!(false, "bytes refused in one piece are refused in pieces"),
    }
}
fn split<D: Dec>(d: &D, n: usize) {
    let b = sym::vec_of(n);
    let mut s = slow(&b);
    s.stops = sym::u64();
    agree(d, &b, s)
}
fn interrupt<D: Dec>(d: &D, n: usize) {
    let b = sym::vec_of(n);
    let mut s = slow(&b);
    s.most = 1;
    s.interrupt = sym::arr();
    agree(d, &b, s)
}
/// A reader that fails anywhere inside an encoding.
fn fail<D: Dec>(d: &D, b: &[u8]) {
    sym::obs_bytes(b);
    let p = sym::u16() as usize;
    sym::assume(p <= b.len());
    let k = [ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock, ErrorKind::InvalidData][sym::pick(4) as usize];
    let mut s = slow(b);
    s.fail = Some((p, k));
    let v = d.dec(&mut s);
    if s.failed {
        check!(v.is_none(), "a failing reader is reported");
        reach!("reader failed");
    } else {
        check!(v.is_some(), "a reader failing behind the value does no harm");
        check!(s.pos == b.len(), "all bytes are consumed");
    }
}
/// Every way an I/O error can be made, except for interruptions.
const KINDS: [ErrorKind; 30] = [
    ErrorKind::NotFound, ErrorKind::PermissionDenied, ErrorKind::ConnectionRefused, ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted, ErrorKind::NotConnected, ErrorKind::AddrInUse, ErrorKind::AddrNotAvailable,
    ErrorKind::BrokenPipe, ErrorKind::AlreadyExists, ErrorKind::WouldBlock, ErrorKind::InvalidInput,
    ErrorKind::InvalidData, ErrorKind::TimedOut, ErrorKind::WriteZero, ErrorKind::Unsupported,
    ErrorKind::UnexpectedEof, ErrorKind::OutOfMemory, ErrorKind::Other, ErrorKind::HostUnreachable,
    ErrorKind::NetworkUnreachable, ErrorKind::NetworkDown, ErrorKind::NotADirectory, ErrorKind::IsADirectory,
    ErrorKind::StorageFull, ErrorKind::NotSeekable, ErrorKind::FileTooLarge, ErrorKind::ResourceBusy,
    ErrorKind::StaleNetworkFileHandle, ErrorKind::Deadlock,
];
fn any_error() -> Error {
    let k = sym::pick(KINDS.len() as u64 + 8) as usize;
    match k.checked_sub(KINDS.len()) {
        None => Error::from(KINDS[k]),
        Some(0) => Error::new(ErrorKind::Other, "other"),
        Some(1) => Error::new(ErrorKind::UnexpectedEof, "end"),
        Some(2) => Error::new(ErrorKind::WouldBlock, "block"),
        Some(3) => Error::new(ErrorKind::TimedOut, "late"),
        // EIO, EAGAIN, EPIPE, ETIMEDOUT
        Some(4) => Error::from_raw_os_error(5),
        Some(5) => Error::from_raw_os_error(11),
        Some(6) => Error::from_raw_os_error(32),
        _ => Error::from_raw_os_error(110),
    }
}
/// Fails once, behind `at` bytes; the bytes before arrive one by one or as asked for.
struct Broken<'a> {
    data: &'a [u8],
    at: usize,
    pos: usize,
    one: bool,
    e: Option<Error>,
}
impl<'a> Read for Broken<'a> {
    fn read(&mut self, buf: &mut [u8]) -> Io<usize> {
        let mut n = buf.len().min(self.data.len() - self.pos);
        if self.one {
            n = n.min(1);
        }
        if self.e.is_some() && n > 0 {
            if self.pos == self.at {
                return Err(self.e.take().unwrap());
            }
            n = n.min(self.at - self.pos);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
fn broken<D: Dec>(d: &D, b: &[u8]) {
    sym::obs_bytes(b);
    let at = sym::pick(b.len() as u64) as usize;
    let mut r = Broken { data: b, at, pos: 0, one: sym::flip(), e: Some(any_error()) };
    let v = d.dec(&mut r);
    check!(v.is_none() && r.e.is_none(), "every kind of read error is reported");
    reach!("error of some kind");
}
#[inline(never)]
fn t_broken<T: M>() {
    set_max(1);
    let v = T::gen();
    match enc(&v) {
        Ok(b) if b.len() > 0 => broken(&typed::<T>(), &b),
        Ok(_) => {}
        Err(_) => check!(false, "values are written"),
    }
}
fn typed<T>() -> Typed<T> {
    Typed(std::marker::PhantomData)
}
static mut LEN: usize = 0;
#[inline(never)]
fn t_split<T: M>() {
    split(&typed::<T>(), unsafe { LEN })
}
#[inline(never)]
fn t_interrupt<T: M>() {
    interrupt(&typed::<T>(), unsafe { LEN })
}
#[inline(never)]
fn t_fail<T: M>() {
    set_max(1);
    let v = T::gen();
    match enc(&v) {
        Ok(b) => fail(&typed::<T>(), &b),
        Err(_) => check!(false, "values are written"),
    }
}
fn len(p: u64) -> usize {
    match p {
        5 | 7 | 3 | 9 => 5,
        4 | 8 | 10 => 9,
        61 => 6,
        62 => 7,
        _ => 4,
    }
}
#[derive(Deserialize, Serialize, PartialEq)]
struct FU(#[serde(with = "dlhn::format::big_uint")] num_bigint::BigUint);
#[derive(Deserialize, Serialize, PartialEq)]
struct FI(#[serde(with = "dlhn::format::big_int")] num_bigint::BigInt);
#[derive(Deserialize, Serialize)]
struct FC(#[serde(with = "dlhn::format::big_decimal")] bigdecimal::BigDecimal);
impl PartialEq for FC {
    fn eq(&self, o: &Self) -> bool {
        self.0.as_bigint_and_exponent() == o.0.as_bigint_and_exponent()
    }
}
#[derive(Deserialize, Serialize, PartialEq)]
struct FD(#[serde(with = "dlhn::format::date")] time::Date);
#[derive(Deserialize, Serialize, PartialEq)]
struct FT(#[serde(with = "dlhn::format::date_time")] time::OffsetDateTime);
fn with<T: DeserializeOwned + PartialEq>(p: u64, n: usize) {
    let d = Plain::<T>(std::marker::PhantomData);
    if p < 10 {
        split(&d, n)
    } else {
        interrupt(&d, n)
    }
}

const LONG: [usize; 9] = [127, 128, 129, 4095, 4096, 4097, 8192, 8193, 12289];

entries! {
    //@ quick=0-65
    fn c15_split(p) {
        unsafe { LEN = len(p) }
        with_type!(p, t_split)
    }
    //@ quick=0-65
    fn c15_interrupt(p) {
        unsafe { LEN = if p == 11 || p == 13 { 3 } else { len(p) } }
        with_type!(p, t_interrupt)
    }
    //@ quick=0-65
    fn c15_fail(p) { with_type!(p, t_fail) }
    /// Every kind of error.
    //@ quick=0,3,10,11,13-15,18,21,23,28,38,46,58,60
    fn c15_kinds(p) { with_type!(p, t_broken) }
    //@ quick=0-2
    fn c15_kinds_dyn(p) {
        set_max(1);
        match p {
            0 => {
                let h = gen_sized(&[0, 3], 3);
                match enc_header(&h) {
                    Ok(b) => broken(&Head, &b),
                    Err(_) => check!(false, "headers are written"),
                }
            }
            _ => {
                let h = if p == 1 {
                    Header::Tuple(vec![Header::String, Header::Optional(Box::new(Header::UInt16))])
                } else {
                    Header::Map(Box::new(Header::Enum(vec![Header::Binary, Header::Array(Box::new(Header::Boolean))])))
                };
                if let Some(b) = gen_body(&h) {
                    match enc(&b) {
                        Ok(e) => broken(&h, &e),
                        Err(_) => check!(false, "bodies are written"),
                    }
                }
            }
        }
    }
    /// The serde `with` modules.
    //@ quick=0-4,10-14
    fn c15_with(p) {
        match p % 10 {
            0 => with::<FU>(p, 4),
            1 => with::<FI>(p, 4),
            2 => with::<FC>(p, 4),
            3 => with::<FD>(p, 4),
            _ => with::<FT>(p, 3),
        }
    }
    //@ quick=0,2-6,8-11,13-19,25,26
    fn c15_leaf(p) {
        let h = leaf(p as u8);
        let n = match p { 6 | 11 | 14 => 9, 5 | 10 | 13 => 5, 4 | 9 => 3, 25 | 26 => 5, _ => 4 };
        if sym::flip() {
            split(&h, n)
        } else {
            interrupt(&h, if p == 18 { 3 } else { n.min(4) })
        }
    }
    //@ quick=1,20,21,23,24
    fn c15_over(p) {
        const L: [u8; 5] = [2, 3, 4, 18, 19];
        let l = leaf(L[sym::pick(5) as usize]);
        let kids = match p {
            21 => vec![l, Header::UInt8],
            24 => vec![Header::Unit, l],
            _ => vec![l],
        };
        let h = node(p as u8, kids);
        if sym::flip() {
            split(&h, 4)
        } else {
            interrupt(&h, 4)
        }
    }
    //@ quick=1,20,21,23,24
    fn c15_body_fail(p) {
        set_max(1);
        let l = leaf(LEAVES[sym::pick(LEAVES.len() as u64) as usize]);
        let kids = match p {
            21 => vec![l, Header::UInt8],
            24 => vec![Header::Unit, l],
            _ => vec![l],
        };
        let h = node(p as u8, kids);
        if let Some(b) = gen_body(&h) {
            match enc(&b) {
                Ok(e) => fail(&h, &e),
                Err(_) => check!(false, "bodies are written"),
            }
        }
    }
    //@ quick=0-2
    fn c15_header(p) {
        match p {
            0 => split(&Head, 4),
            1 => interrupt(&Head, 3),
            _ => {
                let n = 1 + sym::pick(4) as usize;
                let h = gen_sized(&[0, 3, 26], n);
                match enc_header(&h) {
                    Ok(b) => fail(&Head, &b),
                    Err(_) => check!(false, "headers are written"),
                }
            }
        }
    }
    /// Long strings and byte strings.
    //@ quick=0-8
    fn c15_long(p) {
        let n = LONG[p as usize];
        let mut v: Vec<u8> = (0..n).map(|i| 33 + (i * 7 % 89) as u8).collect();
        v[n - 1] = sym::u8() & 0x7f;
        v[n / 2] = sym::u8() & 0x7f;
        let mut e = Vec::new();
        put_bytes(&v, &mut e);
        const AT: [usize; 9] = [1, 2, 3, 5, 128, 129, 4096, 4098, 4100];
        for a in AT.into_iter().chain([e.len() - 1]) {
            for b in [a + 1, a + 32, a + 4096] {
                // 0: stops; 1: interrupted; 2: fails there; 3: interrupted there; 4: interrupted from the third call on
                let mk = |w| {
                    let mut s = slow(&e);
                    s.at = [a, b];
                    if w == 1 {
                        s.interrupt = [1, 2];
                    }
                    if w == 4 {
                        s.interrupt = [3, 5];
                    }
                    if w == 3 {
                        s.fail = Some((a, ErrorKind::Interrupted));
                    }
                    if w == 2 {
                        s.fail = Some((if a < e.len() { a } else { 0 }, ErrorKind::Other));
                    }
                    s
                };
                for w in [0, 1, 3, 4] {
                    agree(&typed::<String>(), &e, mk(w));
                    agree(&typed::<ByteBuf>(), &e, mk(w));
                    agree(&Header::Binary, &e, mk(w));
                }
                let mut s = mk(2);
                check!(typed::<String>().dec(&mut s).is_none(), "a reader failing inside a long string is reported");
                let mut s = mk(2);
                check!(typed::<ByteBuf>().dec(&mut s).is_none(), "a reader failing inside a long byte string is reported");
            }
        }
    }
}
