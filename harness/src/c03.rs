//! C03: strings and byte strings.
//! bound: all contents of up to 6 bytes (byte strings 12); lengths up to 70001 around every buffer size and
//!   length-prefix boundary, there with 4 arbitrary bytes (2 at the end, 2 at a boundary) among
//!   fixed filler, likewise lengths up to 8388609 (16777217 in the larger runs); UTF-8 decided on every byte string of up to 6 bytes, and of up to 4 bytes
//!   in front of, inside and behind filler; any character, or any 4 bytes, at both ends of lengths up to 65537.
use crate::refm::*;
use crate::sym;
use crate::util::*;
use serde_bytes::{ByteBuf, Bytes};

const SIZES: [usize; 38] = [
    0, 1, 2, 63, 64, 126, 127, 128, 129, 130, 131, 255, 256, 257, 511, 1023, 1024, 2047, 2048, 4094,
    4095, 4096, 4097, 4098, 8191, 8192, 8193, 12289, 16383, 16385,
    16384, 65535, 65536, 65537, 70001, 2097152, 16777217, 1048579,
];

fn want(b: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    put_bytes(b, &mut o);
    o
}
/// ASCII or raw filler of the given length, arbitrary bytes at the end and around `at`.
fn long(n: usize, at: usize, ascii: bool) -> Vec<u8> {
    let mut v: Vec<u8> = (0..n).map(|i| 33 + (i * 7 % 89) as u8).collect();
    let k: [u8; 4] = sym::arr();
    for (j, x) in k.iter().enumerate() {
        if ascii {
            sym::assume(*x < 0x80);
        }
        let pos = if j < 2 { n.checked_sub(1 + j) } else { Some(at + j - 2).filter(|p| *p < n) };
        if let Some(p) = pos {
            v[p] = *x;
        }
    }
    v
}
fn text(s: &str) {
    let b = s.as_bytes();
    match enc(s) {
        Ok(e) => {
            check!(e == want(b), "a string is its length and its bytes");
            // behind the string: something that must stay unread
            let mut e2 = e.clone();
            e2.push(0xAA);
            let (got, used) = dec::<String>(&e2);
            match got {
                Ok(g) => {
                    check!(g.as_bytes() == b, "a string survives the round trip");
                    check!(used == e.len(), "a string consumes its own bytes");
                    reach!("string round trip");
                }
                Err(_) => check!(false, "a written string is readable"),
            }
        }
        Err(_) => check!(false, "writing a string succeeds"),
    }
}
fn bytes(b: &[u8], owned: bool) {
    let e = if owned { enc(&ByteBuf::from(b)) } else { enc(Bytes::new(b)) };
    match e {
        Ok(e) => {
            check!(e == want(b), "a byte string is its length and its bytes");
            let mut e2 = e.clone();
            e2.push(0x55);
            let (got, used) = dec::<ByteBuf>(&e2);
            match got {
                Ok(g) => {
                    check!(&g[..] == b, "a byte string survives the round trip");
                    check!(used == e.len(), "a byte string consumes its own bytes");
                    reach!("byte string round trip");
                }
                Err(_) => check!(false, "a written byte string is readable"),
            }
        }
        Err(_) => check!(false, "writing a byte string succeeds"),
    }
}
/// `content` declared as a string decodes exactly when it is UTF-8.
fn decides(content: &[u8]) {
    let e = want(content);
    let (got, used) = dec::<String>(&e);
    let ok = utf8(content);
    match got {
        Ok(g) => {
            check!(ok, "bytes that are not UTF-8 never decode to a string");
            check!(g.as_bytes() == content, "the string is the bytes sent");
            check!(used == e.len(), "valid text consumes its own bytes");
            reach!("valid text");
        }
        Err(_) => {
            check!(!ok, "UTF-8 text decodes");
            reach!("invalid text");
        }
    }
}

entries! {
    //@ quick=0-6 thorough=0-8
    fn c03_text(p) {
        let v = sym::vec_of(p as usize);
        if let Ok(s) = std::str::from_utf8(&v) {
            text(s)
        }
    }
    //@ quick=0-12 thorough=0-40
    fn c03_bytes(p) {
        let v = sym::vec_of(p as usize);
        bytes(&v, sym::flip())
    }
    /// Every size; the second byte pair sits at the start or at an internal boundary.
    //@ quick=0-34 thorough=0-35
    fn c03_long_text(p) {
        let at = [0, 126, 127, 4095][sym::pick(4) as usize];
        let v = long(SIZES[p as usize], at, true);
        text(unsafe { std::str::from_utf8_unchecked(&v) })
    }
    //@ quick=0-34 thorough=0-35
    fn c03_long_bytes(p) {
        let at = [0, 127, 4095, 8191][sym::pick(4) as usize];
        let v = long(SIZES[p as usize], at, false);
        bytes(&v, true)
    }
    /// Around powers of two that no buffer of a sensible size exceeds.
    //@ quick=0-4 thorough=0-5
    fn c03_huge(p) {
        let n = [1 << 20, (1 << 20) + 3, 1 << 21, (1 << 22) + 1, (1 << 23) + 1, (1 << 24) + 1][p as usize];
        if sym::flip() {
            let v = long(n, 0, true);
            text(unsafe { std::str::from_utf8_unchecked(&v) })
        } else {
            bytes(&long(n, 0, false), true)
        }
    }
    /// A character of 2 to 4 bytes straddling an internal boundary or at the very end.
    //@ quick=0-3
    fn c03_straddle(p) {
        let n = [127, 128, 131, 4098][p as usize];
        let c = sym::char();
        let mut s = String::new();
        let back = sym::pick(4) as usize;
        // `back` filler bytes follow the character
        let mut buf = [0u8; 4];
        let w = c.encode_utf8(&mut buf).len();
        for i in 0..n - back - w {
            s.push((33 + (i % 89) as u8) as char);
        }
        s.push(c);
        for _ in 0..back {
            s.push('~');
        }
        text(&s)
    }
    /// Any character in front and at the end of a longer text, any 4 bytes there of a byte string.
    //@ quick=0-9
    fn c03_edges(p) {
        let n = [120, 121, 127, 128, 129, 300, 4090, 4096, 8193, 65537][p as usize];
        if sym::flip() {
            let mut s = String::new();
            s.push(sym::char());
            for i in 0..n - 4 {
                s.push((33 + (i % 89) as u8) as char);
            }
            s.push(sym::char());
            text(&s)
        } else {
            let mut v: Vec<u8> = (0..n).map(|i| (i * 7 % 251) as u8).collect();
            v[..4].copy_from_slice(&sym::vec_of(4));
            v[n - 4..].copy_from_slice(&sym::vec_of(4));
            bytes(&v, true)
        }
    }
    //@ quick=0-6 thorough=0-8
    fn c03_utf8(p) { decides(&sym::vec_of(p as usize)) }
    /// The same behind filler that makes the text longer than the internal buffer.
    //@ quick=0-8
    fn c03_utf8_long(p) {
        let n = [124, 126, 252, 4094, 127, 128, 4095, 4096, 8190][p as usize];
        let mut v: Vec<u8> = vec![b'x'; n];
        v.extend_from_slice(&sym::vec(4));
        if sym::flip() {
            v.extend_from_slice(b"yz");
        }
        decides(&v)
    }
    /// The same in front of and inside a long text.
    //@ quick=0-7
    fn c03_utf8_front(p) {
        let (before, after) = [(0, 124), (0, 125), (0, 300), (0, 4096), (1, 126), (60, 64), (128, 128), (4000, 4200)][p as usize];
        let mut v: Vec<u8> = vec![b'x'; before];
        v.extend_from_slice(&sym::vec_of(4));
        v.extend(vec![b'y'; after]);
        decides(&v)
    }
}
