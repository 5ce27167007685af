//! Reference model of the wire format, written from the format description
//! (not from the implementation).

/// Prefix varint with at most `max` short sizes; the long form is one prefix
/// byte followed by the full-width value.
fn enc_var(v: u64, max: u32, full: usize, out: &mut Vec<u8>) {
    let mut k = 1;
    while k <= max {
        // k bytes carry 7*k bits
        if v < 1u64 << (7 * k) {
            let low_bits = 8 - k; // value bits in the first byte
            let prefix = (0xff00u32 >> (k - 1)) as u8; // k-1 leading ones
            let low = (v & ((1u64 << low_bits) - 1)) as u8;
            out.push(prefix | low);
            let mut rest = v >> low_bits;
            let mut i = 1;
            while i < k {
                out.push(rest as u8);
                rest >>= 8;
                i += 1;
            }
            return;
        }
        k += 1;
    }
    out.push((0xff00u32 >> full.min(8)) as u8);
    let mut i = 0;
    while i < full {
        out.push((v >> (8 * i)) as u8);
        i += 1;
    }
}
pub fn put_u16(v: u16, out: &mut Vec<u8>) {
    enc_var(v as u64, 2, 2, out)
}
pub fn put_u32(v: u32, out: &mut Vec<u8>) {
    enc_var(v as u64, 4, 4, out)
}
pub fn put_u64(v: u64, out: &mut Vec<u8>) {
    enc_var(v, 8, 8, out)
}
pub fn zz16(v: i16) -> u16 {
    if v < 0 {
        ((-(v as i32)) * 2 - 1) as u16
    } else {
        (v as u16) * 2
    }
}
pub fn zz32(v: i32) -> u32 {
    if v < 0 {
        ((-(v as i64)) * 2 - 1) as u32
    } else {
        (v as u32) * 2
    }
}
pub fn zz64(v: i64) -> u64 {
    if v < 0 {
        ((-(v as i128)) * 2 - 1) as u64
    } else {
        (v as u64) * 2
    }
}
pub fn unzz64(u: u64) -> i64 {
    // even numbers count up from zero, odd ones down from minus one
    let h = (u / 2) as i64;
    if u % 2 == 0 {
        h
    } else {
        -1 - h
    }
}
pub fn put_i16(v: i16, out: &mut Vec<u8>) {
    put_u16(zz16(v), out)
}
pub fn put_i32(v: i32, out: &mut Vec<u8>) {
    put_u32(zz32(v), out)
}
pub fn put_i64(v: i64, out: &mut Vec<u8>) {
    put_u64(zz64(v), out)
}
pub fn put_bytes(v: &[u8], out: &mut Vec<u8>) {
    put_u64(v.len() as u64, out);
    out.extend_from_slice(v);
}

/// Reads from a slice; `None` when the input ends early.
pub struct Rd<'a> {
    pub b: &'a [u8],
    pub pos: usize,
}
impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Rd { b, pos: 0 }
    }
    pub fn byte(&mut self) -> Option<u8> {
        if self.pos < self.b.len() {
            self.pos += 1;
            Some(self.b[self.pos - 1])
        } else {
            None
        }
    }
    pub fn take(&mut self, n: u64) -> Option<&'a [u8]> {
        if n > (self.b.len() - self.pos) as u64 {
            return None;
        }
        let n = crate::sym::concrete(n) as usize;
        let s = &self.b[self.pos..self.pos + n];
        self.pos += n;
        Some(s)
    }
    fn le(&mut self, n: usize) -> Option<u64> {
        if n > self.b.len() - self.pos {
            return None;
        }
        let mut v = 0u64;
        for i in 0..n {
            v |= (self.b[self.pos + i] as u64) << (8 * i);
        }
        self.pos += n;
        Some(v)
    }
    /// Leading ones of the prefix = number of extra bytes; `max` = the number
    /// of leading ones from which on the value is the following `full` bytes.
    fn var(&mut self, max: u32, full: usize) -> Option<u64> {
        let p = self.byte()?;
        let mut ones = 0u32;
        while ones < max && p & (0x80 >> ones) != 0 {
            ones += 1;
        }
        if ones == max {
            return self.le(full);
        }
        let low_bits = 7 - ones;
        let low = (p as u64) & ((1u64 << low_bits) - 1);
        Some(low | self.le(ones as usize)? << low_bits)
    }
    pub fn u16(&mut self) -> Option<u16> {
        self.var(2, 2).map(|v| v as u16)
    }
    pub fn u32(&mut self) -> Option<u32> {
        self.var(4, 4).map(|v| v as u32)
    }
    pub fn u64(&mut self) -> Option<u64> {
        self.var(8, 8)
    }
    pub fn i16(&mut self) -> Option<i16> {
        self.u16().map(|v| unzz64(v as u64) as i16)
    }
    pub fn i32(&mut self) -> Option<i32> {
        self.u32().map(|v| unzz64(v as u64) as i32)
    }
    pub fn i64(&mut self) -> Option<i64> {
        self.u64().map(unzz64)
    }
    pub fn fixed(&mut self, n: usize) -> Option<u64> {
        self.le(n)
    }
    pub fn tag(&mut self) -> Option<bool> {
        match self.byte()? {
            0 => Some(false),
            1 => Some(true),
            _ => None,
        }
    }
    pub fn bytes(&mut self) -> Option<&'a [u8]> {
        let n = self.u64()?;
        self.take(n)
    }
    pub fn text(&mut self) -> Option<&'a [u8]> {
        let b = self.bytes()?;
        if utf8(b) {
            Some(b)
        } else {
            None
        }
    }
}

/// UTF-8 well-formedness (Unicode table 3-7), independent of std.
pub fn utf8(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let at = |k: usize| if i + k < b.len() { b[i + k] } else { 0 };
        let cont = |x: u8| x & 0xc0 == 0x80;
        if c < 0x80 {
            i += 1;
        } else if c >= 0xc2 && c <= 0xdf {
            if !cont(at(1)) {
                return false;
            }
            i += 2;
        } else if c & 0xf0 == 0xe0 {
            let x = at(1);
            let ok = if c == 0xe0 {
                x >= 0xa0 && x <= 0xbf
            } else if c == 0xed {
                x >= 0x80 && x <= 0x9f
            } else {
                cont(x)
            };
            if !ok || !cont(at(2)) {
                return false;
            }
            i += 3;
        } else if c >= 0xf0 && c <= 0xf4 {
            let x = at(1);
            let ok = if c == 0xf0 {
                x >= 0x90 && x <= 0xbf
            } else if c == 0xf4 {
                x >= 0x80 && x <= 0x8f
            } else {
                cont(x)
            };
            if !ok || !cont(at(2)) || !cont(at(3)) {
                return false;
            }
            i += 4;
        } else {
            return false;
        }
    }
    true
}
