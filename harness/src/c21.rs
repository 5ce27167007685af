//! C21: dates and timestamps convert and order faithfully.
//! bound: every date of the years -9999..9999 and every pair of them; every stored year and ordinal (converted, and compared
//!   pairwise); instants: 128 seconds before and 18 hours (thorough:
//!   in part 6 days) after the start of days, and every
//!   time of whole days (with any of six clocks), around year ends, leap days, the epoch and the extremes of the type, with every nanosecond; comparison of every pair of stored seconds (all 64 bits) and nanoseconds;
//!   conversion of every stored pair outside the representable range, and inside it near its ends.
//! assume: the time crate's own arithmetic is what an instant means (its calendar is checked against an independent one in C06).
use crate::refm::*;
use crate::sym;
use crate::util::*;
use std::cmp::Ordering;
use std::convert::TryInto;
use std::hash::{Hash, Hasher};
use time::{Date, OffsetDateTime, UtcOffset};

fn leap(y: i32) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}
fn valid(y: i32, o: u16) -> bool {
    y >= -9999 && y <= 9999 && o >= 1 && (o <= 365 || (o == 366 && leap(y)))
}
fn some<T, E>(r: Result<T, E>) -> T {
    match r {
        Ok(v) => v,
        Err(_) => {
            sym::assume(false);
            loop {}
        }
    }
}
/// The first 8 bytes a value feeds to a hasher, and how many it fed.
struct Fed(u64, u32);
impl Hasher for Fed {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.rotate_left(8) ^ *x as u64;
            self.1 += 1;
        }
    }
}
fn fed<T: Hash>(v: &T) -> (u64, u32) {
    let mut h = Fed(0, 0);
    v.hash(&mut h);
    (h.0, h.1)
}
/// Every comparison of two values answers as their chronological order does.
fn ordered<T: Ord + Copy + Hash>(a: T, b: T, want: Ordering) {
    let (lt, eq) = (want == Ordering::Less, want == Ordering::Equal);
    check!(a.cmp(&b) == want, "the order is chronological");
    check!(b.cmp(&a) == want.reverse(), "the reverse order is the reverse");
    check!(a.partial_cmp(&b) == Some(want), "the partial order is the order");
    check!((a == b) == eq, "equal exactly when the same");
    check!((a != b) == !eq, "different exactly when not the same");
    check!((a < b) == lt, "less exactly when earlier");
    check!((a <= b) == (lt || eq), "at most exactly when not later");
    check!((a > b) == !(lt || eq), "greater exactly when later");
    check!((a >= b) == !lt, "at least exactly when not earlier");
    check!(a.max(b) == if lt { b } else { a }, "the greater of two is the later");
    check!(a.min(b) == if lt { a } else { b }, "the lesser of two is the earlier");
    if eq {
        check!(fed(&a) == fed(&b), "equal values hash alike");
        reach!("equal pair");
    } else {
        reach!("unequal pair");
    }
}
/// A stored date or timestamp with exactly these parts, given in a form of fixed shape.
fn stored_date(neg: bool, h: u32, o: u16) -> Option<dlhn::Date> {
    let mut e = vec![0xf0];
    e.extend_from_slice(&(h << 1 | neg as u32).to_le_bytes());
    e.push(0xc0);
    e.extend_from_slice(&o.to_le_bytes());
    dec::<dlhn::Date>(&e).0.ok()
}
fn stored(neg: bool, h: u64, n: u32) -> Option<dlhn::DateTime> {
    let mut e = vec![0xff];
    e.extend_from_slice(&(h << 1 | neg as u64).to_le_bytes());
    e.push(0xf0);
    e.extend_from_slice(&n.to_le_bytes());
    dec::<dlhn::DateTime>(&e).0.ok()
}
const LO: i64 = -377705116800;
const HI: i64 = 253402300799;
/// First instants of days (1970, -1 day, 2000-02-29 and the day after, 0001, 2100-03-01, 1900, 2024-02-29, -0001-01-01, 2038-01-19),
/// all multiples of 128, as are the ends of the range.
const AT: [i64; 12] = [
    0, -86400, 951782400, 951868800, -62135596800, 4107542400, -2208988800, 1709164800, -62198755200, 2147472000, LO, HI + 1,
];
/// 128 seconds before or some time after one of these.
fn near(p: u64) -> i64 {
    let s = AT[(p % 100) as usize];
    match p / 100 {
        0 => s + (sym::u8() & 127) as i64,
        1 => s - 128 + (sym::u8() & 127) as i64,
        2 => s + sym::u16() as i64,
        _ => s + (sym::u32() & 0x7ffff) as i64,
    }
}
/// (hours, minutes, seconds) of clocks.
const OFF: [(i8, i8, i8); 6] = [(0, 0, 0), (9, 0, 0), (-5, -30, 0), (23, 59, 59), (-23, -59, -59), (0, 0, -1)];
fn nanos() -> u32 {
    let n = sym::u32();
    sym::assume(n < 1_000_000_000);
    n
}

/// Days from 1970-01-01 of the first day of a year.
fn year_start(y: i64) -> i64 {
    let p = y - 1;
    p * 365 + p.div_euclid(4) - p.div_euclid(100) + p.div_euclid(400) - 719162
}
const DAYS: [(i32, u16); 16] = [
    (1970, 1), (1969, 365), (2000, 1), (2000, 60), (1999, 365), (2000, 366), (1900, 59), (2100, 60),
    (1600, 366), (1, 1), (0, 60), (-1, 365), (9999, 365), (-9999, 1), (2038, 19), (1901, 347),
];
/// Any time of one of the days on some clock, with its unix seconds and nanoseconds.
fn shown(d: usize) -> (OffsetDateTime, i64, u32) {
    let (y, o) = DAYS[d];
    let (oh, om, os) = OFF[sym::pick(6) as usize];
    let (h, m, s, n) = (sym::u8() % 24, sym::u8() % 60, sym::u8() % 60, nanos());
    let local = (year_start(y as i64) + o as i64 - 1) * 86400 + h as i64 * 3600 + m as i64 * 60 + s as i64;
    let secs = local - (oh as i64 * 3600 + om as i64 * 60 + os as i64);
    let t = some(some(Date::from_ordinal_date(y, o)).with_hms_nano(h, m, s, n));
    (t.assume_offset(some(UtcOffset::from_hms(oh, om, os))), secs, n)
}

entries! {
    /// Any date there and back.
    //@ quick=0
    fn c21_date(p) {
        let y = -9999 + sym::u16() as i32;
        let o = sym::u16();
        sym::assume(valid(y, o));
        let d = some(Date::from_ordinal_date(y, o));
        let l = dlhn::Date::from(d);
        let back: Result<Date, ()> = l.try_into();
        check!(back == Ok(d), "a date converts there and back");
        let into: dlhn::Date = d.into();
        check!(into == l, "from and into agree");
        let k = y - 2000;
        let neg = sym::fork(k < 0);
        check!(Some(l) == stored_date(neg, if neg { !k } else { k } as u32, o - 1), "a converted date is the stored date with its parts");
        reach!("date converted");
    }
    /// Any stored date.
    //@ quick=0
    fn c21_date_parts(p) {
        let (neg, h, o) = (sym::flip(), sym::u32() >> 1, sym::u16());
        let y = if neg { !h } else { h } as i32;
        if let Some(l) = stored_date(neg, h, o) {
            let (year, ord) = (y as i64 + 2000, o as u32 + 1);
            let ok = year <= 9999 && year >= -9999 && ord <= 366 && valid(year as i32, ord as u16);
            let d: Result<Date, ()> = l.try_into();
            check!(d.is_ok() == ok, "exactly the dates of the calendar convert");
            if let Ok(d) = d {
                check!(d.year() as i64 == year && d.ordinal() as u32 == ord, "a stored date converts to that date");
                check!(dlhn::Date::from(d) == l, "a stored date survives the conversion");
                reach!("stored date converted");
            } else {
                reach!("stored date refused");
            }
        }
    }
    /// Two dates of the calendar; two stored dates.
    //@ quick=0-4
    fn c21_date_order(p) {
        if p == 4 {
            let (y, z) = (-9999 + sym::u16() as i32, -9999 + sym::u16() as i32);
            let (o, q) = (sym::u16(), sym::u16());
            sym::assume(valid(y, o) && valid(z, q));
            let (a, b) = (some(Date::from_ordinal_date(y, o)), some(Date::from_ordinal_date(z, q)));
            let want = if y < z || (y == z && o < q) { Ordering::Less } else if y == z && o == q { Ordering::Equal } else { Ordering::Greater };
            ordered(dlhn::Date::from(a), dlhn::Date::from(b), want);
        } else {
            let (f, g) = (p & 1 != 0, p & 2 != 0);
            let (h, i, o, q) = (sym::u32() >> 1, sym::u32() >> 1, sym::u16(), sym::u16());
            let (y, z) = (if f { !h } else { h } as i32, if g { !i } else { i } as i32);
            if let (Some(a), Some(b)) = (stored_date(f, h, o), stored_date(g, i, q)) {
                let want = if y < z || (y == z && o < q) { Ordering::Less } else if y == z && o == q { Ordering::Equal } else { Ordering::Greater };
                ordered(a, b, want);
            }
        }
    }
    /// An instant there and back.
    //@ quick=0-10,100-109,111,200-210 thorough=0-10,100-109,111,200-210,300,302,303,305,307,309
    fn c21_instant(p) {
        let s = near(p);
        let n = nanos();
        let t = some(some(OffsetDateTime::from_unix_timestamp(s)).replace_nanosecond(n));
        let l = dlhn::DateTime::from(t);
        let into: dlhn::DateTime = t.into();
        check!(into == l, "from and into agree for instants");
        let back: Result<OffsetDateTime, ()> = l.try_into();
        match back {
            Ok(b) => {
                check!(b.offset() == UtcOffset::UTC, "an instant converts to universal time");
                check!(b.unix_timestamp() == s && b.nanosecond() == n, "an instant converts to the same moment");
                reach!("instant converted");
            }
            Err(()) => check!(false, "an instant converts back"),
        }
    }
    /// What any clock shows.
    //@ quick=0-15
    fn c21_clock(p) {
        let (t, s, n) = shown(p as usize);
        let l = dlhn::DateTime::from(t);
        let neg = sym::fork(s < 0);
        check!(Some(l) == stored(neg, if neg { !s } else { s } as u64, n), "any clock converts to seconds and nanoseconds in universal time");
        reach!("clock converted");
    }
    /// Any stored pair: never a panic, and an error exactly when it denotes no instant.
    //@ quick=0-3
    fn c21_parts(p) {
        let n = sym::u32();
        let (neg, h) = match p {
            0 => (false, sym::u64() >> 1),
            1 => (true, sym::u64() >> 1),
            2 => (false, (HI - 128) as u64 + sym::u8() as u64),
            _ => (true, (!LO - 128) as u64 + sym::u8() as u64),
        };
        let s = if neg { !h } else { h } as i64;
        sym::assume(p >= 2 || s > HI || s < LO);
        if let Some(l) = stored(neg, h, n) {
            let ok = s >= LO && s <= HI && s + (n / 1_000_000_000) as i64 <= HI;
            let d: Result<OffsetDateTime, ()> = l.try_into();
            check!(d.is_ok() == ok, "exactly the representable instants convert");
            if let Ok(d) = d {
                let v = s + (n / 1_000_000_000) as i64;
                check!(d.unix_timestamp() == v && d.nanosecond() == n % 1_000_000_000, "a stored timestamp converts to that moment");
                reach!("stored timestamp converted");
            } else {
                reach!("stored timestamp refused");
            }
        }
    }
    /// Any two stored timestamps.
    //@ quick=0-3
    fn c21_order(p) {
        let (na, nb) = (nanos(), nanos());
        let (a, b) = (sym::u64() >> 1, sym::u64() >> 1);
        let (ga, gb) = (p & 1 != 0, p & 2 != 0);
        let (sa, sb) = (if ga { !a } else { a } as i64, if gb { !b } else { b } as i64);
        let want = if sa < sb || (sa == sb && na < nb) {
            Ordering::Less
        } else if sa == sb && na == nb {
            Ordering::Equal
        } else {
            Ordering::Greater
        };
        if let (Some(x), Some(y)) = (stored(ga, a, na), stored(gb, b, nb)) {
            ordered(x, y, want);
        }
    }
    /// Two instants.
    //@ quick=0-10,100-109,111
    fn c21_instant_order(p) {
        let (s, r) = (near(p), near(p));
        let (n, m) = (nanos(), nanos());
        let a = some(some(OffsetDateTime::from_unix_timestamp(s)).replace_nanosecond(n));
        let b = some(some(OffsetDateTime::from_unix_timestamp(r)).replace_nanosecond(m));
        let want = if s < r || (s == r && n < m) { Ordering::Less } else if s == r && n == m { Ordering::Equal } else { Ordering::Greater };
        ordered(dlhn::DateTime::from(a), dlhn::DateTime::from(b), want);
    }
}
