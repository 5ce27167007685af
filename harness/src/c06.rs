//! C06: dates and timestamps.
//! bound: every date of the years -9999..9999 (encode, decode and any pair of wire integers);
//!   timestamps: every second of 3-day windows around a set of instants (year ends, leap days,
//!   epoch, extremes of the type), every nanosecond, several UTC offsets; every wire pair of seconds
//!   and nanoseconds is decided for acceptance, and for its value inside the windows.
use crate::refm::*;
use crate::sym;
use crate::util::*;
use serde::{Deserialize, Serialize};
use std::convert::TryInto;
use time::{Date, OffsetDateTime, UtcOffset};

#[derive(Serialize, Deserialize)]
struct FD(#[serde(with = "dlhn::format::date")] Date);
#[derive(Serialize, Deserialize)]
struct FT(#[serde(with = "dlhn::format::date_time")] OffsetDateTime);

fn leap(y: i32) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}
fn valid(y: i32, o: u16) -> bool {
    y >= -9999 && y <= 9999 && o >= 1 && (o <= 365 || (o == 366 && leap(y)))
}
fn date_bytes(y: i32, o: u16) -> Vec<u8> {
    let mut w = Vec::new();
    put_i32(y - 2000, &mut w);
    put_u16(o - 1, &mut w);
    w
}
fn date(d: Date, y: i32, o: u16) {
    let want = date_bytes(y, o);
    let (a, b) = (enc(&dlhn::Date::from(d)), enc(&FD(d)));
    check!(a.is_ok() && b.is_ok(), "writing a date succeeds");
    let (a, b) = (a.unwrap_or_default(), b.unwrap_or_default());
    sym::obs_bytes(&a);
    check!(a == want, "Date is year - 2000 and ordinal - 1");
    check!(b == want, "format::date writes the same bytes");
    let mut e = want.clone();
    e.push(3);
    match (dec::<dlhn::Date>(&e), dec::<FD>(&e)) {
        ((Ok(x), n), (Ok(z), m)) => {
            check!(n == want.len() && m == want.len(), "a date consumes its bytes");
            let x: Result<Date, ()> = x.try_into();
            match x {
                Ok(x) => check!(x == d, "Date decodes to the same date"),
                Err(()) => check!(false, "a written Date converts back"),
            }
            check!(z.0 == d, "format::date decodes to the same date");
            reach!("date round trip");
        }
        _ => check!(false, "a written date is readable"),
    }
}
/// Days from 1970-01-01 of the first day of a year.
fn year_start(y: i64) -> i64 {
    let p = y - 1;
    p * 365 + p.div_euclid(4) - p.div_euclid(100) + p.div_euclid(400) - 719162
}
fn instant_bytes(secs: i64, nanos: u32) -> Vec<u8> {
    let mut w = Vec::new();
    put_i64(secs, &mut w);
    put_u32(nanos, &mut w);
    w
}
fn instant(t: OffsetDateTime, secs: i64, nanos: u32) {
    let want = instant_bytes(secs, nanos);
    let (a, b) = (enc(&dlhn::DateTime::from(t)), enc(&FT(t)));
    check!(a.is_ok() && b.is_ok(), "writing a timestamp succeeds");
    let (a, b) = (a.unwrap_or_default(), b.unwrap_or_default());
    sym::obs_bytes(&a);
    check!(a == want, "DateTime is unix seconds and nanoseconds");
    check!(b == want, "format::date_time writes the same bytes");
}
fn decoded(want: Vec<u8>, secs: i64, nanos: u32) {
    let mut e = want.clone();
    e.push(3);
    match (dec::<dlhn::DateTime>(&e), dec::<FT>(&e)) {
        ((Ok(x), n), (Ok(z), m)) => {
            check!(n == want.len() && m == want.len(), "a timestamp consumes its bytes");
            let x: Result<OffsetDateTime, ()> = x.try_into();
            match x {
                Ok(x) => {
                    check!(x.unix_timestamp() == secs, "DateTime decodes to the same second");
                    check!(x.nanosecond() == nanos, "DateTime decodes to the same nanosecond");
                }
                Err(()) => check!(false, "a written DateTime converts back"),
            }
            check!(z.0.unix_timestamp() == secs, "format::date_time decodes to the same second");
            check!(z.0.nanosecond() == nanos, "format::date_time decodes to the same nanosecond");
            reach!("timestamp round trip");
        }
        _ => check!(false, "a written timestamp is readable"),
    }
}
/// (year, day) pairs the windows start at.
const DAYS: [(i32, u16); 16] = [
    (1970, 1), (1969, 365), (2000, 1), (2000, 59), (1999, 364), (2000, 365), (1900, 59), (2100, 59),
    (1600, 366), (1, 1), (0, 60), (-1, 365), (9999, 363), (-9999, 1), (2038, 19), (1901, 347),
];

entries! {
    //@ quick=0
    fn c06_date(p) {
        let y = -9999 + sym::u16() as i32;
        let o = sym::u16();
        sym::assume(valid(y, o));
        match Date::from_ordinal_date(y, o) {
            Ok(d) => date(d, y, o),
            Err(_) => check!(false, "reference calendar agrees with time"),
        }
    }
    /// Any pair of wire integers.
    //@ quick=0
    fn c06_date_wire(p) {
        let (y, o) = (sym::i32(), sym::u16());
        let mut e = Vec::new();
        put_i32(y, &mut e);
        put_u16(o, &mut e);
        let (year, ord) = (y as i64 + 2000, o as u32 + 1);
        let ok = year <= 9999 && year >= -9999 && ord <= 366 && valid(year as i32, ord as u16);
        match dec::<FD>(&e).0 {
            Ok(d) => {
                check!(ok, "format::date refuses an impossible date");
                check!(d.0.year() as i64 == year && d.0.ordinal() as u32 == ord, "format::date gives the date on the wire");
                reach!("wire date");
            }
            Err(_) => {
                check!(!ok, "format::date accepts every possible date");
                reach!("impossible wire date");
            }
        }
        match dec::<dlhn::Date>(&e).0 {
            Ok(d) => {
                let d: Result<Date, ()> = d.try_into();
                check!(d.is_ok() == ok, "Date converts exactly the possible dates");
                if let Ok(d) = d {
                    check!(d.year() as i64 == year && d.ordinal() as u32 == ord, "Date gives the date on the wire");
                }
            }
            Err(_) => check!(!ok, "Date accepts every possible date"),
        }
    }
    //@ quick=0-15
    fn c06_instant(p) {
        let (y, o) = DAYS[p as usize];
        // three days from there
        let (h, m, s, n) = (sym::u8() % 24, sym::u8() % 60, sym::u8() % 60, sym::u32());
        sym::assume(n < 1_000_000_000);
        let day = sym::pick(3);
        let d = match Date::from_ordinal_date(y, o) {
            Ok(d) => d,
            Err(_) => return,
        };
        let mut d = d;
        for _ in 0..day {
            d = match d.next_day() {
                Some(d) => d,
                None => return,
            };
        }
        let secs = (year_start(y as i64) + o as i64 - 1 + day as i64) * 86400
            + h as i64 * 3600 + m as i64 * 60 + s as i64;
        match d.with_hms_nano(h, m, s, n) {
            Ok(t) => instant(t.assume_utc(), secs, n),
            Err(_) => check!(false, "components are a time"),
        }
        reach!("timestamp written");
    }
    /// The same with clocks of other offsets.
    //@ quick=0,3,9,13 thorough=0-15
    fn c06_offset(p) {
        let (y, o) = DAYS[p as usize];
        let (oh, om, os) = [(9i8, 0i8, 0i8), (-5, -30, 0), (23, 59, 59), (-23, -59, -59), (0, 0, -1)][sym::pick(5) as usize];
        let (h, m, s, n) = (sym::u8() % 24, sym::u8() % 60, sym::u8() % 60, sym::u32());
        sym::assume(n < 1_000_000_000);
        let (d, off) = match (Date::from_ordinal_date(y, o), UtcOffset::from_hms(oh, om, os)) {
            (Ok(d), Ok(off)) => (d, off),
            _ => return,
        };
        let local = (year_start(y as i64) + o as i64 - 1) * 86400 + h as i64 * 3600 + m as i64 * 60 + s as i64;
        let secs = local - (oh as i64 * 3600 + om as i64 * 60 + os as i64);
        if let Ok(t) = d.with_hms_nano(h, m, s, n) {
            instant(t.assume_offset(off), secs, n);
            reach!("timestamp with offset written");
        }
    }
    //@ quick=0-15,100-115 thorough=0-15,100-115,200-215
    fn c06_back(p) {
        let (y, o) = DAYS[(p % 100) as usize];
        let base = (year_start(y as i64) + o as i64 - 1) * 86400;
        // around the day's start, in the middle, and around its end
        let at = match p / 100 {
            0 => sym::u8() as i64 - 128,
            1 => 43200 + sym::u8() as i64,
            _ => sym::u16() as i64 + 65536 * sym::pick(2) as i64,
        };
        let n = sym::u32();
        sym::assume(n < 1_000_000_000);
        let secs = base + at;
        if !sym::fork(secs >= -377705116800) {
            return;
        }
        // zig-zag spelled so that the sign is not symbolic
        let neg = sym::fork(secs < 0);
        let h = if neg { !secs } else { secs } as u64;
        let mut e = Vec::new();
        put_u64(h << 1 | neg as u64, &mut e);
        put_u32(n, &mut e);
        decoded(e, secs, n);
    }
    /// Any pair of wire integers: accepted exactly when the instant is representable.
    //@ quick=0-3
    fn c06_instant_wire(p) {
        const LO: i64 = -377705116800;
        const HI: i64 = 253402300799;
        let n = sym::u32();
        // outside the range, and 256 seconds around each of its ends
        let (neg, h) = match p {
            0 => (false, sym::u64() >> 1),
            1 => (true, sym::u64() >> 1),
            2 => (false, (HI - 128) as u64 + sym::u8() as u64),
            _ => (true, (!LO - 128) as u64 + sym::u8() as u64),
        };
        let s = if neg { !h } else { h } as i64;
        sym::assume(p >= 2 || s > HI || s < LO);
        let mut e = Vec::new();
        put_u64(h << 1 | neg as u64, &mut e);
        put_u32(n, &mut e);
        let whole = (n / 1_000_000_000) as i64;
        let ok = s >= -377705116800 && s <= 253402300799 && s + whole <= 253402300799;
        match dec::<FT>(&e).0 {
            Ok(d) => {
                check!(ok, "format::date_time refuses an instant out of range");
                check!(d.0.unix_timestamp() == s + whole, "nanoseconds carry into seconds");
                reach!("wire timestamp");
            }
            Err(_) => {
                check!(!ok, "format::date_time accepts every representable instant");
                reach!("impossible wire timestamp");
            }
        }
        match dec::<dlhn::DateTime>(&e).0 {
            Ok(d) => {
                let d: Result<OffsetDateTime, ()> = d.try_into();
                check!(d.is_ok() == ok, "DateTime converts exactly the representable instants");
            }
            Err(_) => check!(false, "DateTime stores any pair"),
        }
    }
}
