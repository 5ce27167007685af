//! C01: scalars survive a round trip bit for bit.
use crate::sym;
use crate::util::*;
use serde::{de::DeserializeOwned, Serialize};

/// Bit-exact equality.
trait Same {
    fn same(&self, o: &Self) -> bool;
}
macro_rules! same_eq { ($($t:ty)*) => { $(impl Same for $t { fn same(&self, o: &Self) -> bool { *self == *o } })* } }
same_eq!(bool u8 u16 u32 u64 i8 i16 i32 i64 char);
impl Same for () {
    fn same(&self, _: &Self) -> bool {
        true
    }
}
impl Same for f32 {
    fn same(&self, o: &Self) -> bool {
        self.to_bits() == o.to_bits()
    }
}
impl Same for f64 {
    fn same(&self, o: &Self) -> bool {
        self.to_bits() == o.to_bits()
    }
}
impl<T: Same> Same for Option<T> {
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (None, None) => true,
            (Some(a), Some(b)) => a.same(b),
            _ => false,
        }
    }
}

/// `tail` arbitrary bytes follow the value: they must be left untouched.
#[inline(never)]
fn rt<T: Same + Serialize + DeserializeOwned>(v: T) {
    match enc(&v) {
        Err(_) => check!(false, "serializing succeeds"),
        Ok(mut b) => {
            sym::obs_bytes(&b);
            let n = b.len();
            match dec::<T>(&b) {
                (Err(_), _) => check!(false, "decoding what was serialized succeeds"),
                (Ok(w), used) => {
                    check!(w.same(&v), "round trip is identical");
                    check!(used == n, "every byte is consumed");
                }
            }
            let mut t = [0u8; 2];
            sym::bytes(&mut t);
            b.extend_from_slice(&t);
            match dec::<T>(&b) {
                (Err(_), _) => check!(false, "decoding with trailing bytes succeeds"),
                (Ok(w), used) => {
                    check!(w.same(&v), "round trip with trailing bytes is identical");
                    check!(used == n, "trailing bytes are not consumed");
                    reach!("round trip done");
                }
            }
        }
    }
}

fn opt<T>(f: fn() -> T) -> Option<T> {
    if sym::flip() {
        Some(f())
    } else {
        None
    }
}

entries! {
    fn c01_bool(p) { rt(sym::boolean()) }
    fn c01_u8(p) { rt(sym::u8()) }
    fn c01_u16(p) { rt(sym::u16()) }
    fn c01_u32(p) { rt(sym::u32()) }
    fn c01_u64(p) { rt(sym::u64()) }
    fn c01_i8(p) { rt(sym::i8()) }
    fn c01_i16(p) { rt(sym::i16()) }
    fn c01_i32(p) { rt(sym::i32()) }
    fn c01_i64(p) { rt(sym::i64()) }
    fn c01_f32(p) { rt(f32::from_bits(sym::u32())) }
    fn c01_f64(p) { rt(f64::from_bits(sym::u64())) }
    fn c01_char(p) { rt(sym::char()) }
    fn c01_unit(p) { rt(()) }
    fn c01_opt_bool(p) { rt(opt(sym::boolean)) }
    fn c01_opt_u8(p) { rt(opt(sym::u8)) }
    fn c01_opt_u16(p) { rt(opt(sym::u16)) }
    fn c01_opt_u32(p) { rt(opt(sym::u32)) }
    fn c01_opt_u64(p) { rt(opt(sym::u64)) }
    fn c01_opt_i8(p) { rt(opt(sym::i8)) }
    fn c01_opt_i16(p) { rt(opt(sym::i16)) }
    fn c01_opt_i32(p) { rt(opt(sym::i32)) }
    fn c01_opt_i64(p) { rt(opt(sym::i64)) }
    fn c01_opt_f32(p) { rt(opt(|| f32::from_bits(sym::u32()))) }
    fn c01_opt_f64(p) { rt(opt(|| f64::from_bits(sym::u64()))) }
    fn c01_opt_char(p) { rt(opt(sym::char)) }
    fn c01_opt_unit(p) { rt(opt(|| ())) }
    fn c01_opt_opt_i32(p) { rt(opt(|| opt(sym::i32))) }
}
