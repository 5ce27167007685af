//! Calls into the crate under test.
use dlhn::{Deserializer, Serializer};
use serde::{de::DeserializeOwned, Serialize};

pub fn enc<T: Serialize + ?Sized>(v: &T) -> Result<Vec<u8>, dlhn::ser::Error> {
    let mut out = Vec::new();
    v.serialize(&mut Serializer::new(&mut out))?;
    Ok(out)
}
/// Decodes from a slice; returns the result and the number of bytes consumed.
pub fn dec<T: DeserializeOwned>(b: &[u8]) -> (Result<T, dlhn::de::Error>, usize) {
    let mut r = b;
    let v = T::deserialize(&mut Deserializer::new(&mut r));
    (v, b.len() - r.len())
}
