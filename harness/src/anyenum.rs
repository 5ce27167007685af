//! An enum of any index, through serde by hand.
use serde::de::{EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{SerializeStructVariant, SerializeTupleVariant};
use serde::{Deserialize, Deserializer, Serialize, Serializer};

/// An enum with any index and one of the four kinds of payload, written by hand.
#[derive(PartialEq)]
pub struct Any {
    pub kind: u8,
    pub index: u32,
    pub a: u16,
    pub b: bool,
}
impl Serialize for Any {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.kind {
            0 => s.serialize_unit_variant("E", self.index, "V"),
            1 => s.serialize_newtype_variant("E", self.index, "V", &self.a),
            2 => {
                let mut t = s.serialize_tuple_variant("E", self.index, "V", 2)?;
                t.serialize_field(&self.a)?;
                t.serialize_field(&self.b)?;
                t.end()
            }
            _ => {
                let mut t = s.serialize_struct_variant("E", self.index, "V", 2)?;
                t.serialize_field("a", &self.a)?;
                t.serialize_field("b", &self.b)?;
                t.end()
            }
        }
    }
}
struct Ix(u64);
impl<'de> Deserialize<'de> for Ix {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Ix;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("index")
            }
            fn visit_u64<E>(self, v: u64) -> Result<Ix, E> {
                Ok(Ix(v))
            }
        }
        d.deserialize_identifier(V)
    }
}
struct Pair;
impl<'de> Visitor<'de> for Pair {
    type Value = (u16, bool);
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("pair")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut s: A) -> Result<(u16, bool), A::Error> {
        match (s.next_element()?, s.next_element()?) {
            (Some(a), Some(b)) => Ok((a, b)),
            _ => Err(serde::de::Error::custom("short")),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut s: A) -> Result<(u16, bool), A::Error> {
        let (mut a, mut b) = (None, None);
        while let Some(k) = s.next_key::<String>()? {
            if k == "a" {
                a = Some(s.next_value()?)
            } else {
                b = Some(s.next_value()?)
            }
        }
        match (a, b) {
            (Some(a), Some(b)) => Ok((a, b)),
            _ => Err(serde::de::Error::custom("short")),
        }
    }
}
impl Any {
    pub fn read<'de, D: Deserializer<'de>>(kind: u8, d: D) -> Result<Any, D::Error> {
        struct V(u8);
        impl<'de> Visitor<'de> for V {
            type Value = Any;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("enum")
            }
            fn visit_enum<A: EnumAccess<'de>>(self, e: A) -> Result<Any, A::Error> {
                let (i, v) = e.variant::<Ix>()?;
                let (a, b) = match self.0 {
                    0 => {
                        v.unit_variant()?;
                        (0, false)
                    }
                    1 => (v.newtype_variant()?, false),
                    2 => v.tuple_variant(2, Pair)?,
                    _ => v.struct_variant(&["a", "b"], Pair)?,
                };
                if i.0 > u32::MAX as u64 {
                    return Err(serde::de::Error::custom("index"));
                }
                Ok(Any { kind: self.0, index: i.0 as u32, a, b })
            }
        }
        d.deserialize_enum("E", &[], V(kind))
    }
}
