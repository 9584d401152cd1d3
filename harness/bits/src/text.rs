//! Serializer and deserializer of one string, in formats of either kind.
use serde::de::{self, Visitor};
use serde::ser::{self, Serialize};

/// A serializer that records the one string it is given, in either kind of format.
pub struct Record {
    pub human: bool,
}
#[derive(Debug)]
pub struct Refused(pub String);
impl std::fmt::Display for Refused {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Refused {}
impl ser::Error for Refused {
    fn custom<T: std::fmt::Display>(m: T) -> Self {
        Refused(m.to_string())
    }
}
impl de::Error for Refused {
    fn custom<T: std::fmt::Display>(m: T) -> Self {
        Refused(m.to_string())
    }
}
macro_rules! not_a_string {
    ($($f:ident($($t:ty),*);)*) => { $( fn $f(self, $(_: $t),*) -> Result<String, Refused> {
        Err(Refused(format!("not a string but {}", stringify!($f))))
    } )* };
}
pub type No = ser::Impossible<String, Refused>;
impl ser::Serializer for Record {
    type Ok = String;
    type Error = Refused;
    type SerializeSeq = No;
    type SerializeTuple = No;
    type SerializeTupleStruct = No;
    type SerializeTupleVariant = No;
    type SerializeMap = No;
    type SerializeStruct = No;
    type SerializeStructVariant = No;
    fn serialize_str(self, s: &str) -> Result<String, Refused> {
        Ok(s.to_string())
    }
    not_a_string! {
        serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64);
        serialize_u8(u8); serialize_u16(u16); serialize_u32(u32); serialize_u64(u64); serialize_f32(f32);
        serialize_f64(f64); serialize_char(char); serialize_bytes(&[u8]); serialize_none(); serialize_unit();
        serialize_unit_struct(&'static str); serialize_unit_variant(&'static str, u32, &'static str);
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<String, Refused> {
        Err(Refused("not a string but some".into()))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<String, Refused> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<String, Refused> {
        Err(Refused("not a string but a variant".into()))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<No, Refused> {
        Err(Refused("not a string but a sequence".into()))
    }
    fn serialize_tuple(self, _: usize) -> Result<No, Refused> {
        Err(Refused("not a string but a tuple".into()))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<No, Refused> {
        Err(Refused("not a string but a tuple".into()))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, Refused> {
        Err(Refused("not a string but a variant".into()))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<No, Refused> {
        Err(Refused("not a string but a map".into()))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<No, Refused> {
        Err(Refused("not a string but a struct".into()))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, Refused> {
        Err(Refused("not a string but a variant".into()))
    }
    fn is_human_readable(&self) -> bool {
        self.human
    }
}

/// The ways a format can hand over a string.
#[derive(Clone, Copy, Debug)]
pub enum How {
    Transient,
    Borrowed,
    Owned,
    Compact,
}

/// A deserializer of one string.
pub struct Text<'a>(pub How, pub &'a str);
impl<'de> de::Deserializer<'de> for Text<'de> {
    type Error = Refused;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Refused> {
        match self.0 {
            How::Transient | How::Compact => v.visit_str(self.1),
            How::Borrowed => v.visit_borrowed_str(self.1),
            How::Owned => v.visit_string(self.1.to_string()),
        }
    }
    fn is_human_readable(&self) -> bool {
        !matches!(self.0, How::Compact)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
