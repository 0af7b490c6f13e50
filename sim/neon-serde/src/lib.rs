//! Serde over the simulated JavaScript values, with neon-serde's conventions: every number is an
//! f64, integral ones read as integers; None and unit are null; enums are "Name" or {Name: value}.
use neon::context::Context;
use neon::engine::{self, Key, Slot, Val};
use neon::handle::{Handle, Managed};
use neon::types::JsValue;
use serde::de::{self, DeserializeOwned, Visitor};
use serde::ser::{self, Serialize};

pub mod errors {
    use std::fmt;
    #[derive(Debug, Clone, PartialEq)]
    pub enum Error {
        Msg(String),
        Js(neon::result::Throw),
    }
    pub type Result<T> = std::result::Result<T, Error>;
    impl fmt::Display for Error {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            match self {
                Error::Msg(m) => f.write_str(m),
                Error::Js(_) => f.write_str("JS exception"),
            }
        }
    }
    impl std::error::Error for Error {}
    impl From<neon::result::Throw> for Error {
        fn from(t: neon::result::Throw) -> Error {
            Error::Js(t)
        }
    }
    impl serde::de::Error for Error {
        fn custom<T: fmt::Display>(m: T) -> Error {
            Error::Msg(m.to_string())
        }
    }
    impl serde::ser::Error for Error {
        fn custom<T: fmt::Display>(m: T) -> Error {
            Error::Msg(m.to_string())
        }
    }
}
use errors::{Error, Result};

pub fn to_value<'j, C: Context<'j>, V: Serialize + ?Sized>(_cx: &mut C, v: &V) -> Result<Handle<'j, JsValue>> {
    Ok(Handle::new_internal(JsValue::from_raw(v.serialize(Ser)?)))
}
pub fn from_value<'j, C: Context<'j>, T: DeserializeOwned>(_cx: &mut C, v: Handle<'j, JsValue>) -> Result<T> {
    T::deserialize(De(v.to_raw()))
}
pub fn from_value_opt<'j, C: Context<'j>, T: DeserializeOwned>(
    _cx: &mut C,
    v: Option<Handle<'j, JsValue>>,
) -> Result<T> {
    T::deserialize(De(v.map(|h| h.to_raw()).unwrap_or_else(engine::undefined)))
}
/// For the harness.
pub fn write<V: Serialize + ?Sized>(v: &V) -> Result<Val> {
    v.serialize(Ser)
}
pub fn read<T: DeserializeOwned>(v: Val) -> Result<T> {
    T::deserialize(De(v))
}

// ---- writing -------------------------------------------------------------------------------------

struct Ser;
struct SerSeq {
    items: Vec<Val>,
    variant: Option<&'static str>,
}
struct SerMap {
    out: Val,
    key: Option<Key>,
    variant: Option<&'static str>,
}
fn wrap(variant: Option<&'static str>, v: Val) -> Val {
    match variant {
        None => v,
        Some(n) => engine::object(vec![(n, v)]),
    }
}
macro_rules! nums { ($($f:ident $t:ty)*) => {$(fn $f(self, v: $t) -> Result<Val> { Ok(engine::number(v as f64)) })*} }
impl ser::Serializer for Ser {
    type Ok = Val;
    type Error = Error;
    type SerializeSeq = SerSeq;
    type SerializeTuple = SerSeq;
    type SerializeTupleStruct = SerSeq;
    type SerializeTupleVariant = SerSeq;
    type SerializeMap = SerMap;
    type SerializeStruct = SerMap;
    type SerializeStructVariant = SerMap;
    nums! { serialize_i8 i8 serialize_i16 i16 serialize_i32 i32 serialize_i64 i64 serialize_u8 u8
    serialize_u16 u16 serialize_u32 u32 serialize_u64 u64 serialize_f32 f32 serialize_f64 f64
    serialize_i128 i128 serialize_u128 u128 }
    fn serialize_bool(self, v: bool) -> Result<Val> {
        Ok(engine::boolean(v))
    }
    fn serialize_char(self, v: char) -> Result<Val> {
        Ok(engine::string(&v.to_string()))
    }
    fn serialize_str(self, v: &str) -> Result<Val> {
        Ok(engine::string(v))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Val> {
        Ok(engine::array(v.iter().map(|b| engine::number(*b as f64)).collect()))
    }
    fn serialize_none(self) -> Result<Val> {
        Ok(engine::null())
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Val> {
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<Val> {
        Ok(engine::null())
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Val> {
        Ok(engine::null())
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, variant: &'static str) -> Result<Val> {
        Ok(engine::string(variant))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Val> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(
        self,
        _: &'static str,
        _: u32,
        variant: &'static str,
        v: &T,
    ) -> Result<Val> {
        Ok(wrap(Some(variant), v.serialize(Ser)?))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<SerSeq> {
        Ok(SerSeq { items: vec![], variant: None })
    }
    fn serialize_tuple(self, _: usize) -> Result<SerSeq> {
        Ok(SerSeq { items: vec![], variant: None })
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<SerSeq> {
        Ok(SerSeq { items: vec![], variant: None })
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, v: &'static str, _: usize) -> Result<SerSeq> {
        Ok(SerSeq { items: vec![], variant: Some(v) })
    }
    fn serialize_map(self, _: Option<usize>) -> Result<SerMap> {
        Ok(SerMap { out: engine::object(vec![]), key: None, variant: None })
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<SerMap> {
        Ok(SerMap { out: engine::object(vec![]), key: None, variant: None })
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, v: &'static str, _: usize) -> Result<SerMap> {
        Ok(SerMap { out: engine::object(vec![]), key: None, variant: Some(v) })
    }
}
macro_rules! seqs { ($($t:ident $f:ident)*) => {$(
    impl ser::$t for SerSeq {
        type Ok = Val;
        type Error = Error;
        fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<()> {
            self.items.push(v.serialize(Ser)?);
            Ok(())
        }
        fn end(self) -> Result<Val> { Ok(wrap(self.variant, engine::array(self.items))) }
    }
)*} }
seqs! { SerializeSeq serialize_element SerializeTuple serialize_element SerializeTupleStruct serialize_field SerializeTupleVariant serialize_field }
macro_rules! maps { ($($t:ident)*) => {$(
    impl ser::$t for SerMap {
        type Ok = Val;
        type Error = Error;
        fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<()> {
            engine::set(self.out, Key::Name(k.into()), v.serialize(Ser)?);
            Ok(())
        }
        fn end(self) -> Result<Val> { Ok(wrap(self.variant, self.out)) }
    }
)*} }
maps! { SerializeStruct SerializeStructVariant }
impl ser::SerializeMap for SerMap {
    type Ok = Val;
    type Error = Error;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<()> {
        self.key = Some(Key::Name(engine::describe(k.serialize(Ser)?)));
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<()> {
        let k = self.key.take().ok_or_else(|| Error::Msg("value without a key".into()))?;
        engine::set(self.out, k, v.serialize(Ser)?);
        Ok(())
    }
    fn end(self) -> Result<Val> {
        Ok(self.out)
    }
}

// ---- reading -------------------------------------------------------------------------------------

struct De(Val);
impl<'de> de::Deserializer<'de> for De {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
        enum Kind {
            Unit,
            Bool(bool),
            Num(f64),
            Str(String),
            Seq(Vec<Val>),
            Map(Vec<(String, Val)>),
            Other(String),
        }
        let kind = engine::with(self.0, |s| match s {
            Slot::Undefined | Slot::Null => Kind::Unit,
            Slot::Bool(b) => Kind::Bool(*b),
            Slot::Num(n) => Kind::Num(*n),
            Slot::Str(t) => Kind::Str(t.clone()),
            Slot::Array(a) => Kind::Seq(a.clone()),
            Slot::Object(o) => Kind::Map(o.clone()),
            _ => Kind::Other("unable to coerce value".into()),
        });
        match kind {
            Kind::Unit => visitor.visit_unit(),
            Kind::Bool(b) => visitor.visit_bool(b),
            Kind::Num(n) => {
                if n.trunc() == n {
                    visitor.visit_i64(n as i64)
                } else {
                    visitor.visit_f64(n)
                }
            }
            Kind::Str(t) => visitor.visit_string(t),
            Kind::Seq(a) => visitor.visit_seq(Seq(a.into_iter())),
            Kind::Map(o) => visitor.visit_map(Map { it: o.into_iter(), next: None }),
            Kind::Other(m) => Err(Error::Msg(m)),
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
        if engine::with(self.0, |s| matches!(s, Slot::Undefined | Slot::Null)) {
            visitor.visit_none()
        } else {
            visitor.visit_some(self)
        }
    }
    fn deserialize_enum<V: Visitor<'de>>(
        self,
        _name: &'static str,
        _variants: &'static [&'static str],
        visitor: V,
    ) -> Result<V::Value> {
        let (name, value) = engine::with(self.0, |s| match s {
            Slot::Str(t) => Ok((t.clone(), None)),
            Slot::Object(o) if o.len() == 1 => Ok((o[0].0.clone(), Some(o[0].1))),
            Slot::Object(o) => Err(Error::Msg(format!("object with {} keys for an enum", o.len()))),
            _ => Err(Error::Msg("expected a string or an object".into())),
        })?;
        visitor.visit_enum(Enum { name, value })
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, visitor: V) -> Result<V::Value> {
        visitor.visit_newtype_struct(self)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string unit unit_struct seq tuple
        tuple_struct map struct identifier ignored_any bytes byte_buf
    }
}
struct Seq(std::vec::IntoIter<Val>);
impl<'de> de::SeqAccess<'de> for Seq {
    type Error = Error;
    fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>> {
        match self.0.next() {
            None => Ok(None),
            Some(v) => seed.deserialize(De(v)).map(Some),
        }
    }
}
struct Map {
    it: std::vec::IntoIter<(String, Val)>,
    next: Option<Val>,
}
impl<'de> de::MapAccess<'de> for Map {
    type Error = Error;
    fn next_key_seed<K: de::DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>> {
        match self.it.next() {
            None => Ok(None),
            Some((k, v)) => {
                self.next = Some(v);
                seed.deserialize(<String as de::IntoDeserializer<Error>>::into_deserializer(k)).map(Some)
            }
        }
    }
    fn next_value_seed<V: de::DeserializeSeed<'de>>(&mut self, seed: V) -> Result<V::Value> {
        match self.next.take() {
            Some(v) => seed.deserialize(De(v)),
            None => Err(Error::Msg("value without a key".into())),
        }
    }
}
struct Enum {
    name: String,
    value: Option<Val>,
}
impl<'de> de::EnumAccess<'de> for Enum {
    type Error = Error;
    type Variant = Variant;
    fn variant_seed<V: de::DeserializeSeed<'de>>(self, seed: V) -> Result<(V::Value, Variant)> {
        let v = seed.deserialize(<String as de::IntoDeserializer<Error>>::into_deserializer(self.name))?;
        Ok((v, Variant(self.value)))
    }
}
struct Variant(Option<Val>);
impl Variant {
    fn value(self) -> Result<De> {
        self.0.map(De).ok_or_else(|| Error::Msg("enum variant without its value".into()))
    }
}
impl<'de> de::VariantAccess<'de> for Variant {
    type Error = Error;
    fn unit_variant(self) -> Result<()> {
        match self.0 {
            None => Ok(()),
            Some(_) => Err(Error::Msg("enum variant with an unexpected value".into())),
        }
    }
    fn newtype_variant_seed<T: de::DeserializeSeed<'de>>(self, seed: T) -> Result<T::Value> {
        seed.deserialize(self.value()?)
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, visitor: V) -> Result<V::Value> {
        de::Deserializer::deserialize_any(self.value()?, visitor)
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], visitor: V) -> Result<V::Value> {
        de::Deserializer::deserialize_any(self.value()?, visitor)
    }
}
