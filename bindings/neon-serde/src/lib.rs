//! A stand-in for neon-serde (the revision /repo/native/Cargo.toml names): values to and from
//! serde's data model, with neon-serde's rules (whole numbers are visited as i64, `null` and
//! `undefined` are None, enums are a string or an object with one property).

use neon::prelude::*;
use serde::de::{self, DeserializeOwned, DeserializeSeed, EnumAccess, IntoDeserializer, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize};

pub mod errors {
    use std::fmt;
    #[derive(Debug)]
    pub enum Error {
        Js,
        Msg(String),
    }
    impl fmt::Display for Error {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            match self {
                Error::Js => f.write_str("JS exception"),
                Error::Msg(m) => f.write_str(m),
            }
        }
    }
    impl std::error::Error for Error {}
    impl From<neon::result::Throw> for Error {
        fn from(_: neon::result::Throw) -> Self { Error::Js }
    }
    impl serde::de::Error for Error {
        fn custom<T: fmt::Display>(m: T) -> Self { Error::Msg(m.to_string()) }
    }
    impl serde::ser::Error for Error {
        fn custom<T: fmt::Display>(m: T) -> Self { Error::Msg(m.to_string()) }
    }
    pub type Result<T> = std::result::Result<T, Error>;
}
use errors::{Error, Result as LibResult};

pub fn from_value<'j, C: Context<'j>, T: DeserializeOwned>(cx: &mut C, value: Handle<'j, JsValue>) -> LibResult<T> {
    T::deserialize(De { cx, input: value })
}

pub fn to_value<'j, C: Context<'j>, V: Serialize + ?Sized>(cx: &mut C, value: &V) -> LibResult<Handle<'j, JsValue>> {
    value.serialize(Ser { cx, p: std::marker::PhantomData })
}

struct De<'x, 'j, C: Context<'j>> {
    cx: &'x mut C,
    input: Handle<'j, JsValue>,
}

impl<'x, 'j, 'de, C: Context<'j>> de::Deserializer<'de> for De<'x, 'j, C> {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> LibResult<V::Value> {
        let i = self.input;
        if i.is_a::<JsNull>() || i.is_a::<JsUndefined>() {
            v.visit_unit()
        } else if let Ok(b) = i.downcast::<JsBoolean>() {
            v.visit_bool(b.value())
        } else if let Ok(s) = i.downcast::<JsString>() {
            v.visit_string(s.value())
        } else if let Ok(n) = i.downcast::<JsNumber>() {
            let n = n.value();
            if n.trunc() == n { v.visit_i64(n as i64) } else { v.visit_f64(n) }
        } else if let Ok(a) = i.downcast::<JsArray>() {
            let len = a.len();
            v.visit_seq(Seq { cx: self.cx, a, i: 0, len })
        } else if let Ok(o) = i.downcast::<JsObject>() {
            let names = o.get_own_property_names(self.cx)?.to_vec(self.cx)?;
            v.visit_map(Map { cx: self.cx, o, names, i: 0 })
        } else {
            Err(Error::Msg("unimplemented type".into()))
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> LibResult<V::Value> {
        if self.input.is_a::<JsNull>() || self.input.is_a::<JsUndefined>() { v.visit_none() } else { v.visit_some(self) }
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> LibResult<V::Value> {
        if let Ok(s) = self.input.downcast::<JsString>() {
            v.visit_enum(Enum { cx: self.cx, key: s.value(), value: None })
        } else if let Ok(o) = self.input.downcast::<JsObject>() {
            let names = o.get_own_property_names(self.cx)?.to_vec(self.cx)?;
            if names.len() != 1 {
                return Err(Error::Msg(format!("object key: {} properties", names.len())));
            }
            let key = match names[0].downcast::<JsString>() {
                Ok(k) => k.value(),
                Err(_) => return Err(Error::Msg("object key".into())),
            };
            let value = o.get(self.cx, key.as_str())?;
            v.visit_enum(Enum { cx: self.cx, key, value: Some(value) })
        } else {
            Err(Error::Msg("expected an enum".into()))
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> LibResult<V::Value> { v.visit_newtype_struct(self) }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, v: V) -> LibResult<V::Value> { v.visit_unit() }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map struct identifier
    }
}

struct Seq<'x, 'j, C: Context<'j>> { cx: &'x mut C, a: Handle<'j, JsArray>, i: u32, len: u32 }
impl<'x, 'j, 'de, C: Context<'j>> SeqAccess<'de> for Seq<'x, 'j, C> {
    type Error = Error;
    fn size_hint(&self) -> Option<usize> { Some((self.len - self.i) as usize) }
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> LibResult<Option<T::Value>> {
        if self.i >= self.len { return Ok(None) }
        let v = self.a.get(self.cx, self.i)?;
        self.i += 1;
        seed.deserialize(De { cx: self.cx, input: v }).map(Some)
    }
}

struct Map<'x, 'j, C: Context<'j>> { cx: &'x mut C, o: Handle<'j, JsObject>, names: Vec<Handle<'j, JsValue>>, i: usize }
impl<'x, 'j, 'de, C: Context<'j>> MapAccess<'de> for Map<'x, 'j, C> {
    type Error = Error;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> LibResult<Option<K::Value>> {
        match self.names.get(self.i) {
            Some(k) => { let k = *k; seed.deserialize(De { cx: self.cx, input: k }).map(Some) }
            None => Ok(None),
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> LibResult<T::Value> {
        let k = self.names[self.i].downcast::<JsString>().map_err(|e| Error::Msg(e.to_string()))?.value();
        self.i += 1;
        let v = self.o.get(self.cx, k.as_str())?;
        seed.deserialize(De { cx: self.cx, input: v })
    }
}

struct Enum<'x, 'j, C: Context<'j>> { cx: &'x mut C, key: String, value: Option<Handle<'j, JsValue>> }
struct Variant<'x, 'j, C: Context<'j>> { cx: &'x mut C, value: Option<Handle<'j, JsValue>> }
impl<'x, 'j, 'de, C: Context<'j>> EnumAccess<'de> for Enum<'x, 'j, C> {
    type Error = Error;
    type Variant = Variant<'x, 'j, C>;
    fn variant_seed<V: DeserializeSeed<'de>>(self, seed: V) -> LibResult<(V::Value, Self::Variant)> {
        let de: serde::de::value::StringDeserializer<Error> = self.key.into_deserializer();
        let k = seed.deserialize(de)?;
        Ok((k, Variant { cx: self.cx, value: self.value }))
    }
}
impl<'x, 'j, 'de, C: Context<'j>> VariantAccess<'de> for Variant<'x, 'j, C> {
    type Error = Error;
    fn unit_variant(self) -> LibResult<()> {
        match self.value {
            None => Ok(()),
            Some(v) => serde::Deserialize::deserialize(De { cx: self.cx, input: v }),
        }
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> LibResult<T::Value> {
        match self.value {
            Some(v) => seed.deserialize(De { cx: self.cx, input: v }),
            None => Err(de::Error::invalid_type(de::Unexpected::UnitVariant, &"newtype variant")),
        }
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, v: V) -> LibResult<V::Value> {
        match self.value {
            Some(x) if x.is_a::<JsArray>() => de::Deserializer::deserialize_any(De { cx: self.cx, input: x }, v),
            _ => Err(de::Error::invalid_type(de::Unexpected::UnitVariant, &"tuple variant")),
        }
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], v: V) -> LibResult<V::Value> {
        match self.value {
            Some(x) if x.is_a::<JsObject>() && !x.is_a::<JsArray>() => de::Deserializer::deserialize_any(De { cx: self.cx, input: x }, v),
            _ => Err(de::Error::invalid_type(de::Unexpected::UnitVariant, &"struct variant")),
        }
    }
}

struct Ser<'x, 'j, C: Context<'j>> { cx: &'x mut C, p: std::marker::PhantomData<&'j ()> }
type H<'j> = Handle<'j, JsValue>;

impl<'x, 'j, C: Context<'j>> ser::Serializer for Ser<'x, 'j, C> {
    type Ok = H<'j>;
    type Error = Error;
    type SerializeSeq = SeqSer<'x, 'j, C>;
    type SerializeTuple = SeqSer<'x, 'j, C>;
    type SerializeTupleStruct = SeqSer<'x, 'j, C>;
    type SerializeTupleVariant = SeqSer<'x, 'j, C>;
    type SerializeMap = ObjSer<'x, 'j, C>;
    type SerializeStruct = ObjSer<'x, 'j, C>;
    type SerializeStructVariant = ObjSer<'x, 'j, C>;

    fn serialize_bool(self, v: bool) -> LibResult<H<'j>> { Ok(JsBoolean::new(self.cx, v).upcast()) }
    fn serialize_i8(self, v: i8) -> LibResult<H<'j>> { self.serialize_f64(v as f64) }
    fn serialize_i16(self, v: i16) -> LibResult<H<'j>> { self.serialize_f64(v as f64) }
    fn serialize_i32(self, v: i32) -> LibResult<H<'j>> { self.serialize_f64(v as f64) }
    fn serialize_i64(self, v: i64) -> LibResult<H<'j>> { self.serialize_f64(v as f64) }
    fn serialize_u8(self, v: u8) -> LibResult<H<'j>> { self.serialize_f64(v as f64) }
    fn serialize_u16(self, v: u16) -> LibResult<H<'j>> { self.serialize_f64(v as f64) }
    fn serialize_u32(self, v: u32) -> LibResult<H<'j>> { self.serialize_f64(v as f64) }
    fn serialize_u64(self, v: u64) -> LibResult<H<'j>> { self.serialize_f64(v as f64) }
    fn serialize_f32(self, v: f32) -> LibResult<H<'j>> { self.serialize_f64(v as f64) }
    fn serialize_f64(self, v: f64) -> LibResult<H<'j>> { Ok(JsNumber::new(self.cx, v).upcast()) }
    fn serialize_char(self, v: char) -> LibResult<H<'j>> { self.serialize_str(&v.to_string()) }
    fn serialize_str(self, v: &str) -> LibResult<H<'j>> { Ok(JsString::new(self.cx, v).upcast()) }
    fn serialize_bytes(self, _: &[u8]) -> LibResult<H<'j>> { Err(Error::Msg("bytes".into())) }
    fn serialize_none(self) -> LibResult<H<'j>> { Ok(JsNull::new().upcast()) }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> LibResult<H<'j>> { v.serialize(self) }
    fn serialize_unit(self) -> LibResult<H<'j>> { Ok(JsNull::new().upcast()) }
    fn serialize_unit_struct(self, _: &'static str) -> LibResult<H<'j>> { Ok(JsNull::new().upcast()) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> LibResult<H<'j>> { self.serialize_str(v) }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> LibResult<H<'j>> { v.serialize(self) }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, name: &'static str, v: &T) -> LibResult<H<'j>> {
        let o = JsObject::new(self.cx);
        let v = to_value(self.cx, v)?;
        o.set(self.cx, name, v)?;
        Ok(o.upcast())
    }
    fn serialize_seq(self, _: Option<usize>) -> LibResult<Self::SerializeSeq> {
        let a = JsArray::new(self.cx, 0);
        Ok(SeqSer { cx: self.cx, outer: None, a })
    }
    fn serialize_tuple(self, _: usize) -> LibResult<Self::SerializeSeq> { self.serialize_seq(None) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> LibResult<Self::SerializeSeq> { self.serialize_seq(None) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, name: &'static str, _: usize) -> LibResult<Self::SerializeSeq> {
        let outer = JsObject::new(self.cx);
        let a = JsArray::new(self.cx, 0);
        outer.set(self.cx, name, a)?;
        Ok(SeqSer { cx: self.cx, outer: Some(outer), a })
    }
    fn serialize_map(self, _: Option<usize>) -> LibResult<Self::SerializeMap> {
        let o = JsObject::new(self.cx);
        Ok(ObjSer { cx: self.cx, outer: None, o, key: None })
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> LibResult<Self::SerializeMap> { self.serialize_map(None) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, name: &'static str, _: usize) -> LibResult<Self::SerializeMap> {
        let outer = JsObject::new(self.cx);
        let o = JsObject::new(self.cx);
        outer.set(self.cx, name, o)?;
        Ok(ObjSer { cx: self.cx, outer: Some(outer), o, key: None })
    }
}

struct SeqSer<'x, 'j, C: Context<'j>> { cx: &'x mut C, outer: Option<Handle<'j, JsObject>>, a: Handle<'j, JsArray> }
impl<'x, 'j, C: Context<'j>> SeqSer<'x, 'j, C> {
    fn push<T: Serialize + ?Sized>(&mut self, v: &T) -> LibResult<()> {
        let h = to_value(self.cx, v)?;
        let n = self.a.len();
        self.a.set(self.cx, n, h)?;
        Ok(())
    }
    fn done(self) -> LibResult<H<'j>> {
        Ok(match self.outer { Some(o) => o.upcast(), None => self.a.upcast() })
    }
}
impl<'x, 'j, C: Context<'j>> ser::SerializeSeq for SeqSer<'x, 'j, C> {
    type Ok = H<'j>;
    type Error = Error;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> LibResult<()> { self.push(v) }
    fn end(self) -> LibResult<H<'j>> { self.done() }
}
impl<'x, 'j, C: Context<'j>> ser::SerializeTuple for SeqSer<'x, 'j, C> {
    type Ok = H<'j>;
    type Error = Error;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> LibResult<()> { self.push(v) }
    fn end(self) -> LibResult<H<'j>> { self.done() }
}
impl<'x, 'j, C: Context<'j>> ser::SerializeTupleStruct for SeqSer<'x, 'j, C> {
    type Ok = H<'j>;
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> LibResult<()> { self.push(v) }
    fn end(self) -> LibResult<H<'j>> { self.done() }
}
impl<'x, 'j, C: Context<'j>> ser::SerializeTupleVariant for SeqSer<'x, 'j, C> {
    type Ok = H<'j>;
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> LibResult<()> { self.push(v) }
    fn end(self) -> LibResult<H<'j>> { self.done() }
}

struct ObjSer<'x, 'j, C: Context<'j>> { cx: &'x mut C, outer: Option<Handle<'j, JsObject>>, o: Handle<'j, JsObject>, key: Option<String> }
impl<'x, 'j, C: Context<'j>> ObjSer<'x, 'j, C> {
    fn put<T: Serialize + ?Sized>(&mut self, k: &str, v: &T) -> LibResult<()> {
        let h = to_value(self.cx, v)?;
        self.o.set(self.cx, k, h)?;
        Ok(())
    }
    fn done(self) -> LibResult<H<'j>> {
        Ok(match self.outer { Some(o) => o.upcast(), None => self.o.upcast() })
    }
}
impl<'x, 'j, C: Context<'j>> ser::SerializeMap for ObjSer<'x, 'j, C> {
    type Ok = H<'j>;
    type Error = Error;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> LibResult<()> {
        let h = to_value(self.cx, k)?;
        self.key = Some(match (h.downcast::<JsString>(), h.downcast::<JsNumber>()) {
            (Ok(s), _) => s.value(),
            (_, Ok(n)) => n.value().to_string(),
            _ => return Err(Error::Msg("object key".into())),
        });
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> LibResult<()> {
        let k = self.key.take().unwrap_or_default();
        self.put(&k, v)
    }
    fn end(self) -> LibResult<H<'j>> { self.done() }
}
impl<'x, 'j, C: Context<'j>> ser::SerializeStruct for ObjSer<'x, 'j, C> {
    type Ok = H<'j>;
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> LibResult<()> { self.put(k, v) }
    fn end(self) -> LibResult<H<'j>> { self.done() }
}
impl<'x, 'j, C: Context<'j>> ser::SerializeStructVariant for ObjSer<'x, 'j, C> {
    type Ok = H<'j>;
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> LibResult<()> { self.put(k, v) }
    fn end(self) -> LibResult<H<'j>> { self.done() }
}
