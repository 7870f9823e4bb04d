//! Takes the place of serde-wasm-bindgen: values of JavaScript are JSON values here (see wasm-bindgen).
use serde::{de::DeserializeOwned, ser, Serialize};
use serde_json::value::Serializer as Json;
use std::fmt::Display;
use wasm_bindgen::JsValue;

#[derive(Debug)]
pub struct Error(String);
pub type Result<T = JsValue> = std::result::Result<T, Error>;

impl Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: Display>(message: T) -> Self {
        Error(message.to_string())
    }
}
impl serde::de::Error for Error {
    fn custom<T: Display>(message: T) -> Self {
        Error(message.to_string())
    }
}
impl From<Error> for JsValue {
    fn from(error: Error) -> Self {
        JsValue::String(error.0)
    }
}
fn fail(error: serde_json::Error) -> Error {
    Error(error.to_string())
}

pub fn from_value<T: DeserializeOwned>(value: JsValue) -> Result<T> {
    serde_json::from_value(value).map_err(fail)
}
pub fn to_value<T: Serialize + ?Sized>(value: &T) -> Result {
    serde_json::to_value(value).map_err(fail)
}

#[derive(Default, Clone, Copy, Debug)]
pub struct Serializer;
impl Serializer {
    pub const fn new() -> Self {
        Serializer
    }
    pub const fn json_compatible() -> Self {
        Serializer
    }
    pub const fn serialize_missing_as_null(self, _: bool) -> Self {
        self
    }
    pub const fn serialize_maps_as_objects(self, _: bool) -> Self {
        self
    }
    pub const fn serialize_large_number_types_as_bigints(self, _: bool) -> Self {
        self
    }
    pub const fn serialize_bytes_as_arrays(self, _: bool) -> Self {
        self
    }
}

pub struct Compound<T>(T);
macro_rules! simple {
    ($($name:ident($type:ty))*) => { $(
        fn $name(self, value: $type) -> Result { Json.$name(value).map_err(fail) }
    )* };
}
impl ser::Serializer for &Serializer {
    type Ok = JsValue;
    type Error = Error;
    type SerializeSeq = Compound<<Json as ser::Serializer>::SerializeSeq>;
    type SerializeTuple = Compound<<Json as ser::Serializer>::SerializeTuple>;
    type SerializeTupleStruct = Compound<<Json as ser::Serializer>::SerializeTupleStruct>;
    type SerializeTupleVariant = Compound<<Json as ser::Serializer>::SerializeTupleVariant>;
    type SerializeMap = Compound<<Json as ser::Serializer>::SerializeMap>;
    type SerializeStruct = Compound<<Json as ser::Serializer>::SerializeStruct>;
    type SerializeStructVariant = Compound<<Json as ser::Serializer>::SerializeStructVariant>;
    simple! {
        serialize_bool(bool) serialize_i8(i8) serialize_i16(i16) serialize_i32(i32) serialize_i64(i64)
        serialize_u8(u8) serialize_u16(u16) serialize_u32(u32) serialize_u64(u64)
        serialize_f32(f32) serialize_f64(f64) serialize_char(char) serialize_str(&str) serialize_bytes(&[u8])
        serialize_unit_struct(&'static str)
    }
    fn serialize_none(self) -> Result {
        Json.serialize_none().map_err(fail)
    }
    fn serialize_unit(self) -> Result {
        Json.serialize_unit().map_err(fail)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, value: &T) -> Result {
        value.serialize(Json).map_err(fail)
    }
    fn serialize_unit_variant(self, name: &'static str, index: u32, variant: &'static str) -> Result {
        Json.serialize_unit_variant(name, index, variant).map_err(fail)
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, name: &'static str, value: &T) -> Result {
        Json.serialize_newtype_struct(name, value).map_err(fail)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, name: &'static str, index: u32, variant: &'static str, value: &T) -> Result {
        Json.serialize_newtype_variant(name, index, variant, value).map_err(fail)
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<Self::SerializeSeq> {
        Json.serialize_seq(len).map(Compound).map_err(fail)
    }
    fn serialize_tuple(self, len: usize) -> Result<Self::SerializeTuple> {
        Json.serialize_tuple(len).map(Compound).map_err(fail)
    }
    fn serialize_tuple_struct(self, name: &'static str, len: usize) -> Result<Self::SerializeTupleStruct> {
        Json.serialize_tuple_struct(name, len).map(Compound).map_err(fail)
    }
    fn serialize_tuple_variant(self, name: &'static str, index: u32, variant: &'static str, len: usize) -> Result<Self::SerializeTupleVariant> {
        Json.serialize_tuple_variant(name, index, variant, len).map(Compound).map_err(fail)
    }
    fn serialize_map(self, len: Option<usize>) -> Result<Self::SerializeMap> {
        Json.serialize_map(len).map(Compound).map_err(fail)
    }
    fn serialize_struct(self, name: &'static str, len: usize) -> Result<Self::SerializeStruct> {
        Json.serialize_struct(name, len).map(Compound).map_err(fail)
    }
    fn serialize_struct_variant(self, name: &'static str, index: u32, variant: &'static str, len: usize) -> Result<Self::SerializeStructVariant> {
        Json.serialize_struct_variant(name, index, variant, len).map(Compound).map_err(fail)
    }
}
type Inner<K> = K;
macro_rules! compound {
    ($trait:ident, $assoc:ident, $method:ident) => {
        impl ser::$trait for Compound<Inner<<Json as ser::Serializer>::$assoc>> {
            type Ok = JsValue;
            type Error = Error;
            fn $method<T: Serialize + ?Sized>(&mut self, value: &T) -> Result<()> {
                ser::$trait::$method(&mut self.0, value).map_err(fail)
            }
            fn end(self) -> Result {
                ser::$trait::end(self.0).map_err(fail)
            }
        }
    };
}
compound!(SerializeSeq, SerializeSeq, serialize_element);
compound!(SerializeTuple, SerializeTuple, serialize_element);
compound!(SerializeTupleStruct, SerializeTupleStruct, serialize_field);
compound!(SerializeTupleVariant, SerializeTupleVariant, serialize_field);
impl ser::SerializeMap for Compound<<Json as ser::Serializer>::SerializeMap> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, key: &T) -> Result<()> {
        ser::SerializeMap::serialize_key(&mut self.0, key).map_err(fail)
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, value: &T) -> Result<()> {
        ser::SerializeMap::serialize_value(&mut self.0, value).map_err(fail)
    }
    fn end(self) -> Result {
        ser::SerializeMap::end(self.0).map_err(fail)
    }
}
macro_rules! compound_struct {
    ($trait:ident) => {
        impl ser::$trait for Compound<<Json as ser::Serializer>::$trait> {
            type Ok = JsValue;
            type Error = Error;
            fn serialize_field<T: Serialize + ?Sized>(&mut self, key: &'static str, value: &T) -> Result<()> {
                ser::$trait::serialize_field(&mut self.0, key, value).map_err(fail)
            }
            fn end(self) -> Result {
                ser::$trait::end(self.0).map_err(fail)
            }
        }
    };
}
compound_struct!(SerializeStruct);
compound_struct!(SerializeStructVariant);
