//! A self-describing value, and a deserializer over it that works with any error type.
use serde::de::{self, value::MapDeserializer, value::SeqDeserializer, IntoDeserializer, Visitor};
use std::{fmt, marker::PhantomData};

#[derive(Clone, Debug)]
pub enum Value {
    Bool(bool),
    I64(i64),
    U64(u64),
    F64(f64),
    String(String),
    Unit,
    Seq(Vec<Value>),
    Map(Vec<(Value, Value)>),
}

impl<'de> de::Deserialize<'de> for Value {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Value;
            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("any value")
            }
            fn visit_bool<E>(self, v: bool) -> Result<Value, E> {
                Ok(Value::Bool(v))
            }
            fn visit_i64<E>(self, v: i64) -> Result<Value, E> {
                Ok(Value::I64(v))
            }
            fn visit_u64<E>(self, v: u64) -> Result<Value, E> {
                Ok(Value::U64(v))
            }
            fn visit_f64<E>(self, v: f64) -> Result<Value, E> {
                Ok(Value::F64(v))
            }
            fn visit_str<E>(self, v: &str) -> Result<Value, E> {
                Ok(Value::String(v.into()))
            }
            fn visit_string<E>(self, v: String) -> Result<Value, E> {
                Ok(Value::String(v))
            }
            fn visit_none<E>(self) -> Result<Value, E> {
                Ok(Value::Unit)
            }
            fn visit_unit<E>(self) -> Result<Value, E> {
                Ok(Value::Unit)
            }
            fn visit_some<D: de::Deserializer<'de>>(self, d: D) -> Result<Value, D::Error> {
                de::Deserialize::deserialize(d)
            }
            fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<Value, A::Error> {
                let mut out = Vec::new();
                while let Some(x) = a.next_element()? {
                    out.push(x)
                }
                Ok(Value::Seq(out))
            }
            fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<Value, A::Error> {
                let mut out = Vec::new();
                while let Some(x) = a.next_entry()? {
                    out.push(x)
                }
                Ok(Value::Map(out))
            }
        }
        d.deserialize_any(V)
    }
}

pub struct ValueDeserializer<E>(Value, PhantomData<fn() -> E>);
impl<E> ValueDeserializer<E> {
    pub fn new(v: Value) -> Self {
        Self(v, PhantomData)
    }
}
impl<'de, E: de::Error> IntoDeserializer<'de, E> for Value {
    type Deserializer = ValueDeserializer<E>;
    fn into_deserializer(self) -> Self::Deserializer {
        ValueDeserializer::new(self)
    }
}
impl<'de, E: de::Error> de::Deserializer<'de> for ValueDeserializer<E> {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.0 {
            Value::Bool(x) => v.visit_bool(x),
            Value::I64(x) => v.visit_i64(x),
            Value::U64(x) => v.visit_u64(x),
            Value::F64(x) => v.visit_f64(x),
            Value::String(x) => v.visit_string(x),
            Value::Unit => v.visit_unit(),
            Value::Seq(x) => v.visit_seq(SeqDeserializer::new(x.into_iter())),
            Value::Map(x) => v.visit_map(MapDeserializer::new(x.into_iter())),
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.0 {
            Value::Unit => v.visit_unit(),
            _ => v.visit_some(self),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        v.visit_newtype_struct(self)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
        bytes byte_buf unit unit_struct seq tuple enum
        tuple_struct map struct identifier ignored_any
    }
}
