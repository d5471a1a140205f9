//! serde_json re-exported under the names grafbase uses from sonic-rs.
pub use serde_json::{from_slice, from_str, to_string, to_string_pretty, to_vec, to_writer, Error, Value};

pub struct Deserializer<'de>(serde_json::Deserializer<serde_json::de::SliceRead<'de>>);

impl<'de> Deserializer<'de> {
    #[allow(clippy::should_implement_trait)]
    pub fn from_slice(bytes: &'de [u8]) -> Self {
        Self(serde_json::Deserializer::from_slice(bytes))
    }
}

impl<'de> serde::Deserializer<'de> for &mut Deserializer<'de> {
    type Error = serde_json::Error;
    fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, Self::Error> {
        serde::Deserializer::deserialize_any(&mut self.0, v)
    }
    fn deserialize_option<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, Self::Error> {
        serde::Deserializer::deserialize_option(&mut self.0, v)
    }
    fn deserialize_newtype_struct<V: serde::de::Visitor<'de>>(
        self,
        name: &'static str,
        v: V,
    ) -> Result<V::Value, Self::Error> {
        serde::Deserializer::deserialize_newtype_struct(&mut self.0, name, v)
    }
    fn deserialize_enum<V: serde::de::Visitor<'de>>(
        self,
        name: &'static str,
        variants: &'static [&'static str],
        v: V,
    ) -> Result<V::Value, Self::Error> {
        serde::Deserializer::deserialize_enum(&mut self.0, name, variants, v)
    }
    fn deserialize_ignored_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, Self::Error> {
        serde::Deserializer::deserialize_ignored_any(&mut self.0, v)
    }
    fn deserialize_bytes<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, Self::Error> {
        serde::Deserializer::deserialize_bytes(&mut self.0, v)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
        byte_buf unit unit_struct seq tuple
        tuple_struct map struct identifier
    }
}
