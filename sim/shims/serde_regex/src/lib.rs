use regex::Regex;
use serde::{Deserialize, Deserializer, Serialize, Serializer};

pub trait Re: Sized {
    fn ser<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error>;
    fn de<'de, D: Deserializer<'de>>(d: D) -> Result<Self, D::Error>;
}
impl Re for Regex {
    fn ser<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.as_str().serialize(s)
    }
    fn de<'de, D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        Regex::new(&s).map_err(serde::de::Error::custom)
    }
}
impl Re for Option<Regex> {
    fn ser<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.as_ref().map(|r| r.as_str()).serialize(s)
    }
    fn de<'de, D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Option::<String>::deserialize(d)?.map(|s| Regex::new(&s).map_err(serde::de::Error::custom)).transpose()
    }
}
impl Re for Vec<Regex> {
    fn ser<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.iter().map(|r| r.as_str()).collect::<Vec<_>>().serialize(s)
    }
    fn de<'de, D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Vec::<String>::deserialize(d)?.into_iter().map(|s| Regex::new(&s).map_err(serde::de::Error::custom)).collect()
    }
}
pub fn serialize<T: Re, S: Serializer>(v: &T, s: S) -> Result<S::Ok, S::Error> {
    v.ser(s)
}
pub fn deserialize<'de, T: Re, D: Deserializer<'de>>(d: D) -> Result<T, D::Error> {
    T::de(d)
}
