//! String interner with the `Rodeo` API.
use std::collections::HashMap;

/// # Safety
/// As in lasso: the two conversions must be inverse.
pub unsafe trait Key: Copy + Eq + std::hash::Hash {
    fn into_usize(self) -> usize;
    fn try_from_usize(int: usize) -> Option<Self>;
}

#[derive(Debug, Clone)]
pub struct Rodeo<K> {
    strings: Vec<Box<str>>,
    map: HashMap<Box<str>, K>,
}
impl<K: Key> Default for Rodeo<K> {
    fn default() -> Self {
        Self::new()
    }
}
impl<K: Key> Rodeo<K> {
    pub fn new() -> Self {
        Self { strings: Vec::new(), map: HashMap::new() }
    }
    pub fn get(&self, s: &str) -> Option<K> {
        self.map.get(s).copied()
    }
    pub fn contains(&self, s: &str) -> bool {
        self.map.contains_key(s)
    }
    pub fn get_or_intern(&mut self, s: &str) -> K {
        if let Some(k) = self.map.get(s) {
            return *k;
        }
        let k = K::try_from_usize(self.strings.len()).expect("key space exhausted");
        self.strings.push(s.into());
        self.map.insert(s.into(), k);
        k
    }
    pub fn resolve(&self, k: &K) -> &str {
        &self.strings[k.into_usize()]
    }
    /// # Safety
    /// Always checked here.
    pub unsafe fn resolve_unchecked(&self, k: &K) -> &str {
        self.resolve(k)
    }
    pub fn len(&self) -> usize {
        self.strings.len()
    }
    pub fn is_empty(&self) -> bool {
        self.strings.is_empty()
    }
}
#[cfg(feature = "serialize")]
impl<K> serde::Serialize for Rodeo<K> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.strings.serialize(s)
    }
}
#[cfg(feature = "serialize")]
impl<'de, K: Key> serde::Deserialize<'de> for Rodeo<K> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let v = Vec::<String>::deserialize(d)?;
        let mut r = Rodeo::new();
        for s in v {
            r.get_or_intern(&s);
        }
        Ok(r)
    }
}
