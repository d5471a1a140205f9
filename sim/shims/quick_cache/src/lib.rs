//! Bounded cache with single-flight guards (least-recently-inserted eviction).
pub mod sync {
    use std::{
        borrow::Borrow,
        collections::{HashMap, VecDeque},
        hash::Hash,
        sync::{Arc, Mutex},
    };
    use tokio::sync::{Mutex as AsyncMutex, OwnedMutexGuard};

    struct Inner<K, V> {
        map: HashMap<K, V>,
        order: VecDeque<K>,
        flights: HashMap<K, Arc<AsyncMutex<()>>>,
    }
    pub struct Cache<K, V> {
        inner: Mutex<Inner<K, V>>,
        cap: usize,
    }
    pub struct PlaceholderGuard<'a, K: Hash + Eq + Clone, V> {
        cache: &'a Cache<K, V>,
        key: K,
        _g: OwnedMutexGuard<()>,
    }
    impl<K: Hash + Eq + Clone, V: Clone> Cache<K, V> {
        pub fn new(cap: usize) -> Self {
            Self {
                inner: Mutex::new(Inner { map: HashMap::new(), order: VecDeque::new(), flights: HashMap::new() }),
                cap: cap.max(1),
            }
        }
        pub fn get<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<V>
        where
            K: Borrow<Q>,
        {
            self.inner.lock().unwrap().map.get(k).cloned()
        }
        pub fn insert(&self, k: K, v: V) {
            let mut i = self.inner.lock().unwrap();
            if i.map.insert(k.clone(), v).is_none() {
                i.order.push_back(k);
                if i.order.len() > self.cap {
                    if let Some(old) = i.order.pop_front() {
                        i.map.remove(&old);
                    }
                }
            }
        }
        pub async fn get_value_or_guard_async<'a, Q>(&'a self, k: &Q) -> Result<V, PlaceholderGuard<'a, K, V>>
        where
            Q: ?Sized + Hash + Eq + ToOwned<Owned = K>,
            K: Borrow<Q>,
        {
            let flight = {
                let mut i = self.inner.lock().unwrap();
                if let Some(v) = i.map.get(k) {
                    return Ok(v.clone());
                }
                i.flights.entry(k.to_owned()).or_default().clone()
            };
            let g = flight.lock_owned().await;
            if let Some(v) = self.get(k) {
                return Ok(v);
            }
            Err(PlaceholderGuard { cache: self, key: k.to_owned(), _g: g })
        }
    }
    impl<K: Hash + Eq + Clone, V: Clone> PlaceholderGuard<'_, K, V> {
        pub fn insert(self, v: V) -> Result<(), V> {
            self.cache.insert(self.key.clone(), v);
            Ok(())
        }
    }
}
