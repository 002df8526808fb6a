//! A stand-in for `moka` 0.12 with the API surface symbolicator uses.
//!
//! It keeps moka's documented contract: at most one initialiser of a key runs at a time, waiters
//! get that initialiser's value, a cancelled initialiser lets a waiter run its own, values that
//! expired are never handed out, and the cache never exceeds its capacity. Time is `Instant`.
use std::collections::HashMap;
use std::time::{Duration, Instant};

pub trait Expiry<K, V> {
    fn expire_after_create(&self, _key: &K, _value: &V, _created_at: Instant) -> Option<Duration> {
        None
    }
    fn expire_after_read(
        &self,
        _key: &K,
        _value: &V,
        _read_at: Instant,
        duration_until_expiry: Option<Duration>,
        _last_modified_at: Instant,
    ) -> Option<Duration> {
        duration_until_expiry
    }
    fn expire_after_update(
        &self,
        _key: &K,
        _value: &V,
        _updated_at: Instant,
        duration_until_expiry: Option<Duration>,
    ) -> Option<Duration> {
        duration_until_expiry
    }
}

pub mod ops {
    pub mod compute {
        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        pub enum Op<V> {
            Nop,
            Put(V),
            Remove,
        }
        pub enum CompResult<K, V> {
            Inserted(crate::Entry<K, V>),
            ReplacedWith(crate::Entry<K, V>),
            Removed(crate::Entry<K, V>),
            Unchanged(crate::Entry<K, V>),
            StillNone(std::sync::Arc<K>),
        }
        impl<K, V> CompResult<K, V> {
            pub fn into_entry(self) -> Option<crate::Entry<K, V>> {
                match self {
                    Self::Inserted(e) | Self::ReplacedWith(e) | Self::Unchanged(e) | Self::Removed(e) => Some(e),
                    Self::StillNone(_) => None,
                }
            }
            pub fn unwrap(self) -> crate::Entry<K, V> {
                match self {
                    Self::Inserted(e) | Self::ReplacedWith(e) | Self::Unchanged(e) | Self::Removed(e) => e,
                    Self::StillNone(_) => panic!("`CompResult::unwrap` called on `StillNone`"),
                }
            }
        }
    }
}

pub mod notification {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum RemovalCause {
        Expired,
        Explicit,
        Replaced,
        Size,
    }
}

#[derive(Debug)]
pub struct Entry<K, V> {
    key: Option<std::sync::Arc<K>>,
    value: V,
    fresh: bool,
    replaced: bool,
}

impl<K, V> Entry<K, V> {
    pub fn key(&self) -> &K {
        self.key.as_ref().unwrap()
    }
    pub fn value(&self) -> &V {
        &self.value
    }
    pub fn into_value(self) -> V {
        self.value
    }
    pub fn is_fresh(&self) -> bool {
        self.fresh
    }
    pub fn is_old_value_replaced(&self) -> bool {
        self.replaced
    }
}

struct Stored<V> {
    value: V,
    weight: u32,
    created: Instant,
    last: Instant,
    deadline: Option<Instant>,
    seq: u64,
}

type Weigher<K, V> = Box<dyn Fn(&K, &V) -> u32 + Send + Sync>;
type Listener<K, V> = Box<dyn Fn(std::sync::Arc<K>, V, notification::RemovalCause) + Send + Sync>;

/// The policies and entries shared by both kinds of cache.
struct Store<K, V> {
    map: HashMap<K, Stored<V>>,
    weight: u64,
    seq: u64,
    max: Option<u64>,
    ttl: Option<Duration>,
    tti: Option<Duration>,
    expiry: Option<Box<dyn Expiry<K, V> + Send + Sync>>,
    weigher: Option<Weigher<K, V>>,
    listener: Option<Listener<K, V>>,
}

impl<K: std::hash::Hash + Eq + Clone, V: Clone> Store<K, V> {
    fn expired(&self, s: &Stored<V>, now: Instant) -> bool {
        self.ttl.is_some_and(|t| s.created.checked_add(t).is_some_and(|d| d <= now))
            || self.tti.is_some_and(|t| s.last.checked_add(t).is_some_and(|d| d <= now))
            || s.deadline.is_some_and(|d| d <= now)
    }
    fn drop_entry(&mut self, key: &K, cause: notification::RemovalCause) {
        if let Some(s) = self.map.remove(key) {
            self.weight -= s.weight as u64;
            if let Some(l) = &self.listener {
                l(std::sync::Arc::new(key.clone()), s.value, cause);
            }
        }
    }
    fn sweep(&mut self) {
        let now = Instant::now();
        let gone: Vec<K> = self
            .map
            .iter()
            .filter(|(_, s)| self.expired(s, now))
            .map(|(k, _)| k.clone())
            .collect();
        for k in gone {
            self.drop_entry(&k, notification::RemovalCause::Expired);
        }
    }
    fn get(&mut self, key: &K) -> Option<V> {
        let now = Instant::now();
        if self.expired(self.map.get(key)?, now) {
            self.drop_entry(key, notification::RemovalCause::Expired);
            return None;
        }
        let s = self.map.get_mut(key)?;
        s.last = now;
        if let Some(e) = &self.expiry {
            let left = s.deadline.map(|d| d.saturating_duration_since(now));
            let new = e.expire_after_read(key, &s.value, now, left, s.created);
            if new != left {
                s.deadline = new.and_then(|d| now.checked_add(d));
            }
        }
        Some(s.value.clone())
    }
    fn contains(&self, key: &K) -> bool {
        let now = Instant::now();
        self.map.get(key).is_some_and(|s| !self.expired(s, now))
    }
    /// Returns whether an old value was replaced.
    fn put(&mut self, key: &K, value: V) -> bool {
        let now = Instant::now();
        let old = match self.map.get(key) {
            Some(s) if !self.expired(s, now) => Some(s.deadline.map(|d| d.saturating_duration_since(now))),
            _ => None,
        };
        let left = match (&self.expiry, &old) {
            (None, _) => None,
            (Some(e), None) => e.expire_after_create(key, &value, now),
            (Some(e), Some(left)) => e.expire_after_update(key, &value, now, *left),
        };
        self.drop_entry(
            key,
            if old.is_some() { notification::RemovalCause::Replaced } else { notification::RemovalCause::Expired },
        );
        let weight = self.weigher.as_ref().map_or(1, |w| w(key, &value));
        if let Some(max) = self.max {
            if weight as u64 > max {
                return old.is_some();
            }
            while self.weight + weight as u64 > max {
                // least recently used first
                let victim = self.map.iter().min_by_key(|(_, s)| (s.last, s.seq)).map(|(k, _)| k.clone());
                match victim {
                    Some(k) => self.drop_entry(&k, notification::RemovalCause::Size),
                    None => break,
                }
            }
        }
        self.seq += 1;
        let deadline = left.and_then(|d| now.checked_add(d));
        self.weight += weight as u64;
        let st = Stored { value, weight, created: now, last: now, deadline, seq: self.seq };
        self.map.insert(key.clone(), st);
        old.is_some()
    }
}

macro_rules! builder {
    () => {
        pub struct CacheBuilder<K, V>(crate::Store<K, V>);
        impl<K, V> CacheBuilder<K, V> {
            fn new() -> Self {
                CacheBuilder(crate::Store {
                    map: Default::default(),
                    weight: 0,
                    seq: 0,
                    max: None,
                    ttl: None,
                    tti: None,
                    expiry: None,
                    weigher: None,
                    listener: None,
                })
            }
            pub fn max_capacity(mut self, max: u64) -> Self {
                self.0.max = Some(max);
                self
            }
            pub fn initial_capacity(self, _n: usize) -> Self {
                self
            }
            pub fn name(self, _name: &str) -> Self {
                self
            }
            pub fn time_to_live(mut self, d: std::time::Duration) -> Self {
                assert!(d <= std::time::Duration::from_secs(1000 * 365 * 24 * 3600), "time_to_live is longer than 1000 years");
                self.0.ttl = Some(d);
                self
            }
            pub fn time_to_idle(mut self, d: std::time::Duration) -> Self {
                assert!(d <= std::time::Duration::from_secs(1000 * 365 * 24 * 3600), "time_to_idle is longer than 1000 years");
                self.0.tti = Some(d);
                self
            }
            pub fn expire_after(mut self, e: impl crate::Expiry<K, V> + Send + Sync + 'static) -> Self {
                self.0.expiry = Some(Box::new(e));
                self
            }
            pub fn weigher(mut self, w: impl Fn(&K, &V) -> u32 + Send + Sync + 'static) -> Self {
                self.0.weigher = Some(Box::new(w));
                self
            }
            pub fn eviction_listener(
                mut self,
                l: impl Fn(std::sync::Arc<K>, V, crate::notification::RemovalCause) + Send + Sync + 'static,
            ) -> Self {
                self.0.listener = Some(Box::new(l));
                self
            }
        }
    };
}

pub mod sync {
    use super::Entry;
    use std::hash::Hash;
    use std::sync::{Arc, Mutex};

    builder!();
    impl<K: Hash + Eq + Clone, V: Clone> CacheBuilder<K, V> {
        pub fn build(self) -> Cache<K, V> {
            Cache(Arc::new(Mutex::new(self.0)))
        }
    }

    pub struct Cache<K, V>(Arc<Mutex<crate::Store<K, V>>>);
    impl<K, V> Clone for Cache<K, V> {
        fn clone(&self) -> Self {
            Cache(self.0.clone())
        }
    }
    impl<K, V> std::fmt::Debug for Cache<K, V> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("Cache")
        }
    }
    impl<K: Hash + Eq + Clone, V: Clone> Cache<K, V> {
        pub fn new(max: u64) -> Self {
            Self::builder().max_capacity(max).build()
        }
        pub fn builder() -> CacheBuilder<K, V> {
            CacheBuilder::new()
        }
        pub fn get<Q: ?Sized + ToOwned<Owned = K>>(&self, key: &Q) -> Option<V> {
            self.0.lock().unwrap().get(&key.to_owned())
        }
        pub fn insert(&self, key: K, value: V) {
            self.0.lock().unwrap().put(&key, value);
        }
        pub fn invalidate<Q: ?Sized + ToOwned<Owned = K>>(&self, key: &Q) {
            self.0.lock().unwrap().drop_entry(&key.to_owned(), crate::notification::RemovalCause::Explicit);
        }
        pub fn contains_key<Q: ?Sized + ToOwned<Owned = K>>(&self, key: &Q) -> bool {
            let mut s = self.0.lock().unwrap();
            s.sweep();
            s.contains(&key.to_owned())
        }
        pub fn weighted_size(&self) -> u64 {
            let mut s = self.0.lock().unwrap();
            s.sweep();
            s.weight
        }
        pub fn entry_count(&self) -> u64 {
            let mut s = self.0.lock().unwrap();
            s.sweep();
            s.map.len() as u64
        }
        pub fn run_pending_tasks(&self) {
            self.0.lock().unwrap().sweep();
        }
        pub fn entry_by_ref<'a, Q: ?Sized + ToOwned<Owned = K>>(&'a self, key: &Q) -> Selector<'a, K, V> {
            Selector { cache: self, key: key.to_owned() }
        }
        pub fn entry(&self, key: K) -> Selector<'_, K, V> {
            Selector { cache: self, key }
        }
    }
    pub struct Selector<'a, K, V> {
        cache: &'a Cache<K, V>,
        key: K,
    }
    impl<K: Hash + Eq + Clone, V: Clone> Selector<'_, K, V> {
        pub fn or_insert_with(self, init: impl FnOnce() -> V) -> Entry<K, V> {
            let mut s = self.cache.0.lock().unwrap();
            let key = Some(Arc::new(self.key.clone()));
            if let Some(value) = s.get(&self.key) {
                return Entry { key, value, fresh: false, replaced: false };
            }
            let value = init();
            let replaced = s.put(&self.key, value.clone());
            Entry { key, value, fresh: true, replaced }
        }
        pub fn or_insert(self, v: V) -> Entry<K, V> {
            self.or_insert_with(|| v)
        }
        pub fn or_default(self) -> Entry<K, V>
        where
            V: Default,
        {
            self.or_insert_with(V::default)
        }
    }
}

pub mod future {
    use super::ops::compute::{CompResult, Op};
    use super::Entry;
    use std::collections::HashMap;
    use std::future::Future;
    use std::hash::Hash;
    use std::sync::{Arc, Mutex, Weak};

    builder!();
    impl<K: Hash + Eq + Clone, V: Clone> CacheBuilder<K, V> {
        pub fn build(self) -> Cache<K, V> {
            Cache(Arc::new(Shared { store: Mutex::new(self.0), flights: Default::default() }))
        }
    }

    type Slot<V> = tokio::sync::Mutex<Option<V>>;

    struct Shared<K, V> {
        store: Mutex<crate::Store<K, V>>,
        /// One slot per key with a computation in flight, shared by everyone waiting for it.
        flights: Mutex<HashMap<K, Weak<Slot<V>>>>,
    }

    pub struct Cache<K, V>(Arc<Shared<K, V>>);
    impl<K, V> Clone for Cache<K, V> {
        fn clone(&self) -> Self {
            Cache(self.0.clone())
        }
    }
    impl<K, V> std::fmt::Debug for Cache<K, V> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("Cache")
        }
    }

    impl<K: Hash + Eq + Clone, V: Clone> Cache<K, V> {
        pub fn new(max: u64) -> Self {
            Self::builder().max_capacity(max).build()
        }
        pub fn builder() -> CacheBuilder<K, V> {
            CacheBuilder::new()
        }
        pub async fn get(&self, key: &K) -> Option<V> {
            self.0.store.lock().unwrap().get(key)
        }
        pub async fn insert(&self, key: K, value: V) {
            self.0.store.lock().unwrap().put(&key, value);
        }
        pub async fn invalidate(&self, key: &K) {
            self.0.store.lock().unwrap().drop_entry(key, crate::notification::RemovalCause::Explicit);
        }
        pub fn contains_key(&self, key: &K) -> bool {
            self.0.store.lock().unwrap().contains(key)
        }
        pub fn entry_count(&self) -> u64 {
            match self.0.store.lock() {
                Ok(mut s) => {
                    s.sweep();
                    s.map.len() as u64
                }
                Err(_) => 0,
            }
        }
        pub fn weighted_size(&self) -> u64 {
            let mut s = self.0.store.lock().unwrap();
            s.sweep();
            s.weight
        }
        pub async fn run_pending_tasks(&self) {
            self.0.store.lock().unwrap().sweep();
        }
        pub fn entry_by_ref<'a>(&'a self, key: &K) -> Selector<'a, K, V> {
            Selector { cache: self, key: key.clone() }
        }
        pub fn entry(&self, key: K) -> Selector<'_, K, V> {
            Selector { cache: self, key }
        }
        pub async fn get_with(&self, key: K, init: impl Future<Output = V>) -> V {
            self.entry(key).or_insert_with(init).await.into_value()
        }
        fn slot(&self, key: &K) -> Arc<Slot<V>> {
            let mut f = self.0.flights.lock().unwrap();
            f.retain(|_, w| w.strong_count() > 0);
            if let Some(s) = f.get(key).and_then(Weak::upgrade) {
                return s;
            }
            let s = Arc::new(Slot::new(None));
            f.insert(key.clone(), Arc::downgrade(&s));
            s
        }
        fn unslot(&self, key: &K, slot: &Arc<Slot<V>>) {
            let mut f = self.0.flights.lock().unwrap();
            if f.get(key).is_some_and(|w| std::ptr::eq(w.as_ptr(), Arc::as_ptr(slot))) {
                f.remove(key);
            }
        }
    }

    pub struct Selector<'a, K, V> {
        cache: &'a Cache<K, V>,
        key: K,
    }
    impl<K: Hash + Eq + Clone, V: Clone> Selector<'_, K, V> {
        pub async fn or_insert_with(self, init: impl Future<Output = V>) -> Entry<K, V> {
            self.or_insert_with_if(init, |_| false).await
        }
        pub async fn or_insert_with_if(
            self,
            init: impl Future<Output = V>,
            mut replace_if: impl FnMut(&V) -> bool,
        ) -> Entry<K, V> {
            let key = Some(Arc::new(self.key.clone()));
            let cached = self.cache.0.store.lock().unwrap().get(&self.key);
            if let Some(value) = cached.filter(|v| !replace_if(v)) {
                return Entry { key, value, fresh: false, replaced: false };
            }
            let slot = self.cache.slot(&self.key);
            let mut guard = slot.lock().await;
            if let Some(value) = &*guard {
                // the value of the initialiser we waited for, even if it expired on arrival
                return Entry { key, value: value.clone(), fresh: false, replaced: false };
            }
            // someone may have put a value between our look at the cache and the slot
            let cached = self.cache.0.store.lock().unwrap().get(&self.key);
            if let Some(value) = cached.filter(|v| !replace_if(v)) {
                return Entry { key, value, fresh: false, replaced: false };
            }
            let value = init.await;
            let replaced = self.cache.0.store.lock().unwrap().put(&self.key, value.clone());
            *guard = Some(value.clone());
            self.cache.unslot(&self.key, &slot);
            Entry { key, value, fresh: true, replaced }
        }
        pub async fn and_compute_with<F, Fut>(self, f: F) -> CompResult<K, V>
        where
            F: FnOnce(Option<Entry<K, V>>) -> Fut,
            Fut: Future<Output = Op<V>>,
        {
            let key = Some(Arc::new(self.key.clone()));
            let slot = self.cache.slot(&self.key);
            let guard = slot.lock().await;
            let cached = self.cache.0.store.lock().unwrap().get(&self.key);
            let mk = |value: V, fresh, replaced| Entry { key: key.clone(), value, fresh, replaced };
            let op = f(cached.clone().map(|v| mk(v, false, false))).await;
            let res = match (op, cached) {
                (Op::Nop, Some(v)) => CompResult::Unchanged(mk(v, false, false)),
                (Op::Nop, None) => CompResult::StillNone(Arc::new(self.key.clone())),
                (Op::Put(v), old) => {
                    self.cache.0.store.lock().unwrap().put(&self.key, v.clone());
                    match old {
                        Some(_) => CompResult::ReplacedWith(mk(v, true, true)),
                        None => CompResult::Inserted(mk(v, true, false)),
                    }
                }
                (Op::Remove, Some(v)) => {
                    self.cache
                        .0
                        .store
                        .lock()
                        .unwrap()
                        .drop_entry(&self.key, crate::notification::RemovalCause::Explicit);
                    CompResult::Removed(mk(v, false, false))
                }
                (Op::Remove, None) => CompResult::StillNone(Arc::new(self.key.clone())),
            };
            drop(guard);
            res
        }
    }
}
