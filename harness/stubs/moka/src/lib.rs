//! A cache which may have forgotten any entry at any time. Each operation takes
//! effect at one moment, before which other tasks may run.
use std::borrow::Borrow;
use std::cell::RefCell;
use std::fmt::{Debug, Formatter};
use std::future::Future;
use std::rc::Rc;
use std::time::Duration;

pub struct Inner<K, V>(Rc<RefCell<Vec<(K, V)>>>);
unsafe impl<K, V> Send for Inner<K, V> {}
unsafe impl<K, V> Sync for Inner<K, V> {}
impl<K, V> Clone for Inner<K, V> {
    fn clone(&self) -> Self {
        Inner(self.0.clone())
    }
}
impl<K: Eq, V: Clone> Inner<K, V> {
    fn new() -> Self {
        Inner(Rc::default())
    }
    fn at<Q: Eq + ?Sized>(&self, k: &Q) -> Option<usize>
    where
        K: Borrow<Q>,
    {
        RefCell::borrow(&self.0).iter().position(|e| e.0.borrow() == k)
    }
    fn get<Q: Eq + ?Sized>(&self, k: &Q) -> Option<V>
    where
        K: Borrow<Q>,
    {
        let i = self.at(k)?;
        if tokio::stub::evictions() && rt::choice(2) == 1 {
            self.0.borrow_mut().swap_remove(i);
            return None;
        }
        Some(RefCell::borrow(&self.0)[i].1.clone())
    }
    fn put(&self, k: K, v: V) {
        match self.at(&k) {
            Some(i) => self.0.borrow_mut()[i].1 = v,
            None => self.0.borrow_mut().push((k, v)),
        }
    }
    fn remove<Q: Eq + ?Sized>(&self, k: &Q) -> Option<V>
    where
        K: Borrow<Q>,
    {
        self.at(k).map(|i| self.0.borrow_mut().swap_remove(i).1)
    }
}

pub mod future {
    use super::*;
    pub struct Cache<K, V>(Inner<K, V>);
    impl<K, V> Clone for Cache<K, V> {
        fn clone(&self) -> Self {
            Cache(self.0.clone())
        }
    }
    impl<K, V> Debug for Cache<K, V> {
        fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
            f.write_str("Cache")
        }
    }
    impl<K: Eq + std::hash::Hash, V: Clone> Cache<K, V> {
        pub fn new(_: u64) -> Self {
            Cache(Inner::new())
        }
        pub fn builder() -> CacheBuilder<K, V> {
            CacheBuilder(std::marker::PhantomData)
        }
        pub async fn get<Q: Eq + std::hash::Hash + ?Sized>(&self, k: &Q) -> Option<V>
        where
            K: Borrow<Q>,
        {
            tokio::stub::point().await;
            self.0.get(k)
        }
        pub fn contains_key<Q: Eq + std::hash::Hash + ?Sized>(&self, k: &Q) -> bool
        where
            K: Borrow<Q>,
        {
            self.0.get(k).is_some()
        }
        pub async fn insert(&self, k: K, v: V) {
            tokio::stub::point().await;
            self.0.put(k, v)
        }
        pub async fn invalidate<Q: Eq + std::hash::Hash + ?Sized>(&self, k: &Q)
        where
            K: Borrow<Q>,
        {
            tokio::stub::point().await;
            self.0.remove(k);
        }
        pub async fn remove<Q: Eq + std::hash::Hash + ?Sized>(&self, k: &Q) -> Option<V>
        where
            K: Borrow<Q>,
        {
            tokio::stub::point().await;
            self.0.remove(k)
        }
        pub fn invalidate_all(&self) {
            self.0 .0.borrow_mut().clear()
        }
        pub async fn run_pending_tasks(&self) {
            tokio::stub::point().await;
        }
        pub fn entry_count(&self) -> u64 {
            RefCell::borrow(&self.0 .0).len() as u64
        }
        pub async fn get_with(&self, k: K, f: impl Future<Output = V>) -> V {
            if let Some(v) = self.get(&k).await {
                return v;
            }
            let v = f.await;
            self.insert(k, v.clone()).await;
            v
        }
        pub fn iter(&self) -> std::vec::IntoIter<(std::sync::Arc<K>, V)>
        where
            K: Clone,
        {
            let l: Vec<_> = RefCell::borrow(&self.0 .0).iter().map(|e| (std::sync::Arc::new(e.0.clone()), e.1.clone())).collect();
            l.into_iter()
        }
        pub fn entry(&self, k: K) -> Selector<'_, K, V> {
            Selector(self, k)
        }
        pub fn entry_by_ref<Q: Eq + std::hash::Hash + ?Sized + ToOwned<Owned = K>>(&self, k: &Q) -> Selector<'_, K, V> {
            Selector(self, k.to_owned())
        }
        pub fn weighted_size(&self) -> u64 {
            self.entry_count()
        }
        pub async fn optionally_get_with(&self, k: K, f: impl Future<Output = Option<V>>) -> Option<V> {
            if let Some(v) = self.get(&k).await {
                return Some(v);
            }
            let v = f.await?;
            self.insert(k, v.clone()).await;
            Some(v)
        }
        pub async fn try_get_with<E>(&self, k: K, f: impl Future<Output = Result<V, E>>) -> Result<V, std::sync::Arc<E>> {
            if let Some(v) = self.get(&k).await {
                return Ok(v);
            }
            let v = f.await.map_err(std::sync::Arc::new)?;
            self.insert(k, v.clone()).await;
            Ok(v)
        }
    }
    pub struct Selector<'a, K, V>(&'a Cache<K, V>, K);
    #[derive(Debug, Clone)]
    pub struct Entry<K, V> {
        key: K,
        value: V,
        fresh: bool,
    }
    impl<K, V> Entry<K, V> {
        pub fn key(&self) -> &K {
            &self.key
        }
        pub fn value(&self) -> &V {
            &self.value
        }
        pub fn into_value(self) -> V {
            self.value
        }
        pub fn is_fresh(&self) -> bool {
            self.fresh
        }
    }
    impl<K: Eq + std::hash::Hash + Clone, V: Clone> Selector<'_, K, V> {
        pub async fn or_insert(self, v: V) -> Entry<K, V> {
            self.or_insert_with(async { v }).await
        }
        pub async fn or_default(self) -> Entry<K, V>
        where
            V: Default,
        {
            self.or_insert(V::default()).await
        }
        pub async fn or_insert_with(self, f: impl Future<Output = V>) -> Entry<K, V> {
            if let Some(value) = self.0.get(&self.1).await {
                return Entry { key: self.1, value, fresh: false };
            }
            let value = f.await;
            self.0.insert(self.1.clone(), value.clone()).await;
            Entry { key: self.1, value, fresh: true }
        }
        pub async fn or_try_insert_with<E>(self, f: impl Future<Output = Result<V, E>>) -> Result<Entry<K, V>, std::sync::Arc<E>> {
            if let Some(value) = self.0.get(&self.1).await {
                return Ok(Entry { key: self.1, value, fresh: false });
            }
            let value = f.await.map_err(std::sync::Arc::new)?;
            self.0.insert(self.1.clone(), value.clone()).await;
            Ok(Entry { key: self.1, value, fresh: true })
        }
        pub async fn and_upsert_with<F: Future<Output = V>>(self, f: impl FnOnce(Option<Entry<K, V>>) -> F) -> Entry<K, V> {
            let old = self.0.get(&self.1).await.map(|value| Entry { key: self.1.clone(), value, fresh: false });
            let value = f(old).await;
            self.0.insert(self.1.clone(), value.clone()).await;
            Entry { key: self.1, value, fresh: true }
        }
    }
    pub struct CacheBuilder<K, V>(std::marker::PhantomData<(K, V)>);
    impl<K: Eq + std::hash::Hash, V: Clone> CacheBuilder<K, V> {
        pub fn max_capacity(self, _: u64) -> Self {
            self
        }
        pub fn initial_capacity(self, _: usize) -> Self {
            self
        }
        pub fn time_to_live(self, _: Duration) -> Self {
            self
        }
        pub fn time_to_idle(self, _: Duration) -> Self {
            self
        }
        pub fn name(self, _: &str) -> Self {
            self
        }
        pub fn build(self) -> Cache<K, V> {
            Cache::new(0)
        }
    }
}
