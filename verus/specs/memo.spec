// The memoizer: every entry of the cache satisfies the invariant of the lock that guards it, whatever
// the other holders of the lock do.
//@ raw
use std::hash::Hash;
/// Stand-ins of `std::collections::HashMap` and `std::sync::RwLock` with the contracts that are assumed
/// of them: keys are compared with an equality that decides, a clone equals its original, and whoever
/// takes the lock finds the table with every entry satisfying the lock's invariant `ok` - any
/// relation fixed when the lock is created, which every insertion has to respect.
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { m: std::collections::HashMap<K, V> }
impl<K, V> HashMap<K, V> {
    pub uninterp spec fn map(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.map() == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r.map() == Map::<K, V>::empty() { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RwLock<T> { m: std::sync::RwLock<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct Reading<K, V> { k: std::marker::PhantomData<(K, V)> }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct Writing<K, V> { k: std::marker::PhantomData<(K, V)> }
/// the outcome of taking the lock; a poisoned lock panics in `unwrap`
#[verifier::reject_recursive_types(G)]
pub struct Taken<G> { pub guard: G }
impl<G> Taken<G> {
    pub fn unwrap(self) -> (r: G) ensures r == self.guard { self.guard }
    pub fn expect(self, m: &str) -> (r: G) ensures r == self.guard { self.guard }
}
impl<K, V> RwLock<HashMap<K, V>> {
    /// the lock's invariant on an entry
    pub uninterp spec fn ok(&self, k: K, v: V) -> bool;
    #[verifier::external_body]
    pub fn new(t: HashMap<K, V>) -> (r: Self)
        requires t.map() =~= Map::<K, V>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read(&self) -> (r: Taken<Reading<K, V>>)
        ensures r.guard.of() == *self, kept(r.guard.map(), *self),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write(&self) -> (r: Taken<Writing<K, V>>)
        ensures r.guard.of() == *self, kept(r.guard.map(), *self),
    { unimplemented!() }
}
pub open spec fn kept<K, V>(m: Map<K, V>, l: RwLock<HashMap<K, V>>) -> bool {
    forall|k: K| #[trigger] m.contains_key(k) ==> l.ok(k, m[k])
}
impl<K, V> Reading<K, V> {
    pub uninterp spec fn of(&self) -> RwLock<HashMap<K, V>>;
    pub uninterp spec fn map(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures match r { Some(v) => self.map().contains_key(*k) && *v == self.map()[*k], None => !self.map().contains_key(*k) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self.map().contains_key(*k) { unimplemented!() }
}
impl<K, V> Writing<K, V> {
    pub uninterp spec fn of(&self) -> RwLock<HashMap<K, V>>;
    pub uninterp spec fn map(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures match r { Some(v) => self.map().contains_key(*k) && *v == self.map()[*k], None => !self.map().contains_key(*k) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self.map().contains_key(*k) { unimplemented!() }
    /// An entry respects the invariant, and replaces no other: whoever computes a value for a key
    /// that has one already has called the function twice.
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        requires old(self).of().ok(k, v), !old(self).map().contains_key(k),
        ensures final(self).of() == old(self).of(), final(self).map() == old(self).map().insert(k, v), r is None,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self)
        ensures final(self).of() == old(self).of(), final(self).map() == Map::<K, V>::empty(),
    { unimplemented!() }
}
broadcast use {faithful_clone, faithful_clone_call};
//@ type datatypes/wrapper/memoizer.rs Memoizer #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
//@ fn datatypes/wrapper/memoizer.rs Memoizer::new props C19,C24
//@ fn datatypes/wrapper/memoizer.rs Memoizer[Default]::default props C19
//@ fn datatypes/wrapper/memoizer.rs Memoizer::get_or_compute props C19,C24
    requires
        f.requires((&key,)),
        forall|v: V| #[trigger] f.ensures((&key,), v) ==> self.cache.ok(key, v),
    ensures self.cache.ok(key, r),
//@ at let value
    assert(cache.map().contains_key(key) == false);
//@ at tail
    assert(cache.map().contains_key(key));
//@ fn datatypes/wrapper/memoizer.rs Memoizer::clear props C19,C24
//@ at tail
    assert(cache.map() =~= Map::<K, V>::empty());
