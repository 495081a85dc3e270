@@module shardprel
@@text
// ------------------------------------------------------------------ assumptions about the outside world
// user code (keys, hashers, weighters), std atomics, hashbrown::HashTable
use vstd::prelude::*;
use vstd::std_specs::convert::*;
use crate::prelude::*;
broadcast use {group_token, group_fmap};
global size_of usize == 8;

/// Cloning yields an equal value (assumption on user types: keys, values, weighters, hashers, lifecycles).
pub trait Clone: Sized { fn clone(&self) -> (r: Self) ensures r == *self; }
/// Keys are identified by a number `kid`: two keys are equal iff their kids are. Assumption on user types:
/// Eq/Equivalent is an equivalence relation and Hash/ToOwned respect it.
pub trait Hash { spec fn kid(&self) -> int; }
pub trait Equivalent<K: ?Sized> {
    fn equivalent(&self, key: &K) -> (r: bool) where Self: Hash, K: Hash
        ensures r == (self.kid() == key.kid());
}
impl<K: Hash + ?Sized> Equivalent<K> for K {
    #[verifier::external_body]
    fn equivalent(&self, key: &K) -> (r: bool) { unimplemented!() }
}
pub trait ToOwned: Hash {
    type Owned: Hash;
    fn to_owned(&self) -> (r: Self::Owned) ensures r.kid() == self.kid();
}
/// Hashers are deterministic functions of the key.
pub trait BuildHasher {
    spec fn hspec(&self, kid: int) -> u64;
    fn hash_one<Q: Hash + ?Sized>(&self, key: &Q) -> (r: u64) ensures r == self.hspec(key.kid());
}
/// permission to change a use count through a shared reference; only `get` of a resident key has it
pub uninterp spec fn counting() -> bool;
/// a use was counted by this operation, or found not to be needed as the count is at its cap
pub uninterp spec fn used(a: AtomicU16) -> bool;
/// the count was seen to be this by this operation
pub uninterp spec fn read_as(a: AtomicU16, v: u16) -> bool;
/// the count was seen below its cap by this operation
pub uninterp spec fn below(a: AtomicU16) -> bool;
/// std::sync::atomic::AtomicU16 as used under the shard lock.
pub struct AtomicU16 { pub v: u16 }
impl AtomicU16 {
    pub fn get_mut(&mut self) -> (r: &mut u16) ensures *r == old(self).v, final(self).v == *final(r) { &mut self.v }
    #[verifier::external_body]
    pub fn load(&self, o: Ordering) -> (r: u16) ensures r >= 2 ==> used(*self), r < 2 ==> below(*self), read_as(*self, r) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_add(&self, x: u16, o: Ordering) -> u16
        requires
            counting(), // [C17] only a lookup that finds its key is counted
            x == 1 && below(*self), // [C18] a use is counted once, and only below the cap
        ensures used(*self),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_sub(&self, x: u16, o: Ordering) -> u16
        requires counting(), // [C17] only a lookup that finds its key is counted
    { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&self, x: u16, o: Ordering)
        requires
            counting(), // [C17] only a lookup that finds its key is counted
            x <= 2 && x > 0 && below(*self) && read_as(*self, (x - 1) as u16), // [C18] a use is counted once, and only below the cap
        ensures used(*self),
    { unimplemented!() }
}
impl FromSpecImpl<u16> for AtomicU16 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: u16) -> AtomicU16 { AtomicU16 { v } }
}
impl From<u16> for AtomicU16 { fn from(v: u16) -> (r: AtomicU16) { AtomicU16 { v } } }
impl Default for AtomicU16 { fn default() -> (r: AtomicU16) ensures r.v == 0 { AtomicU16 { v: 0 } } }
/// std::sync::atomic::AtomicU64, a counter of events. Through a shared reference the value only names the counter:
/// one may be added where that is due, and then it is counted. Counts stay below 2^64.
#[verifier::external_body]
pub struct AtomicU64 { v: u64 }
pub uninterp spec fn due(c: AtomicU64) -> bool;
pub uninterp spec fn counted(c: AtomicU64) -> bool;
impl AtomicU64 {
    pub uninterp spec fn val(&self) -> u64;
    #[verifier::external_body]
    pub fn get_mut(&mut self) -> (r: &mut u64) ensures *r == old(self).val(), *r < u64::MAX, final(self).val() == *final(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: Ordering) -> (r: u64) ensures r == self.val() { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_add(&self, x: u64, o: Ordering) -> u64
        requires due(*self) && x == 1, // [C19] only the lookup at hand is counted, once, and as what it is
        ensures counted(*self)
    { unimplemented!() }
}
pub uninterp spec fn counter_of(v: u64) -> AtomicU64;
#[verifier::external_body]
pub broadcast proof fn axiom_counter_of(v: u64) ensures (#[trigger] counter_of(v)).val() == v {}
impl FromSpecImpl<u64> for AtomicU64 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: u64) -> AtomicU64 { counter_of(v) }
}
impl From<u64> for AtomicU64 { #[verifier::external_body] fn from(v: u64) -> (r: AtomicU64) { unimplemented!() } }
impl Default for AtomicU64 { #[verifier::external_body] fn default() -> (r: AtomicU64) ensures r.val() == 0 { unimplemented!() } }
pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }

/// std::mem::MaybeUninit: reading it out requires that it was written. [C07]
pub struct MaybeUninit<T> { pub v: Option<T> }
impl<T> MaybeUninit<T> {
    pub fn uninit() -> (r: MaybeUninit<T>) ensures r.v is None { MaybeUninit { v: None } }
    pub fn write(&mut self, x: T) ensures final(self).v == Some(x) { self.v = Some(x); }
    pub fn assume_init(self) -> (r: T)
        requires self.v is Some, // [C07] MaybeUninit is read only after it was written
        ensures r == self.v->0
    { self.v.unwrap() }
}
pub assume_specification<T> [std::mem::replace] (dest: &mut T, src: T) -> (r: T) ensures r == *old(dest), *final(dest) == src;
/// `mem::take`
pub trait Blank: Sized { spec fn blank(x: Self) -> bool; fn make() -> (r: Self) ensures Self::blank(r); }
impl<T> Blank for Vec<T> { open spec fn blank(x: Self) -> bool { x@.len() == 0 } fn make() -> (r: Self) { Vec::new() } }
impl<T> Blank for Option<T> { open spec fn blank(x: Self) -> bool { x is None } fn make() -> (r: Self) { None } }
impl Blank for bool { open spec fn blank(x: Self) -> bool { !x } fn make() -> (r: Self) { false } }
impl Blank for u64 { open spec fn blank(x: Self) -> bool { x == 0 } fn make() -> (r: Self) { 0 } }
impl Blank for u16 { open spec fn blank(x: Self) -> bool { x == 0 } fn make() -> (r: Self) { 0 } }
impl Blank for usize { open spec fn blank(x: Self) -> bool { x == 0 } fn make() -> (r: Self) { 0 } }
pub fn take_out<T: Blank>(x: &mut T) -> (r: T) ensures r == *old(x), T::blank(*final(x)) { let b = T::make(); std::mem::replace(x, b) }
/// detaches the lifetime of a reference (the unsafe reborrow in the source)
#[verifier::external_body]
pub fn launder<'a, 'b, T>(r: &'a T) -> (o: &'b T) ensures *o == *r { unsafe { &*(r as *const T) } }
pub uninterp spec fn scaled(x: u64, f: f64) -> u64;
/// the share f of the capacity: at least 1 for a capacity that is not 0, at most the capacity
pub open spec fn hot_limit(cap: u64, f: f64) -> u64 { let lo = if cap < 1 { cap } else { 1u64 }; let x = scaled(cap, f); if x < lo { lo } else if x > cap { cap } else { x } }
#[verifier::external_body]
pub fn float_scale(x: u64, f: f64) -> (r: u64) ensures r == scaled(x, f) { unimplemented!() }
/// no share of anything is nothing (of IEEE arithmetic, discharged by Kani: floats/src/lib.rs, no_share)
#[verifier::external_body]
pub broadcast proof fn axiom_no_share(x: u64) ensures #[trigger] scaled(x, 0.0f64) == 0 {}

/// hashbrown::HashTable holding distinct elements, each filed under a hash.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashTable<T> { v: std::marker::PhantomData<T> }
#[verifier::reject_recursive_types(T)]
pub struct OccupiedEntry<'a, T> { pub table: &'a mut HashTable<T>, pub elem: T }
pub struct AbsentEntry {}
impl<T> Clone for HashTable<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl<T> HashTable<T> {
    /// the hash each element is filed under
    pub uninterp spec fn view(&self) -> FMap<T, Option<u64>>;
    pub uninterp spec fn order(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures forall|x: T| #[trigger] r@.at(x) is None { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures forall|x: T| #[trigger] final(self)@.at(x) is None { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r <==> (forall|x: T| #[trigger] self@.at(x) is None) { unimplemented!() }
    /// the elements a lookup for `hash` may visit: all elements filed under it, each once
    #[verifier::external_body]
    pub fn probe(&self, hash: u64) -> (r: SeqIter<&T>)
        ensures r.pos() == 0,
            forall|i: int| 0 <= i < r.seq().len() ==> self@.at(*(#[trigger] r.seq()[i])) is Some,
            forall|x: T| #[trigger] self@.at(x) == Some(hash) ==> exists|i: int| 0 <= i < r.seq().len() && *(#[trigger] r.seq()[i]) == x,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn some_element(&self) -> (r: Option<&T>) ensures r is Some ==> self@.at(*r->0) is Some { unimplemented!() }
    #[verifier::external_body]
    pub fn check_rehash(&self, e: &T, h: u64)
        requires self@.at(*e) is Some ==> self@.at(*e) == Some(h), // [C07] rehashing files every element under the hash it was inserted with
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert_hashed(&mut self, h: u64, x: T)
        requires old(self)@.at(x) is None, // [C07] no element is filed twice
        ensures final(self)@ == old(self)@.put(x, Some(h))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn reserve_room(&mut self, n: usize) ensures final(self)@ == old(self)@ { unimplemented!() }
    pub fn found_entry<'a>(&'a mut self, e: Option<T>) -> (r: Result<OccupiedEntry<'a, T>, AbsentEntry>)
        ensures e is None ==> r is Err && final(self)@ == old(self)@,
            e is Some ==> r is Ok && r->Ok_0.elem == e->0 && *r->Ok_0.table == *old(self) && *final(self) == *final(r->Ok_0.table),
    { match e { Some(elem) => Ok(OccupiedEntry { table: self, elem }), None => Err(AbsentEntry {}) } }
    #[verifier::external_body]
    fn remove_elem(&mut self, x: &T) ensures final(self)@ == old(self)@.put(*x, None) { unimplemented!() }
}
impl<'a, T> OccupiedEntry<'a, T> {
    pub fn remove(self) -> (r: (T, ()))
        ensures final(self.table)@ == old(self.table)@.put(self.elem, None)
    { let OccupiedEntry { table, elem } = self; table.remove_elem(&elem); (elem, ()) }
    pub fn get(&self) -> (r: &T) ensures *r == self.elem { &self.elem }
}
#[verifier::external_body]
pub broadcast proof fn axiom_table_order<T>(t: HashTable<T>)
    ensures #[trigger] t.order().no_duplicates(), forall|x: T| #[trigger] t.order().contains(x) <==> t@.at(x) is Some {}
impl<T> IterRefs<T> for HashTable<T> {
    open spec fn iterable(&self) -> bool { true }
    open spec fn refs(&self) -> Seq<T> { self.order() }
    #[verifier::external_body]
    fn iter_refs<'a>(&'a self) -> (r: SeqIter<&'a T>) { unimplemented!() }
}
/// What the user's lifecycle hooks were told.
pub enum Ev<K, V> { Before { key: K, old: V, new: V }, Evict { key: K, val: V } }
