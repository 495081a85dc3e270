@@module unsync
@@file unsync.rs
@@text
use vstd::prelude::*;
use crate::prelude::*;
use crate::shardprel::*;
use crate::api::*;
use crate::theory::*;
use crate::shardinv::*;
use crate::shard;
use crate::options::*;
use crate::linked_slab::{LinkedSlab, group_slab};
broadcast use {group_shard, group_slab, group_fmap, group_lend};
@@macro INV
    %%.inv(), // [C07] the representation invariant (see CacheShard)
@@item SharedPlaceholder
@derive Clone
@@item Cache
@@item Guard
@@item RefMut
@@text
impl<'a, Key: Hash, Val, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>> Guard<'a, Key, Val, We, B, L> {
    /// the cache as it is now / when the guard is gone
    pub open spec fn now(self) -> CacheShard<Key, Val, We, B, L, SharedPlaceholder> { self.cache.shard }
    #[verifier::prophetic]
    pub open spec fn then(self) -> CacheShard<Key, Val, We, B, L, SharedPlaceholder> { final(self.cache).shard }
    #[verifier::prophetic]
    pub open spec fn then_cache(self) -> Cache<Key, Val, We, B, L> { *final(self.cache) }
    /// the guard stands for a load in progress
    pub open spec fn loading(self) -> bool { self.now().inv() && !self.inserted && self.now().loads(self.placeholder) }
}
pub open spec fn fits_all<Key: Hash, Val, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>>(s: CacheShard<Key, Val, We, B, L, SharedPlaceholder>, kid: int) -> bool {
    forall|k: Key, v: Val| k.kid() == kid ==> s.weight_hot + s.weight_cold + #[trigger] s.weighter.wspec(k, v) <= u64::MAX
}
/// a load of k was started in o, giving m with placeholder p; val was stored through it, with the request log l, giving n
pub open spec fn loaded<Key: Hash, Val, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>>(o: CacheShard<Key, Val, We, B, L, SharedPlaceholder>, m: CacheShard<Key, Val, We, B, L, SharedPlaceholder>,
    n: CacheShard<Key, Val, We, B, L, SharedPlaceholder>, k: int, p: SharedPlaceholder, val: Val, r: Result<(), Val>, l0: Seq<Ev<Key, Val>>, l: Seq<Ev<Key, Val>>) -> bool {
    &&& m.loads(p) && live_at(m.cs(), p.idx, k) && m.view() == o.view().put(k, m.view().at(k)) && m.same_cfg(o)
    &&& stored(m, n, p, val, r, l0, l)
}
pub open spec fn stored<Key: Hash, Val, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>>(m: CacheShard<Key, Val, We, B, L, SharedPlaceholder>,
    n: CacheShard<Key, Val, We, B, L, SharedPlaceholder>, p: SharedPlaceholder, val: Val, r: Result<(), Val>, l0: Seq<Ev<Key, Val>>, l: Seq<Ev<Key, Val>>) -> bool {
    &&& r is Ok && l0 == Seq::<Ev<Key, Val>>::empty()
    &&& n.plh_asked(m, p, val, r, l0, l) && n.plh_admit(m, p, val, r, l0, l)
    &&& n.plh_account(m, p, val, r, l0, l) && n.plh_keep(m, p, val, r, l0, l) && n.plh_room(m, p, val, r, l0, l)
}
@@fn <SharedPlaceholder for SharedPlaceholder>::new
@impl_text
    open spec fn ph_id(&self) -> int { 0 }
    open spec fn ph_new(&self) -> bool { true }
    open spec fn ph_hash(&self) -> u64 { self.hash }
    open spec fn ph_idx(&self) -> Token { self.idx }
    fn clone(&self) -> (r: Self) { SharedPlaceholder { hash: self.hash, idx: self.idx } }
@@fn <SharedPlaceholder for SharedPlaceholder>::same_as
@join
@@fn <SharedPlaceholder for SharedPlaceholder>::hash
@join
@@fn <SharedPlaceholder for SharedPlaceholder>::idx
@join
@@fn Cache::with_options
@ret r
@ensures
    !INV r.shard
    r.shard.entries.room(),
    forall|k: int| (#[trigger] r.shard.view().at(k)) is None, // [C01] a new cache is empty
    r.shard.weight_capacity == options.weight_capacity, // [C15] the capacity set is used
    r.shard.capacity_non_resident == scaled(options.estimated_items_capacity as u64, options.ghost_allocation), // [C15] the ghost share and item estimate set are used
    r.shard.weight_target_hot == hot_limit(options.weight_capacity, options.hot_allocation), // [C15] the hot share set is used
    r.shard.weighter == weighter && r.shard.hash_builder == hash_builder && r.shard.lifecycle == lifecycle, // [C15] the given collaborators are used
@@fn Cache::with
@ret r
@ensures
    !INV r.shard
    r.shard.entries.room(),
    forall|k: int| (#[trigger] r.shard.view().at(k)) is None, // [C01] a new cache is empty
    r.shard.weight_capacity == weight_capacity, // [C15] the capacity set is used
    r.shard.capacity_non_resident == scaled(estimated_items_capacity as u64, DEFAULT_GHOST_ALLOCATION), // [C15] the default ghost share and the given item estimate are used
    r.shard.weight_target_hot == hot_limit(weight_capacity, DEFAULT_HOT_ALLOCATION), // [C15] the default hot share is used
    r.shard.weighter == weighter && r.shard.hash_builder == hash_builder && r.shard.lifecycle == lifecycle, // [C15] the given collaborators are used
@@fn Cache::with_weighter
@impl_generics <Key: Eq + Hash, Val, We: Weighter<Key, Val>, B: BuildHasher + Default, L: Lifecycle<Key, Val> + Default>
@impl_subst Cache < Key , Val , We > => Cache<Key, Val, We, B, L>
@ret r
@ensures
    !INV r.shard
    r.shard.entries.room(),
    forall|k: int| (#[trigger] r.shard.view().at(k)) is None, // [C01] a new cache is empty
    r.shard.weight_capacity == weight_capacity, // [C15] the capacity set is used
    r.shard.capacity_non_resident == scaled(estimated_items_capacity as u64, DEFAULT_GHOST_ALLOCATION), // [C15] the default ghost share and the given item estimate are used
    r.shard.weight_target_hot == hot_limit(weight_capacity, DEFAULT_HOT_ALLOCATION), // [C15] the default hot share is used
    r.shard.weighter == weighter, // [C15] the given weighter is used
@@fn Cache::new
@impl_generics <Key: Eq + Hash, Val, We: Weighter<Key, Val> + Default, B: BuildHasher + Default, L: Lifecycle<Key, Val> + Default>
@impl_subst Cache < Key , Val > => Cache<Key, Val, We, B, L>
@ret r
@ensures
    !INV r.shard
    r.shard.entries.room(),
    forall|k: int| (#[trigger] r.shard.view().at(k)) is None, // [C01] a new cache is empty
    r.shard.weight_capacity == (items_capacity as u64), // [C15] the capacity set is used
    r.shard.capacity_non_resident == scaled(items_capacity as u64, DEFAULT_GHOST_ALLOCATION), // [C15] the default ghost share and the given item estimate are used
    r.shard.weight_target_hot == hot_limit((items_capacity as u64), DEFAULT_HOT_ALLOCATION), // [C15] the default hot share is used
@@fn Cache::is_empty
@ret r
@requires
    self.shard.inv(),
@ensures
    r == (self.shard.total(Kind::NHot) + self.shard.total(Kind::NCold) == 0), // [C02] is_empty iff no pair is resident
@@fn Cache::len
@ret r
@requires
    self.shard.inv(),
@ensures
    r == self.shard.total(Kind::NHot) + self.shard.total(Kind::NCold), // [C02] len() is the number of resident pairs
@@fn Cache::weight
@ret r
@requires
    self.shard.inv(),
@ensures
    r == self.shard.total(Kind::WHot) + self.shard.total(Kind::WCold), // [C02] weight() is the sum of the weights of all resident pairs
@@fn Cache::capacity
@ret r
@ensures
    r == self.shard.weight_capacity, // [C03] capacity() is the configured capacity
@@fn Cache::reserve
@requires
    old(self).shard.inv(),
@ensures
    !INV final(self).shard
    final(self).shard.cs() == old(self).shard.cs() && final(self).shard.rest() == old(self).shard.rest(), // [C07] reserving changes nothing observable
    final(self).shard.tallies(old(self).shard, 0, 0), // [C19] nothing is counted
@@fn Cache::contains_key
@ret r
@requires
    self.shard.inv(),
@ensures
    r == (self.shard.view().at(key.kid()) is Val), // [C01] contains iff resident
@@fn Cache::hits
@feature stats
@ret r
@ensures
    r == self.shard.hits.val(), // [C19] the hits counted
@@fn Cache::misses
@feature stats
@ret r
@ensures
    r == self.shard.misses.val(), // [C19] the misses counted
@@fn Cache::get
@ret r
@requires
    if self.shard.view().at(key.kid()) is Val { self.shard.hit_due() } else { self.shard.miss_due() }, // [C19] the lookup may be counted
    self.shard.view().at(key.kid()) is Val ==> counting(),
    self.shard.inv(),
@ensures
    if self.shard.view().at(key.kid()) is Val { self.shard.hit_done() } else { self.shard.miss_done() }, // [C19] a hit or a miss is counted
    r is Some <==> (self.shard.view().at(key.kid()) is Val), // [C01] get finds exactly the resident keys
    r is Some ==> *r->0 == self.shard.view().at(key.kid())->Val_1, // [C01] get returns the stored value
@@fn Cache::peek
@ret r
@requires
    self.shard.inv(),
@ensures
    r is Some <==> (self.shard.view().at(key.kid()) is Val), // [C01] peek finds exactly the resident keys
    r is Some ==> *r->0 == self.shard.view().at(key.kid())->Val_1, // [C01] peek returns the stored value
@@fn Cache::get_mut
@ret r
@requires
    old(self).shard.inv(),
@ensures
    match r { Some(h) => h.0.now().tallies(old(self).shard, 1, 0), None => final(self).shard.tallies(old(self).shard, 0, 1) }, // [C19] a hit or a miss, once
    r is Some <==> (old(self).shard.view().at(key.kid()) is Val), // [C12] a handle exactly for resident keys
    r is Some ==> (r->0).0.now().cs() == old(self).shard.cs() && live_at(old(self).shard.cs(), (r->0).0.idx, key.kid()) && (r->0).0.now().lent((r->0).0.idx, (r->0).0.old_weight)
        && (r->0).0.now().same_cfg(old(self).shard), // [C12] to the resident entry of that key
    r is Some ==> final(self).shard == (r->0).0.then(),
    r is None ==> final(self).shard.inv(),
    r is None ==> final(self).shard.untouched(old(self).shard), // [C17] a miss leaves no trace
@@fn Cache::peek_mut
@ret r
@requires
    old(self).shard.inv(),
@ensures
    match r { Some(h) => h.0.now().tallies(old(self).shard, 0, 0), None => final(self).shard.tallies(old(self).shard, 0, 0) }, // [C19] peeking is not counted
    r is Some <==> (old(self).shard.view().at(key.kid()) is Val), // [C12] a handle exactly for resident keys
    r is Some ==> (r->0).0.now().cs() == old(self).shard.cs() && live_at(old(self).shard.cs(), (r->0).0.idx, key.kid()) && (r->0).0.now().lent((r->0).0.idx, (r->0).0.old_weight)
        && (r->0).0.now().same_cfg(old(self).shard), // [C12] to the resident entry of that key
    r is Some ==> (r->0).0.now().untouched(old(self).shard), // [C17] peeking leaves no trace
    r is Some ==> final(self).shard == (r->0).0.then(),
    r is None ==> final(self).shard.inv(),
    r is None ==> final(self).shard.untouched(old(self).shard), // [C17] a miss leaves no trace
@@fn Cache::remove
@ret r
@requires
    old(self).shard.inv(),
@ensures
    !INV final(self).shard
    final(self).shard.same_cfg(old(self).shard),
    final(self).shard.tallies(old(self).shard, 0, 0), // [C19] nothing is counted
    final(self).shard.view() == old(self).shard.view().put(key.kid(), Cell::None), // [C09] exactly that key is removed
    match r { Some((k, v)) => old(self).shard.view().at(key.kid()) == Cell::<Key, Val, SharedPlaceholder>::Val(k, v),
        None => !(old(self).shard.view().at(key.kid()) is Val) }, // [C09] the removed pair is returned
@@fn Cache::retain
@requires
    old(self).shard.inv(),
    is_predicate(f),
@ensures
    !INV final(self).shard
    final(self).shard.same_cfg(old(self).shard),
    final(self).shard.tallies(old(self).shard, 0, 0), // [C19] nothing is counted
    sifted(f, old(self).shard.view(), final(self).shard.view()), // [C09] exactly the pairs for which the predicate is false are removed
@@fn Cache::clear
@requires
    old(self).shard.inv(),
@ensures
    !INV final(self).shard
    final(self).shard.same_cfg(old(self).shard),
    final(self).shard.tallies(old(self).shard, 0, 0), // [C19] nothing is counted
    forall|k: int| (#[trigger] final(self).shard.view().at(k)) is None, // [C09] nothing is left
@@fn Cache::iter
@ret r
@requires
    self.shard.inv(),
@ensures
    lists(self.shard.view(), r@.map_values(|p: (&Key, &Val)| (*p.0, *p.1))), // [C09] every resident pair is yielded exactly once, and nothing else
@@fn Cache::drain
@ret r
@requires
    old(self).shard.inv(),
@ensures
    !INV final(self).shard
    final(self).shard.same_cfg(old(self).shard),
    final(self).shard.tallies(old(self).shard, 0, 0), // [C19] nothing is counted
    forall|k: int| (#[trigger] final(self).shard.view().at(k)) is None, // [C09] nothing is left
    lists(old(self).shard.view(), r@), // [C09] every resident pair is yielded exactly once, and nothing else
@@macro INS
    final(self).shard.ins_asked(old(self).shard, key, value, %%), // [C13] before_evict is consulted exactly for pairs heavier than the admission limit
    final(self).shard.ins_admit(old(self).shard, key, value, %%), // [C06] a pair within the limit is accepted; a heavier one is not stored, and only the previous value of its key goes
    final(self).shard.ins_new(old(self).shard, key, value, %%), // [C06] a brand-new key is present right after its insertion
    final(self).shard.ins_room(old(self).shard, key, value, %%), // [C03] within capacity unless the rest is pinned; a refused pair takes no room
    final(self).shard.ins_account(old(self).shard, key, value, %%), // [C05] the pair is stored or handed out once; the one it replaces and every pair that left was handed out once
    final(self).shard.ins_keep(old(self).shard, key, value, %%), // [C04] pinned and weightless pairs stay
@@macro INSEND
    exists|rs: L::RequestState| #[trigger] old(self).shard.lifecycle.ended(rs) && final(self).shard.ins_asked(old(self).shard, key, value, %%, L::log(rs)), // [C13] the request is ended with the state its hooks received
    exists|l: Seq<Ev<Key, Val>>| #[trigger] final(self).shard.ins_admit(old(self).shard, key, value, %%, l), // [C06] a pair within the limit is accepted; a heavier one is not stored, and only the previous value of its key goes
    exists|l: Seq<Ev<Key, Val>>| #[trigger] final(self).shard.ins_new(old(self).shard, key, value, %%, l), // [C06] a brand-new key is present right after its insertion
    exists|l: Seq<Ev<Key, Val>>| #[trigger] final(self).shard.ins_room(old(self).shard, key, value, %%, l), // [C03] within capacity unless the rest is pinned; a refused pair takes no room
    exists|l: Seq<Ev<Key, Val>>| #[trigger] final(self).shard.ins_account(old(self).shard, key, value, %%, l), // [C05] the pair is stored or handed out once; the one it replaces and every pair that left was handed out once
    exists|l: Seq<Ev<Key, Val>>| #[trigger] final(self).shard.ins_keep(old(self).shard, key, value, %%, l), // [C04] pinned and weightless pairs stay
@@macro INSPRE
    old(self).shard.inv(),
    old(self).shard.entries.room(),
    forall|v: Val| old(self).shard.weight_hot + old(self).shard.weight_cold + #[trigger] old(self).shard.weighter.wspec(key, v) <= u64::MAX,
@@fn Cache::insert_with_lifecycle
@ret r
@requires
    !INSPRE x
@ensures
    !INV final(self).shard
    final(self).shard.same_cfg(old(self).shard),
    final(self).shard.tallies(old(self).shard, 0, 0), // [C19] nothing is counted
    !INS false, Ok(()), Seq::empty(), L::log(r)
    final(self).shard.ins_place(old(self).shard, key, value, false, Ok(()), Seq::empty(), L::log(r)), // [C18] a new pair enters the section it belongs to
    final(self).shard.ins_use(old(self).shard, key, value, false, Seq::empty(), L::log(r)), // [C18] replacing a value is a use
@@fn Cache::insert
@requires
    !INSPRE x
@ensures
    !INV final(self).shard
    final(self).shard.same_cfg(old(self).shard),
    final(self).shard.tallies(old(self).shard, 0, 0), // [C19] nothing is counted
    !INSEND false, Ok(()), Seq::empty()
    exists|l: Seq<Ev<Key, Val>>| #[trigger] final(self).shard.ins_place(old(self).shard, key, value, false, Ok(()), Seq::empty(), l), // [C18] a new pair enters the section it belongs to
    exists|l: Seq<Ev<Key, Val>>| #[trigger] final(self).shard.ins_use(old(self).shard, key, value, false, Seq::empty(), l), // [C18] replacing a value is a use
@@fn Cache::replace_with_lifecycle
@ret r
@requires
    !INSPRE x
@ensures
    !INV final(self).shard
    final(self).shard.same_cfg(old(self).shard),
    final(self).shard.tallies(old(self).shard, 0, 0), // [C19] nothing is counted
    exists|l: Seq<Ev<Key, Val>>| #![trigger final(self).shard.ins_asked(old(self).shard, key, value, true, done(r), Seq::empty(), l)] (r is Ok ==> l == L::log(r->Ok_0)) && final(self).shard.ins_asked(old(self).shard, key, value, true, done(r), Seq::empty(), l)
        && final(self).shard.ins_admit(old(self).shard, key, value, true, done(r), Seq::empty(), l), // [C06]
    exists|l: Seq<Ev<Key, Val>>| #![trigger final(self).shard.ins_account(old(self).shard, key, value, true, done(r), Seq::empty(), l)] (r is Ok ==> l == L::log(r->Ok_0)) && final(self).shard.ins_account(old(self).shard, key, value, true, done(r), Seq::empty(), l), // [C05]
    exists|l: Seq<Ev<Key, Val>>| #![trigger final(self).shard.ins_fail(old(self).shard, key, value, true, done(r), Seq::empty(), l)] (r is Ok ==> l == L::log(r->Ok_0)) && final(self).shard.ins_fail(old(self).shard, key, value, true, done(r), Seq::empty(), l), // [C08]
    r is Ok ==> final(self).shard.ins_asked(old(self).shard, key, value, true, Ok(()), Seq::empty(), L::log(r->Ok_0)), // [C13]
    r is Ok ==> final(self).shard.ins_room(old(self).shard, key, value, true, Ok(()), Seq::empty(), L::log(r->Ok_0)), // [C03]
    r is Ok ==> final(self).shard.ins_keep(old(self).shard, key, value, true, Ok(()), Seq::empty(), L::log(r->Ok_0)), // [C04]
    r is Ok ==> final(self).shard.ins_use(old(self).shard, key, value, soft, Seq::empty(), L::log(r->Ok_0)), // [C18] a replacement is a use unless soft
@@fn Cache::replace
@ret r
@requires
    !INSPRE x
@ensures
    !INV final(self).shard
    final(self).shard.same_cfg(old(self).shard),
    final(self).shard.tallies(old(self).shard, 0, 0), // [C19] nothing is counted
    r is Ok ==> exists|rs: L::RequestState| #[trigger] old(self).shard.lifecycle.ended(rs) && final(self).shard.ins_asked(old(self).shard, key, value, true, Ok(()), Seq::empty(), L::log(rs)), // [C13] the request is ended with the state its hooks received
    r is Ok ==> exists|l: Seq<Ev<Key, Val>>| #[trigger] final(self).shard.ins_account(old(self).shard, key, value, true, Ok(()), Seq::empty(), l), // [C05]
    r is Ok ==> exists|l: Seq<Ev<Key, Val>>| #[trigger] final(self).shard.ins_use(old(self).shard, key, value, soft, Seq::empty(), l), // [C18] a replacement is a use unless soft
    exists|l: Seq<Ev<Key, Val>>| #![trigger final(self).shard.ins_fail(old(self).shard, key, value, true, r, Seq::empty(), l)] final(self).shard.ins_fail(old(self).shard, key, value, true, r, Seq::empty(), l), // [C08]
@@macro LOADPRE
    old(self).shard.inv(),
    old(self).shard.entries.room(),
    fits_all(old(self).shard, key.kid()),
    with.requires(()),
@@fn Cache::get_or_insert_with
@ret r
@requires
    !LOADPRE x
@ensures
    !INV final(self).shard
    final(self).shard.same_cfg(old(self).shard),
    if old(self).shard.view().at(key.kid()) is None { final(self).shard.tallies(old(self).shard, 0, 1) } else { final(self).shard.tallies(old(self).shard, 1, 0) }, // [C19] a hit or a miss, once
    match r {
        Ok(Some(v)) => final(self).shard.view().at(key.kid()) is Val && *v == final(self).shard.view().at(key.kid())->Val_1,
        Ok(None) => !(final(self).shard.view().at(key.kid()) is Val),
        Err(e) => true,
    }, // [C01] returns the value stored under the key
    old(self).shard.view().at(key.kid()) is Val ==> r is Ok && final(self).shard.cs() == old(self).shard.cs(), // [C10] nothing is loaded for a resident key
    r is Err ==> with.ensures((), Err(r->Err_0)) && final(self).shard.view() == old(self).shard.view().put(key.kid(), Cell::None), // [C10] a failed load leaves no trace
    r is Ok && !(old(self).shard.view().at(key.kid()) is Val) ==> exists|m: CacheShard<Key, Val, We, B, L, SharedPlaceholder>, p: SharedPlaceholder, val: Val, r0: Result<(), Val>, l0: Seq<Ev<Key, Val>>, rs: L::RequestState|
        with.ensures((), Ok(val)) && #[trigger] old(self).shard.lifecycle.ended(rs) && #[trigger] final(self).shard.plh_over(m, p, val, r0, l0, L::log(rs)) && loaded(old(self).shard, m, final(self).shard, key.kid(), p, val, r0, l0, L::log(rs)), // [C10] the loaded value is stored, as one request
@@fn Cache::get_mut_or_insert_with
@ret r
@requires
    !LOADPRE x
@ensures
    match r { Ok(Some(h)) => if old(self).shard.view().at(key.kid()) is None { h.0.now().tallies(old(self).shard, 0, 1) } else { h.0.now().tallies(old(self).shard, 1, 0) }, _ => if old(self).shard.view().at(key.kid()) is None { final(self).shard.tallies(old(self).shard, 0, 1) } else { final(self).shard.tallies(old(self).shard, 1, 0) } }, // [C19] a hit or a miss, once
    match r {
        Ok(Some(h)) => h.0.now().cs().at(h.0.idx) is Res && h.0.now().cs().at(h.0.idx)->Res_key.kid() == key.kid() && h.0.now().lent(h.0.idx, h.0.old_weight) && h.0.now().same_cfg(old(self).shard),
        Ok(None) => !(final(self).shard.view().at(key.kid()) is Val),
        Err(e) => true,
    }, // [C12] a handle to the entry of that key
    r is Ok && r->Ok_0 is Some ==> (r->Ok_0->0).0.then() == final(self).shard,
    !(r is Ok && r->Ok_0 is Some) ==> final(self).shard.inv() && final(self).shard.same_cfg(old(self).shard),
    old(self).shard.view().at(key.kid()) is Val ==> r is Ok && r->Ok_0 is Some && (r->Ok_0->0).0.now().cs() == old(self).shard.cs(), // [C10] nothing is loaded for a resident key
    r is Err ==> with.ensures((), Err(r->Err_0)) && final(self).shard.view() == old(self).shard.view().put(key.kid(), Cell::None), // [C10] a failed load leaves no trace
    r is Ok && !(old(self).shard.view().at(key.kid()) is Val) ==> exists|n: CacheShard<Key, Val, We, B, L, SharedPlaceholder>, m: CacheShard<Key, Val, We, B, L, SharedPlaceholder>, p: SharedPlaceholder, val: Val, r0: Result<(), Val>, l0: Seq<Ev<Key, Val>>, rs: L::RequestState|
        with.ensures((), Ok(val)) && #[trigger] old(self).shard.lifecycle.ended(rs) && #[trigger] n.plh_over(m, p, val, r0, l0, L::log(rs)) && loaded(old(self).shard, m, n, key.kid(), p, val, r0, l0, L::log(rs))
        && (match r->Ok_0 { Some(h) => h.0.now().cs() == n.cs(), None => final(self).shard.cs() == n.cs() }), // [C10] the loaded value is stored, as one request
@@fn Cache::get_ref_or_guard
@ret r
@requires
    old(self).shard.inv(),
    old(self).shard.entries.room(),
@ensures
    match r { Ok(_) => final(self).shard.tallies(old(self).shard, 1, 0), Err(g) => if old(self).shard.view().at(key.kid()) is None { g.now().tallies(old(self).shard, 0, 1) } else { g.now().tallies(old(self).shard, 1, 0) } }, // [C19] a hit or a miss, once
    r is Ok <==> (old(self).shard.view().at(key.kid()) is Val), // [C10] a value for a resident key, a guard otherwise
    r is Ok ==> *r->Ok_0 == old(self).shard.view().at(key.kid())->Val_1, // [C01] the value stored under the key
    r is Ok ==> final(self).shard.inv() && final(self).shard.cs() == old(self).shard.cs() && final(self).shard.same_cfg(old(self).shard), // [C10] nothing is loaded for a resident key
    r is Err ==> r->Err_0.loading() && live_at(r->Err_0.now().cs(), r->Err_0.placeholder.idx, key.kid()) && r->Err_0.now().view() == old(self).shard.view().put(key.kid(), r->Err_0.now().view().at(key.kid()))
        && r->Err_0.now().same_cfg(old(self).shard), // [C10] the guard stands for the load of that key
    r is Err ==> r->Err_0.then_cache() == *final(self),
@@fn Cache::get_mut_or_guard
@ret r
@requires
    old(self).shard.inv(),
    old(self).shard.entries.room(),
@ensures
    match r { Ok(Some(h)) => h.0.now().tallies(old(self).shard, 1, 0), Err(g) => if old(self).shard.view().at(key.kid()) is None { g.now().tallies(old(self).shard, 0, 1) } else { g.now().tallies(old(self).shard, 1, 0) }, _ => true }, // [C19] a hit or a miss, once
    r is Ok <==> (old(self).shard.view().at(key.kid()) is Val), // [C10] a value for a resident key, a guard otherwise
    r is Ok ==> r->Ok_0 is Some && (r->Ok_0->0).0.now().cs() == old(self).shard.cs() && live_at(old(self).shard.cs(), (r->Ok_0->0).0.idx, key.kid()) && (r->Ok_0->0).0.now().lent((r->Ok_0->0).0.idx, (r->Ok_0->0).0.old_weight)
        && (r->Ok_0->0).0.now().same_cfg(old(self).shard), // [C12] a handle to the resident entry of that key
    r is Ok && r->Ok_0 is Some ==> final(self).shard == (r->Ok_0->0).0.then(),
    r is Err ==> r->Err_0.loading() && live_at(r->Err_0.now().cs(), r->Err_0.placeholder.idx, key.kid()) && r->Err_0.now().view() == old(self).shard.view().put(key.kid(), r->Err_0.now().view().at(key.kid()))
        && r->Err_0.now().same_cfg(old(self).shard), // [C10] the guard stands for the load of that key
    r is Err ==> r->Err_0.then_cache() == *final(self),
@@fn <Drop for Guard>::drop
@impl_generics <Key: Hash, Val, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>>
@as_inherent
@requires
    old(self).now().inv(),
    !old(self).inserted ==> old(self).loading(),
@ensures
    !INV final(self).now()
    final(self).now().same_cfg(old(self).now()),
    final(self).now().tallies(old(self).now(), 0, 0), // [C19] nothing is counted
    old(self).inserted ==> final(self).now() == old(self).now(), // [C10] a guard that was used does nothing more
    !old(self).inserted ==> final(self).now().cs() == old(self).now().cs().put(old(self).placeholder.idx, Core::Void), // [C10] an abandoned load is forgotten
    final(self).then_cache() == old(self).then_cache(),
@@macro STORE
    exists|rs: L::RequestState, r0: Result<(), Val>, l0: Seq<Ev<Key, Val>>| %% && #[trigger] self.then().plh_over(self.now(), self.placeholder, value, r0, l0, L::log(rs))
        && stored(self.now(), self.then(), self.placeholder, value, r0, l0, L::log(rs)), // [C10] the value is stored through the placeholder, as one request
@@fn Guard::insert_internal
@at_exit
    this.drop();
@ret r
@requires
    self.loading(),
    fits_all(self.now(), self.now().cs().at(self.placeholder.idx)->Load_key.kid()),
@ensures
    !INV self.then()
    self.then().same_cfg(self.now()),
    self.then().tallies(self.now(), 0, 0), // [C19] nothing is counted
    r is Some == return_lcs,
    !STORE (if return_lcs { r == Some(rs) } else { self.now().lifecycle.ended(rs) })
@@fn Guard::insert
@requires
    self.loading(),
    fits_all(self.now(), self.now().cs().at(self.placeholder.idx)->Load_key.kid()),
@ensures
    !INV self.then()
    self.then().same_cfg(self.now()),
    self.then().tallies(self.now(), 0, 0), // [C19] nothing is counted
    !STORE self.now().lifecycle.ended(rs)
@@fn Guard::insert_with_lifecycle
@ret r
@requires
    self.loading(),
    fits_all(self.now(), self.now().cs().at(self.placeholder.idx)->Load_key.kid()),
@ensures
    !INV self.then()
    self.then().same_cfg(self.now()),
    self.then().tallies(self.now(), 0, 0), // [C19] nothing is counted
    !STORE r == rs
@@fn <Deref for RefMut>::deref
@ret_type &Val
@impl_generics <Key: Hash, Val, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>>
@as_inherent
@ret r
@requires
    self.0.now().lent(self.0.idx, self.0.old_weight),
@ensures
    *r == self.0.now().cs().at(self.0.idx)->val, // [C12] the handle refers to its pair
@@fn <DerefMut for RefMut>::deref_mut
@ret_type &mut Val
@impl_generics <Key: Hash, Val, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>>
@as_inherent
@ret r
@requires
    old(self).0.now().lent(old(self).0.idx, old(self).0.old_weight),
@ensures
    *r == old(self).0.now().cs().at(old(self).0.idx)->val, // [C12] the handle refers to its pair
    final(self).0.now().cs() == old(self).0.now().cs().put(old(self).0.idx, Core::Res { key: old(self).0.now().cs().at(old(self).0.idx)->Res_key, val: *final(r), hot: old(self).0.now().cs().at(old(self).0.idx)->Res_hot }), // [C12] what is written through the handle is the value
    final(self).0.now().lent(final(self).0.idx, final(self).0.old_weight), // [C12]
    final(self).0.now().same_cfg(old(self).0.now()),
    final(self).0.now().tallies(old(self).0.now(), 0, 0), // [C19] nothing is counted
    final(self).0.now().weight_hot == old(self).0.now().weight_hot && final(self).0.now().weight_cold == old(self).0.now().weight_cold,
    final(self).0.idx == old(self).0.idx && final(self).0.old_weight == old(self).0.old_weight && final(self).0.then() == old(self).0.then(),
