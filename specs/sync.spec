@@module sync
@@file sync.rs
@@text
use vstd::prelude::*;
use crate::prelude::*;
use crate::shardprel::*;
use crate::api::*;
use crate::theory::*;
use crate::shardinv::*;
use crate::options::*;
use crate::syncprel::*;
use crate::sync_placeholder::*;
use crate::sync_placeholder::SharedPlaceholder;
use crate::linked_slab::{LinkedSlab, group_slab};
broadcast use {group_shard, group_slab, group_fmap, group_lend};
pub type Shard<Key, Val, We, B, L> = CacheShard<Key, Val, We, B, L, SharedPlaceholder<Val>>;
@@item Cache
@@text
/// which shard a hash selects
pub open spec fn sel(hash: u64, mask: u64) -> int { (rotr(hash, 32) & mask) as int }
impl<Key: Hash, Val: Clone, We: Weighter<Key, Val> + Clone, B: BuildHasher + Clone, L: Lifecycle<Key, Val> + Clone> Cache<Key, Val, We, B, L> {
    pub open spec fn lock(self, kid: int) -> RwLock<Shard<Key, Val, We, B, L>> { self.shards@[sel(self.hash_builder.hspec(kid), self.shards_mask)] }
    /// all shards were made alike, with the collaborators of the cache
    pub open spec fn wf(self) -> bool {
        &&& self.shards@.len() == self.shards_mask + 1 && self.shards_mask < u64::MAX
        &&& forall|i: int| 0 <= i < self.shards@.len() ==> (#[trigger] self.shards@[i]).keeps().0 == self.hash_builder && self.shards@[i].keeps().2 == self.lifecycle
    }
    pub open spec fn reads(self) -> bool { forall|i: int| 0 <= i < self.shards@.len() ==> may_read(#[trigger] self.shards@[i]) }
    pub open spec fn writes(self) -> bool { forall|i: int| 0 <= i < self.shards@.len() ==> may_write(#[trigger] self.shards@[i]) }
    /// the sum of a quantity over the first n shards
    pub open spec fn heavy(self, n: int) -> int decreases n { if n <= 0 { 0 } else { self.heavy(n - 1) + self.shards@[n - 1].cur().total(Kind::WHot) + self.shards@[n - 1].cur().total(Kind::WCold) } }
@@if stats
    pub open spec fn all_hits(self, n: int) -> int decreases n { if n <= 0 { 0 } else { self.all_hits(n - 1) + self.shards@[n - 1].cur().hits.val() } }
    pub open spec fn all_misses(self, n: int) -> int decreases n { if n <= 0 { 0 } else { self.all_misses(n - 1) + self.shards@[n - 1].cur().misses.val() } }
@@endif
    pub open spec fn limits(self, n: int) -> int decreases n { if n <= 0 { 0 } else { self.limits(n - 1) + self.shards@[n - 1].keeps().3 } }
    pub open spec fn count(self, n: int) -> int decreases n { if n <= 0 { 0 } else { self.count(n - 1) + self.shards@[n - 1].cur().total(Kind::NHot) + self.shards@[n - 1].cur().total(Kind::NCold) } }
}
/// the value was stored under the key, or a load of it brought it meanwhile
pub open spec fn found_value<Key: Hash, Val: Clone, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>>(l: RwLock<Shard<Key, Val, We, B, L>>, k: int, v: Val) -> bool {
    (exists|s: Shard<Key, Val, We, B, L>| #[trigger] seen(l, s) && s.view().at(k) is Val && s.view().at(k)->Val_1 == v) || answered(l, k, v)
}
/// the guard was used: the value was stored or handed back, and the waiters told
pub open spec fn settled<'a, Key: Hash, Val: Clone, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>>(g: PlaceholderGuard<'a, Key, Val, We, B, L>, v: Val) -> bool {
    &&& exists|a: State<Val>, b: State<Val>| #[trigger] wrote(g.shared.state, a, b) && b.sound() && b.loading == LoadingState::<Val>::Inserted(v) && b.waiters@.len() == 0 && all_told(a)
    &&& (exists|rs: L::RequestState| #[trigger] g.lifecycle.ended(rs) && g.stored(v, Ok(()), Some(L::log(rs)))) || exists|w: Val| #[trigger] g.stored(v, Err(w), None)
}
pub open spec fn reserved<Key: Hash, Val, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>>(l: RwLock<Shard<Key, Val, We, B, L>>) -> bool {
    exists|a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>| #[trigger] wrote(l, a, b) && b.inv() && b.cs() == a.cs() && b.rest() == a.rest()
}
pub open spec fn cleared<Key: Hash, Val, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>>(l: RwLock<Shard<Key, Val, We, B, L>>) -> bool {
    exists|a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>| #[trigger] wrote(l, a, b) && b.inv() && b.same_cfg(a) && all_void(b.cs())
}
pub open spec fn retained<Key: Hash, Val, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>, F: Fn(&Key, &Val) -> bool>(f: F, l: RwLock<Shard<Key, Val, We, B, L>>) -> bool {
    exists|a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>| #[trigger] wrote(l, a, b) && b.inv() && b.same_cfg(a) && sifted(f, a.view(), b.view())
}
/// what each of n shards gets of a total
pub open spec fn share(total: u64, n: u64) -> u64 { (if total + (n - 1) > u64::MAX { u64::MAX as int } else { total + (n - 1) } / n as int) as u64 }
pub proof fn lemma_share(total: u64, n: u64)
    requires n > 0, total + (n - 1) <= u64::MAX
    ensures total <= share(total, n) * n < total + n
{
    let s = total + (n - 1);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(s, n as int);
    vstd::arithmetic::div_mod::lemma_mod_bound(s, n as int);
    assert((s / n as int) * n == n * (s / n as int)) by (nonlinear_arith);
    assert(0 <= s / n as int <= s) by (nonlinear_arith) requires s >= 0, n > 0;
}
/// the lock of one of n shards made with these options
pub open spec fn fresh_lock<Key: Hash, Val, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>>(l: RwLock<Shard<Key, Val, We, B, L>>, o: Options, n: u64, weighter: We, hash_builder: B, lifecycle: L) -> bool {
    let cap = share(o.weight_capacity, n);
    l.keeps().0 == hash_builder && l.keeps().1 == weighter && l.keeps().2 == lifecycle && l.keeps().3 == cap && l.keeps().4 == hot_limit(cap, o.hot_allocation)
        && l.keeps().5 == scaled(share(o.estimated_items_capacity as u64, n), o.ghost_allocation)
}
@@macro ALL
    forall|i: int| 0 <= i < $it.seq().len() ==> *(#[trigger] $it.seq()[i]) == %%.shards@[i],
    $it.seq().len() == %%.shards@.len(),
@@fn Cache::shard_for
@ret r
@requires
    self.wf(),
@ensures
    r is Some, // [C14] every key has a shard
    r is Some ==> (r->0).1 == self.hash_builder.hspec(key.kid()), // [C14] the hash handed on is that of the key
    r is Some ==> exists|i: int| 0 <= i < self.shards@.len() && *(r->0).0 == #[trigger] self.shards@[i], // [C14] one of the shards of the cache
    r is Some ==> *(r->0).0 == self.lock(key.kid()),
@entry
    assert(forall|x: u64, m: u64| #[trigger] (x & m) <= m) by (bit_vector);
@@fn Cache::is_empty
@ret r
@requires
    self.reads(),
@ensures
    quiet() ==> r == (forall|i: int| 0 <= i < self.shards@.len() ==> (#[trigger] self.shards@[i]).cur().total(Kind::NHot) + self.shards@[i].cur().total(Kind::NCold) == 0), // [C14] empty iff every shard is
@loop 0 invariant
    forall|i: int| 0 <= i < $it.seq().len() ==> *(#[trigger] $it.seq()[i]) == self.shards@[i],
    $it.seq().len() == self.shards@.len(),
    $go ==> $acc,
    quiet() && $acc ==> forall|i: int| 0 <= i < $it.pos() ==> (#[trigger] self.shards@[i]).cur().total(Kind::NHot) + self.shards@[i].cur().total(Kind::NCold) == 0,
    !$go && $acc ==> $it.pos() == $it.seq().len(),
    quiet() && !$acc ==> !(forall|i: int| 0 <= i < self.shards@.len() ==> (#[trigger] self.shards@[i]).cur().total(Kind::NHot) + self.shards@[i].cur().total(Kind::NCold) == 0),
@@fn Cache::len
@ret r
@requires
    self.reads(),
    quiet() && forall|n: int| 0 <= n <= self.shards@.len() ==> #[trigger] self.count(n) <= usize::MAX,
@ensures
    r == self.count(self.shards@.len() as int), // [C14] the sum over all shards
@loop 0 invariant
    !ALL self
    $acc == self.count($it.pos()),
    $it.pos() < $it.seq().len() ==> self.count($it.pos() + 1) <= u64::MAX,
@@fn Cache::weight
@ret r
@requires
    self.reads(),
    quiet() && forall|n: int| 0 <= n <= self.shards@.len() ==> #[trigger] self.heavy(n) <= u64::MAX,
@ensures
    r == self.heavy(self.shards@.len() as int), // [C14] the sum over all shards
@loop 0 invariant
    !ALL self
    $acc == self.heavy($it.pos()),
    $it.pos() < $it.seq().len() ==> self.heavy($it.pos() + 1) <= u64::MAX,
@@fn Cache::capacity
@ret r
@requires
    self.reads(),
    forall|n: int| 0 <= n <= self.shards@.len() ==> #[trigger] self.limits(n) <= u64::MAX,
@ensures
    r == self.limits(self.shards@.len() as int), // [C14] the sum over all shards
@loop 0 invariant
    !ALL self
    $acc == self.limits($it.pos()),
    $it.pos() < $it.seq().len() ==> self.limits($it.pos() + 1) <= u64::MAX,
@@fn Cache::hits
@feature stats
@ret r
@requires
    self.reads(),
    quiet() && forall|n: int| 0 <= n <= self.shards@.len() ==> #[trigger] self.all_hits(n) <= u64::MAX,
@ensures
    r == self.all_hits(self.shards@.len() as int), // [C19] the sum over all shards
@loop 0 invariant
    !ALL self
    $acc == self.all_hits($it.pos()),
    $it.pos() < $it.seq().len() ==> self.all_hits($it.pos() + 1) <= u64::MAX,
@@fn Cache::misses
@feature stats
@ret r
@requires
    self.reads(),
    quiet() && forall|n: int| 0 <= n <= self.shards@.len() ==> #[trigger] self.all_misses(n) <= u64::MAX,
@ensures
    r == self.all_misses(self.shards@.len() as int), // [C19] the sum over all shards
@loop 0 invariant
    !ALL self
    $acc == self.all_misses($it.pos()),
    $it.pos() < $it.seq().len() ==> self.all_misses($it.pos() + 1) <= u64::MAX,
@@fn Cache::shard_capacity
@ret r
@requires
    self.wf(),
    self.reads(),
@ensures
    r == self.shards@[0].keeps().3, // [C14] the capacity of a shard
@@fn Cache::num_shards
@ret r
@ensures
    r == self.shards@.len(), // [C14] the number of shards
@@fn Cache::reserve
@requires
    self.wf(),
    self.writes(),
@ensures
    forall|i: int| 0 <= i < self.shards@.len() ==> reserved(#[trigger] self.shards@[i]), // [C14] every shard reserves, and changes nothing else
@loop 0 invariant
    !ALL self
    forall|i: int| 0 <= i < $it.pos() ==> reserved(#[trigger] self.shards@[i]), // [C14] so far every shard has reserved
@@fn Cache::clear
@requires
    self.writes(),
@ensures
    forall|i: int| 0 <= i < self.shards@.len() ==> cleared(#[trigger] self.shards@[i]), // [C14] every shard is cleared
@loop 0 invariant
    !ALL self
    forall|i: int| 0 <= i < $it.pos() ==> cleared(#[trigger] self.shards@[i]), // [C14] so far every shard is cleared
@@fn Cache::retain
@requires
    self.writes(),
    is_predicate(f),
@ensures
    forall|i: int| 0 <= i < self.shards@.len() ==> retained(f, #[trigger] self.shards@[i]), // [C14] every shard is sifted
@loop 0 invariant
    !ALL self
    is_predicate(f),
    forall|i: int| 0 <= i < $it.pos() ==> retained(f, #[trigger] self.shards@[i]), // [C14] so far every shard is sifted
@@fn Cache::contains_key
@ret r
@requires
    self.wf(),
    may_read(self.lock(key.kid())),
@ensures
    exists|s: Shard<Key, Val, We, B, L>| #[trigger] seen(self.lock(key.kid()), s) && r == (s.view().at(key.kid()) is Val), // [C01] contains iff resident
@@fn Cache::get
@ret r
@requires
    self.wf(),
    may_read(self.lock(key.kid())),
    counting(),
    forall|s: Shard<Key, Val, We, B, L>| #[trigger] seen(self.lock(key.kid()), s) ==> if s.view().at(key.kid()) is Val { s.hit_due() } else { s.miss_due() }, // [C19] the lookup may be counted
@ensures
    exists|s: Shard<Key, Val, We, B, L>| #[trigger] seen(self.lock(key.kid()), s) && if r is Some { s.hit_done() } else { s.miss_done() }, // [C19] a hit or a miss is counted, on the shard of the key
    exists|s: Shard<Key, Val, We, B, L>| #[trigger] seen(self.lock(key.kid()), s) && (r is Some <==> s.view().at(key.kid()) is Val) && (r is Some ==> r->0 == s.view().at(key.kid())->Val_1), // [C01] the value stored under the key, or nothing
@@macro LOAD
    self.wf(),
    may_read(self.lock(key.kid())),
    may_write(self.lock(key.kid())),
    states::<Val>(),
    counting(),
    forall|s: Shard<Key, Val, We, B, L>| #[trigger] seen(self.lock(key.kid()), s) ==> if s.view().at(key.kid()) is Val { s.hit_due() } else { s.miss_due() }, // [C19] the lookup may be counted
@@fn Cache::get_value_or_guard
@ret r
@requires
    !LOAD x
    limited(timeout),
@ensures
    match r { GuardResult::Value(v) => found_value(self.lock(key.kid()), key.kid(), v), _ => true }, // [C16] the value is the one stored under the key, or the one loaded meanwhile
    match r { GuardResult::Guard(g) => *g.lifecycle == self.lifecycle && *g.shard == self.lock(key.kid()) && granted(g, key.kid()), _ => true }, // [C16] told to load only with the turn, and for this key
    match r { GuardResult::Timeout => timeout is Some && gave_up(self.lock(key.kid()), key.kid()), _ => true }, // [C20] times out only with a limit, having left the waiters
    match r { GuardResult::Timeout => exists|e: Duration, n: nat| #[trigger] thread::waited_for(e, n) && timeout is Some && e >= timeout->0, _ => true }, // [C20] gives up only when the limit has passed
    exists|s: Shard<Key, Val, We, B, L>| #[trigger] seen(self.lock(key.kid()), s) && if s.view().at(key.kid()) is Val { s.hit_done() && r is Value } else { s.miss_done() && tallied(self.lock(key.kid()), key.kid()) }, // [C19] a hit is counted; a miss is, and the key is looked up and counted again
@@fn Cache::get_or_insert_with
@ret r
@requires
    !LOAD x
    thread::may_wait(),
    with.requires(()),
    forall|l: RwLock<TaskWaiter>| #[trigger] may_write(l),
@ensures
    match r {
        Ok(v) => found_value(self.lock(key.kid()), key.kid(), v) || exists|g: PlaceholderGuard<Key, Val, We, B, L>| #[trigger] granted(g, key.kid()) && *g.shard == self.lock(key.kid()) && *g.lifecycle == self.lifecycle && with.ensures((), Ok(v)) && settled(g, v),
        Err(e) => with.ensures((), Err(e)),
    }, // [C16] the value found, or loaded in its turn and stored; the failure of its own load
@@fn Cache::get_value_or_guard_async
@ret r
@requires
    !LOAD x
    tasks(),
@ensures
    match r { Ok(v) => found_value(self.lock(key.kid()), key.kid(), v), _ => true }, // [C16] the value is the one stored under the key, or the one loaded meanwhile
    match r { Err(g) => *g.lifecycle == self.lifecycle && *g.shard == self.lock(key.kid()) && granted(g, key.kid()), _ => true }, // [C16] told to load only with the turn, and for this key
    exists|s: Shard<Key, Val, We, B, L>| #[trigger] seen(self.lock(key.kid()), s) && if s.view().at(key.kid()) is Val { s.hit_done() && r is Ok } else { s.miss_done() && tallied(self.lock(key.kid()), key.kid()) }, // [C19] a hit is counted; a miss is, and the key is looked up and counted again
@@fn Cache::get_or_insert_async
@sig_subst impl Future < Output = Result < Val , E > > => impl FnOnce () -> Result < Val , E >
@ret r
@requires
    !LOAD x
    tasks(),
    with.requires(()),
@ensures
    match r {
        Ok(v) => found_value(self.lock(key.kid()), key.kid(), v) || exists|g: PlaceholderGuard<Key, Val, We, B, L>| #[trigger] granted(g, key.kid()) && *g.shard == self.lock(key.kid()) && *g.lifecycle == self.lifecycle && with.ensures((), Ok(v)) && settled(g, v),
        Err(e) => with.ensures((), Err(e)),
    }, // [C16] the value found, or loaded in its turn and stored; the failure of its own load
@@fn Cache::peek
@ret r
@requires
    self.wf(),
    may_read(self.lock(key.kid())),
@ensures
    exists|s: Shard<Key, Val, We, B, L>| #[trigger] seen(self.lock(key.kid()), s) && (r is Some <==> s.view().at(key.kid()) is Val) && (r is Some ==> r->0 == s.view().at(key.kid())->Val_1), // [C01] the value stored under the key, or nothing
@@fn Cache::remove
@ret r
@requires
    self.wf(),
    may_write(self.lock(key.kid())),
@ensures
    exists|a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>| #[trigger] wrote(self.lock(key.kid()), a, b) && b.tallies(a, 0, 0), // [C19] nothing is counted
    exists|a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>| #[trigger] wrote(self.lock(key.kid()), a, b) && b.inv() && b.same_cfg(a) && b.view() == a.view().put(key.kid(), Cell::None)
        && match r { Some((k, v)) => a.view().at(key.kid()) == Cell::<Key, Val, SharedPlaceholder<Val>>::Val(k, v), None => !(a.view().at(key.kid()) is Val) }, // [C09] exactly that key is removed, and its pair returned
@@macro KEYLOCK
    self.wf(),
    may_write(self.lock(key.kid())),
@@macro INSB
    exists|a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>| #[trigger] wrote(self.lock(key.kid()), a, b) && b.inv() && b.same_cfg(a), // [C07] the shard is left sound
    exists|a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>| #[trigger] wrote(self.lock(key.kid()), a, b) && b.tallies(a, 0, 0), // [C19] nothing is counted
    exists|a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>| #[trigger] wrote(self.lock(key.kid()), a, b) && b.ins_asked(a, key, value, %%), // [C13] before_evict is consulted exactly for pairs heavier than the admission limit
    exists|a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>| #[trigger] wrote(self.lock(key.kid()), a, b) && b.ins_admit(a, key, value, %%), // [C06] a pair within the limit is accepted; a heavier one is not stored, and only the previous value of its key goes
    exists|a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>| #[trigger] wrote(self.lock(key.kid()), a, b) && b.ins_new(a, key, value, %%), // [C06] a brand-new key is present right after its insertion
    exists|a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>| #[trigger] wrote(self.lock(key.kid()), a, b) && b.ins_room(a, key, value, %%), // [C03] within capacity unless the rest is pinned; a refused pair takes no room
    exists|a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>| #[trigger] wrote(self.lock(key.kid()), a, b) && b.ins_account(a, key, value, %%), // [C05] the pair is stored or handed out once; the one it replaces and every pair that left was handed out once
    exists|a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>| #[trigger] wrote(self.lock(key.kid()), a, b) && b.ins_keep(a, key, value, %%), // [C04] pinned and weightless pairs stay
@@fn Cache::insert_with_lifecycle
@ret r
@requires
    !KEYLOCK x
@ensures
    !INSB false, Ok(()), Seq::empty(), L::log(r)
    exists|a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>| #[trigger] wrote(self.lock(key.kid()), a, b) && b.ins_place(a, key, value, false, Ok(()), Seq::empty(), L::log(r)), // [C18] a new pair enters the section it belongs to
    exists|a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>| #[trigger] wrote(self.lock(key.kid()), a, b) && b.ins_use(a, key, value, false, Seq::empty(), L::log(r)), // [C18] replacing a value is a use
@@macro INSE
    exists|a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>| #[trigger] wrote(self.lock(key.kid()), a, b) && b.inv() && b.same_cfg(a), // [C07] the shard is left sound
    exists|a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>, rs: L::RequestState| #[trigger] wrote(self.lock(key.kid()), a, b) && #[trigger] self.lifecycle.ended(rs) && b.ins_asked(a, key, value, %%, L::log(rs)), // [C13] the request is ended with the state its hooks received
    exists|a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>, l: Seq<Ev<Key, Val>>| #![trigger wrote(self.lock(key.kid()), a, b), b.ins_admit(a, key, value, %%, l)] wrote(self.lock(key.kid()), a, b) && b.ins_admit(a, key, value, %%, l), // [C06] a pair within the limit is accepted; a heavier one is not stored, and only the previous value of its key goes
    exists|a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>, l: Seq<Ev<Key, Val>>| #![trigger wrote(self.lock(key.kid()), a, b), b.ins_new(a, key, value, %%, l)] wrote(self.lock(key.kid()), a, b) && b.ins_new(a, key, value, %%, l), // [C06] a brand-new key is present right after its insertion
    exists|a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>, l: Seq<Ev<Key, Val>>| #![trigger wrote(self.lock(key.kid()), a, b), b.ins_room(a, key, value, %%, l)] wrote(self.lock(key.kid()), a, b) && b.ins_room(a, key, value, %%, l), // [C03] within capacity unless the rest is pinned; a refused pair takes no room
    exists|a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>, l: Seq<Ev<Key, Val>>| #![trigger wrote(self.lock(key.kid()), a, b), b.ins_account(a, key, value, %%, l)] wrote(self.lock(key.kid()), a, b) && b.ins_account(a, key, value, %%, l), // [C05] the pair is stored or handed out once; the one it replaces and every pair that left was handed out once
    exists|a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>, l: Seq<Ev<Key, Val>>| #![trigger wrote(self.lock(key.kid()), a, b), b.ins_keep(a, key, value, %%, l)] wrote(self.lock(key.kid()), a, b) && b.ins_keep(a, key, value, %%, l), // [C04] pinned and weightless pairs stay
@@fn Cache::insert
@requires
    !KEYLOCK x
@ensures
    !INSE false, Ok(()), Seq::empty()
    exists|a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>, l: Seq<Ev<Key, Val>>| #![trigger wrote(self.lock(key.kid()), a, b), b.ins_place(a, key, value, false, Ok(()), Seq::empty(), l)] wrote(self.lock(key.kid()), a, b) && b.ins_place(a, key, value, false, Ok(()), Seq::empty(), l), // [C18] a new pair enters the section it belongs to
    exists|a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>, l: Seq<Ev<Key, Val>>| #![trigger wrote(self.lock(key.kid()), a, b), b.ins_use(a, key, value, false, Seq::empty(), l)] wrote(self.lock(key.kid()), a, b) && b.ins_use(a, key, value, false, Seq::empty(), l), // [C18] replacing a value is a use
@@fn Cache::replace_with_lifecycle
@ret r
@requires
    !KEYLOCK x
@ensures
    exists|a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>| #[trigger] wrote(self.lock(key.kid()), a, b) && b.tallies(a, 0, 0), // [C19] nothing is counted
    exists|a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>, l: Seq<Ev<Key, Val>>| #![trigger wrote(self.lock(key.kid()), a, b), b.ins_asked(a, key, value, true, done(r), Seq::empty(), l)]
        wrote(self.lock(key.kid()), a, b) && b.inv() && b.same_cfg(a) && (r is Ok ==> l == L::log(r->Ok_0)) && b.ins_asked(a, key, value, true, done(r), Seq::empty(), l) && b.ins_admit(a, key, value, true, done(r), Seq::empty(), l), // [C06]
    exists|a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>, l: Seq<Ev<Key, Val>>| #![trigger wrote(self.lock(key.kid()), a, b), b.ins_account(a, key, value, true, done(r), Seq::empty(), l)]
        wrote(self.lock(key.kid()), a, b) && (r is Ok ==> l == L::log(r->Ok_0)) && b.ins_account(a, key, value, true, done(r), Seq::empty(), l), // [C05]
    exists|a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>, l: Seq<Ev<Key, Val>>| #![trigger wrote(self.lock(key.kid()), a, b), b.ins_fail(a, key, value, true, done(r), Seq::empty(), l)]
        wrote(self.lock(key.kid()), a, b) && (r is Ok ==> l == L::log(r->Ok_0)) && b.ins_fail(a, key, value, true, done(r), Seq::empty(), l), // [C08]
    r is Ok ==> exists|a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>| #[trigger] wrote(self.lock(key.kid()), a, b) && b.ins_asked(a, key, value, true, Ok(()), Seq::empty(), L::log(r->Ok_0)), // [C13]
    r is Ok ==> exists|a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>| #[trigger] wrote(self.lock(key.kid()), a, b) && b.ins_room(a, key, value, true, Ok(()), Seq::empty(), L::log(r->Ok_0)), // [C03]
    r is Ok ==> exists|a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>| #[trigger] wrote(self.lock(key.kid()), a, b) && b.ins_keep(a, key, value, true, Ok(()), Seq::empty(), L::log(r->Ok_0)), // [C04]
    r is Ok ==> exists|a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>| #[trigger] wrote(self.lock(key.kid()), a, b) && b.ins_use(a, key, value, soft, Seq::empty(), L::log(r->Ok_0)), // [C18] a replacement is a use unless soft
@@fn Cache::replace
@ret r
@requires
    !KEYLOCK x
@ensures
    exists|a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>| #[trigger] wrote(self.lock(key.kid()), a, b) && b.tallies(a, 0, 0), // [C19] nothing is counted
    r is Ok ==> exists|a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>, rs: L::RequestState| #[trigger] wrote(self.lock(key.kid()), a, b) && #[trigger] self.lifecycle.ended(rs) && b.ins_asked(a, key, value, true, Ok(()), Seq::empty(), L::log(rs)), // [C13] the request is ended with the state its hooks received
    r is Ok ==> exists|a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>, l: Seq<Ev<Key, Val>>| #![trigger wrote(self.lock(key.kid()), a, b), b.ins_account(a, key, value, true, Ok(()), Seq::empty(), l)] wrote(self.lock(key.kid()), a, b) && b.ins_account(a, key, value, true, Ok(()), Seq::empty(), l), // [C05]
    r is Ok ==> exists|a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>, l: Seq<Ev<Key, Val>>| #![trigger wrote(self.lock(key.kid()), a, b), b.ins_use(a, key, value, soft, Seq::empty(), l)] wrote(self.lock(key.kid()), a, b) && b.ins_use(a, key, value, soft, Seq::empty(), l), // [C18] a replacement is a use unless soft
    exists|a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>, l: Seq<Ev<Key, Val>>| #![trigger wrote(self.lock(key.kid()), a, b), b.ins_fail(a, key, value, true, r, Seq::empty(), l)] wrote(self.lock(key.kid()), a, b) && b.ins_fail(a, key, value, true, r, Seq::empty(), l), // [C08]
@@fn Cache::with_options
@attr #[verifier::loop_isolation(false)]
@ret r
@collect_type 1 Vec<RwLock<Shard<Key, Val, We, B, L>>>
@requires
    options.shards <= 0x8000_0000_0000_0000,
@ensures
    r.wf(), // [C14] every shard has the collaborators of the cache, and the mask selects all of them
    r.lifecycle == lifecycle && r.hash_builder == hash_builder, // [C15] the given collaborators are used
    pow2(r.shards@.len() as u64) && r.shards@.len() <= up2(options.shards), // [C14] the shard count is a power of two, at most the configured one rounded up
    options.weight_capacity + (r.shards@.len() - 1) <= u64::MAX ==> options.weight_capacity <= share(options.weight_capacity, r.shards@.len() as u64) * r.shards@.len() < options.weight_capacity + r.shards@.len(), // [C14] the shards together have the requested capacity
    forall|i: int| 0 <= i < r.shards@.len() ==> (#[trigger] r.shards@[i]).keeps().1 == weighter && r.shards@[i].keeps().2 == lifecycle, // [C15] the given collaborators are used
    forall|i: int| 0 <= i < r.shards@.len() ==> (#[trigger] r.shards@[i]).keeps().3 == share(options.weight_capacity, r.shards@.len() as u64), // [C14] every shard has its share of the capacity
    forall|i: int| 0 <= i < r.shards@.len() ==> (#[trigger] r.shards@[i]).keeps().4 == hot_limit(share(options.weight_capacity, r.shards@.len() as u64), options.hot_allocation), // [C15] the hot share set is used
    forall|i: int| 0 <= i < r.shards@.len() ==> (#[trigger] r.shards@[i]).keeps().5 == scaled(share(options.estimated_items_capacity as u64, r.shards@.len() as u64), options.ghost_allocation), // [C15] the ghost share and item estimate set are used
@entry
    proof { lemma_pow2(); }
@exit
    if options.weight_capacity + (__ret.shards@.len() - 1) <= u64::MAX { lemma_share(options.weight_capacity, __ret.shards@.len() as u64); };
@loop 0 invariant
    pow2($num_shards), // [C14] the shard count stays a power of two
    $num_shards <= up2(options.shards),
    $shard_items_cap == share(options.estimated_items_capacity as u64, $num_shards),
    $shard_weight_cap == share(options.weight_capacity, $num_shards),
@loop 0 decreases
    $num_shards
@loop 1 invariant
    $acc@.len() == $i,
    forall|i: int| 0 <= i < $acc@.len() ==> fresh_lock(#[trigger] $acc@[i], options, $hi, weighter, hash_builder, lifecycle),
@@fn Cache::with
@ret r
@ensures
    r.wf(), // [C14] every shard has the collaborators of the cache, and the mask selects all of them
    r.lifecycle == lifecycle && r.hash_builder == hash_builder, // [C15] the given collaborators are used
    pow2(r.shards@.len() as u64), // [C14] the shard count is a power of two
    forall|i: int| 0 <= i < r.shards@.len() ==> (#[trigger] r.shards@[i]).keeps().1 == weighter && r.shards@[i].keeps().2 == lifecycle, // [C15] the given collaborators are used
    forall|i: int| 0 <= i < r.shards@.len() ==> (#[trigger] r.shards@[i]).keeps().3 == share(weight_capacity, r.shards@.len() as u64), // [C14] every shard has its share of the capacity
    forall|i: int| 0 <= i < r.shards@.len() ==> (#[trigger] r.shards@[i]).keeps().4 == hot_limit(share(weight_capacity, r.shards@.len() as u64), DEFAULT_HOT_ALLOCATION), // [C15] the default hot share is used
    forall|i: int| 0 <= i < r.shards@.len() ==> (#[trigger] r.shards@[i]).keeps().5 == scaled(share(estimated_items_capacity as u64, r.shards@.len() as u64), DEFAULT_GHOST_ALLOCATION), // [C15] the default ghost share and the given item estimate are used
@@fn Cache::with_weighter
@impl_generics <Key: Eq + Hash, Val: Clone, We: Weighter<Key, Val> + Clone, B: BuildHasher + Clone + Default, L: Lifecycle<Key, Val> + Clone + Default>
@impl_subst Cache < Key , Val , We > => Cache<Key, Val, We, B, L>
@ret r
@ensures
    r.wf(), // [C14] every shard has the collaborators of the cache, and the mask selects all of them
    pow2(r.shards@.len() as u64), // [C14] the shard count is a power of two
    forall|i: int| 0 <= i < r.shards@.len() ==> (#[trigger] r.shards@[i]).keeps().3 == share(weight_capacity, r.shards@.len() as u64), // [C14] every shard has its share of the capacity
    forall|i: int| 0 <= i < r.shards@.len() ==> (#[trigger] r.shards@[i]).keeps().4 == hot_limit(share(weight_capacity, r.shards@.len() as u64), DEFAULT_HOT_ALLOCATION), // [C15] the default hot share is used
    forall|i: int| 0 <= i < r.shards@.len() ==> (#[trigger] r.shards@[i]).keeps().5 == scaled(share(estimated_items_capacity as u64, r.shards@.len() as u64), DEFAULT_GHOST_ALLOCATION), // [C15] the default ghost share and the given item estimate are used
    forall|i: int| 0 <= i < r.shards@.len() ==> (#[trigger] r.shards@[i]).keeps().1 == weighter, // [C15] the given weighter is used
@@fn Cache::new
@impl_generics <Key: Eq + Hash, Val: Clone, We: Weighter<Key, Val> + Clone + Default, B: BuildHasher + Clone + Default, L: Lifecycle<Key, Val> + Clone + Default>
@impl_subst Cache < Key , Val > => Cache<Key, Val, We, B, L>
@ret r
@ensures
    r.wf(), // [C14] every shard has the collaborators of the cache, and the mask selects all of them
    pow2(r.shards@.len() as u64), // [C14] the shard count is a power of two
    forall|i: int| 0 <= i < r.shards@.len() ==> (#[trigger] r.shards@[i]).keeps().3 == share((items_capacity as u64), r.shards@.len() as u64), // [C14] every shard has its share of the capacity
    forall|i: int| 0 <= i < r.shards@.len() ==> (#[trigger] r.shards@[i]).keeps().4 == hot_limit(share((items_capacity as u64), r.shards@.len() as u64), DEFAULT_HOT_ALLOCATION), // [C15] the default hot share is used
    forall|i: int| 0 <= i < r.shards@.len() ==> (#[trigger] r.shards@[i]).keeps().5 == scaled(share(items_capacity as u64, r.shards@.len() as u64), DEFAULT_GHOST_ALLOCATION), // [C15] the default ghost share and the given item estimate are used
