@@module shard
@@file shard.rs
@@text
use vstd::prelude::*;
use crate::prelude::*;
use crate::shardprel::*;
use crate::api::*;
pub use crate::theory::*;
use crate::shardinv::*;
use crate::linked_slab::{LinkedSlab, same_ring, links_ok, place, size, group_slab};
broadcast use {group_shard, group_slab, group_fmap, group_lend};
@@macro BASE
    %%.entries.wf(), // [C07] slab well-formed
    uniq(%%.cs()), // [C01] one entry per key
    %%.filed_ok(%%.cs()), // [C01] every entry is filed under its hash
    %%.lists_ok(%%.cs()), // [C07] every entry is in the list of its state
    %%.sums_ok(%%.cs()), // [C02] weights and counts are exact
    %%.weight_target_hot <= %%.weight_capacity, // [C06] the admission limit is within the capacity
@@macro INV
    %%.entries.wf(), // [C07] slab well-formed
    uniq(%%.cs()), // [C01] one entry per key
    %%.filed_ok(%%.cs()), // [C01] every entry is filed under its hash
    %%.lists_ok(%%.cs()), // [C07] every entry is in the list of its state
    %%.sums_ok(%%.cs()), // [C02] weights and counts are exact
    %%.weight_target_hot <= %%.weight_capacity, // [C06] the admission limit is within the capacity
    %%.num_non_resident <= %%.capacity_non_resident, // [C11] no more ghosts than configured
@@fn CacheShard::weight
@ret r
@requires
    self.inv(),
@ensures
    r == self.total(Kind::WHot) + self.total(Kind::WCold), // [C02] weight() is the sum of the weights of all resident pairs
@@fn CacheShard::len
@ret r
@requires
    self.inv(),
@ensures
    r == self.total(Kind::NHot) + self.total(Kind::NCold), // [C02] len() is the number of resident pairs
@@fn CacheShard::capacity
@ret r
@ensures
    r == self.weight_capacity, // [C03] capacity() is the configured capacity
@@fn CacheShard::hash_static
@ret r
@ensures
    r == hasher.hspec(key.kid()),
@@fn CacheShard::hash
@ret r
@ensures
    r == self.hash_builder.hspec(key.kid()), // [C01] the hash is that of the key
@@fn CacheShard::search
@ret r
@entry
    reveal(remembers);
@requires
    self.inv(),
    hash == self.hash_builder.hspec(k.kid()),
@ensures
    r is Some ==> (live_at(self.cs(), r->0, k.kid()) || (self.cs().at(r->0) == Core::<Key, Val, Plh>::Gone(hash) && remembers(self.cs(), hash) && self.view().at(k.kid()) is None)), // [C01] an entry of that key, or else a ghost with its hash
    r is None ==> self.view().at(k.kid()) is None, // [C01] present keys are found
    r is None ==> !remembers(self.cs(), hash), // [C11] a matching ghost is found
@loop 0 invariant
    forall|j: int| 0 <= j < $it.pos() ==> !live_at(self.cs(), *#[trigger] $it.seq()[j], k.kid()),
    $hash_match is None ==> forall|j: int| 0 <= j < $it.pos() ==> self.cs().at(*#[trigger] $it.seq()[j]) != Core::<Key, Val, Plh>::Gone(hash),
    $hash_match is Some ==> self.cs().at($hash_match->0) == Core::<Key, Val, Plh>::Gone(hash),
@@fn CacheShard::search_resident
@ret r
@requires
    self.inv(),
    hash == self.hash_builder.hspec(k.kid()),
@ensures
    match r {
        Some((t, res)) => self.cs().at(t) == core(Entry::<Key, Val, Plh>::Resident(*res)) && self.entries.items().dom().contains(t) && self.entries.items()[t] == Entry::<Key, Val, Plh>::Resident(*res) && res.key.kid() == k.kid() && live_at(self.cs(), t, k.kid()),
        None => !(self.view().at(k.kid()) is Val),
    }, // [C01] the resident entry of that key, if there is one
@loop 0 invariant
    !$go && $acc is None ==> $it.pos() == $it.seq().len(),
    $acc is None ==> forall|j: int| 0 <= j < $it.pos() ==> !(live_at(self.cs(), *#[trigger] $it.seq()[j], k.kid()) && self.cs().at(*$it.seq()[j]) is Res),
    $acc is Some ==> holds(self.entries.items(), *$acc->0, $resident.v, k.kid()),
@@fn CacheShard::contains
@ret r
@requires
    self.inv(),
    hash == self.hash_builder.hspec(key.kid()),
@ensures
    r == (self.view().at(key.kid()) is Val), // [C01] contains iff resident
@loop 0 invariant
    !$go && $acc is None ==> $it.pos() == $it.seq().len(),
    $acc is None ==> forall|j: int| 0 <= j < $it.pos() ==> !(live_at(self.cs(), *#[trigger] $it.seq()[j], key.kid()) && self.cs().at(*$it.seq()[j]) is Res),
    $acc is Some ==> live_at(self.cs(), *$acc->0, key.kid()) && self.cs().at(*$acc->0) is Res,
@@fn CacheShard::get
@ret r
@requires
    self.view().at(key.kid()) is Val ==> counting(),
    if self.view().at(key.kid()) is Val { self.hit_due() } else { self.miss_due() }, // [C19] the lookup may be counted
    self.inv(),
    hash == self.hash_builder.hspec(key.kid()),
@ensures
    if self.view().at(key.kid()) is Val { self.hit_done() } else { self.miss_done() }, // [C19] a hit or a miss is counted
    r is Some ==> exists|t: Token| #[trigger] live_at(self.cs(), t, key.kid()) && self.entries.items()[t] is Resident && used(self.entries.items()[t]->Resident_0.referenced), // [C18] the use is counted
    r is Some <==> (self.view().at(key.kid()) is Val), // [C01] get finds exactly the resident keys
    r is Some ==> *r->0 == self.view().at(key.kid())->Val_1, // [C01] get returns the stored value
@@fn CacheShard::peek
@ret r
@requires
    self.inv(),
    hash == self.hash_builder.hspec(key.kid()),
@ensures
    r is Some <==> (self.view().at(key.kid()) is Val), // [C01] peek finds exactly the resident keys
    r is Some ==> *r->0 == self.view().at(key.kid())->Val_1, // [C01] peek returns the stored value
@@fn CacheShard::peek_token
@ret r
@requires
    self.inv(),
@ensures
    r is Some <==> self.cs().at(token) is Res, // [C01]
    r is Some ==> *r->0 == self.cs().at(token)->val, // [C01]
@@fn CacheShard::map_insert
@requires
    forall|t: Token| (#[trigger] old(self).map@.at(t)) is Some ==> !(old(self).cs().at(t) is Void) && old(self).map@.at(t)->0 == ehash(old(self).hash_builder, old(self).cs().at(t)),
    old(self).map@.at(idx) is None,
@ensures
    final(self).map@ == old(self).map@.put(idx, Some(hash)), // [C01] filed under its hash
    final(self).entries == old(self).entries,
    final(self).rest() == old(self).rest(),
    final(self).tallies(*old(self), 0, 0), // [C19] nothing is counted
@@fn CacheShard::map_remove
@requires
    old(self).map@.at(idx) == Some(hash), // [C07] the entry being removed is filed under this hash
@ensures
    final(self).map@ == old(self).map@.put(idx, None), // [C01] no longer filed
    final(self).entries == old(self).entries,
    final(self).rest() == old(self).rest(),
    final(self).tallies(*old(self), 0, 0), // [C19] nothing is counted
@loop 0 invariant
    $acc is Some ==> $acc->0 == idx,
    !$go && $acc is None ==> $it.pos() == $it.seq().len(),
    $acc is None ==> forall|j: int| 0 <= j < $it.pos() ==> *#[trigger] $it.seq()[j] != idx,

@@fn CacheShard::remove_internal
@ret r
@requires
    old(self).inv(),
    !(old(self).cs().at(idx) is Void), // [C07] the entry to remove exists
    hash == ehash(old(self).hash_builder, old(self).cs().at(idx)), // [C07] the entry is removed under the hash it is filed under
@ensures
    !INV final(self)
    final(self).same_cfg(*old(self)),
    final(self).tallies(*old(self), 0, 0), // [C19] nothing is counted
    final(self).cs() == old(self).cs().put(idx, Core::Void), // [C09] exactly that entry is removed
    final(self).entries.room(), // [C10] its slot is available again
    match old(self).cs().at(idx) { Core::Res { key, val, .. } => r == Some((key, val)), _ => r is None }, // [C09] the removed pair is returned
@@fn CacheShard::remove
@ret r
@requires
    old(self).inv(),
    hash == old(self).hash_builder.hspec(key.kid()),
@ensures
    !INV final(self)
    final(self).same_cfg(*old(self)),
    final(self).tallies(*old(self), 0, 0), // [C19] nothing is counted
    final(self).view() == old(self).view().put(key.kid(), Cell::None), // [C09] exactly that key is removed
    match r { Some((k, v)) => old(self).view().at(key.kid()) == Cell::<Key, Val, Plh>::Val(k, v),
        None => !(old(self).view().at(key.kid()) is Val) }, // [C09] the removed pair is returned
@@fn CacheShard::advance_ghost
@requires
    old(self).base_on(old(self).cs()),
    old(self).num_non_resident != 0,
@ensures
    !BASE final(self)
    final(self).same_cfg(*old(self)),
    final(self).tallies(*old(self), 0, 0), // [C19] nothing is counted
    exists|t: Token| (#[trigger] old(self).cs().at(t)) is Gone && final(self).cs() == old(self).cs().put(t, Core::Void), // [C11] a ghost, and nothing else, goes
    final(self).entries.room(),
@@fn CacheShard::upsert_placeholder
@ret r
@requires
    old(self).inv(),
    old(self).entries.room(),
    hash == old(self).hash_builder.hspec(key.kid()),
@ensures
    !INV final(self)
    final(self).same_cfg(*old(self)),
    match r { Err((_, true)) => final(self).tallies(*old(self), 0, 1), _ => final(self).tallies(*old(self), 1, 0) }, // [C19] a miss if a load is to start, else a hit
    final(self).weight_hot == old(self).weight_hot && final(self).weight_cold == old(self).weight_cold, // [C02] a load weighs nothing
    match r {
        Ok((t, v)) => final(self).cs() == old(self).cs() && live_at(old(self).cs(), t, key.kid()) && old(self).cs().at(t) is Res && *v == old(self).cs().at(t)->val,
        Err((p, false)) => final(self).cs() == old(self).cs() && old(self).view().at(key.kid()) is Load && old(self).view().at(key.kid())->Load_0.ph_id() == p.ph_id(),
        Err((p, true)) => old(self).view().at(key.kid()) is None && final(self).view().at(key.kid()) is Load && final(self).view().at(key.kid())->Load_0.ph_id() == p.ph_id()
            && final(self).view() == old(self).view().put(key.kid(), final(self).view().at(key.kid())),
    }, // [C10] a value, the load in progress, or a new placeholder if there was neither
    match r { Err((p, true)) => p.ph_new(), _ => true }, // [C10] told to load only for a new placeholder
    match r { Err((p, _)) => final(self).loads(p) && live_at(final(self).cs(), p.ph_idx(), key.kid()), _ => true }, // [C10] the placeholder handed out is the one stored
    match r { Ok((t, _)) => final(self).bumped(*old(self), t), _ => true }, // [C18] the use is counted
    match r { Err((p, true)) => final(self).cs().at(p.ph_idx()) is Load && final(self).cs().at(p.ph_idx())->Load_hot == remembers(old(self).cs(), hash), _ => true }, // [C18] a key still remembered is to enter the hot section
@@fn CacheShard::advance_hot
@ret r
@requires
    old(self).inv(),
@ensures
    !INV final(self)
    final(self).same_cfg(*old(self)),
    final(self).tallies(*old(self), 0, 0), // [C19] nothing is counted
    final(self).accounted(*old(self), L::log(*old(lcs)), L::log(*final(lcs))), // [C05] what leaves was announced and handed out
    kept(old(self).weighter, old(self).lifecycle, old(self).view(), final(self).view()), // [C04] pinned and weightless pairs stay
    final(self).weight_cold == old(self).weight_cold && final(self).total(Kind::LCold) == old(self).total(Kind::LCold) && final(self).cold_head == old(self).cold_head, // [C03]
    steady(old(self).cs(), final(self).cs()), // [C01] no slot comes to hold a pair of another key
    old(self).entries.room() ==> final(self).entries.room(),
    !r ==> final(self).cs() == old(self).cs() && L::log(*final(lcs)) == L::log(*old(lcs)), // [C13]
    !r ==> forall|t: Token| cls(old(self).weighter, #[trigger] old(self).cs().at(t)) == 2 ==> pinned_at(old(self).lifecycle, old(self).cs(), t), // [C03] gives up only if every hot entry is pinned
    r ==> final(self).weight_hot <= old(self).weight_hot && final(self).total(Kind::LHot) < old(self).total(Kind::LHot), // [C03] an entry is evicted or emptied
    r ==> exists|t: Token| #[trigger] least_used(old(self).lifecycle, old(self).entries.nx(), old(self).cs(), old(self).entries.items(), old(self).hot_head->0, t) && final(self).cs() == old(self).cs().put(t, final(self).cs().at(t)), // [C18] the victim is one of the least used unpinned hot pairs
    forall|z: Token| old(self).cs().at(z) is Res && !old(self).cs().at(z)->Res_hot ==> #[trigger] final(self).cs().at(z) == old(self).cs().at(z), // [C18] the cold pairs are not touched
    forall|z: Token| (#[trigger] final(self).cs().at(z)) is Res ==> old(self).cs().at(z) is Res && final(self).cs().at(z)->Res_hot == old(self).cs().at(z)->Res_hot, // [C18] no pair changes section
@loop 0 invariant
    in_step(self.lifecycle, old(self).entries.nx(), old(self).cs(), old(self).entries.items(), self.entries.items(), old(self).hot_head->0, $idx), // [C18] so far all candidates were counted down equally often
    old(self).inv(),
    old(self).hot_head is Some,
    self.rest() == old(self).rest(),
    self.tallies(*old(self), 0, 0), // [C19] nothing is counted
    self.map == old(self).map,
    self.entries.nx() == old(self).entries.nx(),
    self.entries.pv() == old(self).entries.pv(),
    self.entries.fr() == old(self).entries.fr(),
    self.entries.next_free == old(self).entries.next_free,
    self.entries.slots() == old(self).entries.slots(),
    self.cs() == old(self).cs(),
    L::log(*lcs) == L::log(*old(lcs)),
    old(self).entries.same(old(self).hot_head->0, $idx),
    0 <= steps(self.lifecycle, self.entries.nx(), self.entries.items(), old(self).cs(), old(self).hot_head->0, $idx) <= 3 * size(self.entries.nx(), old(self).hot_head->0) - $unpinned,
    $unpinned > 0 ==> can_evict(self.lifecycle, self.entries.nx(), old(self).cs(), old(self).hot_head->0, victim(self.lifecycle, self.entries.nx(), old(self).cs(), old(self).hot_head->0)),
    $unpinned == 0 ==> forall|t: Token| #[trigger] old(self).entries.same(old(self).hot_head->0, t) && place(old(self).entries.nx(), old(self).hot_head->0, t) < place(old(self).entries.nx(), old(self).hot_head->0, $idx) ==> pinned_at(old(self).lifecycle, old(self).cs(), t),
@loop 0 decreases
    steps(self.lifecycle, self.entries.nx(), self.entries.items(), old(self).cs(), old(self).hot_head->0, $idx)
@@macro SCAN
    old(self).inv(),
    self.rest() == old(self).rest(),
    self.tallies(*old(self), 0, 0), // [C19] nothing is counted
    self.map == old(self).map,
    self.entries.nx() == old(self).entries.nx(),
    self.entries.pv() == old(self).entries.pv(),
    self.entries.fr() == old(self).entries.fr(),
    self.entries.next_free == old(self).entries.next_free,
    self.entries.slots() == old(self).entries.slots(),
    self.cs() == old(self).cs(),
    L::log(*lcs) == L::log(*old(lcs)),
@@fn CacheShard::advance_cold
@ret r
@requires
    old(self).inv(),
@ensures
    !INV final(self)
    final(self).same_cfg(*old(self)),
    final(self).tallies(*old(self), 0, 0), // [C19] nothing is counted
    final(self).accounted(*old(self), L::log(*old(lcs)), L::log(*final(lcs))), // [C05] what leaves was announced and handed out
    kept(old(self).weighter, old(self).lifecycle, old(self).view(), final(self).view()), // [C04] pinned and weightless pairs stay
    steady(old(self).cs(), final(self).cs()), // [C01] no slot comes to hold a pair of another key
    old(self).entries.room() ==> final(self).entries.room(),
    !r ==> final(self).cs() == old(self).cs() && L::log(*final(lcs)) == L::log(*old(lcs)), // [C13]
    !r ==> final(self).all_pinned(), // [C03] gives up only if every resident is pinned or weightless
    final(self).weight_hot + final(self).weight_cold <= old(self).weight_hot + old(self).weight_cold, // [C03] the total weight never grows
    r ==> final(self).total(Kind::LHot) + 2 * final(self).total(Kind::LCold) < old(self).total(Kind::LHot) + 2 * old(self).total(Kind::LCold), // [C07] the clock hand terminates
    r ==> final(self).cold_turn(*old(self)), // [C18] a used cold pair is promoted, else an unused one evicted and nothing hot touched, else all cold pairs are kept
    final(self).no_demotion(*old(self)), // [C18] hot pairs stay hot
@loop 0 invariant
    !SCAN self
    self.entries.items() == old(self).entries.items(),
    old(self).in_cold($idx),
    forall|t: Token| #[trigger] old(self).in_cold(t) && place(old(self).entries.nx(), old(self).cold_head->0, t) < place(old(self).entries.nx(), old(self).cold_head->0, $idx) ==> old(self).uses(t) == 0 && pinned_at(old(self).lifecycle, old(self).cs(), t), // [C18] so far all are unused and pinned
    old(self).cold_head is Some,
    old(self).entries.same(old(self).cold_head->0, $idx),
    forall|t: Token| #[trigger] old(self).entries.same(old(self).cold_head->0, t) && place(old(self).entries.nx(), old(self).cold_head->0, t) < place(old(self).entries.nx(), old(self).cold_head->0, $idx) ==> pinned_at(old(self).lifecycle, old(self).cs(), t),
@loop 0 decreases
    size(old(self).entries.nx(), old(self).cold_head->0) - place(old(self).entries.nx(), old(self).cold_head->0, $idx)
@loop 1 invariant
    old(self).inv(),
    !INV self
    self.same_cfg(*old(self)),
    self.tallies(*old(self), 0, 0), // [C19] nothing is counted
    self.accounted(*old(self), L::log(*old(lcs)), L::log(*lcs)), // [C05] so far what left was announced and handed out
    kept(old(self).weighter, old(self).lifecycle, old(self).view(), self.view()), // [C04] so far pinned and weightless pairs stay
    steady(old(self).cs(), self.cs()),
    old(self).entries.room() ==> self.entries.room(),
    self.weight_hot + self.weight_cold <= old(self).weight_hot + old(self).weight_cold,
    self.total(Kind::LHot) + 2 * self.total(Kind::LCold) < old(self).total(Kind::LHot) + 2 * old(self).total(Kind::LCold),
    self.no_demotion(*old(self)),
    exists|t: Token| #[trigger] old(self).in_cold(t) && self.promoted(*old(self), t), // [C18] a used cold pair was promoted
@loop 1 decreases
    self.total(Kind::LHot)
@@macro EVICTING
    !INV self
    self.same_cfg(*old(self)),
    self.tallies(*old(self), 0, 0), // [C19] nothing is counted
    old(self).entries.room() ==> self.entries.room(),
@@fn CacheShard::insert_existing
@entry
    broadcast use {lemma_hot_only, lemma_slot};
    reveal(CacheShard::renewed);
@ret r
@requires
    old(self).inv(),
    live_at(old(self).cs(), idx, key.kid()) || (old(self).cs().at(idx) == Core::<Key, Val, Plh>::Gone(old(self).hash_builder.hspec(key.kid())) && old(self).view().at(key.kid()) is None), // [C01] the slot belongs to the key
    weight == old(self).weighter.wspec(key, value), // [C02] the weight is that of the pair
    old(self).weight_hot + old(self).weight_cold + weight <= u64::MAX,
@ensures
    !INV final(self)
    final(self).same_cfg(*old(self)),
    final(self).tallies(*old(self), 0, 0), // [C19] nothing is counted
    old(self).entries.room() ==> final(self).entries.room(),
    extends(L::log(*old(lcs)), L::log(*final(lcs))),
    strategy is Replace && !(old(self).cs().at(idx) is Res) ==> r == Err::<(), (Key, Val)>((key, value)) && final(self).cs() == old(self).cs() && L::log(*final(lcs)) == L::log(*old(lcs)), // [C08] replace leaves absent keys alone and returns the pair
    strategy is Replace && !(old(self).cs().at(idx) is Res) ==> final(self).untouched(*old(self)), // [C08] not even the eviction order changes
    strategy is Insert || old(self).cs().at(idx) is Res ==> r is Ok && final(self).in_budget(0), // [C03] evicts until within capacity
    !(strategy is Replace) && !(old(self).cs().at(idx) is Res) ==> final(self).settled(old(self).view().put(key.kid(), Cell::Val(key, value)), L::log(*old(lcs)).len(), L::log(*final(lcs))), // [C05] the pair is stored and every pair that left was handed out
    old(self).cs().at(idx) is Res ==> extends(L::log(*old(lcs)).push(Ev::Evict { key: old(self).cs().at(idx)->Res_key, val: old(self).cs().at(idx)->val }), L::log(*final(lcs)))
        && final(self).settled(old(self).view().put(key.kid(), Cell::Val(key, value)), L::log(*old(lcs)).len() + 1, L::log(*final(lcs))), // [C05] the replaced pair is handed out, the new one stored and every other pair that left was handed out
    r is Ok ==> kept(old(self).weighter, old(self).lifecycle, old(self).view().put(key.kid(), Cell::Val(key, value)), final(self).view()), // [C04] pinned and weightless pairs stay
    old(self).cs().at(idx) is Gone ==> final(self).hot_if_there(key.kid()), // [C18] a key still remembered enters the hot section
    final(self).renewed(*old(self), key.kid(), weight, strategy is Replace && strategy->soft), // [C18] a replacement is a use unless soft
    old(self).cs().at(idx) is Res && old(self).cs().at(idx)->Res_hot ==> final(self).hot_if_there(key.kid()), // [C18] hot pairs stay hot
@loop 0 invariant
    !EVICTING self
    kept(old(self).weighter, old(self).lifecycle, old(self).view().put(key.kid(), Cell::Val(key, value)), self.view()), // [C04] so far pinned and weightless pairs stay
    match old(self).cs().at(idx) {
        Core::Res { key: k0, val: v0, .. } => extends(L::log(*old(lcs)).push(Ev::Evict { key: k0, val: v0 }), L::log(*lcs)) && self.settled(old(self).view().put(key.kid(), Cell::Val(key, value)), L::log(*old(lcs)).len() + 1, L::log(*lcs)),
        _ => extends(L::log(*old(lcs)), L::log(*lcs)) && self.settled(old(self).view().put(key.kid(), Cell::Val(key, value)), L::log(*old(lcs)).len(), L::log(*lcs)),
    }, // [C05] so far the pair is stored, the one it replaces handed out, and every pair that left handed out
    old(self).cs().at(idx) is Gone || (old(self).cs().at(idx) is Res && old(self).cs().at(idx)->Res_hot) ==> self.hot_if_there(key.kid()),
    old(self).cs().at(idx) is Res ==> self.weight_hot + self.weight_cold <= old(self).weight_in_place(idx, weight),
    old(self).cs().at(idx) is Res && old(self).fits_in_place(idx, weight) ==> self.uses(idx) == (if strategy is Replace && strategy->soft { old(self).uses(idx) } else if old(self).uses(idx) < 2 { old(self).uses(idx) + 1 } else { 2 }), // [C18] a replacement is a use unless soft
@loop 0 decreases
    self.total(Kind::LHot) + 2 * self.total(Kind::LCold)
@@fn CacheShard::handle_insert_overweight
@ret r
@requires
    old(self).inv(),
    hash == old(self).hash_builder.hspec(key.kid()),
@ensures
    !INV final(self)
    final(self).same_cfg(*old(self)),
    final(self).tallies(*old(self), 0, 0), // [C19] nothing is counted
    old(self).entries.room() ==> final(self).entries.room(),
    final(self).total(Kind::Free) <= old(self).total(Kind::Free), // [C03] nothing is admitted
    final(self).view() == (if old(self).view().at(key.kid()) is Val { old(self).view().put(key.kid(), Cell::None) } else { old(self).view() }), // [C06] the refused pair is not stored, and only the previous value of its key goes
    strategy is Replace && !(old(self).view().at(key.kid()) is Val) ==> final(self).untouched(*old(self)), // [C08] not even the eviction order changes
    ({ let l0 = L::log(*old(lcs));
       let l1 = match old(self).view().at(key.kid()) { Cell::Val(k, v) => l0.push(Ev::Evict { key: k, val: v }), _ => l0 };
       if strategy is Replace { r == Err::<(), (Key, Val)>((key, value)) && L::log(*final(lcs)) == l1 } else { r is Ok && L::log(*final(lcs)) == l1.push(Ev::Evict { key, val: value }) } }), // [C05] the refused pair and the previous one are handed out once
@@fn CacheShard::insert
@ret r
@requires
    old(self).inv(),
    old(self).entries.room(),
    hash == old(self).hash_builder.hspec(key.kid()),
    forall|v: Val| old(self).weight_hot + old(self).weight_cold + #[trigger] old(self).weighter.wspec(key, v) <= u64::MAX,
@ensures
    !INV final(self)
    final(self).same_cfg(*old(self)),
    final(self).tallies(*old(self), 0, 0), // [C19] nothing is counted
    final(self).ins_asked(*old(self), key, value, strategy is Replace, r, L::log(*old(lcs)), L::log(*final(lcs))), // [C13] before_evict is consulted exactly for pairs heavier than the admission limit
    final(self).ins_admit(*old(self), key, value, strategy is Replace, r, L::log(*old(lcs)), L::log(*final(lcs))), // [C06] a pair within the limit is accepted; a heavier one is not stored, and only the previous value of its key goes
    final(self).ins_new(*old(self), key, value, strategy is Replace, r, L::log(*old(lcs)), L::log(*final(lcs))), // [C06] a brand-new key is present right after its insertion
    final(self).ins_room(*old(self), key, value, strategy is Replace, r, L::log(*old(lcs)), L::log(*final(lcs))), // [C03] within capacity unless the rest is pinned; a refused pair takes no room
    final(self).ins_account(*old(self), key, value, strategy is Replace, r, L::log(*old(lcs)), L::log(*final(lcs))), // [C05] the pair is stored or handed out once; the one it replaces and every pair that left was handed out once
    final(self).ins_fail(*old(self), key, value, strategy is Replace, r, L::log(*old(lcs)), L::log(*final(lcs))), // [C08] replacing an absent key changes nothing, not even the eviction order, and returns the pair
    final(self).ins_keep(*old(self), key, value, strategy is Replace, r, L::log(*old(lcs)), L::log(*final(lcs))), // [C04] pinned and weightless pairs stay
    final(self).ins_place(*old(self), key, value, strategy is Replace, r, L::log(*old(lcs)), L::log(*final(lcs))), // [C18] a new pair enters the cold section unused, unless the hot one has room; a key still remembered enters the hot one
    final(self).ins_use(*old(self), key, value, strategy is Replace && strategy->soft, L::log(*old(lcs)), L::log(*final(lcs))), // [C18] replacing a value is a use, unless soft
@entry
    let ghost v00 = value;
@loop 0 invariant
    !EVICTING self
    kept(old(self).weighter, old(self).lifecycle, old(self).view(), self.view()), // [C04] so far pinned and weightless pairs stay
    extends(old(self).asked(key, v00, L::log(*old(lcs)), $value), L::log(*lcs)), // [C13] so far before_evict was consulted for the new pair exactly if it is above the limit
    self.settled(old(self).view(), old(self).asked(key, v00, L::log(*old(lcs)), $value).len(), L::log(*lcs)), // [C05] so far every pair that left was handed out
    self.weight_hot + self.weight_cold <= old(self).weight_hot + old(self).weight_cold,
@loop 0 decreases
    self.total(Kind::LHot) + 2 * self.total(Kind::LCold)
@@fn CacheShard::hits
@feature stats
@ret r
@ensures
    r == self.hits.val(), // [C19] the hits counted
@@fn CacheShard::misses
@feature stats
@ret r
@ensures
    r == self.misses.val(), // [C19] the misses counted
@@fn CacheShard::new
@ret r
@ensures
    r.zeroed(), // [C19] nothing is counted yet
    !INV r
    r.entries.room(),
    all_void(r.cs()), // [C01] a new cache is empty
    forall|k: int| (#[trigger] r.view().at(k)) is None, // [C01] a new cache is empty
    r.weight_capacity == weight_capacity, // [C03] the capacity is the configured one
    r.weight_target_hot == hot_limit(weight_capacity, hot_allocation), // [C06] the admission limit is the hot share
    weight_capacity >= 1 ==> r.weight_target_hot >= 1, // [C06] a pair of weight 1 fits unless the capacity is 0
    r.capacity_non_resident == scaled(estimated_items_capacity as u64, ghost_allocation), // [C11] the number of ghosts is the configured one
    ghost_allocation == 0.0f64 ==> r.capacity_non_resident == 0, // [C11] with no ghost share nothing is remembered
    r.weighter == weighter && r.hash_builder == hash_builder && r.lifecycle == lifecycle,
@entry
    broadcast use axiom_no_share;
@@fn CacheShard::reserve
@requires
    old(self).inv(),
@ensures
    !INV final(self)
    final(self).map@ == old(self).map@, // [C07]
    final(self).entries == old(self).entries && final(self).rest() == old(self).rest(), // [C07] reserving changes nothing observable
    final(self).tallies(*old(self), 0, 0), // [C19] nothing is counted
@@fn CacheShard::cold_change_weight
@impl_generics <Key: Hash, Val, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>, Plh: SharedPlaceholder>
@requires
    old(self).lent(idx, old_weight),
    new_weight == old(self).weighter.wspec(old(self).cs().at(idx)->Res_key, old(self).cs().at(idx)->val),
    old(self).weight_hot + old(self).weight_cold - old_weight + new_weight <= u64::MAX,
@ensures
    final(self).inv(), // [C12] the pair counts with its present weight and is listed where it belongs
    !INV final(self)
    final(self).same_cfg(*old(self)),
    final(self).tallies(*old(self), 0, 0), // [C19] nothing is counted
    final(self).cs() == old(self).cs(), // [C12] only the accounting changes
@entry
    let ghost ov = self.lender(idx, old_weight);
    assert(self.lent_as(idx, old_weight, ov));
    let ghost c1 = self.cs().put(idx, Core::Res { key: self.cs().at(idx)->Res_key, val: ov, hot: self.cs().at(idx)->Res_hot });
    assert(self.cs() == c1.put(idx, self.cs().at(idx)));
@@fn RefMut::pair
@impl_generics <Key: Hash, Val, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>, Plh: SharedPlaceholder>
@ret r
@requires
    self.now().lent(self.idx, self.old_weight),
@ensures
    *r.0 == self.now().cs().at(self.idx)->Res_key && *r.1 == self.now().cs().at(self.idx)->val, // [C12] the handle refers to its pair
@@fn RefMut::value_mut
@impl_generics <Key: Hash, Val, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>, Plh: SharedPlaceholder>
@ret r
@requires
    old(self).now().lent(old(self).idx, old(self).old_weight),
@ensures
    *r == old(self).now().cs().at(old(self).idx)->val, // [C12] the handle refers to its pair
    final(self).now().cs() == old(self).now().cs().put(old(self).idx, Core::Res { key: old(self).now().cs().at(old(self).idx)->Res_key, val: *final(r), hot: old(self).now().cs().at(old(self).idx)->Res_hot }), // [C12] what is written through the handle is the value
    final(self).now().lent(final(self).idx, final(self).old_weight), // [C12]
    final(self).now().same_cfg(old(self).now()),
    final(self).now().tallies(old(self).now(), 0, 0), // [C19] nothing is counted
    final(self).now().weight_hot == old(self).now().weight_hot && final(self).now().weight_cold == old(self).now().weight_cold,
    final(self).idx == old(self).idx && final(self).old_weight == old(self).old_weight && final(self).then() == old(self).then(),
@@fn CacheShard::get_mut
@ret r
@requires
    old(self).inv(),
    hash == old(self).hash_builder.hspec(key.kid()),
@ensures
    match r { Some(h) => h.now().tallies(*old(self), 1, 0), None => final(self).tallies(*old(self), 0, 1) }, // [C19] a hit or a miss, once
    r is Some <==> (old(self).view().at(key.kid()) is Val), // [C12] a handle exactly for resident keys
    r is Some ==> r->0.now().cs() == old(self).cs() && live_at(old(self).cs(), r->0.idx, key.kid()) && r->0.now().lent(r->0.idx, r->0.old_weight)
        && r->0.now().same_cfg(*old(self)), // [C12] to the resident entry of that key
    r is Some ==> r->0.now().bumped(*old(self), r->0.idx), // [C18] the use is counted
    r is Some ==> *final(self) == r->0.then(),
    r is None ==> final(self).inv() && final(self).cs() == old(self).cs() && final(self).same_cfg(*old(self)),
    r is None ==> final(self).untouched(*old(self)), // [C17] a miss leaves no trace
@@fn CacheShard::peek_token_mut
@ret r
@requires
    old(self).inv(),
@ensures
    match r { Some(h) => h.now().tallies(*old(self), 0, 0), None => final(self).tallies(*old(self), 0, 0) }, // [C19] peeking is not counted
    r is Some <==> old(self).cs().at(token) is Res, // [C12] a handle exactly for a resident entry
    r is Some ==> r->0.now().cs() == old(self).cs() && r->0.idx == token && r->0.now().lent(r->0.idx, r->0.old_weight)
        && r->0.now().same_cfg(*old(self)), // [C12] to that entry
    r is Some ==> r->0.now().untouched(*old(self)), // [C17] peeking leaves no trace
    r is Some ==> *final(self) == r->0.then(),
    r is None ==> final(self).inv() && final(self).cs() == old(self).cs() && final(self).same_cfg(*old(self)),
    r is None ==> final(self).untouched(*old(self)), // [C17] a miss leaves no trace
@@fn CacheShard::peek_mut
@ret r
@requires
    old(self).inv(),
    hash == old(self).hash_builder.hspec(key.kid()),
@ensures
    match r { Some(h) => h.now().tallies(*old(self), 0, 0), None => final(self).tallies(*old(self), 0, 0) }, // [C19] peeking is not counted
    r is Some <==> (old(self).view().at(key.kid()) is Val), // [C12] a handle exactly for resident keys
    r is Some ==> r->0.now().cs() == old(self).cs() && live_at(old(self).cs(), r->0.idx, key.kid()) && r->0.now().lent(r->0.idx, r->0.old_weight)
        && r->0.now().same_cfg(*old(self)), // [C12] to the resident entry of that key
    r is Some ==> r->0.now().untouched(*old(self)), // [C17] peeking leaves no trace
    r is Some ==> *final(self) == r->0.then(),
    r is None ==> final(self).inv() && final(self).cs() == old(self).cs() && final(self).same_cfg(*old(self)),
    r is None ==> final(self).untouched(*old(self)), // [C17] a miss leaves no trace
@@fn <Drop for RefMut>::drop
@impl_generics <Key: Hash, Val, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>, Plh: SharedPlaceholder>
@as_inherent
@requires
    old(self).now().lent(old(self).idx, old(self).old_weight),
    old(self).now().weight_hot + old(self).now().weight_cold - old(self).old_weight + old(self).now().weighter.wspec(old(self).now().cs().at(old(self).idx)->Res_key, old(self).now().cs().at(old(self).idx)->val) <= u64::MAX,
@ensures
    !INV final(self).now()
    final(self).now().same_cfg(old(self).now()),
    final(self).now().tallies(old(self).now(), 0, 0), // [C19] nothing is counted
    final(self).now().cs() == old(self).now().cs(), // [C12] the value written stays, and the accounting follows it
    final(self).then() == old(self).then(),
@entry
    let ghost s0 = self.now();
    let ghost ov = s0.lender(self.idx, self.old_weight);
    assert(s0.lent_as(self.idx, self.old_weight, ov));
    let ghost c1 = s0.cs().put(self.idx, Core::Res { key: s0.cs().at(self.idx)->Res_key, val: ov, hot: s0.cs().at(self.idx)->Res_hot });
    assert(s0.cs() == c1.put(self.idx, s0.cs().at(self.idx)));
@@fn CacheShard::remove_placeholder
@impl_generics <Key: Hash, Val, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>, Plh: SharedPlaceholder>
@requires
    old(self).inv(),
    old(self).ph_ok(*placeholder),
@ensures
    !INV final(self)
    final(self).same_cfg(*old(self)),
    final(self).tallies(*old(self), 0, 0), // [C19] nothing is counted
    old(self).loads(*placeholder) ==> final(self).cs() == old(self).cs().put(placeholder.ph_idx(), Core::Void), // [C10] an abandoned load is forgotten
    !old(self).loads(*placeholder) ==> final(self).cs() == old(self).cs(), // [C10] a stale guard changes nothing
    old(self).entries.room() || old(self).loads(*placeholder) ==> final(self).entries.room(),
@loop 0 invariant
    old(self).inv(),
    old(self).ph_ok(*placeholder),
    *self == *old(self),
    $acc is Some ==> $acc->0 == placeholder.ph_idx() && self.loads(*placeholder),
    !$go && $acc is None ==> $it.pos() == $it.seq().len(),
    $acc is None && self.loads(*placeholder) ==> forall|j: int| 0 <= j < $it.pos() ==> *#[trigger] $it.seq()[j] != placeholder.ph_idx(),
@@fn CacheShard::handle_overweight_replace_placeholder
@ret r
@requires
    old(self).lost_load(*placeholder),
@ensures
    !INV final(self)
    final(self).same_cfg(*old(self)),
    final(self).tallies(*old(self), 0, 0), // [C19] nothing is counted
    final(self).entries.room(),
    final(self).cs() == old(self).cs().put(placeholder.ph_idx(), Core::Void), // [C06] the refused pair is not stored
    r is Ok, // [C10] the load is over
    L::log(*final(lcs)) == L::log(*old(lcs)).push(Ev::Evict { key, val: value }), // [C05] the refused pair is handed out once
@entry
    let ghost c = self.loser(*placeholder);
    assert(self.lost_as(*placeholder, c));
    let ghost c1 = self.cs().put(placeholder.ph_idx(), c);
    assert(self.cs().put(placeholder.ph_idx(), Core::Void) == c1.put(placeholder.ph_idx(), Core::Void));
@@fn CacheShard::replace_placeholder
@ret r
@requires
    old(self).inv(),
    old(self).ph_ok(*placeholder),
    forall|v: Val| old(self).weight_hot + old(self).weight_cold + #[trigger] old(self).weighter.wspec(old(self).cs().at(placeholder.ph_idx())->Load_key, v) <= u64::MAX,
@ensures
    !INV final(self)
    final(self).same_cfg(*old(self)),
    final(self).tallies(*old(self), 0, 0), // [C19] nothing is counted
    steady(old(self).cs(), final(self).cs()), // [C01] no slot comes to hold a pair of another key
    old(self).entries.room() ==> final(self).entries.room(),
    final(self).plh_over(*old(self), *placeholder, value, r, L::log(*old(lcs)), L::log(*final(lcs))), // [C10] the value of the load in progress is taken; that of a load that is over is returned and changes nothing
    final(self).plh_asked(*old(self), *placeholder, value, r, L::log(*old(lcs)), L::log(*final(lcs))), // [C13] before_evict is consulted exactly for pairs heavier than the admission limit
    final(self).plh_admit(*old(self), *placeholder, value, r, L::log(*old(lcs)), L::log(*final(lcs))), // [C06] a refused pair is not stored
    final(self).plh_account(*old(self), *placeholder, value, r, L::log(*old(lcs)), L::log(*final(lcs))), // [C05] a refused pair is handed out once; otherwise it is stored and every pair that left was handed out
    final(self).plh_keep(*old(self), *placeholder, value, r, L::log(*old(lcs)), L::log(*final(lcs))), // [C04] pinned and weightless pairs stay
    final(self).plh_room(*old(self), *placeholder, value, r, L::log(*old(lcs)), L::log(*final(lcs))), // [C03] evicts until within capacity
    final(self).plh_place(*old(self), *placeholder, referenced, value, L::log(*old(lcs)), L::log(*final(lcs))), // [C18] enters the hot section if there is room or the key was remembered
@entry
    broadcast use lemma_hot_only;
    let ghost v00 = value;
    let ghost loading = self.loads(*placeholder);
    let ghost k00 = self.cs().at(placeholder.ph_idx())->Load_key;
@loop 0 invariant
    !EVICTING self
    steady(old(self).cs(), self.cs()),
    kept(old(self).weighter, old(self).lifecycle, old(self).view().put(k00.kid(), Cell::Val(k00, $value)), self.view()), // [C04] so far pinned and weightless pairs stay
    extends(old(self).asked(k00, v00, L::log(*old(lcs)), $value), L::log(*lcs)), // [C13] so far before_evict was consulted for the new pair exactly if it is above the limit
    self.settled(old(self).view().put(k00.kid(), Cell::Val(k00, $value)), old(self).asked(k00, v00, L::log(*old(lcs)), $value).len(), L::log(*lcs)), // [C05] so far every pair that left was handed out
    ({ let fits = old(self).weight_hot + old(self).weight_cold + old(self).weighter.wspec(k00, $value) <= old(self).weight_capacity; (old(self).cs().at(placeholder.ph_idx())->Load_hot || fits ==> hot_only(self.cs(), k00.kid())) && (fits ==> self.uses(placeholder.ph_idx()) == (if referenced { 1int } else { 0int })) }),
    self.weight_hot + self.weight_cold <= old(self).weight_hot + old(self).weight_cold + old(self).weighter.wspec(k00, $value),
@loop 0 decreases
    self.total(Kind::LHot) + 2 * self.total(Kind::LCold)
@@fn CacheShard::clear
@requires
    old(self).inv(),
@ensures
    !INV final(self)
    final(self).same_cfg(*old(self)),
    final(self).tallies(*old(self), 0, 0), // [C19] nothing is counted
    final(self).entries.room(),
    all_void(final(self).cs()), // [C09] nothing is left
    forall|k: int| (#[trigger] final(self).view().at(k)) is None, // [C09] nothing is left
@@fn CacheShard::drain
@ret r
@requires
    old(self).inv(),
@ensures
    !INV final(self)
    final(self).same_cfg(*old(self)),
    final(self).tallies(*old(self), 0, 0), // [C19] nothing is counted
    final(self).entries.room(),
    all_void(final(self).cs()), // [C09] nothing is left
    forall|k: int| (#[trigger] final(self).view().at(k)) is None, // [C09] nothing is left
    lists(old(self).view(), r@), // [C09] every resident pair is yielded exactly once, and nothing else
@loop 0 invariant
    $acc@ =~= residents($it.seq(), $it.pos()),
@exit
    lemma_residents(old(self).entries.items(), old(self).entries.toks());
@@fn CacheShard::iter
@ret r
@requires
    self.inv(),
@ensures
    lists(self.view(), r@.map_values(|p: (&Key, &Val)| (*p.0, *p.1))), // [C09] every resident pair is yielded exactly once, and nothing else
@loop 0 invariant
    $it.seq().len() == self.entries.toks().len(),
    self.inv(),
    forall|i: int| 0 <= i < $it.seq().len() ==> *(#[trigger] $it.seq()[i]) == stored(self.entries.items(), self.entries.toks())[i],
    $acc@.map_values(|p: (&Key, &Val)| (*p.0, *p.1)) =~= residents(stored(self.entries.items(), self.entries.toks()), $it.pos()),
@exit
    crate::linked_slab::lemma_toks(self.entries);
    lemma_residents(self.entries.items(), self.entries.toks());
@@fn CacheShard::retain
@collect_type 1 Vec<(Token, u64)>
@requires
    old(self).inv(),
    is_predicate(f),
@ensures
    !INV final(self)
    final(self).same_cfg(*old(self)),
    final(self).tallies(*old(self), 0, 0), // [C19] nothing is counted
    old(self).entries.room() ==> final(self).entries.room(),
    sifted(f, old(self).view(), final(self).view()), // [C09] exactly the pairs for which the predicate is false are removed
@entry
    proof { lemma_doomed_list(f, self.hash_builder, self.cs(), self.map.order(), self.map.order().len() as int); }
@loop 0 invariant
    is_predicate(f),
    old(self).inv(),
    *self == *old(self),
    forall|i: int| 0 <= i < $it.seq().len() ==> *(#[trigger] $it.seq()[i]) == old(self).map.order()[i],
    $it.seq().len() == old(self).map.order().len(),
    $acc@ =~= doomed_list(f, self.hash_builder, self.cs(), old(self).map.order(), $it.pos()),
@loop 1 invariant
    !INV self
    self.same_cfg(*old(self)),
    self.tallies(*old(self), 0, 0), // [C19] nothing is counted
    old(self).entries.room() ==> self.entries.room(),
    self.cs() == sweep(old(self).cs(), $it.seq(), $it.pos()),
    $it.seq() == doomed_list(f, self.hash_builder, old(self).cs(), old(self).map.order(), old(self).map.order().len() as int),
    good_list(f, self.hash_builder, old(self).cs(), $it.seq()),
@exit
    assert forall|t: Token| (#[trigger] self.cs().at(t)) == if doomed(f, old(self).cs().at(t)) { Core::Void } else { old(self).cs().at(t) } by {
        let o = old(self).map.order();
        if doomed(f, old(self).cs().at(t)) { assert(o.no_duplicates()); assert(old(self).map@.at(t) is Some); assert(o.contains(t)); assert(o[o.index_of(t)] == t); }
        let l = doomed_list(f, self.hash_builder, old(self).cs(), o, o.len() as int);
        assert(on_list(l, l.len() as int, t) <==> doomed(f, old(self).cs().at(t)));
    }
    lemma_sifted(f, old(self).cs(), self.cs());
@@fn <Clone for Resident>::clone
@as_inherent
@ret r
@ensures
    r.key == self.key && r.value == self.value && r.state == self.state, // [C21] the clone of a pair is that pair, in the same section
    read_as(self.referenced, r.referenced.v), // [C21] with the uses it had
@@fn <Clone for CacheShard>::clone
@impl_generics <Key: Clone + Hash, Val: Clone, We: Clone + Weighter<Key, Val>, B: Clone + BuildHasher, L: Clone + Lifecycle<Key, Val>, Plh: Clone + SharedPlaceholder>
@as_inherent
@ret r
@requires
    self.inv(),
@entry
@@if stats
    broadcast use axiom_counter_of;
@@endif
@ensures
    !INV r
    r.untouched(*self), // [C21] the clone has the same pairs, sections, order, counters and parameters
    r.tallies(*self, 0, 0), // [C19] [C21] and the same hit and miss counts
