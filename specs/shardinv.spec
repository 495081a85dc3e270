@@module shardinv
@@text
use vstd::prelude::*;
use crate::prelude::*;
use crate::shardprel::*;
use crate::api::*;
use crate::theory::*;
use crate::linked_slab::{LinkedSlab, same_ring, links_ok, place, size, group_slab};
broadcast use {group_shard, group_slab, group_fmap};
// ------------------------------------------------------------------ representation invariant
impl<Key: Hash, Val, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>, Plh: SharedPlaceholder> CacheShard<Key, Val, We, B, L, Plh> {
    pub open spec fn cs(self) -> FMap<Token, Core<Key, Val, Plh>> { cores(self.entries.items()) }
    pub open spec fn view(self) -> FMap<int, Cell<Key, Val, Plh>> { view_of(self.cs()) }
    pub open spec fn total(self, k: Kind) -> nat { self.total_on(self.cs(), k) }
    // The invariant is stated over an explicit assignment `cs` of entries to tokens, so that it can also be
    // stated for moments at which one slot is temporarily overwritten.
    #[verifier::inline]
    pub open spec fn total_on(self, cs: FMap<Token, Core<Key, Val, Plh>>, k: Kind) -> nat { tot(k, self.weighter, self.lifecycle, cs) }
    pub open spec fn head_ok(self, cs: FMap<Token, Core<Key, Val, Plh>>, h: Option<Token>, c: int) -> bool {
        match h {
            Some(t) => cls(self.weighter, cs.at(t)) == c
                && (forall|z: Token| cls(self.weighter, #[trigger] cs.at(z)) == c ==> self.entries.same(t, z)),
            None => none_of(self.weighter, cs, c),
        }
    }
    pub open spec fn lists_ok(self, cs: FMap<Token, Core<Key, Val, Plh>>) -> bool {
        &&& forall|t: Token, z: Token| #[trigger] self.entries.same(t, z) <==> (if t == z { !(cs.at(t) is Void) } else { cls(self.weighter, cs.at(t)) == cls(self.weighter, cs.at(z)) && cls(self.weighter, cs.at(t)) != 0 })
        &&& self.head_ok(cs, self.cold_head, 1)
        &&& self.head_ok(cs, self.hot_head, 2)
        &&& self.head_ok(cs, self.ghost_head, 3)
    }
    pub open spec fn filed_ok(self, cs: FMap<Token, Core<Key, Val, Plh>>) -> bool {
        &&& forall|t: Token| #![trigger self.map@.at(t)] #![trigger cs.at(t)] self.map@.at(t) == (if cs.at(t) is Void { None } else { Some(ehash(self.hash_builder, cs.at(t))) })
        &&& forall|t: Token| (#[trigger] cs.at(t)) is Load ==> cs.at(t)->shared.ph_idx() == t && cs.at(t)->shared.ph_hash() == ehash(self.hash_builder, cs.at(t))
    }
    pub open spec fn sums_ok(self, cs: FMap<Token, Core<Key, Val, Plh>>) -> bool {
        &&& self.weight_hot == self.total_on(cs, Kind::WHot)
        &&& self.weight_cold == self.total_on(cs, Kind::WCold)
        &&& self.num_hot == self.total_on(cs, Kind::NHot)
        &&& self.num_cold == self.total_on(cs, Kind::NCold)
        &&& self.num_non_resident == self.total_on(cs, Kind::NGone)
        &&& self.weight_hot + self.weight_cold <= u64::MAX
    }
    pub open spec fn base_on(self, cs: FMap<Token, Core<Key, Val, Plh>>) -> bool {
        &&& self.entries.wf()
        &&& uniq(cs)
        &&& self.filed_ok(cs)
        &&& self.lists_ok(cs)
        &&& self.sums_ok(cs)
        &&& self.weight_target_hot <= self.weight_capacity
    }
    pub open spec fn inv_on(self, cs: FMap<Token, Core<Key, Val, Plh>>) -> bool {
        self.base_on(cs) && self.num_non_resident <= self.capacity_non_resident
    }
    pub open spec fn inv(self) -> bool { self.inv_on(self.cs()) }
    /// every unpinned resident has weight 0
    pub open spec fn all_pinned(self) -> bool {
        none_free(self.weighter, self.lifecycle, self.cs())
    }
    /// the pair is heavier than the admission limit, so `before_evict` is consulted
    pub open spec fn over(self, key: Key, val: Val) -> bool { self.weighter.wspec(key, val) > self.weight_target_hot && !self.lifecycle.pinned(key, val) }
    /// the value left by that consultation
    pub open spec fn offered(self, key: Key, val: Val, l0: Seq<Ev<Key, Val>>, log: Seq<Ev<Key, Val>>) -> Val { if self.over(key, val) { log[l0.len() as int]->new } else { val } }
    /// the log after that consultation
    pub open spec fn asked(self, key: Key, val: Val, l0: Seq<Ev<Key, Val>>, v1: Val) -> Seq<Ev<Key, Val>> { if self.over(key, val) { l0.push(Ev::Before { key, old: val, new: v1 }) } else { l0 } }
    pub open spec fn refused(self, key: Key, val: Val, v1: Val) -> bool { self.over(key, val) && self.weighter.wspec(key, v1) > self.weight_target_hot }
    // what inserting (or, if repl, replacing) a pair did, between the states o and self and the logs l0 and l1
    pub open spec fn ins_asked(self, o: Self, key: Key, val: Val, repl: bool, r: Result<(), (Key, Val)>, l0: Seq<Ev<Key, Val>>, l1: Seq<Ev<Key, Val>>) -> bool { extends(o.asked(key, val, l0, o.offered(key, val, l0, l1)), l1) }
    pub open spec fn ins_admit(self, o: Self, key: Key, val: Val, repl: bool, r: Result<(), (Key, Val)>, l0: Seq<Ev<Key, Val>>, l1: Seq<Ev<Key, Val>>) -> bool {
        if o.refused(key, val, o.offered(key, val, l0, l1)) { (repl <==> r is Err) && self.view() == (if o.view().at(key.kid()) is Val { o.view().put(key.kid(), Cell::None) } else { o.view() }) }
        else { !repl || o.view().at(key.kid()) is Val ==> r is Ok }
    }
    pub open spec fn ins_new(self, o: Self, key: Key, val: Val, repl: bool, r: Result<(), (Key, Val)>, l0: Seq<Ev<Key, Val>>, l1: Seq<Ev<Key, Val>>) -> bool {
        !o.refused(key, val, o.offered(key, val, l0, l1)) && !repl && o.view().at(key.kid()) is None && !remembers(o.cs(), o.hash_builder.hspec(key.kid()))
            ==> self.view().at(key.kid()) == Cell::<Key, Val, Plh>::Val(key, o.offered(key, val, l0, l1))
    }
    pub open spec fn ins_room(self, o: Self, key: Key, val: Val, repl: bool, r: Result<(), (Key, Val)>, l0: Seq<Ev<Key, Val>>, l1: Seq<Ev<Key, Val>>) -> bool {
        if o.refused(key, val, o.offered(key, val, l0, l1)) { self.total(Kind::Free) <= o.total(Kind::Free) }
        else { r is Ok ==> self.total(Kind::Free) <= self.weight_capacity && self.in_budget(o.weighter.wspec(key, o.offered(key, val, l0, l1)) as int) }
    }
    pub open spec fn ins_account(self, o: Self, key: Key, val: Val, repl: bool, r: Result<(), (Key, Val)>, l0: Seq<Ev<Key, Val>>, l1: Seq<Ev<Key, Val>>) -> bool {
        let v1 = o.offered(key, val, l0, l1);
        let l2 = o.asked(key, val, l0, v1);
        let l3 = match o.view().at(key.kid()) { Cell::Val(ok, ov) => l2.push(Ev::Evict { key: ok, val: ov }), _ => l2 };
        if o.refused(key, val, v1) {
            if repl { r == Err::<(), (Key, Val)>((key, v1)) && l1 == l3 } else { r is Ok && l1 == l3.push(Ev::Evict { key, val: v1 }) }
        } else if repl && !(o.view().at(key.kid()) is Val) { r == Err::<(), (Key, Val)>((key, v1)) && l1 == l2 && self.view() == o.view() }
        else { extends(l3, l1) && self.settled(o.view().put(key.kid(), Cell::Val(key, v1)), l3.len(), l1) }
    }
    pub open spec fn ins_fail(self, o: Self, key: Key, val: Val, repl: bool, r: Result<(), (Key, Val)>, l0: Seq<Ev<Key, Val>>, l1: Seq<Ev<Key, Val>>) -> bool {
        repl && !(o.view().at(key.kid()) is Val) ==> r == Err::<(), (Key, Val)>((key, o.offered(key, val, l0, l1))) && self.view() == o.view() && self.untouched(o)
    }
    pub open spec fn ins_keep(self, o: Self, key: Key, val: Val, repl: bool, r: Result<(), (Key, Val)>, l0: Seq<Ev<Key, Val>>, l1: Seq<Ev<Key, Val>>) -> bool {
        !o.refused(key, val, o.offered(key, val, l0, l1)) && r is Ok ==> kept(o.weighter, o.lifecycle, o.view().put(key.kid(), Cell::Val(key, o.offered(key, val, l0, l1))), self.view())
    }
    /// the load p stands for is still in progress
    pub open spec fn loads(self, p: Plh) -> bool {
        self.cs().at(p.ph_idx()) is Load && self.cs().at(p.ph_idx())->shared.ph_id() == p.ph_id() && p.ph_hash() == self.cs().at(p.ph_idx())->shared.ph_hash()
    }
    pub open spec fn ph_ok(self, p: Plh) -> bool {
        self.cs().at(p.ph_idx()) is Load && self.cs().at(p.ph_idx())->shared.ph_id() == p.ph_id() ==> p.ph_hash() == self.cs().at(p.ph_idx())->shared.ph_hash()
    }
    // what storing val through the placeholder p did
    pub open spec fn plh_over(self, o: Self, p: Plh, val: Val, r: Result<(), Val>, l0: Seq<Ev<Key, Val>>, l1: Seq<Ev<Key, Val>>) -> bool {
        if o.loads(p) { r is Ok } else { r == Err::<(), Val>(val) && self.cs() == o.cs() && l1 == l0 }
    }
    pub open spec fn plh_asked(self, o: Self, p: Plh, val: Val, r: Result<(), Val>, l0: Seq<Ev<Key, Val>>, l1: Seq<Ev<Key, Val>>) -> bool {
        let key = o.cs().at(p.ph_idx())->Load_key;
        let v1 = o.offered(key, val, l0, l1);
        o.loads(p) ==> extends(o.asked(key, val, l0, v1), l1)
    }
    pub open spec fn plh_admit(self, o: Self, p: Plh, val: Val, r: Result<(), Val>, l0: Seq<Ev<Key, Val>>, l1: Seq<Ev<Key, Val>>) -> bool {
        let key = o.cs().at(p.ph_idx())->Load_key;
        let v1 = o.offered(key, val, l0, l1);
        o.loads(p) && o.refused(key, val, v1) ==> self.view() == o.view().put(key.kid(), Cell::None)
    }
    pub open spec fn plh_account(self, o: Self, p: Plh, val: Val, r: Result<(), Val>, l0: Seq<Ev<Key, Val>>, l1: Seq<Ev<Key, Val>>) -> bool {
        let key = o.cs().at(p.ph_idx())->Load_key;
        let v1 = o.offered(key, val, l0, l1);
        o.loads(p) ==> if o.refused(key, val, v1) { l1 == o.asked(key, val, l0, v1).push(Ev::Evict { key, val: v1 }) }
            else { self.settled(o.view().put(key.kid(), Cell::Val(key, v1)), o.asked(key, val, l0, v1).len(), l1) }
    }
    pub open spec fn plh_keep(self, o: Self, p: Plh, val: Val, r: Result<(), Val>, l0: Seq<Ev<Key, Val>>, l1: Seq<Ev<Key, Val>>) -> bool {
        let key = o.cs().at(p.ph_idx())->Load_key;
        let v1 = o.offered(key, val, l0, l1);
        o.loads(p) && !o.refused(key, val, v1) ==> kept(o.weighter, o.lifecycle, o.view().put(key.kid(), Cell::Val(key, v1)), self.view())
    }
    pub open spec fn plh_room(self, o: Self, p: Plh, val: Val, r: Result<(), Val>, l0: Seq<Ev<Key, Val>>, l1: Seq<Ev<Key, Val>>) -> bool {
        let key = o.cs().at(p.ph_idx())->Load_key;
        let v1 = o.offered(key, val, l0, l1);
        o.loads(p) ==> if o.refused(key, val, v1) || o.weighter.wspec(key, v1) == 0 { self.total(Kind::Free) <= o.total(Kind::Free) } else { self.in_budget(0) }
    }
    pub open spec fn plh_place(self, o: Self, p: Plh, used: bool, val: Val, l0: Seq<Ev<Key, Val>>, l1: Seq<Ev<Key, Val>>) -> bool {
        let c = o.cs().at(p.ph_idx());
        let v1 = o.offered(c->Load_key, val, l0, l1);
        let fits = o.weight_hot + o.weight_cold + o.weighter.wspec(c->Load_key, v1) <= o.weight_capacity;
        o.loads(p) && !o.refused(c->Load_key, val, v1) ==> (c->Load_hot || fits ==> hot_only(self.cs(), c->Load_key.kid())) && (fits ==> self.uses(p.ph_idx()) == (if used { 1int } else { 0int }))
    }
    /// the load p stands for has been taken out of its slot, which is still filed
    pub open spec fn lost_as(self, p: Plh, c: Core<Key, Val, Plh>) -> bool {
        c is Load && p.ph_hash() == c->shared.ph_hash() && self.inv_on(self.cs().put(p.ph_idx(), c))
    }
    pub open spec fn lost_load(self, p: Plh) -> bool {
        !(self.cs().at(p.ph_idx()) is Void) && exists|c: Core<Key, Val, Plh>| #[trigger] self.lost_as(p, c)
    }
    pub open spec fn loser(self, p: Plh) -> Core<Key, Val, Plh> { choose|c: Core<Key, Val, Plh>| self.lost_as(p, c) }
    /// the invariant holds but for the value of the resident at t, lent out since it was ov and weighed ow
    pub open spec fn lent_as(self, t: Token, ow: u64, ov: Val) -> bool {
        self.weighter.wspec(self.cs().at(t)->Res_key, ov) == ow && self.inv_on(self.cs().put(t, Core::Res { key: self.cs().at(t)->Res_key, val: ov, hot: self.cs().at(t)->Res_hot }))
    }
    pub open spec fn lent(self, t: Token, ow: u64) -> bool { self.cs().at(t) is Res && exists|ov: Val| #[trigger] self.lent_as(t, ow, ov) }
    pub open spec fn lender(self, t: Token, ow: u64) -> Val { choose|ov: Val| self.lent_as(t, ow, ov) }
    /// the events since n1 turn v1 into the present contents
    pub open spec fn settled(self, v1: FMap<int, Cell<Key, Val, Plh>>, n1: nat, log: Seq<Ev<Key, Val>>) -> bool {
        replay(self.weighter, self.lifecycle, v1, n1 as int, log) == Some((self.view(), None::<int>))
    }
    /// the pair can be evicted from the cold section
    pub open spec fn in_cold(self, t: Token) -> bool { self.cold_head is Some && self.entries.same(self.cold_head->0, t) }
    /// uses left of the entry, capped
    pub open spec fn uses(self, t: Token) -> int { rank(self.entries.items()[t]) }
    /// one more use of the entry is counted
    pub open spec fn bumped(self, o: Self, t: Token) -> bool { self.uses(t) == (if o.uses(t) < 2 { o.uses(t) + 1 } else { 2 }) && forall|z: Token| z != t ==> #[trigger] self.uses(z) == o.uses(z) }
    /// the pair of the key is hot, if there is one
    pub open spec fn hot_if_there(self, k: int) -> bool { hot_only(self.cs(), k) }
    /// the total weight once the pair at t has this weight
    pub open spec fn weight_in_place(self, t: Token, weight: u64) -> int { self.weight_hot + self.weight_cold - self.weighter.wspec(self.cs().at(t)->Res_key, self.cs().at(t)->val) + weight }
    pub open spec fn fits_in_place(self, t: Token, weight: u64) -> bool { self.weight_in_place(t, weight) <= self.weight_capacity }
    /// hot pairs stay hot as long as they stay
    pub open spec fn no_demotion(self, o: Self) -> bool { forall|z: Token| (#[trigger] self.cs().at(z)) is Res ==> o.cs().at(z) is Res && (o.cs().at(z)->Res_hot ==> self.cs().at(z)->Res_hot) }
    /// a new pair enters the hot section if that has room for it, and the cold one otherwise, without uses
    pub open spec fn ins_place(self, o: Self, key: Key, val: Val, repl: bool, r: Result<(), (Key, Val)>, l0: Seq<Ev<Key, Val>>, l1: Seq<Ev<Key, Val>>) -> bool {
        let v1 = o.offered(key, val, l0, l1);
        !o.refused(key, val, v1) && !repl && o.view().at(key.kid()) is None ==>
            if remembers(o.cs(), o.hash_builder.hspec(key.kid())) { self.hot_if_there(key.kid()) }
            else { forall|t: Token| #[trigger] live_at(self.cs(), t, key.kid()) ==> self.cs().at(t) is Res && self.cs().at(t)->Res_hot == (o.weight_hot + o.weighter.wspec(key, v1) <= o.weight_target_hot) && self.uses(t) == 0 }
    }
    /// replacing a value counts as a use, unless soft
    #[verifier::opaque]
    pub open spec fn renewed(self, o: Self, k: int, w: u64, soft: bool) -> bool {
        let t = locate(o.cs(), k);
        o.view().at(k) is Val && o.fits_in_place(t, w) ==> self.uses(t) == (if soft { o.uses(t) } else if o.uses(t) < 2 { o.uses(t) + 1 } else { 2 })
    }
    pub open spec fn ins_use(self, o: Self, key: Key, val: Val, soft: bool, l0: Seq<Ev<Key, Val>>, l1: Seq<Ev<Key, Val>>) -> bool {
        !o.refused(key, val, o.offered(key, val, l0, l1)) && o.view().at(key.kid()) is Val ==> self.renewed(o, key.kid(), o.weighter.wspec(key, o.offered(key, val, l0, l1)), soft)
    }
    /// a used cold pair was promoted, the other cold pairs being as they were
    pub open spec fn promoted(self, o: Self, t: Token) -> bool { o.uses(t) > 0 && others_stay(o.cs(), self.cs(), t, false) && (self.cs().at(t) is Res ==> self.cs().at(t)->Res_hot) }
    /// room was made
    pub open spec fn cold_turn(self, o: Self) -> bool {
        ||| exists|t: Token| #[trigger] o.in_cold(t) && self.promoted(o, t)
        ||| exists|t: Token| #[trigger] o.in_cold(t) && o.uses(t) == 0 && !pinned_at(o.lifecycle, o.cs(), t) && others_stay(o.cs(), self.cs(), t, true)
        ||| (forall|t: Token| #[trigger] o.in_cold(t) ==> o.uses(t) == 0 && pinned_at(o.lifecycle, o.cs(), t)) && forall|z: Token| o.cs().at(z) is Res && !o.cs().at(z)->Res_hot ==> #[trigger] self.cs().at(z) == o.cs().at(z)
    }
    pub open spec fn in_budget(self, w: int) -> bool { self.weight_hot + self.weight_cold <= self.weight_capacity || self.total(Kind::Free) <= w }
    /// all fields except the map and the slab
    pub open spec fn rest(self) -> (B, (Option<Token>, Option<Token>, Option<Token>), (u64, u64, u64, u64), (usize, usize, usize, usize), We, L) {
        (self.hash_builder, (self.cold_head, self.hot_head, self.ghost_head), (self.weight_target_hot, self.weight_capacity, self.weight_hot, self.weight_cold),
            (self.num_hot, self.num_cold, self.num_non_resident, self.capacity_non_resident), self.weighter, self.lifecycle)
    }
    /// nothing at all changed, use counts and list order included
    pub open spec fn untouched(self, o: Self) -> bool {
        self.rest() == o.rest() && self.map@ == o.map@ && self.entries.items() =~= o.entries.items() && self.entries.nx() == o.entries.nx() && self.entries.pv() == o.entries.pv() && self.entries.next_free == o.entries.next_free
    }
    /// parameters that never change
    pub open spec fn same_cfg(self, o: Self) -> bool {
        &&& self.hash_builder == o.hash_builder
        &&& self.weighter == o.weighter
        &&& self.lifecycle == o.lifecycle
        &&& self.weight_capacity == o.weight_capacity
        &&& self.weight_target_hot == o.weight_target_hot
        &&& self.capacity_non_resident == o.capacity_non_resident
    }
    /// so many hits and misses were counted between o and self
@@if stats
    pub open spec fn tallies(self, o: Self, h: int, m: int) -> bool { self.hits.val() == o.hits.val() + h && self.misses.val() == o.misses.val() + m }
    pub open spec fn zeroed(self) -> bool { self.hits.val() == 0 && self.misses.val() == 0 }
    pub open spec fn hit_due(self) -> bool { due(self.hits) }
    pub open spec fn miss_due(self) -> bool { due(self.misses) }
    pub open spec fn hit_done(self) -> bool { counted(self.hits) }
    pub open spec fn miss_done(self) -> bool { counted(self.misses) }
@@else
    pub open spec fn tallies(self, o: Self, h: int, m: int) -> bool { true }
    pub open spec fn zeroed(self) -> bool { true }
    pub open spec fn hit_due(self) -> bool { true }
    pub open spec fn miss_due(self) -> bool { true }
    pub open spec fn hit_done(self) -> bool { true }
    pub open spec fn miss_done(self) -> bool { true }
@@endif
    /// every change of the contents between o and self was reported to the hooks, and legally so
    pub open spec fn accounted(self, o: Self, oldlog: Seq<Ev<Key, Val>>, newlog: Seq<Ev<Key, Val>>) -> bool {
        &&& extends(oldlog, newlog)
        &&& forall|c0: FMap<int, Cell<Key, Val, Plh>>, n0: int| 0 <= n0 <= oldlog.len() && replay(self.weighter, self.lifecycle, c0, n0, oldlog) == Some((o.view(), None::<int>))
                ==> #[trigger] replay(self.weighter, self.lifecycle, c0, n0, newlog) == Some((self.view(), None::<int>))
    }
}
impl<'cache, Key: Hash, Val, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>, Plh: SharedPlaceholder> RefMut<'cache, Key, Val, We, B, L, Plh> {
    /// the shard as it is now / when the handle is gone
    pub open spec fn now(self) -> CacheShard<Key, Val, We, B, L, Plh> { *self.cache }
    #[verifier::prophetic]
    pub open spec fn then(self) -> CacheShard<Key, Val, We, B, L, Plh> { *final(self.cache) }
}
// ------------------------------------------------------------------ lending out a value
pub broadcast proof fn lemma_lend<Key: Hash, Val, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>, Plh: SharedPlaceholder>(s: CacheShard<Key, Val, We, B, L, Plh>, t: Token, ow: u64)
    requires s.inv(), s.cs().at(t) is Res, ow == s.weighter.wspec(s.cs().at(t)->Res_key, s.cs().at(t)->val)
    ensures #[trigger] s.lent(t, ow)
{ assert(s.cs().put(t, s.cs().at(t)) == s.cs()); assert(s.lent_as(t, ow, s.cs().at(t)->val)); }
pub broadcast proof fn lemma_relend<Key: Hash, Val, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>, Plh: SharedPlaceholder>(a: CacheShard<Key, Val, We, B, L, Plh>, b: CacheShard<Key, Val, We, B, L, Plh>, t: Token, ow: u64, v: Val)
    requires #[trigger] a.lent(t, ow), b.rest() == a.rest(), b.map == a.map, b.entries.wf(), b.entries.nx() == a.entries.nx(),
        b.cs() == #[trigger] a.cs().put(t, Core::Res { key: a.cs().at(t)->Res_key, val: v, hot: a.cs().at(t)->Res_hot }),
    ensures #[trigger] b.lent(t, ow)
{
    let ov = a.lender(t, ow);
    assert(a.lent_as(t, ow, ov));
    let c = a.cs().put(t, Core::Res { key: a.cs().at(t)->Res_key, val: ov, hot: a.cs().at(t)->Res_hot });
    assert(b.cs().put(t, Core::Res { key: b.cs().at(t)->Res_key, val: ov, hot: b.cs().at(t)->Res_hot }) == c);
    assert(a.inv_on(c));
    assert(b.inv_on(c));
    assert(b.lent_as(t, ow, ov));
}
pub broadcast proof fn lemma_lose<Key: Hash, Val, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>, Plh: SharedPlaceholder>(a: CacheShard<Key, Val, We, B, L, Plh>, b: CacheShard<Key, Val, We, B, L, Plh>, p: Plh, d: Core<Key, Val, Plh>)
    requires a.inv(), #[trigger] a.loads(p), b.rest() == a.rest(), b.map == a.map, b.entries.wf(), b.entries.nx() == a.entries.nx(),
        b.cs() == #[trigger] a.cs().put(p.ph_idx(), d), !(d is Void),
    ensures #[trigger] b.lost_load(p)
{
    let c = a.cs().at(p.ph_idx());
    assert(b.cs().put(p.ph_idx(), c) == a.cs());
    assert(b.lost_as(p, c));
}
pub broadcast group group_lend { lemma_lend, lemma_relend, lemma_lose }
/// the result of a replacement, without the request state
pub open spec fn done<S, E>(r: Result<S, E>) -> Result<(), E> { match r { Ok(_) => Ok(()), Err(e) => Err(e) } }
