@@module theory
@@file shard.rs
@@text
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use crate::prelude::*;
use crate::shardprel::*;
use crate::api::*;
use crate::linked_slab::{LinkedSlab, same_ring, place, size};
broadcast use {group_token, group_fmap};
@@item MAX_F
@@trait SharedPlaceholder
@supertraits Sized
@text
/// identity (`same_as`), and what the placeholder remembers about its slot
spec fn ph_id(&self) -> int;
spec fn ph_hash(&self) -> u64;
spec fn ph_idx(&self) -> Token;
/// it was made by this operation
spec fn ph_new(&self) -> bool;
fn clone(&self) -> (r: Self) ensures r.ph_new() == self.ph_new(), r.ph_id() == self.ph_id(), r.ph_hash() == self.ph_hash(), r.ph_idx() == self.ph_idx();
@fn new
@ret r
@ensures
    r.ph_hash() == hash, r.ph_idx() == idx, r.ph_new(),
@fn same_as
@ret r
@ensures
    r == (self.ph_id() == other.ph_id()),
@fn hash
@ret r
@ensures
    r == self.ph_hash(),
@fn idx
@ret r
@ensures
    r == self.ph_idx(),
@@item InsertStrategy
@@item ResidentState
@attr #[derive(Copy, Clone, Debug, Eq)]
@@item Resident
@@item Placeholder
@@item Entry
@@item CacheShard
@@item RefMut
@@text
impl PartialEqSpecImpl for ResidentState {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &ResidentState) -> bool { *self == *o }
}
impl PartialEq for ResidentState {
    fn eq(&self, o: &ResidentState) -> bool { match (self, o) { (ResidentState::Hot, ResidentState::Hot) => true, (ResidentState::Cold, ResidentState::Cold) => true, _ => false } }
}
// ------------------------------------------------------------------ abstract state of a shard
/// An entry without its reference counter; Void where there is none.
pub enum Core<K, V, P> { Void, Res { key: K, val: V, hot: bool }, Load { key: K, hot: bool, shared: P }, Gone(u64) }
/// What a user can observe under a key: a value, or a load in progress.
pub enum Cell<K, V, P> { None, Val(K, V), Load(P) }
pub open spec fn is_hot(s: ResidentState) -> bool { s == ResidentState::Hot }
pub open spec fn core<K, V, P>(e: Entry<K, V, P>) -> Core<K, V, P> {
    match e {
        Entry::Resident(r) => Core::Res { key: r.key, val: r.value, hot: is_hot(r.state) },
        Entry::Placeholder(p) => Core::Load { key: p.key, hot: is_hot(p.hot), shared: p.shared },
        Entry::Ghost(h) => Core::Gone(h),
    }
}
pub closed spec fn cores<K, V, P>(m: IMap<Token, Entry<K, V, P>>) -> FMap<Token, Core<K, V, P>> {
    FMap::of(|t: Token| if m.dom().contains(t) { core(m[t]) } else { Core::Void })
}
pub open spec fn live<K, V, P>(c: Core<K, V, P>) -> bool { c is Res || c is Load }
pub open spec fn kidc<K: Hash, V, P>(c: Core<K, V, P>) -> int {
    match c { Core::Res { key, .. } => key.kid(), Core::Load { key, .. } => key.kid(), _ => arbitrary() }
}
pub open spec fn cell<K, V, P>(c: Core<K, V, P>) -> Cell<K, V, P> {
    match c { Core::Res { key, val, .. } => Cell::Val(key, val), Core::Load { shared, .. } => Cell::Load(shared), _ => Cell::None }
}
/// hash under which an entry is filed
pub open spec fn ehash<K: Hash, V, P, B: BuildHasher>(hb: B, c: Core<K, V, P>) -> u64 {
    match c { Core::Res { key, .. } => hb.hspec(key.kid()), Core::Load { key, .. } => hb.hspec(key.kid()), Core::Gone(h) => h, Core::Void => 0 }
}
/// list an entry belongs to: 0 none, 1 cold, 2 hot, 3 ghost
pub open spec fn cls<K, V, P, We: Weighter<K, V>>(we: We, c: Core<K, V, P>) -> int {
    match c {
        Core::Res { key, val, hot } => if we.wspec(key, val) == 0 { 0 } else if hot { 2 } else { 1 },
        Core::Load { .. } => 0,
        Core::Gone(_) => 3,
        Core::Void => 0,
    }
}
// ---- sums over all entries
pub enum Kind { WHot, WCold, NHot, NCold, NGone, LHot, LCold, Free }
pub open spec fn amount<K, V, P, We: Weighter<K, V>, L: Lifecycle<K, V>>(k: Kind, we: We, li: L, c: Core<K, V, P>) -> nat {
    match c {
        Core::Res { key, val, hot } => {
            let w = we.wspec(key, val) as nat;
            match k {
                Kind::WHot => if hot { w } else { 0 },
                Kind::WCold => if hot { 0 } else { w },
                Kind::NHot => if hot { 1 } else { 0 },
                Kind::NCold => if hot { 0 } else { 1 },
                Kind::NGone => 0,
                Kind::LHot => if hot && w != 0 { 1 } else { 0 },
                Kind::LCold => if !hot && w != 0 { 1 } else { 0 },
                Kind::Free => if li.pinned(key, val) { 0 } else { w },
            }
        },
        Core::Load { .. } => 0,
        Core::Gone(_) => if k is NGone { 1 } else { 0 },
        Core::Void => 0,
    }
}
pub open spec fn amount_at<K, V, P, We: Weighter<K, V>, L: Lifecycle<K, V>>(k: Kind, we: We, li: L, cs: FMap<Token, Core<K, V, P>>, t: Token) -> nat {
    amount(k, we, li, cs.at(t))
}
pub open spec fn sum<K, V, P, We: Weighter<K, V>, L: Lifecycle<K, V>>(k: Kind, we: We, li: L, cs: FMap<Token, Core<K, V, P>>, n: int) -> nat
    decreases n + 1
{ if n < 0 { 0 } else { sum(k, we, li, cs, n - 1) + amount_at(k, we, li, cs, tok(n)) } }
pub closed spec fn tot<K, V, P, We: Weighter<K, V>, L: Lifecycle<K, V>>(k: Kind, we: We, li: L, cs: FMap<Token, Core<K, V, P>>) -> nat {
    sum(k, we, li, cs, u32::MAX as int)
}
proof fn lemma_sum_upd<K, V, P, We: Weighter<K, V>, L: Lifecycle<K, V>>(k: Kind, we: We, li: L, a: FMap<Token, Core<K, V, P>>, b: FMap<Token, Core<K, V, P>>, t: Token, n: int)
    requires -1 <= n <= u32::MAX, forall|z: Token| z != t ==> amount_at(k, we, li, a, z) == amount_at(k, we, li, b, z),
    ensures t@ <= n ==> sum(k, we, li, a, n) + amount_at(k, we, li, b, t) == sum(k, we, li, b, n) + amount_at(k, we, li, a, t),
        t@ > n ==> sum(k, we, li, a, n) == sum(k, we, li, b, n),
        t@ <= n ==> sum(k, we, li, a, n) >= amount_at(k, we, li, a, t),
    decreases n + 1
{
    if n >= 0 { lemma_sum_upd(k, we, li, a, b, t, n - 1); lemma_tok_of(t); if t@ != n { assert(tok(n) != t); } else { assert(tok(n) == t); } }
    else { lemma_tok_of(t); }
}
proof fn lemma_tok_of(t: Token) ensures 0 <= t@ <= u32::MAX {}
pub broadcast proof fn lemma_tot_put<K, V, P, We: Weighter<K, V>, L: Lifecycle<K, V>>(k: Kind, we: We, li: L, cs: FMap<Token, Core<K, V, P>>, t: Token, c: Core<K, V, P>)
    ensures #[trigger] tot(k, we, li, cs.put(t, c)) + amount(k, we, li, cs.at(t)) == tot(k, we, li, cs) + amount(k, we, li, c),
        tot(k, we, li, cs) >= amount(k, we, li, cs.at(t))
{ lemma_tok_of(t); lemma_sum_upd(k, we, li, cs, cs.put(t, c), t, u32::MAX as int); }
proof fn lemma_sum_count<K, V, P, We: Weighter<K, V>, L: Lifecycle<K, V>>(k: Kind, we: We, li: L, cs: FMap<Token, Core<K, V, P>>, n: int)
    requires n >= -1, !(k is WHot || k is WCold || k is Free)
    ensures sum(k, we, li, cs, n) <= n + 1
    decreases n + 1
{ if n >= 0 { lemma_sum_count(k, we, li, cs, n - 1); } }
pub broadcast proof fn lemma_tot_count<K, V, P, We: Weighter<K, V>, L: Lifecycle<K, V>>(k: Kind, we: We, li: L, cs: FMap<Token, Core<K, V, P>>)
    ensures !(k is WHot || k is WCold || k is Free) ==> #[trigger] tot(k, we, li, cs) <= u32::MAX + 1
{ if !(k is WHot || k is WCold || k is Free) { lemma_sum_count(k, we, li, cs, u32::MAX as int); } }
proof fn lemma_sum_zero<K, V, P, We: Weighter<K, V>, L: Lifecycle<K, V>>(k: Kind, we: We, li: L, cs: FMap<Token, Core<K, V, P>>, n: int)
    requires forall|t: Token| amount(k, we, li, #[trigger] cs.at(t)) == 0
    ensures sum(k, we, li, cs, n) == 0
    decreases n + 1
{ if n >= 0 { lemma_sum_zero(k, we, li, cs, n - 1); } }
pub open spec fn none_of<K, V, P, We: Weighter<K, V>>(we: We, cs: FMap<Token, Core<K, V, P>>, c: int) -> bool {
    forall|t: Token| cls(we, #[trigger] cs.at(t)) != c
}
pub open spec fn none_free<K, V, P, We: Weighter<K, V>, L: Lifecycle<K, V>>(we: We, li: L, cs: FMap<Token, Core<K, V, P>>) -> bool {
    forall|t: Token| amount(Kind::Free, we, li, #[trigger] cs.at(t)) == 0
}
pub broadcast proof fn lemma_tot_gone<K, V, P, We: Weighter<K, V>, L: Lifecycle<K, V>>(we: We, li: L, cs: FMap<Token, Core<K, V, P>>)
    requires #[trigger] none_of(we, cs, 3)
    ensures #[trigger] tot(Kind::NGone, we, li, cs) == 0
{ lemma_sum_zero(Kind::NGone, we, li, cs, u32::MAX as int); }
pub broadcast proof fn lemma_tot_nofree<K, V, P, We: Weighter<K, V>, L: Lifecycle<K, V>>(we: We, li: L, cs: FMap<Token, Core<K, V, P>>)
    requires #[trigger] none_free(we, li, cs)
    ensures tot(Kind::Free, we, li, cs) == 0
{ lemma_sum_zero(Kind::Free, we, li, cs, u32::MAX as int); }
pub open spec fn all_void<K, V, P>(cs: FMap<Token, Core<K, V, P>>) -> bool { forall|t: Token| (#[trigger] cs.at(t)) is Void }
pub broadcast proof fn lemma_tot_empty<K, V, P, We: Weighter<K, V>, L: Lifecycle<K, V>>(k: Kind, we: We, li: L, cs: FMap<Token, Core<K, V, P>>)
    requires #[trigger] all_void(cs)
    ensures #[trigger] tot(k, we, li, cs) == 0
{ lemma_sum_zero(k, we, li, cs, u32::MAX as int); }
proof fn lemma_sum_free<K, V, P, We: Weighter<K, V>, L: Lifecycle<K, V>>(we: We, li: L, cs: FMap<Token, Core<K, V, P>>, n: int)
    ensures sum(Kind::Free, we, li, cs, n) <= sum(Kind::WHot, we, li, cs, n) + sum(Kind::WCold, we, li, cs, n)
    decreases n + 1
{ if n >= 0 { lemma_sum_free(we, li, cs, n - 1); } }
pub broadcast proof fn lemma_tot_free<K, V, P, We: Weighter<K, V>, L: Lifecycle<K, V>>(we: We, li: L, cs: FMap<Token, Core<K, V, P>>)
    ensures #[trigger] tot(Kind::Free, we, li, cs) <= tot(Kind::WHot, we, li, cs) + tot(Kind::WCold, we, li, cs)
{ lemma_sum_free(we, li, cs, u32::MAX as int); }
pub open spec fn holds<K: Hash, V, P>(m: IMap<Token, Entry<K, V, P>>, t: Token, r: Option<&Resident<K, V>>, k: int) -> bool {
    m.dom().contains(t) && r is Some && m[t] == Entry::<K, V, P>::Resident(*r->0) && r->0.key.kid() == k
}
// ---- cores follow the slab
pub broadcast proof fn lemma_cores_insert<K, V, P>(m: IMap<Token, Entry<K, V, P>>, t: Token, e: Entry<K, V, P>)
    ensures #[trigger] cores(m.insert(t, e)) == cores(m).put(t, core(e))
{ fmap_ext(cores(m.insert(t, e)), cores(m).put(t, core(e))); }
pub broadcast proof fn lemma_cores_remove<K, V, P>(m: IMap<Token, Entry<K, V, P>>, t: Token)
    ensures #[trigger] cores(m.remove(t)) == cores(m).put(t, Core::Void)
{ fmap_ext(cores(m.remove(t)), cores(m).put(t, Core::Void)); }
pub broadcast proof fn lemma_cores_dom<K, V, P>(m: IMap<Token, Entry<K, V, P>>, t: Token)
    ensures #![trigger m.dom().contains(t), cores(m)] #![trigger m[t], cores(m)] m.dom().contains(t) <==> !(cores(m).at(t) is Void), m.dom().contains(t) ==> cores(m).at(t) == core(m[t])
{}
pub broadcast proof fn lemma_tot_ge<K, V, P, We: Weighter<K, V>, L: Lifecycle<K, V>>(k: Kind, we: We, li: L, m: IMap<Token, Entry<K, V, P>>, t: Token)
    requires m.dom().contains(t)
    ensures #[trigger] tot(k, we, li, cores(m)) >= amount(k, we, li, core(#[trigger] m[t]))
{ lemma_tok_of(t); lemma_sum_upd(k, we, li, cores(m), cores(m), t, u32::MAX as int); lemma_cores_dom(m, t); }
pub broadcast proof fn lemma_cores_empty<K, V, P>()
    ensures all_void(#[trigger] cores(IMap::<Token, Entry<K, V, P>>::empty()))
{}
// ---- user-visible contents
pub open spec fn live_at<K: Hash, V, P>(cs: FMap<Token, Core<K, V, P>>, t: Token, k: int) -> bool {
    live(cs.at(t)) && kidc(cs.at(t)) == k
}
pub closed spec fn uniq<K: Hash, V, P>(cs: FMap<Token, Core<K, V, P>>) -> bool {
    forall|t: Token, z: Token, k: int| #[trigger] live_at(cs, t, k) && #[trigger] live_at(cs, z, k) ==> t == z
}
pub closed spec fn locate<K: Hash, V, P>(cs: FMap<Token, Core<K, V, P>>, k: int) -> Token { choose|t: Token| live_at(cs, t, k) }
pub closed spec fn view_of<K: Hash, V, P>(cs: FMap<Token, Core<K, V, P>>) -> FMap<int, Cell<K, V, P>> {
    FMap::of(|k: int| if exists|t: Token| live_at(cs, t, k) { cell(cs.at(locate(cs, k))) } else { Cell::None })
}
pub proof fn lemma_view_at<K: Hash, V, P>(cs: FMap<Token, Core<K, V, P>>, t: Token)
    requires uniq(cs), live(cs.at(t))
    ensures view_of(cs).at(kidc(cs.at(t))) == cell(cs.at(t))
{ let k = kidc(cs.at(t)); assert(live_at(cs, t, k)); let z = locate(cs, k); assert(live_at(cs, z, k)); }
pub broadcast proof fn lemma_view_live<K: Hash, V, P>(cs: FMap<Token, Core<K, V, P>>, t: Token)
    requires uniq(cs), live(cs.at(t))
    ensures (#[trigger] view_of(cs)).at(kidc(#[trigger] cs.at(t))) == cell(cs.at(t))
{ lemma_view_at(cs, t); }
pub broadcast proof fn lemma_view_find<K: Hash, V, P>(cs: FMap<Token, Core<K, V, P>>, k: int)
    requires !(#[trigger] view_of(cs).at(k) is None)
    ensures live_at(cs, locate(cs, k), k) && view_of(cs).at(k) == cell(cs.at(locate(cs, k)))
{ let t = choose|t: Token| live_at(cs, t, k); assert(live_at(cs, t, k)); assert(live_at(cs, locate(cs, k), k)); }
pub closed spec fn fits<K: Hash, V, P>(cs: FMap<Token, Core<K, V, P>>, t: Token, c: Core<K, V, P>) -> bool {
    live(c) ==> forall|z: Token| z != t ==> !#[trigger] live_at(cs, z, kidc(c))
}
pub open spec fn view_put<K: Hash, V, P>(v: FMap<int, Cell<K, V, P>>, o: Core<K, V, P>, c: Core<K, V, P>) -> FMap<int, Cell<K, V, P>> {
    if live(o) && live(c) {
        if kidc(o) == kidc(c) { if cell(o) == cell(c) { v } else { v.put(kidc(c), cell(c)) } }
        else { v.put(kidc(o), Cell::None).put(kidc(c), cell(c)) }
    } else if live(o) { v.put(kidc(o), Cell::None) } else if live(c) { v.put(kidc(c), cell(c)) } else { v }
}
pub broadcast proof fn lemma_view_put<K: Hash, V, P>(cs: FMap<Token, Core<K, V, P>>, t: Token, c: Core<K, V, P>)
    requires uniq(cs), fits(cs, t, c)
    ensures #[trigger] view_of(cs.put(t, c)) == view_put(view_of(cs), cs.at(t), c)
{
    lemma_uniq_put(cs, t, c);
    let ds = cs.put(t, c);
    let o = cs.at(t);
    let v = view_of(ds);
    let w = view_put(view_of(cs), o, c);
    if live(o) { lemma_view_at(cs, t); }
    if live(c) { lemma_view_at(ds, t); }
    assert forall|k: int| #[trigger] v.at(k) == w.at(k) by {
        if live(c) && k == kidc(c) {}
        else {
            if exists|a: Token| live_at(ds, a, k) {
                let a = locate(ds, k); assert(live_at(ds, a, k)); assert(a != t); assert(live_at(cs, a, k)); lemma_view_at(cs, a); lemma_view_at(ds, a);
                if live(o) && k == kidc(o) { assert(live_at(cs, t, k)); }
            } else {
                if exists|a: Token| live_at(cs, a, k) {
                    let a = locate(cs, k); assert(live_at(cs, a, k));
                    if a != t { assert(live_at(ds, a, k)); }
                }
            }
        }
    }
    fmap_ext(v, w);
}
pub broadcast proof fn lemma_uniq_put<K: Hash, V, P>(cs: FMap<Token, Core<K, V, P>>, t: Token, c: Core<K, V, P>)
    requires uniq(cs), fits(cs, t, c)
    ensures #[trigger] uniq(cs.put(t, c))
{
    let ds = cs.put(t, c);
    assert forall|a: Token, b: Token, k: int| #[trigger] live_at(ds, a, k) && #[trigger] live_at(ds, b, k) implies a == b by {
        if a != t && b != t { assert(live_at(cs, a, k) && live_at(cs, b, k)); }
        else if a != t { assert(live_at(cs, a, kidc(c))); } else if b != t { assert(live_at(cs, b, kidc(c))); }
    }
}
pub broadcast proof fn lemma_uniq_void<K: Hash, V, P>(cs: FMap<Token, Core<K, V, P>>)
    requires #[trigger] all_void(cs) ensures uniq(cs), forall|k: int| (#[trigger] view_of(cs).at(k)) is None
{}
pub broadcast proof fn lemma_fits<K: Hash, V, P>(cs: FMap<Token, Core<K, V, P>>, t: Token, c: Core<K, V, P>)
    requires uniq(cs), !live(c) || (live(cs.at(t)) && kidc(cs.at(t)) == kidc(c)) || view_of(cs).at(kidc(c)) is None
    ensures #[trigger] fits(cs, t, c)
{
    if live(c) {
        assert forall|z: Token| z != t implies !#[trigger] live_at(cs, z, kidc(c)) by {
            if live_at(cs, z, kidc(c)) { lemma_view_at(cs, z); if live(cs.at(t)) && kidc(cs.at(t)) == kidc(c) { assert(live_at(cs, t, kidc(c))); } }
        }
    }
}
// ---- iteration
/// s lists every pair of v exactly once, and nothing else
pub open spec fn lists<K: Hash, V, P>(v: FMap<int, Cell<K, V, P>>, s: Seq<(K, V)>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> v.at((#[trigger] s[i]).0.kid()) == Cell::<K, V, P>::Val(s[i].0, s[i].1)
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && (#[trigger] s[i]).0.kid() == (#[trigger] s[j]).0.kid() ==> i == j
    &&& forall|k: int| (#[trigger] v.at(k)) is Val ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.kid() == k
}
pub open spec fn residents<K, V, P>(s: Seq<Entry<K, V, P>>, n: int) -> Seq<(K, V)> decreases n {
    if n <= 0 { Seq::empty() } else { match s[n - 1] { Entry::Resident(r) => residents(s, n - 1).push((r.key, r.value)), _ => residents(s, n - 1) } }
}
pub open spec fn stored<K, V, P>(m: IMap<Token, Entry<K, V, P>>, toks: Seq<Token>) -> Seq<Entry<K, V, P>> { toks.map_values(|t: Token| m[t]) }
pub open spec fn res_kid<K: Hash, V, P>(e: Entry<K, V, P>, k: int) -> bool { match e { Entry::Resident(r) => r.key.kid() == k, _ => false } }
pub open spec fn among<K: Hash, V, P>(m: IMap<Token, Entry<K, V, P>>, toks: Seq<Token>, n: int, k: int) -> bool { exists|j: int| 0 <= j < n && #[trigger] res_kid(m[toks[j]], k) }
pub open spec fn yields<K: Hash, V>(s: Seq<(K, V)>, k: int) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.kid() == k }
proof fn lemma_residents_n<K: Hash, V, P>(m: IMap<Token, Entry<K, V, P>>, toks: Seq<Token>, n: int)
    requires uniq(cores(m)), toks.no_duplicates(), forall|t: Token| #[trigger] toks.contains(t) <==> m.dom().contains(t), 0 <= n <= toks.len()
    ensures
        forall|i: int| 0 <= i < residents(stored(m, toks), n).len() ==> view_of(cores(m)).at((#[trigger] residents(stored(m, toks), n)[i]).0.kid()) == Cell::<K, V, P>::Val(residents(stored(m, toks), n)[i].0, residents(stored(m, toks), n)[i].1),
        forall|k: int| #[trigger] yields(residents(stored(m, toks), n), k) <==> among(m, toks, n, k),
        forall|i: int, j: int| 0 <= i < residents(stored(m, toks), n).len() && 0 <= j < residents(stored(m, toks), n).len() && (#[trigger] residents(stored(m, toks), n)[i]).0.kid() == (#[trigger] residents(stored(m, toks), n)[j]).0.kid() ==> i == j,
    decreases n
{
    let s = residents(stored(m, toks), n);
    if n > 0 {
        lemma_residents_n(m, toks, n - 1);
        let p = residents(stored(m, toks), n - 1);
        let t = toks[n - 1];
        assert(toks.contains(t));
        lemma_cores_dom(m, t);
        assert(stored(m, toks)[n - 1] == m[t]);
        match m[t] {
            Entry::Resident(r) => {
                let k0 = r.key.kid();
                assert(s == p.push((r.key, r.value)));
                assert(live_at(cores(m), t, k0));
                lemma_view_at(cores(m), t);
                assert(!among(m, toks, n - 1, k0)) by {
                    if among(m, toks, n - 1, k0) {
                        let j = choose|j: int| 0 <= j < n - 1 && #[trigger] res_kid(m[toks[j]], k0);
                        assert(toks.contains(toks[j])); lemma_cores_dom(m, toks[j]);
                        assert(live_at(cores(m), toks[j], k0));
                    }
                }
                assert(!yields(p, k0));
                assert(res_kid(m[toks[n - 1]], k0));
                assert(s[s.len() - 1] == (r.key, r.value));
                assert forall|k: int| #[trigger] yields(s, k) <==> among(m, toks, n, k) by {
                    assert(yields(p, k) <==> among(m, toks, n - 1, k));
                    if yields(s, k) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.kid() == k; if i < p.len() { assert(p[i].0.kid() == k); let j = choose|j: int| 0 <= j < n - 1 && #[trigger] res_kid(m[toks[j]], k); assert(res_kid(m[toks[j]], k)); } }
                    if among(m, toks, n, k) { let j = choose|j: int| 0 <= j < n && #[trigger] res_kid(m[toks[j]], k); if j < n - 1 { assert(among(m, toks, n - 1, k)); let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0.kid() == k; assert(s[i] == p[i]); } }
                }
                assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && (#[trigger] s[i]).0.kid() == (#[trigger] s[j]).0.kid() implies i == j by {
                    if i < p.len() { assert(s[i] == p[i]); assert(yields(p, p[i].0.kid())); } if j < p.len() { assert(s[j] == p[j]); assert(yields(p, p[j].0.kid())); }
                }
                assert forall|i: int| 0 <= i < s.len() implies view_of(cores(m)).at((#[trigger] s[i]).0.kid()) == Cell::<K, V, P>::Val(s[i].0, s[i].1) by {
                    if i < p.len() { assert(s[i] == p[i]); }
                }
            },
            _ => {
                assert(s == p);
                assert forall|k: int| #[trigger] yields(s, k) <==> among(m, toks, n, k) by {
                    assert(yields(p, k) <==> among(m, toks, n - 1, k));
                    if among(m, toks, n - 1, k) { let j = choose|j: int| 0 <= j < n - 1 && #[trigger] res_kid(m[toks[j]], k); assert(res_kid(m[toks[j]], k)); }
                    if among(m, toks, n, k) { let j = choose|j: int| 0 <= j < n && #[trigger] res_kid(m[toks[j]], k); assert(j != n - 1); assert(among(m, toks, n - 1, k)); }
                }
            },
        }
    } else {
        assert(s.len() == 0);
        assert forall|k: int| #[trigger] yields(s, k) <==> among(m, toks, n, k) by {}
    }
}
pub proof fn lemma_residents<K: Hash, V, P>(m: IMap<Token, Entry<K, V, P>>, toks: Seq<Token>)
    requires uniq(cores(m)), toks.no_duplicates(), forall|t: Token| #[trigger] toks.contains(t) <==> m.dom().contains(t)
    ensures lists(view_of(cores(m)), residents(stored(m, toks), toks.len() as int))
{
    lemma_residents_n(m, toks, toks.len() as int);
    let s = residents(stored(m, toks), toks.len() as int);
    assert forall|k: int| (#[trigger] view_of(cores(m)).at(k)) is Val implies exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.kid() == k by {
        lemma_view_find(cores(m), k);
        let t = locate(cores(m), k);
        lemma_cores_dom(m, t);
        assert(toks.contains(t));
        let j = choose|j: int| 0 <= j < toks.len() && toks[j] == t;
        assert(res_kid(m[toks[j]], k));
        assert(among(m, toks, toks.len() as int, k));
        assert(yields(s, k));
    }
}
// ---- retain
pub open spec fn keeps<K, V, F: Fn(&K, &V) -> bool>(f: F, k: K, v: V) -> bool { f.ensures((&k, &v), true) }
/// assumption on user code: the predicate is total and a function of the pair
pub open spec fn is_predicate<K, V, F: Fn(&K, &V) -> bool>(f: F) -> bool {
    &&& forall|k: K, v: V| #[trigger] f.requires((&k, &v))
    &&& forall|k: K, v: V, b: bool| #[trigger] f.ensures((&k, &v), b) ==> b == keeps(f, k, v)
}
pub open spec fn doomed<K, V, P, F: Fn(&K, &V) -> bool>(f: F, c: Core<K, V, P>) -> bool { match c { Core::Res { key, val, .. } => !keeps(f, key, val), _ => false } }
pub open spec fn sifted<K, V, P, F: Fn(&K, &V) -> bool>(f: F, a: FMap<int, Cell<K, V, P>>, b: FMap<int, Cell<K, V, P>>) -> bool {
    forall|k: int| #[trigger] b.at(k) == match a.at(k) { Cell::Val(key, val) => if keeps(f, key, val) { a.at(k) } else { Cell::None }, c => c }
}
pub open spec fn sweep<K, V, P>(cs: FMap<Token, Core<K, V, P>>, l: Seq<(Token, u64)>, n: int) -> FMap<Token, Core<K, V, P>> decreases n {
    if n <= 0 { cs } else { sweep(cs, l, n - 1).put(l[n - 1].0, Core::Void) }
}
pub open spec fn on_list(l: Seq<(Token, u64)>, n: int, t: Token) -> bool { exists|i: int| 0 <= i < n && (#[trigger] l[i]).0 == t }
pub proof fn lemma_sweep<K, V, P>(cs: FMap<Token, Core<K, V, P>>, l: Seq<(Token, u64)>, n: int)
    ensures forall|t: Token| (#[trigger] sweep(cs, l, n).at(t)) == if on_list(l, n, t) { Core::Void } else { cs.at(t) }
    decreases n
{
    if n > 0 {
        lemma_sweep(cs, l, n - 1);
        assert forall|t: Token| (#[trigger] sweep(cs, l, n).at(t)) == if on_list(l, n, t) { Core::Void } else { cs.at(t) } by {
            assert(sweep(cs, l, n - 1).at(t) == if on_list(l, n - 1, t) { Core::Void } else { cs.at(t) });
            if on_list(l, n - 1, t) { let i = choose|i: int| 0 <= i < n - 1 && (#[trigger] l[i]).0 == t; assert(l[i].0 == t); assert(on_list(l, n, t)); }
            if l[n - 1].0 == t { assert(on_list(l, n, t)); }
            if on_list(l, n, t) { let i = choose|i: int| 0 <= i < n && (#[trigger] l[i]).0 == t; if i < n - 1 { assert(l[i].0 == t); assert(on_list(l, n - 1, t)); } }
        }
    }
}
pub broadcast proof fn lemma_sweep_at<K, V, P>(cs: FMap<Token, Core<K, V, P>>, l: Seq<(Token, u64)>, n: int, t: Token)
    ensures (#[trigger] sweep(cs, l, n).at(t)) == if on_list(l, n, t) { Core::Void } else { cs.at(t) }
{ lemma_sweep(cs, l, n); }
/// the tokens (with hashes) to remove among the first n of o
pub open spec fn doomed_list<K: Hash, V, P, B: BuildHasher, F: Fn(&K, &V) -> bool>(f: F, hb: B, cs: FMap<Token, Core<K, V, P>>, o: Seq<Token>, n: int) -> Seq<(Token, u64)> decreases n {
    if n <= 0 { Seq::empty() } else if doomed(f, cs.at(o[n - 1])) { doomed_list(f, hb, cs, o, n - 1).push((o[n - 1], ehash(hb, cs.at(o[n - 1])))) } else { doomed_list(f, hb, cs, o, n - 1) }
}
pub open spec fn good_list<K: Hash, V, P, B: BuildHasher, F: Fn(&K, &V) -> bool>(f: F, hb: B, cs: FMap<Token, Core<K, V, P>>, l: Seq<(Token, u64)>) -> bool {
    &&& forall|i: int| 0 <= i < l.len() ==> doomed(f, cs.at((#[trigger] l[i]).0)) && l[i].1 == ehash(hb, cs.at(l[i].0))
    &&& forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() && (#[trigger] l[i]).0 == (#[trigger] l[j]).0 ==> i == j
}
pub proof fn lemma_doomed_list<K: Hash, V, P, B: BuildHasher, F: Fn(&K, &V) -> bool>(f: F, hb: B, cs: FMap<Token, Core<K, V, P>>, o: Seq<Token>, n: int)
    requires o.no_duplicates(), 0 <= n <= o.len()
    ensures good_list(f, hb, cs, doomed_list(f, hb, cs, o, n)),
        forall|t: Token| #[trigger] on_list(doomed_list(f, hb, cs, o, n), doomed_list(f, hb, cs, o, n).len() as int, t) <==> doomed(f, cs.at(t)) && exists|j: int| 0 <= j < n && #[trigger] o[j] == t,
    decreases n
{
    let l = doomed_list(f, hb, cs, o, n);
    if n > 0 {
        lemma_doomed_list(f, hb, cs, o, n - 1);
        let p = doomed_list(f, hb, cs, o, n - 1);
        let z = o[n - 1];
        assert(!on_list(p, p.len() as int, z));
        assert forall|i: int| 0 <= i < p.len() implies (#[trigger] l[i]) == p[i] && l[i].0 != z by { assert(on_list(p, p.len() as int, p[i].0)); }
        if doomed(f, cs.at(z)) { assert(l[l.len() - 1].0 == z); }
        assert forall|t: Token| #[trigger] on_list(l, l.len() as int, t) <==> doomed(f, cs.at(t)) && exists|j: int| 0 <= j < n && #[trigger] o[j] == t by {
            assert(on_list(p, p.len() as int, t) <==> doomed(f, cs.at(t)) && exists|j: int| 0 <= j < n - 1 && #[trigger] o[j] == t);
            if on_list(p, p.len() as int, t) { let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0 == t; assert(l[i].0 == t); }
            if on_list(l, l.len() as int, t) { let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == t; if i < p.len() { assert(p[i].0 == t); } }
        }
    }
}
pub proof fn lemma_sifted<K: Hash, V, P, F: Fn(&K, &V) -> bool>(f: F, a: FMap<Token, Core<K, V, P>>, b: FMap<Token, Core<K, V, P>>)
    requires uniq(a), uniq(b), forall|t: Token| (#[trigger] b.at(t)) == if doomed(f, a.at(t)) { Core::Void } else { a.at(t) }
    ensures sifted(f, view_of(a), view_of(b))
{
    assert forall|k: int| #[trigger] view_of(b).at(k) == match view_of(a).at(k) { Cell::Val(key, val) => if keeps(f, key, val) { view_of(a).at(k) } else { Cell::None }, c => c } by {
        if !(view_of(a).at(k) is None) {
            lemma_view_find(a, k);
            let t = locate(a, k);
            let _ = b.at(t);
            if doomed(f, a.at(t)) {
                if !(view_of(b).at(k) is None) { lemma_view_find(b, k); let z = locate(b, k); let _ = b.at(z); assert(live_at(a, z, k)); assert(z == t); }
            } else { lemma_view_at(b, t); }
        } else if !(view_of(b).at(k) is None) {
            lemma_view_find(b, k); let z = locate(b, k); let _ = b.at(z); assert(live_at(a, z, k)); lemma_view_at(a, z);
        }
    }
}
pub broadcast group group_shard {
    lemma_fits, lemma_uniq_put, lemma_uniq_void, lemma_view_put, lemma_view_live, lemma_view_find,
    lemma_tot_put, lemma_tot_ge, lemma_tot_count, lemma_tot_gone, lemma_tot_nofree, lemma_tot_empty, lemma_tot_free,
    lemma_cores_insert, lemma_cores_remove, lemma_cores_dom, lemma_cores_empty,
    lemma_replay_push, lemma_replay_absent, lemma_replay_frame, axiom_table_order, lemma_victim, lemma_sweep_at, lemma_least_used,
}
// ------------------------------------------------------------------ ledger: what the lifecycle hooks were told, replayed on the contents
/// Replays the events log[n0..] on the contents c0. Defined only if every event is legal:
/// `Before` names a resident pair; `Evict` follows the `Before` of the same key
/// immediately, with the value that left it, and only if that value still has weight.
pub open spec fn step<K: Hash, V, P, We: Weighter<K, V>, L: Lifecycle<K, V>>(we: We, li: L, s: Option<(FMap<int, Cell<K, V, P>>, Option<int>)>, e: Ev<K, V>) -> Option<(FMap<int, Cell<K, V, P>>, Option<int>)> {
    match s {
        None => None,
        Some((v, pend)) => match e {
            Ev::Before { key, old, new } =>
                if pend is None && v.at(key.kid()) == Cell::<K, V, P>::Val(key, old) {
                    Some((v.put(key.kid(), Cell::Val(key, new)), if we.wspec(key, new) == 0 { None } else { Some(key.kid()) }))
                } else { None },
            Ev::Evict { key, val } =>
                if pend == Some(key.kid()) && v.at(key.kid()) == Cell::<K, V, P>::Val(key, val) {
                    Some((v.put(key.kid(), Cell::None), None))
                } else { None },
        },
    }
}
pub open spec fn replay<K: Hash, V, P, We: Weighter<K, V>, L: Lifecycle<K, V>>(we: We, li: L, c0: FMap<int, Cell<K, V, P>>, n0: int, log: Seq<Ev<K, V>>) -> Option<(FMap<int, Cell<K, V, P>>, Option<int>)>
    decreases log.len()
{
    if log.len() == 0 || log.len() <= n0 { Some((c0, None)) } else { step(we, li, replay(we, li, c0, n0, log.drop_last()), log.last()) }
}
pub broadcast proof fn lemma_replay_push<K: Hash, V, P, We: Weighter<K, V>, L: Lifecycle<K, V>>(we: We, li: L, c0: FMap<int, Cell<K, V, P>>, n0: int, log: Seq<Ev<K, V>>, e: Ev<K, V>)
    requires 0 <= n0 <= log.len()
    ensures #[trigger] replay(we, li, c0, n0, log.push(e)) == step(we, li, replay(we, li, c0, n0, log), e)
{ assert(log.push(e).drop_last() =~= log); }
/// events never concern a key that is absent
pub proof fn lemma_replay_key<K: Hash, V, P, We: Weighter<K, V>, L: Lifecycle<K, V>>(we: We, li: L, c0: FMap<int, Cell<K, V, P>>, n0: int, log: Seq<Ev<K, V>>, k: int, x: Cell<K, V, P>)
    requires c0.at(k) is None, replay(we, li, c0, n0, log) is Some
    ensures ({ let (w, p) = replay(we, li, c0, n0, log)->0;
        w.at(k) is None && p != Some(k) && replay(we, li, c0.put(k, x), n0, log) == Some((w.put(k, x), p)) })
    decreases log.len()
{
    if log.len() == 0 || log.len() <= n0 {}
    else {
        lemma_replay_key(we, li, c0, n0, log.drop_last(), k, x);
        let (w, p) = replay(we, li, c0, n0, log.drop_last())->0;
        match log.last() {
            Ev::Before { key, old, new } => { lemma_put_comm(w, k, x, key.kid(), Cell::Val(key, new)); },
            Ev::Evict { key, val } => { lemma_put_comm(w, k, x, key.kid(), Cell::None); },
        }
    }
}
pub broadcast proof fn lemma_replay_absent<K: Hash, V, P, We: Weighter<K, V>, L: Lifecycle<K, V>>(we: We, li: L, c0: FMap<int, Cell<K, V, P>>, n0: int, log: Seq<Ev<K, V>>, k: int)
    requires c0.at(k) is None, replay(we, li, c0, n0, log) is Some
    ensures #![trigger replay(we, li, c0, n0, log), c0.at(k)] (replay(we, li, c0, n0, log)->0).0.at(k) is None
{ lemma_replay_key(we, li, c0, n0, log, k, Cell::None); }
pub broadcast proof fn lemma_replay_frame<K: Hash, V, P, We: Weighter<K, V>, L: Lifecycle<K, V>>(we: We, li: L, c0: FMap<int, Cell<K, V, P>>, n0: int, log: Seq<Ev<K, V>>, k: int, x: Cell<K, V, P>)
    requires c0.at(k) is None, replay(we, li, c0, n0, log) is Some
    ensures #[trigger] replay(we, li, c0.put(k, x), n0, log) == Some(((replay(we, li, c0, n0, log)->0).0.put(k, x), (replay(we, li, c0, n0, log)->0).1))
{ lemma_replay_key(we, li, c0, n0, log, k, x); }
pub open spec fn extends<K, V>(a: Seq<Ev<K, V>>, b: Seq<Ev<K, V>>) -> bool {
    a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i]
}
/// pinned and weightless pairs of a are in b
pub open spec fn kept<K: Hash, V, P, We: Weighter<K, V>, L: Lifecycle<K, V>>(we: We, li: L, a: FMap<int, Cell<K, V, P>>, b: FMap<int, Cell<K, V, P>>) -> bool {
    forall|k: int| (match a.at(k) { Cell::Val(key, val) => li.pinned(key, val) || we.wspec(key, val) == 0, _ => false }) ==> #[trigger] b.at(k) == a.at(k)
}
/// no slot came to hold a pair of another key
pub open spec fn steady<K: Hash, V, P>(a: FMap<Token, Core<K, V, P>>, b: FMap<Token, Core<K, V, P>>) -> bool {
    forall|t: Token| live(#[trigger] b.at(t)) ==> live(a.at(t)) && kidc(a.at(t)) == kidc(b.at(t))
}
// ------------------------------------------------------------------ termination of the clock hands
pub open spec fn pinned_at<K, V, P, L: Lifecycle<K, V>>(li: L, cs: FMap<Token, Core<K, V, P>>, t: Token) -> bool {
    match cs.at(t) { Core::Res { key, val, .. } => li.pinned(key, val), _ => true }
}
/// refs left of an entry, capped
pub open spec fn rank<K, V, P>(e: Entry<K, V, P>) -> int {
    match e { Entry::Resident(r) => if r.referenced.v < 2 { r.referenced.v as int } else { 2 }, _ => 0 }
}
pub open spec fn can_evict<K, V, P, L: Lifecycle<K, V>>(li: L, nx: IMap<Token, Token>, cs: FMap<Token, Core<K, V, P>>, h: Token, t: Token) -> bool {
    same_ring(nx, h, t) && !pinned_at(li, cs, t)
}
pub open spec fn victim<K, V, P, L: Lifecycle<K, V>>(li: L, nx: IMap<Token, Token>, cs: FMap<Token, Core<K, V, P>>, h: Token) -> Token { choose|z: Token| can_evict(li, nx, cs, h, z) }
/// steps the hand at t may still take before it finds a victim or has seen the whole list
pub open spec fn steps<K, V, P, L: Lifecycle<K, V>>(li: L, nx: IMap<Token, Token>, m: IMap<Token, Entry<K, V, P>>, cs: FMap<Token, Core<K, V, P>>, h: Token, t: Token) -> int {
    let z = victim(li, nx, cs, h);
    let n = size(nx, h);
    if can_evict(li, nx, cs, h, z) {
        (if rank(m[z]) == 0 { 0 } else if rank(m[z]) == 1 { n } else { n + n }) + place(nx, h, z) - place(nx, h, t) + (if place(nx, h, t) <= place(nx, h, z) { 0 } else { n })
    } else { n - place(nx, h, t) }
}
pub broadcast proof fn lemma_victim<K, V, P, L: Lifecycle<K, V>>(li: L, nx: IMap<Token, Token>, cs: FMap<Token, Core<K, V, P>>, h: Token, t: Token)
    requires #[trigger] same_ring(nx, h, t), !pinned_at(li, cs, t)
    ensures can_evict(li, nx, cs, h, #[trigger] victim(li, nx, cs, h))
{ assert(can_evict(li, nx, cs, h, t)); }
// ------------------------------------------------------------------ use counts
/// how far z was counted down, in whole turns of the hand, which is at t
pub open spec fn lag<K, V, P>(nx: IMap<Token, Token>, m0: IMap<Token, Entry<K, V, P>>, m: IMap<Token, Entry<K, V, P>>, h: Token, t: Token, z: Token) -> int {
    rank(m0[z]) - rank(m[z]) - (if place(nx, h, z) < place(nx, h, t) { 1int } else { 0int })
}
/// all candidates were counted down equally often
pub open spec fn in_step<K, V, P, L: Lifecycle<K, V>>(li: L, nx: IMap<Token, Token>, cs: FMap<Token, Core<K, V, P>>, m0: IMap<Token, Entry<K, V, P>>, m: IMap<Token, Entry<K, V, P>>, h: Token, t: Token) -> bool {
    forall|z: Token| #[trigger] can_evict(li, nx, cs, h, z) ==> lag(nx, m0, m, h, t, z) >= 0 && lag(nx, m0, m, h, t, z) == lag(nx, m0, m, h, t, victim(li, nx, cs, h))
}
/// t is a candidate used least
pub open spec fn least_used<K, V, P, L: Lifecycle<K, V>>(li: L, nx: IMap<Token, Token>, cs: FMap<Token, Core<K, V, P>>, m: IMap<Token, Entry<K, V, P>>, h: Token, t: Token) -> bool {
    can_evict(li, nx, cs, h, t) && forall|z: Token| #[trigger] can_evict(li, nx, cs, h, z) ==> rank(m[t]) <= rank(m[z])
}
pub broadcast proof fn lemma_least_used<K, V, P, L: Lifecycle<K, V>>(li: L, nx: IMap<Token, Token>, cs: FMap<Token, Core<K, V, P>>, m0: IMap<Token, Entry<K, V, P>>, m: IMap<Token, Entry<K, V, P>>, h: Token, t: Token)
    requires #[trigger] in_step(li, nx, cs, m0, m, h, t), can_evict(li, nx, cs, h, t), rank(m[t]) == 0
    ensures least_used(li, nx, cs, m0, h, t)
{
    assert forall|z: Token| #[trigger] can_evict(li, nx, cs, h, z) implies rank(m0[t]) <= rank(m0[z]) by {}
}
/// no resident other than t, of those asked for, changed
pub open spec fn others_stay<K, V, P>(a: FMap<Token, Core<K, V, P>>, b: FMap<Token, Core<K, V, P>>, t: Token, hot_too: bool) -> bool {
    forall|z: Token| z != t && a.at(z) is Res && (hot_too || !a.at(z)->Res_hot) ==> #[trigger] b.at(z) == a.at(z)
}
/// the pair of the key is hot, if there is one
pub open spec fn hot_only<K: Hash, V, P>(cs: FMap<Token, Core<K, V, P>>, k: int) -> bool { forall|t: Token| (#[trigger] cs.at(t)) is Res && kidc(cs.at(t)) == k ==> cs.at(t)->Res_hot }
pub broadcast proof fn lemma_hot_only<K: Hash, V, P>(cs: FMap<Token, Core<K, V, P>>, t: Token, k: int)
    requires uniq(cs), (#[trigger] cs.at(t)) is Res, kidc(cs.at(t)) == k, cs.at(t)->Res_hot
    ensures #[trigger] hot_only(cs, k)
{
    assert(live_at(cs, t, k));
    assert forall|z: Token| (#[trigger] cs.at(z)) is Res && kidc(cs.at(z)) == k implies cs.at(z)->Res_hot by { assert(live_at(cs, z, k)); }
}
pub broadcast proof fn lemma_slot<K: Hash, V, P>(cs: FMap<Token, Core<K, V, P>>, t: Token, k: int)
    requires uniq(cs), live(#[trigger] cs.at(t)), kidc(cs.at(t)) == k
    ensures #[trigger] locate(cs, k) == t
{ assert(live_at(cs, t, k)); assert(live_at(cs, locate(cs, k), k)); }
/// an evicted key with this hash is remembered
#[verifier::opaque]
pub open spec fn remembers<K, V, P>(cs: FMap<Token, Core<K, V, P>>, h: u64) -> bool { exists|t: Token| #[trigger] cs.at(t) == Core::<K, V, P>::Gone(h) }
pub broadcast proof fn lemma_remembers<K, V, P>(cs: FMap<Token, Core<K, V, P>>, t: Token, h: u64)
    requires #[trigger] cs.at(t) == Core::<K, V, P>::Gone(h) ensures #[trigger] remembers(cs, h)
{ reveal(remembers); }
