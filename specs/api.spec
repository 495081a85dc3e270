@@module api
@@file lib.rs
@@text
use vstd::prelude::*;
use crate::prelude::*;
use crate::shardprel::*;
@@trait Weighter
@text
/// assumption on user code: the weight is a function of the pair
spec fn wspec(&self, key: Key, val: Val) -> u64;
@fn weight
@ret r
@ensures
    r == self.wspec(*key, *val), // [C02] (of the weighter that comes with the crate) every pair weighs one
@@trait Lifecycle
@text
/// assumption on user code: pinning is a function of the pair; the hooks record what they were told
spec fn pinned(&self, key: Key, val: Val) -> bool;
/// the request was ended with this state
spec fn ended(&self, rs: Self::RequestState) -> bool;
spec fn log(rs: Self::RequestState) -> Seq<Ev<Key, Val>>;
@fn is_pinned
@ret r
@ensures
    r == self.pinned(*key, *val),
@fn begin_request
@ret r
@ensures
    Self::log(r) == Seq::<Ev<Key, Val>>::empty(),
@fn before_evict
@ensures
    Self::log(*final(state)) == Self::log(*old(state)).push(Ev::Before { key: *key, old: *old(val), new: *final(val) }),
@fn on_evict
@ensures
    Self::log(*final(state)) == Self::log(*old(state)).push(Ev::Evict { key, val }),
@fn end_request
@ensures
    self.ended(state),
@@item UnitWeighter
@@fn <Weighter for UnitWeighter>::weight
@impl_text
    /// every pair weighs one
    open spec fn wspec(&self, key: Key, val: Val) -> u64 { 1 }
