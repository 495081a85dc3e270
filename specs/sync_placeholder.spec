@@module sync_placeholder
@@file sync_placeholder.rs
@@text
use vstd::prelude::*;
use std::sync::Arc;
use crate::prelude::*;
use crate::shardprel::*;
use crate::api::*;
use crate::theory::*;
use crate::shardinv::*;
use crate::syncprel::*;
@@item SharedPlaceholder
@@item Placeholder
@@item State
@@item LoadingState
@@item TaskWaiter
@@item SharedTaskWaiter
@@item Waiter
@@item PlaceholderGuard
@@item GuardResult
@@item JoinFuture
@@text
broadcast use {group_shard, group_fmap, axiom_arc_id};
impl Guarded for TaskWaiter {
    type Cfg = ();
    open spec fn cfg(&self) -> () { () }
    open spec fn is_shard() -> bool { false }
    open spec fn sound(&self) -> bool { true }
    open spec fn roomy(&self) -> bool { true }
}
pub type Shard<Key, Val, We, B, L> = CacheShard<Key, Val, We, B, L, SharedPlaceholder<Val>>;
/// a guard whose value was stored must not also give the load up
pub fn check_used(b: bool)
    requires b, // [C16] storing the value settles the load: dropping the guard does nothing more
{}
impl<'a, Key: Hash, Val: Clone, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>> PlaceholderGuard<'a, Key, Val, We, B, L> {
    /// one request of the shard's lock, writing the log l (if that is known), put `value` in place of the guard's placeholder if the load is still wanted, and else handed it back
    pub open spec fn stored(self, value: Val, r: Result<(), Val>, l: Option<Seq<Ev<Key, Val>>>) -> bool {
        exists|a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>, r0: Result<(), Val>, l0: Seq<Ev<Key, Val>>, l1: Seq<Ev<Key, Val>>| #![trigger wrote(*self.shard, a, b), b.plh_over(a, self.shared, value, r0, l0, l1)]
        wrote(*self.shard, a, b) && b.inv() && b.same_cfg(a) && l0 == Seq::<Ev<Key, Val>>::empty() && r == r0 && (l is Some ==> l->0 == l1) && b.plh_over(a, self.shared, value, r0, l0, l1)
        && b.plh_asked(a, self.shared, value, r0, l0, l1) && b.plh_admit(a, self.shared, value, r0, l0, l1) && b.plh_account(a, self.shared, value, r0, l0, l1) && b.plh_keep(a, self.shared, value, r0, l0, l1) && b.plh_room(a, self.shared, value, r0, l0, l1)
    }
    /// the value went to the section it belongs to, and counts as used if somebody waited for it
    pub open spec fn placed(self, value: Val) -> bool {
        exists|s: State<Val>, t: State<Val>, a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>, used: bool, l0: Seq<Ev<Key, Val>>, l1: Seq<Ev<Key, Val>>| #![trigger wrote(self.shared.state, s, t), b.plh_place(a, self.shared, used, value, l0, l1)]
        wrote(self.shared.state, s, t) && t.loading == LoadingState::<Val>::Inserted(value) && wrote(*self.shard, a, b) && l0 == Seq::<Ev<Key, Val>>::empty() && b.plh_place(a, self.shared, used, value, l0, l1) && used == (s.waiters@.len() > 0)
    }
    /// the locks of the guard may be taken
    pub open spec fn ready(self) -> bool {
        &&& may_write(*self.shard) && may_write(self.shared.state) && forall|l: RwLock<TaskWaiter>| #[trigger] may_write(l)
    }
}
/// the waiter enlisted itself during this operation, as the load was going on
pub open spec fn enlisted<Val>(p: SharedPlaceholder<Val>, w: Waiter) -> bool { exists|s: State<Val>, t: State<Val>| #[trigger] wrote(p.state, s, t) && s.loading is Loading && t.waiters@ == s.waiters@.push(w) }
/// in one critical section of this operation the key had neither a value nor a load, and this placeholder was made for it
pub open spec fn created<Key: Hash, Val: Clone, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>>(l: RwLock<Shard<Key, Val, We, B, L>>, k: int, p: SharedPlaceholder<Val>) -> bool {
    exists|a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>| #[trigger] wrote(l, a, b) && b.inv() && b.same_cfg(a) && a.view().at(k) is None && b.view().at(k) is Load && arc_id(b.view().at(k)->Load_0) == arc_id(p) && b.view() == a.view().put(k, b.view().at(k))
}
/// in one critical section of this operation the key was being loaded, for this placeholder
pub open spec fn joined<Key: Hash, Val: Clone, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>>(l: RwLock<Shard<Key, Val, We, B, L>>, k: int, p: SharedPlaceholder<Val>) -> bool {
    exists|a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>| #[trigger] wrote(l, a, b) && b.inv() && b.cs() == a.cs() && a.view().at(k) is Load && arc_id(a.view().at(k)->Load_0) == arc_id(p)
}
pub open spec fn joined_when<Key: Hash, Val: Clone, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>>(l: RwLock<Shard<Key, Val, We, B, L>>, k: int, p: SharedPlaceholder<Val>, now: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>) -> bool {
    exists|a: Shard<Key, Val, We, B, L>| #[trigger] wrote(l, a, b) && now.inv() && now.cs() == a.cs() && a.view().at(k) is Load && arc_id(a.view().at(k)->Load_0) == arc_id(p)
}
/// the same, while that critical section may still be going on
pub open spec fn found<Key: Hash, Val: Clone, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>>(l: RwLock<Shard<Key, Val, We, B, L>>, k: int, p: SharedPlaceholder<Val>) -> bool {
    exists|a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>| #[trigger] wrote(l, a, b) && a.view().at(k) is Load && arc_id(a.view().at(k)->Load_0) == arc_id(p)
}
/// a hit was counted if the key had a value or a load, else a miss
pub open spec fn tallied<Key: Hash, Val: Clone, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>>(l: RwLock<Shard<Key, Val, We, B, L>>, k: int) -> bool {
    exists|a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>| #[trigger] wrote(l, a, b) && if a.view().at(k) is None { b.tallies(a, 0, 1) } else { b.tallies(a, 1, 0) }
}
pub open spec fn tallied_when<Key: Hash, Val: Clone, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>>(l: RwLock<Shard<Key, Val, We, B, L>>, k: int, now: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>) -> bool {
    exists|a: Shard<Key, Val, We, B, L>| #[trigger] wrote(l, a, b) && if a.view().at(k) is None { now.tallies(a, 0, 1) } else { now.tallies(a, 1, 0) }
}
/// this operation has the turn to load: it made the placeholder, or it waited and was told, and the load is still to be done
pub open spec fn turn<Val>(p: SharedPlaceholder<Val>) -> bool {
    made(arc_id(p)) || (exists|w: Waiter| #[trigger] enlisted(p, w) && w.heard()) && ((exists|s: State<Val>| #[trigger] seen(p.state, s) && s.loading is Loading) || (exists|s: State<Val>, t: State<Val>| #[trigger] wrote(p.state, s, t) && t == s && s.loading is Loading))
}
// ------------------------------------------------------------------ what the operations rely on of each other (assumed; explored by schedules)
/// nobody else settles a load while this operation has the turn
#[verifier::external_body]
pub broadcast proof fn rely_turn<Val>(p: SharedPlaceholder<Val>, s: State<Val>, t: State<Val>)
    requires #[trigger] turn(p), #[trigger] wrote(p.state, s, t) ensures s.loading is Loading {}
/// a waiter that was told does not find the load forgotten
#[verifier::external_body]
pub broadcast proof fn rely_told<Val>(p: SharedPlaceholder<Val>, w: Waiter, s: State<Val>)
    requires #[trigger] enlisted(p, w), w.heard(), #[trigger] seen(p.state, s) ensures !(s.loading is Terminated) {}
/// whoever finds a load in the shard, and still holds its lock, does not find it forgotten
#[verifier::external_body]
pub broadcast proof fn rely_found<Key: Hash, Val: Clone, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>>(l: RwLock<Shard<Key, Val, We, B, L>>, a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>, k: int, p: SharedPlaceholder<Val>, s: State<Val>, t: State<Val>)
    requires #[trigger] wrote(l, a, b), (#[trigger] a.view().at(k)) is Load, arc_id(a.view().at(k)->Load_0) == arc_id(p), #[trigger] wrote(p.state, s, t) ensures !(s.loading is Terminated) {}
/// a thread whose flag is still unset after it locked the state is listed in it (flags are set, and listed threads struck off, together and with the state locked)
#[verifier::external_body]
pub broadcast proof fn rely_listed<Val>(p: SharedPlaceholder<Val>, n: Arc<AtomicBool>, s: State<Val>, t: State<Val>, t1: int, t2: int)
    requires #[trigger] enlisted(p, Waiter::Thread(thread::me(), n)), #[trigger] locked_at(p.state, s, t, t1), #[trigger] unflagged(*n, t2), t1 < t2 ensures listed(s, thread::me().tid()) {}
/// the future is not being polled
pub uninterp spec fn idle(w: SharedTaskWaiter) -> bool;
/// the same for a task, unless it is just being polled
#[verifier::external_body]
pub broadcast proof fn rely_task<Val>(p: SharedPlaceholder<Val>, w: SharedTaskWaiter, s: State<Val>, t: State<Val>, a: TaskWaiter, t1: int, t2: int)
    requires #[trigger] enlisted(p, Waiter::Task(w)), idle(w), #[trigger] locked_at(p.state, s, t, t1), #[trigger] seen_at(*w, a, t2), !a.notified, t1 < t2 ensures task_listed(s, w) {}
pub open spec fn task_listed<Val>(s: State<Val>, w: SharedTaskWaiter) -> bool { exists|i: int| 0 <= i < s.waiters@.len() && (#[trigger] s.waiters@[i]).is_task_of(w) }
pub open spec fn listed<Val>(s: State<Val>, t: thread::ThreadId) -> bool { exists|i: int| 0 <= i < s.waiters@.len() && (#[trigger] s.waiters@[i]).is_of(t) }
/// the element at i is gone, by `remove` or `swap_remove`
pub open spec fn less_one<T>(a: Seq<T>, b: Seq<T>, i: int) -> bool { b == a.remove(i) || b == a.update(i, a.last()).drop_last() }
/// the waiter at i, and nothing else, is gone
pub open spec fn left<Val>(s: State<Val>, t: State<Val>, i: int) -> bool {
    0 <= i < s.waiters@.len() && t.loading == s.loading && less_one(s.waiters@, t.waiters@, i)
}
pub open spec fn all_told<Val>(s: State<Val>) -> bool { forall|i: int| 0 <= i < s.waiters@.len() ==> (#[trigger] s.waiters@[i]).told() }
/// the load was given up: a waiter was told, or the load was forgotten if there was none
pub open spec fn passed_on<Key: Hash, Val: Clone, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>>(l: RwLock<Shard<Key, Val, We, B, L>>, p: SharedPlaceholder<Val>) -> bool {
    exists|s: State<Val>, t: State<Val>, a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>| #[trigger] wrote(p.state, s, t) && #[trigger] wrote(l, a, b) && t.sound() && b.inv() && b.same_cfg(a)
        && if s.waiters@.len() > 0 { t.loading == s.loading && exists|i: int| 0 <= i < s.waiters@.len() && less_one(s.waiters@, t.waiters@, i) && (#[trigger] s.waiters@[i]).told() && b.cs() == a.cs() }
           else { b.cs() == (if a.loads(p) { a.cs().put(p.idx, Core::Void) } else { a.cs() }) }
}
/// states of loads may be locked
pub open spec fn states<Val>() -> bool { forall|l: RwLock<State<Val>>| #![trigger may_write(l)] #![trigger may_read(l)] may_write(l) && may_read(l) }
/// the operation may wait as long as this
pub open spec fn limited(d: Option<Duration>) -> bool { match d { Some(d) => thread::may_wait_for(d), None => thread::may_wait() } }
/// the value was stored under the key, or a load of the key this operation joined brought it
pub open spec fn answered<Key: Hash, Val: Clone, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>>(l: RwLock<Shard<Key, Val, We, B, L>>, k: int, v: Val) -> bool {
    ||| exists|a: Shard<Key, Val, We, B, L>, b: Shard<Key, Val, We, B, L>, t: Token| #[trigger] wrote(l, a, b) && b.inv() && b.cs() == a.cs() && #[trigger] live_at(a.cs(), t, k) && a.cs().at(t) is Res && a.cs().at(t)->val == v
    ||| exists|p: SharedPlaceholder<Val>, s: State<Val>| joined(l, k, p) && #[trigger] seen(p.state, s) && s.loading == LoadingState::<Val>::Inserted(v)
    ||| exists|p: SharedPlaceholder<Val>, s: State<Val>, t: State<Val>| joined(l, k, p) && #[trigger] wrote(p.state, s, t) && t == s && s.loading == LoadingState::<Val>::Inserted(v)
}
/// the guard is for a load of the key that is this operation's turn
pub open spec fn granted<'a, Key: Hash, Val: Clone, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>>(g: PlaceholderGuard<'a, Key, Val, We, B, L>, k: int) -> bool {
    !g.inserted && turn(g.shared) && (created(*g.shard, k, g.shared) || joined(*g.shard, k, g.shared))
}
/// this operation waited for a load of the key, and left
pub open spec fn gave_up<Key: Hash, Val: Clone, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>>(l: RwLock<Shard<Key, Val, We, B, L>>, k: int) -> bool {
    exists|p: SharedPlaceholder<Val>, s: State<Val>, t: State<Val>, i: int| joined(l, k, p) && #[trigger] wrote(p.state, s, t) && left(s, t, i) && (#[trigger] s.waiters@[i]).is_of(thread::me().tid())
}
impl Waiter {
    pub open spec fn is_of(self, t: thread::ThreadId) -> bool { self is Thread && self->Thread_0.tid() == t }
    pub open spec fn is_task_of(self, w: SharedTaskWaiter) -> bool { self is Task && arc_id(self->Task_0) == arc_id(w) }
    /// whoever waits looks at the flag
    pub open spec fn apt(self) -> bool { self is Thread ==> thread::polls(self->Thread_0, *self->Thread_1) }
    /// it found out that it was told
    pub open spec fn heard(self) -> bool {
        match self {
            Waiter::Thread(t, n) => t == thread::me() && flagged(*n),
            Waiter::Task(l) => (exists|a: TaskWaiter| #[trigger] seen(*l, a) && a.notified) || (exists|a: TaskWaiter, b: TaskWaiter| #[trigger] wrote(*l, a, b) && a.notified),
        }
    }
    /// it was told that it need not wait any longer
    pub open spec fn told(self) -> bool {
        match self {
            Waiter::Thread(t, n) => flagged(*n) && thread::unparked(t),
            Waiter::Task(l) => exists|a: TaskWaiter, b: TaskWaiter| #[trigger] wrote(*l, a, b) && b.notified && woken(b.waker),
        }
    }
}
pub broadcast proof fn lemma_heard(w: SharedTaskWaiter, a: TaskWaiter, at: int) requires #[trigger] seen_at(*w, a, at), seen(*w, a), a.notified ensures #[trigger] Waiter::Task(w).heard()
{ let x = Waiter::Task(w); assert(seen(*x->Task_0, a) && a.notified); assert(exists|a: TaskWaiter| #[trigger] seen(*x->Task_0, a) && a.notified); }
/// a reference that is no longer used has its last content
pub broadcast proof fn lemma_resolved<A, B>(r: Result<&mut A, B>) requires #[trigger] has_resolved(r) ensures r is Ok ==> has_resolved(r->Ok_0), r is Ok ==> *(r->Ok_0) == *final(r->Ok_0) {}
pub broadcast proof fn lemma_heard_w(w: SharedTaskWaiter, a: TaskWaiter, b: TaskWaiter, at: int) requires #[trigger] locked_at(*w, a, b, at), wrote(*w, a, b), a.notified ensures #[trigger] Waiter::Task(w).heard()
{ let x = Waiter::Task(w); assert(wrote(*x->Task_0, a, b) && a.notified); assert(exists|a: TaskWaiter, b: TaskWaiter| #[trigger] wrote(*x->Task_0, a, b) && a.notified); }
impl<Val> Guarded for State<Val> {
    type Cfg = ();
    open spec fn cfg(&self) -> () { () }
    open spec fn is_shard() -> bool { false }
    /// waiters wait for a load in progress
    open spec fn sound(&self) -> bool { (self.waiters@.len() > 0 ==> self.loading is Loading) && forall|i: int| 0 <= i < self.waiters@.len() ==> (#[trigger] self.waiters@[i]).apt() }
    open spec fn roomy(&self) -> bool { true }
}
@@fn <SharedPlaceholder for SharedPlaceholder>::new
@impl_text
    open spec fn ph_id(&self) -> int { arc_id(*self) }
    open spec fn ph_new(&self) -> bool { made(arc_id(*self)) }
    open spec fn ph_hash(&self) -> u64 { self.hash }
    open spec fn ph_idx(&self) -> Token { self.idx }
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) { unimplemented!() }
@@fn <SharedPlaceholder for SharedPlaceholder>::same_as
@join
@@fn <SharedPlaceholder for SharedPlaceholder>::hash
@join
@@fn <SharedPlaceholder for SharedPlaceholder>::idx
@join
@@fn Waiter::notify
@requires
    self.apt(),
    self is Task ==> may_write(*self->Task_0),
@ensures
    self.told(), // [C16] the waiter is told, and woken
@@fn Waiter::is_task
@ret r
@ensures
    r == self.is_task_of(*other), // [C16] a waiter is found by its identity
@@fn Waiter::is_thread
@ret r
@ensures
    r == self.is_of(other), // [C16] a waiter is found by its identity
@@fn PlaceholderGuard::start_loading
@entry
    broadcast use rely_turn;
@impl_generics <'a, Key: Hash, Val: Clone, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>>
@ret r
@requires
    turn(shared), // [C16] only whoever has the turn gets a guard
    may_write(shared.state),
@ensures
    r.lifecycle == lifecycle && r.shard == shard && r.shared == shared && !r.inserted, // [C16] the guard stands for this load
@@fn PlaceholderGuard::join
@clock
@entry
    broadcast use {rely_turn, rely_told, rely_found, rely_listed};
@attr #[verifier::loop_isolation(false)]
@impl_generics <'a, Key: Eq + Hash, Val: Clone, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>>
@attr #[verifier::exec_allows_no_decreases_clause]
@ret r
@requires
    hash == shard.keeps().0.hspec(key.kid()),
    may_write(*shard) && may_read(*shard) && states::<Val>(),
    limited(timeout),
@ensures
    match r { GuardResult::Value(v) => answered(*shard, key.kid(), v), _ => true }, // [C16] the value is the one stored under the key, or the one loaded meanwhile
    match r { GuardResult::Guard(g) => g.lifecycle == lifecycle && g.shard == shard && granted(g, key.kid()), _ => true }, // [C16] told to load only with the turn, and for this key
    match r { GuardResult::Timeout => timeout is Some && gave_up(*shard, key.kid()), _ => true }, // [C20] times out only with a limit, having left the waiters, the others and the load being as they were
    match r { GuardResult::Timeout => exists|e: Duration, n: nat| #[trigger] thread::waited_for(e, n) && timeout is Some && e >= timeout->0, _ => true }, // [C20] gives up only when the limit has passed
    tallied(*shard, key.kid()), // [C19] one hit or one miss is counted
@loop 0 invariant
    found(*shard, key.kid(), $shared),
    notified ==> notification is Some && enlisted($shared, Waiter::Thread(thread::me(), notification->0)) && flagged(*notification->0), // [C16] goes on only when it was told
    shard_guard is Ok <==> !notified,
    !notified ==> __clk.waits() == 0,
    match shard_guard { Ok(g) => joined_when(*shard, key.kid(), $shared, *g, *final(g)), Err(_) => joined(*shard, key.kid(), $shared) },
    match shard_guard { Ok(g) => tallied_when(*shard, key.kid(), *g, *final(g)), Err(_) => tallied(*shard, key.kid()) },
@loop 1 invariant
    enlisted($shared, Waiter::Thread(thread::me(), *notification)),
    __clk.waits() == 0 || thread::time_left(__clk.waits()), // [C20] waits again only while the limit has not passed
@loop 2 invariant
    forall|i: int| 0 <= i < $it.seq().len() ==> *(#[trigger] $it.seq()[i]) == state.waiters@[i],
    $it.seq().len() == state.waiters@.len(),
    state.waiters.len() <= usize::MAX,
    $go ==> $acc is None && $idx == $it.pos(),
    $acc is Some ==> $acc->0 < state.waiters@.len() && state.waiters@[$acc->0 as int].is_of(tid),
    $acc is None ==> forall|j: int| 0 <= j < $it.pos() ==> !(#[trigger] state.waiters@[j]).is_of(tid),
    $acc is None && !$go ==> $it.pos() == $it.seq().len(),
@loop 3 invariant
    enlisted($shared, Waiter::Thread(thread::me(), *notification)),
@@fn PlaceholderGuard::insert_with_lifecycle
@ret r
@at_exit
    check_used(this.inserted);
@requires
    self.ready(),
@ensures
    exists|a: State<Val>, b: State<Val>| #[trigger] wrote(self.shared.state, a, b) && b.sound() && b.loading == LoadingState::<Val>::Inserted(value) && b.waiters@.len() == 0 && all_told(a), // [C16] every waiter is told, and finds the value
    self.placed(value), // [C18] a value that was waited for counts as used
    match r { Ok(rs) => self.stored(value, Ok(()), Some(L::log(rs))), Err(v) => self.stored(value, Err(v), None) }, // [C10] the value is stored through the placeholder as one request if the load is still wanted, else handed back
@loop 0 invariant
    forall|i: int| 0 <= i < $it.seq().len() ==> (#[trigger] $it.seq()[i]).apt() && ($it.seq()[i] is Task ==> may_write(*$it.seq()[i]->Task_0)),
    forall|i: int| 0 <= i < $it.pos() ==> (#[trigger] $it.seq()[i]).told(), // [C16] so far every waiter is told
@@fn PlaceholderGuard::insert
@ret r
@requires
    self.ready(),
@ensures
    exists|a: State<Val>, b: State<Val>| #[trigger] wrote(self.shared.state, a, b) && b.sound() && b.loading == LoadingState::<Val>::Inserted(value) && b.waiters@.len() == 0 && all_told(a), // [C16] every waiter is told, and finds the value
    self.placed(value), // [C18] a value that was waited for counts as used
    match r { Ok(_) => exists|l: Seq<Ev<Key, Val>>| #[trigger] self.stored(value, Ok(()), Some(l)), Err(v) => self.stored(value, Err(v), None) }, // [C10] the value is stored through the placeholder as one request if the load is still wanted, else handed back
    r is Ok ==> exists|rs: L::RequestState| #[trigger] self.lifecycle.ended(rs) && self.stored(value, Ok(()), Some(L::log(rs))), // [C13] the request is ended with the state its hooks received
@@fn PlaceholderGuard::drop_uninserted_slow
@impl_generics <Key: Hash, Val: Clone, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>>
@requires
    old(self).ready(),
@ensures
    passed_on(*old(self).shard, old(self).shared), // [C16] exactly one waiter takes over; if there is none the load is forgotten
    *final(self) == *old(self),
@@fn <Drop for PlaceholderGuard>::drop
@impl_generics <Key: Hash, Val: Clone, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>>
@as_inherent
@requires
    old(self).ready(),
@ensures
    !old(self).inserted ==> passed_on(*old(self).shard, old(self).shared), // [C16] exactly one waiter takes over; if there is none the load is forgotten
@@text
impl<'a, 'b, Q: ?Sized, Key: Hash, Val: Clone, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>> JoinFuture<'a, 'b, Q, Key, Val, We, B, L> {
    /// the future waits for a load in the shard, at rest
    pub open spec fn rests(self) -> bool {
        self is Pending && self->waiter is Some ==> enlisted(self->shared, Waiter::Task(self->waiter->0)) && may_write(*self->Pending_shard)
    }
    /// it is not just being polled
    pub open spec fn still(self) -> bool { self is Pending && self->waiter is Some ==> idle(self->waiter->0) }
    /// the key it is about
    pub open spec fn about(self, k: int) -> bool where Q: Hash {
        match self { JoinFuture::Created { key, .. } => key.kid() == k, JoinFuture::Pending { shard, shared, .. } => joined(*shard, k, shared), JoinFuture::Done => false }
    }
    pub open spec fn of(self, l: L, s: RwLock<Shard<Key, Val, We, B, L>>) -> bool {
        match self { JoinFuture::Created { lifecycle, shard, .. } => *lifecycle == l && *shard == s, JoinFuture::Pending { lifecycle, shard, .. } => *lifecycle == l && *shard == s, JoinFuture::Done => false }
    }
}
/// the task no longer waits: it left the list; or, having been told, finds the load settled or passes it on
pub open spec fn quit<Key: Hash, Val: Clone, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>>(l: RwLock<Shard<Key, Val, We, B, L>>, p: SharedPlaceholder<Val>, w: SharedTaskWaiter) -> bool {
    ||| exists|s: State<Val>, t: State<Val>, i: int| #[trigger] wrote(p.state, s, t) && left(s, t, i) && (#[trigger] s.waiters@[i]).is_task_of(w)
    ||| (exists|a: TaskWaiter| #[trigger] seen(*w, a) && a.notified) && exists|s: State<Val>, t: State<Val>| #[trigger] wrote(p.state, s, t) && t == s && (s.loading is Loading ==> passed_on(l, p))
}
/// whoever tells the waiting task wakes this waker
pub open spec fn aware(w: SharedTaskWaiter, x: Waker) -> bool {
    (exists|t: TaskWaiter| #[trigger] began(*w, t) && !t.notified && t.waker == x) || exists|a: TaskWaiter, b: TaskWaiter| #[trigger] wrote(*w, a, b) && !b.notified && b.waker == x
}
/// locks of waiting tasks may be taken
pub open spec fn tasks() -> bool { forall|l: RwLock<TaskWaiter>| #![trigger may_write(l)] #![trigger may_read(l)] may_write(l) && may_read(l) }
@@fn JoinFuture::new
@impl_generics <'a, 'b, Q: ?Sized, Key: Hash, Val: Clone, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>>
@ret r
@ensures
    r == (JoinFuture::<'a, 'b, Q, Key, Val, We, B, L>::Created { lifecycle, shard, hash, key }), // [C16] nothing happens before the first poll
@@fn JoinFuture::drop_pending_waiter
@clock
@dropped start_loading
@entry
    broadcast use {rely_turn, rely_task, lemma_heard};
@attr #[verifier::loop_isolation(false)]
@impl_generics <'a, 'b, Q: ?Sized, Key: Hash, Val: Clone, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>>
@requires
    *old(self) is Pending && (*old(self))->waiter is Some && old(self).rests() && old(self).still(),
    states::<Val>() && tasks(),
@ensures
    quit(*(*old(self))->Pending_shard, (*old(self))->shared, (*old(self))->waiter->0), // [C16] leaves the list unless it was told; a turn it was given is passed on
    *final(self) == *old(self),
@loop 0 invariant
    forall|i: int| 0 <= i < $it.seq().len() ==> *(#[trigger] $it.seq()[i]) == state.waiters@[i],
    $it.seq().len() == state.waiters@.len(),
    state.waiters.len() <= usize::MAX,
    $go ==> $acc is None && $idx == $it.pos(),
    $acc is Some ==> $acc->0 < state.waiters@.len() && state.waiters@[$acc->0 as int].is_task_of(*waiter),
    $acc is None ==> forall|j: int| 0 <= j < $it.pos() ==> !(#[trigger] state.waiters@[j]).is_task_of(*waiter),
    $acc is None && !$go ==> $it.pos() == $it.seq().len(),
@@fn <Drop for JoinFuture>::drop
@impl_generics <Q: ?Sized, Key: Hash, Val: Clone, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>>
@as_inherent
@requires
    old(self).rests() && old(self).still(),
    states::<Val>() && tasks(),
@ensures
    *old(self) is Pending && (*old(self))->waiter is Some ==> quit(*(*old(self))->Pending_shard, (*old(self))->shared, (*old(self))->waiter->0), // [C16] a cancelled task leaves the list unless it was told; a turn it was given is passed on
    *final(self) == *old(self),
@@fn <Future for JoinFuture>::poll
@clock
@assign_drops
@entry
    broadcast use {rely_turn, rely_told, rely_found, lemma_heard, lemma_heard_w, lemma_resolved};
@attr #[verifier::loop_isolation(false)]
@impl_generics <'a, 'b, Key: Eq + Hash, Q: Hash + Equivalent<Key> + ToOwned<Owned = Key> + ?Sized, Val: Clone, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>>
@as_inherent JoinFuture<'a, 'b, Q, Key, Val, We, B, L>
@sig_subst self : std :: pin :: Pin < & mut Self > => & mut self
@sig_subst crate :: syncprel :: Context < '_ > => Context
@ret_type Poll < Result < Val , PlaceholderGuard < 'a , Key , Val , We , B , L > > >
@ret r
@requires
    old(self).rests() && old(self).still(),
    !(*old(self) is Done),
    *old(self) is Pending ==> (*old(self))->waiter is Some && may_read(*(*old(self))->Pending_shard),
    *old(self) is Created ==> (*old(self))->hash == (*old(self))->Created_shard.keeps().0.hspec((*old(self))->key.kid()) && may_write(*(*old(self))->Created_shard) && may_read(*(*old(self))->Created_shard),
    states::<Val>() && tasks(),
@ensures
    r is Ready ==> *final(self) is Done, // [C16] an answered request no longer waits
    match r { Poll::Ready(Ok(v)) => forall|k: int, l: L, s: RwLock<Shard<Key, Val, We, B, L>>| #[trigger] old(self).about(k) && #[trigger] old(self).of(l, s) ==> answered(s, k, v), _ => true }, // [C16] the value is the one stored under the key, or the one loaded meanwhile
    match r { Poll::Ready(Err(g)) => old(self).of(*g.lifecycle, *g.shard) && forall|k: int| #[trigger] old(self).about(k) ==> granted(g, k), _ => true }, // [C16] told to load only with the turn, and for this key
    r is Pending ==> *final(self) is Pending && (*final(self))->waiter is Some && final(self).rests() && (forall|k: int| #[trigger] old(self).about(k) ==> final(self).about(k)) && (forall|l: L, s: RwLock<Shard<Key, Val, We, B, L>>| #[trigger] old(self).of(l, s) ==> final(self).of(l, s)), // [C16] waits only when listed
    *old(self) is Pending && r is Pending ==> *final(self) == *old(self), // [C16] goes on waiting for the same load
    r is Pending ==> aware((*final(self))->waiter->0, old(cx).w()), // [C16] the waker of the task that polled last is the one to be woken
    *old(self) is Created ==> tallied(*(*old(self))->Created_shard, (*old(self))->key.kid()), // [C19] one hit or one miss is counted
@@text
/// a future is polled until it is ready; between polls it is at rest
#[verifier::spinoff_prover]
#[verifier::exec_allows_no_decreases_clause]
pub fn awaited<'a, 'b, Key: Eq + Hash, Q: Hash + Equivalent<Key> + ToOwned<Owned = Key> + ?Sized, Val: Clone, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>>(f: JoinFuture<'a, 'b, Q, Key, Val, We, B, L>) -> (r: Result<Val, PlaceholderGuard<'a, Key, Val, We, B, L>>)
    requires
        f is Created && f->hash == f->Created_shard.keeps().0.hspec(f->key.kid()) && may_write(*f->Created_shard) && may_read(*f->Created_shard),
        states::<Val>() && tasks(),
    ensures
        match r { Ok(v) => answered(*f->Created_shard, f->key.kid(), v), Err(g) => *g.lifecycle == *f->Created_lifecycle && *g.shard == *f->Created_shard && granted(g, f->key.kid()) },
        tallied(*f->Created_shard, f->key.kid()),
{
    let mut x = f;
    loop
        invariant
            f is Created && f->hash == f->Created_shard.keeps().0.hspec(f->key.kid()) && may_write(*f->Created_shard) && may_read(*f->Created_shard),
            states::<Val>() && tasks(),
            x == f || (x is Pending && x->waiter is Some && x.rests() && tallied(*f->Created_shard, f->key.kid())),
            x.about(f->key.kid()) && x.of(*f->Created_lifecycle, *f->Created_shard),
    {
        let mut cx = Context::some();
        if let JoinFuture::Pending { waiter: Some(w), .. } = &x { at_rest(w); }
        match x.poll(&mut cx) { Poll::Ready(y) => { return y; } Poll::Pending => {} }
    }
}
/// a future that is not being polled is at rest
#[verifier::external_body]
pub fn at_rest(w: &SharedTaskWaiter) ensures idle(*w) { unimplemented!() }
