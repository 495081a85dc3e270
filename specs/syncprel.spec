@@module syncprel
@@text
// ------------------------------------------------------------------ assumptions about locks and threads
use vstd::prelude::*;
use crate::prelude::*;
use crate::shardprel::*;
use crate::api::*;
use crate::theory::*;
use crate::shardinv::*;
pub use crate::shardprel::Clone;
/// What a lock protects: `sound` is the invariant of the content, `cfg` the part of it that never changes.
pub trait Guarded: Sized {
    type Cfg;
    spec fn cfg(&self) -> Self::Cfg;
    spec fn sound(&self) -> bool;
    spec fn is_shard() -> bool;
    /// not full (an assumption wherever it is used)
    spec fn roomy(&self) -> bool;
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct RwLock<T> { v: std::marker::PhantomData<T> }
/// the operation may take this lock (for reading; for writing)
pub uninterp spec fn may_read<T>(l: RwLock<T>) -> bool;
pub uninterp spec fn may_write<T>(l: RwLock<T>) -> bool;
/// a critical section of this operation found a, and left b if it could write
pub uninterp spec fn seen<T>(l: RwLock<T>, a: T) -> bool;
pub uninterp spec fn wrote<T>(l: RwLock<T>, a: T, b: T) -> bool;
/// nobody writes to any lock during the operation
pub uninterp spec fn quiet() -> bool;
/// the order in which this operation does things
#[verifier::external_body]
pub struct Clock { v: u8 }
impl Clock {
    pub uninterp spec fn now(&self) -> int;
    /// how often this operation has waited so far
    pub uninterp spec fn waits(&self) -> nat;
    #[verifier::external_body]
    pub fn new() -> (r: Clock) ensures r.waits() == 0 { unimplemented!() }
}
/// as `wrote`, with the moment the lock was taken
pub uninterp spec fn locked_at<T>(l: RwLock<T>, a: T, b: T, at: int) -> bool;
pub uninterp spec fn seen_at<T>(l: RwLock<T>, a: T, at: int) -> bool;
/// the content the lock was made with
pub uninterp spec fn began<T>(l: RwLock<T>, a: T) -> bool;
impl<T: Guarded> RwLock<T> {
    #[verifier::external_body]
    pub fn read_at(&self, c: &mut Clock) -> (r: &T)
        requires T::is_shard() ==> may_read(*self), // [C14] an operation on a key takes the lock of the shard its hash selects, and no other
        ensures r.sound(), r.roomy(), r.cfg() == self.keeps(), seen(*self, *r), quiet() ==> *r == self.cur(), seen_at(*self, *r, final(c).now()), final(c).now() > old(c).now(), final(c).waits() == old(c).waits(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_at(&self, c: &mut Clock) -> (r: &mut T)
        requires
            T::is_shard() ==> may_write(*self), // [C14] an operation on a key takes the lock of the shard its hash selects, and only to change it
            !T::is_shard() ==> may_write(*self), // [C16] waiters and their flags are changed only by those entitled to
        ensures r.sound(), r.roomy(), r.cfg() == self.keeps(), wrote(*self, *r, *final(r)), !quiet(), locked_at(*self, *r, *final(r), final(c).now()), final(c).now() > old(c).now(), final(c).waits() == old(c).waits(),
    { unimplemented!() }
    pub uninterp spec fn keeps(&self) -> T::Cfg;
    /// the content, where it does not change
    pub uninterp spec fn cur(&self) -> T;
    #[verifier::external_body]
    pub fn new(t: T) -> (r: Self)
        requires t.sound(), // [C07] a lock starts with sound content
        ensures r.keeps() == t.cfg(), began(r, t),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read(&self) -> (r: &T)
        requires T::is_shard() ==> may_read(*self), // [C14] an operation on a key takes the lock of the shard its hash selects, and no other
        ensures r.sound(), r.roomy(), r.cfg() == self.keeps(), seen(*self, *r), quiet() ==> *r == self.cur(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write(&self) -> (r: &mut T)
        requires
            T::is_shard() ==> may_write(*self), // [C14] an operation on a key takes the lock of the shard its hash selects, and only to change it
            !T::is_shard() ==> may_write(*self), // [C16] waiters and their flags are changed only by those entitled to
        ensures r.sound(), r.roomy(), r.cfg() == self.keeps(), wrote(*self, *r, *final(r)), !quiet(),
    { unimplemented!() }
}
impl<Key: Hash, Val, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<Key, Val>, Plh: SharedPlaceholder> Guarded for CacheShard<Key, Val, We, B, L, Plh> {
    type Cfg = (B, We, L, u64, u64, usize);
    open spec fn cfg(&self) -> (B, We, L, u64, u64, usize) { (self.hash_builder, self.weighter, self.lifecycle, self.weight_capacity, self.weight_target_hot, self.capacity_non_resident) }
    open spec fn sound(&self) -> bool { self.inv() }
    open spec fn is_shard() -> bool { true }
    open spec fn roomy(&self) -> bool { self.entries.room() && forall|k: Key, v: Val| self.weight_hot + self.weight_cold + #[trigger] self.weighter.wspec(k, v) <= u64::MAX }
}
pub assume_specification [u64::rotate_right] (x: u64, n: u32) -> (r: u64) ensures r == rotr(x, n);
pub uninterp spec fn rotr(x: u64, n: u32) -> u64;
/// identity of the shared object behind an Arc
pub uninterp spec fn arc_id<T>(a: std::sync::Arc<T>) -> int;
#[verifier::external_body]
pub fn same_arc<T>(a: &std::sync::Arc<T>, b: &std::sync::Arc<T>) -> (r: bool) ensures r == (arc_id(*a) == arc_id(*b)) { unimplemented!() }
/// this operation made the shared object
pub uninterp spec fn made(id: int) -> bool;
#[verifier::external_body]
pub fn new_arc<T>(t: T) -> (r: std::sync::Arc<T>) ensures *r == t, made(arc_id(r)) { unimplemented!() }
pub open spec fn pow2(n: u64) -> bool { n > 0 && n & sub(n, 1) == 0 }
/// the least power of two that is not less
pub uninterp spec fn up2(n: usize) -> u64;
pub assume_specification [usize::next_power_of_two] (n: usize) -> (r: usize)
    requires n <= 0x8000_0000_0000_0000, // [C07] rounding up to a power of two does not overflow
    ensures r == up2(n), pow2(up2(n)), n <= up2(n), n > 0 ==> up2(n) < 2 * n;
pub proof fn lemma_pow2() ensures forall|n: u64| #[trigger] pow2(n) && n > 1 ==> pow2((n / 2) as u64)
{ assert(forall|n: u64| n > 1 && n & sub(n, 1) == 0 ==> (#[trigger] (n / 2)) > 0 && (n / 2) & sub(n / 2, 1) == 0) by (bit_vector); }
// ------------------------------------------------------------------ more of std (what vstd does not specify)
pub assume_specification [u16::abs_diff] (a: u16, b: u16) -> (r: u16) ensures r == if a > b { a - b } else { b - a };
pub assume_specification [u16::div_ceil] (a: u16, b: u16) -> (r: u16) requires b != 0, /* [C07] no division by zero */ ensures r == (a + b - 1) / (b as int);
pub assume_specification [u16::rem_euclid] (a: u16, b: u16) -> (r: u16) requires b != 0, /* [C07] no division by zero */ ensures r == a % b;
pub assume_specification [u16::overflowing_add] (a: u16, b: u16) -> (r: (u16, bool)) ensures r.1 == (a + b > u16::MAX), r.0 == if r.1 { a + b - u16::MAX - 1 } else { a + b };
pub assume_specification [u16::overflowing_sub] (a: u16, b: u16) -> (r: (u16, bool)) ensures r.1 == (a < b), r.0 == if r.1 { a - b + u16::MAX + 1 } else { a - b };
pub assume_specification [u32::abs_diff] (a: u32, b: u32) -> (r: u32) ensures r == if a > b { a - b } else { b - a };
pub assume_specification [u32::div_ceil] (a: u32, b: u32) -> (r: u32) requires b != 0, /* [C07] no division by zero */ ensures r == (a + b - 1) / (b as int);
pub assume_specification [u32::rem_euclid] (a: u32, b: u32) -> (r: u32) requires b != 0, /* [C07] no division by zero */ ensures r == a % b;
pub assume_specification [u32::overflowing_add] (a: u32, b: u32) -> (r: (u32, bool)) ensures r.1 == (a + b > u32::MAX), r.0 == if r.1 { a + b - u32::MAX - 1 } else { a + b };
pub assume_specification [u32::overflowing_sub] (a: u32, b: u32) -> (r: (u32, bool)) ensures r.1 == (a < b), r.0 == if r.1 { a - b + u32::MAX + 1 } else { a - b };
pub assume_specification [u64::abs_diff] (a: u64, b: u64) -> (r: u64) ensures r == if a > b { a - b } else { b - a };
pub assume_specification [u64::div_ceil] (a: u64, b: u64) -> (r: u64) requires b != 0, /* [C07] no division by zero */ ensures r == (a + b - 1) / (b as int);
pub assume_specification [u64::rem_euclid] (a: u64, b: u64) -> (r: u64) requires b != 0, /* [C07] no division by zero */ ensures r == a % b;
pub assume_specification [u64::overflowing_add] (a: u64, b: u64) -> (r: (u64, bool)) ensures r.1 == (a + b > u64::MAX), r.0 == if r.1 { a + b - u64::MAX - 1 } else { a + b };
pub assume_specification [u64::overflowing_sub] (a: u64, b: u64) -> (r: (u64, bool)) ensures r.1 == (a < b), r.0 == if r.1 { a - b + u64::MAX + 1 } else { a - b };
pub assume_specification [usize::abs_diff] (a: usize, b: usize) -> (r: usize) ensures r == if a > b { a - b } else { b - a };
pub assume_specification [usize::div_ceil] (a: usize, b: usize) -> (r: usize) requires b != 0, /* [C07] no division by zero */ ensures r == (a + b - 1) / (b as int);
pub assume_specification [usize::rem_euclid] (a: usize, b: usize) -> (r: usize) requires b != 0, /* [C07] no division by zero */ ensures r == a % b;
pub assume_specification [usize::overflowing_add] (a: usize, b: usize) -> (r: (usize, bool)) ensures r.1 == (a + b > usize::MAX), r.0 == if r.1 { a + b - usize::MAX - 1 } else { a + b };
pub assume_specification [usize::overflowing_sub] (a: usize, b: usize) -> (r: (usize, bool)) ensures r.1 == (a < b), r.0 == if r.1 { a - b + usize::MAX + 1 } else { a - b };
pub assume_specification [u64::rotate_left] (x: u64, n: u32) -> (r: u64) ensures r == rotr(x, ((64 - n % 64) % 64) as u32);
pub assume_specification [u64::is_power_of_two] (n: u64) -> (r: bool) ensures r == pow2(n);
pub assume_specification [usize::is_power_of_two] (n: usize) -> (r: bool) ensures r == pow2(n as u64);
pub assume_specification<T> [Option::<T>::or] (a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a is Some { a } else { b });
pub assume_specification<T> [Option::<T>::xor] (a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a is Some && b is None { a } else if a is None && b is Some { b } else { None });
pub assume_specification<T, U> [Option::<T>::and] (a: Option<T>, b: Option<U>) -> (r: Option<U>) ensures r == (if a is Some { b } else { None });
pub assume_specification<T, U> [Option::<T>::zip] (a: Option<T>, b: Option<U>) -> (r: Option<(T, U)>) ensures r == (if a is Some && b is Some { Some((a->0, b->0)) } else { None });
pub assume_specification<T> [Option::<T>::replace] (a: &mut Option<T>, v: T) -> (r: Option<T>) ensures r == *old(a), *final(a) == Some(v);
pub assume_specification<T, E> [Result::<T, E>::unwrap_or] (a: Result<T, E>, d: T) -> (r: T) ensures r == (if a is Ok { a->Ok_0 } else { d });
pub assume_specification<T> [<[T]>::swap] (s: &mut [T], a: usize, b: usize) requires a < old(s)@.len(), b < old(s)@.len() ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
pub assume_specification<T> [std::hint::black_box] (x: T) -> (r: T) ensures r == x;
/// two Arcs with the same identity share one object
#[verifier::external_body]
pub broadcast proof fn axiom_arc_id<T>(a: std::sync::Arc<T>, b: std::sync::Arc<T>) requires #[trigger] arc_id(a) == #[trigger] arc_id(b) ensures a == b {}
// ------------------------------------------------------------------ threads, flags and wakers
/// an atomic flag; the value names the flag
#[verifier::external_body]
pub struct AtomicBool { v: u8 }
/// the flag was seen set, or was set, by this operation
pub uninterp spec fn flagged(f: AtomicBool) -> bool;
/// the flag was seen unset by this operation, then
pub uninterp spec fn unflagged(f: AtomicBool, at: int) -> bool;
impl AtomicBool {
    #[verifier::external_body]
    pub fn store(&self, x: bool, o: crate::shardprel::Ordering)
        requires o is Release || o is SeqCst, // [C16] what was done before is visible to the waiter
        ensures x ==> flagged(*self),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn load_at(&self, o: crate::shardprel::Ordering, c: &mut Clock) -> (r: bool)
        requires o is Acquire || o is SeqCst, // [C16] what was done before is visible to the waiter
        ensures r ==> flagged(*self), !r ==> unflagged(*self, final(c).now()), final(c).now() > old(c).now(), final(c).waits() == old(c).waits(),
    { unimplemented!() }
}
impl Default for AtomicBool { #[verifier::external_body] fn default() -> AtomicBool { unimplemented!() } }
pub mod thread {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub struct Thread { v: u8 }
    pub type ThreadId = u64;
    pub uninterp spec fn me() -> Thread;
    pub uninterp spec fn unparked(t: Thread) -> bool;
    /// a flag this thread looks at when it wakes is set
    pub open spec fn ready(t: Thread) -> bool { exists|f: super::AtomicBool| #[trigger] super::flagged(f) && polls(t, f) }
    /// the thread looks at the flag when it wakes
    pub uninterp spec fn polls(t: Thread, f: super::AtomicBool) -> bool;
    impl Thread {
        pub uninterp spec fn tid(&self) -> ThreadId;
        #[verifier::external_body]
        pub fn id(&self) -> (r: ThreadId) ensures r == self.tid() { unimplemented!() }
        #[verifier::external_body]
        pub fn unpark(&self)
            requires ready(*self), // [C16] the flag of a waiter is set before it is woken
            ensures unparked(*self),
        { unimplemented!() }
    }
    /// (a thread that enlists itself looks at its flag whenever it wakes: assumed here, explored by schedules)
    #[verifier::external_body]
    pub fn current() -> (r: Thread) ensures r == me(), forall|f: super::AtomicBool| #[trigger] polls(me(), f) { unimplemented!() }
    /// the caller gave no time limit; or this one
    pub uninterp spec fn may_wait() -> bool;
    pub uninterp spec fn may_wait_for(d: super::Duration) -> bool;
    #[verifier::external_body]
    pub fn park_at(c: &mut super::Clock)
        requires may_wait(), // [C20] waits without a limit only where none is given
        ensures final(c).waits() == old(c).waits() + 1, final(c).now() == old(c).now(),
    { unimplemented!() }
    /// having waited n times, the time passed since the first wait began was seen to be e
    pub open spec fn waited_for(e: super::Duration, n: nat) -> bool { exists|t: super::Instant| #[trigger] super::passed(t, e, n) && super::taken(t) == 0 }
    pub open spec fn time_left(n: nat) -> bool { exists|e: super::Duration, m: super::Duration| #[trigger] waited_for(e, n) && #[trigger] may_wait_for(m) && e < m }
    #[verifier::external_body]
    pub fn park_timeout_at(d: super::Duration, c: &mut super::Clock)
        requires
            exists|e: super::Duration, m: super::Duration| #[trigger] waited_for(e, old(c).waits()) && #[trigger] may_wait_for(m) && (d == 0 || d + e <= m), // [C20] never waits for longer than what is left of the limit
            old(c).waits() == 0 || time_left(old(c).waits()), // [C20] waits again only while the limit has not passed
        ensures final(c).waits() == old(c).waits() + 1, final(c).now() == old(c).now(),
    { unimplemented!() }
}
/// time spans, in some unit
pub type Duration = u64;
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Instant { v: u8 }
/// so much time had passed since then, when the operation had waited n times
pub uninterp spec fn passed(t: Instant, d: Duration, n: nat) -> bool;
/// how often the operation had waited when the time was taken
pub uninterp spec fn taken(t: Instant) -> nat;
impl Instant {
    #[verifier::external_body]
    pub fn now_at(c: &Clock) -> (r: Instant) ensures taken(r) == c.waits() { unimplemented!() }
    #[verifier::external_body]
    pub fn elapsed_at(&self, c: &Clock) -> (r: Duration) ensures passed(*self, r, c.waits()), taken(*self) == 0 ==> thread::waited_for(r, c.waits()) { unimplemented!() }
}
#[verifier::external_body]
pub struct Waker { v: u8 }
pub uninterp spec fn woken(w: Waker) -> bool;
impl Waker {
    #[verifier::external_body]
    pub fn wake_by_ref(&self) ensures woken(*self) { unimplemented!() }
    /// (clones wake the same task)
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Waker) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn will_wake(&self, o: &Waker) -> (r: bool) ensures r ==> *self == *o { unimplemented!() }
    #[verifier::external_body]
    pub fn clone_from(&mut self, o: &Waker) ensures *final(self) == *o { unimplemented!() }
}
#[verifier::external_body]
pub struct Context { v: u8 }
impl Context {
    pub uninterp spec fn w(&self) -> Waker;
    /// whatever task polls
    #[verifier::external_body]
    pub fn some() -> Context { unimplemented!() }
    #[verifier::external_body]
    pub fn waker(&self) -> (r: &Waker) ensures *r == self.w() { unimplemented!() }
}
pub enum Poll<T> { Ready(T), Pending }
