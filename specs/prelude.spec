@@module prelude
@@text
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;

// ------------------------------------------------------------------ assertions of the real code
// debug_assert*!/assert*! and unreachable!/panic!/unreachable_unchecked of the source become calls
// whose precondition is the asserted condition, so each is an obligation. [C07]
pub fn check_assert(b: bool)
    requires b, // [C07] assertion of the source holds
{}
/// an assertion by which a function rejects its argument: it does not return unless the condition holds
#[verifier::external_body]
pub fn reject_unless(b: bool) ensures b { assert!(b) }
#[verifier::external_body]
pub fn reject() -> ! { panic!() }
#[verifier::external_body]
pub fn check_unreachable() -> !
    requires false, // [C07] unreachable code is not reached
{ panic!() }

// ------------------------------------------------------------------ std::num::NonZeroU32 (verified stand-in)
mod token {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
#[derive(Clone, Copy, Debug, Eq)]
pub struct Token { v: u32 }
impl PartialEqSpecImpl for Token {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Token) -> bool { *self == *o }
}
impl PartialEq for Token { fn eq(&self, o: &Token) -> bool { self.v == o.v } }
impl Token {
    #[verifier::type_invariant]
    closed spec fn nz(self) -> bool { self.v != 0 }
    pub closed spec fn view(self) -> u32 { self.v }
    pub fn get(self) -> (r: u32) ensures r == self@, r != 0 { proof { use_type_invariant(self); } self.v }
    pub fn new(v: u32) -> (r: Option<Token>)
        ensures v == 0 ==> r is None, v != 0 ==> r is Some && r->0@ == v
    { if v == 0 { None } else { Some(Token { v }) } }
}
pub closed spec fn tok(n: int) -> Token { Token { v: n as u32 } }
pub broadcast proof fn token_ext(a: Token, b: Token)
    requires #[trigger] a@ == #[trigger] b@ ensures a == b {}
pub broadcast proof fn tok_view(n: int)
    requires 0 <= n <= u32::MAX ensures (#[trigger] tok(n))@ == n {}
pub broadcast group group_token { token_ext, tok_view }
}
pub use token::*;

// ------------------------------------------------------------------ total maps (specification only)
mod fmap {
use vstd::prelude::*;
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(C)]
pub struct FMap<A, C> { f: spec_fn(A) -> C }
impl<A, C> FMap<A, C> {
    pub closed spec fn at(self, a: A) -> C { (self.f)(a) }
    pub closed spec fn put(self, a: A, c: C) -> FMap<A, C> { FMap { f: |x: A| if x == a { c } else { (self.f)(x) } } }
    pub closed spec fn of(f: spec_fn(A) -> C) -> FMap<A, C> { FMap { f } }
}
pub proof fn fmap_ext<A, C>(a: FMap<A, C>, b: FMap<A, C>) requires forall|x: A| #[trigger] a.at(x) == b.at(x) ensures a == b
{ assert forall|x: A| #[trigger] (a.f)(x) == (b.f)(x) by { assert(a.at(x) == b.at(x)); } assert(a.f =~= b.f); }
pub broadcast proof fn lemma_fmap_of<A, C>(f: spec_fn(A) -> C, x: A) ensures #[trigger] FMap::of(f).at(x) == f(x) {}
pub broadcast proof fn lemma_put<A, C>(m: FMap<A, C>, a: A, c: C, x: A) ensures #[trigger] m.put(a, c).at(x) == (if x == a { c } else { m.at(x) }) {}
pub broadcast proof fn lemma_put_put<A, C>(m: FMap<A, C>, a: A, c: C, d: C) ensures #[trigger] m.put(a, c).put(a, d) == m.put(a, d)
{ fmap_ext(m.put(a, c).put(a, d), m.put(a, d)); }
pub broadcast proof fn lemma_put_same<A, C>(m: FMap<A, C>, a: A, c: C) ensures m.at(a) == c ==> #[trigger] m.put(a, c) == m
{ if m.at(a) == c { fmap_ext(m.put(a, c), m); } }
pub proof fn lemma_put_comm<A, C>(m: FMap<A, C>, a: A, c: C, b: A, d: C) ensures a != b ==> m.put(a, c).put(b, d) == m.put(b, d).put(a, c)
{ if a != b { fmap_ext(m.put(a, c).put(b, d), m.put(b, d).put(a, c)); } }
pub broadcast group group_fmap { lemma_fmap_of, lemma_put, lemma_put_put, lemma_put_same }
}
pub use fmap::*;

// ------------------------------------------------------------------ iteration sources
/// A finite iteration: the elements of `seq()` in order.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct SeqIter<T> { v: std::vec::IntoIter<T> }
impl<T> SeqIter<T> {
    pub uninterp spec fn seq(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures final(self).seq() == old(self).seq(), 0 <= old(self).pos() <= old(self).seq().len(),
            old(self).pos() < old(self).seq().len() ==> r == Some(old(self).seq()[old(self).pos()]) && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self).seq().len() ==> r is None && final(self).pos() == old(self).pos(),
    { self.v.next() }
}
/// a typed `None`
pub fn no_item<T>(it: &SeqIter<T>) -> (r: Option<T>) ensures r is None { None }
pub fn no_elem<T>(it: &SeqIter<&T>) -> (r: Option<T>) ensures r is None { None }
pub trait SeqSource<T>: Sized {
    spec fn source(self) -> Seq<T>;
    fn seq_iter(self) -> (r: SeqIter<T>)
        ensures r.seq() == self.source(), r.pos() == 0;
}
impl<T> SeqSource<T> for Vec<T> {
    open spec fn source(self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn seq_iter(self) -> (r: SeqIter<T>) { SeqIter { v: self.into_iter() } }
}
impl<T> SeqSource<T> for SeqIter<T> {
    open spec fn source(self) -> Seq<T> { if self.pos() == 0 { self.seq() } else { self.seq().skip(self.pos()) } }
    #[verifier::external_body]
    fn seq_iter(self) -> (r: SeqIter<T>) { self }
}
/// `x.iter()` used as an iteration source
pub trait IterRefs<T> {
    spec fn iterable(&self) -> bool;
    spec fn refs(&self) -> Seq<T>;
    fn iter_refs<'a>(&'a self) -> (r: SeqIter<&'a T>)
        requires self.iterable(),
        ensures r.pos() == 0, r.seq().len() == self.refs().len(),
            forall|i: int| 0 <= i < r.seq().len() ==> *(#[trigger] r.seq()[i]) == self.refs()[i];
}
impl<T> IterRefs<T> for Vec<T> {
    open spec fn iterable(&self) -> bool { true }
    open spec fn refs(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn iter_refs<'a>(&'a self) -> (r: SeqIter<&'a T>) { SeqIter { v: self.iter().collect::<Vec<_>>().into_iter() } }
}
/// `Option::get_or_insert_with`
pub trait OptFill<T> {
    spec fn opt(&self) -> Option<T>;
    fn fill(&mut self, t: T) ensures final(self).opt() == Some(t);
    fn filled(&mut self) -> (r: &mut T) requires old(self).opt() is Some, ensures Some(*r) == old(self).opt(), final(self).opt() == Some(*final(r));
}
impl<T> OptFill<T> for Option<T> {
    open spec fn opt(&self) -> Option<T> { *self }
    fn fill(&mut self, t: T) { *self = Some(t); }
    #[verifier::external_body]
    fn filled(&mut self) -> (r: &mut T) { self.as_mut().unwrap() }
}
/// `v.drain(..)`
#[verifier::external_body]
pub fn vec_drain<T>(v: &mut Vec<T>) -> (r: Vec<T>)
    ensures r@ == old(v)@, final(v)@.len() == 0,
{ std::mem::take(v) }

/// unchecked slice access: being in bounds is the precondition [C07]
pub trait VecUnchecked<T> {
    spec fn elems(&self) -> Seq<T>;
    fn get_unchecked(&self, i: usize) -> (r: &T)
        requires i < self.elems().len(), ensures *r == self.elems()[i as int];
    fn get_unchecked_mut(&mut self, i: usize) -> (r: &mut T)
        requires i < old(self).elems().len(), ensures *r == old(self).elems()[i as int], final(self).elems() == old(self).elems().update(i as int, *final(r));
}
impl<T> VecUnchecked<T> for Vec<T> {
    open spec fn elems(&self) -> Seq<T> { self@ }
    fn get_unchecked(&self, i: usize) -> (r: &T) { &self[i] }
    fn get_unchecked_mut(&mut self, i: usize) -> (r: &mut T) { &mut self[i] }
}
/// `drop(x)`: the value is gone (lock guards are references here)
#[verifier::external_body]
pub fn let_go<T>(x: T) { }
