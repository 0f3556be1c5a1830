#![feature(allocator_api)]
#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, non_snake_case, unused_unsafe, private_interfaces, unreachable_code, unused_assignments, unconditional_recursion)]
use vstd::prelude::*;
use vstd::view::*;
use std::mem;
verus! {

// ---------------------------------------------------------------- control
/// `assert!`, `debug_assert!`: an obligation
pub fn vp_assert(c: bool)
    requires c,
{
}
/// `panic!`, `unreachable!` that must not be reached
#[verifier::external_body]
pub fn vp_panic<A>() -> (r: A)
    requires false,
{
    unimplemented!()
}
/// a documented panic: the call does not return
#[verifier::external_body]
pub fn vp_diverge<A>() -> (r: A)
    ensures false,
{
    unimplemented!()
}
#[verifier::external_body]
pub fn vp_nondet() -> (r: bool) { unimplemented!() }

pub trait VpExpect {
    type T;
    spec fn vp_has(&self) -> bool;
    spec fn vp_val(&self) -> Self::T;
    /// `expect`: returns only if there is a value
    fn vp_expect(self) -> (r: Self::T) where Self: Sized
        ensures self.vp_has(), r == self.vp_val();
}
impl<T> VpExpect for Option<T> {
    type T = T;
    open spec fn vp_has(&self) -> bool { self.is_some() }
    open spec fn vp_val(&self) -> T { self.unwrap() }
    #[verifier::external_body]
    fn vp_expect(self) -> (r: T) { self.unwrap() }
}
impl<T, E> VpExpect for Result<T, E> {
    type T = T;
    open spec fn vp_has(&self) -> bool { self is Ok }
    open spec fn vp_val(&self) -> T { self->Ok_0 }
    #[verifier::external_body]
    fn vp_expect(self) -> (r: T) { unimplemented!() }
}

pub assume_specification<'a, T> [std::option::Option::<&T>::copied] (o: std::option::Option<&'a T>) -> (r: std::option::Option<T>)
    where T: std::marker::Copy,
    ensures r == (match o { Some(x) => Some(*x), None => None });

pub assume_specification<T: std::default::Default> [std::mem::take] (x: &mut T) -> (r: T)
    ensures r == *old(x), call_ensures(T::default, (), *final(x));
pub assume_specification<T> [std::mem::replace] (x: &mut T, y: T) -> (r: T)
    ensures r == *old(x), *final(x) == y;

pub assume_specification<T, A, F> [std::vec::Vec::<T, A>::resize_with] (v: &mut std::vec::Vec<T, A>, n: usize, f: F)
    where A: std::alloc::Allocator, F: std::ops::FnMut() -> T,
    requires f.requires(()),
    ensures
        final(v)@.len() == n,
        forall|i: int| 0 <= i < n && i < old(v)@.len() ==> final(v)@[i] == old(v)@[i],
        forall|i: int| old(v)@.len() <= i < n ==> f.ensures((), #[trigger] final(v)@[i]);

/// what these answer is left open
pub assume_specification<T: ?Sized> [std::mem::needs_drop::<T>] () -> (r: bool);
pub assume_specification<T> [std::mem::forget::<T>] (x: T);
pub assume_specification [std::thread::panicking] () -> (r: bool);
pub assume_specification<T> [std::hint::black_box::<T>] (x: T) -> (r: T)
    ensures r == x;

/// `|`, `&` and `^` of integers and of `bool`
pub trait VpBits: Sized {
    spec fn o(self, x: Self) -> Self;
    spec fn a(self, x: Self) -> Self;
    spec fn x(self, x: Self) -> Self;
    fn vp_or(self, x: Self) -> (r: Self) ensures r == self.o(x);
    fn vp_and(self, x: Self) -> (r: Self) ensures r == self.a(x);
    fn vp_xor(self, x: Self) -> (r: Self) ensures r == self.x(x);
}
impl VpBits for bool {
    open spec fn o(self, x: bool) -> bool { self || x }
    open spec fn a(self, x: bool) -> bool { self && x }
    open spec fn x(self, x: bool) -> bool { self != x }
    fn vp_or(self, x: bool) -> (r: bool) { if self { true } else { x } }
    fn vp_and(self, x: bool) -> (r: bool) { if self { x } else { false } }
    fn vp_xor(self, x: bool) -> (r: bool) { if self { !x } else { x } }
}
impl VpBits for u32 {
    open spec fn o(self, x: u32) -> u32 { self | x }
    open spec fn a(self, x: u32) -> u32 { self & x }
    open spec fn x(self, x: u32) -> u32 { self ^ x }
    fn vp_or(self, x: u32) -> (r: u32) { self | x }
    fn vp_and(self, x: u32) -> (r: u32) { self & x }
    fn vp_xor(self, x: u32) -> (r: u32) { self ^ x }
}
impl VpBits for u64 {
    open spec fn o(self, x: u64) -> u64 { self | x }
    open spec fn a(self, x: u64) -> u64 { self & x }
    open spec fn x(self, x: u64) -> u64 { self ^ x }
    fn vp_or(self, x: u64) -> (r: u64) { self | x }
    fn vp_and(self, x: u64) -> (r: u64) { self & x }
    fn vp_xor(self, x: u64) -> (r: u64) { self ^ x }
}
impl VpBits for usize {
    open spec fn o(self, x: usize) -> usize { self | x }
    open spec fn a(self, x: usize) -> usize { self & x }
    open spec fn x(self, x: usize) -> usize { self ^ x }
    fn vp_or(self, x: usize) -> (r: usize) { self | x }
    fn vp_and(self, x: usize) -> (r: usize) { self & x }
    fn vp_xor(self, x: usize) -> (r: usize) { self ^ x }
}
// ---------------------------------------------------------------- iterators
/// Any iterator, seen as the finite sequence of the items it yields and the number already taken.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct It<T> { x: core::marker::PhantomData<T> }

impl<T> It<T> {
    pub uninterp spec fn all(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures
            final(self).all() == old(self).all(),
            old(self).pos() < old(self).all().len() ==> r == Some(old(self).all()[old(self).pos()]) && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self).all().len() ==> r.is_none() && final(self).pos() == old(self).pos(),
    { unimplemented!() }
    /// `while let Some(x) = it.next() {..}` is printed `while it.vp_has_next() { let x = it.vp_next(); .. }`
    #[verifier::external_body]
    pub fn vp_has_next(&self) -> (r: bool)
        ensures r == (self.pos() < self.all().len()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_next(&mut self) -> (r: T)
        requires old(self).pos() < old(self).all().len(),
        ensures
            final(self).all() == old(self).all(),
            r == old(self).all()[old(self).pos()],
            final(self).pos() == old(self).pos() + 1,
    { unimplemented!() }
    /// `map` with the rest consumed afterwards
    #[verifier::external_body]
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: It<U>)
        requires self.pos() == 0, forall|x: T| self.all().contains(x) ==> f.requires((x,)),
        ensures
            r.pos() == 0,
            r.all().len() == self.all().len(),
            forall|i: int| #![trigger r.all()[i]] #![trigger self.all()[i]] 0 <= i < self.all().len() ==> f.ensures((self.all()[i],), r.all()[i]) && r.all().contains(r.all()[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires self.pos() == 0, forall|x: T| self.all().contains(x) ==> #[trigger] f.requires((&x,)),
        ensures
            r.pos() == 0,
            forall|x: T| #[trigger] r.all().contains(x) ==> self.all().contains(x) && f.ensures((&x,), true),
            forall|x: T| #[trigger] self.all().contains(x) ==> r.all().contains(x) || f.ensures((&x,), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: It<T>)
        requires self.pos() == 0,
        ensures r.pos() == 0, r.all() == (if n <= self.all().len() { self.all().skip(n as int) } else { Seq::<T>::empty() }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: It<T>)
        requires self.pos() == 0,
        ensures r.pos() == 0, r.all() == (if n <= self.all().len() { self.all().take(n as int) } else { self.all() }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: It<T>)
        requires self.pos() == 0,
        ensures
            r.pos() == 0, r.all().len() == self.all().len(),
            forall|i: int| #![trigger r.all()[i]] 0 <= i < r.all().len() ==> r.all()[i] == self.all()[r.all().len() - 1 - i] && self.all().contains(r.all()[i]),
            forall|x: T| #![trigger r.all().contains(x)] #![trigger self.all().contains(x)] r.all().contains(x) == self.all().contains(x),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn chain<J: VpIntoIter<T = T>>(self, j: J) -> (r: It<T>)
        requires self.pos() == 0,
        ensures r.pos() == 0, r.all() == self.all() + j.vp_seq(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize)
        ensures r == self.all().len() - self.pos(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn any<F: Fn(T) -> bool>(&mut self, f: F) -> (r: bool)
        requires old(self).pos() == 0, forall|x: T| old(self).all().contains(x) ==> #[trigger] f.requires((x,)),
        ensures
            final(self).all() == old(self).all(),
            r ==> exists|x: T| old(self).all().contains(x) && f.ensures((x,), true),
            !r ==> forall|x: T| #[trigger] old(self).all().contains(x) ==> f.ensures((x,), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_all_<F: Fn(T) -> bool>(&mut self, f: F) -> (r: bool)
        requires old(self).pos() == 0, forall|x: T| old(self).all().contains(x) ==> #[trigger] f.requires((x,)),
        ensures
            final(self).all() == old(self).all(),
            !r ==> exists|x: T| old(self).all().contains(x) && f.ensures((x,), false),
            r ==> forall|x: T| #[trigger] old(self).all().contains(x) ==> f.ensures((x,), true),
    { unimplemented!() }
}
impl<'a, T: Copy> It<&'a T> {
    #[verifier::external_body]
    pub fn copied(self) -> (r: It<T>)
        requires self.pos() == 0,
        ensures
            r.pos() == 0, r.all().len() == self.all().len(),
            forall|i: int| #![trigger r.all()[i]] #![trigger self.all()[i]] 0 <= i < r.all().len() ==> r.all()[i] == *self.all()[i],
    { unimplemented!() }
}

pub trait VpIntoIter {
    type T;
    spec fn vp_seq(&self) -> Seq<Self::T>;
    fn vp_into_iter(self) -> (r: It<Self::T>) where Self: Sized
        ensures r.all() == self.vp_seq(), r.pos() == 0;
}
impl<T> VpIntoIter for It<T> {
    type T = T;
    open spec fn vp_seq(&self) -> Seq<T> { self.all().skip(self.pos()) }
    #[verifier::external_body]
    fn vp_into_iter(self) -> (r: It<T>) { unimplemented!() }
}
impl<T> VpIntoIter for Vec<T> {
    type T = T;
    open spec fn vp_seq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vp_into_iter(self) -> (r: It<T>) { unimplemented!() }
}
impl<'a, T> VpIntoIter for &'a Vec<T> {
    type T = &'a T;
    open spec fn vp_seq(&self) -> Seq<&'a T> { self@.map_values(|x: T| &x) }
    #[verifier::external_body]
    fn vp_into_iter(self) -> (r: It<&'a T>) { unimplemented!() }
}
impl<'a, T> VpIntoIter for &'a [T] {
    type T = &'a T;
    open spec fn vp_seq(&self) -> Seq<&'a T> { self@.map_values(|x: T| &x) }
    #[verifier::external_body]
    fn vp_into_iter(self) -> (r: It<&'a T>) { unimplemented!() }
}

/// `iter()` of a collection
pub trait VpIter {
    type U;
    spec fn vp_iseq(&self) -> Seq<Self::U>;
    fn vp_iter<'a>(&'a self) -> (r: It<&'a Self::U>)
        ensures r.pos() == 0, r.all().len() == self.vp_iseq().len(), forall|i: int| #![trigger r.all()[i]] #![trigger self.vp_iseq()[i]] 0 <= i < r.all().len() ==> *r.all()[i] == self.vp_iseq()[i];
}
impl<T> VpIter for Vec<T> {
    type U = T;
    open spec fn vp_iseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vp_iter<'a>(&'a self) -> (r: It<&'a T>) { unimplemented!() }
}
pub trait VpExtend<T> {
    spec fn vp_ext_view(&self) -> Seq<T>;
    fn vp_extend<I: VpIntoIter<T = T>>(&mut self, it: I)
        ensures final(self).vp_ext_view() == old(self).vp_ext_view() + it.vp_seq();
}
impl<T> VpExtend<T> for Vec<T> {
    open spec fn vp_ext_view(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vp_extend<I: VpIntoIter<T = T>>(&mut self, it: I) { unimplemented!() }
}

pub use vp_lemmas::*;
pub mod vp_lemmas {
use vstd::prelude::*;
pub broadcast group group_vp { vstd::seq_lib::lemma_seq_contains_after_push, lemma_seen_step, lemma_seen_all, lemma_skip_0 }
/// `x` is one of the first `k` items of `s`
pub open spec fn seen<T>(s: Seq<T>, k: int, x: T) -> bool {
    exists|j: int| 0 <= j < k && #[trigger] s[j] == x
}
pub broadcast proof fn lemma_seen_all<T>(s: Seq<T>, k: int, x: T)
    ensures k == s.len() ==> #[trigger] seen(s, k, x) == s.contains(x),
{
    if k == s.len() && s.contains(x) {
        let j = choose|j: int| 0 <= j < s.len() && s[j] == x;
        assert(seen(s, k, x));
    }
}
pub broadcast proof fn lemma_skip_0<T>(s: Seq<T>, n: int)
    ensures n == 0 ==> #[trigger] s.skip(n) == s,
{
    if n == 0 { assert(s.skip(n) =~= s); }
}
pub broadcast proof fn lemma_seen_step<T>(s: Seq<T>, k: int, x: T)
    requires 0 <= k,
    ensures #[trigger] seen(s, k + 1, x) == (seen(s, k, x) || s[k] == x),
{
    if seen(s, k + 1, x) {
        let j = choose|j: int| 0 <= j < k + 1 && #[trigger] s[j] == x;
        if j < k { assert(seen(s, k, x)); }
    }
    if s[k] == x { assert(seen(s, k + 1, x)); }
    if seen(s, k, x) {
        let j = choose|j: int| 0 <= j < k && #[trigger] s[j] == x;
        assert(seen(s, k + 1, x));
    }
}
}
} // verus!
