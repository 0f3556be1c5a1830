verus! {
// ---------------------------------------------------------------- sets of indexes (hibitset)
/// Indexes below 64^4 are representable.
pub open spec fn BIT_LIMIT() -> int { 0x100_0000 }
pub trait BitSetLike: Sized {
    spec fn has(&self, i: u32) -> bool;
    fn contains(&self, i: u32) -> (r: bool)
        ensures i < BIT_LIMIT() ==> r == self.has(i);
    fn vp_iter(self) -> (r: BitIter<Self>)
        ensures
            r.set() == self, r.pos() == 0,
            forall|j: int, k: int| 0 <= j < k < r.all().len() ==> #[trigger] r.all()[j] < #[trigger] r.all()[k],
            forall|k: int| 0 <= k < r.all().len() ==> self.has(#[trigger] r.all()[k]) && r.all()[k] < BIT_LIMIT(),
            forall|i: u32| self.has(i) && i < BIT_LIMIT() ==> #[trigger] r.all().contains(i);
}
/// a combinator may fail to notice that it is empty
pub trait VpIsEmpty: BitSetLike {
    fn is_empty(&self) -> (r: bool)
        ensures r ==> forall|i: u32| #![trigger self.has(i)] i < BIT_LIMIT() ==> !self.has(i);
}
impl<B: BitSetLike> VpIsEmpty for B {
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(B)]
pub struct BitIter<B> { x: core::marker::PhantomData<B> }
impl<B> BitIter<B> {
    pub uninterp spec fn set(&self) -> B;
    pub uninterp spec fn all(&self) -> Seq<u32>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<u32>)
        ensures
            final(self).set() == old(self).set(),
            final(self).all() == old(self).all(),
            old(self).pos() < old(self).all().len() ==> r == Some(old(self).all()[old(self).pos()]) && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self).all().len() ==> r.is_none() && final(self).pos() == old(self).pos(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: It<u32>)
        requires self.pos() == 0,
        ensures r.pos() == 0, r.all() == (if n <= self.all().len() { self.all().skip(n as int) } else { Seq::<u32>::empty() }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: It<u32>)
        requires self.pos() == 0,
        ensures r.pos() == 0, r.all() == (if n <= self.all().len() { self.all().take(n as int) } else { self.all() }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn filter<F: Fn(&u32) -> bool>(self, f: F) -> (r: It<u32>)
        requires self.pos() == 0, forall|x: u32| self.all().contains(x) ==> #[trigger] f.requires((&x,)),
        ensures
            r.pos() == 0,
            forall|x: u32| #[trigger] r.all().contains(x) ==> self.all().contains(x) && f.ensures((&x,), true),
            forall|x: u32| #[trigger] self.all().contains(x) ==> r.all().contains(x) || f.ensures((&x,), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize)
        ensures r == self.all().len() - self.pos(),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct BitSet { x: u8 }
#[verifier::external_body]
pub struct AtomicBitSet { x: u8 }
impl View for BitSet { type V = Set<u32>; uninterp spec fn view(&self) -> Set<u32>; }
impl View for AtomicBitSet { type V = Set<u32>; uninterp spec fn view(&self) -> Set<u32>; }
pub struct BitSetAll;
pub struct BitSetNot<A>(pub A);
pub struct BitSetAnd<A, B>(pub A, pub B);
pub struct BitSetOr<A, B>(pub A, pub B);
pub struct BitSetXor<A, B>(pub A, pub B);
impl BitSetLike for BitSet {
    open spec fn has(&self, i: u32) -> bool { self@.contains(i) }
    #[verifier::external_body]
    fn contains(&self, i: u32) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vp_iter(self) -> (r: BitIter<Self>) { unimplemented!() }
}
impl BitSetLike for AtomicBitSet {
    open spec fn has(&self, i: u32) -> bool { self@.contains(i) }
    #[verifier::external_body]
    fn contains(&self, i: u32) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vp_iter(self) -> (r: BitIter<Self>) { unimplemented!() }
}
impl<'a, B: BitSetLike> BitSetLike for &'a B {
    open spec fn has(&self, i: u32) -> bool { (**self).has(i) }
    #[verifier::external_body]
    fn contains(&self, i: u32) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vp_iter(self) -> (r: BitIter<Self>) { unimplemented!() }
}
impl BitSetLike for BitSetAll {
    open spec fn has(&self, i: u32) -> bool { true }
    #[verifier::external_body]
    fn contains(&self, i: u32) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vp_iter(self) -> (r: BitIter<Self>) { unimplemented!() }
}
impl<A: BitSetLike> BitSetLike for BitSetNot<A> {
    open spec fn has(&self, i: u32) -> bool { !self.0.has(i) }
    #[verifier::external_body]
    fn contains(&self, i: u32) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vp_iter(self) -> (r: BitIter<Self>) { unimplemented!() }
}
impl<A: BitSetLike, B: BitSetLike> BitSetLike for BitSetAnd<A, B> {
    open spec fn has(&self, i: u32) -> bool { self.0.has(i) && self.1.has(i) }
    #[verifier::external_body]
    fn contains(&self, i: u32) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vp_iter(self) -> (r: BitIter<Self>) { unimplemented!() }
}
impl<A: BitSetLike, B: BitSetLike> BitSetLike for BitSetOr<A, B> {
    open spec fn has(&self, i: u32) -> bool { self.0.has(i) || self.1.has(i) }
    #[verifier::external_body]
    fn contains(&self, i: u32) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vp_iter(self) -> (r: BitIter<Self>) { unimplemented!() }
}
impl<A: BitSetLike, B: BitSetLike> BitSetLike for BitSetXor<A, B> {
    open spec fn has(&self, i: u32) -> bool { self.0.has(i) != self.1.has(i) }
    #[verifier::external_body]
    fn contains(&self, i: u32) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vp_iter(self) -> (r: BitIter<Self>) { unimplemented!() }
}

} // verus!
//@include jointrait.inc
