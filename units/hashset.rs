verus! {
pub mod vp_hash {
use vstd::prelude::*;
/// the order in which the elements are visited
pub uninterp spec fn vp_listing<R>(s: Set<R>) -> Seq<R>;
#[verifier::external_body]
pub broadcast proof fn axiom_listing<R>(s: Set<R>, x: R)
    ensures #[trigger] vp_listing(s).contains(x) == s.contains(x),
{}
#[verifier::external_body]
pub broadcast proof fn axiom_listing_refs<R>(s: Set<R>, x: R)
    ensures
        #![trigger vp_refs(vp_listing(s)).contains(&x)]
        #![trigger vp_refs(vp_listing(s)), s.contains(x)]
        vp_refs(vp_listing(s)).contains(&x) == s.contains(x),
{}
pub open spec fn vp_refs<'a, R>(s: Seq<R>) -> Seq<&'a R> { s.map_values(|x: R| &x) }
}
// ---------------------------------------------------------------- HashSet (std), for item types with a correct Eq and Hash
#[verifier::external_body]
#[verifier::accept_recursive_types(R)]
pub struct HashSet<R> { x: core::marker::PhantomData<R> }
impl<R> View for HashSet<R> {
    type V = Set<R>;
    uninterp spec fn view(&self) -> Set<R>;
}
pub use vp_hash::*;
impl<R> Clone for HashSet<R> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r@ == self@,
    { unimplemented!() }
}
impl<R> HashSet<R> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.len(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_subset(&self, other: &HashSet<R>) -> (r: bool)
        ensures r == self@.subset_of(other@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_superset(&self, other: &HashSet<R>) -> (r: bool)
        ensures r == other@.subset_of(self@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self)
        ensures final(self)@ == Set::<R>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: HashSet<R>)
        ensures r@ == Set::<R>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn reserve(&mut self, n: usize)
        ensures final(self)@ == old(self)@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn shrink_to_fit(&mut self)
        ensures final(self)@ == old(self)@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn capacity(&self) -> (r: usize)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: HashSet<R>)
        ensures r@ == Set::<R>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, x: &R) -> (r: bool)
        ensures r == self@.contains(*x),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: R) -> (r: bool)
        ensures r == !old(self)@.contains(x), final(self)@ == old(self)@.insert(x),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, x: &R) -> (r: bool)
        ensures r == old(self)@.contains(*x), final(self)@ == old(self)@.remove(*x),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self@ == Set::<R>::empty()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_disjoint(&self, other: &HashSet<R>) -> (r: bool)
        ensures r == (forall|x: R| !(#[trigger] self@.contains(x) && other@.contains(x))),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_iter<'a>(&'a self) -> (r: It<&'a R>)
        ensures r.pos() == 0, r.all() == vp_refs(vp_listing(self@)),
            forall|i: int| 0 <= i < r.all().len() ==> self@.contains(*#[trigger] r.all()[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn intersection<'a>(&'a self, other: &'a HashSet<R>) -> (r: It<&'a R>)
        ensures r.pos() == 0, forall|x: &R| #[trigger] r.all().contains(x) == (self@.contains(*x) && other@.contains(*x)),
            r.all().len() > 0 ==> self@.contains(*r.all()[0]) && other@.contains(*r.all()[0]),
            forall|x: R| #![trigger self@.contains(x), other@.contains(x)] self@.contains(x) && other@.contains(x) ==> r.all().len() > 0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn difference<'a>(&'a self, other: &'a HashSet<R>) -> (r: It<&'a R>)
        ensures r.pos() == 0, forall|x: &R| #[trigger] r.all().contains(x) == (self@.contains(*x) && !other@.contains(*x)),
    { unimplemented!() }
}
impl<R> VpIntoIter for HashSet<R> {
    type T = R;
    open spec fn vp_seq(&self) -> Seq<R> { vp_listing(self@) }
    #[verifier::external_body]
    fn vp_into_iter(self) -> (r: It<R>) { unimplemented!() }
}
impl<'a, R> VpIntoIter for &'a HashSet<R> {
    type T = &'a R;
    open spec fn vp_seq(&self) -> Seq<&'a R> { vp_refs(vp_listing(self@)) }
    #[verifier::external_body]
    fn vp_into_iter(self) -> (r: It<&'a R>) { unimplemented!() }
}
impl<R> VpExtend<R> for HashSet<R> {
    uninterp spec fn vp_ext_view(&self) -> Seq<R>;
    #[verifier::external_body]
    fn vp_extend<I: VpIntoIter<T = R>>(&mut self, it: I)
        ensures forall|x: R| #[trigger] final(self)@.contains(x) == (old(self)@.contains(x) || it.vp_seq().contains(x)),
    { unimplemented!() }
}
/// a clone is equal to its original
pub trait VpClone: Sized {
    fn clone(&self) -> (r: Self)
        ensures r == *self;
}
pub trait VpCollect<T>: Sized {
    /// collected from these items
    spec fn from(&self, s: Seq<T>) -> bool;
}
impl<R> VpCollect<R> for HashSet<R> {
    open spec fn from(&self, s: Seq<R>) -> bool { forall|x: R| #[trigger] self@.contains(x) == s.contains(x) }
}
impl<'a, T: VpClone> It<&'a T> {
    #[verifier::external_body]
    pub fn cloned(self) -> (r: It<T>)
        requires self.pos() == 0,
        ensures
            r.pos() == 0, r.all().len() == self.all().len(),
            forall|x: T| #![trigger r.all().contains(x)] #![trigger self.all().contains(&x)] r.all().contains(x) == self.all().contains(&x),
            forall|i: int| #![trigger r.all()[i]] #![trigger self.all()[i]] 0 <= i < r.all().len() ==> r.all()[i] == *self.all()[i],
    { unimplemented!() }
}
impl<T> It<T> {
    #[verifier::external_body]
    pub fn vp_collect<C: VpCollect<T>>(self) -> (r: C)
        requires self.pos() == 0,
        ensures r.from(self.all()),
    { unimplemented!() }
}
} // verus!
