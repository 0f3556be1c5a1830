verus! {
// ---------------------------------------------------------------- TypeId, anymap, atomic_refcell
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
pub struct TypeId { pub x: u128 }
pub use vp_anymap::*;
pub mod vp_anymap {
use vstd::prelude::*;
use super::TypeId;
/// one value for every type (that different types have different ones is a promise of std)
pub uninterp spec fn vp_tid<T>() -> TypeId;
impl TypeId {
    #[verifier::external_body]
    pub fn of<T>() -> (r: TypeId)
        ensures r == vp_tid::<T>(),
    { unimplemented!() }
}
/// a value of some type
#[verifier::external_body]
pub struct VpAny { x: u8 }
impl VpAny {
    pub uninterp spec fn ty(&self) -> TypeId;
    /// the place in memory of a cell
    pub uninterp spec fn loc(&self) -> Loc;
}
pub ghost struct Loc { pub key: TypeId, pub id: int }
pub uninterp spec fn vp_as<T>(a: VpAny) -> T;
pub uninterp spec fn vp_box<T>(t: T) -> VpAny;

#[verifier::external_body]
pub struct AnyMap { x: u8 }
impl View for AnyMap {
    type V = Map<TypeId, VpAny>;
    uninterp spec fn view(&self) -> Map<TypeId, VpAny>;
}
impl AnyMap {
    #[verifier::external_body]
    pub fn new() -> (r: AnyMap)
        ensures r@ == Map::<TypeId, VpAny>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert<T>(&mut self, t: T) -> (r: Option<T>)
        ensures
            final(self)@ == old(self)@.insert(vp_tid::<T>(), vp_box(t)),
            r == (if old(self)@.dom().contains(vp_tid::<T>()) { Some(vp_as::<T>(old(self)@[vp_tid::<T>()])) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<T>(&mut self) -> (r: Option<T>)
        ensures
            final(self)@ == old(self)@.remove(vp_tid::<T>()),
            r == (if old(self)@.dom().contains(vp_tid::<T>()) { Some(vp_as::<T>(old(self)@[vp_tid::<T>()])) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.dom().len(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self@.dom().len() == 0),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains<T>(&self) -> (r: bool)
        ensures r == self@.dom().contains(vp_tid::<T>()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get<T>(&self) -> (r: Option<&T>)
        ensures
            r.is_some() == self@.dom().contains(vp_tid::<T>()),
            r.is_some() ==> *r->0 == vp_as::<T>(self@[vp_tid::<T>()]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<T>(&mut self) -> (r: Option<&mut T>)
        ensures
            r.is_some() == old(self)@.dom().contains(vp_tid::<T>()),
            r.is_some() ==> *r->0 == vp_as::<T>(old(self)@[vp_tid::<T>()]) && final(self)@ == old(self)@.insert(vp_tid::<T>(), vp_box(*final(r->0))),
            r.is_none() ==> final(self)@ == old(self)@,
    { unimplemented!() }
}

#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct AtomicRefCell<T> { x: core::marker::PhantomData<T> }
/// A borrow. Through a shared cell only its origin is known; values are followed in the exclusive reading.
pub struct AtomicRef<'a, T> { pub value: &'a T, pub origin: Ghost<Loc> }
pub struct BorrowError;
pub struct BorrowMutError;
pub struct AtomicRefMut<'a, T> { pub value: &'a mut T, pub origin: Ghost<Loc> }
/// how often each borrow was tried: where, and whether exclusive (a cell refuses one exactly if it conflicts with one that is held)
pub tracked struct VpLog { pub ghost tried: spec_fn((Loc, bool)) -> nat }
pub open spec fn vp_one(x: (Loc, bool), l: Loc, exclusive: bool) -> nat { if x == (l, exclusive) { 1 } else { 0 } }
impl<T> AtomicRefCell<T> {
    pub uninterp spec fn val(&self) -> T;
    pub uninterp spec fn loc(&self) -> Loc;
    #[verifier::external_body]
    pub fn new(t: T) -> (r: AtomicRefCell<T>)
        ensures r.val() == t,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: T)
        ensures r == self.val(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self) -> (r: &mut T)
        ensures *r == old(self).val(), final(self).val() == *final(r), final(self).loc() == old(self).loc(),
    { unimplemented!() }
    /// the same two, recording what they try
    #[verifier::external_body]
    pub fn vp_try_shared(&self, Tracked(vp_l): Tracked<&mut VpLog>) -> (r: AtomicRef<'_, T>)
        ensures forall|x: (Loc, bool)| #[trigger] (final(vp_l).tried)(x) == (old(vp_l).tried)(x) + vp_one(x, self.loc(), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_try_exclusive(&self, Tracked(vp_l): Tracked<&mut VpLog>) -> (r: AtomicRefMut<'_, T>)
        ensures forall|x: (Loc, bool)| #[trigger] (final(vp_l).tried)(x) == (old(vp_l).tried)(x) + vp_one(x, self.loc(), true),
    { unimplemented!() }
    /// panics if it is borrowed mutably
    #[verifier::external_body]
    pub fn borrow<'a>(&'a self) -> (r: AtomicRef<'a, T>)
        ensures *r.value == self.val(), r.origin@ == self.loc(),
    { unimplemented!() }
    /// panics if it is borrowed
    #[verifier::external_body]
    pub fn borrow_mut<'a>(&'a self) -> (r: AtomicRefMut<'a, T>)
        ensures r.origin@ == self.loc(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn try_borrow<'a>(&'a self) -> (r: Result<AtomicRef<'a, T>, BorrowError>)
        ensures r is Ok ==> *r->Ok_0.value == self.val() && r->Ok_0.origin@ == self.loc(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn try_borrow_mut<'a>(&'a self) -> (r: Result<AtomicRefMut<'a, T>, BorrowMutError>)
        ensures r is Ok ==> r->Ok_0.origin@ == self.loc(),
    { unimplemented!() }
    /// `borrow_mut`, in the exclusive reading
    #[verifier::external_body]
    pub fn vp_borrow_mut<'a>(&'a mut self) -> (r: AtomicRefMut<'a, T>)
        ensures *r.value == old(self).val(), final(self).val() == *final(r.value), r.origin@ == old(self).loc(), final(self).loc() == old(self).loc(),
    { unimplemented!() }
}
impl<'a, T> AtomicRef<'a, T> {
    #[verifier::external_body]
    pub fn map<U, F: FnOnce(&T) -> &U>(orig: AtomicRef<'a, T>, f: F) -> (r: AtomicRef<'a, U>)
        requires f.requires((orig.value,)),
        ensures f.ensures((orig.value,), r.value), r.origin == orig.origin,
    { unimplemented!() }
}
impl<'a, T> AtomicRefMut<'a, T> {
    #[verifier::external_body]
    pub fn map<U, F: FnOnce(&mut T) -> &mut U>(orig: AtomicRefMut<'a, T>, f: F) -> (r: AtomicRefMut<'a, U>)
        requires f.requires((orig.value,)),
        ensures f.ensures((orig.value,), r.value), r.origin == orig.origin,
    { unimplemented!() }
}
#[verifier::external_body]
pub broadcast proof fn axiom_box<T>(t: T)
    ensures vp_as::<T>(#[trigger] vp_box(t)) == t, vp_box(t).ty() == vp_tid::<T>(),
{}
/// a map holds a value of the type of the key
#[verifier::external_body]
pub broadcast proof fn axiom_ty(m: AnyMap, k: TypeId)
    ensures m@.dom().contains(k) ==> #[trigger] m@[k].ty() == k,
{}
#[verifier::external_body]
pub broadcast proof fn axiom_loc<T>(a: VpAny)
    ensures a.ty() == vp_tid::<AtomicRefCell<T>>() ==> #[trigger] vp_as::<AtomicRefCell<T>>(a).loc() == a.loc(),
{}
#[verifier::external_body]
pub broadcast proof fn axiom_loc_key(a: VpAny)
    ensures #[trigger] a.loc().key == a.ty(),
{}
pub broadcast group group_any { axiom_box, axiom_ty, axiom_loc, axiom_loc_key }
/// `ResourceSet`'s cell type of a resource type, and the component storage of a component type
pub uninterp spec fn vp_key(t: TypeId) -> TypeId;
pub uninterp spec fn vp_storage_key(t: TypeId) -> TypeId;
}
// ---------------------------------------------------------------- std::iter
pub mod iter {
    use vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    pub fn once<T>(x: T) -> (r: It<T>)
        ensures r.all() == seq![x], r.pos() == 0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn empty<T>() -> (r: It<T>)
        ensures r.all() == Seq::<T>::empty(), r.pos() == 0,
    { unimplemented!() }
}
} // verus!
