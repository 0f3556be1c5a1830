//@import world.tpl m_world
//@own
verus! {
pub open spec fn vp_small() -> bool { false }
//@type src/join.rs | Index
broadcast use {vp_lemmas::group_vp, vp_anymap::group_any, vp_hm::group_hm, vp_comps::group_touch, vp_unbox::axiom_unbox};
// ---------------------------------------------------------------- dyn Any
impl VpAny {
    #[verifier::external_body]
    pub fn downcast_ref<T>(&self) -> (r: Option<&T>)
        ensures r.is_some() == (self.ty() == vp_tid::<T>()), r.is_some() ==> *r->0 == vp_as::<T>(*self),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn downcast_mut<T>(&mut self) -> (r: Option<&mut T>)
        ensures
            r.is_some() == (old(self).ty() == vp_tid::<T>()),
            r.is_some() ==> *r->0 == vp_as::<T>(*old(self)) && *final(self) == vp_box(*final(r->0)),
            r.is_none() ==> *final(self) == *old(self),
    { unimplemented!() }
}
/// `Box<dyn Any>`
#[verifier::external_body]
pub struct VpBoxAny { x: u8 }
impl VpBoxAny {
    pub uninterp spec fn any(&self) -> VpAny;
    #[verifier::external_body]
    pub fn downcast<T>(self) -> (r: Result<Box<T>, VpBoxAny>)
        ensures r is Ok == (self.any().ty() == vp_tid::<T>()), r is Ok ==> *r->Ok_0 == vp_as::<T>(self.any()),
    { unimplemented!() }
}
pub use vp_unbox::*;
pub mod vp_unbox {
use vstd::prelude::*;
use super::{VpAny, vp_box, vp_as, vp_tid};
/// a value of some type is the value it is of that type
#[verifier::external_body]
pub broadcast proof fn axiom_unbox<T>(a: VpAny)
    ensures a.ty() == vp_tid::<T>() ==> vp_box(#[trigger] vp_as::<T>(a)) == a,
{}
}
// the coercions to `dyn Any`
#[verifier::external_body]
pub fn vp_dyn<T>(x: &T) -> (r: &VpAny)
    ensures *r == vp_box(*x),
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_dyn_mut<T>(x: &mut T) -> (r: &mut VpAny)
    ensures *r == vp_box(*old(x)), *final(x) == vp_as::<T>(*final(r)),
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_dyn_box<T>(x: T) -> (r: VpBoxAny)
    ensures r.any() == vp_box(x),
{ unimplemented!() }

// ---------------------------------------------------------------- components of any type
impl World {
    /// nothing but components differs
    pub open spec fn frame(&self, o: &World) -> bool {
        self.allocator == o.allocator && self.resources == o.resources && self.components.resources@.dom() =~= o.components.resources@.dom()
    }
    /// the component `c` was put in place for `e`, and nothing else changed
    pub open spec fn put(&self, o: &World, e: Entity, c: VpAny) -> bool {
        forall|t: TypeId, i: u32| #![trigger self.comp(t, i)] #![trigger o.comp(t, i)] o.has(t) ==> self.comp(t, i) == (if t == c.ty() && i == e.index { Some(c) } else { o.comp(t, i) })
    }
    /// the same with a clone of `c`
    pub open spec fn put_copy(&self, o: &World, e: Entity, c: VpAny) -> bool {
        forall|t: TypeId, i: u32| #![trigger self.comp(t, i)] #![trigger o.comp(t, i)] o.has(t) ==> (if t == c.ty() && i == e.index { self.comp(t, i).is_some() && vp_copy(c, self.comp(t, i)->0) } else { self.comp(t, i) == o.comp(t, i) })
    }
    pub open spec fn same(&self, o: &World) -> bool {
        forall|t: TypeId, i: u32| #![trigger self.comp(t, i)] #![trigger o.comp(t, i)] o.has(t) ==> self.comp(t, i) == o.comp(t, i)
    }
}
/// `b` is what cloning `a` may give
pub uninterp spec fn vp_copy(a: VpAny, b: VpAny) -> bool;
pub trait AnyComponent: Sized {
    spec fn any(self) -> VpAny;
    fn insert_into_world(self, world: &mut World, entity: Entity) -> (r: Result<bool, WrongGeneration>)
        requires old(world).wf(),
        ensures
            old(world).has(self.any().ty()),
            final(world).wf(), final(world).frame(old(world)),
            r is Ok == old(world).allocator.lives(entity),
            r is Ok ==> r->Ok_0 == old(world).comp(self.any().ty(), entity.index).is_some() && final(world).put(old(world), entity, self.any()),
            r is Err ==> final(world).same(old(world));
    fn as_any(&self) -> (r: &VpAny)
        ensures *r == self.any();
    fn as_any_mut(&mut self) -> (r: &mut VpAny)
        ensures *r == old(self).any(), (*final(r)).ty() == old(self).any().ty() ==> final(self).any() == *final(r);
    fn into_any(self) -> (r: VpBoxAny)
        ensures r.any() == self.any();
}
//@impl src/any_components.rs | AnyComponent for C
    open spec fn any(self) -> VpAny { vp_box(self) }
//@fn src/any_components.rs | AnyComponent for C :: insert_into_world | map self : Box < Self > => self ; map * self => self
//@ret r
//@entry
    broadcast use {vp_comps::group_comps, vp_key_::axiom_key};
//@end
//@fn src/any_components.rs | AnyComponent for C :: as_any | wraptail=vp_dyn ; map & dyn Any => & VpAny
//@ret r
//@end
//@fn src/any_components.rs | AnyComponent for C :: as_any_mut | wraptail=vp_dyn_mut ; map & mut dyn Any => & mut VpAny
//@ret r
//@end
//@fn src/any_components.rs | AnyComponent for C :: into_any | wraptail=vp_dyn_box ; map self : Box < Self > => self ; map Box < dyn Any > => VpBoxAny
//@ret r
//@end
}
// ---------------------------------------------------------------- sets of components
/// `Box<dyn AnyComponent>`: a component of some type, known by the contracts of the trait
#[verifier::external_body]
pub struct VpBoxC { x: u8 }
impl VpBoxC {
    pub uninterp spec fn of(self) -> VpAny;
    #[verifier::external_body]
    pub fn vp_new<C: AnyComponent>(c: C) -> (r: VpBoxC)
        ensures r.any() == c.any(),
    { unimplemented!() }
}
impl AnyComponent for VpBoxC {
    open spec fn any(self) -> VpAny { self.of() }
    #[verifier::external_body]
    fn insert_into_world(self, world: &mut World, entity: Entity) -> (r: Result<bool, WrongGeneration>) { unimplemented!() }
    #[verifier::external_body]
    fn as_any(&self) -> (r: &VpAny) { unimplemented!() }
    #[verifier::external_body]
    fn as_any_mut(&mut self) -> (r: &mut VpAny) { unimplemented!() }
    #[verifier::external_body]
    fn into_any(self) -> (r: VpBoxAny) { unimplemented!() }
}
#[verifier::external_body]
pub broadcast proof fn axiom_copy<C: Clone>(a: VpAny, b: VpAny)
    requires a.ty() == vp_tid::<C>(), b.ty() == vp_tid::<C>(),
    ensures #![trigger vp_copy(a, b), vp_tid::<C>()] vp_copy(a, b) == call_ensures(C::clone, (&vp_as::<C>(a),), vp_as::<C>(b)),
{}
pub trait AnyCloneComponent: AnyComponent {
    fn boxed_clone(&self) -> (r: VpBoxC)
        ensures vp_copy(self.any(), r.any()), r.any().ty() == self.any().ty();
    fn clone_into_world(&self, world: &mut World, entity: Entity) -> (r: Result<bool, WrongGeneration>)
        requires old(world).wf(),
        ensures
            old(world).has(self.any().ty()),
            final(world).wf(), final(world).frame(old(world)),
            r is Ok == old(world).allocator.lives(entity),
            r is Ok ==> r->Ok_0 == old(world).comp(self.any().ty(), entity.index).is_some() && final(world).put_copy(old(world), entity, self.any()),
            r is Err ==> final(world).same(old(world));
}
//@impl src/any_components.rs | AnyCloneComponent for C
//@fn src/any_components.rs | AnyCloneComponent for C :: boxed_clone | map Box < dyn AnyComponent > => VpBoxC ; map Box :: new => VpBoxC :: vp_new
//@ret r
//@entry
    broadcast use axiom_copy;
//@end
//@fn src/any_components.rs | AnyCloneComponent for C :: clone_into_world
//@ret r
//@entry
    broadcast use {vp_comps::group_comps, vp_key_::axiom_key, axiom_copy};
//@end
}
/// `Box<dyn AnyCloneComponent>`
#[verifier::external_body]
pub struct VpBoxCC { x: u8 }
impl VpBoxCC {
    pub uninterp spec fn of(self) -> VpAny;
    #[verifier::external_body]
    pub fn vp_new<C: AnyCloneComponent>(c: C) -> (r: VpBoxCC)
        ensures r.any() == c.any(),
    { unimplemented!() }
}
impl AnyComponent for VpBoxCC {
    open spec fn any(self) -> VpAny { self.of() }
    #[verifier::external_body]
    fn insert_into_world(self, world: &mut World, entity: Entity) -> (r: Result<bool, WrongGeneration>) { unimplemented!() }
    #[verifier::external_body]
    fn as_any(&self) -> (r: &VpAny) { unimplemented!() }
    #[verifier::external_body]
    fn as_any_mut(&mut self) -> (r: &mut VpAny) { unimplemented!() }
    #[verifier::external_body]
    fn into_any(self) -> (r: VpBoxAny) { unimplemented!() }
}
impl AnyCloneComponent for VpBoxCC {
    #[verifier::external_body]
    fn boxed_clone(&self) -> (r: VpBoxC) { unimplemented!() }
    #[verifier::external_body]
    fn clone_into_world(&self, world: &mut World, entity: Entity) -> (r: Result<bool, WrongGeneration>) { unimplemented!() }
}
//@struct src/any_components.rs | AnyComponentSet | map FxHashMap < TypeId , Box < dyn AnyComponent > > => FxHashMap < TypeId , VpBoxC >
pub open spec fn vp_typed(m: Map<TypeId, VpBoxC>) -> bool { forall|t: TypeId| m.contains_key(t) ==> (#[trigger] m[t]).any().ty() == t }
impl AnyComponentSet {
    pub open spec fn wf(&self) -> bool { vp_typed(self.components@) }
    pub open spec fn has(&self, t: TypeId) -> bool { self.components@.contains_key(t) }
    /// the component of type `t`
    pub open spec fn at(&self, t: TypeId) -> VpAny { self.components@[t].any() }
    /// nothing but type `t` differs
    pub open spec fn only(&self, o: &AnyComponentSet, t: TypeId) -> bool {
        forall|u: TypeId| u != t ==> #[trigger] self.has(u) == o.has(u) && (o.has(u) ==> self.at(u) == o.at(u))
    }
}
impl Default for AnyComponentSet {
//@derive_default src/any_components.rs | AnyComponentSet | id=AnyComponentSet::default
//@ret r
//@spec
    ensures r.wf(), forall|t: TypeId| !#[trigger] r.has(t),
//@end
}
//@impl src/any_components.rs | AnyComponentSet
//@fn src/any_components.rs | AnyComponentSet :: new | map Self :: default => < Self as Default > :: default
//@ret r
//@spec
    ensures r.wf(), forall|t: TypeId| !#[trigger] r.has(t),
//@end
//@fn src/any_components.rs | AnyComponentSet :: contains
//@ret r
//@spec
    ensures r == self.has(vp_tid::<C>()),
//@end
//@fn src/any_components.rs | AnyComponentSet :: get
//@ret r
//@spec
    requires self.wf(),
    ensures r == (if self.has(vp_tid::<C>()) { Some(&vp_as::<C>(self.at(vp_tid::<C>()))) } else { None }),
//@closure 0
-> (vp_r: &C) requires @1.any().ty() == vp_tid::<C>() ensures *vp_r == vp_as::<C>(@1.any())
//@end
//@fn src/any_components.rs | AnyComponentSet :: get_mut
//@ret r
//@spec
    requires old(self).wf(),
    ensures
        r.is_some() == old(self).has(vp_tid::<C>()),
        r.is_none() ==> final(self).components@ == old(self).components@,
        r.is_some() ==> *r->0 == vp_as::<C>(old(self).at(vp_tid::<C>())) && final(self).wf() && final(self).has(vp_tid::<C>()) && vp_as::<C>(final(self).at(vp_tid::<C>())) == *final(r->0) && final(self).only(old(self), vp_tid::<C>()),
//@closure 0
-> (vp_r: &mut C) requires old(@1).any().ty() == vp_tid::<C>() ensures *vp_r == vp_as::<C>(old(@1).any()), final(@1).any() == vp_box(*final(vp_r))
//@end
//@fn src/any_components.rs | AnyComponentSet :: insert | map Box :: new => VpBoxC :: vp_new
//@ret r
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).has(vp_tid::<C>()), final(self).at(vp_tid::<C>()) == vp_box($1), final(self).only(old(self), vp_tid::<C>()),
        r == (if old(self).has(vp_tid::<C>()) { Some(vp_as::<C>(old(self).at(vp_tid::<C>()))) } else { None }),
//@closure 0
-> (vp_r: C) requires @1.any().ty() == vp_tid::<C>() ensures vp_r == vp_as::<C>(@1.any())
//@end
//@fn src/any_components.rs | AnyComponentSet :: remove
//@ret r
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(), !final(self).has(vp_tid::<C>()), final(self).only(old(self), vp_tid::<C>()),
        r == (if old(self).has(vp_tid::<C>()) { Some(vp_as::<C>(old(self).at(vp_tid::<C>()))) } else { None }),
//@closure 0
-> (vp_r: C) requires @1.any().ty() == vp_tid::<C>() ensures vp_r == vp_as::<C>(@1.any())
//@end
//@fn src/any_components.rs | AnyComponentSet :: len
//@ret r
//@spec
    ensures r == self.components@.len(),
//@end
//@fn src/any_components.rs | AnyComponentSet :: merge
//@ret r
//@spec
    requires old(self).wf(), $1.wf(),
    ensures
        final(self).wf(),
        forall|t: TypeId| #[trigger] final(self).has(t) == (old(self).has(t) || $1.has(t)),
        forall|t: TypeId| #[trigger] final(self).has(t) ==> final(self).at(t) == (if $1.has(t) { $1.at(t) } else { old(self).at(t) }),
        r == (exists|t: TypeId| #[trigger] old(self).has(t) && $1.has(t)),
//@loop 0
    self.wf(), $1.wf(),
    forall|t: TypeId| #[trigger] self.components@.dom().contains(t) == (old(self).has(t) || vp_done($1.components@, $i, t)),
    forall|t: TypeId| #[trigger] self.components@.dom().contains(t) ==> self.at(t) == (if vp_done($1.components@, $i, t) { $1.at(t) } else { old(self).at(t) }),
    $bound(false) == (exists|t: TypeId| #[trigger] old(self).has(t) && vp_done($1.components@, $i, t)),
//@end
//@fn src/any_components.rs | AnyComponentSet :: insert_into_world
//@ret r
//@spec
    requires old($1).wf(), self.wf(),
    ensures
        final($1).wf(), final($1).frame(old($1)),
        r is Err == (!old($1).allocator.lives($2) && exists|t: TypeId| #[trigger] self.components@.dom().contains(t)),
        r is Ok ==> forall|t: TypeId| #[trigger] self.has(t) ==> old($1).has(t),
        r is Ok ==> r->Ok_0 == (exists|t: TypeId| #[trigger] self.components@.dom().contains(t) && old($1).comp(t, $2.index).is_some()),
        r is Ok ==> forall|t: TypeId, i: u32| #![trigger final($1).comp(t, i)] #![trigger old($1).comp(t, i)] old($1).has(t) ==> final($1).comp(t, i) == (if i == $2.index && self.has(t) { Some(self.at(t)) } else { old($1).comp(t, i) }),
        r is Err ==> final($1).same(old($1)),
//@loop 0
    self.wf(), $1.wf(), $1.frame(old($1)),
    $i > 0 ==> old($1).allocator.lives($2),
    forall|t: TypeId| #![trigger self.components@.dom().contains(t)] #![trigger vp_done(self.components@, $i, t)] vp_done(self.components@, $i, t) ==> old($1).has(t) && self.has(t),
    $bound(false) == (exists|t: TypeId| #[trigger] self.components@.dom().contains(t) && vp_done(self.components@, $i, t) && old($1).comp(t, $2.index).is_some()),
    forall|t: TypeId, i: u32| #![trigger $1.comp(t, i)] #![trigger old($1).comp(t, i)] old($1).has(t) ==> $1.comp(t, i) == (if i == $2.index && vp_done(self.components@, $i, t) { Some(self.at(t)) } else { old($1).comp(t, i) }),
//@end
}
//@struct src/any_components.rs | AnyCloneComponentSet | map FxHashMap < TypeId , Box < dyn AnyCloneComponent > > => FxHashMap < TypeId , VpBoxCC >
pub open spec fn vp_ctyped(m: Map<TypeId, VpBoxCC>) -> bool { forall|t: TypeId| m.contains_key(t) ==> (#[trigger] m[t]).any().ty() == t }
impl AnyCloneComponentSet {
    pub open spec fn wf(&self) -> bool { vp_ctyped(self.components@) }
    pub open spec fn has(&self, t: TypeId) -> bool { self.components@.contains_key(t) }
    /// the component of type `t`
    pub open spec fn at(&self, t: TypeId) -> VpAny { self.components@[t].any() }
    /// nothing but type `t` differs
    pub open spec fn only(&self, o: &AnyCloneComponentSet, t: TypeId) -> bool {
        forall|u: TypeId| u != t ==> #[trigger] self.has(u) == o.has(u) && (o.has(u) ==> self.at(u) == o.at(u))
    }
}
impl Default for AnyCloneComponentSet {
//@derive_default src/any_components.rs | AnyCloneComponentSet | id=AnyCloneComponentSet::default
//@ret r
//@spec
    ensures r.wf(), forall|t: TypeId| !#[trigger] r.has(t),
//@end
}
//@impl src/any_components.rs | AnyCloneComponentSet
//@fn src/any_components.rs | AnyCloneComponentSet :: new | map Self :: default => < Self as Default > :: default
//@ret r
//@spec
    ensures r.wf(), forall|t: TypeId| !#[trigger] r.has(t),
//@end
//@fn src/any_components.rs | AnyCloneComponentSet :: contains
//@ret r
//@spec
    ensures r == self.has(vp_tid::<C>()),
//@end
//@fn src/any_components.rs | AnyCloneComponentSet :: get
//@ret r
//@spec
    requires self.wf(),
    ensures r == (if self.has(vp_tid::<C>()) { Some(&vp_as::<C>(self.at(vp_tid::<C>()))) } else { None }),
//@closure 0
-> (vp_r: &C) requires @1.any().ty() == vp_tid::<C>() ensures *vp_r == vp_as::<C>(@1.any())
//@end
//@fn src/any_components.rs | AnyCloneComponentSet :: get_mut
//@ret r
//@spec
    requires old(self).wf(),
    ensures
        r.is_some() == old(self).has(vp_tid::<C>()),
        r.is_none() ==> final(self).components@ == old(self).components@,
        r.is_some() ==> *r->0 == vp_as::<C>(old(self).at(vp_tid::<C>())) && final(self).wf() && final(self).has(vp_tid::<C>()) && vp_as::<C>(final(self).at(vp_tid::<C>())) == *final(r->0) && final(self).only(old(self), vp_tid::<C>()),
//@closure 0
-> (vp_r: &mut C) requires old(@1).any().ty() == vp_tid::<C>() ensures *vp_r == vp_as::<C>(old(@1).any()), final(@1).any() == vp_box(*final(vp_r))
//@end
//@fn src/any_components.rs | AnyCloneComponentSet :: insert | map Box :: new => VpBoxCC :: vp_new
//@ret r
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).has(vp_tid::<C>()), final(self).at(vp_tid::<C>()) == vp_box($1), final(self).only(old(self), vp_tid::<C>()),
        r == (if old(self).has(vp_tid::<C>()) { Some(vp_as::<C>(old(self).at(vp_tid::<C>()))) } else { None }),
//@closure 0
-> (vp_r: C) requires @1.any().ty() == vp_tid::<C>() ensures vp_r == vp_as::<C>(@1.any())
//@end
//@fn src/any_components.rs | AnyCloneComponentSet :: merge
//@ret r
//@spec
    requires old(self).wf(), $1.wf(),
    ensures
        final(self).wf(),
        forall|t: TypeId| #[trigger] final(self).has(t) == (old(self).has(t) || $1.has(t)),
        forall|t: TypeId| #[trigger] final(self).has(t) ==> final(self).at(t) == (if $1.has(t) { $1.at(t) } else { old(self).at(t) }),
        r == (exists|t: TypeId| #[trigger] old(self).has(t) && $1.has(t)),
//@loop 0
    self.wf(), $1.wf(),
    forall|t: TypeId| #[trigger] self.components@.dom().contains(t) == (old(self).has(t) || vp_done($1.components@, $i, t)),
    forall|t: TypeId| #[trigger] self.components@.dom().contains(t) ==> self.at(t) == (if vp_done($1.components@, $i, t) { $1.at(t) } else { old(self).at(t) }),
    $bound(false) == (exists|t: TypeId| #[trigger] old(self).has(t) && vp_done($1.components@, $i, t)),
//@end
//@fn src/any_components.rs | AnyCloneComponentSet :: insert_into_world
//@ret r
//@spec
    requires old($1).wf(), self.wf(),
    ensures
        final($1).wf(), final($1).frame(old($1)),
        r is Err == (!old($1).allocator.lives($2) && exists|t: TypeId| #[trigger] self.components@.dom().contains(t)),
        r is Ok ==> forall|t: TypeId| #[trigger] self.has(t) ==> old($1).has(t),
        r is Ok ==> r->Ok_0 == (exists|t: TypeId| #[trigger] self.components@.dom().contains(t) && old($1).comp(t, $2.index).is_some()),
        r is Ok ==> forall|t: TypeId, i: u32| #![trigger final($1).comp(t, i)] #![trigger old($1).comp(t, i)] old($1).has(t) ==> (if i == $2.index && self.has(t) { final($1).comp(t, i).is_some() && vp_copy(self.at(t), final($1).comp(t, i)->0) } else { final($1).comp(t, i) == old($1).comp(t, i) }),
        r is Err ==> final($1).same(old($1)),
//@loop 0
    self.wf(), $1.wf(), $1.frame(old($1)),
    $i > 0 ==> old($1).allocator.lives($2),
    forall|t: TypeId| #![trigger self.components@.dom().contains(t)] #![trigger vp_done(self.components@, $i, t)] vp_done(self.components@, $i, t) ==> old($1).has(t) && self.has(t),
    $bound(false) == (exists|t: TypeId| #[trigger] self.components@.dom().contains(t) && vp_done(self.components@, $i, t) && old($1).comp(t, $2.index).is_some()),
    forall|t: TypeId, i: u32| #![trigger $1.comp(t, i)] #![trigger old($1).comp(t, i)] old($1).has(t) ==> (if i == $2.index && vp_done(self.components@, $i, t) { $1.comp(t, i).is_some() && vp_copy(self.at(t), $1.comp(t, i)->0) } else { $1.comp(t, i) == old($1).comp(t, i) }),
//@end
//@fn src/any_components.rs | AnyCloneComponentSet :: clone_into_set
//@ret r
//@spec
    requires self.wf(), old($1).wf(),
    ensures
        final($1).wf(),
        forall|t: TypeId| #[trigger] final($1).has(t) == (old($1).has(t) || self.has(t)),
        forall|t: TypeId| #[trigger] final($1).has(t) ==> (if self.has(t) { vp_copy(self.at(t), final($1).at(t)) } else { final($1).at(t) == old($1).at(t) }),
        r == (exists|t: TypeId| #[trigger] old($1).has(t) && self.has(t)),
//@loop 0
    self.wf(), $1.wf(),
    forall|t: TypeId| #[trigger] $1.components@.dom().contains(t) == (old($1).has(t) || vp_done(self.components@, $i, t)),
    forall|t: TypeId| #[trigger] $1.components@.dom().contains(t) ==> (if vp_done(self.components@, $i, t) { vp_copy(self.at(t), $1.at(t)) } else { $1.at(t) == old($1).at(t) }),
    $bound(false) == (exists|t: TypeId| #[trigger] old($1).has(t) && vp_done(self.components@, $i, t)),
//@end
}
} // verus!
fn main() {}
