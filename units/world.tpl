//@include prelude.rs
//@import entity.tpl m_entity
//@import masked.tpl m_masked
//@import resource_set.tpl m_set
//@include hashmap.rs
//@own
verus! {
broadcast use {vp_lemmas::group_vp, vp_anymap::group_any, vp_fetch::group_fetch, vp_hm::group_hm, vp_comps::group_touch, vstd::array::group_array_axioms};
pub open spec fn vp_small() -> bool { false }
//@type src/join.rs | Index

// ---------------------------------------------------------------- components
pub trait Component: Sized {
    type Storage: RawStorage<Item = Self>;
}
//@type src/world_common.rs | ComponentStorage
pub use vp_comps::*;
pub mod vp_comps {
use vstd::prelude::*;
use super::*;
/// the key, in a `ResourceSet`, of the storage of the component type with this id
pub open spec fn vp_skey(t: TypeId) -> TypeId { vp_key(vp_storage_key(t)) }
#[verifier::external_body]
pub broadcast proof fn axiom_storage_key<C: Component>()
    ensures #[trigger] vp_storage_key(vp_tid::<C>()) == vp_tid::<ComponentStorage<C>>(),
{}
/// the storage type determines the component type
#[verifier::external_body]
pub broadcast proof fn axiom_skey_injective(s: TypeId, t: TypeId)
    ensures #[trigger] vp_skey(s) == #[trigger] vp_skey(t) ==> s == t,
{}
/// the invariant of the component storage in this cell, and the components in it, whatever their type
pub uninterp spec fn vp_okay(a: VpAny) -> bool;
pub uninterp spec fn vp_erased(a: VpAny) -> IMap<u32, VpAny>;
#[verifier::external_body]
pub broadcast proof fn axiom_erased<C: Component>(a: VpAny)
    requires a.ty() == vp_tid::<Resource<ComponentStorage<C>>>(),
    ensures
        #![trigger vp_as::<Resource<ComponentStorage<C>>>(a)]
        vp_okay(a) == vp_as::<Resource<ComponentStorage<C>>>(a).val().0.wf(),
        vp_erased(a) == IMap::new(|i: u32| vp_as::<Resource<ComponentStorage<C>>>(a).val().0.map().contains_key(i), |i: u32| vp_box(vp_as::<Resource<ComponentStorage<C>>>(a).val().0.map()[i])),
{}
/// one of the first `k` entities has index `i`
pub open spec fn vp_touch(s: Seq<Entity>, k: int, i: u32) -> bool { exists|j: int| 0 <= j < k && (#[trigger] s[j]).index == i }
pub broadcast proof fn lemma_touch(s: Seq<Entity>, k: int, i: u32)
    requires 0 <= k,
    ensures #[trigger] vp_touch(s, k + 1, i) == (vp_touch(s, k, i) || s[k].index == i),
{
    if vp_touch(s, k + 1, i) {
        let j = choose|j: int| 0 <= j < k + 1 && (#[trigger] s[j]).index == i;
        if j < k { assert(vp_touch(s, k, i)); }
    }
    if vp_touch(s, k, i) {
        let j = choose|j: int| 0 <= j < k && (#[trigger] s[j]).index == i;
        assert(vp_touch(s, k + 1, i));
    }
    if s[k].index == i { assert(vp_touch(s, k + 1, i)); }
}
pub broadcast proof fn lemma_touch_one(s: Seq<Entity>, k: int, i: u32)
    ensures
        k == 1 ==> #[trigger] vp_touch(s, k, i) == (s[0].index == i),
        k == 0 ==> !vp_touch(s, k, i),
{
    if k == 1 && s[0].index == i { assert(vp_touch(s, k, i)); }
}
pub broadcast group group_touch { lemma_touch_one, axiom_skey_injective, lemma_touch }
pub broadcast group group_comps { axiom_storage_key, axiom_erased }
/// storage of component type `t` at index `i`
pub open spec fn vp_comp(s: ResourceSet, t: TypeId, i: u32) -> Option<VpAny> {
    let a = s.resources@[vp_skey(t)];
    if vp_erased(a).contains_key(i) { Some(vp_erased(a)[i]) } else { None }
}
pub open spec fn vp_has(s: ResourceSet, t: TypeId) -> bool { s.resources@.dom().contains(vp_skey(t)) }
/// `b` is `a` without the components of type `t` of the entities `es`
pub open spec fn vp_cleared(t: TypeId, a: ResourceSet, es: Seq<Entity>, b: ResourceSet) -> bool {
    &&& b.resources@.dom() =~= a.resources@.dom()
    &&& forall|k: TypeId| k != vp_skey(t) && a.resources@.dom().contains(k) ==> #[trigger] b.resources@[k] == a.resources@[k]
    &&& vp_okay(b.resources@[vp_skey(t)])
    &&& forall|i: u32| #[trigger] vp_comp(b, t, i) == (if vp_touch(es, es.len() as int, i) { None } else { vp_comp(a, t, i) })
}
pub open spec fn vp_ready(t: TypeId, s: ResourceSet) -> bool { vp_has(s, t) && vp_okay(s.resources@[vp_skey(t)]) }
}
/// what is accepted as a list of entities
pub trait VpEntities {
    spec fn es(self) -> Seq<Entity>;
}
impl<'a> VpEntities for &'a [Entity] { open spec fn es(self) -> Seq<Entity> { self@ } }
impl<'a> VpEntities for &'a Vec<Entity> { open spec fn es(self) -> Seq<Entity> { self@ } }
impl<'a, const N: usize> VpEntities for &'a [Entity; N] { open spec fn es(self) -> Seq<Entity> { self@ } }
/// `Box<dyn Fn(&ResourceSet, &[Entity])>`: a function known only to clear the components of one type
#[verifier::external_body]
pub struct VpRemover { x: u8 }
impl VpRemover {
    pub uninterp spec fn key(&self) -> TypeId;
    #[verifier::external_body]
    pub fn vp_new<C: Component, F: Fn(&mut ResourceSet, &[Entity])>(f: F) -> (r: VpRemover)
        requires
            forall|s: &mut ResourceSet, es: &[Entity]| vp_ready(vp_tid::<C>(), *s) ==> #[trigger] f.requires((s, es)),
            forall|s: &mut ResourceSet, es: &[Entity], u: ()| vp_ready(vp_tid::<C>(), *s) && #[trigger] f.ensures((s, es), u) ==> vp_cleared(vp_tid::<C>(), *s, es@, *final(s)),
        ensures r.key() == vp_tid::<C>(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_call<E: VpEntities>(&self, s: &mut ResourceSet, es: E)
        requires vp_ready(self.key(), *old(s)),
        ensures vp_cleared(self.key(), *old(s), es.es(), *final(s)),
    { unimplemented!() }
}
// calls that go through DerefMut of a borrow
impl<'a, S: RawStorage> AtomicRefMut<'a, MaskedStorage<S>> {
    pub fn remove(&mut self, i: u32) -> (r: Option<S::Item>)
        requires old(self).value.wf(),
        ensures
            final(self).value.wf(), *final(final(self).value) == *final(old(self).value), final(self).origin == old(self).origin,
            final(self).value.map() == old(self).value.map().remove(i),
            r == (if old(self).value.map().contains_key(i) { Some(old(self).value.map()[i]) } else { None::<S::Item> }),
    { self.value.remove(i) }
    pub fn contains(&self, i: u32) -> (r: bool)
        requires old(self.value).wf(),
        ensures r == old(self.value).map().contains_key(i),
    { self.value.contains(i) }
}

// ---------------------------------------------------------------- World
//@struct src/world.rs | Entities
//@struct src/world.rs | ResourceAccess
//@struct src/world.rs | ComponentAccess
//@type src/world.rs | ReadResource
//@type src/world.rs | WriteResource
//@type src/world.rs | ReadComponent
//@type src/world.rs | WriteComponent
//@struct src/world.rs | World | map FxHashMap < TypeId , Box < dyn Fn ( & ResourceSet , & [ Entity ] ) + Send + Sync > > => FxHashMap < TypeId , VpRemover >
impl World {
    pub open spec fn has(&self, t: TypeId) -> bool { vp_has(self.components, t) }
    pub open spec fn comp(&self, t: TypeId, i: u32) -> Option<VpAny> { vp_comp(self.components, t, i) }
    /// every component storage has its remover, and the other way round
    pub open spec fn okt(&self, t: TypeId) -> bool {
        &&& self.remove_components@.contains_key(t) <==> self.has(t)
        &&& self.has(t) ==> self.remove_components@[t].key() == t && vp_okay(self.components.resources@[vp_skey(t)])
    }
    pub open spec fn sync(&self) -> bool {
        forall|t: TypeId| #![trigger vp_skey(t)] #![trigger self.remove_components@.contains_key(t)] self.okt(t)
    }
    pub open spec fn wf(&self) -> bool {
        &&& self.allocator.wf()
        &&& self.sync()
    }
    /// the storage of `C`
    pub open spec fn at<C: Component>(&self) -> ComponentStorage<C> { self.components.at::<ComponentStorage<C>>() }
    pub open spec fn has_c<C: Component>(&self) -> bool { self.components.has::<ComponentStorage<C>>() }
}
impl World {
//@fn src/world.rs | World :: new
//@ret r
//@spec
    ensures r.wf(), forall|t: TypeId| !#[trigger] r.has(t), r.resources.resources@ == Map::<TypeId, VpAny>::empty(), forall|i: u32| (#[trigger] r.allocator.cur(i)).is_none(),
//@end
//@fn src/world.rs | World :: create_entity
//@ret r
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).components == old(self).components, final(self).resources == old(self).resources,
        forall|i: u32| #[trigger] final(self).allocator.cur(i) == (if i == r.index { Some(r.gen()) } else { old(self).allocator.cur(i) }),
        old(self).allocator.cur(r.index).is_none(),
//@end
//@fn src/world.rs | World :: delete_entity | dyncall
//@ret r
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        r is Ok <==> old(self).allocator.lives($1),
        r is Err ==> *final(self) == *old(self),
        final(self).resources == old(self).resources,
        final(self).components.resources@.dom() == old(self).components.resources@.dom(),
        r is Ok ==> {
            &&& forall|i: u32| #[trigger] final(self).allocator.cur(i) == (if i == $1.index { None::<int> } else { old(self).allocator.cur(i) })
            &&& forall|t: TypeId, i: u32| #![trigger final(self).comp(t, i)] #![trigger old(self).comp(t, i)] old(self).has(t) ==> final(self).comp(t, i) == (if i == $1.index { None } else { old(self).comp(t, i) })
        },
//@loop 0
    self.sync(), self.allocator.wf(), self.remove_components == old(self).remove_components, self.resources == old(self).resources,
    self.components.resources@.dom() == old(self).components.resources@.dom(),
    forall|t: TypeId, i: u32| #![trigger self.comp(t, i)] #![trigger old(self).comp(t, i)] old(self).has(t) ==> self.comp(t, i) == (if i == $1.index && seen($all, $i, &self.remove_components@[t]) { None } else { old(self).comp(t, i) }),
//@end
//@fn src/world.rs | World :: insert_component | map Box :: new => VpRemover :: vp_new :: < C , _ > ; map . borrow_mut :: < => . vp_borrow_mut_values :: <
//@ret r
//@spec
    requires
        old(self).wf(),
        forall|s: C::Storage| C::Storage::default.ensures((), s) ==> #[trigger] s.ok() && s.m() == IMap::<u32, C>::empty(),
    ensures
        final(self).sync(),
        final(self).allocator == old(self).allocator, final(self).resources == old(self).resources,
        final(self).has_c::<C>(), final(self).at::<C>().map() == IMap::<u32, C>::empty(),
        final(self).components.only::<ComponentStorage<C>>(&old(self).components),
        r == (if old(self).has_c::<C>() { Some(old(self).at::<C>()) } else { None }),
//@entry
    broadcast use {vp_comps::group_comps, vp_key_::axiom_key};
//@closure 0
|&mut ResourceSet, &[Entity]| -> (vp_u: ())
    requires vp_ready(vp_tid::<C>(), *@1),
    ensures vp_cleared(vp_tid::<C>(), *old(@1), @2@, *final(@1)),
//@loopbefore 0
    let ghost vp_b = *$bound(borrow_mut).value;
    let ghost vp_f = *final($bound(borrow_mut).value);
//@loop 0
    $bound(borrow_mut).value.wf(), vp_b.wf(),
    *final($bound(borrow_mut).value) == vp_f,
    forall|i: u32| #[trigger] $bound(borrow_mut).value.map().contains_key(i) == (vp_b.map().contains_key(i) && !vp_touch($cp2@, $i, i)),
    forall|i: u32| #[trigger] $bound(borrow_mut).value.map().contains_key(i) ==> $bound(borrow_mut).value.map()[i] == vp_b.map()[i],
//@end
}
impl World {
//@fn src/world.rs | World :: merge | dyncall
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).resources == old(self).resources,
        final(self).components.resources@.dom() == old(self).components.resources@.dom(),
        forall|i: u32| #[trigger] final(self).allocator.cur(i) == (if old(self).allocator.pending().contains(i) { None::<int> } else { old(self).allocator.cur(i) }),
        forall|t: TypeId, i: u32| #![trigger final(self).comp(t, i)] #![trigger old(self).comp(t, i)] old(self).has(t) ==> final(self).comp(t, i) == (if old(self).allocator.pending().contains(i) { None } else { old(self).comp(t, i) }),
//@loopbefore 0
    assert forall|i: u32| old(self).allocator.pending().contains(i) implies #[trigger] vp_touch(self.killed@, self.killed@.len() as int, i) by {
        lemma_pending(old(self).allocator, i);
        let e = choose|e: Entity| e.index == i && old(self).allocator.pending().contains(e.index) && #[trigger] old(self).allocator.lives(e);
        assert(self.killed@.contains(e));
    }
//@loop 0
    self.sync(), self.allocator.wf(), self.remove_components == old(self).remove_components, self.resources == old(self).resources,
    self.components.resources@.dom() == old(self).components.resources@.dom(),
    forall|i: u32| #[trigger] self.allocator.cur(i) == (if old(self).allocator.pending().contains(i) { None::<int> } else { old(self).allocator.cur(i) }),
    forall|i: u32| #[trigger] vp_touch(self.killed@, self.killed@.len() as int, i) == old(self).allocator.pending().contains(i),
    forall|t: TypeId, i: u32| #![trigger self.comp(t, i)] #![trigger old(self).comp(t, i)] old(self).has(t) ==> self.comp(t, i) == (if old(self).allocator.pending().contains(i) && seen($all, $i, &self.remove_components@[t]) { None } else { old(self).comp(t, i) }),
//@end
//@fn src/world.rs | World :: remove_component
//@ret r
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        final(self).allocator == old(self).allocator, final(self).resources == old(self).resources,
        !final(self).has_c::<C>(),
        final(self).components.only::<ComponentStorage<C>>(&old(self).components),
        r == (if old(self).has_c::<C>() { Some(old(self).at::<C>()) } else { None }),
//@entry
    broadcast use {vp_comps::group_comps, vp_key_::axiom_key};
//@end
//@fn src/world.rs | World :: contains_component
//@ret r
//@spec
    ensures r == self.has_c::<C>(),
//@end
//@fn src/world.rs | World :: read_component | props=W02,F01
//@ret r
//@spec
    ensures
        self.has_c::<C>(), *r.storage.value == self.at::<C>(), *r.entities.0 == self.allocator,
        r.storage.origin@ == self.components.cell::<ComponentStorage<C>>().loc(),
//@panicif !self.has_c::<C>()
//@end
//@fn src/world.rs | World :: write_component | props=W02,F01
//@ret r
//@spec
    ensures
        self.has_c::<C>(), *r.entities.0 == self.allocator,
        r.storage.origin@ == self.components.cell::<ComponentStorage<C>>().loc(),
//@panicif !self.has_c::<C>()
//@end
//@fn src/world.rs | World :: get_component_mut | props=W02
//@ret r
//@spec
    ensures
        old(self).has_c::<C>(), final(self).has_c::<C>(),
        *r.storage == old(self).at::<C>(), *final(r.storage) == final(self).at::<C>(), *r.entities.0 == old(self).allocator,
        final(self).allocator == old(self).allocator, final(self).resources == old(self).resources, final(self).remove_components == old(self).remove_components,
        final(self).components.only::<ComponentStorage<C>>(&old(self).components),
//@panicif !old(self).has_c::<C>()
//@end
// ---------------------------------------------------------------- resources
//@fn src/world.rs | World :: insert_resource | props=F02
//@ret vp_r
//@spec
    ensures
        final(self).resources.has::<R>(), final(self).resources.at::<R>() == $1, final(self).resources.only::<R>(&old(self).resources),
        vp_r == (if old(self).resources.has::<R>() { Some(old(self).resources.at::<R>()) } else { None }),
        final(self).rest_of(old(self)),
//@end
//@fn src/world.rs | World :: remove_resource | props=F02
//@ret r
//@spec
    ensures
        !final(self).resources.has::<R>(), final(self).resources.only::<R>(&old(self).resources),
        r == (if old(self).resources.has::<R>() { Some(old(self).resources.at::<R>()) } else { None }),
        final(self).rest_of(old(self)),
//@end
//@fn src/world.rs | World :: contains_resource | props=F02
//@ret r
//@spec
    ensures r == self.resources.has::<T>(),
//@end
//@fn src/world.rs | World :: read_resource | props=F01,F02
//@ret r
//@spec
    ensures self.resources.has::<R>(), *r.0.value == self.resources.at::<R>(), r.0.origin@ == self.resources.cell::<R>().loc(),
//@panicif !self.resources.has::<R>()
//@end
//@fn src/world.rs | World :: write_resource | props=F01,F02
//@ret r
//@spec
    ensures self.resources.has::<R>(), r.0.origin@ == self.resources.cell::<R>().loc(),
//@panicif !self.resources.has::<R>()
//@end
// each tries one borrow of the right cell, and no other
//@ghostarg read_resource write_resource read_component write_component = Tracked(&mut *vp_l)
//@fn src/world.rs | World :: read_resource | name=vp_read_resource_tries id=World::read_resource#tries props=F02 log logname=borrow:vp_borrow_tries/borrow_mut:vp_borrow_mut_tries
//@ret r
//@spec
    ensures forall|x: (Loc, bool)| #[trigger] (final(vp_l).tried)(x) == (old(vp_l).tried)(x) + vp_one(x, self.resources.cell::<R>().loc(), false),
//@panicif !self.resources.has::<R>()
//@end
//@fn src/world.rs | World :: write_resource | name=vp_write_resource_tries id=World::write_resource#tries props=F02 log logname=borrow:vp_borrow_tries/borrow_mut:vp_borrow_mut_tries
//@ret r
//@spec
    ensures forall|x: (Loc, bool)| #[trigger] (final(vp_l).tried)(x) == (old(vp_l).tried)(x) + vp_one(x, self.resources.cell::<R>().loc(), true),
//@panicif !self.resources.has::<R>()
//@end
//@fn src/world.rs | World :: read_component | name=vp_read_component_tries id=World::read_component#tries props=F01 log logname=borrow:vp_borrow_tries/borrow_mut:vp_borrow_mut_tries
//@ret r
//@spec
    ensures forall|x: (Loc, bool)| #[trigger] (final(vp_l).tried)(x) == (old(vp_l).tried)(x) + vp_one(x, self.components.cell::<ComponentStorage<C>>().loc(), false),
//@panicif !self.has_c::<C>()
//@end
//@fn src/world.rs | World :: write_component | name=vp_write_component_tries id=World::write_component#tries props=F01 log logname=borrow:vp_borrow_tries/borrow_mut:vp_borrow_mut_tries
//@ret r
//@spec
    ensures forall|x: (Loc, bool)| #[trigger] (final(vp_l).tried)(x) == (old(vp_l).tried)(x) + vp_one(x, self.components.cell::<ComponentStorage<C>>().loc(), true),
//@panicif !self.has_c::<C>()
//@end
//@fn src/world.rs | World :: get_resource_mut | props=F02
//@ret r
//@spec
    ensures
        old(self).resources.has::<R>(), final(self).resources.has::<R>(), final(self).resources.only::<R>(&old(self).resources),
        *r == old(self).resources.at::<R>(), final(self).resources.at::<R>() == *final(r),
        final(self).rest_of(old(self)),
//@panicif !old(self).resources.has::<R>()
//@end
    /// everything but the resources is the same
    pub open spec fn rest_of(&self, o: &World) -> bool {
        self.allocator == o.allocator && self.components == o.components && self.remove_components == o.remove_components
    }
//@fn src/world.rs | World :: entities | props=W02,E02
//@ret r
//@spec
    ensures *r.0 == self.allocator,
//@end
//@fn src/world.rs | World :: fetch | name=vp_fetch_tries id=World::fetch#tries props=F01,F02 log logname=fetch:vp_fetch_tries
//@ret r
//@spec
    ensures forall|x: (Loc, bool)| #[trigger] (final(vp_l).tried)(x) == (old(vp_l).tried)(x) + F::tries(*self, x),
//@end
//@fn src/world.rs | World :: fetch | props=F01
//@ret r
//@spec
    ensures F::res().is_some() ==> r.held() == vp_holds(*self, F::res()->0),
//@end
}
/// a pending deletion is that of a live entity
pub proof fn lemma_pending(a: Allocator, i: u32)
    requires a.wf(), a.pending().contains(i),
    ensures exists|e: Entity| e.index == i && a.pending().contains(e.index) && #[trigger] a.lives(e),
{
    assert(a.ok(i));
    let e = Entity { index: i, generation: AliveGeneration(NonZeroI32 { v: a.cur(i)->0 as i32 }) };
    assert(a.lives(e));
}
/// what holds of the component type with some id, for the type itself
pub proof fn lemma_typed<C: Component>(w: World, i: u32)
    ensures
        w.has(vp_tid::<C>()) == w.has_c::<C>(),
        w.has_c::<C>() ==> w.comp(vp_tid::<C>(), i) == (if w.at::<C>().map().contains_key(i) { Some(vp_box(w.at::<C>().map()[i])) } else { None::<VpAny> }),
        w.has_c::<C>() && w.wf() ==> w.at::<C>().wf(),
{
    broadcast use {vp_comps::group_comps, vp_key_::axiom_key};
    let a = w.components.resources@[vp_skey(vp_tid::<C>())];
    assert(vp_as::<Resource<ComponentStorage<C>>>(a) == w.components.cell::<ComponentStorage<C>>());
    assert(w.has_c::<C>() ==> a.ty() == vp_tid::<Resource<ComponentStorage<C>>>());
}
/// deleting an entity leaves it no component, whatever the type, and every other component as it was
pub proof fn lemma_deleted<C: Component>(a: World, b: World, e: Entity, i: u32)
    requires
        a.wf(), b.wf(), a.has_c::<C>(), b.components.resources@.dom() == a.components.resources@.dom(),
        forall|t: TypeId, i: u32| #![trigger b.comp(t, i)] a.has(t) ==> b.comp(t, i) == (if i == e.index { None } else { a.comp(t, i) }),
    ensures
        b.has_c::<C>(),
        !b.at::<C>().map().contains_key(e.index),
        i != e.index ==> b.at::<C>().map().contains_key(i) == a.at::<C>().map().contains_key(i),
        i != e.index && a.at::<C>().map().contains_key(i) ==> b.at::<C>().map()[i] == a.at::<C>().map()[i],
{
    broadcast use {vp_comps::group_comps, vp_key_::axiom_key};
    lemma_typed::<C>(a, i);
    lemma_typed::<C>(b, i);
    lemma_typed::<C>(a, e.index);
    lemma_typed::<C>(b, e.index);
    assert(vp_as::<C>(vp_box(b.at::<C>().map()[i])) == b.at::<C>().map()[i]);
    assert(vp_as::<C>(vp_box(a.at::<C>().map()[i])) == a.at::<C>().map()[i]);
}
impl Default for World {
//@derive_default src/world.rs | World | id=World::default
//@ret r
//@spec
    ensures r.wf(), forall|t: TypeId| !#[trigger] r.has(t), r.resources.resources@ == Map::<TypeId, VpAny>::empty(), forall|i: u32| (#[trigger] r.allocator.cur(i)).is_none(),
//@end
}
impl<'a, T> ResourceAccess<AtomicRef<'a, T>> {
//@fn src/world.rs | Deref for ResourceAccess<R> :: deref | id=ResourceAccess::deref#read props=F02 ; map R :: Target => T ; map * self . 0 => * self . 0 . value
//@ret r
//@spec
    ensures *r == *self.0.value,
//@end
}
impl<'a, T> ResourceAccess<AtomicRefMut<'a, T>> {
//@fn src/world.rs | Deref for ResourceAccess<R> :: deref | id=ResourceAccess::deref#write props=F02 ; map R :: Target => T ; map * self . 0 => * self . 0 . value
//@ret r
//@spec
    ensures *r == *old(self.0.value),
//@end
//@fn src/world.rs | DerefMut for ResourceAccess<R> :: deref_mut | props=F02 ; map R :: Target => T ; map * self . 0 => * self . 0 . value
//@ret r
//@spec
    ensures *r == *old(self).0.value, *final(self).0.value == *final(r),
//@end
}
// ---------------------------------------------------------------- entities
impl<'a> Entities<'a> {
//@fn src/world.rs | Entities<'a> :: is_alive | props=E02,W02
//@ret r
//@spec
    requires self.0.wf(),
    ensures r == self.0.lives($1),
//@end
//@fn src/world.rs | Entities<'a> :: entity | props=E02
//@ret r
//@spec
    requires self.0.wf(),
    ensures
        r.is_some() <==> self.0.cur($1).is_some(),
        r.is_some() ==> r->0.index == $1 && self.0.cur($1) == Some(r->0.gen()),
//@end
//@fn src/world.rs | Entities<'a> :: live_bitset | props=E02
//@ret r
//@spec
    requires self.0.wf(),
    ensures forall|i: u32| #[trigger] r@.contains(i) <==> self.0.cur(i).is_some(),
//@end
//@fn src/world.rs | Entities<'a> :: max_entity_count | props=E02
//@ret r
//@spec
    ensures r == self.0.n(),
//@end
}
/// `Entities`, whose atomic operations are read with exclusive access
pub struct VpEntitiesMut<'a>(pub &'a mut Allocator);
impl<'a> VpEntitiesMut<'a> {
//@fn src/world.rs | Entities<'a> :: delete | self=mut props=E03
//@ret r
//@spec
    requires old(self).0.wf(),
    ensures
        final(self).0.wf(),
        r is Ok <==> old(self).0.lives($1),
        r is Err ==> *final(self).0 == *old(self).0,
        final(self).0.same_cur(old(self).0),
        final(self).0.pending() == (if old(self).0.lives($1) { old(self).0.pending().insert($1.index) } else { old(self).0.pending() }),
//@end
//@fn src/world.rs | Entities<'a> :: create | self=mut props=E01,E02
//@ret r
//@spec
    requires old(self).0.wf(),
    ensures
        final(self).0.wf(),
        r.gen() == old(self).0.top(r.index) + 1,
        old(self).0.cur(r.index).is_none(),
        forall|i: u32| #[trigger] final(self).0.cur(i) == (if i == r.index { Some(r.gen()) } else { old(self).0.cur(i) }),
        final(self).0.pending() == old(self).0.pending(),
//@end
}

// ---------------------------------------------------------------- component access
impl<'a, 'c, C: Component> ComponentAccess<'a, C, &'c ComponentStorage<C>> {
    pub open spec fn cwf(&self) -> bool { self.entities.0.wf() && self.storage.wf() }
    pub open spec fn lives(&self, e: Entity) -> bool { self.entities.0.lives(e) }
//@fn src/world.rs | ComponentAccess<'a, C, R> :: storage | props=W02
//@ret r
//@spec
    ensures r == self.storage,
//@end
//@fn src/world.rs | ComponentAccess<'a, C, R> :: mask | props=W02
//@ret r
//@spec
    ensures r@ == self.storage.mask@,
//@end
//@fn src/world.rs | ComponentAccess<'a, C, R> :: contains | props=W02
//@ret r
//@spec
    requires self.cwf(),
    ensures r == (self.lives($1) && self.storage.map().contains_key($1.index)),
//@end
//@fn src/world.rs | ComponentAccess<'a, C, R> :: get | props=W02
//@ret r
//@spec
    requires self.cwf(),
    ensures
        r.is_some() == (self.lives($1) && self.storage.map().contains_key($1.index)),
        r.is_some() ==> *r->0 == self.storage.map()[$1.index],
//@end
}
impl<'a, 'c, C: Component> ComponentAccess<'a, C, &'c mut ComponentStorage<C>> {
    pub open spec fn mwf(&self) -> bool { self.entities.0.wf() && self.storage.wf() }
    pub open spec fn mlives(&self, e: Entity) -> bool { self.entities.0.lives(e) }
    pub open spec fn map(&self) -> IMap<u32, C> { self.storage.map() }
    /// only the storage may differ
    #[verifier::prophetic]
    pub open spec fn same_entities(&self, o: &Self) -> bool { self.entities == o.entities && *final(self.storage) == *final(o.storage) }
//@fn src/world.rs | ComponentAccess<'a, C, R> :: storage_mut | props=W02
//@ret r
//@spec
    ensures *r == *old(self).storage, *final(self).storage == *final(r), final(self).same_entities(old(self)),
//@end
//@fn src/world.rs | ComponentAccess<'a, C, R> :: get_mut | props=W02
//@ret r
//@spec
    requires old(self).mwf(),
    ensures
        final(self).mwf(), final(self).same_entities(old(self)),
        r.is_some() == (old(self).mlives($1) && old(self).map().contains_key($1.index)),
        r.is_some() ==> *r->0 == old(self).map()[$1.index] && final(self).map() == old(self).map().insert($1.index, *final(r->0)) && C::Storage::fx(old(self).storage.storage, final(self).storage.storage, $1.index),
        r.is_none() ==> *final(self).storage == *old(self).storage,
//@end
//@fn src/world.rs | ComponentAccess<'a, C, R> :: get_guard | props=W02
//@ret r
//@spec
    requires old(self).mwf(),
    ensures
        final(self).same_entities(old(self)),
        r.is_some() == (old(self).mlives($1) && old(self).map().contains_key($1.index)),
        r.is_some() ==> r->0.index == $1.index && *r->0.storage == old(self).storage.storage && final(self).storage.storage == *final(r->0.storage) && final(self).storage.mask == old(self).storage.mask,
        r.is_none() ==> *final(self).storage == *old(self).storage,
//@end
//@fn src/world.rs | ComponentAccess<'a, C, R> :: get_or_insert_with | props=W02
//@ret r
//@spec
    requires old(self).mwf(), $2.requires(()),
    ensures
        final(self).mwf(), final(self).same_entities(old(self)),
        r is Ok == old(self).mlives($1),
        r is Err ==> *final(self).storage == *old(self).storage,
        r is Ok ==> {
            &&& old(self).map().contains_key($1.index) ==> *r->Ok_0 == old(self).map()[$1.index]
            &&& !old(self).map().contains_key($1.index) ==> $2.ensures((), *r->Ok_0)
            &&& final(self).map() == old(self).map().insert($1.index, *final(r->Ok_0))
        },
//@end
//@fn src/world.rs | ComponentAccess<'a, C, R> :: get_or_default | props=W02 ; map Default :: default => C :: default
//@ret r
//@spec
    requires old(self).mwf(), C::default.requires(()),
    ensures
        final(self).mwf(), final(self).same_entities(old(self)),
        r is Ok == old(self).mlives($1),
        r is Err ==> *final(self).storage == *old(self).storage,
        r is Ok ==> {
            &&& old(self).map().contains_key($1.index) ==> *r->Ok_0 == old(self).map()[$1.index]
            &&& !old(self).map().contains_key($1.index) ==> C::default.ensures((), *r->Ok_0)
            &&& final(self).map() == old(self).map().insert($1.index, *final(r->Ok_0))
        },
//@end
//@fn src/world.rs | ComponentAccess<'a, C, R> :: insert | props=W02
//@ret r
//@spec
    requires old(self).mwf(),
    ensures
        final(self).mwf(), final(self).same_entities(old(self)),
        r is Ok == old(self).mlives($1),
        r is Err ==> *final(self).storage == *old(self).storage,
        r is Ok ==> {
            &&& r->Ok_0 == (if old(self).map().contains_key($1.index) { Some(old(self).map()[$1.index]) } else { None::<C> })
            &&& final(self).map() == old(self).map().insert($1.index, $2)
            &&& C::Storage::fx(old(self).storage.storage, final(self).storage.storage, $1.index)
        },
//@end
//@fn src/world.rs | ComponentAccess<'a, C, R> :: remove | props=W02
//@ret r
//@spec
    requires old(self).mwf(),
    ensures
        final(self).mwf(), final(self).same_entities(old(self)),
        r is Ok == old(self).mlives($1),
        r is Err ==> *final(self).storage == *old(self).storage,
        r is Ok ==> {
            &&& r->Ok_0 == (if old(self).map().contains_key($1.index) { Some(old(self).map()[$1.index]) } else { None::<C> })
            &&& final(self).map() == old(self).map().remove($1.index)
        },
//@end
//@fn src/world.rs | ComponentAccess<'a, C, R> :: guard | props=W02
//@ret r
//@spec
    ensures *r.0 == *old(self).storage, *final(r.0) == *final(self).storage, final(self).same_entities(old(self)),
//@end
}
impl<'a, 'c, C: Component> ComponentAccess<'a, C, &'c ComponentStorage<C>> where C::Storage: DenseStorage {
//@fn src/world.rs | ComponentAccess<'a, C, R> :: as_slice | props=W02
//@ret r
//@spec
    requires self.cwf(),
    ensures
        r@.len() == self.storage.storage.order().len(),
        forall|i: u32| #[trigger] self.storage.storage.order().contains(i) <==> self.storage.map().contains_key(i),
        forall|k: int| #![trigger r@[k]] 0 <= k < r@.len() ==> r@[k] == self.storage.map()[self.storage.storage.order()[k]],
//@end
}
impl<'a, 'c, C: Component> ComponentAccess<'a, C, &'c mut ComponentStorage<C>> where C::Storage: DenseStorage {
//@fn src/world.rs | ComponentAccess<'a, C, R> :: as_mut_slice | props=W02
//@ret r
//@spec
    requires old(self).mwf(),
    ensures
        final(self).mwf(), final(self).same_entities(old(self)),
        r@.len() == old(self).storage.storage.order().len(),
        forall|k: int| #![trigger r@[k]] 0 <= k < r@.len() ==> r@[k] == old(self).map()[old(self).storage.storage.order()[k]],
        final(self).map().dom() == old(self).map().dom(),
        forall|k: int| #![trigger final(r)@[k]] 0 <= k < r@.len() ==> final(r)@[k] == final(self).map()[old(self).storage.storage.order()[k]],
//@end
}
impl<'a, 'c, C: Component> ComponentAccess<'a, C, &'c ComponentStorage<C>> where C::Storage: TrackedStorage {
//@fn src/world.rs | ComponentAccess<'a, C, R> :: tracking_modified | props=W02
//@ret r
//@spec
    ensures r == self.storage.storage.tracking(),
//@end
//@fn src/world.rs | ComponentAccess<'a, C, R> :: modified_indexes | props=W02
//@ret r
//@spec
    ensures r@ == self.storage.storage.marks(),
//@end
//@fn src/world.rs | ComponentAccess<'a, C, R> :: modified | props=W02
//@ret r
//@spec
    ensures r.0 == self.storage,
//@end
}
impl<'a, 'c, C: Component> ComponentAccess<'a, C, &'c mut ComponentStorage<C>> where C::Storage: TrackedStorage {
    /// really `&self`
//@fn src/world.rs | ComponentAccess<'a, C, R> :: mark_modified | self=mut props=W02,T01
//@ret r
//@spec
    requires old(self).mwf(),
    ensures
        final(self).mwf(), final(self).same_entities(old(self)),
        r is Ok == old(self).mlives($1),
        r is Err ==> *final(self).storage == *old(self).storage,
        final(self).map() == old(self).map(),
        r is Ok ==> final(self).storage.storage.tracking() == old(self).storage.storage.tracking() && final(self).storage.storage.marks() == old(self).storage.storage.marks().insert($1.index),
//@end
//@fn src/world.rs | ComponentAccess<'a, C, R> :: set_track_modified | props=W02,T01
//@spec
    requires old(self).mwf(),
    ensures
        final(self).mwf(), final(self).same_entities(old(self)), final(self).map() == old(self).map(),
        final(self).storage.storage.tracking() == $1, final(self).storage.storage.marks() == old(self).storage.storage.marks(),
//@end
//@fn src/world.rs | ComponentAccess<'a, C, R> :: clear_modified | props=W02,T01
//@spec
    requires old(self).mwf(),
    ensures
        final(self).mwf(), final(self).same_entities(old(self)), final(self).map() == old(self).map(),
        final(self).storage.storage.tracking() == old(self).storage.storage.tracking(), final(self).storage.storage.marks() == Set::<u32>::empty(),
//@end
//@fn src/world.rs | ComponentAccess<'a, C, R> :: modified_mut | props=W02
//@ret r
//@spec
    ensures *r.0 == *old(self).storage, *final(r.0) == *final(self).storage, final(self).same_entities(old(self)),
//@end
}
// ---------------------------------------------------------------- joining
pub trait IntoJoin: Sized {
    type Item;
    type IntoJoin;
    /// what is joined
    spec fn joined(self, r: Self::IntoJoin) -> bool;
    fn into_join(self) -> (r: Self::IntoJoin)
        ensures self.joined(r);
}
// every `Join` is joined as itself (proved in unit `join`)
impl<'a, S: RawStorage> IntoJoin for &'a MaskedStorage<S> {
    type Item = &'a S::Item;
    type IntoJoin = &'a MaskedStorage<S>;
    open spec fn joined(self, r: Self::IntoJoin) -> bool { r == self }
    fn into_join(self) -> (r: Self::IntoJoin) { self }
}
impl<'a, S: RawStorage> IntoJoin for &'a mut MaskedStorage<S> {
    type Item = &'a mut S::Item;
    type IntoJoin = &'a mut MaskedStorage<S>;
    open spec fn joined(self, r: Self::IntoJoin) -> bool { *r == *self }
    fn into_join(self) -> (r: Self::IntoJoin) { self }
}
//@impl src/world.rs | IntoJoin for &'a Entities<'a>
//@assoc src/world.rs | IntoJoin for &'a Entities<'a> | Item
//@assoc src/world.rs | IntoJoin for &'a Entities<'a> | IntoJoin
    open spec fn joined(self, r: Self::IntoJoin) -> bool { r == self.0 }
//@fn src/world.rs | IntoJoin for &'a Entities<'a> :: into_join | props=J01,E02
//@ret r
//@end
}
impl<'a, 'b, 'c, C: Component> IntoJoin for &'a ComponentAccess<'b, C, &'c ComponentStorage<C>> {
    type Item = &'a C;
    type IntoJoin = &'a ComponentStorage<C>;
    open spec fn joined(self, r: Self::IntoJoin) -> bool { r == self.storage }
//@fn src/world.rs | IntoJoin for &'a ComponentAccess<'b, C, R> :: into_join | props=W02,J01
//@ret r
//@end
}
impl<'a, 'b, 'c, C: Component> IntoJoin for &'a mut ComponentAccess<'b, C, &'c mut ComponentStorage<C>> {
    type Item = &'a mut C;
    type IntoJoin = &'a mut ComponentStorage<C>;
    open spec fn joined(self, r: Self::IntoJoin) -> bool { *r == *self.storage }
//@fn src/world.rs | IntoJoin for &'a mut ComponentAccess<'b, C, R> :: into_join | props=W02,J01
//@ret r
//@end
}
// ---------------------------------------------------------------- fetching from a world
//@struct src/world_common.rs | ResourceId
//@struct src/world_common.rs | ComponentId
//@struct src/world_common.rs | WorldResourceId
} // verus!
impl std::hash::Hash for WorldResourceId { fn hash<H: std::hash::Hasher>(&self, s: &mut H) { unimplemented!() } }
verus! {
impl VpClone for WorldResourceId {
    fn clone(&self) -> (r: Self) { *self }
}
impl WorldResourceId {
//@fn src/world_common.rs | WorldResourceId :: resource | props=F01
//@ret r
//@spec
    ensures r == WorldResourceId::Resource(ResourceId(vp_tid::<C>())),
//@end
//@fn src/world_common.rs | WorldResourceId :: component | props=F01
//@ret r
//@spec
    ensures r == WorldResourceId::Component(ComponentId(vp_tid::<C>())),
//@end
}
//@type src/world_common.rs | WorldResources
impl World {
    /// the place of the storage of the component type with this id
    pub open spec fn cplace(&self, t: TypeId) -> Loc { self.components.resources@[vp_skey(t)].loc() }
    /// cells at two keys or in two sets are at two places (a promise of the memory model)
    pub open spec fn apart(&self) -> bool {
        forall|s: TypeId, t: TypeId| #[trigger] self.resources.place(s) != #[trigger] self.cplace(t)
    }
}
impl VpSource for World {
    type Use = VpUse<WorldResourceId>;
    open spec fn hold(&self, u: VpUse<WorldResourceId>) -> Hold {
        match u {
            VpUse::Read(WorldResourceId::Entities) => Hold::Entities,
            VpUse::Read(WorldResourceId::Resource(r)) => Hold::Shared(self.resources.place(r.0)),
            VpUse::Read(WorldResourceId::Component(c)) => Hold::Shared(self.cplace(c.0)),
            VpUse::Write(WorldResourceId::Entities) => Hold::Entities,
            VpUse::Write(WorldResourceId::Resource(r)) => Hold::Exclusive(self.resources.place(r.0)),
            VpUse::Write(WorldResourceId::Component(c)) => Hold::Exclusive(self.cplace(c.0)),
        }
    }
}
pub open spec fn vp_loc(h: Hold) -> Option<Loc> {
    match h { Hold::Shared(l) => Some(l), Hold::Exclusive(l) => Some(l), Hold::Entities => None }
}
pub open spec fn vp_there(w: World, u: VpUse<WorldResourceId>) -> bool {
    match u.res() {
        WorldResourceId::Entities => true,
        WorldResourceId::Resource(r) => w.resources.resources@.dom().contains(vp_key(r.0)),
        WorldResourceId::Component(c) => w.components.resources@.dom().contains(vp_skey(c.0)),
    }
}
/// members of a tuple whose checks succeed can hold their borrows at the same time
pub proof fn lemma_world_compatible(w: World, a: ISet<VpUse<WorldResourceId>>, b: ISet<VpUse<WorldResourceId>>)
    requires
        w.apart(),
        !vp_clash::<RwResources<WorldResourceId>>(a, b),
        forall|u: VpUse<WorldResourceId>| #[trigger] a.contains(u) ==> vp_there(w, u),
        forall|u: VpUse<WorldResourceId>| #[trigger] b.contains(u) ==> vp_there(w, u),
    ensures vp_compatible(vp_holds(w, a), vp_holds(w, b)),
{
    assert forall|u: VpUse<WorldResourceId>, v: VpUse<WorldResourceId>| #[trigger] a.contains(u) && #[trigger] b.contains(v)
        && (w.hold(u) is Exclusive || w.hold(v) is Exclusive)
        implies vp_loc(w.hold(u)) != vp_loc(w.hold(v)) by {
        match (u.res(), v.res()) {
            (WorldResourceId::Resource(r), WorldResourceId::Resource(q)) => {
                vp_key_::axiom_key_injective(r.0, q.0);
                w.resources.lemma_place(r.0);
                w.resources.lemma_place(q.0);
            }
            (WorldResourceId::Component(r), WorldResourceId::Component(q)) => {
                assert(w.cplace(r.0).key == vp_skey(r.0));
                assert(w.cplace(q.0).key == vp_skey(q.0));
            }
            (WorldResourceId::Resource(r), WorldResourceId::Component(q)) => { assert(w.resources.place(r.0) != w.cplace(q.0)); }
            (WorldResourceId::Component(r), WorldResourceId::Resource(q)) => { assert(w.resources.place(q.0) != w.cplace(r.0)); }
            _ => {}
        }
    }
}
//@impl src/world.rs | FetchResources<'a, World> for Entities<'a>
//@assoc src/world.rs | FetchResources<'a, World> for Entities<'a> | Resources
    open spec fn res() -> Option<ISet<VpUse<WorldResourceId>>> { Some(vp_reads(WorldResourceId::Entities)) }
    open spec fn held(&self) -> ISet<Hold> { ISet::<Hold>::empty().insert(Hold::Entities) }
//@fn src/world.rs | FetchResources<'a, World> for Entities<'a> :: check_resources | props=F01
//@ret r
//@tail
    assert(r->Ok_0.uses() =~= vp_reads(WorldResourceId::Entities));
//@end
    open spec fn tries(s: World, x: (Loc, bool)) -> nat { 0 }
//@fn src/world.rs | FetchResources<'a, World> for Entities<'a> :: fetch | name=vp_fetch_tries id=FetchResources<'a, World> for Entities<'a>::fetch#tries props=F01,F02 log logname=read_resource:vp_read_resource_tries/write_resource:vp_write_resource_tries/read_component:vp_read_component_tries/write_component:vp_write_component_tries
//@ret r
//@end
//@fn src/world.rs | FetchResources<'a, World> for Entities<'a> :: fetch | props=F01
//@ret r
//@entry
    broadcast use {vp_comps::group_comps, vp_key_::axiom_key};
//@end
}
//@impl src/world.rs | FetchResources<'a, World> for ReadResource<'a, R>
//@assoc src/world.rs | FetchResources<'a, World> for ReadResource<'a, R> | Resources
    open spec fn res() -> Option<ISet<VpUse<WorldResourceId>>> { Some(vp_reads(WorldResourceId::Resource(ResourceId(vp_tid::<R>())))) }
    open spec fn held(&self) -> ISet<Hold> { ISet::<Hold>::empty().insert(Hold::Shared(self.0.origin@)) }
//@fn src/world.rs | FetchResources<'a, World> for ReadResource<'a, R> :: check_resources | props=F01
//@ret r
//@tail
    assert(r->Ok_0.uses() =~= vp_reads(WorldResourceId::Resource(ResourceId(vp_tid::<R>()))));
//@end
    open spec fn tries(s: World, x: (Loc, bool)) -> nat { vp_one(x, s.resources.cell::<R>().loc(), false) }
//@fn src/world.rs | FetchResources<'a, World> for ReadResource<'a, R> :: fetch | name=vp_fetch_tries id=FetchResources<'a, World> for ReadResource<'a, R>::fetch#tries props=F01,F02 log logname=read_resource:vp_read_resource_tries/write_resource:vp_write_resource_tries/read_component:vp_read_component_tries/write_component:vp_write_component_tries
//@ret r
//@end
//@fn src/world.rs | FetchResources<'a, World> for ReadResource<'a, R> :: fetch | props=F01
//@ret r
//@entry
    broadcast use {vp_comps::group_comps, vp_key_::axiom_key};
//@end
}
//@impl src/world.rs | FetchResources<'a, World> for WriteResource<'a, R>
//@assoc src/world.rs | FetchResources<'a, World> for WriteResource<'a, R> | Resources
    open spec fn res() -> Option<ISet<VpUse<WorldResourceId>>> { Some(vp_writes(WorldResourceId::Resource(ResourceId(vp_tid::<R>())))) }
    open spec fn held(&self) -> ISet<Hold> { ISet::<Hold>::empty().insert(Hold::Shared(self.0.origin@)).insert(Hold::Exclusive(self.0.origin@)) }
//@fn src/world.rs | FetchResources<'a, World> for WriteResource<'a, R> :: check_resources | props=F01
//@ret r
//@tail
    assert(r->Ok_0.uses() =~= vp_writes(WorldResourceId::Resource(ResourceId(vp_tid::<R>()))));
//@end
    open spec fn tries(s: World, x: (Loc, bool)) -> nat { vp_one(x, s.resources.cell::<R>().loc(), true) }
//@fn src/world.rs | FetchResources<'a, World> for WriteResource<'a, R> :: fetch | name=vp_fetch_tries id=FetchResources<'a, World> for WriteResource<'a, R>::fetch#tries props=F01,F02 log logname=read_resource:vp_read_resource_tries/write_resource:vp_write_resource_tries/read_component:vp_read_component_tries/write_component:vp_write_component_tries
//@ret r
//@end
//@fn src/world.rs | FetchResources<'a, World> for WriteResource<'a, R> :: fetch | props=F01
//@ret r
//@entry
    broadcast use {vp_comps::group_comps, vp_key_::axiom_key};
//@end
}
//@impl src/world.rs | FetchResources<'a, World> for ReadComponent<'a, C>
//@assoc src/world.rs | FetchResources<'a, World> for ReadComponent<'a, C> | Resources
    open spec fn res() -> Option<ISet<VpUse<WorldResourceId>>> { Some(vp_reads(WorldResourceId::Entities).union(vp_reads(WorldResourceId::Component(ComponentId(vp_tid::<C>()))))) }
    open spec fn held(&self) -> ISet<Hold> { ISet::<Hold>::empty().insert(Hold::Entities).union(ISet::<Hold>::empty().insert(Hold::Shared(self.storage.origin@))) }
//@fn src/world.rs | FetchResources<'a, World> for ReadComponent<'a, C> :: check_resources | props=F01
//@ret r
//@tail
    assert(r->Ok_0.uses() =~= vp_reads(WorldResourceId::Entities).union(vp_reads(WorldResourceId::Component(ComponentId(vp_tid::<C>())))));
//@end
    open spec fn tries(s: World, x: (Loc, bool)) -> nat { vp_one(x, s.components.cell::<ComponentStorage<C>>().loc(), false) }
//@fn src/world.rs | FetchResources<'a, World> for ReadComponent<'a, C> :: fetch | name=vp_fetch_tries id=FetchResources<'a, World> for ReadComponent<'a, C>::fetch#tries props=F01,F02 log logname=read_resource:vp_read_resource_tries/write_resource:vp_write_resource_tries/read_component:vp_read_component_tries/write_component:vp_write_component_tries
//@ret r
//@end
//@fn src/world.rs | FetchResources<'a, World> for ReadComponent<'a, C> :: fetch | props=F01
//@ret r
//@entry
    broadcast use {vp_comps::group_comps, vp_key_::axiom_key};
//@end
}
//@impl src/world.rs | FetchResources<'a, World> for WriteComponent<'a, C>
//@assoc src/world.rs | FetchResources<'a, World> for WriteComponent<'a, C> | Resources
    open spec fn res() -> Option<ISet<VpUse<WorldResourceId>>> { Some(vp_reads(WorldResourceId::Entities).union(vp_writes(WorldResourceId::Component(ComponentId(vp_tid::<C>()))))) }
    open spec fn held(&self) -> ISet<Hold> { ISet::<Hold>::empty().insert(Hold::Entities).union(ISet::<Hold>::empty().insert(Hold::Shared(self.storage.origin@)).insert(Hold::Exclusive(self.storage.origin@))) }
//@fn src/world.rs | FetchResources<'a, World> for WriteComponent<'a, C> :: check_resources | props=F01
//@ret r
//@tail
    assert(r->Ok_0.uses() =~= vp_reads(WorldResourceId::Entities).union(vp_writes(WorldResourceId::Component(ComponentId(vp_tid::<C>())))));
//@end
    open spec fn tries(s: World, x: (Loc, bool)) -> nat { vp_one(x, s.components.cell::<ComponentStorage<C>>().loc(), true) }
//@fn src/world.rs | FetchResources<'a, World> for WriteComponent<'a, C> :: fetch | name=vp_fetch_tries id=FetchResources<'a, World> for WriteComponent<'a, C>::fetch#tries props=F01,F02 log logname=read_resource:vp_read_resource_tries/write_resource:vp_write_resource_tries/read_component:vp_read_component_tries/write_component:vp_write_component_tries
//@ret r
//@end
//@fn src/world.rs | FetchResources<'a, World> for WriteComponent<'a, C> :: fetch | props=F01
//@ret r
//@entry
    broadcast use {vp_comps::group_comps, vp_key_::axiom_key};
//@end
}
} // verus!
fn main() {}
