//@include prelude.rs
//@import resources.tpl m_resources
//@include anymap.rs
use std::marker::PhantomData;
//@own
verus! {
broadcast use {vp_lemmas::group_vp, vp_anymap::group_any, vp_fetch::group_fetch};
//@struct src/resources.rs | ResourceConflict
use std::any::type_name;
pub assume_specification<T: ?Sized> [std::any::type_name::<T>] () -> &'static str;
//@impl src/resources.rs | ResourceConflict
//@fn src/resources.rs | ResourceConflict :: conflict_in | props=F01
//@ret r
//@end
}
// ---------------------------------------------------------------- fetching
pub use vp_fetch::*;
pub mod vp_fetch {
use vstd::prelude::*;
use super::{VpUse, Loc, Uses, vp_clash, Resources};
/// a borrow that is held
pub ghost enum Hold { Shared(Loc), Exclusive(Loc), Entities }
pub trait VpSource: Sized {
    type Use;
    /// the borrow that makes this use legal
    spec fn hold(&self, u: Self::Use) -> Hold;
}
/// borrows that can be held at the same time
pub open spec fn vp_compatible(a: ISet<Hold>, b: ISet<Hold>) -> bool {
    forall|l: Loc| #![trigger a.contains(Hold::Exclusive(l))] #![trigger b.contains(Hold::Exclusive(l))]
        (a.contains(Hold::Exclusive(l)) ==> !b.contains(Hold::Shared(l)) && !b.contains(Hold::Exclusive(l)))
        && (b.contains(Hold::Exclusive(l)) ==> !a.contains(Hold::Shared(l)) && !a.contains(Hold::Exclusive(l)))
}
pub open spec fn vp_holds<S: VpSource>(s: S, a: ISet<S::Use>) -> ISet<Hold> {
    ISet::new(|h: Hold| exists|u: S::Use| #[trigger] a.contains(u) && s.hold(u) == h)
}
/// the uses of one more member, if there is no conflict
pub open spec fn vp_add<R: Uses>(a: Option<ISet<R::Use>>, b: Option<ISet<R::Use>>) -> Option<ISet<R::Use>> {
    match (a, b) {
        (Some(a), Some(b)) => if vp_clash::<R>(a, b) { None } else { Some(a.union(b)) },
        _ => None,
    }
}
pub broadcast proof fn lemma_holds_empty<S: VpSource>(s: S)
    ensures #[trigger] vp_holds(s, ISet::<S::Use>::empty()) == ISet::<Hold>::empty(),
{
    assert(vp_holds(s, ISet::<S::Use>::empty()) =~= ISet::empty());
}
pub broadcast proof fn lemma_holds_union<S: VpSource>(s: S, a: ISet<S::Use>, b: ISet<S::Use>)
    ensures #[trigger] vp_holds(s, a.union(b)) == vp_holds(s, a).union(vp_holds(s, b)),
{
    assert(vp_holds(s, a.union(b)) =~= vp_holds(s, a).union(vp_holds(s, b))) by {
        assert forall|h: Hold| vp_holds(s, a).union(vp_holds(s, b)).contains(h) implies vp_holds(s, a.union(b)).contains(h) by {
            if vp_holds(s, a).contains(h) {
                let u = choose|u: S::Use| #[trigger] a.contains(u) && s.hold(u) == h;
                assert(a.union(b).contains(u));
            } else {
                let u = choose|u: S::Use| #[trigger] b.contains(u) && s.hold(u) == h;
                assert(a.union(b).contains(u));
            }
        }
    }
}
/// a conflict with a union is a conflict with one of its parts: members conflict in pairs
pub proof fn lemma_clash_union<R: Uses>(a: ISet<R::Use>, b: ISet<R::Use>, c: ISet<R::Use>)
    ensures vp_clash::<R>(a.union(b), c) == (vp_clash::<R>(a, c) || vp_clash::<R>(b, c)),
{
    if vp_clash::<R>(a.union(b), c) {
        let (u, v) = choose|u: R::Use, v: R::Use| #[trigger] a.union(b).contains(u) && #[trigger] c.contains(v) && R::clash(u, v);
        assert(a.contains(u) || b.contains(u));
    }
    if vp_clash::<R>(a, c) {
        let (u, v) = choose|u: R::Use, v: R::Use| #[trigger] a.contains(u) && #[trigger] c.contains(v) && R::clash(u, v);
        assert(a.union(b).contains(u));
    }
    if vp_clash::<R>(b, c) {
        let (u, v) = choose|u: R::Use, v: R::Use| #[trigger] b.contains(u) && #[trigger] c.contains(v) && R::clash(u, v);
        assert(a.union(b).contains(u));
    }
}
/// the uses of something that reads `x`
pub open spec fn vp_reads<R>(x: R) -> ISet<VpUse<R>> { ISet::<VpUse<R>>::empty().insert(VpUse::Read(x)) }
/// the uses of something that writes `x`
pub open spec fn vp_writes<R>(x: R) -> ISet<VpUse<R>> { ISet::<VpUse<R>>::empty().insert(VpUse::Read(x)).insert(VpUse::Write(x)) }
pub broadcast proof fn lemma_holds_reads<S: VpSource<Use = VpUse<R>>, R>(s: S, x: R)
    ensures #[trigger] vp_holds(s, vp_reads(x)) == ISet::<Hold>::empty().insert(s.hold(VpUse::Read(x))),
{
    assert(vp_reads(x).contains(VpUse::Read(x)));
    assert(vp_holds(s, vp_reads(x)) =~= ISet::<Hold>::empty().insert(s.hold(VpUse::Read(x))));
}
pub broadcast proof fn lemma_holds_writes<S: VpSource<Use = VpUse<R>>, R>(s: S, x: R)
    ensures #[trigger] vp_holds(s, vp_writes(x)) == ISet::<Hold>::empty().insert(s.hold(VpUse::Read(x))).insert(s.hold(VpUse::Write(x))),
{
    assert(vp_writes(x).contains(VpUse::Read(x)));
    assert(vp_writes(x).contains(VpUse::Write(x)));
    assert(vp_holds(s, vp_writes(x)) =~= ISet::<Hold>::empty().insert(s.hold(VpUse::Read(x))).insert(s.hold(VpUse::Write(x))));
}
pub broadcast group group_fetch { lemma_holds_reads, lemma_holds_writes, lemma_holds_empty, lemma_holds_union, super::vp_clash_sym }
}
pub trait FetchResources<'a, Source: VpSource>: Sized {
    type Resources: Resources<Use = Source::Use>;
    /// the uses reported, None if there is a conflict inside
    spec fn res() -> Option<ISet<Source::Use>>;
    /// the borrows this value holds
    spec fn held(&self) -> ISet<Hold>;
    fn check_resources() -> (r: Result<Self::Resources, ResourceConflict>)
        ensures r is Ok ==> r->Ok_0.rok() && Self::res() == Some(r->Ok_0.uses()), r is Err ==> Self::res().is_none();
    fn fetch(source: &'a Source) -> (r: Self)
        ensures Self::res().is_some() ==> r.held() == vp_holds(*source, Self::res()->0);
    /// how often fetch tries this borrow
    spec fn tries(source: Source, x: (Loc, bool)) -> nat;
    /// `fetch`, with a log of the borrows tried
    fn vp_fetch_tries(source: &'a Source, Tracked(vp_l): Tracked<&mut VpLog>) -> (r: Self)
        ensures forall|x: (Loc, bool)| #[trigger] (final(vp_l).tried)(x) == (old(vp_l).tried)(x) + Self::tries(*source, x);
}
//@struct src/fetch_resources.rs | FetchNone
//@impl src/fetch_resources.rs | Default for FetchNone<S, R>
//@fn src/fetch_resources.rs | Default for FetchNone<S, R> :: default | props=F01
//@ret r
//@end
}
//@impl src/fetch_resources.rs | FetchResources<'a, S> for FetchNone<S, R> | map S , R : Resources => S : VpSource , R : Resources < Use = S :: Use >
//@assoc src/fetch_resources.rs | FetchResources<'a, S> for FetchNone<S, R> | Resources
    open spec fn res() -> Option<ISet<S::Use>> { Some(ISet::empty()) }
    open spec fn held(&self) -> ISet<Hold> { ISet::empty() }
//@fn src/fetch_resources.rs | FetchResources<'a, S> for FetchNone<S, R> :: check_resources | props=F01
//@ret r
//@end
    open spec fn tries(s: S, x: (Loc, bool)) -> nat { 0 }
//@fn src/fetch_resources.rs | FetchResources<'a, S> for FetchNone<S, R> :: fetch | name=vp_fetch_tries id=FetchResources<'a, S> for FetchNone<S, R>::fetch#tries props=F01,F02 log logname=borrow:vp_borrow_tries/borrow_mut:vp_borrow_mut_tries ; map FetchNone :: default => < FetchNone < S , R > as Default > :: default
//@ret r
//@end
//@fn src/fetch_resources.rs | FetchResources<'a, S> for FetchNone<S, R> :: fetch | props=F01 ; map FetchNone :: default => < FetchNone < S , R > as Default > :: default
//@ret r
//@end
}
} // verus!
//@include fetch_tuples.rs
verus! {
// ---------------------------------------------------------------- MakeSync
//@struct src/make_sync.rs | MakeSync
//@impl src/make_sync.rs | MakeSync<T>
//@fn src/make_sync.rs | MakeSync<T> :: new | props=F02
//@ret r
//@spec
    ensures r.0 == $1,
//@end
//@fn src/make_sync.rs | MakeSync<T> :: into_inner | props=F02
//@ret r
//@spec
    ensures r == self.0,
//@end
//@fn src/make_sync.rs | MakeSync<T> :: get_mut | props=F02
//@ret r
//@spec
    ensures *r == old(self).0, final(self).0 == *final(r),
//@end
//@fn src/make_sync.rs | MakeSync<T> :: get | props=F02
//@ret r
//@spec
    ensures *r == self.0,
//@end
}

// ---------------------------------------------------------------- ResourceSet
//@type src/resource_set.rs | Resource
//@struct src/resource_set.rs | ResourceSet | map Map < dyn Any + Send + Sync > => AnyMap
pub mod vp_key_ {
use vstd::prelude::*;
use super::*;
/// the key of a resource is a function of its type
#[verifier::external_body]
pub broadcast proof fn axiom_key<T>()
    ensures #[trigger] vp_key(vp_tid::<T>()) == vp_tid::<Resource<T>>(),
{}
/// different types have different ids
#[verifier::external_body]
pub proof fn axiom_key_injective(s: TypeId, t: TypeId)
    ensures vp_key(s) == vp_key(t) ==> s == t,
{}
}
impl ResourceSet {
    pub open spec fn has<T>(&self) -> bool { self.resources@.dom().contains(vp_tid::<Resource<T>>()) }
    pub open spec fn cell<T>(&self) -> Resource<T> { vp_as::<Resource<T>>(self.resources@[vp_tid::<Resource<T>>()]) }
    pub open spec fn at<T>(&self) -> T { self.cell::<T>().val().0 }
    /// nothing but the resource of type `T` differs
    pub open spec fn only<T>(&self, other: &ResourceSet) -> bool {
        forall|k: TypeId| #![trigger self.resources@.dom().contains(k)] #![trigger self.resources@[k]] k != vp_tid::<Resource<T>>() ==> {
            &&& self.resources@.dom().contains(k) == other.resources@.dom().contains(k)
            &&& other.resources@.dom().contains(k) ==> self.resources@[k] == other.resources@[k]
        }
    }
    /// the place of the resource whose type has this id
    pub open spec fn place(&self, t: TypeId) -> Loc { self.resources@[vp_key(t)].loc() }
    pub proof fn lemma_place(&self, t: TypeId)
        requires self.resources@.dom().contains(vp_key(t)),
        ensures self.place(t).key == vp_key(t),
    {}
}
//@impl src/resource_set.rs | Default for ResourceSet
//@fn src/resource_set.rs | Default for ResourceSet :: default | map Map :: new => AnyMap :: new
//@ret r
//@spec
    ensures r.resources@ == Map::<TypeId, VpAny>::empty(),
//@end
}
//@impl src/resource_set.rs | ResourceSet
//@fn src/resource_set.rs | ResourceSet :: new | props=F02 ; map Self :: default => < Self as Default > :: default
//@ret r
//@spec
    ensures r.resources@ == Map::<TypeId, VpAny>::empty(),
//@end
//@fn src/resource_set.rs | ResourceSet :: insert | props=F02
//@ret vp_r
//@spec
    ensures
        final(self).has::<T>(), final(self).at::<T>() == $1, final(self).only::<T>(old(self)),
        vp_r == (if old(self).has::<T>() { Some(old(self).at::<T>()) } else { None }),
//@closure 0
-> (vp_r: T) ensures vp_r == @1.val().0
//@end
//@fn src/resource_set.rs | ResourceSet :: remove | props=F02
//@ret r
//@spec
    ensures
        !final(self).has::<T>(), final(self).only::<T>(old(self)),
        r == (if old(self).has::<T>() { Some(old(self).at::<T>()) } else { None }),
//@closure 0
-> (vp_r: T) ensures vp_r == @1.val().0
//@end
//@fn src/resource_set.rs | ResourceSet :: contains | props=F02
//@ret r
//@spec
    ensures r == self.has::<T>(),
//@end
//@fn src/resource_set.rs | ResourceSet :: borrow | props=F01,F02
//@ret r
//@spec
    ensures self.has::<T>(), *r.value == self.at::<T>(), r.origin@ == self.cell::<T>().loc(),
//@panicif !self.has::<T>()
//@closure 0
-> (vp_r: &T) ensures *vp_r == @1.0
//@end
//@fn src/resource_set.rs | ResourceSet :: borrow_mut | props=F01,F02
//@ret r
//@spec
    ensures self.has::<T>(), r.origin@ == self.cell::<T>().loc(),
//@panicif !self.has::<T>()
//@closure 0
-> (vp_r: &mut T) ensures *vp_r == old(@1).0, final(@1).0 == *final(vp_r)
//@end
//@fn src/resource_set.rs | ResourceSet :: borrow_mut | name=vp_borrow_mut_values id=ResourceSet::borrow_mut#values props=F02 self=mut ; map . get :: < => . get_mut :: < ; map . borrow_mut ( ) => . vp_borrow_mut ( )
//@ret r
//@spec
    ensures
        old(self).has::<T>(), final(self).has::<T>(), final(self).only::<T>(old(self)),
        *r.value == old(self).at::<T>(), final(self).at::<T>() == *final(r.value),
//@panicif !old(self).has::<T>()
//@closure 0
-> (vp_r: &mut T) ensures *vp_r == old(@1).0, final(@1).0 == *final(vp_r)
//@end
// a borrow tries one borrow of the cell, of its own kind, and no other
//@ghostarg borrow borrow_mut fetch = Tracked(&mut *vp_l)
//@fn src/resource_set.rs | ResourceSet :: borrow | name=vp_borrow_tries id=ResourceSet::borrow#tries props=F02 log logname=borrow:vp_try_shared/borrow_mut:vp_try_exclusive
//@ret r
//@spec
    ensures forall|x: (Loc, bool)| #[trigger] (final(vp_l).tried)(x) == (old(vp_l).tried)(x) + vp_one(x, self.cell::<T>().loc(), false),
//@panicif !self.has::<T>()
//@end
//@fn src/resource_set.rs | ResourceSet :: borrow_mut | name=vp_borrow_mut_tries id=ResourceSet::borrow_mut#tries props=F02 log logname=borrow:vp_try_shared/borrow_mut:vp_try_exclusive
//@ret r
//@spec
    ensures forall|x: (Loc, bool)| #[trigger] (final(vp_l).tried)(x) == (old(vp_l).tried)(x) + vp_one(x, self.cell::<T>().loc(), true),
//@panicif !self.has::<T>()
//@end
//@fn src/resource_set.rs | ResourceSet :: get_mut | props=F02
//@ret r
//@spec
    ensures
        old(self).has::<T>(), final(self).has::<T>(), final(self).only::<T>(old(self)),
        *r == old(self).at::<T>(), final(self).at::<T>() == *final(r),
//@panicif !old(self).has::<T>()
//@end
//@fn src/resource_set.rs | ResourceSet :: fetch | name=vp_fetch_tries id=ResourceSet::fetch#tries props=F01,F02 log logname=fetch:vp_fetch_tries
//@ret r
//@spec
    ensures forall|x: (Loc, bool)| #[trigger] (final(vp_l).tried)(x) == (old(vp_l).tried)(x) + F::tries(*self, x),
//@end
//@fn src/resource_set.rs | ResourceSet :: fetch | props=F01
//@ret r
//@spec
    ensures F::res().is_some() ==> r.held() == vp_holds(*self, F::res()->0),
//@end
}
//@struct src/resource_set.rs | ResourceId
} // verus!
impl std::hash::Hash for ResourceId { fn hash<H: std::hash::Hasher>(&self, s: &mut H) { unimplemented!() } }
verus! {
impl VpClone for ResourceId {
    fn clone(&self) -> (r: Self) { *self }
}
//@impl src/resource_set.rs | ResourceId
//@fn src/resource_set.rs | ResourceId :: of | props=F01
//@ret r
//@spec
    ensures r.0 == vp_tid::<C>(),
//@end
}
impl VpSource for ResourceSet {
    type Use = VpUse<ResourceId>;
    open spec fn hold(&self, u: VpUse<ResourceId>) -> Hold {
        match u { VpUse::Read(r) => Hold::Shared(self.place(r.0)), VpUse::Write(r) => Hold::Exclusive(self.place(r.0)) }
    }
}
/// members of a tuple whose checks succeed can hold their borrows at the same time
pub proof fn lemma_compatible(s: ResourceSet, a: ISet<VpUse<ResourceId>>, b: ISet<VpUse<ResourceId>>)
    requires
        !vp_clash::<RwResources<ResourceId>>(a, b),
        forall|u: VpUse<ResourceId>| #[trigger] a.contains(u) ==> s.resources@.dom().contains(vp_key(u.res().0)),
        forall|u: VpUse<ResourceId>| #[trigger] b.contains(u) ==> s.resources@.dom().contains(vp_key(u.res().0)),
    ensures vp_compatible(vp_holds(s, a), vp_holds(s, b)),
{
    let ha = vp_holds(s, a);
    let hb = vp_holds(s, b);
    assert forall|u: VpUse<ResourceId>, v: VpUse<ResourceId>| #[trigger] a.contains(u) && #[trigger] b.contains(v)
        && (s.hold(u) == Hold::Exclusive(s.place(u.res().0)) || s.hold(v) == Hold::Exclusive(s.place(v.res().0)))
        implies s.place(u.res().0) != s.place(v.res().0) by {
        vp_key_::axiom_key_injective(u.res().0, v.res().0);
        s.lemma_place(u.res().0);
        s.lemma_place(v.res().0);
    }
}
//@struct src/resource_set.rs | Read
//@struct src/resource_set.rs | Write
//@impl src/resource_set.rs | FetchResources<'a, ResourceSet> for Read<'a, T>
//@assoc src/resource_set.rs | FetchResources<'a, ResourceSet> for Read<'a, T> | Resources
    open spec fn res() -> Option<ISet<VpUse<ResourceId>>> { Some(vp_reads(ResourceId(vp_tid::<T>()))) }
    open spec fn held(&self) -> ISet<Hold> { ISet::<Hold>::empty().insert(Hold::Shared(self.0.origin@)) }
//@fn src/resource_set.rs | FetchResources<'a, ResourceSet> for Read<'a, T> :: check_resources | props=F01
//@ret r
//@tail
    assert(r->Ok_0.uses() =~= vp_reads(ResourceId(vp_tid::<T>())));
//@end
    open spec fn tries(s: ResourceSet, x: (Loc, bool)) -> nat { vp_one(x, s.cell::<T>().loc(), false) }
//@fn src/resource_set.rs | FetchResources<'a, ResourceSet> for Read<'a, T> :: fetch | name=vp_fetch_tries id=FetchResources<'a, ResourceSet> for Read<'a, T>::fetch#tries props=F01,F02 log logname=borrow:vp_borrow_tries/borrow_mut:vp_borrow_mut_tries
//@ret r
//@end
//@fn src/resource_set.rs | FetchResources<'a, ResourceSet> for Read<'a, T> :: fetch | props=F01
//@ret r
//@entry
    broadcast use vp_key_::axiom_key;
//@end
}
//@impl src/resource_set.rs | FetchResources<'a, ResourceSet> for Write<'a, T>
//@assoc src/resource_set.rs | FetchResources<'a, ResourceSet> for Write<'a, T> | Resources
    open spec fn res() -> Option<ISet<VpUse<ResourceId>>> { Some(vp_writes(ResourceId(vp_tid::<T>()))) }
    open spec fn held(&self) -> ISet<Hold> { ISet::<Hold>::empty().insert(Hold::Shared(self.0.origin@)).insert(Hold::Exclusive(self.0.origin@)) }
//@fn src/resource_set.rs | FetchResources<'a, ResourceSet> for Write<'a, T> :: check_resources | props=F01
//@ret r
//@tail
    assert(r->Ok_0.uses() =~= vp_writes(ResourceId(vp_tid::<T>())));
//@end
    open spec fn tries(s: ResourceSet, x: (Loc, bool)) -> nat { vp_one(x, s.cell::<T>().loc(), true) }
//@fn src/resource_set.rs | FetchResources<'a, ResourceSet> for Write<'a, T> :: fetch | name=vp_fetch_tries id=FetchResources<'a, ResourceSet> for Write<'a, T>::fetch#tries props=F01,F02 log logname=borrow:vp_borrow_tries/borrow_mut:vp_borrow_mut_tries
//@ret r
//@end
//@fn src/resource_set.rs | FetchResources<'a, ResourceSet> for Write<'a, T> :: fetch | props=F01
//@ret r
//@entry
    broadcast use vp_key_::axiom_key;
//@end
}
//@impl src/resource_set.rs | Deref for Read<'a, T> | map Deref for =>
//@fn src/resource_set.rs | Deref for Read<'a, T> :: deref | props=F02 ; map * self . 0 => * self . 0 . value
//@ret r
//@spec
    ensures *r == *self.0.value,
//@end
}
//@impl src/resource_set.rs | Deref for Write<'a, T> | map Deref for =>
//@fn src/resource_set.rs | Deref for Write<'a, T> :: deref | props=F02 ; map * self . 0 => * self . 0 . value
//@ret r
//@spec
    ensures *r == *old(self.0.value),
//@end
//@fn src/resource_set.rs | DerefMut for Write<'a, T> :: deref_mut | props=F02 ; map * self . 0 => * self . 0 . value
//@ret r
//@spec
    ensures *r == *old(self).0.value, *final(self).0.value == *final(r),
//@end
}
} // verus!
fn main() {}
