//@include prelude.rs
//@include distinct.rs
//@include bitset.rs
//@include rawstorage.rs
//@own
verus! {
broadcast use {vp_lemmas::group_vp};
pub open spec fn vp_small() -> bool { false }
//@type src/join.rs | Index
//@type src/tracked.rs | ModifiedBitSet
//@const src/entity.rs | MAX_INDEX | map usize :: BITS . pow (4) => 0x100_0000

// ---------------------------------------------------------------- the contract of TrackedStorage
pub trait TrackedStorage: RawStorage {
    /// tracking is on
    spec fn tracking(&self) -> bool;
    /// the indexes marked modified
    spec fn marks(&self) -> Set<u32>;
    /// get_mut, insert and remove mark exactly their index, while tracking is on
    proof fn lemma_fx(a: Self, b: Self, i: u32)
        requires Self::fx(a, b, i),
        ensures b.tracking() == a.tracking(), b.marks() == (if a.tracking() { a.marks().insert(i) } else { a.marks() });
    fn set_track_modified(&mut self, flag: bool)
        requires old(self).ok(),
        ensures
            final(self).ok(), final(self).m() == old(self).m(),
            final(self).tracking() == flag, final(self).marks() == old(self).marks();
    fn tracking_modified(&self) -> (r: bool)
        ensures r == self.tracking();
    /// really `&self`
    fn mark_modified(&mut self, index: u32)
        requires old(self).ok(),
        ensures
            final(self).ok(), final(self).m() == old(self).m(),
            final(self).tracking() == old(self).tracking(), final(self).marks() == old(self).marks().insert(index);
    fn modified_indexes(&self) -> (r: &AtomicBitSet)
        ensures r@ == self.marks();
    fn clear_modified(&mut self)
        requires old(self).ok(),
        ensures
            final(self).ok(), final(self).m() == old(self).m(),
            final(self).tracking() == old(self).tracking(), final(self).marks() == Set::<u32>::empty();
}

// ---------------------------------------------------------------- Flagged
//@struct src/tracked.rs | Flagged

impl<S: Default> Default for Flagged<S> {
//@derive_default src/tracked.rs | Flagged | id=Flagged::default props=T01,S02
//@ret r
//@spec
    ensures !r.tracking, r.modified@ == Set::<u32>::empty(), S::default.ensures((), r.storage),
//@end
}
//@impl src/tracked.rs | RawStorage for Flagged<S>
//@assoc src/tracked.rs | RawStorage for Flagged<S> | Item
    open spec fn m(&self) -> IMap<u32, S::Item> { self.storage.m() }
    open spec fn ok(&self) -> bool { self.storage.ok() }
    open spec fn fx(a: Self, b: Self, i: u32) -> bool {
        &&& b.tracking == a.tracking
        &&& b.modified@ == (if a.tracking { a.modified@.insert(i) } else { a.modified@ })
        &&& S::fx(a.storage, b.storage, i)
    }
//@fn src/tracked.rs | RawStorage for Flagged<S> :: get | props=S01,T01
//@ret r
//@end
//@fn src/tracked.rs | RawStorage for Flagged<S> :: get_mut | self=mut props=S01,T01
//@ret r
//@end
//@fn src/tracked.rs | RawStorage for Flagged<S> :: insert | props=S01,T01
//@end
//@fn src/tracked.rs | RawStorage for Flagged<S> :: remove | props=S01,T01
//@ret r
//@end
}
//@impl src/tracked.rs | TrackedStorage for Flagged<S>
    open spec fn tracking(&self) -> bool { self.tracking }
    open spec fn marks(&self) -> Set<u32> { self.modified@ }
    proof fn lemma_fx(a: Self, b: Self, i: u32) {}
//@fn src/tracked.rs | TrackedStorage for Flagged<S> :: set_track_modified | props=T01
//@spec
    ensures final(self).storage == old(self).storage,
//@end
//@fn src/tracked.rs | TrackedStorage for Flagged<S> :: tracking_modified | props=T01
//@ret r
//@end
//@fn src/tracked.rs | TrackedStorage for Flagged<S> :: mark_modified | self=mut props=T01
//@spec
    ensures final(self).storage == old(self).storage,
//@end
//@fn src/tracked.rs | TrackedStorage for Flagged<S> :: modified_indexes | props=T01
//@ret r
//@end
//@fn src/tracked.rs | TrackedStorage for Flagged<S> :: clear_modified | props=T01
//@spec
    ensures final(self).storage == old(self).storage,
//@end
}

// ---------------------------------------------------------------- MaskedStorage
//@struct src/masked.rs | MaskedStorage
/// the storage is given back as `&mut` by a guard
//@struct src/masked.rs | GuardedElement | map & 'a S => & 'a mut S

impl<S: RawStorage> MaskedStorage<S> {
    /// the component at each index
    pub open spec fn map(&self) -> IMap<u32, S::Item> { self.storage.m() }
    pub open spec fn wf(&self) -> bool {
        &&& self.storage.ok()
        &&& forall|i: u32| #[trigger] self.mask@.contains(i) <==> self.storage.m().contains_key(i)
    }
}
/// calls the closure given to get_or_insert_with, which may panic: the storage must be unchanged until it has returned
pub fn vp_callback<S: RawStorage, F: FnOnce() -> S::Item>(f: F, now: Ghost<MaskedStorage<S>>, before: Ghost<MaskedStorage<S>>) -> (r: S::Item)
    requires f.requires(()), now@ == before@, now@.wf(),
    ensures f.ensures((), r),
{ f() }

//@impl src/masked.rs | Default for MaskedStorage<S>
//@fn src/masked.rs | Default for MaskedStorage<S> :: default
//@ret r
//@spec
    ensures r.mask@ == Set::<u32>::empty(), S::default.ensures((), r.storage),
//@end
}
impl<S: RawStorage> MaskedStorage<S> {
//@fn src/masked.rs | MaskedStorage<S> :: mask
//@ret r
//@spec
    ensures r@ == self.mask@,
//@end
//@fn src/masked.rs | MaskedStorage<S> :: raw_storage
//@ret r
//@spec
    ensures *r == self.storage,
//@end
//@fn src/masked.rs | MaskedStorage<S> :: raw_storage_mut
//@ret r
//@spec
    ensures *r == old(self).storage, *final(r) == final(self).storage, final(self).mask == old(self).mask,
//@end
//@fn src/masked.rs | MaskedStorage<S> :: contains
//@ret r
//@spec
    requires self.wf(),
    ensures r == self.map().contains_key($1),
//@end
//@fn src/masked.rs | MaskedStorage<S> :: get | props=S02,T01
//@ret r
//@spec
    requires self.wf(),
    ensures
        r.is_some() == self.map().contains_key($1),
        r.is_some() ==> *r->0 == self.map()[$1],
//@end
//@fn src/masked.rs | MaskedStorage<S> :: get_mut | props=S02,T01
//@ret r
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        r.is_some() == old(self).map().contains_key($1),
        r.is_some() ==> *r->0 == old(self).map()[$1] && final(self).map() == old(self).map().insert($1, *final(r->0)) && S::fx(old(self).storage, final(self).storage, $1),
        r.is_none() ==> *final(self) == *old(self),
//@end
//@fn src/masked.rs | MaskedStorage<S> :: get_guard | map & self . storage => & mut self . storage ; props=S02,T02,T01
//@ret r
//@spec
    requires old(self).wf(),
    ensures
        r.is_some() == old(self).map().contains_key($1),
        r.is_some() ==> r->0.index == $1 && *r->0.storage == old(self).storage && final(self).storage == *final(r->0.storage) && final(self).mask == old(self).mask,
        r.is_none() ==> *final(self) == *old(self),
//@end
//@fn src/masked.rs | MaskedStorage<S> :: get_or_insert_with | map! $2 ( ) => vp_callback :: < S , _ > ( $2 , Ghost ( * self ) , Ghost ( * old ( self ) ) ) ; props=S02,S03,T01
//@ret r
//@spec
    requires old(self).wf(), $2.requires(()),
    ensures
        final(self).wf(),
        old(self).map().contains_key($1) ==> *r == old(self).map()[$1],
        !old(self).map().contains_key($1) ==> $2.ensures((), *r),
        final(self).map() == old(self).map().insert($1, *final(r)), //# S02
        old(self).map().contains_key($1) ==> S::fx(old(self).storage, final(self).storage, $1),
        !old(self).map().contains_key($1) ==> exists|s: S| S::fx(old(self).storage, s, $1) && #[trigger] S::fx(s, final(self).storage, $1),
//@panicif $1 >= BIT_LIMIT()
//@end
//@fn src/masked.rs | MaskedStorage<S> :: insert | props=S02,T01,S03
//@ret r
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        r == (if old(self).map().contains_key($1) { Some(old(self).map()[$1]) } else { None::<S::Item> }),
        final(self).map() == old(self).map().insert($1, $2),
        S::fx(old(self).storage, final(self).storage, $1),
//@panicif $1 >= BIT_LIMIT()
//@end
//@fn src/masked.rs | MaskedStorage<S> :: remove | props=S02,T01,S03
//@ret r
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        r == (if old(self).map().contains_key($1) { Some(old(self).map()[$1]) } else { None::<S::Item> }),
        final(self).map() == old(self).map().remove($1),
        r.is_some() ==> S::fx(old(self).storage, final(self).storage, $1),
        r.is_none() ==> final(self).storage == old(self).storage,
//@end
}
impl<S: DenseStorage> MaskedStorage<S> {
//@fn src/masked.rs | MaskedStorage<S> :: as_slice
//@ret r
//@spec
    requires self.wf(),
    ensures
        r@.len() == self.storage.order().len(),
        forall|i: u32| #[trigger] self.storage.order().contains(i) <==> self.map().contains_key(i),
        forall|j: int, k: int| 0 <= j < k < r@.len() ==> #[trigger] self.storage.order()[j] != #[trigger] self.storage.order()[k],
        forall|k: int| #![trigger r@[k]] 0 <= k < r@.len() ==> r@[k] == self.map()[self.storage.order()[k]],
//@end
//@fn src/masked.rs | MaskedStorage<S> :: as_mut_slice
//@ret r
//@spec
    requires old(self).wf(),
    ensures
        r@.len() == old(self).storage.order().len(),
        forall|k: int| #![trigger r@[k]] 0 <= k < r@.len() ==> r@[k] == old(self).map()[old(self).storage.order()[k]],
        final(self).wf(),
        final(self).map().dom() == old(self).map().dom(),
        forall|k: int| #![trigger final(r)@[k]] 0 <= k < r@.len() ==> final(r)@[k] == final(self).map()[old(self).storage.order()[k]],
//@end
}
impl<S: TrackedStorage> MaskedStorage<S> {
//@fn src/masked.rs | MaskedStorage<S> :: tracking_modified | props=T01
//@ret r
//@spec
    ensures r == self.storage.tracking(),
//@end
//@fn src/masked.rs | MaskedStorage<S> :: modified_indexes | props=T01
//@ret r
//@spec
    ensures r@ == self.storage.marks(),
//@end
//@fn src/masked.rs | MaskedStorage<S> :: set_track_modified | props=T01
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).map() == old(self).map(), final(self).storage.tracking() == $1, final(self).storage.marks() == old(self).storage.marks(),
//@end
//@fn src/masked.rs | MaskedStorage<S> :: mark_modified | self=mut props=T01
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).map() == old(self).map(), final(self).storage.tracking() == old(self).storage.tracking(), final(self).storage.marks() == old(self).storage.marks().insert($1),
//@end
//@fn src/masked.rs | MaskedStorage<S> :: clear_modified | props=T01
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).map() == old(self).map(), final(self).storage.tracking() == old(self).storage.tracking(), final(self).storage.marks() == Set::<u32>::empty(),
//@end
}
// ---------------------------------------------------------------- the parts of joins
//@struct src/masked.rs | GuardedJoin
//@struct src/masked.rs | ModifiedJoin
//@struct src/masked.rs | ModifiedJoinMut
impl<S: RawStorage> MaskedStorage<S> {
//@fn src/masked.rs | MaskedStorage<S> :: guard | props=T02
//@ret r
//@spec
    ensures *r.0 == *old(self), *final(r.0) == *final(self),
//@end
}
impl<S: TrackedStorage> MaskedStorage<S> {
//@fn src/masked.rs | MaskedStorage<S> :: modified | props=T02
//@ret r
//@spec
    ensures r.0 == self,
//@end
//@fn src/masked.rs | MaskedStorage<S> :: modified_mut | props=T02
//@ret r
//@spec
    ensures *r.0 == *old(self), *final(r.0) == *final(self),
//@end
}
// ---------------------------------------------------------------- guards
impl<'a, S: RawStorage> GuardedElement<'a, S> {
    /// what a guard relies on
    pub open spec fn wf(&self) -> bool { self.storage.ok() && self.storage.m().contains_key(self.index) }
    pub open spec fn map(&self) -> IMap<u32, S::Item> { self.storage.m() }
//@fn src/masked.rs | GuardedElement<S> :: get | props=T02
//@ret r
//@spec
    requires self.wf(),
    ensures *r == self.map()[self.index],
//@end
//@fn src/masked.rs | GuardedElement<S> :: get_mut | props=T02,T01
//@ret r
//@spec
    requires old(self).wf(),
    ensures
        *r == old(self).map()[old(self).index],
        final(self).wf(), final(self).index == old(self).index,
        final(self).map() == old(self).map().insert(old(self).index, *final(r)),
        S::fx(*old(self).storage, *final(self).storage, old(self).index),
        *final(final(self).storage) == *final(old(self).storage),
//@end
}
impl<'a, S: TrackedStorage> GuardedElement<'a, S> {
//@fn src/masked.rs | GuardedElement<S> :: mark_modified | self=mut props=T02,T01
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).index == old(self).index,
        final(self).map() == old(self).map(),
        final(self).storage.tracking() == old(self).storage.tracking(),
        final(self).storage.marks() == old(self).storage.marks().insert(old(self).index),
        *final(final(self).storage) == *final(old(self).storage),
//@end
}
// ---------------------------------------------------------------- dropping a MaskedStorage
impl BitSet {
    #[verifier::external_body]
    pub fn vp_iter(&self) -> (r: It<u32>)
        ensures r.pos() == 0, sorted_of(r.all(), self@),
    { unimplemented!() }
}
/// what an iterator has still to yield
pub open spec fn vp_rest(it: It<u32>, i: u32) -> bool {
    exists|k: int| it.pos() <= k < it.all().len() && #[trigger] it.all()[k] == i
}
/// the storage holds values at exactly the indexes still to be yielded, each of which is yielded once
pub open spec fn vp_matches<S: RawStorage>(it: It<u32>, s: S) -> bool {
    &&& s.ok()
    &&& 0 <= it.pos() <= it.all().len()
    &&& forall|j: int, k: int| 0 <= j < k < it.all().len() ==> #[trigger] it.all()[j] != #[trigger] it.all()[k]
    &&& forall|i: u32| #[trigger] s.m().contains_key(i) <==> vp_rest(it, i)
}
pub mod vp_rests {
use vstd::prelude::*;
use super::{It, vp_rest};
pub broadcast proof fn lemma_rest(it: It<u32>, i: u32)
    ensures it.pos() == 0 ==> #[trigger] vp_rest(it, i) == it.all().contains(i),
{
    if it.pos() == 0 && it.all().contains(i) {
        let k = choose|k: int| 0 <= k < it.all().len() && it.all()[k] == i;
        assert(vp_rest(it, i));
    }
}
}
//@struct src/masked.rs | DropGuard | in=Drop_for_MaskedStorage<S>_::_drop ; map BitIter < & 'a BitSet > => It < u32 > ; map struct DropGuard < 'a , => struct DropGuard < ; map 'a ,  =>
impl<'b, S: RawStorage> DropGuard<'b, S> {
//@fn src/masked.rs | Drop for MaskedStorage<S> :: drop / Drop for DropGuard<S> :: drop | name=vp_drop attr=verifier::exec_allows_no_decreases_clause props=S03
//@spec
    requires
        old(self).0.is_some() ==> vp_matches(*old(self).0->0, *old(self).1),
    ensures
        old(self).0.is_some() ==> final(self).1.ok() && final(self).1.m() == IMap::<u32, S::Item>::empty(),
        old(self).0.is_none() ==> *final(self) == *old(self),
        *final(final(self).1) == *final(old(self).1),
//@loop 0
    guard.0.is_some(),
    vp_matches(*guard.0->0, *guard.1),
//@end
}
/// a `DropGuard` that is made and dropped at once
pub fn vp_drop_guard<S: RawStorage>(it: Option<&mut It<u32>>, s: &mut S)
    requires it.is_some() ==> vp_matches(*it->0, *old(s)),
    ensures
        it.is_some() ==> final(s).ok() && final(s).m() == IMap::<u32, S::Item>::empty(),
        it.is_none() ==> *final(s) == *old(s),
{
    let mut g = DropGuard(it, s);
    g.vp_drop();
}
impl<S: RawStorage> MaskedStorage<S> {
//@fn src/masked.rs | Drop for MaskedStorage<S> :: drop | name=vp_drop props=S03 ; map! DropGuard :: < S > => vp_drop_guard :: < S >
//@spec
    requires old(self).wf(),
    ensures final(self).storage.ok(), final(self).storage.m() == IMap::<u32, S::Item>::empty(),
//@entry
    broadcast use vp_rests::lemma_rest;
//@end
}
} // verus!
fn main() {}
