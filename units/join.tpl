//@include prelude.rs
//@include bitlike.rs
verus! {
//@type src/join.rs | Index
//@struct src/join.rs | JoinIterUnconstrained
//@struct src/join.rs | MaybeJoin
//@struct src/join.rs | JoinIter
//@struct src/join.rs | JoinTuple

pub trait IntoJoin: Sized {
    type Item;
    type IntoJoin: Join<Item = Self::Item>;
    spec fn ihas(self, i: u32) -> bool;
    spec fn ival(self, i: u32, x: Self::Item) -> bool;
    spec fn iok(self) -> bool;
    fn into_join(self) -> (r: Self::IntoJoin)
        requires self.iok(),
        ensures
            r.jok(),
            forall|i: u32| #[trigger] r.jhas(i) == self.ihas(i),
            forall|i: u32, x: Self::Item| #[trigger] r.jval(i, x) == self.ival(i, x);
}
/// lets the solver know the type, always true
pub open spec fn vp_ty<T>() -> bool { true }
pub trait BitAnd: Sized {
    type Value: BitSetLike;
    spec fn all(self, i: u32) -> bool;
    fn and(self) -> (r: Self::Value)
        ensures vp_ty::<Self::Value>(), forall|i: u32| #[trigger] r.has(i) == self.all(i);
}
//@impl src/join.rs | IntoJoin for J
//@assoc src/join.rs | IntoJoin for J | Item
//@assoc src/join.rs | IntoJoin for J | IntoJoin
    open spec fn ihas(self, i: u32) -> bool { self.jhas(i) }
    open spec fn ival(self, i: u32, x: Self::Item) -> bool { self.jval(i, x) }
    open spec fn iok(self) -> bool { self.jok() }
//@fn src/join.rs | IntoJoin for J :: into_join | props=J01
//@ret r
//@end
}

// ---------------------------------------------------------------- maybe
//@impl src/join.rs | Join for MaybeJoin<J>
//@assoc src/join.rs | Join for MaybeJoin<J> | Item
//@assoc src/join.rs | Join for MaybeJoin<J> | Access
//@assoc src/join.rs | Join for MaybeJoin<J> | Mask
    open spec fn jhas(self, i: u32) -> bool { true }
    open spec fn jok(self) -> bool { self.0.jok() }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool {
        x.is_some() == self.0.jhas(i) && (x.is_some() ==> self.0.jval(i, x->0))
    }
    open spec fn valid(a: Self::Access, i: u32) -> bool { a.0.has(i) ==> J::valid(a.1, i) }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool {
        x.is_some() == a.0.has(i) && (x.is_some() ==> J::item(a.1, i, x->0))
    }
//@fn src/join.rs | Join for MaybeJoin<J> :: open | props=J01
//@ret r
//@end
//@fn src/join.rs | Join for MaybeJoin<J> :: get | props=J01
//@ret r
//@end
}

// ---------------------------------------------------------------- iteration
impl<J: Join> JoinIter<J> {
    /// index yielded `k`th
    pub open spec fn at(&self, k: int) -> u32 { self.0.all()[k] }
    pub open spec fn len(&self) -> int { self.0.all().len() as int }
    pub open spec fn pos(&self) -> int { self.0.pos() }
    /// `get` may be called for every index yielded
    pub open spec fn wf(&self) -> bool {
        &&& 0 <= self.pos()
        &&& forall|k: int| 0 <= k < self.len() ==> #[trigger] self.0.all()[k] < BIT_LIMIT() && J::valid(self.1, self.0.all()[k])
    }
    /// yields exactly what the joined value has, in ascending order
    pub open spec fn joins(&self, j: J) -> bool {
        &&& self.pos() == 0
        &&& forall|a: int, b: int| 0 <= a < b < self.len() ==> #[trigger] self.0.all()[a] < #[trigger] self.0.all()[b]
        &&& forall|k: int| 0 <= k < self.len() ==> j.jhas(#[trigger] self.0.all()[k])
        &&& forall|i: u32| i < BIT_LIMIT() && j.jhas(i) ==> #[trigger] self.0.all().contains(i)
        &&& forall|k: int, x: J::Item| 0 <= k < self.len() && #[trigger] J::item(self.1, self.0.all()[k], x) ==> j.jval(self.0.all()[k], x)
    }
}
impl<J: Join> JoinIter<J> {
//@fn src/join.rs | JoinIter<J> :: new | props=J01,J02
//@ret r
//@spec
    requires $1.jok(),
    ensures
        r is Ok ==> r->Ok_0.wf() && r->Ok_0.joins($1), //# J01
        exists|m: J::Mask, a: J::Access| J::open.ensures(($1,), (m, a)) && (r is Ok <==> m.con()), //# J02
//@end
//@fn src/join.rs | JoinIter<J> :: new_unconstrained | props=J01,J02
//@ret r
//@spec
    requires $1.jok(),
    ensures r.wf() && r.joins($1),
//@end
}
impl<J: Join> JoinIter<J> {
//@fn src/join.rs | Iterator for JoinIter<J> :: next | props=J01 ; map Self :: Item => J :: Item
//@ret r
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).0.all() == old(self).0.all(), final(self).1 == old(self).1,
        r.is_some() == (old(self).pos() < old(self).len()),
        r.is_some() ==> final(self).pos() == old(self).pos() + 1 && J::item(old(self).1, old(self).at(old(self).pos()), r->0),
        r.is_none() ==> final(self).pos() == old(self).pos(),
//@end
}

//@struct src/join.rs | JoinParIter
impl<J: Join> JoinParIter<J> {
    /// exactly the joined value, not yet iterated
    pub open spec fn joins(&self, j: J) -> bool {
        &&& forall|i: u32| #[trigger] self.0.has(i) == j.jhas(i)
        &&& forall|i: u32| i < BIT_LIMIT() && j.jhas(i) ==> #[trigger] J::valid(self.1, i)
        &&& forall|i: u32, x: J::Item| i < BIT_LIMIT() && j.jhas(i) && #[trigger] J::item(self.1, i, x) ==> j.jval(i, x)
    }
//@fn src/join.rs | JoinParIter<J> :: new | id=join::JoinParIter::new props=J02,J03
//@ret r
//@spec
    requires $1.jok(),
    ensures
        r is Ok ==> r->Ok_0.joins($1), //# J03
        exists|m: J::Mask, a: J::Access| J::open.ensures(($1,), (m, a)) && (r is Ok <==> m.con()), //# J02
//@end
//@fn src/join.rs | JoinParIter<J> :: new_unconstrained | id=join::JoinParIter::new_unconstrained props=J02,J03
//@ret r
//@spec
    requires $1.jok(),
    ensures r.joins($1),
//@end
}
/// `j` is what `i.into_join()` is
pub open spec fn vp_same<I: IntoJoin>(i: I, j: I::IntoJoin) -> bool {
    &&& j.jok()
    &&& forall|k: u32| #[trigger] j.jhas(k) == i.ihas(k)
    &&& forall|k: u32, x: I::Item| #[trigger] j.jval(k, x) == i.ival(k, x)
}
pub trait IntoJoinExt: IntoJoin {
//@fn src/join.rs | trait IntoJoinExt :: join | nopub props=J01,J02 ; map . unwrap ( ) => . vp_expect ( )
//@panicif exists|j: Self::IntoJoin, m: <Self::IntoJoin as Join>::Mask, a: <Self::IntoJoin as Join>::Access| vp_same(self, j) && #[trigger] <Self::IntoJoin as Join>::open.ensures((j,), (m, a)) && !m.con()
//@ret r
//@spec
    requires self.iok(),
    ensures
        r.wf(),
        exists|j: Self::IntoJoin| vp_same(self, j) && #[trigger] r.joins(j), //# J01
        exists|j: Self::IntoJoin, m: <Self::IntoJoin as Join>::Mask, a: <Self::IntoJoin as Join>::Access| vp_same(self, j) && #[trigger] <Self::IntoJoin as Join>::open.ensures((j,), (m, a)) && m.con(), //# J02
//@end
//@fn src/join.rs | trait IntoJoinExt :: join_unconstrained | nopub props=J01,J02
//@ret r
//@spec
    requires self.iok(),
    ensures
        r.wf(),
        exists|j: Self::IntoJoin| vp_same(self, j) && #[trigger] r.joins(j),
//@end
//@fn src/join.rs | trait IntoJoinExt :: maybe | nopub props=J01
//@ret r
//@spec
    requires self.iok(),
    ensures vp_same(self, r.0),
//@end
}

// ---------------------------------------------------------------- constrained masks
pub trait BitSetConstrained: BitSetLike {
    spec fn con(&self) -> bool;
    fn is_constrained(&self) -> (r: bool)
        ensures r == self.con();
}
//@impl expanded:join | BitSetConstrained for BitSet
    open spec fn con(&self) -> bool { true }
//@fn expanded:join | BitSetConstrained for BitSet :: is_constrained | props=J02
//@ret r
//@end
}
//@impl expanded:join | BitSetConstrained for AtomicBitSet
    open spec fn con(&self) -> bool { true }
//@fn expanded:join | BitSetConstrained for AtomicBitSet :: is_constrained | props=J02
//@ret r
//@end
}
//@impl src/join.rs | BitSetConstrained for BitSetAll
    open spec fn con(&self) -> bool { false }
//@fn src/join.rs | BitSetConstrained for BitSetAll :: is_constrained | props=J02
//@ret r
//@end
}
//@impl src/join.rs | BitSetConstrained for &'a B
    open spec fn con(&self) -> bool { (**self).con() }
//@fn src/join.rs | BitSetConstrained for &'a B :: is_constrained | props=J02
//@ret r
//@end
}
//@impl src/join.rs | BitSetConstrained for BitSetNot<A>
    open spec fn con(&self) -> bool { !self.0.con() }
//@fn src/join.rs | BitSetConstrained for BitSetNot<A> :: is_constrained | props=J02
//@ret r
//@end
}
//@impl src/join.rs | BitSetConstrained for BitSetAnd<A, B>
    open spec fn con(&self) -> bool { self.0.con() || self.1.con() }
//@fn src/join.rs | BitSetConstrained for BitSetAnd<A, B> :: is_constrained | props=J02
//@ret r
//@end
}
//@impl src/join.rs | BitSetConstrained for BitSetOr<A, B>
    open spec fn con(&self) -> bool { self.0.con() && self.1.con() }
//@fn src/join.rs | BitSetConstrained for BitSetOr<A, B> :: is_constrained | props=J02
//@ret r
//@end
}
//@impl src/join.rs | BitSetConstrained for BitSetXor<A, B>
    open spec fn con(&self) -> bool { self.0.con() && self.1.con() }
//@fn src/join.rs | BitSetConstrained for BitSetXor<A, B> :: is_constrained | props=J02
//@ret r
//@end
}

// ---------------------------------------------------------------- bit sets as joins
//@impl expanded:join | Join for BitSet | map where => where
//@assoc expanded:join | Join for BitSet | Item
//@assoc expanded:join | Join for BitSet | Access
//@assoc expanded:join | Join for BitSet | Mask
    open spec fn jhas(self, i: u32) -> bool { self.has(i) }
    open spec fn jok(self) -> bool { true }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { x == i }
    open spec fn valid(a: Self::Access, i: u32) -> bool { true }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { x == i }
//@fn expanded:join | Join for BitSet :: open | props=J01
//@ret r
//@end
//@fn expanded:join | Join for BitSet :: get | props=J01
//@ret r
//@end
}
//@impl expanded:join | Join for &'a BitSet | map where => where
//@assoc expanded:join | Join for &'a BitSet | Item
//@assoc expanded:join | Join for &'a BitSet | Access
//@assoc expanded:join | Join for &'a BitSet | Mask
    open spec fn jhas(self, i: u32) -> bool { self.has(i) }
    open spec fn jok(self) -> bool { true }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { x == i }
    open spec fn valid(a: Self::Access, i: u32) -> bool { true }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { x == i }
//@fn expanded:join | Join for &'a BitSet :: open | props=J01
//@ret r
//@end
//@fn expanded:join | Join for &'a BitSet :: get | props=J01
//@ret r
//@end
}
/// `dyn BitSetLike`: some bit set
#[verifier::external_body]
pub struct VpDynBits { x: u8 }
impl View for VpDynBits { type V = Set<u32>; uninterp spec fn view(&self) -> Set<u32>; }
impl BitSetLike for VpDynBits {
    open spec fn has(&self, i: u32) -> bool { self@.contains(i) }
    #[verifier::external_body]
    fn contains(&self, i: u32) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vp_iter(self) -> (r: BitIter<Self>) { unimplemented!() }
}
//@impl expanded:join | Join for &'a dyn BitSetLike | map where => where ; map dyn BitSetLike => VpDynBits
//@assoc expanded:join | Join for &'a dyn BitSetLike | Item
//@assoc expanded:join | Join for &'a dyn BitSetLike | Access
//@assoc expanded:join | Join for &'a dyn BitSetLike | Mask
    open spec fn jhas(self, i: u32) -> bool { self.has(i) }
    open spec fn jok(self) -> bool { true }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { x == i }
    open spec fn valid(a: Self::Access, i: u32) -> bool { true }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { x == i }
//@fn expanded:join | Join for &'a dyn BitSetLike :: open | props=J01
//@ret r
//@end
//@fn expanded:join | Join for &'a dyn BitSetLike :: get | props=J01
//@ret r
//@end
}
//@impl expanded:join | Join for AtomicBitSet | map where => where
//@assoc expanded:join | Join for AtomicBitSet | Item
//@assoc expanded:join | Join for AtomicBitSet | Access
//@assoc expanded:join | Join for AtomicBitSet | Mask
    open spec fn jhas(self, i: u32) -> bool { self.has(i) }
    open spec fn jok(self) -> bool { true }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { x == i }
    open spec fn valid(a: Self::Access, i: u32) -> bool { true }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { x == i }
//@fn expanded:join | Join for AtomicBitSet :: open | props=J01
//@ret r
//@end
//@fn expanded:join | Join for AtomicBitSet :: get | props=J01
//@ret r
//@end
}
//@impl expanded:join | Join for &'a AtomicBitSet | map where => where
//@assoc expanded:join | Join for &'a AtomicBitSet | Item
//@assoc expanded:join | Join for &'a AtomicBitSet | Access
//@assoc expanded:join | Join for &'a AtomicBitSet | Mask
    open spec fn jhas(self, i: u32) -> bool { self.has(i) }
    open spec fn jok(self) -> bool { true }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { x == i }
    open spec fn valid(a: Self::Access, i: u32) -> bool { true }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { x == i }
//@fn expanded:join | Join for &'a AtomicBitSet :: open | props=J01
//@ret r
//@end
//@fn expanded:join | Join for &'a AtomicBitSet :: get | props=J01
//@ret r
//@end
}
//@impl expanded:join | Join for BitSetAll | map where => where
//@assoc expanded:join | Join for BitSetAll | Item
//@assoc expanded:join | Join for BitSetAll | Access
//@assoc expanded:join | Join for BitSetAll | Mask
    open spec fn jhas(self, i: u32) -> bool { self.has(i) }
    open spec fn jok(self) -> bool { true }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { x == i }
    open spec fn valid(a: Self::Access, i: u32) -> bool { true }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { x == i }
//@fn expanded:join | Join for BitSetAll :: open | props=J01
//@ret r
//@end
//@fn expanded:join | Join for BitSetAll :: get | props=J01
//@ret r
//@end
}
//@impl expanded:join | Join for &'a BitSetAll | map where => where
//@assoc expanded:join | Join for &'a BitSetAll | Item
//@assoc expanded:join | Join for &'a BitSetAll | Access
//@assoc expanded:join | Join for &'a BitSetAll | Mask
    open spec fn jhas(self, i: u32) -> bool { self.has(i) }
    open spec fn jok(self) -> bool { true }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { x == i }
    open spec fn valid(a: Self::Access, i: u32) -> bool { true }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { x == i }
//@fn expanded:join | Join for &'a BitSetAll :: open | props=J01
//@ret r
//@end
//@fn expanded:join | Join for &'a BitSetAll :: get | props=J01
//@ret r
//@end
}
//@impl expanded:join | Join for BitSetNot<A> | map where => where
//@assoc expanded:join | Join for BitSetNot<A> | Item
//@assoc expanded:join | Join for BitSetNot<A> | Access
//@assoc expanded:join | Join for BitSetNot<A> | Mask
    open spec fn jhas(self, i: u32) -> bool { self.has(i) }
    open spec fn jok(self) -> bool { true }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { x == i }
    open spec fn valid(a: Self::Access, i: u32) -> bool { true }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { x == i }
//@fn expanded:join | Join for BitSetNot<A> :: open | props=J01
//@ret r
//@end
//@fn expanded:join | Join for BitSetNot<A> :: get | props=J01
//@ret r
//@end
}
//@impl expanded:join | Join for &'a BitSetNot<A> | map where => where
//@assoc expanded:join | Join for &'a BitSetNot<A> | Item
//@assoc expanded:join | Join for &'a BitSetNot<A> | Access
//@assoc expanded:join | Join for &'a BitSetNot<A> | Mask
    open spec fn jhas(self, i: u32) -> bool { self.has(i) }
    open spec fn jok(self) -> bool { true }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { x == i }
    open spec fn valid(a: Self::Access, i: u32) -> bool { true }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { x == i }
//@fn expanded:join | Join for &'a BitSetNot<A> :: open | props=J01
//@ret r
//@end
//@fn expanded:join | Join for &'a BitSetNot<A> :: get | props=J01
//@ret r
//@end
}
//@impl expanded:join | Join for BitSetAnd<A, B> | map where => where
//@assoc expanded:join | Join for BitSetAnd<A, B> | Item
//@assoc expanded:join | Join for BitSetAnd<A, B> | Access
//@assoc expanded:join | Join for BitSetAnd<A, B> | Mask
    open spec fn jhas(self, i: u32) -> bool { self.has(i) }
    open spec fn jok(self) -> bool { true }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { x == i }
    open spec fn valid(a: Self::Access, i: u32) -> bool { true }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { x == i }
//@fn expanded:join | Join for BitSetAnd<A, B> :: open | props=J01
//@ret r
//@end
//@fn expanded:join | Join for BitSetAnd<A, B> :: get | props=J01
//@ret r
//@end
}
//@impl expanded:join | Join for &'a BitSetAnd<A, B> | map where => where
//@assoc expanded:join | Join for &'a BitSetAnd<A, B> | Item
//@assoc expanded:join | Join for &'a BitSetAnd<A, B> | Access
//@assoc expanded:join | Join for &'a BitSetAnd<A, B> | Mask
    open spec fn jhas(self, i: u32) -> bool { self.has(i) }
    open spec fn jok(self) -> bool { true }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { x == i }
    open spec fn valid(a: Self::Access, i: u32) -> bool { true }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { x == i }
//@fn expanded:join | Join for &'a BitSetAnd<A, B> :: open | props=J01
//@ret r
//@end
//@fn expanded:join | Join for &'a BitSetAnd<A, B> :: get | props=J01
//@ret r
//@end
}
//@impl expanded:join | Join for BitSetOr<A, B> | map where => where
//@assoc expanded:join | Join for BitSetOr<A, B> | Item
//@assoc expanded:join | Join for BitSetOr<A, B> | Access
//@assoc expanded:join | Join for BitSetOr<A, B> | Mask
    open spec fn jhas(self, i: u32) -> bool { self.has(i) }
    open spec fn jok(self) -> bool { true }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { x == i }
    open spec fn valid(a: Self::Access, i: u32) -> bool { true }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { x == i }
//@fn expanded:join | Join for BitSetOr<A, B> :: open | props=J01
//@ret r
//@end
//@fn expanded:join | Join for BitSetOr<A, B> :: get | props=J01
//@ret r
//@end
}
//@impl expanded:join | Join for &'a BitSetOr<A, B> | map where => where
//@assoc expanded:join | Join for &'a BitSetOr<A, B> | Item
//@assoc expanded:join | Join for &'a BitSetOr<A, B> | Access
//@assoc expanded:join | Join for &'a BitSetOr<A, B> | Mask
    open spec fn jhas(self, i: u32) -> bool { self.has(i) }
    open spec fn jok(self) -> bool { true }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { x == i }
    open spec fn valid(a: Self::Access, i: u32) -> bool { true }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { x == i }
//@fn expanded:join | Join for &'a BitSetOr<A, B> :: open | props=J01
//@ret r
//@end
//@fn expanded:join | Join for &'a BitSetOr<A, B> :: get | props=J01
//@ret r
//@end
}
//@impl expanded:join | Join for BitSetXor<A, B> | map where => where
//@assoc expanded:join | Join for BitSetXor<A, B> | Item
//@assoc expanded:join | Join for BitSetXor<A, B> | Access
//@assoc expanded:join | Join for BitSetXor<A, B> | Mask
    open spec fn jhas(self, i: u32) -> bool { self.has(i) }
    open spec fn jok(self) -> bool { true }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { x == i }
    open spec fn valid(a: Self::Access, i: u32) -> bool { true }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { x == i }
//@fn expanded:join | Join for BitSetXor<A, B> :: open | props=J01
//@ret r
//@end
//@fn expanded:join | Join for BitSetXor<A, B> :: get | props=J01
//@ret r
//@end
}
} // verus!
verus! {
// ---------------------------------------------------------------- joins over MaskedStorage
/// RawStorage as the joins use it: `get_mut` through a shared reference, one live item per index (J01)
pub trait RawStorage: Sized {
    type Item;
    spec fn m(&self) -> IMap<u32, Self::Item>;
    spec fn ok(&self) -> bool;
    /// the reference was got by `get_mut` of this index, which counts as a modification
    spec fn by_get_mut(&self, index: u32, x: &mut Self::Item) -> bool;
    /// it speaks of the value and of what becomes of it, not of one borrow
    proof fn by_get_mut_reborrow(&self, index: u32, x: &mut Self::Item, y: &mut Self::Item)
        requires self.by_get_mut(index, x), *y == *x, *final(y) == *final(x),
        ensures self.by_get_mut(index, y);
    unsafe fn get(&self, index: u32) -> (r: &Self::Item)
        requires self.ok(), self.m().contains_key(index),
        ensures *r == self.m()[index];
    unsafe fn get_mut(&self, index: u32) -> (r: &mut Self::Item)
        requires self.ok(), self.m().contains_key(index),
        ensures *r == self.m()[index], self.by_get_mut(index, r);
}
pub broadcast proof fn lemma_by_get_mut<S: RawStorage>(s: S, index: u32, x: &mut S::Item, y: &mut S::Item)
    requires #[trigger] s.by_get_mut(index, x), *y == *x, *final(y) == *final(x),
    ensures #[trigger] s.by_get_mut(index, y),
{
    s.by_get_mut_reborrow(index, x, y);
}
pub trait TrackedStorage: RawStorage {
    spec fn marks(&self) -> Set<u32>;
    spec fn tracking(&self) -> bool;
    fn tracking_modified(&self) -> (r: bool)
        ensures r == self.tracking();
    fn modified_indexes(&self) -> (r: &AtomicBitSet)
        ensures r@ == self.marks();
}
//@type src/tracked.rs | ModifiedBitSet
//@struct src/masked.rs | MaskedStorage
//@struct src/masked.rs | GuardedElement
//@struct src/masked.rs | GuardedJoin
//@struct src/masked.rs | ModifiedJoin
//@struct src/masked.rs | ModifiedJoinMut
impl<S: RawStorage> MaskedStorage<S> {
    pub open spec fn map(&self) -> IMap<u32, S::Item> { self.storage.m() }
    pub open spec fn wf(&self) -> bool {
        &&& self.storage.ok()
        &&& forall|i: u32| #[trigger] self.mask@.contains(i) <==> self.storage.m().contains_key(i)
    }
//@fn src/masked.rs | MaskedStorage<S> :: guard | props=T02
//@ret r
//@spec
    ensures *r.0 == *old(self), *final(r.0) == *final(self),
//@end
}
impl<S: TrackedStorage> MaskedStorage<S> {
//@fn src/masked.rs | MaskedStorage<S> :: modified | props=T02
//@ret r
//@spec
    ensures r.0 == self,
//@end
//@fn src/masked.rs | MaskedStorage<S> :: modified_mut | props=T02
//@ret r
//@spec
    ensures *r.0 == *old(self), *final(r.0) == *final(self),
//@end
}
//@impl src/masked.rs | Join for &'a MaskedStorage<S>
//@assoc src/masked.rs | Join for &'a MaskedStorage<S> | Item
//@assoc src/masked.rs | Join for &'a MaskedStorage<S> | Access
//@assoc src/masked.rs | Join for &'a MaskedStorage<S> | Mask
    open spec fn jhas(self, i: u32) -> bool { self.map().contains_key(i) }
    open spec fn jok(self) -> bool { self.wf() }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { *x == self.map()[i] }
    open spec fn valid(a: Self::Access, i: u32) -> bool { a.ok() && a.m().contains_key(i) }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { *x == a.m()[i] }
//@fn src/masked.rs | Join for &'a MaskedStorage<S> :: open | props=J01,T01
//@ret r
//@end
//@fn src/masked.rs | Join for &'a MaskedStorage<S> :: get | props=J01,T01
//@ret r
//@end
}
//@impl src/masked.rs | Join for &'a mut MaskedStorage<S>
//@assoc src/masked.rs | Join for &'a mut MaskedStorage<S> | Item
//@assoc src/masked.rs | Join for &'a mut MaskedStorage<S> | Access
//@assoc src/masked.rs | Join for &'a mut MaskedStorage<S> | Mask
    open spec fn jhas(self, i: u32) -> bool { self.map().contains_key(i) }
    open spec fn jok(self) -> bool { self.wf() }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { *x == self.map()[i] && self.storage.by_get_mut(i, x) }
    open spec fn valid(a: Self::Access, i: u32) -> bool { a.ok() && a.m().contains_key(i) }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { *x == a.m()[i] && a.by_get_mut(i, x) }
//@fn src/masked.rs | Join for &'a mut MaskedStorage<S> :: open | props=J01,T01
//@ret r
//@end
//@fn src/masked.rs | Join for &'a mut MaskedStorage<S> :: get | props=J01,T01
//@ret r
//@entry
    broadcast use lemma_by_get_mut;
//@end
}
//@impl src/masked.rs | Join for GuardedJoin<'a, S>
//@assoc src/masked.rs | Join for GuardedJoin<'a, S> | Item
//@assoc src/masked.rs | Join for GuardedJoin<'a, S> | Access
//@assoc src/masked.rs | Join for GuardedJoin<'a, S> | Mask
    open spec fn jhas(self, i: u32) -> bool { self.0.map().contains_key(i) }
    open spec fn jok(self) -> bool { self.0.wf() }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { x.index == i && *x.storage == self.0.storage }
    open spec fn valid(a: Self::Access, i: u32) -> bool { a.ok() && a.m().contains_key(i) }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { x.index == i && x.storage == a }
//@fn src/masked.rs | Join for GuardedJoin<'a, S> :: open | props=J01,T02
//@ret r
//@end
//@fn src/masked.rs | Join for GuardedJoin<'a, S> :: get | props=J01,T02
//@ret r
//@end
}
//@impl src/masked.rs | Join for ModifiedJoin<'a, S>
//@assoc src/masked.rs | Join for ModifiedJoin<'a, S> | Item
//@assoc src/masked.rs | Join for ModifiedJoin<'a, S> | Access
//@assoc src/masked.rs | Join for ModifiedJoin<'a, S> | Mask
    open spec fn jhas(self, i: u32) -> bool { self.0.storage.marks().contains(i) }
    open spec fn jok(self) -> bool { self.0.wf() }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { x.is_some() == self.0.map().contains_key(i) && (x.is_some() ==> *x->0 == self.0.map()[i]) }
    open spec fn valid(a: Self::Access, i: u32) -> bool { a.1.ok() && (a.0.has(i) ==> a.1.m().contains_key(i)) }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { x.is_some() == a.0.has(i) && (x.is_some() ==> *x->0 == a.1.m()[i]) }
//@fn src/masked.rs | Join for ModifiedJoin<'a, S> :: open | props=T02,T01
//@ret r
//@end
//@fn src/masked.rs | Join for ModifiedJoin<'a, S> :: get | props=T02,T01
//@ret r
//@end
}
//@impl src/masked.rs | Join for ModifiedJoinMut<'a, S>
//@assoc src/masked.rs | Join for ModifiedJoinMut<'a, S> | Item
//@assoc src/masked.rs | Join for ModifiedJoinMut<'a, S> | Access
//@assoc src/masked.rs | Join for ModifiedJoinMut<'a, S> | Mask
    open spec fn jhas(self, i: u32) -> bool { self.0.storage.marks().contains(i) }
    open spec fn jok(self) -> bool { self.0.wf() }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { x.is_some() == self.0.map().contains_key(i) && (x.is_some() ==> *x->0 == self.0.map()[i] && self.0.storage.by_get_mut(i, x->0)) }
    open spec fn valid(a: Self::Access, i: u32) -> bool { a.1.ok() && (a.0.has(i) ==> a.1.m().contains_key(i)) }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { x.is_some() == a.0.has(i) && (x.is_some() ==> *x->0 == a.1.m()[i] && a.1.by_get_mut(i, x->0)) }
//@fn src/masked.rs | Join for ModifiedJoinMut<'a, S> :: open | props=T02,T01
//@ret r
//@end
//@fn src/masked.rs | Join for ModifiedJoinMut<'a, S> :: get | props=T02,T01
//@ret r
//@entry
    broadcast use lemma_by_get_mut;
//@end
}
} // verus!
//@include join_tuples.rs
fn main() {}
