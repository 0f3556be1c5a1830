//@include prelude.rs
//@include bitlike.rs
verus! {
//@type src/join.rs | Index
//@struct src/join.rs | JoinIterUnconstrained
pub trait BitSetConstrained: BitSetLike {
    spec fn con(&self) -> bool;
    fn is_constrained(&self) -> (r: bool)
        ensures r == self.con();
}
pub trait IntoJoin: Sized {
    type Item;
    type IntoJoin: Join<Item = Self::Item>;
    spec fn ihas(self, i: u32) -> bool;
    spec fn ival(self, i: u32, x: Self::Item) -> bool;
    spec fn iok(self) -> bool;
    fn into_join(self) -> (r: Self::IntoJoin)
        requires self.iok(),
        ensures
            r.jok(),
            forall|i: u32| #[trigger] r.jhas(i) == self.ihas(i),
            forall|i: u32, x: Self::Item| #[trigger] r.jval(i, x) == self.ival(i, x);
}
/// `j` is what `i.into_join()` is
pub open spec fn vp_same<I: IntoJoin>(i: I, j: I::IntoJoin) -> bool {
    &&& j.jok()
    &&& forall|k: u32| #[trigger] j.jhas(k) == i.ihas(k)
    &&& forall|k: u32, x: I::Item| #[trigger] j.jval(k, x) == i.ival(k, x)
}

// ---------------------------------------------------------------- rayon's plumbing, as contracts
pub trait Folder<T>: Sized {
    /// the items consumed so far
    spec fn got(&self) -> Seq<T>;
    /// for a folder that does not become full
    fn consume_iter(self, iter: It<T>) -> (r: Self)
        requires iter.pos() == 0,
        ensures r.got() == self.got() + iter.all();
}
/// no index is listed twice
pub open spec fn vp_once(s: Seq<u32>) -> bool {
    forall|j: int, k: int| 0 <= j < k < s.len() ==> #[trigger] s[j] != #[trigger] s[k]
}
pub trait UnindexedProducer: Sized {
    type Item;
    /// the indexes this piece of work is for, and what it makes of each
    spec fn owns(&self, i: u32) -> bool;
    spec fn gives(&self, i: u32, x: Self::Item) -> bool;
    spec fn pok(&self) -> bool;
    /// the pieces share no index and leave none out
    fn split(self) -> (r: (Self, Option<Self>))
        requires self.pok(),
        ensures
            r.0.pok(), r.1.is_some() ==> r.1->0.pok(),
            forall|i: u32| #[trigger] self.owns(i) ==> r.0.owns(i) || r.1.is_some() && r.1->0.owns(i),
            forall|i: u32| #[trigger] r.0.owns(i) ==> self.owns(i),
            r.1.is_some() ==> forall|i: u32| #[trigger] r.1->0.owns(i) ==> self.owns(i) && !r.0.owns(i),
            forall|i: u32, x: Self::Item| #[trigger] r.0.gives(i, x) ==> self.gives(i, x),
            r.1.is_some() ==> forall|i: u32, x: Self::Item| #[trigger] r.1->0.gives(i, x) ==> self.gives(i, x);
    /// every index of the piece is visited once
    fn fold_with<F: Folder<Self::Item>>(self, folder: F) -> (r: F)
        requires self.pok(),
        ensures
            folder.got().len() <= r.got().len(), r.got().take(folder.got().len() as int) == folder.got(),
            exists|s: Seq<u32>| #[trigger] vp_once(s) && s.len() == r.got().len() - folder.got().len()
                && (forall|k: int| 0 <= k < s.len() ==> self.owns(#[trigger] s[k]) && self.gives(s[k], r.got()[folder.got().len() + k]))
                && (forall|i: u32| self.owns(i) ==> #[trigger] s.contains(i));
}
pub trait UnindexedConsumer<T>: Sized {
    type Result;
    /// `r` is the result of consuming the items `xs`, in some division and order
    spec fn made(self, xs: Seq<T>, r: Self::Result) -> bool;
}
/// rayon: splits as it likes, folds every piece once
#[verifier::external_body]
pub fn bridge_unindexed<P: UnindexedProducer, C: UnindexedConsumer<P::Item>>(producer: P, consumer: C) -> (r: C::Result)
    requires producer.pok(),
    ensures
        exists|s: Seq<u32>, xs: Seq<P::Item>| #[trigger] vp_once(s) && s.len() == xs.len() && #[trigger] consumer.made(xs, r)
            && (forall|k: int| 0 <= k < s.len() ==> producer.owns(#[trigger] s[k]) && producer.gives(s[k], xs[k]))
            && (forall|i: u32| producer.owns(i) ==> #[trigger] s.contains(i)),
{ unimplemented!() }

// ---------------------------------------------------------------- hibitset's BitProducer, as a contract
pub struct BitProducer<'a, T>(pub BitIter<&'a T>, pub u8);
impl<'a, T: BitSetLike> BitProducer<'a, T> {
    pub open spec fn bowns(&self, i: u32) -> bool { self.0.all().contains(i) }
    pub open spec fn bok(&self) -> bool {
        &&& self.0.pos() == 0
        &&& forall|j: int, k: int| 0 <= j < k < self.0.all().len() ==> #[trigger] self.0.all()[j] != #[trigger] self.0.all()[k]
    }
    #[verifier::external_body]
    pub fn split(self) -> (r: (Self, Option<Self>))
        requires self.bok(),
        ensures
            r.0.bok(), r.1.is_some() ==> r.1->0.bok(),
            forall|i: u32| #[trigger] self.bowns(i) ==> r.0.bowns(i) || r.1.is_some() && r.1->0.bowns(i),
            forall|i: u32| #[trigger] r.0.bowns(i) ==> self.bowns(i),
            r.1.is_some() ==> forall|i: u32| #[trigger] r.1->0.bowns(i) ==> self.bowns(i) && !r.0.bowns(i),
    { unimplemented!() }
}
impl<B> BitIter<B> {
    /// `Iterator::map`
    #[verifier::external_body]
    pub fn map<U, F: Fn(u32) -> U>(self, f: F) -> (r: It<U>)
        requires self.pos() == 0, forall|i: u32| self.all().contains(i) ==> #[trigger] f.requires((i,)),
        ensures
            r.pos() == 0,
            r.all().len() == self.all().len(),
            forall|k: int| #![trigger r.all()[k]] 0 <= k < r.all().len() ==> f.ensures((self.all()[k],), r.all()[k]),
    { unimplemented!() }
}

// ---------------------------------------------------------------- the code
//@struct src/par_join.rs | JoinParIter
impl<J: Join> JoinParIter<J> {
    /// exactly the joined value, not yet iterated
    pub open spec fn joins(&self, j: J) -> bool {
        &&& forall|i: u32| #[trigger] self.0.has(i) == j.jhas(i)
        &&& forall|i: u32| i < BIT_LIMIT() && j.jhas(i) ==> #[trigger] J::valid(self.1, i)
        &&& forall|i: u32, x: J::Item| i < BIT_LIMIT() && j.jhas(i) && #[trigger] J::item(self.1, i, x) ==> j.jval(i, x)
    }
    pub open spec fn wf(&self) -> bool {
        forall|i: u32| i < BIT_LIMIT() && #[trigger] self.0.has(i) ==> J::valid(self.1, i)
    }
//@fn src/par_join.rs | JoinParIter<J> :: new | id=par_join::JoinParIter::new props=J02,J03
//@ret r
//@spec
    requires $1.jok(),
    ensures
        r is Ok ==> r->Ok_0.wf() && r->Ok_0.joins($1), //# J03
        exists|m: J::Mask, a: J::Access| J::open.ensures(($1,), (m, a)) && (r is Ok <==> m.con()), //# J02
//@end
//@fn src/par_join.rs | JoinParIter<J> :: new_unconstrained | id=par_join::JoinParIter::new_unconstrained props=J02,J03
//@ret r
//@spec
    requires $1.jok(),
    ensures r.wf() && r.joins($1),
//@end
}
//@impl src/par_join.rs | ParallelIterator for JoinParIter<J> | map ParallelIterator for =>
//@fn src/par_join.rs | ParallelIterator for JoinParIter<J> :: drive_unindexed | props=J03 ; map Self :: Item => J :: Item
//@ret r
//@spec
    requires self.wf(),
    ensures
        exists|s: Seq<u32>, xs: Seq<J::Item>| #[trigger] vp_once(s) && s.len() == xs.len() && #[trigger] $1.made(xs, r)
            && (forall|k: int| 0 <= k < s.len() ==> s[k] < BIT_LIMIT() && self.0.has(#[trigger] s[k]) && J::item(self.1, s[k], xs[k]))
            && (forall|i: u32| i < BIT_LIMIT() && self.0.has(i) ==> #[trigger] s.contains(i)),
//@end
}
pub trait ParJoinExt: IntoJoin {
//@fn src/par_join.rs | trait ParJoinExt :: par_join | nopub props=J02,J03 ; map . unwrap ( ) => . vp_expect ( )
//@panicif exists|j: Self::IntoJoin, m: <Self::IntoJoin as Join>::Mask, a: <Self::IntoJoin as Join>::Access| vp_same(self, j) && #[trigger] <Self::IntoJoin as Join>::open.ensures((j,), (m, a)) && !m.con()
//@ret r
//@spec
    requires self.iok(),
    ensures
        r.wf(),
        exists|j: Self::IntoJoin| vp_same(self, j) && #[trigger] r.joins(j), //# J03
        exists|j: Self::IntoJoin, m: <Self::IntoJoin as Join>::Mask, a: <Self::IntoJoin as Join>::Access| vp_same(self, j) && #[trigger] <Self::IntoJoin as Join>::open.ensures((j,), (m, a)) && m.con(), //# J02
//@end
//@fn src/par_join.rs | trait ParJoinExt :: par_join_unconstrained | nopub props=J02,J03
//@ret r
//@spec
    requires self.iok(),
    ensures
        r.wf(),
        exists|j: Self::IntoJoin| vp_same(self, j) && #[trigger] r.joins(j),
//@end
}
//@struct src/par_join.rs | JoinProducer
//@impl src/par_join.rs | UnindexedProducer for JoinProducer<'a, J>
//@assoc src/par_join.rs | UnindexedProducer for JoinProducer<'a, J> | Item
    open spec fn owns(&self, i: u32) -> bool { self.producer.bowns(i) }
    open spec fn gives(&self, i: u32, x: J::Item) -> bool { J::item(*self.access, i, x) }
    open spec fn pok(&self) -> bool {
        &&& self.producer.bok()
        &&& forall|i: u32| #![trigger self.producer.bowns(i)] #![trigger self.producer.0.all().contains(i)] self.producer.bowns(i) ==> i < BIT_LIMIT() && J::valid(*self.access, i)
    }
//@fn src/par_join.rs | UnindexedProducer for JoinProducer<'a, J> :: split | props=J03
//@ret r
//@end
//@fn src/par_join.rs | UnindexedProducer for JoinProducer<'a, J> :: fold_with | itermap props=J03
//@ret r
//@entry
assert(vp_once(self.producer.0.all()));
//@closure 0
-> (vp_r: J::Item) requires @1 < BIT_LIMIT(), J::valid(*access, @1) ensures J::item(*access, @1, vp_r)
//@end
}
} // verus!
fn main() {}
