verus! {
// ---------------------------------------------------------------- the contract of RawStorage
pub trait RawStorage: Sized {
    type Item;
    /// the value stored at each occupied index
    spec fn m(&self) -> IMap<u32, Self::Item>;
    /// representation invariant
    spec fn ok(&self) -> bool;
    /// what a call of get_mut, insert or remove for index `i` does besides changing `m`
    spec fn fx(a: Self, b: Self, i: u32) -> bool;
    unsafe fn get(&self, index: u32) -> (r: &Self::Item)
        requires self.ok(), self.m().contains_key(index),
        ensures *r == self.m()[index];
    /// really `&self`
    unsafe fn get_mut(&mut self, index: u32) -> (r: &mut Self::Item)
        requires old(self).ok(), old(self).m().contains_key(index),
        ensures *r == old(self).m()[index], final(self).ok(), final(self).m() == old(self).m().insert(index, *final(r)), Self::fx(*old(self), *final(self), index);
    unsafe fn insert(&mut self, index: u32, value: Self::Item)
        requires old(self).ok(), !old(self).m().contains_key(index),
        ensures final(self).ok(), final(self).m() == old(self).m().insert(index, value), Self::fx(*old(self), *final(self), index);
    unsafe fn remove(&mut self, index: u32) -> (r: Self::Item)
        requires old(self).ok(), old(self).m().contains_key(index),
        ensures r == old(self).m()[index], final(self).ok(), final(self).m() == old(self).m().remove(index), Self::fx(*old(self), *final(self), index);
}
} // verus!
verus! {
pub trait DenseStorage: RawStorage {
    /// the occupied index each position of the slice belongs to
    spec fn order(&self) -> Seq<u32>;
    fn as_slice(&self) -> (r: &[Self::Item])
        requires self.ok(),
        ensures
            r@.len() == self.order().len(),
            forall|i: u32| #[trigger] self.order().contains(i) <==> self.m().contains_key(i),
            forall|j: int, k: int| 0 <= j < k < r@.len() ==> #[trigger] self.order()[j] != #[trigger] self.order()[k],
            forall|k: int| #![trigger r@[k]] #![trigger self.order()[k]] 0 <= k < r@.len() ==> r@[k] == self.m()[self.order()[k]];
    fn as_mut_slice(&mut self) -> (r: &mut [Self::Item])
        requires old(self).ok(),
        ensures
            r@.len() == old(self).order().len(),
            forall|i: u32| #[trigger] old(self).order().contains(i) <==> old(self).m().contains_key(i),
            forall|j: int, k: int| 0 <= j < k < r@.len() ==> #[trigger] old(self).order()[j] != #[trigger] old(self).order()[k],
            forall|k: int| #![trigger r@[k]] 0 <= k < r@.len() ==> r@[k] == old(self).m()[old(self).order()[k]],
            final(self).ok(),
            final(self).order() == old(self).order(),
            final(self).m().dom() == old(self).m().dom(),
            forall|k: int| #![trigger final(r)@[k]] 0 <= k < r@.len() ==> final(r)@[k] == final(self).m()[old(self).order()[k]];
}
} // verus!
