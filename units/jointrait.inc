verus! {
// ---------------------------------------------------------------- the contract of Join
pub trait Join: Sized {
    type Item;
    type Access;
    type Mask: BitSetLike;
    /// what the joined value is: the indexes it has a value for, and the value
    spec fn jhas(self, i: u32) -> bool;
    spec fn jval(self, i: u32, x: Self::Item) -> bool;
    /// `get` may be asked for index `i`, and the item it then gives
    spec fn valid(a: Self::Access, i: u32) -> bool;
    spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool;
    /// representation invariant of the joined value
    spec fn jok(self) -> bool;
    fn open(self) -> (r: (Self::Mask, Self::Access))
        requires self.jok(),
        ensures
            forall|i: u32| #[trigger] r.0.has(i) == self.jhas(i),
            forall|i: u32| i < BIT_LIMIT() && self.jhas(i) ==> #[trigger] Self::valid(r.1, i),
            forall|i: u32, x: Self::Item| i < BIT_LIMIT() && self.jhas(i) && #[trigger] Self::item(r.1, i, x) ==> self.jval(i, x);
    unsafe fn get(access: &Self::Access, index: u32) -> (r: Self::Item)
        requires index < BIT_LIMIT(), Self::valid(*access, index),
        ensures Self::item(*access, index, r);
}
} // verus!
