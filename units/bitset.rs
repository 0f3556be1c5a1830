verus! {
// ---------------------------------------------------------------- hibitset
// An index that is not representable makes `add` panic: excluded where `vp_small()`, else the call does not return.
/// Indexes below 64^4 are representable.
pub open spec fn BIT_LIMIT() -> int { 0x100_0000 }

pub open spec fn sorted_of(s: Seq<u32>, v: Set<u32>) -> bool {
    &&& (forall|x: u32| #[trigger] s.contains(x) <==> v.contains(x))
    &&& (forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] < #[trigger] s[j])
}

#[verifier::external_body]
pub struct BitSet { x: u8 }
impl View for BitSet {
    type V = Set<u32>;
    uninterp spec fn view(&self) -> Set<u32>;
}
impl BitSet {
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r ==> self@ == Set::<u32>::empty(), !r ==> exists|i: u32| self@.contains(i),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: u32) -> (r: BitSet)
        ensures r@ == Set::<u32>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: BitSet)
        ensures r@ == Set::<u32>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, id: u32) -> (r: bool)
        ensures r == self@.contains(id),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn add(&mut self, id: u32) -> (r: bool)
        requires id < BIT_LIMIT(),
        ensures r == old(self)@.contains(id), final(self)@ == old(self)@.insert(id),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, id: u32) -> (r: bool)
        ensures r == old(self)@.contains(id), final(self)@ == old(self)@.remove(id),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self)
        ensures final(self)@ == Set::<u32>::empty(),
    { unimplemented!() }
}
impl Default for BitSet {
    #[verifier::external_body]
    fn default() -> (r: BitSet)
        ensures r@ == Set::<u32>::empty(),
    { unimplemented!() }
}

#[verifier::external_body]
pub struct AtomicBitSet { x: u8 }
impl View for AtomicBitSet {
    type V = Set<u32>;
    uninterp spec fn view(&self) -> Set<u32>;
}
impl AtomicBitSet {
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r ==> self@ == Set::<u32>::empty(), !r ==> exists|i: u32| self@.contains(i),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: AtomicBitSet)
        ensures r@ == Set::<u32>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, id: u32) -> (r: bool)
        requires id < BIT_LIMIT(),
        ensures r == self@.contains(id),
    { unimplemented!() }
    /// really `&self`; sequential reading of it
    #[verifier::external_body]
    pub fn add_atomic(&mut self, id: u32) -> (r: bool)
        requires vp_small() ==> id < BIT_LIMIT(),
        ensures id < BIT_LIMIT(), r == old(self)@.contains(id), final(self)@ == old(self)@.insert(id),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn add(&mut self, id: u32) -> (r: bool)
        requires vp_small() ==> id < BIT_LIMIT(),
        ensures id < BIT_LIMIT(), r == old(self)@.contains(id), final(self)@ == old(self)@.insert(id),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, id: u32) -> (r: bool)
        requires id < BIT_LIMIT(),
        ensures r == old(self)@.contains(id), final(self)@ == old(self)@.remove(id),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self)
        ensures final(self)@ == Set::<u32>::empty(),
    { unimplemented!() }
}
impl Default for AtomicBitSet {
    #[verifier::external_body]
    fn default() -> (r: AtomicBitSet)
        ensures r@ == Set::<u32>::empty(),
    { unimplemented!() }
}
} // verus!
