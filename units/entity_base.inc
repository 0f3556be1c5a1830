verus! {
pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }

#[derive(Copy, Clone, Eq, PartialEq, Structural)]
pub struct NonZeroI32 { pub v: i32 }
impl NonZeroI32 {
    pub unsafe fn new_unchecked(v: i32) -> (r: NonZeroI32)
        requires v != 0,
        ensures r.v == v,
    { NonZeroI32 { v } }
    pub fn new(v: i32) -> (r: Option<NonZeroI32>)
        ensures r == (if v != 0 { Some(NonZeroI32 { v }) } else { None::<NonZeroI32> }),
    { if v != 0 { Some(NonZeroI32 { v }) } else { None } }
    pub fn get(self) -> (r: i32)
        ensures r == self.v,
    { self.v }
}
pub struct BitSetOr<A, B>(pub A, pub B);
impl<'a> View for BitSetOr<&'a BitSet, &'a AtomicBitSet> {
    type V = Set<u32>;
    open spec fn view(&self) -> Set<u32> { self.0@.union(self.1@) }
}

// ---------------------------------------------------------------- real items
//@type src/join.rs | Index
//@const src/entity.rs | MAX_INDEX | map usize :: BITS . pow (4) => 0x100_0000
//@type src/entity.rs | AtomicIndex
//@type src/entity.rs | GenId
//@type src/entity.rs | NZGenId
//@type src/entity.rs | LiveBitSet
//@struct src/entity.rs | WrongGeneration
//@struct src/entity.rs | Generation
//@struct src/entity.rs | AliveGeneration
//@struct src/entity.rs | Entity
//@struct src/entity.rs | EntityCache
//@struct src/entity.rs | Allocator

// ---------------------------------------------------------------- specification
impl Entity {
    /// the generation number
    pub open spec fn gen(self) -> int { self.generation.0.v as int }
}

impl EntityCache {
    /// the free indexes, in the order of storage
    pub open spec fn seq(&self) -> Seq<u32> { self.cache@.take(self.len@ as int) }
    /// index `i` is free
    pub open spec fn has(&self, i: u32) -> bool { self.seq().contains(i) }
    pub open spec fn wf(&self) -> bool { self.len@ <= self.cache@.len() && distinct_below(self.seq(), BIT_LIMIT()) }
    pub open spec fn same(&self, o: &EntityCache) -> bool { forall|i: u32| #[trigger] self.has(i) == o.has(i) }
}
impl Allocator {
    pub open spec fn g(&self, i: u32) -> int {
        if i < self.generations@.len() { self.generations@[i as int].0 as int } else { 0 }
    }
    pub open spec fn n(&self) -> int { self.index_len@ as int }
    pub open spec fn wf(&self) -> bool {
        &&& self.generations@.len() <= self.n() <= BIT_LIMIT()
        &&& self.cache.wf()
        &&& (forall|i: u32| #[trigger] self.ok(i))
    }
    /// what holds of index `i`; the cache has exactly the indexes handed out before that have no live entity
    pub open spec fn ok(&self, i: u32) -> bool {
        &&& self.g(i) > i32::MIN
        &&& self.cur(i).is_some() ==> self.cur(i)->0 <= i32::MAX
        &&& self.alive@.contains(i) <==> self.g(i) > 0
        &&& self.raised_atomic@.contains(i) ==> i < self.n() && self.g(i) <= 0
        &&& self.killed_atomic@.contains(i) ==> self.cur(i).is_some()
        &&& self.generations@.len() <= i < self.n() ==> self.raised_atomic@.contains(i)
        &&& self.cache.has(i) <==> i < self.n() && self.cur(i).is_none()
    }
    /// generation of the entity living at index `i`
    pub open spec fn cur(&self, i: u32) -> Option<int> {
        if self.g(i) > 0 { Some(self.g(i)) }
        else if self.raised_atomic@.contains(i) { Some(1 - self.g(i)) }
        else { None }
    }
    /// highest generation ever handed out for index `i` (0: none); every generation from 1 to it was
    pub open spec fn top(&self, i: u32) -> int {
        if self.g(i) > 0 { self.g(i) }
        else if self.raised_atomic@.contains(i) { 1 - self.g(i) }
        else { -self.g(i) }
    }
    /// an entity this allocator has returned at some time
    pub open spec fn issued(&self, e: Entity) -> bool { 1 <= e.gen() <= self.top(e.index) }
    pub open spec fn lives(&self, e: Entity) -> bool { self.cur(e.index) == Some(e.gen()) }
    pub open spec fn pending(&self) -> Set<u32> { self.killed_atomic@ }
    pub open spec fn same_cur(&self, o: &Allocator) -> bool { forall|i: u32| #[trigger] self.cur(i) == o.cur(i) }
    pub open spec fn same_top(&self, o: &Allocator) -> bool { forall|i: u32| #[trigger] self.top(i) == o.top(i) }
}

// ---------------------------------------------------------------- generations
impl Default for Generation {
//@derive_default src/entity.rs | Generation | id=Generation::default
//@ret r
//@spec
    ensures r.0 == 0,
//@end
}
impl Generation {
//@fn src/entity.rs | Generation :: zero | 
//@ret r
//@spec
    ensures r.0 == 0,
//@end
//@fn src/entity.rs | Generation :: id | 
//@ret r
//@spec
    ensures r == self.0,
//@end
//@fn src/entity.rs | Generation :: is_alive | 
//@ret r
//@spec
    ensures r == (self.0 > 0),
//@end
//@fn src/entity.rs | Generation :: to_alive | 
//@ret r
//@spec
    ensures r == (if self.0 > 0 { Some(AliveGeneration(NonZeroI32 { v: self.0 })) } else { None::<AliveGeneration> }),
//@end
//@fn src/entity.rs | Generation :: killed | 
//@ret r
//@spec
    ensures self.0 > 0 ==> r.0 == -self.0, self.0 <= 0 ==> r == self,
//@end
//@fn src/entity.rs | Generation :: raised | 
//@ret r
//@spec
    ensures
        self.0 > 0 ==> r.0.v == self.0,
        self.0 <= 0 ==> r.0.v == 1 - self.0,
        r.0.v >= 1,
//@end
}
impl AliveGeneration {
//@fn src/entity.rs | AliveGeneration :: id | 
//@ret r
//@spec
    ensures r == self.0.v,
//@end
//@fn src/entity.rs | AliveGeneration :: generation | 
//@ret r
//@spec
    ensures r.0 == self.0.v,
//@end
}

// ---------------------------------------------------------------- entities
impl Entity {
//@fn src/entity.rs | Entity :: index | 
//@ret r
//@spec
    ensures r == self.index,
//@end
//@fn src/entity.rs | Entity :: generation | 
//@ret r
//@spec
    ensures self.gen() >= 0 ==> r == self.gen(),
//@end
//@fn src/entity.rs | Entity :: new | 
//@ret r
//@spec
    ensures r.index == $1, r.generation == $2,
//@end
}

} // verus!
