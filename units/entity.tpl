//@include prelude.rs
//@include distinct.rs
//@include bitset.rs
//@own
verus! {
broadcast use {vp_lemmas::group_vp, vp_distinct::lemma_distinct_len};

pub open spec fn vp_small() -> bool { true }
// ---------------------------------------------------------------- stand-ins of this unit
#[verifier::external_body]
pub struct AtomicU32 { x: u8 }
impl View for AtomicU32 {
    type V = u32;
    uninterp spec fn view(&self) -> u32;
}
impl AtomicU32 {
    #[verifier::external_body]
    pub fn load(&self, o: Ordering) -> (r: u32)
        ensures r == self@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self) -> (r: &mut u32)
        ensures *r == old(self)@, final(self)@ == *final(r),
    { unimplemented!() }
    /// really `&self`; sequential reading of it, with spurious failure
    #[verifier::external_body]
    pub fn compare_exchange_weak(&mut self, cur: u32, new: u32, s: Ordering, f: Ordering) -> (r: Result<u32, u32>)
        ensures
            r is Ok ==> r->Ok_0 == cur && old(self)@ == cur && final(self)@ == new,
            r is Err ==> r->Err_0 == old(self)@ && final(self)@ == old(self)@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn compare_exchange(&mut self, cur: u32, new: u32, s: Ordering, f: Ordering) -> (r: Result<u32, u32>)
        ensures
            r is Ok <==> old(self)@ == cur,
            r is Ok ==> r->Ok_0 == cur && final(self)@ == new,
            r is Err ==> r->Err_0 == old(self)@ && final(self)@ == old(self)@,
    { unimplemented!() }
    /// the last step of a `fetch_update`
    #[verifier::external_body]
    pub fn vp_update(&mut self, cur: u32, new: u32) -> (r: Result<u32, u32>)
        ensures old(self)@ == cur ==> r == Ok::<u32, u32>(cur) && final(self)@ == new,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_add(&mut self, n: u32, o: Ordering) -> (r: u32)
        ensures r == old(self)@, final(self)@ == (if old(self)@ + n <= u32::MAX { (old(self)@ + n) as u32 } else { (old(self)@ + n - 0x1_0000_0000) as u32 }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_sub(&mut self, n: u32, o: Ordering) -> (r: u32)
        ensures r == old(self)@, final(self)@ == (if old(self)@ >= n { (old(self)@ - n) as u32 } else { (old(self)@ - n + 0x1_0000_0000) as u32 }),
    { unimplemented!() }
}
impl Default for AtomicU32 {
    #[verifier::external_body]
    fn default() -> (r: AtomicU32)
        ensures r@ == 0,
    { unimplemented!() }
}

impl AtomicBitSet {
    #[verifier::external_body]
    pub fn vp_iter(&self) -> (r: It<u32>)
        ensures r.pos() == 0, sorted_of(r.all(), self@),
    { unimplemented!() }
}
pub mod iter {
    use super::*;
    #[verifier::external_body]
    pub fn once<T>(x: T) -> (r: It<T>)
        ensures r.pos() == 0, r.all() == seq![x], r.vp_seq() == seq![x], forall|y: T| #[trigger] seq![x].contains(y) <==> y == x,
    { unimplemented!() }
}
} // verus!
//@include entity_base.inc
verus! {
/// what the contract of `Join` needs of a mask
pub trait BitSetLike { spec fn has(&self, i: u32) -> bool; }
impl<'a> BitSetLike for BitSetOr<&'a BitSet, &'a AtomicBitSet> {
    open spec fn has(&self, i: u32) -> bool { self@.contains(i) }
}
}
//@include jointrait.inc
verus! {
// ---------------------------------------------------------------- atomic counters
//@refmut atomic_increment atomic_decrement
//@fn src/entity.rs | fn atomic_increment | refmutparam=* attr=verifier::exec_allows_no_decreases_clause
//@ret r
//@spec
    requires old($1)@ <= MAX_INDEX,
    ensures
        r == (if old($1)@ < MAX_INDEX { Some(old($1)@) } else { None::<Index> }),
        final($1)@ == (if old($1)@ < MAX_INDEX { (old($1)@ + 1) as u32 } else { old($1)@ }),
//@loop 0
    $1@ == old($1)@,
    $mut == $1@,
//@end
//@fn src/entity.rs | fn atomic_decrement | refmutparam=* attr=verifier::exec_allows_no_decreases_clause
//@ret r
//@spec
    ensures
        r == (if old($1)@ > 0 { Some(old($1)@) } else { None::<Index> }),
        final($1)@ == (if old($1)@ > 0 { (old($1)@ - 1) as u32 } else { old($1)@ }),
//@loop 0
    $1@ == old($1)@,
    $mut == $1@,
//@end

// ---------------------------------------------------------------- cache of free indexes
impl Default for EntityCache {
//@derive_default src/entity.rs | EntityCache | id=EntityCache::default
//@ret r
//@spec
    ensures r.wf(), forall|i: u32| !#[trigger] r.has(i),
//@end
}
impl EntityCache {
//@fn src/entity.rs | EntityCache :: push | 
//@spec
    requires old(self).wf(), !old(self).has($1), $1 < BIT_LIMIT(),
    ensures final(self).wf(), forall|i: u32| #[trigger] final(self).has(i) <==> old(self).has(i) || i == $1,
//@end
//@fn src/entity.rs | EntityCache :: pop | 
//@ret r
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        r.is_none() ==> (forall|i: u32| !#[trigger] old(self).has(i)) && final(self).same(old(self)),
        r.is_some() ==> old(self).has(r->0) && (forall|i: u32| #[trigger] final(self).has(i) <==> old(self).has(i) && i != r->0),
//@entry
    lemma_items(self.seq(), self.seq(), BIT_LIMIT());
//@tail
    lemma_items(self.cache@, self.cache@, BIT_LIMIT());
//@end
//@fn src/entity.rs | EntityCache :: pop_atomic | self=mut
//@ret r
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        r.is_none() ==> (forall|i: u32| !#[trigger] old(self).has(i)) && final(self).same(old(self)),
        r.is_some() ==> old(self).has(r->0) && (forall|i: u32| #[trigger] final(self).has(i) <==> old(self).has(i) && i != r->0),
//@entry
    lemma_items(self.seq(), self.seq(), BIT_LIMIT());
//@tail
    lemma_items(self.cache@.take(old(self).len@ as int), self.cache@, BIT_LIMIT());
    lemma_take_take(self.cache@, old(self).len@ as int);
//@end
//@fn src/entity.rs | EntityCache :: maintain | 
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).seq() == old(self).seq(), final(self).cache@ == old(self).seq(),
//@tail
    lemma_items(self.cache@, self.cache@, BIT_LIMIT());
//@end
//@fn src/entity.rs | Extend<Index> for EntityCache :: extend | name=vp_extend ; map IntoIterator<Item = Index> => VpIntoIter<T = Index>
//@spec
    requires
        old(self).wf(), distinct_below($1.vp_seq(), BIT_LIMIT()),
        forall|k: int| 0 <= k < $1.vp_seq().len() ==> !old(self).has(#[trigger] $1.vp_seq()[k]),
    ensures final(self).wf(), forall|i: u32| #[trigger] final(self).has(i) <==> old(self).has(i) || $1.vp_seq().contains(i),
//@entry
    lemma_items(self.seq(), $1.vp_seq(), BIT_LIMIT());
//@tail
    lemma_items(self.cache@, self.cache@, BIT_LIMIT());
//@end
}

// ---------------------------------------------------------------- the allocator
impl Default for Allocator {
//@derive_default src/entity.rs | Allocator | id=Allocator::default
//@ret r
//@spec
    ensures r.wf(), r.n() == 0, r.pending() == Set::<u32>::empty(), forall|i: u32| r.top(i) == 0 && (#[trigger] r.cur(i)).is_none(),
//@end
}
impl Allocator {
//@fn src/entity.rs | Allocator :: new
//@ret r
//@spec
    ensures r.wf(), r.n() == 0, r.pending() == Set::<u32>::empty(), forall|i: u32| r.top(i) == 0 && (#[trigger] r.cur(i)).is_none(),
//@end
//@fn src/entity.rs | Allocator :: generation
//@ret r
//@spec
    ensures r.0 == self.g($1),
//@end
//@fn src/entity.rs | Allocator :: update_generation_length
//@spec
    requires old(self).generations@.len() <= old(self).n(),
    ensures
        final(self).generations@.len() == old(self).n(),
        forall|i: u32| #[trigger] final(self).g(i) == old(self).g(i),
        forall|i: u32| #![trigger final(self).generations@[i as int]] i < old(self).n() ==> final(self).generations@[i as int].0 == old(self).g(i),
        forall|i: u32| #[trigger] final(self).cur(i) == old(self).cur(i),
        final(self).alive == old(self).alive,
        final(self).raised_atomic == old(self).raised_atomic,
        final(self).killed_atomic == old(self).killed_atomic,
        final(self).cache == old(self).cache,
        final(self).index_len@ == old(self).index_len@,
//@end
//@fn src/entity.rs | Allocator :: entity
//@ret r
//@spec
    requires self.wf(),
    ensures
        r.is_some() <==> self.cur($1).is_some(),
        r.is_some() ==> r->0.index == $1 && self.cur($1) == Some(r->0.gen()),
//@entry
    assert(self.ok($1));
//@end
//@fn src/entity.rs | Allocator :: is_alive
//@ret r
//@spec
    requires self.wf(),
    ensures r == self.lives($1),
//@end
//@fn src/entity.rs | Allocator :: live_bitset
//@ret r
//@spec
    requires self.wf(),
    ensures forall|i: u32| #[trigger] r@.contains(i) <==> self.cur(i).is_some(),
//@tail
    assert forall|i: u32| #[trigger] r@.contains(i) <==> self.cur(i).is_some() by { assert(self.ok(i)); }
//@end
//@fn src/entity.rs | Allocator :: max_entity_count
//@ret r
//@spec
    ensures r == self.n(),
//@end
//@fn src/entity.rs | Allocator :: kill
//@ret r
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        r is Ok <==> old(self).lives($1),
        r is Err ==> *final(self) == *old(self),
        r is Ok ==> {
            &&& (forall|i: u32| #[trigger] final(self).cur(i) == (if i == $1.index { None::<int> } else { old(self).cur(i) }))
            &&& final(self).same_top(old(self))
            &&& final(self).pending() == old(self).pending().remove($1.index)
            &&& final(self).n() == old(self).n()
        },
//@entry
    assert(self.ok($1.index));
//@tail
    if r is Ok {
    assert forall|i: u32| old(self).wf() implies #[trigger] self.ok(i) && self.cur(i) == (if i == $1.index { None::<int> } else { old(self).cur(i) }) && self.top(i) == old(self).top(i) by { assert(old(self).ok(i)); assert(old(self).ok($1.index)); }
    }
//@end
//@fn src/entity.rs | Allocator :: kill_atomic | self=mut
//@ret r
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        r is Ok <==> old(self).lives($1),
        r is Err ==> *final(self) == *old(self),
        final(self).same_cur(old(self)),
        final(self).same_top(old(self)),
        final(self).n() == old(self).n(),
        final(self).pending() == (if old(self).lives($1) { old(self).pending().insert($1.index) } else { old(self).pending() }),
//@entry
    assert(self.ok($1.index));
//@tail
    assert forall|i: u32| true implies #[trigger] self.ok(i) && self.cur(i) == old(self).cur(i) && self.top(i) == old(self).top(i) by { assert(old(self).ok(i)); }
//@end
//@fn src/entity.rs | Allocator :: allocate
//@ret r
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        r.gen() == old(self).top(r.index) + 1,
        old(self).cur(r.index).is_none(),
        forall|i: u32| #[trigger] final(self).cur(i) == (if i == r.index { Some(r.gen()) } else { old(self).cur(i) }),
        forall|i: u32| #[trigger] final(self).top(i) == (if i == r.index { r.gen() } else { old(self).top(i) }),
        final(self).pending() == old(self).pending(),
        final(self).n() == (if r.index < old(self).n() { old(self).n() } else { r.index + 1 }),
        r.index <= old(self).n(),
        // a fresh index is taken only if no index is free
        r.index == old(self).n() ==> (forall|i: u32| i < old(self).n() ==> (#[trigger] old(self).cur(i)).is_some()), //# E03
//@panicif old(self).n() >= MAX_INDEX
//@tail
    assert(old(self).ok(r.index));
    assert forall|i: u32| r.index == old(self).n() && i < old(self).n() implies (#[trigger] old(self).cur(i)).is_some() by { assert(old(self).ok(i)); assert(!old(self).cache.has(i)); }
    assert forall|i: u32| true implies #[trigger] self.ok(i) && self.cur(i) == (if i == r.index { Some(r.gen()) } else { old(self).cur(i) }) && self.top(i) == (if i == r.index { r.gen() } else { old(self).top(i) }) by { assert(old(self).ok(i)); }
//@entry
    assert forall|i: u32| #[trigger] self.cache.has(i) implies i < self.generations@.len() && !self.alive@.contains(i) && !self.raised_atomic@.contains(i) by { assert(self.ok(i)); }
//@end
//@fn src/entity.rs | Allocator :: allocate_atomic | self=mut
//@ret r
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        r.gen() == old(self).top(r.index) + 1,
        old(self).cur(r.index).is_none(),
        forall|i: u32| #[trigger] final(self).cur(i) == (if i == r.index { Some(r.gen()) } else { old(self).cur(i) }),
        forall|i: u32| #[trigger] final(self).top(i) == (if i == r.index { r.gen() } else { old(self).top(i) }),
        final(self).pending() == old(self).pending(),
        final(self).n() == (if r.index < old(self).n() { old(self).n() } else { r.index + 1 }),
        r.index <= old(self).n(),
        // a fresh index is taken only if no index is free
        r.index == old(self).n() ==> (forall|i: u32| i < old(self).n() ==> (#[trigger] old(self).cur(i)).is_some()), //# E03
//@panicif old(self).n() >= MAX_INDEX
//@tail
    assert(old(self).ok(r.index));
    assert forall|i: u32| r.index == old(self).n() && i < old(self).n() implies (#[trigger] old(self).cur(i)).is_some() by { assert(old(self).ok(i)); assert(!old(self).cache.has(i)); }
    assert forall|i: u32| true implies #[trigger] self.ok(i) && self.cur(i) == (if i == r.index { Some(r.gen()) } else { old(self).cur(i) }) && self.top(i) == (if i == r.index { r.gen() } else { old(self).top(i) }) by { assert(old(self).ok(i)); }
//@end
//@fn src/entity.rs | Allocator :: merge_atomic | props=E01,E02,E03,E04
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        forall|i: u32| #[trigger] final(self).cur(i) == (if old(self).pending().contains(i) { None::<int> } else { old(self).cur(i) }),
        final(self).same_top(old(self)),
        final(self).pending() == Set::<u32>::empty(),
        final(self).raised_atomic@ == Set::<u32>::empty(),
        final(self).n() == old(self).n(),
        // every entity killed now is reported, once, and nothing else is
        forall|k: int| 0 <= k < final($1)@.len() ==> old(self).pending().contains((#[trigger] final($1)@[k]).index) && old(self).lives(final($1)@[k]),
        forall|j: int, k: int| 0 <= j < k < final($1)@.len() ==> (#[trigger] final($1)@[j]).index < (#[trigger] final($1)@[k]).index,
        forall|e: Entity| old(self).pending().contains(e.index) && old(self).lives(e) ==> #[trigger] final($1)@.contains(e),
//@closure 0
u32
//@loop 0
    self.generations@.len() == old(self).n(), self.n() == old(self).n(),
    self.raised_atomic@ == old(self).raised_atomic@, self.killed_atomic@ == old(self).killed_atomic@, self.cache == old(self).cache,
    $1@.len() == 0,
    forall|i: u32| #![trigger self.generations@[i as int]] i < self.n() ==> self.generations@[i as int].0 == (if seen($all, $i, i) { 1 - old(self).g(i) } else { old(self).g(i) }),
    forall|i: u32| #[trigger] self.alive@.contains(i) <==> old(self).alive@.contains(i) || seen($all, $i, i),
//@looptop 0
    assert(old(self).ok($all[$i]));
    assert($all.contains($all[$i]));
//@loop 1
    self.generations@.len() == old(self).n(), self.n() == old(self).n(),
    self.raised_atomic@ == Set::<u32>::empty(), self.killed_atomic@ == old(self).killed_atomic@, self.cache == old(self).cache,
    $1@.len() == $i,
    forall|i: u32| #![trigger self.generations@[i as int]] i < self.n() ==> self.generations@[i as int].0 == (if seen($all, $i, i) { -(old(self).cur(i)->0) } else if old(self).cur(i).is_some() { old(self).cur(i)->0 } else { old(self).g(i) }),
    forall|i: u32| #[trigger] self.alive@.contains(i) <==> old(self).cur(i).is_some() && !seen($all, $i, i),
    forall|k: int| 0 <= k < $i ==> (#[trigger] $1@[k]).index == $all[k] && old(self).lives($1@[k]) && old(self).killed_atomic@.contains($1@[k].index),
    forall|e: Entity| #![trigger $1@.contains(e)] seen($all, $i, e.index) && old(self).lives(e) ==> $1@.contains(e),
//@tail
    assert forall|i: u32| true implies #[trigger] self.ok(i) && self.cur(i) == (if old(self).pending().contains(i) { None::<int> } else { old(self).cur(i) }) && self.top(i) == old(self).top(i) by {
        assert(old(self).ok(i));
        if old(self).pending().contains(i) { assert($1@.contains(Entity { index: i, generation: AliveGeneration(NonZeroI32 { v: old(self).cur(i)->0 as i32 }) })); }
    }
//@looptop 1
    assert(old(self).ok($all[$i]));
    assert($all.contains($all[$i]));
//@entry
    assert forall|i: u32| #![trigger self.cur(i)] #![trigger self.cache.has(i)] #![trigger self.killed_atomic@.contains(i)] #![trigger self.raised_atomic@.contains(i)] #![trigger self.alive@.contains(i)] self.ok(i) by {}
//@end
}

// ---------------------------------------------------------------- joins over the allocator
//@impl src/entity.rs | Join for &'a Allocator
//@assoc src/entity.rs | Join for &'a Allocator | Item
//@assoc src/entity.rs | Join for &'a Allocator | Access
//@assoc src/entity.rs | Join for &'a Allocator | Mask
    open spec fn jhas(self, i: u32) -> bool { self.cur(i).is_some() }
    open spec fn jok(self) -> bool { self.wf() }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { x.index == i && self.cur(i) == Some(x.gen()) }
    open spec fn valid(a: Self::Access, i: u32) -> bool { a.wf() && a.cur(i).is_some() }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { x.index == i && a.cur(i) == Some(x.gen()) }
//@fn src/entity.rs | Join for &'a Allocator :: open | props=E02,J01
//@ret r
//@end
//@fn src/entity.rs | Join for &'a Allocator :: get | props=E02,J01
//@ret r
//@entry
    assert($1.ok($2));
//@end
}

// ---------------------------------------------------------------- histories
/// One call on an allocator, as the contracts above describe it: `out` is the entity it returned, if it allocates.
pub open spec fn vp_step(a: Allocator, b: Allocator, out: Option<Entity>) -> bool {
    &&& a.wf() && b.wf()
    &&& (forall|i: u32| #[trigger] b.top(i) == (if out.is_some() && i == out->0.index { out->0.gen() } else { a.top(i) }))
    &&& (forall|i: u32| #[trigger] b.cur(i) == (if out.is_some() && i == out->0.index { Some(out->0.gen()) } else { a.cur(i) }) || b.cur(i).is_none())
    &&& (out.is_some() ==> out->0.gen() == a.top(out->0.index) + 1)
}
pub open spec fn vp_history(s: Seq<Allocator>, out: Seq<Option<Entity>>) -> bool {
    &&& s.len() == out.len() + 1
    &&& (forall|k: int| 0 <= k < out.len() ==> #[trigger] vp_step(s[k], s[k + 1], out[k]))
}
/// what was handed out stays handed out, what is dead stays dead
proof fn lemma_monotone(s: Seq<Allocator>, out: Seq<Option<Entity>>, j: int, k: int, i: u32)
    requires vp_history(s, out), 0 <= j <= k < s.len(), s[j].wf(),
    ensures
        s[j].top(i) <= s[k].top(i),
        s[k].cur(i).is_some() ==> s[k].cur(i) == s[j].cur(i) || s[k].cur(i)->0 > s[j].top(i),
    decreases k - j,
{
    if j < k {
        lemma_monotone(s, out, j, k - 1, i);
        assert(vp_step(s[k - 1], s[(k - 1) + 1], out[k - 1]));
        assert(s[k].top(i) == s[k].top(i) && s[k].cur(i) == s[k].cur(i));
        assert(s[k - 1].ok(i) && s[k].ok(i));
    }
}
/// no two entities an allocator returns are equal, over any history
proof fn vp_lemma_unique(s: Seq<Allocator>, out: Seq<Option<Entity>>, j: int, k: int)
    requires vp_history(s, out), 0 <= j < k < out.len(), out[j].is_some(), out[k].is_some(),
    ensures out[j] != out[k],
{
    assert(vp_step(s[j], s[j + 1], out[j]));
    assert(vp_step(s[k], s[k + 1], out[k]));
    lemma_monotone(s, out, j + 1, k, out[j]->0.index);
    assert(s[j + 1].top(out[j]->0.index) == out[j]->0.gen());
}
/// an entity that was handed out and is not alive is never alive again
proof fn vp_lemma_dead_for_good(s: Seq<Allocator>, out: Seq<Option<Entity>>, j: int, k: int, e: Entity)
    requires vp_history(s, out), 0 <= j <= k < s.len(), s[j].wf(), s[j].issued(e), !s[j].lives(e),
    ensures !s[k].lives(e),
{
    lemma_monotone(s, out, j, k, e.index);
}
/// what is alive was handed out
proof fn vp_lemma_live_issued(a: Allocator, e: Entity)
    requires a.wf(), a.lives(e),
    ensures a.issued(e),
{
    assert(a.ok(e.index));
}
} // verus!
fn main() {}
