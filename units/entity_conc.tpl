//@include prelude.rs
//@include distinct.rs
//@own
verus! {
broadcast use vp_lemmas::group_vp;

// Calls of any number of threads on one shared allocator, between two points where somebody has it exclusively (a phase).
// A call keeps a log of its atomic changes; the contracts below say what a call may have changed, whatever other threads do meanwhile:
// a read of a shared counter gives any value the counter may have (`Kind`), and every change of it must be one step of that kind.
// The lemmas at the end put the logs of all calls of a phase together.  They use only that the changes of one location happen in
// one order (which holds for relaxed atomics too), and that a set bit stays set.
pub open spec fn vp_small() -> bool { true }
pub open spec fn BIT_LIMIT() -> int { 0x100_0000 }

pub enum Mut { Rmw { loc: int, from: u32, to: u32 }, Add { set: int, id: u32 } }
/// what a thread has done and seen so far in this phase
pub tracked struct VpLog {
    /// the changes made by the thread
    pub ghost m: Seq<Mut>,
    /// bits that are known to be set
    pub ghost saw: Set<(int, u32)>,
}
/// `b` is `a` with more bits seen
pub open spec fn vp_looked(a: VpLog, b: VpLog) -> bool { b.m == a.m && a.saw.subset_of(b.saw) }
/// the changes made before are the first in the log
pub open spec fn vp_extends(a: VpLog, b: VpLog) -> bool { a.m.len() <= b.m.len() && forall|k: int| 0 <= k < a.m.len() ==> #[trigger] b.m[k] == a.m[k] }

/// what may happen to a counter in a phase
pub enum Kind { Down { from: int }, Up { from: int, limit: int } }
impl Kind {
    pub open spec fn may_be(self, v: u32) -> bool {
        match self { Kind::Down { from } => v <= from, Kind::Up { from, limit } => from <= v <= limit }
    }
    pub open spec fn may_step(self, v: u32, w: u32) -> bool {
        match self { Kind::Down { .. } => w == v - 1, Kind::Up { limit, .. } => w == v + 1 && w <= limit }
    }
}

#[verifier::external_body]
pub struct BitSet { x: u8 }
impl View for BitSet {
    type V = Set<u32>;
    uninterp spec fn view(&self) -> Set<u32>;
}
impl BitSet {
    #[verifier::external_body]
    pub fn contains(&self, id: u32, Tracked(vp_l): Tracked<&mut VpLog>) -> (r: bool)
        ensures r == self@.contains(id), *final(vp_l) == *old(vp_l),
    { unimplemented!() }
}
/// its view is what it contains at the start of the phase
#[verifier::external_body]
pub struct AtomicBitSet { x: u8 }
impl View for AtomicBitSet {
    type V = Set<u32>;
    uninterp spec fn view(&self) -> Set<u32>;
}
impl AtomicBitSet {
    pub uninterp spec fn loc(&self) -> int;
    #[verifier::external_body]
    pub fn add_atomic(&self, id: u32, Tracked(vp_l): Tracked<&mut VpLog>) -> (r: bool)
        requires id < BIT_LIMIT(),
        ensures
            final(vp_l).m == old(vp_l).m.push(Mut::Add { set: self.loc(), id }),
            final(vp_l).saw == old(vp_l).saw.insert((self.loc(), id)),
    { unimplemented!() }
    /// other threads may add, so `true` is possible at any time; what has been seen stays
    #[verifier::external_body]
    pub fn contains(&self, id: u32, Tracked(vp_l): Tracked<&mut VpLog>) -> (r: bool)
        ensures
            id < BIT_LIMIT() && (self@.contains(id) || old(vp_l).saw.contains((self.loc(), id))) ==> r,
            r ==> id < BIT_LIMIT(),
            final(vp_l).m == old(vp_l).m,
            final(vp_l).saw == (if r { old(vp_l).saw.insert((self.loc(), id)) } else { old(vp_l).saw }),
    { unimplemented!() }
}
/// its view is its value at the start of the phase
#[verifier::external_body]
pub struct AtomicU32 { x: u8 }
impl View for AtomicU32 {
    type V = u32;
    uninterp spec fn view(&self) -> u32;
}
impl AtomicU32 {
    pub uninterp spec fn loc(&self) -> int;
    pub uninterp spec fn kind(&self) -> Kind;
    #[verifier::external_body]
    pub fn load(&self, o: Ordering) -> (r: u32)
        ensures self.kind().may_be(r),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn compare_exchange_weak(&self, cur: u32, new: u32, s: Ordering, f: Ordering, Tracked(vp_l): Tracked<&mut VpLog>) -> (r: Result<u32, u32>)
        requires self.kind().may_be(cur) ==> self.kind().may_step(cur, new),
        ensures
            r is Ok ==> r->Ok_0 == cur && self.kind().may_be(cur) && final(vp_l).m == old(vp_l).m.push(Mut::Rmw { loc: self.loc(), from: cur, to: new })
                && final(vp_l).saw == old(vp_l).saw,
            r is Err ==> self.kind().may_be(r->Err_0) && *final(vp_l) == *old(vp_l),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn compare_exchange(&self, cur: u32, new: u32, s: Ordering, f: Ordering, Tracked(vp_l): Tracked<&mut VpLog>) -> (r: Result<u32, u32>)
        requires self.kind().may_be(cur) ==> self.kind().may_step(cur, new),
        ensures
            r is Ok ==> r->Ok_0 == cur && self.kind().may_be(cur) && final(vp_l).m == old(vp_l).m.push(Mut::Rmw { loc: self.loc(), from: cur, to: new })
                && final(vp_l).saw == old(vp_l).saw,
            r is Err ==> self.kind().may_be(r->Err_0) && r->Err_0 != cur && *final(vp_l) == *old(vp_l),
    { unimplemented!() }
    /// the last step of a `fetch_update`
    #[verifier::external_body]
    pub fn vp_update(&self, cur: u32, new: u32, Tracked(vp_l): Tracked<&mut VpLog>) -> (r: Result<u32, u32>)
        requires self.kind().may_be(cur) ==> self.kind().may_step(cur, new),
        ensures
            r == Ok::<u32, u32>(cur), final(vp_l).m == old(vp_l).m.push(Mut::Rmw { loc: self.loc(), from: cur, to: new }),
            final(vp_l).saw == old(vp_l).saw,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_add(&self, n: u32, o: Ordering, Tracked(vp_l): Tracked<&mut VpLog>) -> (r: u32)
        requires forall|v: u32| #[trigger] self.kind().may_be(v) ==> v + n <= u32::MAX && self.kind().may_step(v, (v + n) as u32),
        ensures self.kind().may_be(r), final(vp_l).m == old(vp_l).m.push(Mut::Rmw { loc: self.loc(), from: r, to: (r + n) as u32 }), final(vp_l).saw == old(vp_l).saw,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_sub(&self, n: u32, o: Ordering, Tracked(vp_l): Tracked<&mut VpLog>) -> (r: u32)
        requires forall|v: u32| #[trigger] self.kind().may_be(v) ==> v - n >= 0 && self.kind().may_step(v, (v - n) as u32),
        ensures self.kind().may_be(r), final(vp_l).m == old(vp_l).m.push(Mut::Rmw { loc: self.loc(), from: r, to: (r - n) as u32 }), final(vp_l).saw == old(vp_l).saw,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&self, new: u32, o: Ordering)
        requires false,  // whatever the value is now, it would not be one step
    { unimplemented!() }
    #[verifier::external_body]
    pub fn swap(&self, new: u32, o: Ordering) -> (r: u32)
        requires false,
    { unimplemented!() }
}
} // verus!
//@include entity_base.inc
verus! {
impl Allocator {
    pub open spec fn shared(&self) -> bool {
        &&& self.wf()
        &&& self.cache.len.kind() == (Kind::Down { from: self.cache.len@ as int })
        &&& self.index_len.kind() == (Kind::Up { from: self.index_len@ as int, limit: BIT_LIMIT() })
    }
    pub open spec fn raised_bit(&self, i: u32) -> (int, u32) { (self.raised_atomic.loc(), i) }
}
/// where the index of a new entity comes from
pub open spec fn vp_taken(a: Allocator, i: u32, m: Mut) -> bool {
    match m {
        Mut::Rmw { loc, from, to } => {
            ||| loc == a.cache.len.loc() && 0 < from <= a.cache.len@ && to == from - 1 && i == a.cache.cache@[from - 1]
            ||| loc == a.index_len.loc() && a.n() <= from < BIT_LIMIT() && to == from + 1 && i == from
        }
        _ => false,
    }
}
pub open spec fn vp_allocates(a: Allocator, l: VpLog, l2: VpLog, r: Entity) -> bool {
    &&& l2.m.len() == l.m.len() + 2
    &&& vp_extends(l, l2)
    &&& vp_taken(a, r.index, l2.m[l.m.len() as int])
    &&& l2.m[l.m.len() as int + 1] == (Mut::Add { set: a.raised_atomic.loc(), id: r.index })
    &&& a.g(r.index) <= 0 && r.gen() == 1 - a.g(r.index)
    &&& l.saw.subset_of(l2.saw) && l2.saw.contains(a.raised_bit(r.index))
}
/// `e` was alive when the phase began, or was allocated in it as the thread has seen
pub open spec fn vp_known_alive(a: Allocator, l: VpLog, e: Entity) -> bool {
    &&& e.gen() == (if a.g(e.index) > 0 { a.g(e.index) } else { 1 - a.g(e.index) })
    &&& e.index < BIT_LIMIT()
    &&& a.g(e.index) > 0 || a.raised_atomic@.contains(e.index) || l.saw.contains(a.raised_bit(e.index))
}
pub open spec fn vp_kills(a: Allocator, l: VpLog, l2: VpLog, e: Entity) -> bool {
    &&& vp_extends(l, l2)
    &&& l2.m.len() == l.m.len() || l2.m.len() == l.m.len() + 1 && l2.m[l.m.len() as int] == (Mut::Add { set: a.killed_atomic.loc(), id: e.index })
    // it has marked the entity, or has seen that it is
    &&& l.saw.subset_of(l2.saw) && l2.saw.contains((a.killed_atomic.loc(), e.index))
    &&& vp_known_alive(a, l2, e)
}
// ---------------------------------------------------------------- the functions of the shared phase
//@ghostarg compare_exchange_weak compare_exchange fetch_add fetch_sub add_atomic contains atomic_increment atomic_decrement pop_atomic is_alive entity allocate_atomic kill_atomic = Tracked(&mut *vp_l)
//@fn src/entity.rs | fn atomic_increment | log ; attr=verifier::exec_allows_no_decreases_clause
//@ret r
//@spec
    requires $1.kind() is Up, $1.kind()->limit == MAX_INDEX,
    ensures
        r.is_some() ==> $1.kind().may_be(r->0) && r->0 < MAX_INDEX
            && final(vp_l).m == old(vp_l).m.push(Mut::Rmw { loc: $1.loc(), from: r->0, to: (r->0 + 1) as u32 }),
        r.is_none() ==> final(vp_l).m == old(vp_l).m,
        final(vp_l).saw == old(vp_l).saw,
//@loop 0
    *vp_l == *old(vp_l),
    $1.kind().may_be($mut),
//@end
//@fn src/entity.rs | fn atomic_decrement | log ; attr=verifier::exec_allows_no_decreases_clause
//@ret r
//@spec
    requires $1.kind() is Down,
    ensures
        r.is_some() ==> $1.kind().may_be(r->0) && r->0 > 0
            && final(vp_l).m == old(vp_l).m.push(Mut::Rmw { loc: $1.loc(), from: r->0, to: (r->0 - 1) as u32 }),
        r.is_none() ==> final(vp_l).m == old(vp_l).m,
        final(vp_l).saw == old(vp_l).saw,
//@loop 0
    *vp_l == *old(vp_l),
    $1.kind().may_be($mut),
//@end
impl EntityCache {
//@fn src/entity.rs | EntityCache :: pop_atomic | log
//@ret r
//@spec
    requires self.wf(), self.len.kind() == (Kind::Down { from: self.len@ as int }),
    ensures
        r.is_none() ==> final(vp_l).m == old(vp_l).m,
        r.is_some() ==> final(vp_l).m.len() == old(vp_l).m.len() + 1 && vp_extends(*old(vp_l), *final(vp_l))
            && (final(vp_l).m.last() matches Mut::Rmw { loc, from, to } && loc == self.len.loc() && 0 < from <= self.len@ && to == from - 1 && r->0 == self.cache@[from - 1]),
        final(vp_l).saw == old(vp_l).saw,
//@end
}
impl Allocator {
//@fn src/entity.rs | Allocator :: generation
//@ret r
//@spec
    ensures r.0 == self.g($1),
//@end
//@fn src/entity.rs | Allocator :: entity | log
//@ret r
//@spec
    requires self.shared(),
    ensures
        vp_looked(*old(vp_l), *final(vp_l)),
        r.is_some() ==> r->0.index == $1 && vp_known_alive(*self, *final(vp_l), r->0),
        forall|e: Entity| e.index == $1 && #[trigger] vp_known_alive(*self, *old(vp_l), e) ==> r.is_some() && r->0.gen() == e.gen(),
//@entry
    assert(self.ok($1));
//@end
//@fn src/entity.rs | Allocator :: is_alive | log
//@ret r
//@spec
    requires self.shared(),
    ensures
        vp_looked(*old(vp_l), *final(vp_l)),
        r ==> vp_known_alive(*self, *final(vp_l), $1),
        vp_known_alive(*self, *old(vp_l), $1) ==> r,
//@end
//@fn src/entity.rs | Allocator :: allocate_atomic | log
//@ret r
//@spec
    requires self.shared(),
    ensures vp_allocates(*self, *old(vp_l), *final(vp_l), r),
//@entry
    assert forall|p: int| 0 <= p < self.cache.len@ implies self.cache.has(#[trigger] self.cache.cache@[p]) && self.ok(self.cache.cache@[p]) by {
        assert(self.cache.seq()[p] == self.cache.cache@[p]);
        assert(self.ok(self.cache.cache@[p]));
    }
//@end
//@fn src/entity.rs | Allocator :: kill_atomic | log
//@ret r
//@spec
    requires self.shared(),
    ensures
        vp_known_alive(*self, *old(vp_l), $1) ==> r is Ok,
        r is Ok ==> vp_kills(*self, *old(vp_l), *final(vp_l), $1),
        r is Err ==> vp_looked(*old(vp_l), *final(vp_l)),
//@end
}

// ---------------------------------------------------------------- all calls of a phase together
pub enum Did { Allocate(Entity), Kill(Entity), Nothing }
/// one call: the log of its thread before and after, and what it answered
pub struct Call { pub l: VpLog, pub l2: VpLog, pub did: Did }
impl Call {
    pub open spec fn n(self) -> int { self.l2.m.len() - self.l.m.len() }
    pub open spec fn ev(self, k: int) -> Mut { self.l2.m[self.l.m.len() + k] }
    /// as the contracts of the functions say
    pub open spec fn ok(self, a: Allocator) -> bool {
        match self.did {
            Did::Allocate(r) => vp_allocates(a, self.l, self.l2, r),
            Did::Kill(e) => vp_kills(a, self.l, self.l2, e),
            Did::Nothing => self.l2.m == self.l.m,
        }
    }
}
/// a change in a phase: which call, and which of its changes
pub type At = (int, int);
pub open spec fn vp_at(calls: Seq<Call>, p: At) -> bool { 0 <= p.0 < calls.len() && 0 <= p.1 < calls[p.0].n() }
pub open spec fn vp_ev(calls: Seq<Call>, p: At) -> Mut { calls[p.0].ev(p.1) }
pub open spec fn vp_from(calls: Seq<Call>, p: At) -> int { vp_ev(calls, p)->from as int }
pub open spec fn vp_to(calls: Seq<Call>, p: At) -> int { vp_ev(calls, p)->to as int }
pub open spec fn vp_changes(calls: Seq<Call>, loc: int, p: At) -> bool { vp_at(calls, p) && vp_ev(calls, p) is Rmw && vp_ev(calls, p)->loc == loc }
pub open spec fn vp_adds(calls: Seq<Call>, set: int, id: u32, p: At) -> bool { vp_at(calls, p) && vp_ev(calls, p) == (Mut::Add { set, id }) }
/// `ord` is the order in which the changes of a counter happened, taking it from `v` to `w`
pub open spec fn vp_order(calls: Seq<Call>, loc: int, ord: Seq<At>, v: int, w: int) -> bool {
    &&& (forall|k: int| 0 <= k < ord.len() ==> vp_changes(calls, loc, #[trigger] ord[k]))
    &&& (forall|j: int, k: int| 0 <= j < k < ord.len() ==> #[trigger] ord[j] != #[trigger] ord[k])
    &&& (forall|p: At| #[trigger] vp_changes(calls, loc, p) ==> ord.contains(p))
    &&& (forall|k: int| 0 <= k < ord.len() ==> vp_from(calls, #[trigger] ord[k]) == (if k == 0 { v } else { vp_to(calls, ord[k - 1]) }))
    &&& w == (if ord.len() == 0 { v } else { vp_to(calls, ord.last()) })
}
/// `b` is the allocator `a` after the calls, which ran at the same time in any way
pub open spec fn vp_phase(a: Allocator, b: Allocator, calls: Seq<Call>, pops: Seq<At>, fresh: Seq<At>) -> bool {
    &&& a.shared()
    &&& a.cache.len.loc() != a.index_len.loc() && a.raised_atomic.loc() != a.killed_atomic.loc()
    &&& b.generations@ == a.generations@ && b.alive@ == a.alive@ && b.cache.cache@ == a.cache.cache@
    &&& (forall|c: int| 0 <= c < calls.len() ==> (#[trigger] calls[c]).ok(a))
    &&& vp_order(calls, a.cache.len.loc(), pops, a.cache.len@ as int, b.cache.len@ as int)
    &&& vp_order(calls, a.index_len.loc(), fresh, a.index_len@ as int, b.index_len@ as int)
    &&& (forall|i: u32| #[trigger] b.raised_atomic@.contains(i) <==> a.raised_atomic@.contains(i) || exists|p: At| vp_adds(calls, a.raised_atomic.loc(), i, p))
    &&& (forall|i: u32| #[trigger] b.killed_atomic@.contains(i) <==> a.killed_atomic@.contains(i) || exists|p: At| vp_adds(calls, a.killed_atomic.loc(), i, p))
    // a bit that was seen is set
    &&& (forall|c: int, i: u32| 0 <= c < calls.len() && #[trigger] calls[c].l2.saw.contains(a.raised_bit(i)) ==> b.raised_atomic@.contains(i))
    &&& (forall|c: int, i: u32| 0 <= c < calls.len() && #[trigger] calls[c].l2.saw.contains((a.killed_atomic.loc(), i)) ==> b.killed_atomic@.contains(i))
}
/// the k-th change of a counter that goes down starts at v - k
proof fn lemma_down(calls: Seq<Call>, loc: int, ord: Seq<At>, v: int, w: int, k: int)
    requires vp_order(calls, loc, ord, v, w), 0 <= k < ord.len(), forall|p: At| #[trigger] vp_changes(calls, loc, p) ==> vp_to(calls, p) == vp_from(calls, p) - 1,
    ensures vp_from(calls, ord[k]) == v - k, w == v - ord.len(),
    decreases ord.len() - k, k,
{
    assert(vp_changes(calls, loc, ord[k]));
    lemma_down_upto(calls, loc, ord, v, w, k);
    lemma_down_upto(calls, loc, ord, v, w, ord.len() - 1);
    assert(vp_changes(calls, loc, ord[ord.len() - 1]));
}
proof fn lemma_down_upto(calls: Seq<Call>, loc: int, ord: Seq<At>, v: int, w: int, k: int)
    requires vp_order(calls, loc, ord, v, w), 0 <= k < ord.len(), forall|p: At| #[trigger] vp_changes(calls, loc, p) ==> vp_to(calls, p) == vp_from(calls, p) - 1,
    ensures vp_from(calls, ord[k]) == v - k,
    decreases k,
{
    if k > 0 { lemma_down_upto(calls, loc, ord, v, w, k - 1); assert(vp_changes(calls, loc, ord[k - 1])); }
}
proof fn lemma_up(calls: Seq<Call>, loc: int, ord: Seq<At>, v: int, w: int, k: int)
    requires vp_order(calls, loc, ord, v, w), 0 <= k < ord.len(), forall|p: At| #[trigger] vp_changes(calls, loc, p) ==> vp_to(calls, p) == vp_from(calls, p) + 1,
    ensures vp_from(calls, ord[k]) == v + k, w == v + ord.len(),
    decreases ord.len() - k, k,
{
    assert(vp_changes(calls, loc, ord[k]));
    lemma_up_upto(calls, loc, ord, v, w, k);
    lemma_up_upto(calls, loc, ord, v, w, ord.len() - 1);
    assert(vp_changes(calls, loc, ord[ord.len() - 1]));
}
proof fn lemma_up_upto(calls: Seq<Call>, loc: int, ord: Seq<At>, v: int, w: int, k: int)
    requires vp_order(calls, loc, ord, v, w), 0 <= k < ord.len(), forall|p: At| #[trigger] vp_changes(calls, loc, p) ==> vp_to(calls, p) == vp_from(calls, p) + 1,
    ensures vp_from(calls, ord[k]) == v + k,
    decreases k,
{
    if k > 0 { lemma_up_upto(calls, loc, ord, v, w, k - 1); assert(vp_changes(calls, loc, ord[k - 1])); }
}
/// what a call can change: an allocation takes an index and raises it, a kill marks one
proof fn lemma_changes(a: Allocator, calls: Seq<Call>)
    requires forall|c: int| 0 <= c < calls.len() ==> (#[trigger] calls[c]).ok(a),
    ensures
        forall|p: At| #[trigger] vp_at(calls, p) ==> {
            ||| calls[p.0].did is Allocate && p.1 == 0 && vp_taken(a, calls[p.0].did->Allocate_0.index, vp_ev(calls, p))
            ||| calls[p.0].did is Allocate && p.1 == 1 && vp_ev(calls, p) == (Mut::Add { set: a.raised_atomic.loc(), id: calls[p.0].did->Allocate_0.index })
            ||| calls[p.0].did is Kill && p.1 == 0 && vp_ev(calls, p) == (Mut::Add { set: a.killed_atomic.loc(), id: calls[p.0].did->Kill_0.index })
        },
        forall|c: int| 0 <= c < calls.len() && (#[trigger] calls[c]).did is Allocate ==> vp_at(calls, (c, 0)) && vp_at(calls, (c, 1)),
{
}
/// the index taken by the k-th pop, and by the k-th fresh allocation
proof fn lemma_orders(a: Allocator, b: Allocator, calls: Seq<Call>, pops: Seq<At>, fresh: Seq<At>)
    requires vp_phase(a, b, calls, pops, fresh),
    ensures
        b.cache.len@ == a.cache.len@ - pops.len(), b.index_len@ == a.index_len@ + fresh.len(),
        b.index_len@ <= BIT_LIMIT(),
        forall|k: int| 0 <= k < pops.len() ==> vp_at(calls, #[trigger] pops[k]) && pops[k].1 == 0 && calls[pops[k].0].did is Allocate
            && calls[pops[k].0].did->Allocate_0.index == a.cache.cache@[a.cache.len@ - k - 1],
        forall|k: int| 0 <= k < fresh.len() ==> vp_at(calls, #[trigger] fresh[k]) && fresh[k].1 == 0 && calls[fresh[k].0].did is Allocate
            && calls[fresh[k].0].did->Allocate_0.index == a.index_len@ + k,
        forall|c: int| 0 <= c < calls.len() && (#[trigger] calls[c]).did is Allocate ==> pops.contains((c, 0)) || fresh.contains((c, 0)),
{
    lemma_changes(a, calls);
    let (lp, lf) = (a.cache.len.loc(), a.index_len.loc());
    assert forall|p: At| #[trigger] vp_changes(calls, lp, p) implies vp_to(calls, p) == vp_from(calls, p) - 1 by { assert(vp_at(calls, p)); }
    assert forall|p: At| #[trigger] vp_changes(calls, lf, p) implies vp_to(calls, p) == vp_from(calls, p) + 1 by { assert(vp_at(calls, p)); }
    assert forall|k: int| 0 <= k < pops.len() implies vp_at(calls, #[trigger] pops[k]) && pops[k].1 == 0 && calls[pops[k].0].did is Allocate
            && calls[pops[k].0].did->Allocate_0.index == a.cache.cache@[a.cache.len@ - k - 1] by {
        assert(vp_changes(calls, lp, pops[k]));
        lemma_down(calls, lp, pops, a.cache.len@ as int, b.cache.len@ as int, k);
    }
    assert forall|k: int| 0 <= k < fresh.len() implies vp_at(calls, #[trigger] fresh[k]) && fresh[k].1 == 0 && calls[fresh[k].0].did is Allocate
            && calls[fresh[k].0].did->Allocate_0.index == a.index_len@ + k by {
        assert(vp_changes(calls, lf, fresh[k]));
        lemma_up(calls, lf, fresh, a.index_len@ as int, b.index_len@ as int, k);
    }
    if pops.len() > 0 { lemma_down(calls, lp, pops, a.cache.len@ as int, b.cache.len@ as int, 0); }
    if fresh.len() > 0 { lemma_up(calls, lf, fresh, a.index_len@ as int, b.index_len@ as int, 0); assert(vp_at(calls, fresh.last())); assert(vp_changes(calls, lf, fresh.last())); }
    assert forall|c: int| 0 <= c < calls.len() && (#[trigger] calls[c]).did is Allocate implies pops.contains((c, 0)) || fresh.contains((c, 0)) by {
        let p = (c, 0int);
        assert(vp_at(calls, p));
        assert(vp_changes(calls, lp, p) || vp_changes(calls, lf, p));
    }
}
/// what is known of the call `c`, an allocation
pub open spec fn vp_took(a: Allocator, b: Allocator, calls: Seq<Call>, pops: Seq<At>, fresh: Seq<At>, c: int, k: int, fr: bool) -> bool {
    let i = calls[c].did->Allocate_0.index;
    if fr { 0 <= k < fresh.len() && fresh[k] == (c, 0int) && i == a.n() + k && a.n() <= i < b.n() }
    else { 0 <= k < pops.len() && pops[k] == (c, 0int) && i == a.cache.seq()[a.cache.len@ - k - 1] && i < a.n() && a.cache.len@ - k - 1 >= b.cache.len@ }
}
proof fn lemma_took(a: Allocator, b: Allocator, calls: Seq<Call>, pops: Seq<At>, fresh: Seq<At>, c: int) -> (r: (int, bool))
    requires vp_phase(a, b, calls, pops, fresh), 0 <= c < calls.len(), calls[c].did is Allocate,
    ensures vp_took(a, b, calls, pops, fresh, c, r.0, r.1),
{
    lemma_orders(a, b, calls, pops, fresh);
    let x = (c, 0int);
    if pops.contains(x) { (lemma_took_pop(a, b, calls, pops, fresh, c), false) }
    else {
        let k = choose|k: int| 0 <= k < fresh.len() && #[trigger] fresh[k] == x;
        assert(fresh[k] == x);
        (k, true)
    }
}
proof fn lemma_took_pop(a: Allocator, b: Allocator, calls: Seq<Call>, pops: Seq<At>, fresh: Seq<At>, c: int) -> (k: int)
    requires vp_phase(a, b, calls, pops, fresh), 0 <= c < calls.len(), calls[c].did is Allocate, pops.contains((c, 0int)),
    ensures vp_took(a, b, calls, pops, fresh, c, k, false),
{
    let (s, n) = (a.cache.seq(), a.cache.len@ as int);
    let k = choose|k: int| 0 <= k < pops.len() && #[trigger] pops[k] == (c, 0int);
    assert(calls[c].did->Allocate_0.index == a.cache.cache@[n - k - 1] && b.cache.len@ == n - pops.len()) by {
        lemma_orders(a, b, calls, pops, fresh);
        assert(pops[k].0 == c);
    }
    lemma_free_old(a, n - k - 1);
    k
}
/// a free index is one handed out before
proof fn lemma_free_old(a: Allocator, q: int)
    requires a.wf(), 0 <= q < a.cache.len@,
    ensures a.cache.seq()[q] < a.n(), a.cache.has(a.cache.seq()[q]), a.cache.seq()[q] == a.cache.cache@[q], a.cache.seq().len() == a.cache.len@,
{
    let i = a.cache.seq()[q];
    assert(a.cache.seq().contains(i));
    assert(a.ok(i));
}
/// no two allocations of a phase get the same index
proof fn lemma_differ(a: Allocator, b: Allocator, calls: Seq<Call>, pops: Seq<At>, fresh: Seq<At>, c: int, d: int)
    requires
        vp_phase(a, b, calls, pops, fresh), 0 <= c < calls.len(), 0 <= d < calls.len(), c != d,
        calls[c].did is Allocate, calls[d].did is Allocate,
    ensures calls[c].did->Allocate_0.index != calls[d].did->Allocate_0.index,
{
    let (j, f) = lemma_took(a, b, calls, pops, fresh, c);
    let (k, g) = lemma_took(a, b, calls, pops, fresh, d);
    let (s, n) = (a.cache.seq(), a.cache.len@ as int);
    assert(j != k || f != g);
    if !f && !g {
        if j < k { assert(s[n - k - 1] != s[n - j - 1]); } else { assert(s[n - j - 1] != s[n - k - 1]); }
    }
}
/// the free indexes after a phase are those at the bottom of the stack
proof fn lemma_cache(a: Allocator, b: Allocator, calls: Seq<Call>, pops: Seq<At>, fresh: Seq<At>)
    requires vp_phase(a, b, calls, pops, fresh),
    ensures
        b.cache.len@ <= a.cache.len@,
        forall|k: int| 0 <= k < b.cache.len@ ==> #[trigger] b.cache.seq()[k] == a.cache.seq()[k],
        b.cache.seq().len() == b.cache.len@, a.cache.seq().len() == a.cache.len@,
        forall|i: u32| #[trigger] b.cache.has(i) ==> a.cache.has(i),
        b.cache.wf(),
{
    lemma_orders(a, b, calls, pops, fresh);
    let (s, t) = (a.cache.seq(), b.cache.seq());
    assert forall|k: int| 0 <= k < t.len() implies #[trigger] t[k] == s[k] by {}
    assert forall|i: u32| #[trigger] b.cache.has(i) implies a.cache.has(i) by { let k = choose|k: int| 0 <= k < t.len() && t[k] == i; assert(s[k] == i); }
    assert forall|j: int, k: int| 0 <= j < k < t.len() implies #[trigger] t[j] != #[trigger] t[k] by { assert(s[j] != s[k]); }
}
/// an index is allocated exactly if it left the cache, or is new
proof fn lemma_given(a: Allocator, b: Allocator, calls: Seq<Call>, pops: Seq<At>, fresh: Seq<At>, i: u32)
    requires vp_phase(a, b, calls, pops, fresh),
    ensures vp_given(calls, i) <==> a.cache.has(i) && !b.cache.has(i) || a.n() <= i < b.n(),
{
    if vp_given(calls, i) {
        let c = choose|c: int| 0 <= c < calls.len() && (#[trigger] calls[c]).did is Allocate && calls[c].did->Allocate_0.index == i;
        lemma_given_from(a, b, calls, pops, fresh, c);
    }
    if a.n() <= i < b.n() { lemma_given_new(a, b, calls, pops, fresh, i); }
    else if a.cache.has(i) && !b.cache.has(i) { lemma_given_free(a, b, calls, pops, fresh, i); }
}
proof fn lemma_given_from(a: Allocator, b: Allocator, calls: Seq<Call>, pops: Seq<At>, fresh: Seq<At>, c: int)
    requires vp_phase(a, b, calls, pops, fresh), 0 <= c < calls.len(), calls[c].did is Allocate,
    ensures ({ let i = calls[c].did->Allocate_0.index; a.cache.has(i) && !b.cache.has(i) || a.n() <= i < b.n() }),
{
    lemma_cache(a, b, calls, pops, fresh);
    let (k, f) = lemma_took(a, b, calls, pops, fresh, c);
    if !f {
        let (s, t) = (a.cache.seq(), b.cache.seq());
        let i = calls[c].did->Allocate_0.index;
        let q = a.cache.len@ - k - 1;
        assert(s[q] == i); assert(s.contains(i)); assert(a.cache.has(i));
        if b.cache.has(i) { let m = choose|m: int| 0 <= m < t.len() && t[m] == i; assert(s[m] == s[q]); assert(m < q); assert(s[m] != s[q]); }
    }
}
proof fn lemma_given_new(a: Allocator, b: Allocator, calls: Seq<Call>, pops: Seq<At>, fresh: Seq<At>, i: u32)
    requires vp_phase(a, b, calls, pops, fresh), a.n() <= i < b.n(),
    ensures vp_given(calls, i),
{
    lemma_orders(a, b, calls, pops, fresh);
    let k = i - a.n();
    let c = fresh[k].0;
    assert(vp_at(calls, fresh[k]));
    assert(0 <= c < calls.len() && calls[c].did is Allocate && calls[c].did->Allocate_0.index == i);
}
proof fn lemma_given_free(a: Allocator, b: Allocator, calls: Seq<Call>, pops: Seq<At>, fresh: Seq<At>, i: u32)
    requires vp_phase(a, b, calls, pops, fresh), a.cache.has(i), !b.cache.has(i),
    ensures vp_given(calls, i),
{
    lemma_orders(a, b, calls, pops, fresh);
    lemma_cache(a, b, calls, pops, fresh);
    let (s, t) = (a.cache.seq(), b.cache.seq());
    let k = choose|k: int| 0 <= k < s.len() && s[k] == i;
    if k < t.len() { assert(t[k] == i); assert(t.contains(i)); }
    let j = a.cache.len@ - k - 1;
    let c = pops[j].0;
    assert(vp_at(calls, pops[j]));
    assert(0 <= c < calls.len() && calls[c].did is Allocate && calls[c].did->Allocate_0.index == i);
}
/// the index is one of those allocated in the phase
pub open spec fn vp_given(calls: Seq<Call>, i: u32) -> bool { exists|c: int| 0 <= c < calls.len() && (#[trigger] calls[c]).did is Allocate && calls[c].did->Allocate_0.index == i }
pub open spec fn vp_marked(calls: Seq<Call>, i: u32) -> bool { exists|c: int| 0 <= c < calls.len() && (#[trigger] calls[c]).did is Kill && calls[c].did->Kill_0.index == i }
/// The allocator is as consistent after a phase as before it; every allocation gave an entity never given before and different
/// from all others, which is alive from then on, and every successful kill is pending for merge_atomic, which kills and reports
/// what is pending exactly once (contract of merge_atomic).
proof fn vp_lemma_phase(a: Allocator, b: Allocator, calls: Seq<Call>, pops: Seq<At>, fresh: Seq<At>)
    requires vp_phase(a, b, calls, pops, fresh),
    ensures
        b.wf(),
        forall|c: int, d: int| 0 <= c < calls.len() && 0 <= d < calls.len() && c != d && (#[trigger] calls[c]).did is Allocate && (#[trigger] calls[d]).did is Allocate
            ==> calls[c].did->Allocate_0 != calls[d].did->Allocate_0,
        forall|c: int| 0 <= c < calls.len() && (#[trigger] calls[c]).did is Allocate ==> !a.issued(calls[c].did->Allocate_0) && b.lives(calls[c].did->Allocate_0),
        forall|c: int| 0 <= c < calls.len() && (#[trigger] calls[c]).did is Kill ==> b.lives(calls[c].did->Kill_0) && b.pending().contains(calls[c].did->Kill_0.index),
        forall|i: u32| b.pending().contains(i) <==> a.pending().contains(i) || #[trigger] vp_marked(calls, i),
        forall|i: u32| !vp_given(calls, i) ==> #[trigger] b.cur(i) == a.cur(i) && b.top(i) == a.top(i),
        forall|e: Entity| #[trigger] a.lives(e) ==> b.lives(e),
        forall|e: Entity| #[trigger] a.issued(e) ==> b.issued(e),
{
    lemma_bits(a, b, calls, pops, fresh);
    assert forall|i: u32| #![trigger b.ok(i)] #![trigger b.cur(i)] #![trigger vp_given(calls, i)] b.ok(i) && vp_after(a, b, calls, i) by { lemma_after(a, b, calls, pops, fresh, i); }
    lemma_orders(a, b, calls, pops, fresh);
    lemma_cache(a, b, calls, pops, fresh);
    assert forall|c: int, d: int| 0 <= c < calls.len() && 0 <= d < calls.len() && c != d && (#[trigger] calls[c]).did is Allocate && (#[trigger] calls[d]).did is Allocate
        implies calls[c].did->Allocate_0 != calls[d].did->Allocate_0 by { lemma_differ(a, b, calls, pops, fresh, c, d); }
    assert forall|c: int| 0 <= c < calls.len() && (#[trigger] calls[c]).did is Allocate implies !a.issued(calls[c].did->Allocate_0) && b.lives(calls[c].did->Allocate_0) by {
        lemma_new_lives(a, b, calls, pops, fresh, c);
    }
    assert forall|c: int| 0 <= c < calls.len() && (#[trigger] calls[c]).did is Kill implies b.lives(calls[c].did->Kill_0) && b.pending().contains(calls[c].did->Kill_0.index) by {
        assert(vp_marked(calls, calls[c].did->Kill_0.index));
        lemma_kill_lives(a, b, calls, pops, fresh, c);
    }
    assert forall|e: Entity| #[trigger] a.lives(e) implies b.lives(e) by { assert(vp_after(a, b, calls, e.index)); }
    assert forall|e: Entity| #[trigger] a.issued(e) implies b.issued(e) by { assert(vp_after(a, b, calls, e.index)); }
}
/// what a phase does to index `i`
pub open spec fn vp_after(a: Allocator, b: Allocator, calls: Seq<Call>, i: u32) -> bool {
    if vp_given(calls, i) { a.cur(i).is_none() && a.g(i) <= 0 && b.cur(i) == Some(1 - a.g(i)) && b.top(i) == 1 - a.g(i) && a.top(i) == -a.g(i) }
    else { b.cur(i) == a.cur(i) && b.top(i) == a.top(i) }
}
proof fn lemma_bits(a: Allocator, b: Allocator, calls: Seq<Call>, pops: Seq<At>, fresh: Seq<At>)
    requires vp_phase(a, b, calls, pops, fresh),
    ensures
        forall|i: u32| #[trigger] b.raised_atomic@.contains(i) <==> a.raised_atomic@.contains(i) || vp_given(calls, i),
        forall|i: u32| b.pending().contains(i) <==> a.pending().contains(i) || #[trigger] vp_marked(calls, i),
{
    lemma_changes(a, calls);
    assert forall|i: u32| #[trigger] b.raised_atomic@.contains(i) <==> a.raised_atomic@.contains(i) || vp_given(calls, i) by {
        if vp_given(calls, i) {
            let c = choose|c: int| 0 <= c < calls.len() && (#[trigger] calls[c]).did is Allocate && calls[c].did->Allocate_0.index == i;
            assert(vp_at(calls, (c, 1))); assert(vp_adds(calls, a.raised_atomic.loc(), i, (c, 1)));
        }
        if b.raised_atomic@.contains(i) && !a.raised_atomic@.contains(i) {
            let p = choose|p: At| vp_adds(calls, a.raised_atomic.loc(), i, p);
            assert(vp_at(calls, p));
            assert(calls[p.0].did is Allocate);
        }
    }
    assert forall|i: u32| b.pending().contains(i) <==> a.pending().contains(i) || #[trigger] vp_marked(calls, i) by {
        if vp_marked(calls, i) {
            let c = choose|c: int| 0 <= c < calls.len() && (#[trigger] calls[c]).did is Kill && calls[c].did->Kill_0.index == i;
            assert(calls[c].ok(a));
            assert(b.killed_atomic@.contains(i));
        }
        if b.killed_atomic@.contains(i) && !a.killed_atomic@.contains(i) {
            let p = choose|p: At| vp_adds(calls, a.killed_atomic.loc(), i, p);
            assert(vp_at(calls, p));
            assert(calls[p.0].did is Kill);
        }
    }
}
proof fn lemma_kill_lives(a: Allocator, b: Allocator, calls: Seq<Call>, pops: Seq<At>, fresh: Seq<At>, c: int)
    requires vp_phase(a, b, calls, pops, fresh), 0 <= c < calls.len(), calls[c].did is Kill,
    ensures b.lives(calls[c].did->Kill_0),
{
    let e = calls[c].did->Kill_0;
    assert(calls[c].ok(a));
    assert(vp_known_alive(a, calls[c].l2, e));
    assert(b.g(e.index) == a.g(e.index));
    assert(a.raised_atomic@.contains(e.index) ==> b.raised_atomic@.contains(e.index));
}
proof fn lemma_after(a: Allocator, b: Allocator, calls: Seq<Call>, pops: Seq<At>, fresh: Seq<At>, i: u32)
    requires vp_phase(a, b, calls, pops, fresh),
    ensures b.ok(i), vp_after(a, b, calls, i),
{
    lemma_bits(a, b, calls, pops, fresh);
    lemma_given(a, b, calls, pops, fresh, i);
    lemma_counts(a, b, calls, pops, fresh, i);
    assert(a.ok(i));
    assert(b.g(i) == a.g(i));
    if vp_marked(calls, i) {
        let c = choose|c: int| 0 <= c < calls.len() && (#[trigger] calls[c]).did is Kill && calls[c].did->Kill_0.index == i;
        lemma_kill_lives(a, b, calls, pops, fresh, c);
    }
    assert(b.raised_atomic@.contains(i) <==> a.raised_atomic@.contains(i) || vp_given(calls, i));
    if vp_given(calls, i) {
        let c = choose|c: int| 0 <= c < calls.len() && (#[trigger] calls[c]).did is Allocate && calls[c].did->Allocate_0.index == i;
        lemma_overflow(a, calls, c);
    }
    assert(b.pending().contains(i) <==> a.pending().contains(i) || vp_marked(calls, i));
}
/// a generation handed out is a number that exists
proof fn lemma_overflow(a: Allocator, calls: Seq<Call>, c: int)
    requires forall|c: int| 0 <= c < calls.len() ==> (#[trigger] calls[c]).ok(a), 0 <= c < calls.len(), calls[c].did is Allocate,
    ensures 1 - a.g(calls[c].did->Allocate_0.index) <= i32::MAX,
{
    assert(calls[c].ok(a));
}
proof fn lemma_counts(a: Allocator, b: Allocator, calls: Seq<Call>, pops: Seq<At>, fresh: Seq<At>, i: u32)
    requires vp_phase(a, b, calls, pops, fresh),
    ensures b.cache.has(i) ==> a.cache.has(i), a.n() <= b.n() <= BIT_LIMIT(),
{
    lemma_orders(a, b, calls, pops, fresh);
    lemma_cache(a, b, calls, pops, fresh);
}
proof fn lemma_new_lives(a: Allocator, b: Allocator, calls: Seq<Call>, pops: Seq<At>, fresh: Seq<At>, c: int)
    requires vp_phase(a, b, calls, pops, fresh), 0 <= c < calls.len(), calls[c].did is Allocate,
    ensures !a.issued(calls[c].did->Allocate_0), b.lives(calls[c].did->Allocate_0),
{
    let i = calls[c].did->Allocate_0.index;
    assert(vp_given(calls, i));
    lemma_after(a, b, calls, pops, fresh, i);
    assert(calls[c].ok(a));
}
} // verus!
fn main() {}
