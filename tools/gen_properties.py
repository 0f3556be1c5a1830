#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe: d["anchors"]["observe_at"] = [observe]
    if state: d["anchors"]["state"] = state
    assert len(title) <= 80, title
    P.append(d)

p("E01", "Every entity an allocator hands out is unique for ever",
  "Over any history of allocate, allocate_atomic, kill, kill_atomic and merge_atomic calls on one Allocator (or the World operations made of them), no two entities returned are equal, whether or not the earlier one is still alive. An index is only handed out again when no entity lives at it, with a generation above every generation it had before, and generations are never zero or negative. An entity once killed is never alive again.",
  ["histories"], "All call sequences, of any length, on one allocator, with any mixture of atomic and plain operations, merges at any point, and indexes freed and reused any number of times.",
  "Tests try a few short sequences; uniqueness depends on the state left in the generation table, the raised set, the cache of free indexes and its length by an arbitrary earlier history.",
  ["src/entity.rs"], [("Allocator::allocate", "src/entity.rs"), ("Allocator::allocate_atomic", "src/entity.rs"), ("Generation::raised / killed", "src/entity.rs"), ("EntityCache", "src/entity.rs")],
  "return values of Allocator::allocate, Allocator::allocate_atomic, World::create_entity, Entities::create")
p("E02", "All liveness queries agree with the set of entities alive",
  "At every point of a history, an entity is alive exactly if it was returned by an allocation and has not been killed (by kill, or by a merge after a successful kill_atomic). is_alive, entity(index), live_bitset(), joining over the allocator, and the Ok/Err result of kill and kill_atomic all answer according to exactly that set, for every Entity and every u32 index, and max_entity_count() is the number of distinct indexes ever handed out.",
  ["histories", "inputs"], "All histories of allocator operations; all queried entities (including stale ones, ones of another allocator, and unmerged atomic ones) and all indexes in the u32 range.",
  "The answers are read from four structures that must stay consistent after any mixture of atomic and plain operations; tests look at a handful of entities after a handful of steps.",
  ["src/entity.rs", "src/world.rs"], [("Allocator::entity / is_alive / live_bitset / max_entity_count", "src/entity.rs"), ("Join for &Allocator", "src/entity.rs"), ("Entities", "src/world.rs")])
p("E03", "Kills take effect exactly on their entity, exactly when they should",
  "kill of a live entity kills that entity at once and no other; kill_atomic of a live entity changes no liveness until the next merge_atomic, and either call on an entity that is not alive returns Err and changes nothing. merge_atomic kills exactly the entities successfully passed to kill_atomic since the last merge that are still alive, fills its Vec with each of them exactly once (dropping what was in it), keeps every other entity alive, including those allocated atomically, and leaves nothing pending. Indexes of killed entities are handed out again before fresh ones.",
  ["histories"], "All histories of allocator operations, with any set of pending kills, of atomically allocated entities and of plain kills of pending or unmerged entities at each merge.",
  "What a merge must do depends on all operations since the previous one, and an entity may be atomic-allocated, atomically killed and plainly killed in any order; tests cover a few of the orders.",
  ["src/entity.rs", "src/world.rs"], [("Allocator::kill", "src/entity.rs"), ("Allocator::kill_atomic", "src/entity.rs"), ("Allocator::merge_atomic", "src/entity.rs"), ("Entities::delete, World::merge", "src/world.rs")])
p("E04", "Concurrent allocation and deletion through & lose and repeat nothing",
  "When any number of threads call allocate_atomic and kill_atomic on the same Allocator at the same time, every allocation returns an entity different from all others and from all entities handed out before, and that entity is alive from then on until it is killed. No successful kill_atomic is lost: the next merge_atomic kills and reports each of those entities exactly once.",
  ["schedules"], "All interleavings of the atomic steps of any number of allocate_atomic and kill_atomic calls in any number of threads, from any allocator state.",
  "The window between reading a counter and changing it is a few instructions wide; tests that run threads sample very few interleavings.",
  ["src/entity.rs"], [("atomic_increment, atomic_decrement", "src/entity.rs"), ("EntityCache::pop_atomic", "src/entity.rs"), ("Allocator::allocate_atomic / kill_atomic", "src/entity.rs")])
p("S01", "Raw storages return for each index the value stored there",
  "Under any sequence of legal calls, VecStorage, DenseVecStorage, HashMapStorage and Flagged around any of them behave as a map from index to value: get, get_mut and remove give the value last inserted (as last changed through get_mut) at that very index, and no call changes what is stored at another index. as_slice and as_mut_slice of a DenseVecStorage contain exactly the stored values, each once, and no unoccupied or uninitialised memory is ever read.",
  ["histories", "inputs"], "All sequences of insert / get / get_mut / remove calls that respect the RawStorage contract, with any pattern of indexes (sparse, dense, reused, removed in any order), and all component types.",
  "DenseVecStorage keeps three arrays in step by swap-removal and VecStorage grows by set_len over uninitialised memory; errors show only for particular removal orders and index patterns.",
  ["src/storage.rs", "src/tracked.rs"], [("RawStorage impls", "src/storage.rs"), ("DenseStorage impl", "src/storage.rs"), ("Flagged", "src/tracked.rs")])
p("S02", "MaskedStorage is a partial map from index to component",
  "MaskedStorage over any correct RawStorage behaves as a partial map: contains, mask, get, get_mut, get_guard, insert, get_or_insert_with and remove give the answers and have the effects of the map operations, insert and remove returning the previous value, and no operation affects another index. The underlying storage is only ever asked for indexes that are occupied and only ever given values for indexes that are not.",
  ["histories", "inputs"], "All sequences of operations of the safe interface, all indexes, all storages that implement RawStorage correctly.",
  "The safety of the unsafe calls rests on mask and storage agreeing after every history, including operations on absent indexes and repeated inserts and removals.",
  ["src/masked.rs"], [("MaskedStorage methods", "src/masked.rs")])
p("S03", "Every component is dropped exactly once, also when code panics",
  "Every component value given to a MaskedStorage is either handed back to the caller or dropped exactly once, by the time the storage is dropped; none is leaked and none is dropped twice or used after being dropped. This stays true when any one of the component destructors panics while the storage is being dropped (a second panic during the first aborts the process, as always in Rust), and when the closure given to get_or_insert_with panics, which leaves the storage unchanged.",
  ["fault_sequences", "histories"], "All histories of operations, followed by a drop of the storage in any state, with a panic in any one of the destructors the drop of the storage runs or in any closure given to get_or_insert_with.",
  "Tests inject a panic at one or two chosen points; the claim is for every panicking destructor and every state of the storage.",
  ["src/masked.rs", "src/storage.rs"], [("Drop for MaskedStorage", "src/masked.rs"), ("MaskedStorage::insert / remove / get_or_insert_with", "src/masked.rs")])
p("T01", "Flagged storages record exactly the indexes that were modified",
  "While tracking is on, a Flagged storage adds to modified_indexes exactly the indexes on which get_mut, insert or remove of the storage is called, whatever way they are reached (MaskedStorage methods, mutable joins, ComponentAccess, entity deletion); get and reading joins add none, and while tracking is off nothing is added. mark_modified always adds its index and nothing else, clear_modified empties the set, switching tracking on or off changes no mark, and tracking changes nothing in the stored values.",
  ["histories"], "All histories of storage operations, switches of tracking, manual marks and clears.",
  "A missing or additional mark shows only for a particular operation in a particular tracking state; tests check a few combinations.",
  ["src/tracked.rs", "src/masked.rs"], [("Flagged", "src/tracked.rs"), ("MaskedStorage tracking methods", "src/masked.rs")])
p("T02", "Guards touch a component only when asked; modified joins match marks",
  "Obtaining a guard (get_guard, or a guarded join) and reading through it does not count as modification, get_mut on the guard marks exactly its index, and get, get_mut and mark_modified of a guard act on the component at the index it was obtained for. modified() and modified_mut() yield one item for exactly each index marked modified, in order: Some of the component at that index if it has one now, None if it was removed, and modified_mut gives access to the same components.",
  ["histories", "inputs"], "All states of a tracked storage: any mixture of marked, occupied, removed and unmarked indexes; all uses of the guards.",
  "Depends on the combination of mark, occupation and tracking at every index at once.",
  ["src/masked.rs"], [("GuardedElement, GuardedJoin", "src/masked.rs"), ("ModifiedJoin, ModifiedJoinMut", "src/masked.rs")])
p("J01", "A join yields exactly the intersection, once each, with the right items",
  "Iterating a join of any number of joinable values (storages shared, mutable, guarded or modified, bit sets and their combinations, allocators, and tuples of up to 26 of these) yields each index that is in all of the masks exactly once, in ascending order, and nothing else; the item has in each position the value the joined value has for that index. maybe() makes a member optional: it never restricts the join and gives Some exactly where that member has a value. No member is ever asked for an index that is not in its own mask, or twice for the same index.",
  ["inputs", "configurations"], "All contents of the joined values, all tuple lengths and nestings, with any of the members made optional.",
  "The tuple implementations are generated for 26 lengths, of which tests use two or three with few contents; one wrong position or one dropped mask in one of them shows only in that length.",
  ["src/join.rs", "src/masked.rs", "src/entity.rs", "src/world.rs"], [("JoinTuple, BitAnd, IntoJoin macros", "src/join.rs"), ("JoinIter", "src/join.rs"), ("MaybeJoin", "src/join.rs"), ("Join impls", "src/masked.rs"), ("IntoJoin for ComponentAccess and Entities", "src/world.rs")])
p("J02", "Joins are refused exactly when their mask is unconstrained",
  "is_constrained follows its rules: true for BitSet and AtomicBitSet, false for BitSetAll, negated by BitSetNot, true for BitSetAnd if either side is, for BitSetOr and BitSetXor if both sides are, and the same for a reference as for the set itself. Making a JoinIter or JoinParIter with new returns Err (and join or par_join panics) exactly if the mask is not constrained, and the unconstrained constructors never refuse.",
  ["inputs", "configurations"], "All masks built from the bit set types by any nesting of the combinators and references.",
  "Nestings are unbounded; tests try one or two.",
  ["src/join.rs", "src/par_join.rs"], [("BitSetConstrained impls", "src/join.rs"), ("JoinIter::new, JoinParIter::new", "src/join.rs"), ("JoinParIter::new", "src/par_join.rs")])
p("J03", "A parallel join visits exactly what the sequential join visits, once each",
  "par_join over any joinable value visits, in whatever way the work is split among threads, exactly the indexes and items that the sequential join of the same value yields, each exactly once. No two of the pieces the work is split into ever ask for the item of the same index.",
  ["schedules", "inputs"], "All masks and contents, all sequences of splits of the work that rayon can make, any number of threads.",
  "Splitting depends on load and thread count; a piece visited twice or dropped shows only for particular masks and particular splits.",
  ["src/par_join.rs"], [("JoinParIter::drive_unindexed", "src/par_join.rs"), ("JoinProducer::split / fold_with", "src/par_join.rs")])
p("R01", "Resource sets conflict exactly when one writes what the other uses",
  "After any sequence of add_read, add_write, add_reads, add_writes, read, write, from_iters, map and union, an RwResources contains as writes exactly the resources ever written and as reads exactly those read but never written, so that reads and writes are disjoint. conflicts_with is symmetric and true exactly if some resource written by one of the two sets is read or written by the other, and union of sets never loses a read or a write.",
  ["inputs", "histories"], "All sequences of builder operations and unions, all resource types with a correct Eq and Hash.",
  "The overlap may be at any one of the four combinations of reads and writes and at any element; tests use single elements.",
  ["src/resources.rs"], [("RwResources", "src/resources.rs"), ("Resources for RwResources", "src/resources.rs")])
p("Y01", "System combinators report every resource of every member, and any conflict",
  "check_resources of Par, ParList, Seq, SeqList, boxed systems and any nesting of them returns the union of what all members report, or an error. It returns an error exactly if some member does, or if two members (sub-trees) of one Par or ParList conflict with each other; members of Seq and SeqList never conflict with each other.",
  ["inputs", "configurations"], "All nestings of the combinators, any number of members, any resources and conflicts between any two of them (not only neighbours).",
  "Accumulation errors show only for conflicts between members far apart or for resources of one particular member.",
  ["src/system.rs"], [("System for Par / ParList / Seq / SeqList / Box", "src/system.rs"), ("Par::with, Seq::with, par!, seq!", "src/system.rs")])
p("Y02", "Running a composition runs its members exactly once and in order",
  "Running Par or ParList runs every member exactly once with the given args and pool, whatever the others return; the result is Ok exactly if all members succeed, and otherwise the combination, in member order, of exactly the errors returned. Running Seq or SeqList runs the members in order, each once, stops at the first error and returns it. SeqPool::join calls the first function and then the second, RayonPool::join runs both, and each pool returns both results in order.",
  ["inputs", "configurations", "schedules"], "All nestings of the combinators and numbers of members, all patterns of success and error, both pools.",
  "ParList divides its members recursively; a member skipped, repeated or swapped shows only at particular lengths and error patterns.",
  ["src/system.rs", "src/rayon_pool.rs"], [("System::run of Par / ParList / Seq / SeqList / Box", "src/system.rs"), ("SeqPool, RayonPool", "src/system.rs")])
p("Y03", "parallelize keeps every system, the order of conflicting ones, and safety",
  "parallelize returns groups that contain the given systems exactly once each and, read one group after the other, in the given order; a system whose own check_resources fails forms a group of its own. Within a group no two systems conflict, and groups are as large as the eager rule allows: a new group starts only with a system that conflicts with a member of the group before it, or next to one whose check fails. So check_resources of the result succeeds exactly if it succeeds for every given system.",
  ["inputs"], "All finite lists of systems with any resources and any internal conflicts at any position.",
  "Groups depend on the accumulated resources of all earlier systems; tests use one list.",
  ["src/system.rs"], [("parallelize", "src/system.rs")])
p("F01", "Fetched data declares exactly what it borrows, and tuples detect conflicts",
  "For each fetchable type the resources returned by check_resources are exactly what fetch borrows: Read and ReadResource read and Write and WriteResource write their resource, ReadComponent and WriteComponent read Entities and read or write their component, Entities reads Entities, and FetchNone uses nothing; different types and kinds never share an id. A tuple of up to 26 of them reports the union, or an error exactly if a member's own check fails or two members conflict, and fetches each member into its position. So a fetch whose check succeeds cannot panic because of its own borrows.",
  ["inputs", "configurations"], "All component and resource types, all tuples up to length 26 and their nestings, with the conflicting members at any two positions.",
  "There are 26 generated tuple lengths and any pair of positions may conflict; tests use a few.",
  ["src/fetch_resources.rs", "src/resource_set.rs", "src/world.rs", "src/world_common.rs"], [("FetchResources tuple macro", "src/fetch_resources.rs"), ("Read, Write", "src/resource_set.rs"), ("Entities, ReadResource, WriteResource, ReadComponent, WriteComponent", "src/world.rs"), ("WorldResourceId", "src/world_common.rs")])
p("F02", "ResourceSet stores one value per type and hands out the right one",
  "A ResourceSet behaves as a map from type to at most one value: insert and remove return the previous value of that type and affect no other type, contains, borrow, borrow_mut and get_mut see exactly the value last inserted, including changes made through borrow_mut and get_mut. borrow and borrow_mut panic exactly if there is no such resource or it is already borrowed in a conflicting way, and MakeSync gives back exactly the value it was made from. World's resource methods do the same on the resources of that world and World's components are kept apart from them.",
  ["histories", "inputs"], "All sequences of operations over any set of types, with any set of borrows outstanding.",
  "The typed map is shared by all types; a wrong key or a wrong borrow kind shows only for particular combinations of types and outstanding borrows.",
  ["src/resource_set.rs", "src/make_sync.rs", "src/world.rs"], [("ResourceSet", "src/resource_set.rs"), ("MakeSync", "src/make_sync.rs"), ("World resource methods", "src/world.rs")])
p("W01", "Deleting entities removes all of their components, and nothing else",
  "After World::delete_entity of a live entity, and after World::merge for every entity it kills, no registered component storage holds anything at the index of that entity, so that an entity that later reuses the index starts without components; components at all other indexes, and resources, are unchanged, and a deletion that returns Err changes nothing. insert_component registers the component for this, replaces any storage of that component by an empty one and returns the old one, and remove_component takes the storage out and leaves the other components registered. (A component destructor that panics during deletion is not covered.)",
  ["histories"], "All histories of creation, deletion (immediate and deferred), merging, component registration and removal and component insertion, with any number of component types.",
  "A component left behind shows only when its index is reused, possibly much later, and only for a component registered, replaced or removed at a particular time.",
  ["src/world.rs"], [("World::delete_entity, World::merge", "src/world.rs"), ("World::insert_component / remove_component", "src/world.rs")])
p("W02", "Component access is only ever granted for live entities",
  "Through ReadComponent, WriteComponent and get_component_mut an operation on an entity that is not alive gives Err, None or false and changes nothing, even if another entity lives at the same index. For an entity that is alive, contains, get, get_mut, get_guard, insert, get_or_insert_with, get_or_default, remove and mark_modified act as the map operations on exactly the component of that entity, and the other methods (mask, slices, tracking, joins) act on exactly that component's storage.",
  ["histories", "inputs"], "All world states and all entities: live, dead, reused, atomically allocated and not yet merged, or of another world.",
  "Each of some twenty methods must check liveness itself; tests exercise few of them with a stale entity whose index is in use again.",
  ["src/world.rs"], [("ComponentAccess", "src/world.rs"), ("World::read_component / write_component / get_component_mut", "src/world.rs")])
p("A01", "Dynamic component sets are maps by type that insert completely",
  "AnyComponentSet and AnyCloneComponentSet behave as maps from component type to at most one value: insert and remove return the previous value of that type, get and get_mut see it, len counts the types, and no operation affects another type. merge puts every component of the other set on top of this one and returns true exactly if some type was in both. insert_into_world inserts every component of the set into its storage for the given entity and returns true exactly if it replaced one, or Err without inserting any if the entity is not alive and the set is not empty; the clone set stays unchanged by this, and clone_into_set puts an equal copy of each component into the other set and returns true exactly if it replaced one.",
  ["inputs", "histories"], "All sets over any number of component types, all worlds and entities.",
  "Iteration order is that of a hash map and results accumulate over all components; tests use one or two types.",
  ["src/any_components.rs"], [("AnyComponentSet", "src/any_components.rs"), ("AnyCloneComponentSet", "src/any_components.rs"), ("AnyComponent, AnyCloneComponent", "src/any_components.rs")])
p("Z01", "Safe code cannot cause a data race through goggles types",
  "No safe program can obtain, through the unsafe Send and Sync implementations of goggles (VecStorage, DenseVecStorage, HashMapStorage, MakeSync) or through parallel joins, unsynchronised conflicting access to a component or resource from two threads.",
  ["programs", "schedules"], "All safe client programs and all their schedules.",
  "It quantifies over client programs and over what the type checker accepts, not over executions of one program.",
  ["src/storage.rs", "src/make_sync.rs", "src/par_join.rs"], [("unsafe impl Send / Sync", "src/storage.rs"), ("unsafe impl Sync for MakeSync", "src/make_sync.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
