"""Which verification units and which contracts decide which property."""
# unit -> properties its functions belong to, where they do not name their own with props=
UNITS = {
    "entity": ["E01", "E02", "E03"],
    "entity_conc": ["E04"],
    "storage": ["S01"],
    "masked": ["S02", "S03", "T01", "T02"],
    "join": ["J01", "J02", "J03"],
    "par_join": ["J02", "J03"],
    "resources": ["R01"],
    "system": ["Y01", "Y02", "Y03"],
    "resource_set": ["F01", "F02"],
    "world": ["W01"],
    "any_components": ["A01"],
}
def units_of(prop):
    """the units with a function that belongs to this property"""
    import os, re
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "units")
    def named(u):
        return {p for m in re.finditer(r"props=([A-Z0-9,]+)", open(f"{d}/{u}.tpl").read()) for p in m.group(1).split(",")}
    return [u for u, ps in UNITS.items() if prop in ps or prop in named(u)]


# engines of the bounded replay harness are found by the property they name
LATER = "the check of this property is not built yet"
NOT_APPLICABLE = {}
NOT_APPLICABLE["Z01"] = ("It quantifies over client programs accepted by the type checker and over their schedules; function contracts speak about calls, "
                         "not about which programs type-check, and Verus does not check the `unsafe impl Send/Sync` claims of extracted code.")
TECHNIQUE = {}
LEVEL = {}
NOTE = {
    "E01": "All allocator functions satisfy their contracts for every state satisfying the invariant; uniqueness over histories is a lemma over those contracts. Trusted: contracts of hibitset, Vec and the atomics (read sequentially here).",
    "E02": "Every query is proved to answer from one abstract set of live entities for all states. Trusted: contracts of hibitset, Vec and the atomics.",
    "E03": "Effects of kill, kill_atomic and merge_atomic on the abstract state are proved for all states. Trusted: contracts of hibitset, Vec and the atomics.",
    "E04": "Each atomic step of allocate_atomic and kill_atomic is proved to be a permitted one whatever other threads do, and each call to make exactly the changes that belong to its answer; that any number of calls then lose and repeat nothing is a lemma over those contracts that only uses that the changes of one location have an order and set bits stay set (so relaxed atomics are covered). Trusted: contracts of AtomicU32 and AtomicBitSet, different fields are different locations; a call that panics (no entity left) is not followed.",
    "S01": "Each storage refines a partial map for all states and indexes. Trusted: contracts of Vec (with set_len, get_unchecked), MaybeUninit, UnsafeCell, FxHashMap; get_mut is read with exclusive access.",
    "S02": "All methods of MaskedStorage refine a partial map for every state, index and storage satisfying the RawStorage contract. Trusted: contract of hibitset::BitSet; guards and get_mut are read with exclusive access.",
    "S03": "Values are returned or handed on exactly once for every state, drop visits every occupied index once, and the closure of get_or_insert_with runs in the unchanged state. That the loop goes on after a panic in a destructor is contracts on the drop of the guard plus the language rule that guards are dropped in unwinding; unwinding itself is only replayed (bounded).",
    "T01": "Flagged and all callers of it are proved to mark exactly the indexes modified, for all states. Trusted: contract of hibitset::AtomicBitSet, read sequentially.",
    "T02": "Guards and modified joins are proved against the mark and occupation maps for all states. Aliasing through & is read with exclusive access.",
    "J01": "Every Join, BitAnd and IntoJoin implementation of all 26 tuple lengths (from the expanded macros), JoinIter and maybe satisfy their contracts for all inputs. Trusted: contracts of hibitset sets and of BitIter. A join of &dyn BitSetLike is proved over any set behind the trait object.",
    "J02": "is_constrained of every set type and the constructors are proved against the rules for all inputs. Trusted: none but the shapes of the hibitset combinators.",
    "R01": "Every method of RwResources satisfies its contract for all sets, iterators and resource types, and symmetry is a lemma. Trusted: contracts of std HashSet and of iterator map, filter and collect; Eq, Hash and Clone of the resource type are correct.",
    "Y01": "check_resources of every combinator is proved against the union of the members' uses for all trees (a member is any System) and any Resources type with the stated laws; RwResources is proved to have them in unit resources. The trees the par! and seq! macros build for two to six systems are proved from their expansion; longer ones are replayed (bounded). Trusted: nothing beyond the prelude.",
    "Y02": "run of every combinator is proved for all trees, results and pools: each member once, with the given args and pool, errors combined in member order. SeqPool::join is proved with a ghost log of calls to call the first closure before the second; Seq and SeqList are proved to leave what comes after an error untouched, which only running in order does; that the macros nest their systems in the order written is proved for two to six of them. rayon::join is trusted.",
    "Y03": "parallelize is proved against the eager grouping for all lists of systems of any kind. Trusted: the iterator given yields a finite sequence; mem::take.",
    "F01": "check_resources and fetch of every tuple length up to 26 (from the expanded macro), FetchNone, Read and Write are proved for all member types and sources: what is held is what was declared, and members that do not conflict hold compatible borrows; World::fetch and the accesses of World likewise, where the resources and the components of a World have different cells (assumed: two sets are never one). Trusted: contracts of anymap, TypeId and AtomicRefCell (borrows have an origin).",
    "F02": "All methods of ResourceSet and MakeSync are proved against a map from type to value for all states and types. Trusted: contracts of anymap, TypeId and AtomicRefCell; that each borrow is tried exactly once is proved through a ghost log of the attempts; that an attempt fails exactly if it conflicts with an outstanding borrow is the contract of atomic_refcell, replayed (bounded). Values behind a shared borrow_mut are followed in the exclusive reading.",
    "W01": "delete_entity, merge, insert_component, remove_component and all else that changes a World are proved to keep the invariant that every component storage has a remover that clears it, and to clear exactly the deleted indexes in every storage, whatever its type, for all states. Trusted: contracts of FxHashMap, anymap, TypeId, AtomicRefCell and a boxed closure; atomics are read sequentially.",
    "W02": "Every method of ComponentAccess is proved against the map of the storage and liveness in the allocator, for all states, entities and kinds of access. Trusted: as for W01.",
    "A01": "All methods of both sets and the blanket implementations for components are proved against maps from type to value, for all sets, worlds and orders of iteration. Trusted: contracts of FxHashMap, TypeId, downcasts of dyn Any, and that a Box<dyn AnyComponent> behaves as the proved implementation of its component.",
    "J03": "The producer's split and fold_with, drive_unindexed and the constructors satisfy their contracts for all masks and every split. Trusted: contracts of hibitset::BitProducer::split and BitIter, and of rayon's bridge_unindexed and Folder.",
}
