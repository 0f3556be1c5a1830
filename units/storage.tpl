//@include prelude.rs
//@include distinct.rs
//@include cells.rs
//@include rawstorage.rs
verus! {
global size_of usize == 8;
broadcast use {vp_lemmas::group_vp, vp_distinct::lemma_distinct_len};
//@type src/join.rs | Index
//@struct src/storage.rs | VecStorage
//@struct src/storage.rs | DenseVecStorage
//@struct src/storage.rs | HashMapStorage


/// nothing stored, as a new storage must be
pub open spec fn vp_empty<S: RawStorage>(s: S) -> bool { s.ok() && s.m() == IMap::<u32, S::Item>::empty() }

// ---------------------------------------------------------------- VecStorage
impl<T> Default for VecStorage<T> {
//@fn src/storage.rs | Default for VecStorage<T> :: default
//@ret r
//@spec
    ensures vp_empty(r),
//@tail
    assert(r.m() =~= IMap::<u32, T>::empty());
//@end
}
impl<T> RawStorage for VecStorage<T> {
    type Item = T;
    open spec fn fx(a: Self, b: Self, i: u32) -> bool { true }
    open spec fn ok(&self) -> bool { true }
    open spec fn m(&self) -> IMap<u32, T> {
        IMap::new(|i: u32| i < self.0@.len() && self.0@[i as int].value@.is_some(), |i: u32| self.0@[i as int].value@->0)
    }
//@fn src/storage.rs | RawStorage for VecStorage<T> :: get
//@ret r
//@end
//@fn src/storage.rs | RawStorage for VecStorage<T> :: get_mut | self=mut
//@ret r
//@end
//@fn src/storage.rs | RawStorage for VecStorage<T> :: insert
//@tail
    assert(self.m() =~= old(self).m().insert($1, $2));
//@end
//@fn src/storage.rs | RawStorage for VecStorage<T> :: remove
//@ret r
//@tail
    assert(self.m() =~= old(self).m().remove($1));
//@end
}

// ---------------------------------------------------------------- DenseVecStorage
impl<T> Default for DenseVecStorage<T> {
//@fn src/storage.rs | Default for DenseVecStorage<T> :: default
//@ret r
//@spec
    ensures vp_empty(r),
//@tail
    assert(r.m() =~= IMap::<u32, T>::empty());
//@end
}
impl<T> DenseVecStorage<T> {
    /// position of the value of index `i` in `values`
    pub open spec fn at(&self, i: u32) -> Option<u32> {
        if i < self.data@.len() && self.data@[i as int]@.is_some() && self.data@[i as int]@->0 < self.indexes@.len()
            && self.indexes@[self.data@[i as int]@->0 as int] == i { self.data@[i as int]@ } else { None }
    }
}
impl<T> RawStorage for DenseVecStorage<T> {
    type Item = T;
    open spec fn fx(a: Self, b: Self, i: u32) -> bool { true }
    open spec fn ok(&self) -> bool {
        &&& self.values@.len() == self.indexes@.len() <= 0x1_0000_0000
        &&& forall|k: int| 0 <= k < self.indexes@.len() ==> self.indexes@[k] < self.data@.len() && self.data@[#[trigger] self.indexes@[k] as int]@ == Some(k as u32)
    }
    open spec fn m(&self) -> IMap<u32, T> {
        IMap::new(|i: u32| self.at(i).is_some(), |i: u32| self.values@[self.at(i)->0 as int].value)
    }
//@fn src/storage.rs | RawStorage for DenseVecStorage<T> :: get
//@ret r
//@end
//@fn src/storage.rs | RawStorage for DenseVecStorage<T> :: get_mut | self=mut
//@ret r
//@end
//@fn src/storage.rs | RawStorage for DenseVecStorage<T> :: insert
//@entry
    assert forall|k: int| 0 <= k < self.indexes@.len() implies #[trigger] self.indexes@[k] != $1 by {
        assert(self.at(self.indexes@[k]).is_some());
    }
    assert(distinct_below(self.indexes@.push($1), 0x1_0000_0000));
//@tail
    assert(self.m() =~= old(self).m().insert($1, $2));
//@end
//@fn src/storage.rs | RawStorage for DenseVecStorage<T> :: remove
//@ret r
//@tail
    assert(self.m() =~= old(self).m().remove($1));
//@end
}
impl<T> DenseStorage for DenseVecStorage<T> {
    open spec fn order(&self) -> Seq<u32> { self.indexes@ }
//@fn src/storage.rs | DenseStorage for DenseVecStorage<T> :: as_slice
//@ret r
//@end
//@fn src/storage.rs | DenseStorage for DenseVecStorage<T> :: as_mut_slice
//@ret r
//@end
}

// ---------------------------------------------------------------- HashMapStorage
impl<T> Default for HashMapStorage<T> {
//@fn src/storage.rs | Default for HashMapStorage<T> :: default
//@ret r
//@spec
    ensures vp_empty(r),
//@tail
    assert(r.m() =~= IMap::<u32, T>::empty());
//@end
}
impl<T> RawStorage for HashMapStorage<T> {
    type Item = T;
    open spec fn fx(a: Self, b: Self, i: u32) -> bool { true }
    open spec fn ok(&self) -> bool { true }
    open spec fn m(&self) -> IMap<u32, T> {
        IMap::new(|i: u32| self.0@.contains_key(i), |i: u32| self.0@[i].value)
    }
//@fn src/storage.rs | RawStorage for HashMapStorage<T> :: get
//@ret r
//@end
//@fn src/storage.rs | RawStorage for HashMapStorage<T> :: get_mut | self=mut
//@ret r
//@end
//@fn src/storage.rs | RawStorage for HashMapStorage<T> :: insert
//@tail
    assert(self.m() =~= old(self).m().insert($1, $2));
//@end
//@fn src/storage.rs | RawStorage for HashMapStorage<T> :: remove
//@ret r
//@tail
    assert(self.m() =~= old(self).m().remove($1));
//@end
}
} // verus!
fn main() {}
