verus! {
// ---------------------------------------------------------------- raw memory, as the code of the storages uses it
pub struct UnsafeCell<T> { pub value: T }
impl<T> UnsafeCell<T> {
    pub fn new(value: T) -> (r: UnsafeCell<T>)
        ensures r.value == value,
    { UnsafeCell { value } }
    pub fn into_inner(self) -> (r: T)
        ensures r == self.value,
    { self.value }
    pub fn get_mut(&mut self) -> (r: &mut T)
        ensures *r == old(self).value, final(self).value == *final(r),
    { &mut self.value }
}
/// A slot that holds a value, or does not: not yet initialised, or moved out of.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct MaybeUninit<T> { x: core::marker::PhantomData<T> }
impl<T> View for MaybeUninit<T> {
    type V = Option<T>;
    uninterp spec fn view(&self) -> Option<T>;
}
impl<T> MaybeUninit<T> {
    #[verifier::external_body]
    pub fn new(v: T) -> (r: MaybeUninit<T>)
        ensures r@ == Some(v),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn uninit() -> (r: MaybeUninit<T>)
        ensures r@ == None::<T>,
    { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn assume_init_ref(&self) -> (r: &T)
        requires self@.is_some(),
        ensures *r == self@->0,
    { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn assume_init_mut(&mut self) -> (r: &mut T)
        requires old(self)@.is_some(),
        ensures *r == old(self)@->0, final(self)@ == Some(*final(r)),
    { unimplemented!() }
    /// read by `ptr::read`: the value is moved out
    #[verifier::external_body]
    pub unsafe fn assume_init_take(&mut self) -> (r: T)
        requires old(self)@.is_some(),
        ensures r == old(self)@->0, final(self)@ == None::<T>,
    { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn assume_init_read(&mut self) -> (r: T)
        requires old(self)@.is_some(),
        ensures r == old(self)@->0, final(self)@ == None::<T>,
    { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn assume_init(self) -> (r: T)
        requires self@.is_some(),
        ensures r == self@->0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write(&mut self, v: T)
        ensures final(self)@ == Some(v),
    { unimplemented!() }
}
/// `Vec` with its capacity and its unchecked methods
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Vec<T> { x: core::marker::PhantomData<T> }
impl<T> View for Vec<T> {
    type V = Seq<T>;
    uninterp spec fn view(&self) -> Seq<T>;
}
impl<T> Vec<T> {
    pub uninterp spec fn cap(&self) -> int;
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Vec<T>)
        ensures r@ == Seq::<T>::empty(), r.cap() >= n,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate(&mut self, n: usize)
        ensures final(self).cap() == old(self).cap(), final(self)@ == (if n < old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self)
        ensures final(self).cap() == old(self).cap(), final(self)@ == Seq::<T>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn shrink_to_fit(&mut self)
        ensures final(self)@ == old(self)@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn first(&self) -> (r: Option<&T>)
        ensures r == (if self@.len() == 0 { None } else { Some(&self@[0]) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, i: usize, v: T)
        requires i <= old(self)@.len(),
        ensures final(self)@ == old(self)@.insert(i as int, v),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Vec<T>)
        ensures r@ == Seq::<T>::empty(), r.cap() == 0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.len(), r <= self.cap(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self@.len() == 0),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn capacity(&self) -> (r: usize)
        ensures r == self.cap(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn reserve(&mut self, n: usize)
        ensures final(self)@ == old(self)@, final(self).cap() >= old(self)@.len() + n, final(self).cap() >= old(self).cap(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn reserve_exact(&mut self, n: usize)
        ensures final(self)@ == old(self)@, final(self).cap() >= old(self)@.len() + n, final(self).cap() >= old(self).cap(),
    { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn get_unchecked(&self, i: usize) -> (r: &T)
        requires i < self@.len(),
        ensures *r == self@[i as int],
    { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn get_unchecked_mut(&mut self, i: usize) -> (r: &mut T)
        requires i < old(self)@.len(),
        ensures *r == old(self)@[i as int], final(self)@ == old(self)@.update(i as int, *final(r)), final(self).cap() == old(self).cap(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: Option<&T>)
        ensures r == (if i < self@.len() { Some(&self@[i as int]) } else { None::<&T> }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, i: usize) -> (r: Option<&mut T>)
        ensures
            r.is_some() == (i < old(self)@.len()),
            r.is_some() ==> *r->0 == old(self)@[i as int] && final(self)@ == old(self)@.update(i as int, *final(r->0)),
            r.is_none() ==> final(self)@ == old(self)@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, v: T)
        ensures final(self)@ == old(self)@.push(v), final(self).cap() >= old(self).cap(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: Option<T>)
        ensures
            old(self)@.len() == 0 ==> r.is_none() && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn swap_remove(&mut self, i: usize) -> (r: T)
        requires i < old(self)@.len(),
        ensures
            r == old(self)@[i as int],
            final(self)@.len() == old(self)@.len() - 1,
            forall|k: int| 0 <= k < final(self)@.len() ==> #[trigger] final(self)@[k] == (if k == i { old(self)@[old(self)@.len() - 1] } else { old(self)@[k] }),
            final(self).cap() == old(self).cap(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, i: usize) -> (r: T)
        requires i < old(self)@.len(),
        ensures r == old(self)@[i as int], final(self)@ == old(self)@.remove(i as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn swap(&mut self, i: usize, j: usize)
        requires i < old(self)@.len(), j < old(self)@.len(),
        ensures final(self)@ == old(self)@.update(i as int, old(self)@[j as int]).update(j as int, old(self)@[i as int]), final(self).cap() == old(self).cap(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn last(&self) -> (r: Option<&T>)
        ensures r == (if self@.len() > 0 { Some(&self@.last()) } else { None::<&T> }),
    { unimplemented!() }
}
/// `set_len` past the initialised part is only legal where no value is needed
impl<T> Vec<MaybeUninit<T>> {
    #[verifier::external_body]
    pub unsafe fn set_len(&mut self, n: usize)
        requires n <= old(self).cap(),
        ensures
            final(self)@.len() == n,
            forall|k: int| 0 <= k < n && k < old(self)@.len() ==> #[trigger] final(self)@[k] == old(self)@[k],
            forall|k: int| old(self)@.len() <= k < n ==> (#[trigger] final(self)@[k])@ == None::<T>,
            final(self).cap() == old(self).cap(),
    { unimplemented!() }
}
impl<T> Vec<UnsafeCell<MaybeUninit<T>>> {
    #[verifier::external_body]
    pub unsafe fn set_len(&mut self, n: usize)
        requires n <= old(self).cap(),
        ensures
            final(self)@.len() == n,
            forall|k: int| 0 <= k < n && k < old(self)@.len() ==> #[trigger] final(self)@[k] == old(self)@[k],
            forall|k: int| old(self)@.len() <= k < n ==> (#[trigger] final(self)@[k]).value@ == None::<T>,
            final(self).cap() == old(self).cap(),
    { unimplemented!() }
}
#[verifier::external_body]
pub unsafe fn vp_cells_as_slice<T>(v: &Vec<UnsafeCell<T>>) -> (r: &[T])
    ensures r@.len() == v@.len(), forall|k: int| 0 <= k < v@.len() ==> #[trigger] r@[k] == v@[k].value,
{ unimplemented!() }
#[verifier::external_body]
pub unsafe fn vp_cells_as_mut_slice<T>(v: &mut Vec<UnsafeCell<T>>) -> (r: &mut [T])
    ensures
        r@.len() == old(v)@.len(), forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == old(v)@[k].value,
        final(v)@.len() == old(v)@.len(), final(r)@.len() == old(v)@.len(),
        forall|k: int| #![trigger final(r)@[k]] #![trigger final(v)@[k]] 0 <= k < r@.len() ==> final(r)@[k] == final(v)@[k].value,
{ unimplemented!() }

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct FxHashMap<K, V> { x: core::marker::PhantomData<(K, V)> }
impl<K, V> View for FxHashMap<K, V> {
    type V = IMap<K, V>;
    uninterp spec fn view(&self) -> IMap<K, V>;
}
impl<K, V> FxHashMap<K, V> {
    #[verifier::external_body]
    pub fn reserve(&mut self, n: usize)
        ensures final(self)@ == old(self)@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn shrink_to_fit(&mut self)
        ensures final(self)@ == old(self)@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn capacity(&self) -> (r: usize)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r ==> self@ == IMap::<K, V>::empty(), !r ==> exists|k: K| self@.contains_key(k),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == 0 ==> self@ == IMap::<K, V>::empty(), r > 0 ==> exists|k: K| self@.contains_key(k),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self)
        ensures final(self)@ == IMap::<K, V>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: FxHashMap<K, V>)
        ensures r@ == IMap::<K, V>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool)
        ensures r == self@.contains_key(*k),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures r.is_some() == self@.contains_key(*k), r.is_some() ==> *r->0 == self@[*k],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures
            r.is_some() == old(self)@.contains_key(*k),
            r.is_some() ==> *r->0 == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(r->0)),
            r.is_none() ==> final(self)@ == old(self)@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures
            r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None::<V> }),
            final(self)@ == old(self)@.insert(k, v),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures
            r == (if old(self)@.contains_key(*k) { Some(old(self)@[*k]) } else { None::<V> }),
            final(self)@ == old(self)@.remove(*k),
    { unimplemented!() }
}
} // verus!
