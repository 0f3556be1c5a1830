verus! {
// ---------------------------------------------------------------- FxHashMap (std), for keys with a correct Eq and Hash
pub use vp_hm::*;
pub mod vp_hm {
use vstd::prelude::*;
/// the key of the entry visited at each step
pub uninterp spec fn vp_keys<K, V>(m: Map<K, V>) -> Seq<K>;
#[verifier::external_body]
pub broadcast proof fn axiom_keys<K, V>(m: Map<K, V>, k: K)
    ensures #[trigger] vp_keys(m).contains(k) == m.contains_key(k),
{}
#[verifier::external_body]
pub broadcast proof fn axiom_keys_at<K, V>(m: Map<K, V>, i: int)
    ensures 0 <= i < vp_keys(m).len() ==> m.contains_key(#[trigger] vp_keys(m)[i]),
{}
#[verifier::external_body]
pub broadcast proof fn axiom_keys_once<K, V>(m: Map<K, V>, i: int, j: int)
    ensures 0 <= i < vp_keys(m).len() && 0 <= j < vp_keys(m).len() && #[trigger] vp_keys(m)[i] == #[trigger] vp_keys(m)[j] ==> i == j,
{}
pub open spec fn vp_values<K, V>(m: Map<K, V>) -> Seq<V> { Seq::new(vp_keys(m).len(), |i: int| m[vp_keys(m)[i]]) }
pub broadcast proof fn lemma_values<K, V>(m: Map<K, V>, k: K)
    ensures
        #![trigger vp_values(m).contains(m[k])]
        m.contains_key(k) ==> vp_values(m).contains(m[k]),
{
    if m.contains_key(k) {
        axiom_keys(m, k);
        let i = choose|i: int| 0 <= i < vp_keys(m).len() && vp_keys(m)[i] == k;
        assert(vp_values(m)[i] == m[k]);
    }
}
/// one of the first `k` components, in the order of iteration, has type `t`
pub open spec fn vp_done<K, V>(m: Map<K, V>, k: int, t: K) -> bool { exists|j: int| 0 <= j < k && #[trigger] vp_keys(m)[j] == t }
pub broadcast proof fn lemma_done<K, V>(m: Map<K, V>, k: int, t: K)
    requires 0 <= k,
    ensures #[trigger] vp_done(m, k + 1, t) == (vp_done(m, k, t) || vp_keys(m)[k] == t),
{
    if vp_done(m, k + 1, t) {
        let j = choose|j: int| 0 <= j < k + 1 && #[trigger] vp_keys(m)[j] == t;
        if j < k { assert(vp_done(m, k, t)); }
    }
    if vp_done(m, k, t) {
        let j = choose|j: int| 0 <= j < k && #[trigger] vp_keys(m)[j] == t;
        assert(vp_done(m, k + 1, t));
    }
    if vp_keys(m)[k] == t { assert(vp_done(m, k + 1, t)); }
}
/// no two entries have the same key
pub broadcast proof fn lemma_done_fresh<K, V>(m: Map<K, V>, k: int)
    ensures 0 <= k < vp_keys(m).len() ==> !#[trigger] vp_done(m, k, vp_keys(m)[k]),
{
    if 0 <= k < vp_keys(m).len() && vp_done(m, k, vp_keys(m)[k]) {
        let j = choose|j: int| 0 <= j < k && #[trigger] vp_keys(m)[j] == vp_keys(m)[k];
        axiom_keys_once(m, j, k);
    }
}
pub broadcast proof fn lemma_done_all<K, V>(m: Map<K, V>, k: int, t: K)
    ensures
        k == vp_keys(m).len() ==> #[trigger] vp_done(m, k, t) == m.contains_key(t),
        k == 0 ==> !vp_done(m, k, t),
{
    axiom_keys(m, t);
    if k == vp_keys(m).len() && m.contains_key(t) {
        let j = choose|j: int| 0 <= j < vp_keys(m).len() && vp_keys(m)[j] == t;
        assert(vp_keys(m)[j] == t);
    }
    if k == vp_keys(m).len() && vp_done(m, k, t) {
        let j = choose|j: int| 0 <= j < k && #[trigger] vp_keys(m)[j] == t;
        axiom_keys_at(m, j);
    }
}
pub broadcast group group_hm { axiom_keys, axiom_keys_at, axiom_keys_once, lemma_values, lemma_done, lemma_done_fresh, lemma_done_all }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct FxHashMap<K, V> { x: core::marker::PhantomData<(K, V)> }
impl<K, V> View for FxHashMap<K, V> {
    type V = Map<K, V>;
    uninterp spec fn view(&self) -> Map<K, V>;
}
impl<K, V> Default for FxHashMap<K, V> {
    #[verifier::external_body]
    fn default() -> (r: FxHashMap<K, V>)
        ensures r@ == Map::<K, V>::empty(),
    { unimplemented!() }
}
impl<K, V> FxHashMap<K, V> {
    #[verifier::external_body]
    pub fn reserve(&mut self, n: usize)
        ensures final(self)@ == old(self)@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn shrink_to_fit(&mut self)
        ensures final(self)@ == old(self)@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn capacity(&self) -> (r: usize)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool)
        ensures r == self@.contains_key(*k),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures r == (if self@.contains_key(*k) { Some(&self@[*k]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures
            r.is_some() == old(self)@.contains_key(*k),
            r.is_some() ==> *r->0 == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(r->0)),
            r.is_none() ==> final(self)@ == old(self)@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures
            final(self)@ == old(self)@.insert(k, v),
            r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures
            final(self)@ == old(self)@.remove(*k),
            r == (if old(self)@.contains_key(*k) { Some(old(self)@[*k]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.len(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self@ == Map::<K, V>::empty()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self)
        ensures final(self)@ == Map::<K, V>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn values<'a>(&'a self) -> (r: It<&'a V>)
        ensures
            r.pos() == 0, r.all().len() == vp_keys(self@).len(),
            forall|i: int| #![trigger r.all()[i]] 0 <= i < r.all().len() ==> self@.contains_key(vp_keys(self@)[i]) && *r.all()[i] == self@[vp_keys(self@)[i]],
            forall|k: K| #[trigger] self@.contains_key(k) ==> r.all().contains(&self@[k]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_iter<'a>(&'a self) -> (r: It<(&'a K, &'a V)>)
        ensures r.pos() == 0, r.all().len() == vp_keys(self@).len(), forall|i: int| #![trigger r.all()[i]] 0 <= i < r.all().len() ==> *r.all()[i].0 == vp_keys(self@)[i] && *r.all()[i].1 == self@[vp_keys(self@)[i]],
    { unimplemented!() }
}
impl<K, V> VpIntoIter for FxHashMap<K, V> {
    type T = (K, V);
    open spec fn vp_seq(&self) -> Seq<(K, V)> { Seq::new(vp_keys(self@).len(), |i: int| (vp_keys(self@)[i], self@[vp_keys(self@)[i]])) }
    #[verifier::external_body]
    fn vp_into_iter(self) -> (r: It<(K, V)>) { unimplemented!() }
}
impl<'a, K, V> VpIntoIter for &'a FxHashMap<K, V> {
    type T = (&'a K, &'a V);
    open spec fn vp_seq(&self) -> Seq<(&'a K, &'a V)> { Seq::new(vp_keys(self@).len(), |i: int| (&vp_keys(self@)[i], &self@[vp_keys(self@)[i]])) }
    #[verifier::external_body]
    fn vp_into_iter(self) -> (r: It<(&'a K, &'a V)>) { unimplemented!() }
}
} // verus!
