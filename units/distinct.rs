verus! {
pub use vp_distinct::*;
pub mod vp_distinct {
use vstd::prelude::*;
pub open spec fn distinct_below(s: Seq<u32>, n: int) -> bool {
    &&& (forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]) < n)
    &&& (forall|j: int, k: int| 0 <= j < k < s.len() ==> #[trigger] s[j] != #[trigger] s[k])
}
/// pigeonhole
pub broadcast proof fn lemma_distinct_len(s: Seq<u32>, n: int)
    requires #[trigger] distinct_below(s, n), n >= 0,
    ensures s.len() <= n,
    decreases n,
{
    if s.len() > 0 {
        if n == 0 { assert(s[0] < n); }
        else if exists|k: int| 0 <= k < s.len() && s[k] == n - 1 {
            let k = choose|k: int| 0 <= k < s.len() && s[k] == n - 1;
            let t = s.remove(k);
            assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]) < n - 1 by {
                if j < k { assert(t[j] == s[j]); } else { assert(t[j] == s[j + 1]); }
            }
            assert(distinct_below(t, n - 1));
            lemma_distinct_len(t, n - 1);
        } else {
            assert forall|j: int| 0 <= j < s.len() implies (#[trigger] s[j]) < n - 1 by { assert(s[j] < n); }
            assert(distinct_below(s, n - 1));
            lemma_distinct_len(s, n - 1);
        }
    }
}
pub proof fn lemma_take_take(s: Seq<u32>, n: int)
    ensures 0 < n <= s.len() ==> s.take(n - 1) == s.take(n).drop_last() && s[n - 1] == s.take(n).last(),
{
    if 0 < n <= s.len() { assert(s.take(n - 1) =~= s.take(n).drop_last()); }
}
/// what removing the last item of a sequence without repetition, and appending to it, does to its items
pub proof fn lemma_items(s: Seq<u32>, t: Seq<u32>, n: int)
    requires n >= 0,
    ensures
        s.take(s.len() as int) == s,
        s.len() > 0 && distinct_below(s, n) ==> distinct_below(s.drop_last(), n) && s.contains(s.last())
            && (forall|i: u32| #[trigger] s.drop_last().contains(i) <==> s.contains(i) && i != s.last())
            && s.take(s.len() - 1) == s.drop_last() && s[s.len() - 1] == s.last(),
        s.len() == 0 ==> forall|i: u32| !s.contains(i),
        forall|i: u32| #[trigger] (s + t).contains(i) <==> s.contains(i) || t.contains(i),
        distinct_below(s, n) && distinct_below(t, n) && (forall|k: int| 0 <= k < t.len() ==> !s.contains(#[trigger] t[k]))
            ==> distinct_below(s + t, n),
{
    assert(s.take(s.len() as int) =~= s);
    if s.len() > 0 && distinct_below(s, n) {
        assert(s.take(s.len() - 1) =~= s.drop_last());
        let d = s.drop_last();
        assert forall|i: u32| #[trigger] d.contains(i) <==> s.contains(i) && i != s.last() by {
            if d.contains(i) { let k = choose|k: int| 0 <= k < d.len() && d[k] == i; assert(s[k] == i); assert(s[k] != s[s.len() - 1]); }
            if s.contains(i) && i != s.last() { let k = choose|k: int| 0 <= k < s.len() && s[k] == i; assert(d[k] == i); }
        }
        assert forall|j: int, k: int| 0 <= j < k < d.len() implies #[trigger] d[j] != #[trigger] d[k] by { assert(s[j] != s[k]); }
        assert forall|j: int| 0 <= j < d.len() implies #[trigger] d[j] < n by { assert(s[j] < n); }
        assert(s.contains(s[s.len() - 1]));
    }
    let u = s + t;
    assert forall|i: u32| #[trigger] u.contains(i) <==> s.contains(i) || t.contains(i) by {
        if s.contains(i) { let k = choose|k: int| 0 <= k < s.len() && s[k] == i; assert(u[k] == i); }
        if t.contains(i) { let k = choose|k: int| 0 <= k < t.len() && t[k] == i; assert(u[s.len() + k] == i); }
        if u.contains(i) { let k = choose|k: int| 0 <= k < u.len() && u[k] == i; if k < s.len() { assert(s[k] == i); } else { assert(t[k - s.len()] == i); } }
    }
    if distinct_below(s, n) && distinct_below(t, n) && (forall|k: int| 0 <= k < t.len() ==> !s.contains(#[trigger] t[k])) {
        assert forall|j: int, k: int| 0 <= j < k < u.len() implies #[trigger] u[j] != #[trigger] u[k] by {
            if k < s.len() { assert(s[j] != s[k]); }
            else if j >= s.len() { assert(t[j - s.len()] != t[k - s.len()]); }
            else { assert(s.contains(s[j])); assert(t[k - s.len()] == u[k]); }
        }
        assert forall|j: int| 0 <= j < u.len() implies #[trigger] u[j] < n by {
            if j < s.len() { assert(s[j] < n); } else { assert(t[j - s.len()] < n); }
        }
    }
}
}
} // verus!
