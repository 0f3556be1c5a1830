verus! {
pub use vp_res::*;
pub mod vp_res {
use vstd::prelude::*;
// ---------------------------------------------------------------- Resources, as sets of uses
pub trait Uses: Sized {
    /// one use of one resource
    type Use;
    spec fn uses(&self) -> ISet<Self::Use>;
    /// the invariant of the representation
    spec fn rok(&self) -> bool;
    /// these two uses may not happen at the same time
    spec fn clash(a: Self::Use, b: Self::Use) -> bool;
    proof fn lemma_clash(a: Self::Use, b: Self::Use)
        ensures Self::clash(a, b) == Self::clash(b, a);
}
pub open spec fn vp_clash<R: Uses>(a: ISet<R::Use>, b: ISet<R::Use>) -> bool {
    exists|u: R::Use, v: R::Use| #[trigger] a.contains(u) && #[trigger] b.contains(v) && R::clash(u, v)
}
pub broadcast proof fn vp_clash_sym<R: Uses>(a: ISet<R::Use>, b: ISet<R::Use>)
    ensures #[trigger] vp_clash::<R>(a, b) == vp_clash::<R>(b, a),
{
    if vp_clash::<R>(a, b) {
        let (u, v) = choose|u: R::Use, v: R::Use| #[trigger] a.contains(u) && #[trigger] b.contains(v) && R::clash(u, v);
        R::lemma_clash(u, v);
        assert(b.contains(v) && a.contains(u) && R::clash(v, u));
    }
    if vp_clash::<R>(b, a) {
        let (u, v) = choose|u: R::Use, v: R::Use| #[trigger] b.contains(u) && #[trigger] a.contains(v) && R::clash(u, v);
        R::lemma_clash(u, v);
        assert(a.contains(v) && b.contains(u) && R::clash(v, u));
    }
}
pub trait Resources: Uses {
    fn default() -> (r: Self)
        ensures r.rok(), r.uses() == ISet::<Self::Use>::empty();
    fn union(&mut self, other: &Self)
        requires old(self).rok(), other.rok(),
        ensures final(self).rok(), final(self).uses() == old(self).uses().union(other.uses());
    fn conflicts_with(&self, other: &Self) -> (r: bool)
        requires self.rok(), other.rok(),
        ensures r == vp_clash::<Self>(self.uses(), other.uses());
}
}
} // verus!
