//@include prelude.rs
//@include reslaws.rs
//@include hashset.rs
use std::hash::Hash;
//@own
verus! {
broadcast use {vp_lemmas::group_vp, vp_hash::axiom_listing, vp_hash::axiom_listing_refs};
//@struct src/resources.rs | RwResources
impl<R> RwResources<R> {
    pub open spec fn wf(&self) -> bool {
        forall|r: R| #![trigger self.reads@.contains(r)] #![trigger self.writes@.contains(r)] !(self.reads@.contains(r) && self.writes@.contains(r))
    }
    /// used in any way
    pub open spec fn has(&self, r: R) -> bool { self.reads@.contains(r) || self.writes@.contains(r) }
}
/// `a` and `b` may not be used at the same time
pub open spec fn vp_conflict<R>(a: RwResources<R>, b: RwResources<R>) -> bool {
    exists|r: R|
        #![trigger a.writes@.contains(r)]
        #![trigger b.writes@.contains(r)]
        a.writes@.contains(r) && b.has(r) || b.writes@.contains(r) && a.has(r)
}
/// one use of one resource: the laws the system combinators ask of resources hold of these
pub enum VpUse<R> { Read(R), Write(R) }
impl<R> VpUse<R> {
    pub open spec fn res(self) -> R { match self { VpUse::Read(r) => r, VpUse::Write(r) => r } }
}
impl<R> Uses for RwResources<R> {
    type Use = VpUse<R>;
    open spec fn uses(&self) -> ISet<VpUse<R>> {
        ISet::new(|u: VpUse<R>| match u { VpUse::Read(r) => self.has(r), VpUse::Write(r) => self.writes@.contains(r) })
    }
    open spec fn rok(&self) -> bool { self.wf() }
    open spec fn clash(u: VpUse<R>, v: VpUse<R>) -> bool {
        match (u, v) {
            (VpUse::Read(_), VpUse::Read(_)) => false,
            (VpUse::Read(a), VpUse::Write(b)) => a == b,
            (VpUse::Write(a), VpUse::Read(b)) => a == b,
            (VpUse::Write(a), VpUse::Write(b)) => a == b,
        }
    }
    proof fn lemma_clash(u: VpUse<R>, v: VpUse<R>) {}
}
/// a conflict is a clash of two uses
pub proof fn vp_conflict_is_clash<R>(a: RwResources<R>, b: RwResources<R>)
    ensures vp_conflict(a, b) == vp_clash::<RwResources<R>>(a.uses(), b.uses()),
{
    if vp_conflict(a, b) {
        let r = choose|r: R|
            #![trigger a.writes@.contains(r)]
            #![trigger b.writes@.contains(r)]
            a.writes@.contains(r) && b.has(r) || b.writes@.contains(r) && a.has(r);
        if a.writes@.contains(r) && b.has(r) {
            assert(a.uses().contains(VpUse::Write(r)) && b.uses().contains(VpUse::Read(r)));
        } else {
            assert(a.uses().contains(VpUse::Read(r)) && b.uses().contains(VpUse::Write(r)));
        }
    }
    if vp_clash::<RwResources<R>>(a.uses(), b.uses()) {
        let (u, v) = choose|u: VpUse<R>, v: VpUse<R>| #[trigger] a.uses().contains(u) && #[trigger] b.uses().contains(v) && RwResources::<R>::clash(u, v);
        let r = match u { VpUse::Read(r) => r, VpUse::Write(r) => r };
        assert(a.writes@.contains(r) && b.has(r) || b.writes@.contains(r) && a.has(r));
    }
}
//@impl src/resources.rs | Default for RwResources<R>
//@fn src/resources.rs | Default for RwResources<R> :: default
//@ret r
//@spec
    ensures r.wf(), r.reads@ == Set::<R>::empty(), r.writes@ == Set::<R>::empty(), r.uses() =~= ISet::<VpUse<R>>::empty(),
//@end
}
//@impl src/resources.rs | RwResources<R>
//@fn src/resources.rs | RwResources<R> :: new | map Default :: default ( ) => < Self as Default > :: default ( )
//@ret r
//@spec
    ensures r.wf(), r.reads@ == Set::<R>::empty(), r.writes@ == Set::<R>::empty(),
//@end
//@fn src/resources.rs | RwResources<R> :: from_iters | map IntoIterator < Item = R > => VpIntoIter < T = R >
//@ret r
//@spec
    ensures
        r.wf(),
        forall|x: R| #![trigger r.writes@.contains(x)] #![trigger $2.vp_seq().contains(x)] r.writes@.contains(x) == $2.vp_seq().contains(x),
        forall|x: R| #![trigger r.reads@.contains(x)] #![trigger $1.vp_seq().contains(x)] r.reads@.contains(x) == ($1.vp_seq().contains(x) && !$2.vp_seq().contains(x)),
//@closure 0
-> (vp_r: bool) ensures vp_r == !writes@.contains(*@1)
//@end
//@fn src/resources.rs | RwResources<R> :: reads | map impl Iterator < Item = & R > + '_ => It < & R >
//@ret r
//@spec
    ensures r.pos() == 0, forall|x: &R| #[trigger] r.all().contains(x) == self.reads@.contains(*x),
//@end
//@fn src/resources.rs | RwResources<R> :: writes | map impl Iterator < Item = & R > + '_ => It < & R >
//@ret r
//@spec
    ensures r.pos() == 0, forall|x: &R| #[trigger] r.all().contains(x) == self.writes@.contains(*x),
//@end
//@fn src/resources.rs | RwResources<R> :: add_read
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).writes@ == old(self).writes@,
        forall|x: R| #[trigger] final(self).reads@.contains(x) == (old(self).reads@.contains(x) || x == $1 && !old(self).writes@.contains(x)),
//@end
//@fn src/resources.rs | RwResources<R> :: add_write
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        forall|x: R| #[trigger] final(self).writes@.contains(x) == (old(self).writes@.contains(x) || x == $1),
        forall|x: R| #[trigger] final(self).reads@.contains(x) == (old(self).reads@.contains(x) && x != $1),
//@end
//@fn src/resources.rs | RwResources<R> :: add_reads | map IntoIterator < Item = R > => VpIntoIter < T = R >
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        forall|x: R| #[trigger] final(self).writes@.contains(x) == old(self).writes@.contains(x),
        forall|x: R| #[trigger] final(self).reads@.contains(x) == (old(self).reads@.contains(x) || $1.vp_seq().contains(x) && !old(self).writes@.contains(x)),
//@loop 0
    self.wf(),
    forall|x: R| #[trigger] self.writes@.contains(x) == old(self).writes@.contains(x),
    forall|x: R| #[trigger] self.reads@.contains(x) == (old(self).reads@.contains(x) || seen($all, $i, x) && !old(self).writes@.contains(x)),
//@end
//@fn src/resources.rs | RwResources<R> :: add_writes | map IntoIterator < Item = R > => VpIntoIter < T = R >
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        forall|x: R| #[trigger] final(self).writes@.contains(x) == (old(self).writes@.contains(x) || $1.vp_seq().contains(x)),
        forall|x: R| #[trigger] final(self).reads@.contains(x) == (old(self).reads@.contains(x) && !$1.vp_seq().contains(x)),
//@loop 0
    self.wf(),
    forall|x: R| #[trigger] self.writes@.contains(x) == (old(self).writes@.contains(x) || seen($all, $i, x)),
    forall|x: R| #[trigger] self.reads@.contains(x) == (old(self).reads@.contains(x) && !seen($all, $i, x)),
//@end
//@fn src/resources.rs | RwResources<R> :: read
//@ret vp_r
//@spec
    requires self.wf(),
    ensures
        vp_r.wf(), vp_r.writes@ == self.writes@,
        forall|x: R| #[trigger] vp_r.reads@.contains(x) == (self.reads@.contains(x) || x == $1 && !self.writes@.contains(x)),
//@end
//@fn src/resources.rs | RwResources<R> :: write
//@ret vp_r
//@spec
    requires self.wf(),
    ensures
        vp_r.wf(),
        forall|x: R| #[trigger] vp_r.writes@.contains(x) == (self.writes@.contains(x) || x == $1),
        forall|x: R| #[trigger] vp_r.reads@.contains(x) == (self.reads@.contains(x) && x != $1),
//@end
//@fn src/resources.rs | RwResources<R> :: map | itermap
//@ret r
//@spec
    requires forall|x: &R| $1.requires((x,)),
    ensures
        r.wf(),
        forall|y: R2| #[trigger] r.writes@.contains(y) ==> exists|x: R| #[trigger] self.writes@.contains(x) && $1.ensures((&x,), y),
        forall|x: R| #[trigger] self.writes@.contains(x) ==> exists|y: R2| #[trigger] r.writes@.contains(y) && $1.ensures((&x,), y),
        forall|y: R2| #[trigger] r.reads@.contains(y) ==> exists|x: R| #[trigger] self.reads@.contains(x) && $1.ensures((&x,), y),
        forall|x: R| #[trigger] self.reads@.contains(x) ==> exists|y: R2| #![trigger r.reads@.contains(y)] #![trigger r.writes@.contains(y)] r.has(y) && $1.ensures((&x,), y),
//@end
}
/// the items of a loop are those of a set
pub open spec fn vp_of<R>(all: Seq<&R>, s: Set<R>) -> bool {
    forall|x: R| #![trigger all.contains(&x)] #![trigger s.contains(x)] all.contains(&x) == s.contains(x)
}
/// a union of two sets on its way from `c` to `d` gains only what is in `a` or `b` and loses nothing
pub open spec fn vp_between<R>(a: RwResources<R>, b: RwResources<R>, c: RwResources<R>, d: RwResources<R>) -> bool {
    forall|x: R|
        #![trigger d.writes@.contains(x)]
        #![trigger d.reads@.contains(x)]
        #![trigger c.writes@.contains(x)]
        #![trigger c.reads@.contains(x)] {
            &&& d.writes@.contains(x) ==> a.writes@.contains(x) || b.writes@.contains(x)
            &&& d.reads@.contains(x) ==> a.reads@.contains(x) || b.reads@.contains(x)
            &&& c.writes@.contains(x) ==> d.writes@.contains(x)
            &&& c.has(x) ==> d.has(x)
        }
}
//@impl src/resources.rs | Resources for RwResources<R> | map Clone => VpClone
    fn default() -> (r: Self) { <Self as Default>::default() }
//@fn src/resources.rs | Resources for RwResources<R> :: union
//@spec
    ensures
        forall|x: R| #[trigger] final(self).writes@.contains(x) == (old(self).writes@.contains(x) || $1.writes@.contains(x)),
        forall|x: R| #[trigger] final(self).reads@.contains(x) == ((old(self).reads@.contains(x) || $1.reads@.contains(x)) && !old(self).writes@.contains(x) && !$1.writes@.contains(x)),
//@loopbefore 0
    let ghost vp_pre = *self;
//@loop 0
    self.wf(),
    vp_between(*old(self), *$1, vp_pre, *self),
    vp_of($all, $1.writes@) ==> forall|x: R| #![trigger seen($all, $i, &x)] #![trigger $1.writes@.contains(x)] seen($all, $i, &x) ==> self.writes@.contains(x),
    forall|x: R| #![trigger seen($all, $i, &x)] #![trigger $1.reads@.contains(x)] seen($all, $i, &x) ==> self.has(x),
//@loopbefore 1
    let ghost vp_pre = *self;
//@loop 1
    self.wf(),
    vp_between(*old(self), *$1, vp_pre, *self),
    vp_of($all, $1.writes@) ==> forall|x: R| #![trigger seen($all, $i, &x)] #![trigger $1.writes@.contains(x)] seen($all, $i, &x) ==> self.writes@.contains(x),
    forall|x: R| #![trigger seen($all, $i, &x)] #![trigger $1.reads@.contains(x)] seen($all, $i, &x) ==> self.has(x),
//@tail
    assert(self.uses() =~= old(self).uses().union($1.uses()));
//@end
//@fn src/resources.rs | Resources for RwResources<R> :: conflicts_with
//@ret r
//@spec
    ensures
        r == vp_conflict(*self, *$1),
//@entry
    vp_conflict_is_clash(*self, *$1);
//@end
}
/// conflicts are symmetric
pub proof fn vp_symmetric<R>(a: RwResources<R>, b: RwResources<R>)
    ensures vp_conflict(a, b) == vp_conflict(b, a),
{
}
} // verus!
fn main() {}
