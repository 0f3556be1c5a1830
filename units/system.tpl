//@include prelude.rs
//@include reslaws.rs
verus! {
broadcast use {vp_lemmas::group_vp, vp_sys::group_sys};
pub use vp_sys::*;
pub mod vp_sys {
use vstd::prelude::*;
use super::ResourceConflict;
use super::vp_res::*;
// ---------------------------------------------------------------- errors
pub trait Error: Sized {
    /// the errors combined in this one, in order
    spec fn list(&self) -> Seq<int>;
    fn combine(self, other: Self) -> (r: Self)
        ensures r.list() == self.list() + other.list();
}
pub open spec fn err1<E: Error>(a: Result<(), E>) -> Seq<int> { if a is Err { a->Err_0.list() } else { Seq::empty() } }
/// the errors of some results, in order
pub open spec fn errs<E: Error>(s: Seq<Result<(), E>>) -> Seq<int>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { errs(s.drop_last()) + err1(s.last()) }
}
/// Ok if all are, otherwise the combination of the errors
pub open spec fn combined<E: Error>(s: Seq<Result<(), E>>, r: Result<(), E>) -> bool {
    &&& r is Ok <==> forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] is Ok
    &&& err1(r) =~= errs(s)
}
pub open spec fn both<E: Error>(a: Result<(), E>, b: Result<(), E>, r: Result<(), E>) -> bool {
    &&& r is Ok <==> a is Ok && b is Ok
    &&& err1(r) =~= err1(a) + err1(b)
}
pub proof fn lemma_errs_add<E: Error>(a: Seq<Result<(), E>>, b: Seq<Result<(), E>>)
    ensures errs(a + b) == errs(a) + errs(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(errs(a) + errs(b) =~= errs(a));
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_errs_add(a, b.drop_last());
        assert(errs(a + b) =~= errs(a) + errs(b));
    }
}

// ---------------------------------------------------------------- System
pub trait Pool: Sized {
    /// calls both, each once
    fn join<A, B, RA, RB>(&self, a: A, b: B) -> (r: (RA, RB))
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
        requires a.requires(()), b.requires(()),
        ensures a.ensures((), r.0), b.ensures((), r.1);
}
pub trait System<Args>: Sized {
    type Resources: Resources;
    type Pool: Pool;
    type Error: Error;
    /// the resources reported, None if there is a conflict inside
    spec fn res(&self) -> Option<ISet<<Self::Resources as Uses>::Use>>;
    /// one run leads from `before` to `after` and returns `r`
    spec fn ran(before: Self, pool: Self::Pool, args: Args, r: Result<(), Self::Error>, after: Self) -> bool;
    fn check_resources(&self) -> (r: Result<Self::Resources, ResourceConflict>)
        ensures r is Ok ==> r->Ok_0.rok() && self.res() == Some(r->Ok_0.uses()), r is Err ==> self.res().is_none();
    fn run(&mut self, pool: &Self::Pool, args: Args) -> (r: Result<(), Self::Error>)
        ensures Self::ran(*old(self), *pool, args, r, *final(self));
}
/// the first `k` of these systems have no conflict inside
pub open spec fn fine<A, S: System<A>>(s: Seq<S>, k: int) -> bool {
    forall|i: int| 0 <= i < k ==> (#[trigger] s[i].res()).is_some()
}
/// what the first `k` of these systems use
pub open spec fn uses_of<A, S: System<A>>(s: Seq<S>, k: int) -> ISet<<S::Resources as Uses>::Use> {
    ISet::new(|u: <S::Resources as Uses>::Use| exists|i: int| 0 <= i < k && (#[trigger] s[i].res()).is_some() && s[i].res()->0.contains(u))
}
/// these two conflict
pub open spec fn conflict<A, S: System<A>>(a: S, b: S) -> bool {
    a.res().is_some() && b.res().is_some() && vp_clash::<S::Resources>(a.res()->0, b.res()->0)
}
/// no two of the first `k` conflict
pub open spec fn compatible<A, S: System<A>>(s: Seq<S>, k: int) -> bool {
    forall|i: int, j: int| 0 <= i < j < k ==> !conflict::<A, S>(#[trigger] s[i], #[trigger] s[j])
}
/// there is only one `Ok(())`
pub broadcast proof fn lemma_unit<A, S: System<A>>(a: S, pool: S::Pool, args: A, r: Result<(), S::Error>, b: S)
    ensures #![trigger S::ran(a, pool, args, r, b)] r is Ok ==> r == Ok::<(), S::Error>(()),
{
    if r is Ok {
        let x = r->Ok_0;
        assert(x == ());
    }
}
pub broadcast proof fn lemma_uses_0<A, S: System<A>>(s: Seq<S>, k: int)
    ensures k == 0 ==> #[trigger] uses_of::<A, S>(s, k) == ISet::<<S::Resources as Uses>::Use>::empty(),
{
    assert(k == 0 ==> uses_of::<A, S>(s, k) =~= ISet::empty());
}
pub broadcast proof fn lemma_uses_step<A, S: System<A>>(s: Seq<S>, k: int)
    requires 0 <= k,
    ensures
        s[k].res().is_some() ==> #[trigger] uses_of::<A, S>(s, k + 1) == uses_of::<A, S>(s, k).union(s[k].res()->0),
{
    if s[k].res().is_some() {
        assert(uses_of::<A, S>(s, k + 1) =~= uses_of::<A, S>(s, k).union(s[k].res()->0));
    }
}
pub broadcast proof fn lemma_uses_clash<A, S: System<A>>(s: Seq<S>, k: int, x: S)
    requires x.res().is_some(),
    ensures #[trigger] vp_clash::<S::Resources>(uses_of::<A, S>(s, k), x.res()->0) == exists|i: int| 0 <= i < k && conflict::<A, S>(#[trigger] s[i], x),
{
    let a = uses_of::<A, S>(s, k);
    let b = x.res()->0;
    if vp_clash::<S::Resources>(a, b) {
        let (u, v) = choose|u: <S::Resources as Uses>::Use, v: <S::Resources as Uses>::Use| #[trigger] a.contains(u) && #[trigger] b.contains(v) && <S::Resources as Uses>::clash(u, v);
        let i = choose|i: int| 0 <= i < k && (#[trigger] s[i].res()).is_some() && s[i].res()->0.contains(u);
        assert(conflict::<A, S>(s[i], x));
    }
    if exists|i: int| 0 <= i < k && conflict::<A, S>(#[trigger] s[i], x) {
        let i = choose|i: int| 0 <= i < k && conflict::<A, S>(#[trigger] s[i], x);
        let c = s[i].res()->0;
        let (u, v) = choose|u: <S::Resources as Uses>::Use, v: <S::Resources as Uses>::Use| #[trigger] c.contains(u) && #[trigger] b.contains(v) && <S::Resources as Uses>::clash(u, v);
        assert(a.contains(u));
    }
}
pub proof fn lemma_conflict_sym<A, S: System<A>>(a: S, b: S)
    ensures conflict::<A, S>(a, b) == conflict::<A, S>(b, a),
{
    if a.res().is_some() && b.res().is_some() {
        vp_clash_sym::<S::Resources>(a.res()->0, b.res()->0);
    }
}
pub broadcast proof fn lemma_compatible_step<A, S: System<A>>(s: Seq<S>, k: int)
    requires 0 <= k,
    ensures
        #[trigger] compatible::<A, S>(s, k + 1) == (compatible::<A, S>(s, k) && !exists|i: int| 0 <= i < k && conflict::<A, S>(#[trigger] s[i], s[k])),
{
}
pub broadcast proof fn lemma_compatible_mono<A, S: System<A>>(s: Seq<S>, k: int, n: int)
    ensures #[trigger] compatible::<A, S>(s, n) && k <= n ==> #[trigger] compatible::<A, S>(s, k),
{
}
/// every one of these systems was run once
pub open spec fn ran_each<A, S: System<A>>(before: Seq<S>, pool: S::Pool, args: A, rs: Seq<Result<(), S::Error>>, after: Seq<S>) -> bool {
    &&& after.len() == before.len() && rs.len() == before.len()
    &&& forall|i: int| 0 <= i < rs.len() ==> S::ran(#[trigger] before[i], pool, args, #[trigger] rs[i], #[trigger] after[i])
}
pub open spec fn ran_all<A, S: System<A>>(before: Seq<S>, pool: S::Pool, args: A, r: Result<(), S::Error>, after: Seq<S>) -> bool {
    exists|rs: Seq<Result<(), S::Error>>| #[trigger] ran_each::<A, S>(before, pool, args, rs, after) && combined(rs, r)
}
pub broadcast proof fn lemma_ran_none<A, S: System<A>>(before: Seq<S>, pool: S::Pool, args: A, r: Result<(), S::Error>, after: Seq<S>)
    ensures before.len() == 0 && after.len() == 0 && r is Ok ==> #[trigger] ran_all::<A, S>(before, pool, args, r, after),
{
    if before.len() == 0 && after.len() == 0 && r is Ok {
        let rs = Seq::<Result<(), S::Error>>::empty();
        assert(ran_each::<A, S>(before, pool, args, rs, after));
        assert(combined(rs, r));
    }
}
pub broadcast proof fn lemma_ran_one<A, S: System<A>>(before: Seq<S>, pool: S::Pool, args: A, r: Result<(), S::Error>, after: Seq<S>)
    ensures
        before.len() == 1 && after.len() == 1 && S::ran(before[0], pool, args, r, after[0]) ==> #[trigger] ran_all::<A, S>(before, pool, args, r, after),
{
    if before.len() == 1 && after.len() == 1 && S::ran(before[0], pool, args, r, after[0]) {
        let rs = seq![r];
        assert(ran_each::<A, S>(before, pool, args, rs, after));
        assert(errs(rs.drop_last()) =~= Seq::<int>::empty());
        assert(errs(rs) =~= err1(r));
        assert(rs[0] is Ok <==> r is Ok);
        assert(combined(rs, r));
    }
}
pub broadcast proof fn lemma_ran_add<A, S: System<A>>(s: Seq<S>, m: int, pool: S::Pool, args: A, a: Result<(), S::Error>, b: Result<(), S::Error>, r: Result<(), S::Error>, x: Seq<S>, y: Seq<S>, t: Seq<S>)
    requires
        #[trigger] ran_all::<A, S>(s.take(m), pool, args, a, x),
        #[trigger] ran_all::<A, S>(s.skip(m), pool, args, b, y),
        0 <= m <= s.len(), t == x + y, both(a, b, r),
    ensures
        #[trigger] ran_all::<A, S>(s, pool, args, r, t),
{
    let p = choose|rs: Seq<Result<(), S::Error>>| #[trigger] ran_each::<A, S>(s.take(m), pool, args, rs, x) && combined(rs, a);
    let q = choose|rs: Seq<Result<(), S::Error>>| #[trigger] ran_each::<A, S>(s.skip(m), pool, args, rs, y) && combined(rs, b);
    let rs = p + q;
    assert forall|i: int| 0 <= i < rs.len() implies S::ran(#[trigger] s[i], pool, args, #[trigger] rs[i], #[trigger] t[i]) by {
        if i < m {
            assert(s.take(m)[i] == s[i] && p[i] == rs[i] && x[i] == t[i]);
        } else {
            assert(s.skip(m)[i - m] == s[i] && q[i - m] == rs[i] && y[i - m] == t[i]);
        }
    }
    assert(ran_each::<A, S>(s, pool, args, rs, t));
    lemma_errs_add(p, q);
    assert(a is Ok && b is Ok ==> forall|i: int| 0 <= i < rs.len() ==> #[trigger] rs[i] is Ok);
    if !(a is Ok) {
        let i = choose|i: int| 0 <= i < p.len() && !(#[trigger] p[i] is Ok);
        assert(rs[i] == p[i]);
    }
    if !(b is Ok) {
        let i = choose|i: int| 0 <= i < q.len() && !(#[trigger] q[i] is Ok);
        assert(rs[p.len() + i] == q[i]);
    }
    assert(combined(rs, r));
}
/// both were run once
pub open spec fn ran_par<A, H: System<A>, T: System<A, Resources = H::Resources, Pool = H::Pool, Error = H::Error>>(h: H, t: T, pool: H::Pool, args: A, r: Result<(), H::Error>, h2: H, t2: T) -> bool {
    exists|a: Result<(), H::Error>, b: Result<(), H::Error>| #[trigger] H::ran(h, pool, args, a, h2) && #[trigger] T::ran(t, pool, args, b, t2) && both(a, b, r)
}
/// the first was run, and if it succeeded the second
pub open spec fn ran_two<A, H: System<A>, T: System<A, Resources = H::Resources, Pool = H::Pool, Error = H::Error>>(h: H, t: T, pool: H::Pool, args: A, r: Result<(), H::Error>, h2: H, t2: T) -> bool {
    exists|a: Result<(), H::Error>| #[trigger] H::ran(h, pool, args, a, h2) && (if a is Err { r == a && t2 == t } else { T::ran(t, pool, args, r, t2) })
}
/// run one after the other, up to the first error
pub open spec fn ran_seq<A, S: System<A>>(before: Seq<S>, pool: S::Pool, args: A, r: Result<(), S::Error>, after: Seq<S>) -> bool {
    &&& after.len() == before.len()
    &&& r is Ok ==> forall|i: int| 0 <= i < before.len() ==> S::ran(#[trigger] before[i], pool, args, Ok(()), #[trigger] after[i])
    &&& r is Err ==> exists|k: int|
        #![trigger before[k]]
        #![trigger after[k]]
        0 <= k < before.len() && S::ran(before[k], pool, args, r, after[k])
            && (forall|i: int| 0 <= i < k ==> S::ran(#[trigger] before[i], pool, args, Ok(()), #[trigger] after[i]))
            && (forall|i: int| k < i < before.len() ==> #[trigger] after[i] == before[i])
}
pub broadcast group group_sys {
    vp_clash_sym, lemma_unit, lemma_uses_0, lemma_uses_step, lemma_uses_clash, lemma_compatible_step, lemma_compatible_mono, lemma_ran_none, lemma_ran_one, lemma_ran_add,
}
}
//@struct src/resources.rs | ResourceConflict
use std::any::type_name;
pub assume_specification<T: ?Sized> [std::any::type_name::<T>] () -> &'static str;
//@impl src/resources.rs | ResourceConflict
//@fn src/resources.rs | ResourceConflict :: conflict_in | props=Y01,Y02
//@ret r
//@end
}

// an error that cannot happen has no errors in it
use core::convert::Infallible;
//@impl src/system.rs | Error for Infallible
    open spec fn list(&self) -> Seq<int> { Seq::empty() }
//@fn src/system.rs | Error for Infallible :: combine
//@end
}
// ---------------------------------------------------------------- Box
//@impl src/system.rs | System<A> for Box<S> | map S : ? Sized + => S :
//@assoc src/system.rs | System<A> for Box<S> | Resources
//@assoc src/system.rs | System<A> for Box<S> | Pool
//@assoc src/system.rs | System<A> for Box<S> | Error
    open spec fn res(&self) -> Option<ISet<<S::Resources as Uses>::Use>> { (**self).res() }
    open spec fn ran(before: Self, pool: S::Pool, args: A, r: Result<(), S::Error>, after: Self) -> bool { S::ran(*before, pool, args, r, *after) }
//@fn src/system.rs | System<A> for Box<S> :: check_resources | props=Y01
//@ret r
//@end
//@fn src/system.rs | System<A> for Box<S> :: run | props=Y02
//@ret r
//@end
}

// ---------------------------------------------------------------- Par
//@struct src/system.rs | Par
//@impl src/system.rs | Par<H, T>
//@fn src/system.rs | Par<H, T> :: new | props=Y01,Y02
//@ret r
//@spec
    ensures r.head == $1, r.tail == $2,
//@end
//@fn src/system.rs | Par<H, T> :: with | props=Y01,Y02
//@ret r
//@spec
    ensures r.head == self.head, r.tail.head == self.tail, r.tail.tail == $1,
//@end
}
//@impl src/system.rs | System<A> for Par<H, T> | map , R , P , E > System => > System ; map , A , R , P , E > => , A > ; map H : System < A , Resources = R , Pool = P , Error = E > => H : System < A > ; map T : System < A , Resources = R , Pool = P , Error = E > => T : System < A , Resources = H :: Resources , Pool = H :: Pool , Error = H :: Error > ; map R : Resources , => ; map P : Pool + Sync , => ; map P : Pool , => ; map E : Error + Send , => ; map E : Error , =>
    type Resources = H::Resources;
    type Pool = H::Pool;
    type Error = H::Error;
    open spec fn res(&self) -> Option<ISet<<H::Resources as Uses>::Use>> {
        match (self.head.res(), self.tail.res()) {
            (Some(a), Some(b)) => if vp_clash::<H::Resources>(a, b) { None } else { Some(a.union(b)) },
            _ => None,
        }
    }
    open spec fn ran(before: Self, pool: H::Pool, args: A, r: Result<(), H::Error>, after: Self) -> bool {
        ran_par::<A, H, T>(before.head, before.tail, pool, args, r, after.head, after.tail)
    }
//@fn src/system.rs | System<A> for Par<H, T> :: check_resources | props=Y01
//@ret r
//@end
//@fn src/system.rs | System<A> for Par<H, T> :: run | props=Y02
//@ret r
//@end
}

// ---------------------------------------------------------------- Seq
//@struct src/system.rs | Seq | map Seq => SeqSys
//@impl src/system.rs | Seq<H, T> | map Seq => SeqSys
//@fn src/system.rs | Seq<H, T> :: new | props=Y01,Y02 ; map Seq => SeqSys
//@ret r
//@spec
    ensures r.head == $1, r.tail == $2,
//@end
//@fn src/system.rs | Seq<H, T> :: with | props=Y01,Y02 ; map Seq => SeqSys
//@ret r
//@spec
    ensures r.head == self.head, r.tail.head == self.tail, r.tail.tail == $1,
//@end
}
//@impl src/system.rs | System<A> for Seq<H, T> | map Seq => SeqSys ; map , R , P , E > System => > System ; map , A , R , P , E > => , A > ; map H : System < A , Resources = R , Pool = P , Error = E > => H : System < A > ; map T : System < A , Resources = R , Pool = P , Error = E > => T : System < A , Resources = H :: Resources , Pool = H :: Pool , Error = H :: Error > ; map R : Resources , => ; map P : Pool + Sync , => ; map P : Pool , => ; map E : Error + Send , => ; map E : Error , =>
    type Resources = H::Resources;
    type Pool = H::Pool;
    type Error = H::Error;
    open spec fn res(&self) -> Option<ISet<<H::Resources as Uses>::Use>> {
        match (self.head.res(), self.tail.res()) {
            (Some(a), Some(b)) => Some(a.union(b)),
            _ => None,
        }
    }
    open spec fn ran(before: Self, pool: H::Pool, args: A, r: Result<(), H::Error>, after: Self) -> bool {
        ran_two::<A, H, T>(before.head, before.tail, pool, args, r, after.head, after.tail)
    }
//@fn src/system.rs | System<A> for Seq<H, T> :: check_resources | props=Y01
//@ret r
//@end
//@fn src/system.rs | System<A> for Seq<H, T> :: run | props=Y02
//@ret r
//@end
}

// ---------------------------------------------------------------- par! and seq!
//@fn expanded:macros | fn par2 | props=Y01,Y02 ; map :: goggles :: system :: Par => Par ; map :: goggles :: system :: Seq => SeqSys ; map Seq => SeqSys
//@ret r
//@spec
    ensures r.head == $1, r.tail == $2,
//@end
//@fn expanded:macros | fn par3 | props=Y01,Y02 ; map :: goggles :: system :: Par => Par ; map :: goggles :: system :: Seq => SeqSys ; map Seq => SeqSys
//@ret r
//@spec
    ensures r.head == $1, r.tail.tail == $3, r.tail.head == $2,
//@end
//@fn expanded:macros | fn par4 | props=Y01,Y02 ; map :: goggles :: system :: Par => Par ; map :: goggles :: system :: Seq => SeqSys ; map Seq => SeqSys
//@ret r
//@spec
    ensures r.head == $1, r.tail.tail == $4, r.tail.head.tail == $3, r.tail.head.head == $2,
//@end
//@fn expanded:macros | fn par5 | props=Y01,Y02 ; map :: goggles :: system :: Par => Par ; map :: goggles :: system :: Seq => SeqSys ; map Seq => SeqSys
//@ret r
//@spec
    ensures r.head == $1, r.tail.tail == $5, r.tail.head.tail == $4, r.tail.head.head.tail == $3, r.tail.head.head.head == $2,
//@end
//@fn expanded:macros | fn par6 | props=Y01,Y02 ; map :: goggles :: system :: Par => Par ; map :: goggles :: system :: Seq => SeqSys ; map Seq => SeqSys
//@ret r
//@spec
    ensures r.head == $1, r.tail.tail == $6, r.tail.head.tail == $5, r.tail.head.head.tail == $4, r.tail.head.head.head.tail == $3, r.tail.head.head.head.head == $2,
//@end
//@fn expanded:macros | fn seq2 | props=Y01,Y02 ; map :: goggles :: system :: Par => Par ; map :: goggles :: system :: Seq => SeqSys ; map Seq => SeqSys
//@ret r
//@spec
    ensures r.head == $1, r.tail == $2,
//@end
//@fn expanded:macros | fn seq3 | props=Y01,Y02 ; map :: goggles :: system :: Par => Par ; map :: goggles :: system :: Seq => SeqSys ; map Seq => SeqSys
//@ret r
//@spec
    ensures r.head == $1, r.tail.tail == $3, r.tail.head == $2,
//@end
//@fn expanded:macros | fn seq4 | props=Y01,Y02 ; map :: goggles :: system :: Par => Par ; map :: goggles :: system :: Seq => SeqSys ; map Seq => SeqSys
//@ret r
//@spec
    ensures r.head == $1, r.tail.tail == $4, r.tail.head.tail == $3, r.tail.head.head == $2,
//@end
//@fn expanded:macros | fn seq5 | props=Y01,Y02 ; map :: goggles :: system :: Par => Par ; map :: goggles :: system :: Seq => SeqSys ; map Seq => SeqSys
//@ret r
//@spec
    ensures r.head == $1, r.tail.tail == $5, r.tail.head.tail == $4, r.tail.head.head.tail == $3, r.tail.head.head.head == $2,
//@end
//@fn expanded:macros | fn seq6 | props=Y01,Y02 ; map :: goggles :: system :: Par => Par ; map :: goggles :: system :: Seq => SeqSys ; map Seq => SeqSys
//@ret r
//@spec
    ensures r.head == $1, r.tail.tail == $6, r.tail.head.tail == $5, r.tail.head.head.tail == $4, r.tail.head.head.head.tail == $3, r.tail.head.head.head.head == $2,
//@end

// ---------------------------------------------------------------- ParList
//@struct src/system.rs | ParList
//@fn src/system.rs | System<A> for ParList<S> :: run / fn run | name=vp_parlist_run id=ParList::run::run props=Y02 ; map . run => . vp_m_run ; map run => vp_parlist_run ; map . vp_m_run => . run
//@ret r
//@spec
    ensures ran_all::<A, S>(old($1)@, *$2, $3, r, final($1)@),
    decreases old($1)@.len(),
//@end
#[verifier::external_body]
pub fn vp_slice<T>(v: &mut Vec<T>) -> (r: &mut [T])
    ensures r@ == old(v)@, final(r)@ == final(v)@,
{ unimplemented!() }
//@impl src/system.rs | System<A> for ParList<S>
//@assoc src/system.rs | System<A> for ParList<S> | Resources
//@assoc src/system.rs | System<A> for ParList<S> | Pool
//@assoc src/system.rs | System<A> for ParList<S> | Error
    open spec fn res(&self) -> Option<ISet<<S::Resources as Uses>::Use>> {
        let n = self.0@.len() as int;
        if fine::<A, S>(self.0@, n) && compatible::<A, S>(self.0@, n) { Some(uses_of::<A, S>(self.0@, n)) } else { None }
    }
    open spec fn ran(before: Self, pool: S::Pool, args: A, r: Result<(), S::Error>, after: Self) -> bool {
        ran_all::<A, S>(before.0@, pool, args, r, after.0@)
    }
//@fn src/system.rs | System<A> for ParList<S> :: check_resources | props=Y01
//@ret r
//@loop 0
    fine::<A, S>(self.0@, $i), compatible::<A, S>(self.0@, $i),
    r.rok(), r.uses() == uses_of::<A, S>(self.0@, $i),
//@end
//@fn src/system.rs | System<A> for ParList<S> :: run | props=Y02 ; map fn run => fn vp_keep ; map & mut self . 0 [ .. ] => vp_slice ( & mut self . 0 ) ; map . run => . vp_m_run ; map run => vp_parlist_run ; map . vp_m_run => . run ; map vp_keep => run
//@ret r
//@end
}

// ---------------------------------------------------------------- SeqList
//@struct src/system.rs | SeqList
//@impl src/system.rs | System<A> for SeqList<S>
//@assoc src/system.rs | System<A> for SeqList<S> | Resources
//@assoc src/system.rs | System<A> for SeqList<S> | Pool
//@assoc src/system.rs | System<A> for SeqList<S> | Error
    open spec fn res(&self) -> Option<ISet<<S::Resources as Uses>::Use>> {
        let n = self.0@.len() as int;
        if fine::<A, S>(self.0@, n) { Some(uses_of::<A, S>(self.0@, n)) } else { None }
    }
    open spec fn ran(before: Self, pool: S::Pool, args: A, r: Result<(), S::Error>, after: Self) -> bool {
        ran_seq::<A, S>(before.0@, pool, args, r, after.0@)
    }
//@fn src/system.rs | System<A> for SeqList<S> :: check_resources | props=Y01
//@ret r
//@loop 0
    fine::<A, S>(self.0@, $i),
    r.rok(), r.uses() == uses_of::<A, S>(self.0@, $i),
//@end
//@fn src/system.rs | System<A> for SeqList<S> :: run | props=Y02
//@ret r
//@loop 0
    self.0@.len() == old(self).0@.len(),
    forall|j: int| 0 <= j < $i ==> S::ran(#[trigger] old(self).0@[j], *$1, $2, Ok(()), #[trigger] self.0@[j]),
    forall|j: int| $i <= j < self.0@.len() ==> #[trigger] self.0@[j] == old(self).0@[j],
//@end
}

// ---------------------------------------------------------------- pools
//@struct src/system.rs | SeqPool
//@impl src/system.rs | Pool for SeqPool
//@fn src/system.rs | Pool for SeqPool :: join | props=Y02
//@ret r
//@end
}
// the order of the calls: the same function, for functions that record when they run
pub tracked struct VpLog { pub ghost calls: Seq<int> }
pub trait VpFnOnce<R>: Sized {
    spec fn name(&self) -> int;
    spec fn gives(&self, r: R) -> bool;
    fn vp_call(self, Tracked(vp_l): Tracked<&mut VpLog>) -> (r: R)
        ensures self.gives(r), final(vp_l).calls == old(vp_l).calls.push(self.name());
}
//@ghostarg vp_call = Tracked(&mut *vp_l)
//@impl src/system.rs | Pool for SeqPool | map Pool for SeqPool => SeqPool
//@fn src/system.rs | Pool for SeqPool :: join | props=Y02 name=vp_join_in_order id=SeqPool::join-in-order dyncall log ; map A : FnOnce ( ) -> RA + Send , => A : VpFnOnce < RA > , ; map B : FnOnce ( ) -> RB + Send , => B : VpFnOnce < RB > ,
//@ret r
//@spec
    ensures $1.gives(r.0), $2.gives(r.1), final(vp_l).calls == old(vp_l).calls.push($1.name()).push($2.name()),
//@end
}

//@struct src/rayon_pool.rs | RayonPool
pub mod rayon {
    use vstd::prelude::*;
    /// calls both, each once
    #[verifier::external_body]
    pub fn join<A, B, RA, RB>(a: A, b: B) -> (r: (RA, RB))
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
        requires a.requires(()), b.requires(()),
        ensures a.ensures((), r.0), b.ensures((), r.1),
    { unimplemented!() }
}
//@impl src/rayon_pool.rs | Pool for RayonPool
//@fn src/rayon_pool.rs | Pool for RayonPool :: join | props=Y02
//@ret r
//@end
}

// ---------------------------------------------------------------- parallelize
pub use vp_groups::*;
pub mod vp_groups {
use vstd::prelude::*;
use super::*;
/// the systems of some groups, in order
pub open spec fn flat<S>(g: Seq<ParList<S>>) -> Seq<S>
    decreases g.len(),
{
    if g.len() == 0 { Seq::empty() } else { flat(g.drop_last()) + g.last().0@ }
}
/// the systems of this group may run together
pub open spec fn group_ok<A, S: System<A>>(p: Seq<S>) -> bool {
    &&& p.len() > 0
    &&& compatible::<A, S>(p, p.len() as int)
    &&& p.len() > 1 ==> fine::<A, S>(p, p.len() as int)
}
/// `x` may not join this group
pub open spec fn breaks<A, S: System<A>>(p: Seq<S>, x: S) -> bool {
    ||| x.res().is_none()
    ||| p.len() == 1 && p[0].res().is_none()
    ||| exists|i: int| 0 <= i < p.len() && conflict::<A, S>(#[trigger] p[i], x)
}
/// groups that may run together, none of which could have had the first system of the next one
pub open spec fn grouped<A, S: System<A>>(g: Seq<ParList<S>>) -> bool {
    &&& forall|k: int| 0 <= k < g.len() ==> group_ok::<A, S>((#[trigger] g[k]).0@)
    &&& forall|k: int| 0 < k < g.len() ==> breaks::<A, S>(g[k - 1].0@, (#[trigger] g[k]).0@[0])
}
pub broadcast proof fn lemma_flat_0<S>(g: Seq<ParList<S>>)
    ensures g.len() == 0 ==> #[trigger] flat(g) == Seq::<S>::empty(),
{
}
pub broadcast proof fn lemma_flat_push<S>(g: Seq<ParList<S>>, p: ParList<S>)
    ensures #[trigger] flat(g.push(p)) == flat(g) + p.0@,
{
    assert(g.push(p).drop_last() =~= g);
}
pub broadcast proof fn lemma_grouped_push<A, S: System<A>>(g: Seq<ParList<S>>, p: ParList<S>)
    ensures
        grouped::<A, S>(g) && group_ok::<A, S>(p.0@) && (g.len() > 0 ==> breaks::<A, S>(g.last().0@, p.0@[0])) ==> #[trigger] grouped::<A, S>(g.push(p)),
{
}
pub broadcast proof fn lemma_add_assoc<S>(a: Seq<S>, b: Seq<S>, x: S)
    ensures #[trigger] (a + b.push(x)) == (a + b).push(x),
{
    assert(a + b.push(x) =~= (a + b).push(x));
}
pub broadcast proof fn lemma_take_step<S>(s: Seq<S>, k: int)
    requires 0 <= k < s.len(),
    ensures #[trigger] s.take(k + 1) == s.take(k).push(s[k]),
{
    assert(s.take(k + 1) =~= s.take(k).push(s[k]));
}
pub broadcast proof fn lemma_fine_step<A, S: System<A>>(s: Seq<S>, x: S)
    ensures
        fine::<A, S>(s, s.len() as int) && x.res().is_some() ==> #[trigger] fine::<A, S>(s.push(x), s.push(x).len() as int),
{
}
pub broadcast proof fn lemma_compatible_push<A, S: System<A>>(s: Seq<S>, x: S)
    ensures
        compatible::<A, S>(s, s.len() as int) && !(exists|i: int| 0 <= i < s.len() && conflict::<A, S>(#[trigger] s[i], x)) ==> #[trigger] compatible::<A, S>(s.push(x), s.push(x).len() as int),
{
}
pub broadcast proof fn lemma_uses_push<A, S: System<A>>(s: Seq<S>, x: S)
    ensures
        x.res().is_some() ==> #[trigger] uses_of::<A, S>(s.push(x), s.push(x).len() as int) == uses_of::<A, S>(s, s.len() as int).union(x.res()->0),
{
    let t = s.push(x);
    if x.res().is_some() {
        lemma_uses_step::<A, S>(t, s.len() as int);
        assert(uses_of::<A, S>(t, s.len() as int) =~= uses_of::<A, S>(s, s.len() as int)) by {
            assert forall|u: <S::Resources as Uses>::Use| uses_of::<A, S>(t, s.len() as int).contains(u) implies uses_of::<A, S>(s, s.len() as int).contains(u) by {
                let i = choose|i: int| 0 <= i < s.len() && (#[trigger] t[i].res()).is_some() && t[i].res()->0.contains(u);
                assert(s[i].res().is_some());
            }
            assert forall|u: <S::Resources as Uses>::Use| uses_of::<A, S>(s, s.len() as int).contains(u) implies uses_of::<A, S>(t, s.len() as int).contains(u) by {
                let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i].res()).is_some() && s[i].res()->0.contains(u);
                assert(t[i].res().is_some());
            }
        }
    }
}
pub broadcast proof fn lemma_uses_empty<A, S: System<A>>(s: Seq<S>)
    ensures s.len() == 0 ==> #[trigger] uses_of::<A, S>(s, s.len() as int) == ISet::<<S::Resources as Uses>::Use>::empty(),
{
    lemma_uses_0::<A, S>(s, 0);
}
pub broadcast group group_groups {
    lemma_flat_0, lemma_flat_push, lemma_grouped_push, lemma_add_assoc, lemma_take_step, lemma_fine_step, lemma_compatible_push, lemma_uses_push, lemma_uses_empty,
}
pub proof fn lemma_flat_has<S>(g: Seq<ParList<S>>, x: S)
    ensures flat(g).contains(x) <==> exists|k: int| 0 <= k < g.len() && (#[trigger] g[k]).0@.contains(x),
    decreases g.len(),
{
    if g.len() > 0 {
        let a = flat(g.drop_last());
        let b = g.last().0@;
        lemma_flat_has(g.drop_last(), x);
        if flat(g).contains(x) {
            let i = choose|i: int| 0 <= i < flat(g).len() && flat(g)[i] == x;
            if i < a.len() {
                assert(a[i] == x);
                let k = choose|k: int| 0 <= k < g.drop_last().len() && (#[trigger] g.drop_last()[k]).0@.contains(x);
                assert(g[k].0@.contains(x));
            } else {
                assert(b[i - a.len()] == x);
                assert(g[g.len() - 1].0@.contains(x));
            }
        }
        if exists|k: int| 0 <= k < g.len() && (#[trigger] g[k]).0@.contains(x) {
            let k = choose|k: int| 0 <= k < g.len() && (#[trigger] g[k]).0@.contains(x);
            if k < g.len() - 1 {
                assert(g.drop_last()[k].0@.contains(x));
                let i = choose|i: int| 0 <= i < a.len() && a[i] == x;
                assert(flat(g)[i] == x);
            } else {
                let i = choose|i: int| 0 <= i < b.len() && b[i] == x;
                assert(flat(g)[a.len() + i] == x);
            }
        }
    }
}
/// the groups as a whole report a conflict exactly if one of the systems does
pub proof fn lemma_grouped_res<A: Copy + Send, S: System<A> + Send>(g: SeqList<ParList<S>>) where S::Pool: Sync, S::Error: Send
    requires grouped::<A, S>(g.0@),
    ensures System::<A>::res(&g).is_some() <==> forall|x: S| #[trigger] flat(g.0@).contains(x) ==> x.res().is_some(),
{
    let s = g.0@;
    if System::<A>::res(&g).is_some() {
        assert forall|x: S| #[trigger] flat(s).contains(x) implies x.res().is_some() by {
            lemma_flat_has(s, x);
            let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0@.contains(x);
            assert(System::<A>::res(&s[k]).is_some());
            let i = choose|i: int| 0 <= i < s[k].0@.len() && s[k].0@[i] == x;
            assert(s[k].0@[i].res().is_some());
        }
    } else {
        let k = choose|k: int| 0 <= k < s.len() && !(#[trigger] System::<A>::res(&s[k])).is_some();
        assert(group_ok::<A, S>(s[k].0@));
        let i = choose|i: int| 0 <= i < s[k].0@.len() && !(#[trigger] s[k].0@[i].res()).is_some();
        lemma_flat_has(s, s[k].0@[i]);
        assert(s[k].0@.contains(s[k].0@[i]));
        assert(flat(s).contains(s[k].0@[i]));
    }
}
}
//@fn src/system.rs | fn parallelize | props=Y03 ; map IntoIterator < Item = S > => VpIntoIter < T = S >
//@ret vp_r
//@spec
    ensures
        flat(vp_r.0@) == $1.vp_seq(),
        grouped::<A, S>(vp_r.0@),
//@entry
    broadcast use vp_groups::group_groups;
//@loop 0
    flat(seq@) + par@ == $all.take($i),
    grouped::<A, S>(seq@),
    fine::<A, S>(par@, par@.len() as int), compatible::<A, S>(par@, par@.len() as int),
    par_resources.rok(), par_resources.uses() == uses_of::<A, S>(par@, par@.len() as int),
    par@.len() > 0 && seq@.len() > 0 ==> breaks::<A, S>(seq@.last().0@, par@[0]),
    par@.len() == 0 && seq@.len() > 0 ==> seq@.last().0@.len() == 1 && seq@.last().0@[0].res().is_none(),
//@end
} // verus!
fn main() {}
