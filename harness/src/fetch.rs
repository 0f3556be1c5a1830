//! F01: what fetchable types and tuples declare, and what they really borrow.
use crate::rt::{catch, panics, Engine, Src};
use goggles::*;
use std::cell::RefCell;
use std::collections::BTreeSet;

// ---------------------------------------------------------------- tuples of members with any uses
type Uses = Option<(BTreeSet<u32>, BTreeSet<u32>)>;
thread_local! {
    static SPEC: RefCell<Vec<Uses>> = RefCell::new(vec![]);
    static FETCHED: RefCell<Vec<usize>> = RefCell::new(vec![]);
}
struct Table;
struct M<const I: usize>(usize);
impl<'a, const I: usize> FetchResources<'a, Table> for M<I> {
    type Resources = RwResources<u32>;
    fn check_resources() -> Result<RwResources<u32>, ResourceConflict> {
        SPEC.with(|s| match &s.borrow()[I] {
            Some((r, w)) => Ok(RwResources::from_iters(r.iter().copied(), w.iter().copied())),
            None => Err(ResourceConflict::conflict_in::<Self>()),
        })
    }
    fn fetch(_: &'a Table) -> Self {
        FETCHED.with(|f| f.borrow_mut().push(I));
        M(I)
    }
}
type Checked = Result<RwResources<u32>, ResourceConflict>;
struct Fns(fn() -> Checked, fn() -> Vec<usize>);
macro_rules! tuples {
    ($(($($i:tt)*))*) => { vec![$({
        fn check() -> Checked { <($(M<$i>,)*) as FetchResources<Table>>::check_resources() }
        fn get() -> Vec<usize> { let t = <($(M<$i>,)*) as FetchResources<Table>>::fetch(&Table); vec![$(t.$i.0),*] }
        Fns(check, get)
    }),*] };
}
fn tuples() -> Vec<Fns> {
    tuples! {
        (0) (0 1) (0 1 2) (0 1 2 3) (0 1 2 3 4) (0 1 2 3 4 5) (0 1 2 3 4 5 6) (0 1 2 3 4 5 6 7) (0 1 2 3 4 5 6 7 8)
        (0 1 2 3 4 5 6 7 8 9) (0 1 2 3 4 5 6 7 8 9 10) (0 1 2 3 4 5 6 7 8 9 10 11) (0 1 2 3 4 5 6 7 8 9 10 11 12)
        (0 1 2 3 4 5 6 7 8 9 10 11 12 13) (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14) (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15)
        (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16) (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17)
        (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18) (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19)
        (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20) (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21)
        (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22) (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23)
        (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24)
        (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25)
    }
}
fn clash(a: &(BTreeSet<u32>, BTreeSet<u32>), b: &(BTreeSet<u32>, BTreeSet<u32>)) -> bool {
    let uses = |m: &(BTreeSet<u32>, BTreeSet<u32>), x: &u32| m.0.contains(x) || m.1.contains(x);
    a.1.iter().any(|x| uses(b, x)) || b.1.iter().any(|x| uses(a, x))
}
fn same(r: &RwResources<u32>, m: &(BTreeSet<u32>, BTreeSet<u32>)) {
    let reads: BTreeSet<u32> = r.reads().copied().collect();
    let writes: BTreeSet<u32> = r.writes().copied().collect();
    let want: BTreeSet<u32> = m.0.difference(&m.1).copied().collect();
    assert!(reads == want && writes == m.1, "a tuple declares reads {reads:?}, writes {writes:?} instead of {want:?}, {:?}", m.1);
}
/// first number: length; then uses of the members: by default each its own resource
fn tuple(s: &mut Src) {
    let n = s.below(26) as usize + 1;
    let mut spec: Vec<Uses> = (0..26)
        .map(|i| {
            let (mut r, mut w) = (BTreeSet::new(), BTreeSet::new());
            if i % 3 == 1 { w.insert(i) } else { r.insert(i) };
            if i % 3 == 2 {
                r.insert(100);
            }
            Some((r, w))
        })
        .collect();
    while let Some(x) = s.next() {
        let i = (x / 16) as usize % n;
        let k = match x / 512 % 4 {
            0 => 100,
            1 => 200 + x / 2048 % 3,
            _ => (x / 2048) % n as u32,
        };
        match x % 16 {
            0 => spec[i] = None,
            1 | 2 => spec[i] = Some(Default::default()),
            3..=10 => {
                if let Some((r, _)) = &mut spec[i] {
                    r.insert(k);
                }
            }
            _ => {
                if let Some((_, w)) = &mut spec[i] {
                    w.insert(k);
                }
            }
        }
    }
    let mut want: Uses = Some(Default::default());
    for m in &spec[..n] {
        want = match (want, m) {
            (Some(a), Some(b)) if !clash(&a, b) => Some((&a.0 | &b.0, &a.1 | &b.1)),
            _ => None,
        };
    }
    s.saw((n, want.is_some()));
    SPEC.with(|x| *x.borrow_mut() = spec.clone());
    let f = &tuples()[n - 1];
    match ((f.0)(), &want) {
        (Ok(r), Some(m)) => same(&r, m),
        (Err(_), None) => {}
        (r, _) => panic!("check_resources of a tuple of {n} is {} although it should be {}: {:?}", if r.is_ok() { "Ok" } else { "an error" }, if want.is_some() { "Ok" } else { "an error" }, &spec[..n]),
    }
    FETCHED.with(|x| x.borrow_mut().clear());
    let v = (f.1)();
    assert!(v == (0..n).collect::<Vec<_>>(), "the members of a tuple of {n} are fetched into {v:?}");
    let mut log = FETCHED.with(|x| x.borrow().clone());
    log.sort();
    assert!(log == (0..n).collect::<Vec<_>>(), "fetch of a tuple of {n} fetches the members {log:?}");
    // tuples of tuples
    if n >= 4 {
        type N = ((M<0>, M<1>), M<2>, (M<3>,));
        let mut want: Uses = Some(Default::default());
        for m in &spec[..4] {
            want = match (want, m) {
                (Some(a), Some(b)) if !clash(&a, b) => Some((&a.0 | &b.0, &a.1 | &b.1)),
                _ => None,
            };
        }
        match (<N as FetchResources<Table>>::check_resources(), &want) {
            (Ok(r), Some(m)) => same(&r, m),
            (Err(_), None) => {}
            _ => panic!("check_resources of a nested tuple is wrong: {:?}", &spec[..4]),
        }
    }
    type None_ = FetchNone<Table, RwResources<u32>>;
    match <(None_, M<0>, None_) as FetchResources<Table>>::check_resources() {
        Ok(r) => same(&r, spec[0].as_ref().expect("FetchNone hides an error")),
        Err(_) => assert!(spec[0].is_none(), "FetchNone conflicts"),
    }
}

// ---------------------------------------------------------------- the types of a World
#[derive(Debug)]
struct A(#[allow(dead_code)] u32);
#[derive(Debug)]
struct B(#[allow(dead_code)] u32);
struct CA(#[allow(dead_code)] u32);
struct CB(#[allow(dead_code)] u32);
impl Component for CA {
    type Storage = VecStorage<CA>;
}
impl Component for CB {
    type Storage = Flagged<DenseVecStorage<CB>>;
}
/// resource A, B, resource of type CA, of the storage of CA; component CA, CB
const SLOTS: usize = 6;
fn id(slot: usize) -> WorldResourceId {
    match slot {
        0 => WorldResourceId::resource::<A>(),
        1 => WorldResourceId::resource::<B>(),
        2 => WorldResourceId::resource::<CA>(),
        3 => WorldResourceId::resource::<MaskedStorage<VecStorage<CA>>>(),
        4 => WorldResourceId::component::<CA>(),
        5 => WorldResourceId::component::<CB>(),
        _ => WorldResourceId::Entities,
    }
}
fn world() -> World {
    let mut w = World::new();
    w.insert_resource(A(1));
    w.insert_resource(B(2));
    w.insert_resource(CA(3));
    w.insert_resource(MaskedStorage::<VecStorage<CA>>::default());
    w.insert_component::<CA>();
    w.insert_component::<CB>();
    w
}
/// 0 free, 1 shared, 2 exclusive
fn probe(w: &World) -> Vec<u8> {
    fn one(read: bool, write: bool) -> u8 {
        if write { 2 } else if read { 1 } else { 0 }
    }
    macro_rules! p {
        ($r:ident $w:ident $t:ty) => {
            one(panics(|| drop(w.$w::<$t>())), panics(|| drop(w.$r::<$t>())))
        };
    }
    vec![
        p!(read_resource write_resource A),
        p!(read_resource write_resource B),
        p!(read_resource write_resource CA),
        p!(read_resource write_resource MaskedStorage<VecStorage<CA>>),
        p!(read_component write_component CA),
        p!(read_component write_component CB),
    ]
}
trait Mem {
    type T<'a>: FetchResources<'a, World, Resources = WorldResources>;
    const NAME: &'static str;
    /// slot (SLOTS: entities), write
    const USES: &'static [(usize, bool)];
}
macro_rules! mems {
    ($($n:ident = $t:ty, $u:expr;)*) => { $(
        struct $n;
        impl Mem for $n {
            type T<'a> = $t;
            const NAME: &'static str = stringify!($t);
            const USES: &'static [(usize, bool)] = &$u;
        }
    )* };
}
mems! {
    M0 = ReadResource<'a, A>, [(0, false)];
    M1 = WriteResource<'a, A>, [(0, true)];
    M2 = ReadResource<'a, B>, [(1, false)];
    M3 = WriteResource<'a, B>, [(1, true)];
    M4 = ReadResource<'a, CA>, [(2, false)];
    M5 = WriteResource<'a, CA>, [(2, true)];
    M6 = WriteResource<'a, MaskedStorage<VecStorage<CA>>>, [(3, true)];
    M7 = ReadComponent<'a, CA>, [(4, false), (6, false)];
    M8 = WriteComponent<'a, CA>, [(4, true), (6, false)];
    M9 = ReadComponent<'a, CB>, [(5, false), (6, false)];
    M10 = WriteComponent<'a, CB>, [(5, true), (6, false)];
    M11 = Entities<'a>, [(6, false)];
    M12 = FetchNone<World, WorldResources>, [];
    M13 = (ReadResource<'a, A>, WriteComponent<'a, CA>), [(0, false), (4, true), (6, false)];
}
fn declared(r: &WorldResources, uses: &[(usize, bool)], what: &str) {
    for s in 0..=SLOTS {
        let read = r.reads().any(|x| *x == id(s));
        let write = r.writes().any(|x| *x == id(s));
        let w = uses.iter().any(|u| *u == (s, true));
        let rd = !w && uses.iter().any(|u| *u == (s, false));
        assert!((read, write) == (rd, w), "{what} declares read {read}, write {write} of {:?} instead of {rd}, {w}", id(s));
    }
    let n = r.reads().count() + r.writes().count();
    let m: BTreeSet<usize> = uses.iter().map(|u| u.0).collect();
    assert!(n == m.len(), "{what} declares {n} uses instead of {}", m.len());
}
fn borrowed(w: &World, uses: &[(usize, bool)], what: &str) {
    let p = probe(w);
    for s in 0..SLOTS {
        let want = if uses.contains(&(s, true)) { 2 } else if uses.contains(&(s, false)) { 1 } else { 0 };
        assert!(p[s] == want, "{what} borrows {:?} {} instead of {}", id(s), ["not", "shared", "exclusively"][p[s] as usize], ["not", "shared", "exclusively"][want as usize]);
    }
}
fn pair<X: Mem, Y: Mem>(w: &World) {
    let what = format!("({}, {})", X::NAME, Y::NAME);
    let bad = X::USES.iter().any(|a| Y::USES.iter().any(|b| a.0 == b.0 && (a.1 || b.1)));
    let uses: Vec<(usize, bool)> = X::USES.iter().chain(Y::USES).copied().collect();
    match <(X::T<'_>, Y::T<'_>)>::check_resources() {
        Ok(r) => {
            assert!(!bad, "check_resources of {what} succeeds");
            declared(&r, &uses, &what);
            match catch(|| w.fetch::<(X::T<'_>, Y::T<'_>)>()) {
                Some(f) => {
                    borrowed(w, &uses, &what);
                    drop(f);
                }
                None => panic!("the check of {what} succeeds, but fetch panics"),
            }
            borrowed(w, &[], "nothing");
        }
        Err(_) => assert!(bad, "check_resources of {what} fails"),
    }
}
fn single<X: Mem>(w: &World) {
    match <X::T<'_>>::check_resources() {
        Ok(r) => declared(&r, X::USES, X::NAME),
        Err(_) => panic!("check_resources of {} fails", X::NAME),
    }
    let f = w.fetch::<X::T<'_>>();
    borrowed(w, X::USES, X::NAME);
    drop(f);
    borrowed(w, &[], "nothing");
}
macro_rules! each {
    ($w:ident $x:ident: $($y:ident)*) => {{ single::<$x>(&$w); $(pair::<$x, $y>(&$w);)* }};
    ($w:ident) => {
        each!(@ $w M0); each!(@ $w M1); each!(@ $w M2); each!(@ $w M3); each!(@ $w M4); each!(@ $w M5); each!(@ $w M6);
        each!(@ $w M7); each!(@ $w M8); each!(@ $w M9); each!(@ $w M10); each!(@ $w M11); each!(@ $w M12); each!(@ $w M13);
    };
    (@ $w:ident $x:ident) => { each!($w $x: M0 M1 M2 M3 M4 M5 M6 M7 M8 M9 M10 M11 M12 M13) };
}
thread_local! { static DONE: RefCell<bool> = RefCell::new(false); }
fn worlds(s: &mut Src) {
    if DONE.with(|d| d.replace(true)) && s.next().is_none() {
        return;
    }
    let w = world();
    for a in 0..=SLOTS {
        for b in 0..=SLOTS {
            assert!((id(a) == id(b)) == (a == b), "the ids {:?} and {:?} are the same", id(a), id(b));
        }
    }
    each!(w);
    s.saw(1);
}

// ---------------------------------------------------------------- the types of a ResourceSet
struct S<const N: usize>(u32);
fn set_probe(w: &ResourceSet) -> Vec<u8> {
    macro_rules! p {
        ($($n:tt)*) => { vec![$(if panics(|| drop(w.borrow::<S<$n>>())) { 2 } else if panics(|| drop(w.borrow_mut::<S<$n>>())) { 1 } else { 0 }),*] };
    }
    p!(0 1 2)
}
fn resource_ids() -> [resource_set::ResourceId; 3] {
    [resource_set::ResourceId::of::<S<0>>(), resource_set::ResourceId::of::<S<1>>(), resource_set::ResourceId::of::<S<2>>()]
}
trait Mem2 {
    type T<'a>: FetchResources<'a, ResourceSet, Resources = RwResources<resource_set::ResourceId>>;
    const SLOT: usize;
    const WRITE: bool;
    fn get(t: &Self::T<'_>) -> u32;
}
macro_rules! mems2 {
    ($($n:ident $t:ident $slot:tt $w:tt;)*) => { $(
        struct $n;
        impl Mem2 for $n {
            type T<'a> = $t<'a, S<$slot>>;
            const SLOT: usize = $slot;
            const WRITE: bool = $w;
            fn get(t: &Self::T<'_>) -> u32 { t.0 }
        }
    )* };
}
mems2! { P0 Read 0 false; P1 Write 0 true; P2 Read 1 false; P3 Write 1 true; P4 Read 2 false; P5 Write 2 true; }
fn pair2<X: Mem2, Y: Mem2>(s: &ResourceSet) {
    let bad = X::SLOT == Y::SLOT && (X::WRITE || Y::WRITE);
    let c = <(X::T<'_>, Y::T<'_>)>::check_resources();
    assert!(c.is_err() == bad, "check_resources of two members is wrong");
    let Ok(c) = c else { return };
    let ids = resource_ids();
    for (i, x) in ids.iter().enumerate() {
        let w = (X::WRITE && X::SLOT == i) || (Y::WRITE && Y::SLOT == i);
        let r = !w && (X::SLOT == i || Y::SLOT == i);
        assert!(c.reads().any(|y| y == x) == r && c.writes().any(|y| y == x) == w, "the uses declared are wrong");
    }
    assert!(c.reads().count() + c.writes().count() == if X::SLOT == Y::SLOT { 1 } else { 2 });
    let f = catch(|| s.fetch::<(X::T<'_>, Y::T<'_>)>()).expect("the check succeeds but fetch panics");
    assert!(X::get(&f.0) == X::SLOT as u32 + 10 && Y::get(&f.1) == Y::SLOT as u32 + 10, "a member has the value of another resource");
    let p = set_probe(s);
    for i in 0..3 {
        let w = (X::WRITE && X::SLOT == i) || (Y::WRITE && Y::SLOT == i);
        let r = X::SLOT == i || Y::SLOT == i;
        assert!(p[i] == if w { 2 } else if r { 1 } else { 0 }, "the borrows of the members are not what they declare");
    }
}
fn sets(_: &mut Src) {
    let mut s = ResourceSet::new();
    s.insert(S::<0>(10));
    s.insert(S::<1>(11));
    s.insert(S::<2>(12));
    macro_rules! each2 {
        ($($x:ident)*) => { $( each2!(@ $x P0 P1 P2 P3 P4 P5); )* };
        (@ $x:ident $($y:ident)*) => { $( pair2::<$x, $y>(&s); assert!(set_probe(&s) == [0, 0, 0]); )* };
    }
    each2!(P0 P1 P2 P3 P4 P5);
}

pub fn engines(v: &mut Vec<Engine>) {
    // every length with every single conflict and every pair of members
    let mut fixed: Vec<Vec<u32>> = vec![];
    for n in 0..26u32 {
        fixed.push(vec![n]);
        for i in 0..=n {
            fixed.push(vec![n, 16 * i]);
            for j in 0..i {
                // both use 200: read-read, read-write, write-read, write-write
                for (a, b) in [(3, 3), (3, 11), (11, 3), (11, 11)] {
                    fixed.push(vec![n, a + 16 * i + 512, b + 16 * j + 512]);
                }
            }
        }
    }
    v.push(Engine::new("fetch-tuples", &["F01"], tuple).fixed(fixed).len(30));
    v.push(Engine::new("fetch-world", &["F01"], worlds).len(1));
    v.push(Engine::new("fetch-set", &["F01"], sets).len(1));
}
