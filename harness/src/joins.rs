//! J01, J02, J03: joins, against intersections of plain sets.
use crate::items::D;
use crate::rt::{panics, Engine, Rng, Src};
use goggles::entity::Allocator;
use goggles::hibitset::{AtomicBitSet, BitSet, BitSetAll, BitSetAnd, BitSetLike, BitSetNot, BitSetOr, BitSetXor};
use goggles::join::{BitSetConstrained, Join, JoinIter, JoinParIter};
use goggles::rayon::{self, prelude::*};
use goggles::{par_join, DenseVecStorage, Entity, Flagged, HashMapStorage, IntoJoin, IntoJoinExt, MaskedStorage, ParJoinExt, VecStorage};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::{Arc, Mutex, OnceLock};

/// Indexes around the borders of the words of the bit sets.
pub const IDX: [u32; 16] = [0, 1, 2, 3, 31, 62, 63, 64, 65, 128, 4095, 4096, 4097, 8192, 262143, 262144];

/// A joinable value that watches what it is asked for.
pub struct Probe {
    pub id: usize,
    pub set: BTreeSet<u32>,
    pub log: Arc<Mutex<BTreeMap<(usize, u32), u32>>>,
}
impl Join for Probe {
    type Item = (usize, u32);
    type Access = Probe;
    type Mask = BitSet;
    fn open(self) -> (BitSet, Probe) {
        (self.set.iter().copied().collect(), self)
    }
    unsafe fn get(p: &Probe, i: u32) -> (usize, u32) {
        assert!(p.set.contains(&i), "member {} is asked for index {i} that is not in its mask", p.id);
        let mut l = p.log.lock().unwrap();
        let n = l.entry((p.id, i)).or_insert(0);
        *n += 1;
        assert!(*n == 1, "member {} is asked for index {i} twice", p.id);
        (p.id, i)
    }
}

fn sets(s: &mut Src, n: usize) -> Vec<BTreeSet<u32>> {
    let base = s.below(1 << 16);
    let mut r = Rng::new(s.below(u32::MAX) as u64);
    (0..n)
        .map(|_| {
            let mut b = base;
            // most members lack no index or one, some have more
            match r.next() % 4 {
                0 => b |= 1 << (r.next() % 16),
                1 => b &= !(1 << (r.next() % 16)),
                2 => b |= r.next() as u32 & r.next() as u32 & 0xffff,
                _ => (),
            }
            IDX.iter().enumerate().filter(|(k, _)| b >> k & 1 == 1).map(|(_, &i)| i).collect()
        })
        .collect()
}
pub fn common(v: &[BTreeSet<u32>]) -> Vec<u32> {
    v[0].iter().copied().filter(|i| v.iter().all(|s| s.contains(i))).collect()
}

macro_rules! arity {
    ($s:ident, $v:ident, $log:ident, $($n:tt $x:ident)*) => {{
        $( let $x = Probe { id: $n, set: $v[$n].clone(), log: $log.clone() }; )*
        let got: Vec<Vec<(usize, u32)>> = ($($x,)*).join().map(|($($x,)*)| vec![$($x),*]).collect();
        let w: Vec<Vec<(usize, u32)>> = common(&$v[..[$($n),*].len()]).into_iter().map(|i| vec![$(($n, i)),*]).collect();
        assert!(got == w, "a join of {} members gives {:?} instead of {:?}", [$($n),*].len(), got, w);
        let l: Vec<(usize, u32)> = $log.lock().unwrap().keys().copied().collect();
        let mut want: Vec<(usize, u32)> = w.into_iter().flatten().collect();
        want.sort();
        assert!(l == want, "the members are asked for {l:?} instead of {want:?}");
    }};
}
macro_rules! arities {
    ($s:ident, $v:ident, $log:ident, $k:ident, [$($done:tt)*]) => {};
    ($s:ident, $v:ident, $log:ident, $k:ident, [$($done:tt)*] $n:tt $x:ident $($rest:tt)*) => {
        if $k == $n { arity!($s, $v, $log, $($done)* $n $x); }
        arities!($s, $v, $log, $k, [$($done)* $n $x] $($rest)*);
    };
}
fn tuples(s: &mut Src) {
    let k = s.below(26) as usize;
    let v = sets(s, 26);
    s.saw((k, common(&v[..=k]).len()));
    let log = Arc::new(Mutex::new(BTreeMap::new()));
    arities!(s, v, log, k, [] 0 a 1 b 2 c 3 d 4 e 5 f 6 g 7 h 8 i 9 j 10 k_ 11 l 12 m 13 n 14 o 15 p 16 q 17 r 18 s_ 19 t 20 u 21 v_ 22 w 23 x 24 y 25 z);
}

type Sto = MaskedStorage<VecStorage<D>>;
type Tra = MaskedStorage<Flagged<DenseVecStorage<D>>>;
fn storage(set: &BTreeSet<u32>) -> Sto {
    let mut m = Sto::default();
    for &i in set {
        m.insert(i, D::new(i));
    }
    m
}
fn bits(set: &BTreeSet<u32>) -> BitSet {
    set.iter().copied().collect()
}
fn abits(set: &BTreeSet<u32>) -> AtomicBitSet {
    set.iter().copied().collect()
}
fn eq(what: &str, a: Vec<u32>, b: Vec<u32>) {
    assert!(a == b, "{what} gives {a:?} instead of {b:?}");
}
fn members(s: &mut Src) {
    let k = s.below(100);
    let k = if k > 17 { k % 17 } else { k };
    let mut v = sets(s, 4);
    if k == 17 {
        // the last index there is
        for (i, x) in v.iter_mut().enumerate() {
            if i < 2 || s.flag() {
                x.insert((1 << 24) - 1);
            }
        }
        return hashed(&v);
    }
    if k == 16 {
        return hashed(&v);
    }
    // small indexes only where a complement is iterated over
    let v: Vec<BTreeSet<u32>> = v.into_iter().map(|x| x.into_iter().filter(|&i| i < 10_000).collect()).collect();
    s.saw((k, common(&v).len(), common(&v[..2]).len(), common(&v[..3]).len()));
    let (a, b, c) = (&v[0], &v[1], &v[2]);
    let w2 = common(&v[..2]);
    let w3 = common(&v[..3]);
    let (mut sa, mut sb, mut sc) = (storage(a), storage(b), storage(c));
    let log = Arc::new(Mutex::new(BTreeMap::new()));
    let probe = |id: usize| Probe { id, set: v[id].clone(), log: log.clone() };
    fn val(x: &D) -> u32 {
        x.check();
        x.val
    }
    match k {
        0 => {
            eq("a join of a shared storage", (&sa).join().map(val).collect(), a.iter().copied().collect());
            eq("a join of a mutable storage", (&mut sa).join().map(|x| val(x)).collect(), a.iter().copied().collect());
            eq("a join of a guarded storage", sa.guard().join().map(|g| val(g.get())).collect(), a.iter().copied().collect());
        }
        1 => {
            let g: Vec<u32> = ((bits(a), &sa), (&mut sb, &sc)).join().map(|((i, x), (y, z))| {
                assert!(val(x) == i && val(y) == i && val(z) == i, "a nested join pairs values of different indexes at {i}");
                i
            }).collect();
            eq("a nested join", g, w3);
        }
        2 => {
            let g: Vec<u32> = (&bits(a), (&sb).maybe(), (&mut sc).maybe(), probe(3).maybe()).join().map(|(i, x, y, p)| {
                assert!(x.map(val) == b.get(&i).copied(), "the optional member at {i} is wrong");
                assert!(y.map(|y| val(y)) == c.get(&i).copied(), "the optional mutable member at {i} is wrong");
                assert!(p == v[3].get(&i).map(|&i| (3, i)), "the optional probe at {i} is wrong");
                i
            }).collect();
            eq("a join with optional members", g, a.iter().copied().collect());
        }
        3 => {
            let g: Vec<u32> = (probe(0), (probe(1), probe(2)).maybe()).join().map(|(x, y)| {
                let both = b.contains(&x.1) && c.contains(&x.1);
                assert!(x.0 == 0 && y == both.then_some(((1, x.1), (2, x.1))), "an optional tuple at {} is wrong", x.1);
                x.1
            }).collect();
            eq("a join with an optional tuple", g, a.iter().copied().collect());
        }
        4 => {
            let n = s.below(90) as usize;
            let g: Vec<(u32, Option<u32>)> = (BitSetAll, (&sb).maybe()).join_unconstrained().take(n).map(|(i, x)| (i, x.map(val))).collect();
            let w: Vec<(u32, Option<u32>)> = (0..n as u32).map(|i| (i, b.get(&i).copied())).collect();
            assert!(g == w, "an unconstrained join gives {g:?}");
            let g: Vec<Option<u32>> = (&sb).maybe().join_unconstrained().take(n).map(|x| x.map(val)).collect();
            assert!(g == w.iter().map(|x| x.1).collect::<Vec<_>>(), "an unconstrained join of one optional member gives {g:?}");
        }
        5 => {
            let or: Vec<u32> = a.union(b).copied().collect();
            eq("BitSetOr", BitSetOr(bits(a), abits(b)).join().collect(), or.clone());
            eq("&BitSetOr", (&BitSetOr(abits(a), bits(b)),).join().map(|x| x.0).collect(), or);
            eq("BitSetAnd", BitSetAnd(bits(a), bits(b)).join().collect(), w2.clone());
            eq("&BitSetAnd", (&BitSetAnd(bits(a), BitSetAll)).join().collect(), a.iter().copied().collect());
            eq("BitSetXor", BitSetXor(bits(a), bits(b)).join().collect(), a.symmetric_difference(b).copied().collect());
        }
        6 => {
            let w: Vec<u32> = a.difference(b).copied().collect();
            eq("BitSetNot in a join", (&sa, BitSetNot(sb.mask())).join().map(|x| val(x.0)).collect(), w.clone());
            eq("&BitSetNot in a join", (&sa, &BitSetNot(bits(b))).join().map(|x| x.1).collect(), w);
            eq("BitSetAll in a join", (&BitSetAll, &sa).join().map(|x| x.0).collect(), a.iter().copied().collect());
        }
        7 => {
            let d: &dyn BitSetLike = &bits(a);
            eq("a join of a dyn set", d.join_unconstrained().collect(), a.iter().copied().collect());
            eq("a join with a dyn set", (d, &sb).join_unconstrained().map(|(i, x)| { assert!(val(x) == i, "values of different indexes"); i }).collect(), w2);
        }
        8 => {
            let mut al = Allocator::new();
            let es: Vec<Entity> = (0..70).map(|_| al.allocate()).collect();
            for &i in a {
                if i < 70 { al.kill(es[i as usize]).unwrap(); }
            }
            let new: Vec<Entity> = (0..s.below(4)).map(|_| al.allocate_atomic()).collect();
            let mut w: BTreeMap<u32, Entity> = es.iter().filter(|e| !a.contains(&e.index())).map(|e| (e.index(), *e)).collect();
            w.extend(new.iter().map(|e| (e.index(), *e)));
            let g: Vec<Entity> = (&al).join_unconstrained().collect();
            assert!(g == w.values().copied().collect::<Vec<_>>(), "a join of an allocator gives {g:?}");
            let g: Vec<(Entity, u32)> = (&al, &sb).join().map(|(e, x)| (e, val(x))).collect();
            assert!(g == w.iter().filter(|x| b.contains(x.0)).map(|(&i, &e)| (e, i)).collect::<Vec<_>>(), "a join of an allocator and a storage gives {g:?}");
            let g: Vec<Option<Entity>> = (&sb, (&al).maybe()).join().map(|x| x.1).collect();
            assert!(g == b.iter().map(|i| w.get(i).copied()).collect::<Vec<_>>(), "an optional allocator gives {g:?}");
        }
        9 => {
            let mut t = Tra::default();
            t.set_track_modified(true);
            for &i in a {
                t.insert(i, D::new(i));
            }
            t.clear_modified();
            for &i in b {
                t.mark_modified(i);
            }
            let g: Vec<(u32, Option<u32>)> = (bits(b), t.modified()).join().map(|(i, x)| (i, x.map(val))).collect();
            let w: Vec<(u32, Option<u32>)> = b.iter().map(|&i| (i, a.get(&i).copied())).collect();
            assert!(g == w, "a join with modified() gives {g:?}");
            let g: Vec<(u32, Option<u32>)> = (bits(b), t.modified_mut()).join().map(|(i, x)| (i, x.map(|x| val(x)))).collect();
            assert!(g == w, "a join with modified_mut() gives {g:?}");
            let g: Vec<u32> = (t.modified().maybe(), &sc).join().map(|(x, y)| {
                let i = val(y);
                assert!(x.map(|x| x.map(val)) == b.get(&i).map(|i| a.get(i).copied()), "an optional modified() is wrong at {i}");
                i
            }).collect();
            eq("a join with an optional modified()", g, c.iter().copied().collect());
        }
        10 => {
            // an iterator dropped early, and one read beyond its end
            let n = s.below(6) as usize;
            let mut it = (probe(0), probe(1)).join();
            let g: Vec<u32> = (&mut it).take(n).map(|(x, _)| x.1).collect();
            eq("the first items", g, w2.iter().copied().take(n).collect());
            let g: Vec<u32> = (&mut it).map(|(_, y)| y.1).collect();
            eq("the remaining items", g, w2.iter().copied().skip(n).collect());
            assert!(it.next().is_none() && it.next().is_none(), "an exhausted join gives another item");
        }
        11 => {
            // a storage changed through a join keeps its indexes
            for (x, g) in (&mut sa, sb.guard()).join() {
                assert!(val(x) == val(g.get()), "values of different indexes");
                *x = D::new(val(x) + 1_000_000);
            }
            let g: Vec<u32> = (&sa).join().map(val).collect();
            eq("a storage changed by a join", g, a.iter().map(|&i| if b.contains(&i) { i + 1_000_000 } else { i }).collect());
        }
        12 => {
            let g: Vec<u32> = ((&sa, (&sb, (&sc,))), BitSetAnd(bits(a), BitSetNot(bits(&v[3])))).into_join_twice();
            eq("a deeply nested join", g, w3.iter().copied().filter(|i| !v[3].contains(i)).collect());
        }
        13 => {
            let g: Vec<u32> = (sa.guard(), &abits(b), abits(c)).join().map(|(mut g, i, j)| {
                assert!(i == j && val(g.get_mut()) == i, "values of different indexes");
                i
            }).collect();
            eq("a guarded join with sets", g, w3);
        }
        14 => {
            let g: Vec<(u32, u32)> = JoinIter::new((&sa, &sb).into_join()).ok().unwrap().map(|(x, y)| (val(x), val(y))).collect();
            assert!(g == w2.iter().map(|&i| (i, i)).collect::<Vec<_>>(), "JoinIter gives {g:?}");
            let g: Vec<(u32, u32)> = JoinIter::new_unconstrained((&mut sa, &mut sb).into_join()).map(|(x, y)| (val(x), val(y))).collect();
            assert!(g == w2.iter().map(|&i| (i, i)).collect::<Vec<_>>(), "JoinIter gives {g:?}");
        }
        _ => ways(s, &w2, (probe(0), probe(1)).join()),
    }
}
/// Storages with large indexes.
fn hashed(v: &[BTreeSet<u32>]) {
    type H = MaskedStorage<Flagged<HashMapStorage<D>>>;
    let make = |set: &BTreeSet<u32>| {
        let mut m = H::default();
        for &i in set {
            m.insert(i, D::new(i));
        }
        m
    };
    let (mut a, mut b, mut c, d) = (make(&v[0]), make(&v[1]), make(&v[2]), make(&v[3]));
    b.set_track_modified(true);
    for &i in &v[3] {
        b.mark_modified(i);
    }
    let g: Vec<u32> = (&bits(&v[0]), a.guard(), (&mut c).maybe(), (&d).maybe()).join().map(|(i, mut g, c, d)| {
        assert!(g.get().val == i && g.get_mut().val == i, "values of different indexes at {i}");
        assert!(c.map(|c| c.val) == v[2].get(&i).copied() && d.map(|d| d.val) == v[3].get(&i).copied(), "an optional member at {i} is wrong");
        i
    }).collect();
    eq("a join of storages with large indexes", g, v[0].iter().copied().collect());
    let g: Vec<u32> = (&mut a, &b, BitSetNot(d.mask())).join().map(|(x, y, i)| {
        assert!(x.val == i && y.val == i, "values of different indexes at {i}");
        i
    }).collect();
    eq("a join with a complement", g, common(&v[..2]).into_iter().filter(|i| !v[3].contains(i)).collect());
    let g: Vec<u32> = (&bits(&v[3]), b.modified(), &d).join().map(|(i, x, y)| {
        assert!(x.map(|x| x.val) == v[1].get(&i).copied() && y.val == i, "values of different indexes at {i}");
        i
    }).collect();
    eq("a join of marked indexes", g, v[3].iter().copied().collect());
    let g: Vec<u32> = (b.modified_mut(), &d).join().map(|(x, y)| {
        assert!(x.map(|x| x.val) == v[1].get(&y.val).copied(), "values of different indexes at {}", y.val);
        y.val
    }).collect();
    eq("a mutable join of marked indexes", g, v[3].iter().copied().collect());
}
/// The other methods of the iterator, after some calls of `next`: they may be overridden.
fn ways<I: Iterator<Item = ((usize, u32), (usize, u32))>>(s: &mut Src, w: &[u32], mut it: I) {
    let (k, m, n) = (s.below(12), s.below(3) as usize, s.below(5) as usize);
    let f = |x: ((usize, u32), (usize, u32))| x.0 .1;
    for i in 0..m {
        assert!(it.next().map(f) == w.get(i).copied(), "item {i} of a join is wrong");
    }
    let w = w.get(m..).unwrap_or(&[]);
    let (lo, hi) = it.size_hint();
    assert!(lo <= w.len() && hi.map_or(true, |h| h >= w.len()), "the size hint {:?} of a join is wrong for {} items", (lo, hi), w.len());
    match k {
        0 => {
            assert!(it.nth(n).map(f) == w.get(n).copied(), "nth({n}) of a join is wrong");
            eq("a join after nth", it.map(f).collect(), w.get(n + 1..).unwrap_or(&[]).to_vec());
        }
        1 => assert!(it.count() == w.len(), "count of a join is wrong"),
        2 => assert!(it.last().map(f) == w.last().copied(), "last of a join is wrong"),
        3 => {
            let mut v = vec![];
            it.for_each(|x| v.push(f(x)));
            eq("for_each of a join", v, w.to_vec());
        }
        4 => eq("fold of a join", it.fold(vec![], |mut v, x| { v.push(f(x)); v }), w.to_vec()),
        5 => {
            let mut c = 0;
            let p = it.position(|_| { c += 1; c > n });
            assert!(p == (n < w.len()).then_some(n), "position in a join is wrong");
            eq("a join after position", it.map(f).collect(), w.get(n + 1..).unwrap_or(&[]).to_vec());
        }
        6 => eq("skip in a join", it.skip(n).map(f).collect(), w.get(n..).unwrap_or(&[]).to_vec()),
        7 => eq("step_by in a join", it.step_by(n + 1).map(f).collect(), w.iter().copied().step_by(n + 1).collect()),
        8 => assert!(it.map(f).max() == w.iter().copied().max(), "max of a join is wrong"),
        9 => {
            let x = w.get(n).copied();
            assert!(it.find(|x| Some(f(*x)) >= Some(w.get(n).copied().unwrap_or(u32::MAX))).map(f) == x, "find in a join is wrong");
            eq("a join after find", it.map(f).collect(), w.get(n + 1..).unwrap_or(&[]).to_vec());
        }
        10 => {
            let mut c = 0;
            let any = it.any(|_| { c += 1; c > n });
            assert!(any == (n < w.len()), "any of a join is wrong");
            eq("a join after any", it.map(f).collect(), w.get(n + 1..).unwrap_or(&[]).to_vec());
        }
        _ => {
            let (a, b): (Vec<u32>, Vec<u32>) = it.map(f).partition(|x| x % 2 == 0);
            eq("partition of a join", a, w.iter().copied().filter(|x| x % 2 == 0).collect());
            eq("partition of a join", b, w.iter().copied().filter(|x| x % 2 == 1).collect());
        }
    }
}
trait Twice {
    fn into_join_twice(self) -> Vec<u32>;
}
impl<'a, B: Join<Item = u32> + IntoJoin<Item = u32>> Twice for ((&'a Sto, (&'a Sto, (&'a Sto,))), B)
where
    <((&'a Sto, (&'a Sto, (&'a Sto,))), B) as IntoJoin>::IntoJoin: Join<Item = ((&'a D, (&'a D, (&'a D,))), u32)>,
{
    fn into_join_twice(self) -> Vec<u32> {
        self.into_join()
            .join_unconstrained()
            .map(|((x, (y, (z,))), i)| {
                assert!(x.val == i && y.val == i && z.val == i, "values of different indexes");
                i
            })
            .collect()
    }
}

// ---------------------------------------------------------------- J02
/// a set that says about itself what it is told to
#[derive(Clone)]
struct L(bool, BitSet);
impl BitSetLike for L {
    fn layer3(&self) -> usize { self.1.layer3() }
    fn layer2(&self, i: usize) -> usize { self.1.layer2(i) }
    fn layer1(&self, i: usize) -> usize { self.1.layer1(i) }
    fn layer0(&self, i: usize) -> usize { self.1.layer0(i) }
    fn contains(&self, i: u32) -> bool { self.1.contains(i) }
}
impl BitSetConstrained for L {
    fn is_constrained(&self) -> bool { self.0 }
}
struct Mk<M>(M);
impl<M: BitSetLike> Join for Mk<M> {
    type Item = u32;
    type Access = ();
    type Mask = M;
    fn open(self) -> (M, ()) { (self.0, ()) }
    unsafe fn get(_: &(), i: u32) -> u32 { i }
}
fn check<M: BitSetConstrained + Clone_ + Send + Sync>(m: M, want: bool) {
    let what = std::any::type_name::<M>();
    assert!(m.is_constrained() == want, "is_constrained of {what} is {}", !want);
    assert!((&m).is_constrained() == want && BitSetConstrained::is_constrained(&&&m) == want, "is_constrained of a reference to {what} differs");
    assert!(JoinIter::new(Mk(m.dup())).is_ok() == want, "JoinIter::new of {what}");
    assert!(JoinParIter::new(Mk(m.dup())).is_ok() == want, "JoinParIter::new of {what}");
    assert!(par_join::JoinParIter::new(Mk(m.dup())).is_ok() == want, "par_join::JoinParIter::new of {what}");
    assert!(panics(|| { let _ = Mk(m.dup()).join(); }) == !want, "join of {what}");
    assert!(panics(|| { let _ = Mk(m.dup()).par_join(); }) == !want, "par_join of {what}");
    assert!(!panics(|| { let _ = Mk(m.dup()).join_unconstrained(); }), "join_unconstrained of {what} is refused");
    assert!(!panics(|| { let _ = Mk(m.dup()).par_join_unconstrained(); }), "par_join_unconstrained of {what} is refused");
    let _ = JoinIter::new_unconstrained(Mk(m.dup()));
    let _ = JoinParIter::new_unconstrained(Mk(m.dup()));
    let _ = par_join::JoinParIter::new_unconstrained(Mk(m.dup()));
    assert!(panics(|| { let _ = (Mk(m.dup()), Mk(L(false, BitSet::new()))).join(); }) == !want, "join of a pair with {what}");
    assert!(!panics(|| { let _ = (Mk(m.dup()), Mk(L(true, BitSet::new()))).join(); }), "join of a pair with {what} and a constrained set");
    assert!(!panics(|| { let _ = (Mk(L(true, BitSet::new())), Mk(m.dup())).par_join(); }), "par_join of a pair with {what} and a constrained set");
    assert!(panics(|| { let _ = (Mk(L(false, BitSet::new())), Mk(m.dup()), Mk(BitSetAll)).par_join(); }) == !want, "par_join of a triple with {what}");
    assert!(panics(|| { let _ = Mk(m).maybe().join(); }), "join of maybe() alone");
}
trait Clone_ {
    fn dup(&self) -> Self;
}
impl Clone_ for L { fn dup(&self) -> L { self.clone() } }
impl Clone_ for BitSet { fn dup(&self) -> BitSet { self.clone() } }
impl Clone_ for AtomicBitSet { fn dup(&self) -> AtomicBitSet { self.iter().collect() } }
impl Clone_ for BitSetAll { fn dup(&self) -> BitSetAll { BitSetAll } }
impl<'a, A> Clone_ for &'a A { fn dup(&self) -> &'a A { *self } }
impl<A: Clone_ + BitSetLike> Clone_ for BitSetNot<A> { fn dup(&self) -> Self { BitSetNot(self.0.dup()) } }
macro_rules! dup { ($($t:ident)*) => { $( impl<A: Clone_ + BitSetLike, B: Clone_ + BitSetLike> Clone_ for $t<A, B> { fn dup(&self) -> Self { $t(self.0.dup(), self.1.dup()) } } )* } }
dup! { BitSetAnd BitSetOr BitSetXor }

fn pair<A: BitSetConstrained + Clone_ + Send + Sync, B: BitSetConstrained + Clone_ + Send + Sync>(x: u32, a: A, wa: bool, b: B, wb: bool) {
    match x % 3 {
        0 => check(BitSetAnd(a, b), wa || wb),
        1 => check(BitSetOr(a, b), wa && wb),
        _ => check(BitSetXor(a, b), wa && wb),
    }
}
fn second<A: BitSetConstrained + Clone_ + Send + Sync>(s: &mut Src, x: u32, a: A, wa: bool) {
    let (k, m, f, g) = (s.below(5), sets(s, 1)[0].iter().copied().collect::<BitSet>(), s.flag(), s.flag());
    let (l, r) = (L(f, m.clone()), L(g, m));
    s.saw((x, wa, k, f, g));
    match k {
        0 => pair(x, a, wa, l, f),
        1 => pair(x, a, wa, BitSetNot(l), !f),
        2 => pair(x, a, wa, BitSetAnd(l, r), f || g),
        3 => pair(x, a, wa, BitSetOr(l, r), f && g),
        _ => pair(x, a, wa, BitSetXor(l, r), f && g),
    }
}
fn constrained(s: &mut Src) {
    let (x, k, f, g) = (s.below(5), s.below(12), s.flag(), s.flag());
    let m: BitSet = sets(s, 1)[0].iter().copied().collect();
    let (l, r) = (L(f, m.clone()), L(g, m.clone()));
    s.saw((x, k, f, g));
    macro_rules! go {
        ($a:expr, $w:expr) => {{
            let (a, w) = ($a, $w);
            match x {
                0 => check(a, w),
                1 => check(BitSetNot(a), !w),
                _ => second(s, x, a, w),
            }
        }};
    }
    match k {
        0 => go!(l, f),
        1 => go!(m, true),
        2 => go!(m.iter().collect::<AtomicBitSet>(), true),
        3 => go!(BitSetAll, false),
        4 => go!(&m, true),
        5 => go!(&BitSetAll, false),
        6 => go!(BitSetNot(l), !f),
        7 => go!(BitSetAnd(l, r), f || g),
        8 => go!(BitSetOr(l, r), f && g),
        9 => go!(BitSetXor(l, r), f && g),
        10 => go!(&BitSetOr(l, r), f && g),
        _ => go!(&BitSetNot(&l), !f),
    }
}

// ---------------------------------------------------------------- J03
fn pool(n: usize) -> &'static rayon::ThreadPool {
    static P: OnceLock<Vec<rayon::ThreadPool>> = OnceLock::new();
    &P.get_or_init(|| [1, 2, 3, 5, 8, 16].iter().map(|&n| rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()).collect())[n % 6]
}
struct Count {
    id: usize,
    set: BitSet,
    asked: Vec<(u32, AtomicU32)>,
}
/// joins by counting how often each index is asked for
struct Counting<'a>(&'a Count);
impl<'a> Join for Counting<'a> {
    type Item = (usize, u32);
    type Access = &'a Count;
    type Mask = &'a BitSet;
    fn open(self) -> (&'a BitSet, &'a Count) {
        (&self.0.set, self.0)
    }
    unsafe fn get(c: &&'a Count, i: u32) -> (usize, u32) {
        match c.asked.binary_search_by_key(&i, |x| x.0) {
            Ok(k) => assert!(c.asked[k].1.fetch_add(1, Ordering::SeqCst) == 0, "index {i} is asked for twice"),
            Err(_) => panic!("index {i} is asked for but not in the mask"),
        }
        (c.id, i)
    }
}
fn spread(s: &mut Src) -> BTreeSet<u32> {
    let mut v = BTreeSet::new();
    for _ in 0..1 + s.below(5) {
        let (x, n) = (s.next().unwrap_or(0), s.below(70));
        // runs and strides at all layers of the bit sets
        let n = if x / 64 % 16 == 15 { n * 300 } else { n };
        let start = [0, 63, 64, 4090, 4096, 262_100, (1 << 24) - 64, (1 << 24) - 4000][(x % 8) as usize];
        let step = [1, 2, 63, 64, 65, 4096, 4097, 262_144][(x / 8 % 8) as usize];
        for k in 0..n {
            let i = start as u64 + k as u64 * step;
            if i < 1 << 24 {
                v.insert(i as u32);
            }
        }
    }
    v
}
fn parallel(s: &mut Src) {
    let k = s.below(5);
    let p = pool(s.below(6) as usize);
    let a = spread(s);
    let b = if s.flag() { spread(s) } else { a.iter().copied().filter(|i| i % 3 != 0).collect() };
    let w: Vec<u32> = a.intersection(&b).copied().collect();
    s.saw((k, a.len(), w.len()));
    let count = |id: usize, s: &BTreeSet<u32>| Count { id, set: s.iter().copied().collect(), asked: s.iter().map(|&i| (i, AtomicU32::new(0))).collect() };
    match k {
        0 => {
            let c = count(0, &a);
            let mut g: Vec<(usize, u32)> = p.install(|| Counting(&c).par_join().collect());
            g.sort();
            assert!(g == a.iter().map(|&i| (0, i)).collect::<Vec<_>>(), "a parallel join visits {g:?} instead of {a:?}");
        }
        1 => {
            let (c, d) = (count(0, &a), count(1, &b));
            let mut g: Vec<((usize, u32), (usize, u32))> = p.install(|| (Counting(&c), Counting(&d)).par_join().collect());
            g.sort();
            assert!(g == w.iter().map(|&i| ((0, i), (1, i))).collect::<Vec<_>>(), "a parallel join visits {g:?} instead of {w:?}");
        }
        2 => {
            let (c, d) = (count(0, &a), count(1, &b));
            let mut g: Vec<((usize, u32), Option<(usize, u32)>)> = p.install(|| (Counting(&c), Counting(&d).maybe()).par_join().collect());
            g.sort();
            assert!(g == a.iter().map(|&i| ((0, i), b.contains(&i).then_some((1, i)))).collect::<Vec<_>>(), "a parallel join with an optional member visits {g:?}");
        }
        3 => {
            let mut st: MaskedStorage<goggles::HashMapStorage<(u32, u32)>> = MaskedStorage::default();
            for &i in &a {
                st.insert(i, (i, 0));
            }
            let bs: BitSet = b.iter().copied().collect();
            p.install(|| (&mut st, &bs).par_join().for_each(|(x, i)| {
                assert!(x.0 == i, "a parallel join pairs index {i} with the value of {}", x.0);
                x.1 += 1;
            }));
            for x in (&st).join() {
                assert!(x.1 == b.contains(&x.0) as u32, "a parallel join visits {} {} times", x.0, x.1);
            }
        }
        _ => {
            let c = count(0, &b);
            let n = p.install(|| Counting(&c).par_join_unconstrained().map(|x| x.1 as u64).sum::<u64>());
            assert!(n == b.iter().map(|&i| i as u64).sum::<u64>(), "an unconstrained parallel join visits other indexes");
            assert!(c.asked.iter().all(|x| x.1.load(Ordering::SeqCst) == 1), "an unconstrained parallel join leaves out an index");
        }
    }
}

pub fn engines(v: &mut Vec<Engine>) {
    v.push(Engine::new("join-tuples", &["J01"], tuples).len(4).fixed((0..26).flat_map(|k| (0..6).map(move |j| vec![k, 0xffff - (j % 3) * 0x1234, 7 + j])).collect()));
    v.push(Engine::new("join-members", &["J01"], members).len(8).fixed((0..18).flat_map(|k| (0..6).map(move |j| vec![k, 0xffff - (j % 3) * 0x1234, 7 + j, 50])).collect()));
    let mut all = vec![];
    for x in 0..5u32 { for k in 0..12u32 { for fg in 0..4u32 { for k2 in 0..if x > 1 { 5 } else { 1 } { for fg2 in 0..if x > 1 { 4 } else { 1 } {
        all.push(vec![x, k, fg % 2, fg / 2, 0, 1, k2, 0, 1, fg2 % 2, fg2 / 2]);
    }}}}}
    v.push(Engine::new("constrained", &["J02"], constrained).len(12).fixed(all));
    v.push(Engine::new("join-parallel", &["J03"], parallel).len(24).fixed((0..6).flat_map(|p| (0..4).map(move |k| vec![k, p, 0, 15 * 64 + 6 * k, 69, 0])).collect()));
}
