//! DEP: the contracts that the proofs assume of dependencies, against the dependencies themselves.
use crate::rt::{panics, Engine, Src};
use atomic_refcell::AtomicRefCell;
use goggles::hibitset::{AtomicBitSet, BitProducer, BitSet, BitSetAll, BitSetAnd, BitSetLike, BitSetNot, BitSetOr, BitSetXor};
use std::collections::{BTreeMap, BTreeSet};

const LIMIT: u32 = 1 << 24;
fn index(x: u32) -> u32 {
    match x % 9 {
        0 => x / 9 % 4,
        1 => 60 + x / 9 % 8,
        2 => 4090 + x / 9 % 12,
        3 => 262138 + x / 9 % 12,
        4 => LIMIT - 1 - x / 9 % 3,
        5 => x / 9 % 70 * 64,
        6 => x / 9 % 10 * 4096 + x % 3,
        _ => x / 9 % 200,
    }
}
fn iterates<B: BitSetLike>(b: B, want: impl Fn(u32) -> bool, all: bool, what: &str)
where
    for<'x> &'x B: BitSetLike,
{
    let mut last = None;
    let mut n = 0;
    for i in (&b).iter() {
        assert!(last < Some(i) && i < LIMIT && want(i), "{what} yields {i} after {last:?}");
        assert!(b.contains(i), "{what} does not contain {i}");
        // nothing in between
        let from = last.map_or(0, |l: u32| l + 1);
        for k in (from..i).take(300).chain((from..i).rev().take(300)) {
            assert!(!want(k) && !b.contains(k), "{what} leaves out {k}");
        }
        last = Some(i);
        n += 1;
        if !all && n > 300 {
            return;
        }
    }
    let from = last.map_or(0, |l: u32| l + 1);
    for k in (from..LIMIT).take(300).chain((from..LIMIT).rev().take(300)) {
        assert!(!want(k), "{what} leaves out {k}");
    }
}
fn bits(s: &mut Src) {
    let (mut a, mut b) = (BitSet::new(), AtomicBitSet::new());
    let (mut ma, mut mb) = (BTreeSet::new(), BTreeSet::new());
    let mut seen = vec![];
    while let Some(x) = s.next() {
        let i = index(x >> 4);
        seen.push(i);
        match x & 15 {
            0..4 => assert!(a.add(i) == !ma.insert(i), "add({i})"),
            4..6 => assert!(a.remove(i) == ma.remove(&i), "remove({i})"),
            6..9 => assert!(b.add_atomic(i) == !mb.insert(i), "add_atomic({i})"),
            9..11 => assert!(b.add(i) == !mb.insert(i), "atomic add({i})"),
            11..13 => assert!(b.remove(i) == mb.remove(&i), "atomic remove({i})"),
            13 => {
                let k = i.wrapping_add(x).wrapping_mul(0x9e37_79b9);
                assert!(a.contains(k) == ma.contains(&k) && (k < LIMIT || !a.remove(k)), "contains({k})");
            }
            14 if x >> 4 & 15 == 3 => {
                a.clear();
                ma.clear();
            }
            15 if x >> 4 & 15 == 3 => {
                b.clear();
                mb.clear();
            }
            _ => {}
        }
        for &k in &seen {
            assert!(a.contains(k) == ma.contains(&k) && b.contains(k) == mb.contains(&k), "contains({k})");
        }
    }
    s.saw((&ma, &mb));
    let (a, b) = (&a, &b);
    let (ha, hb) = (|i: u32| ma.contains(&i), |i: u32| mb.contains(&i));
    iterates(a, ha, true, "BitSet");
    iterates(b, hb, true, "AtomicBitSet");
    iterates(BitSetAnd(a, b), |i| ha(i) && hb(i), true, "BitSetAnd");
    iterates(BitSetOr(a, b), |i| ha(i) || hb(i), true, "BitSetOr");
    iterates(BitSetXor(a, b), |i| ha(i) != hb(i), true, "BitSetXor");
    iterates(BitSetAnd(a, BitSetNot(b)), |i| ha(i) && !hb(i), true, "BitSetAnd of a BitSetNot");
    iterates(BitSetAnd(BitSetAll, BitSetXor(b, a)), |i| ha(i) != hb(i), true, "BitSetAnd of BitSetAll");
    iterates(BitSetAnd(BitSetOr(a, b), BitSetOr(BitSetNot(a), BitSetNot(b))), |i| ha(i) != hb(i), true, "a nesting");
    iterates(BitSetNot(a), |i| !ha(i), false, "BitSetNot");
    iterates(BitSetOr(b, BitSetNot(a)), |i| hb(i) || !ha(i), false, "BitSetOr of a BitSetNot");
    iterates(BitSetNot(BitSetAnd(a, b)), |i| !(ha(i) && hb(i)), false, "BitSetNot of a BitSetAnd");
    iterates(BitSetAll, |_| true, false, "BitSetAll");
}
/// the parts of a split mask
fn split(s: &mut Src) {
    let layers = 1 + s.below(3) as u8;
    let mut m = BTreeSet::new();
    let mut a = BitSet::new();
    let deep = s.below(60);
    let mut way = s.below(u32::MAX);
    while let Some(x) = s.next() {
        let i = index(x);
        m.insert(i);
        a.add(i);
    }
    use rayon::iter::plumbing::UnindexedProducer;
    let mut open = vec![BitProducer((&a).iter(), layers)];
    let mut got = vec![];
    let mut n = 0;
    while let Some(p) = open.pop() {
        way = way.rotate_left(5).wrapping_add(1);
        if n < deep && way & 7 != 0 {
            n += 1;
            let (x, y) = p.split();
            match y {
                Some(y) => open.extend([x, y]),
                None => got.extend(x.0),
            }
        } else {
            got.extend(p.0);
        }
    }
    got.sort();
    assert!(got == m.iter().copied().collect::<Vec<_>>(), "the parts of {m:?} have {got:?}");
    s.saw(&got);
}
/// borrows of a cell
fn cells(s: &mut Src) {
    let mut c = AtomicRefCell::new(0u32);
    let mut v = 0;
    while let Some(x) = s.next() {
        match x % 5 {
            0 => {
                let r = c.borrow();
                assert!(*r == v && *c.borrow() == v && panics(|| drop(c.borrow_mut())), "borrow");
            }
            1 => {
                let mut r = c.borrow_mut();
                *r = x;
                v = x;
                assert!(panics(|| drop(c.borrow())) && panics(|| drop(c.borrow_mut())), "borrow_mut");
            }
            2 => {
                *c.get_mut() = x;
                v = x;
            }
            3 => {
                let r = atomic_refcell::AtomicRef::map(c.borrow(), |r| r);
                assert!(*r == v && panics(|| drop(c.borrow_mut())), "AtomicRef::map");
                drop(r);
                let mut r = atomic_refcell::AtomicRefMut::map(c.borrow_mut(), |r| r);
                *r = x;
                v = x;
                assert!(panics(|| drop(c.borrow())), "AtomicRefMut::map");
            }
            _ => {
                assert!(c.into_inner() == v, "into_inner");
                c = AtomicRefCell::new(x);
                v = x;
            }
        }
    }
    s.saw(v);
}
fn maps(s: &mut Src) {
    use anymap::{any::Any, Map};
    let mut a: Map<dyn Any + Send + Sync> = Map::new();
    let mut m: BTreeMap<u32, u32> = BTreeMap::new();
    while let Some(x) = s.next() {
        macro_rules! on {
            ($t:ty, $k:expr) => {
                match x / 4 % 5 {
                    0 | 1 => assert!(a.insert(x as $t) == m.insert($k, x as $t as u32).map(|x| x as $t), "insert"),
                    2 => assert!(a.remove::<$t>() == m.remove(&$k).map(|x| x as $t), "remove"),
                    3 => {
                        if let Some(r) = a.get_mut::<$t>() {
                            *r ^= 1;
                            *m.get_mut(&$k).unwrap() ^= 1;
                        } else {
                            assert!(!m.contains_key(&$k), "get_mut");
                        }
                    }
                    _ => assert!(a.contains::<$t>() == m.contains_key(&$k) && a.get::<$t>().copied() == m.get(&$k).map(|x| *x as $t), "get"),
                }
            };
        }
        match x % 4 {
            0 => on!(u8, 0),
            1 => on!(u16, 1),
            2 => on!(u32, 2),
            _ => on!(i32, 3),
        }
    }
    s.saw(&m);
}
pub fn engines(v: &mut Vec<Engine>) {
    v.push(Engine::new("assumed-bits", &["DEP"], bits).len(40));
    v.push(Engine::new("assumed-split", &["DEP"], split).len(30));
    v.push(Engine::new("assumed-cells", &["DEP"], cells).len(12));
    v.push(Engine::new("assumed-maps", &["DEP"], maps).len(30));
}
